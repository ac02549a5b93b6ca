// C14: copies and conversions preserve the multivector or are refused.
#include "operands.hpp"

using namespace NS;
using opnd::make; using opnd::mk; using ref::mv; using ref::num;

#ifndef PART
#define PART 0
#define NPARTS 1
#endif

// The basis blades a target has a stored slot for (dynamic slots are told by `dynamic`).
template<class X> struct has_dynamic { static constexpr bool value = false; };
template<class C, class E> struct has_dynamic<ga::clifford_expression<C, E> > { static constexpr bool value = ga::detail::count_stored_bitsets_v<E> != 0; };
template<class X> constexpr bool dynamic_v = has_dynamic<X>::value;

template<class T> std::set<ref::bits> slots() {
    std::set<ref::bits> s; T t{}; ga::for_each_component(t, [&](auto bs, auto const &, auto, auto, bool &) { s.insert(static_cast<ref::bits>(bs)); });
    return s;
}
template<class T> T junk() { T t{}; int k = 1; for (auto &v : t.values()) v = static_cast<std::decay_t<decltype(v)>>(k++ * 111); for (auto &b : t.bitsets()) b = 1; return t; }

// A copy with a check at run time: keeps every component above the tolerance or throws.
template<class T, class O> void checked(char const *target, O const &o, bool may_refuse_dynamic) {
    using X = std::decay_t<decltype(o.x)>;
    auto const slot = slots<T>();
    num const def = std::is_same_v<typename O::coefficient, double> || std::is_same_v<typename O::coefficient, float> ? 1e-8L : 0;
    auto one = [&](std::string const &how, num tol, auto &&copy) {
        T t = junk<T>();
        mon::at(how + " to " + target, o.shape, o.r.str());
        bool thrown = false;
        try { copy(t); } catch (ga::bad_checked_copy_exception const &x) { thrown = true; mon::verdict_bool("exception text", target, "", std::string(x.what()).size() > 0, "a text", "none"); }
        bool fits = true, exact = true;
        if (!dynamic_v<T>) for (auto const &p : o.r.c) if (!slot.count(p.first)) { if (std::fabs(p.second) > tol) fits = false; else exact = false; }
        if (thrown) {
            // allowed when something does not fit (or the storage of the basis blade is only known at run time on one side)
            mon::verdict_bool(how + " to " + target, o.shape, o.r.str(), !fits || may_refuse_dynamic, "a copy", "bad_checked_copy_exception");
        } else if (!fits) mon::verdict_bool(how + " to " + target, o.shape, o.r.str(), false, "bad_checked_copy_exception", mon::R(t).str());
        else mon::verdict(how + " to " + target, o.shape, OPS(o.r), mon::R(t), o.r, tol == 0 || (exact && !dynamic_v<X>) ? 0 : tol);
        mon::verdict_bool("source of " + how, o.shape, o.r.str(), mon::close(mon::R(o.x), o.r, 0), o.r.str(), mon::R(o.x).str());
    };
    one("checked_trivial_copy", def, [&](T &t) { ga::checked_trivial_copy(o.x, t); });
    one("checked_trivial_copy with tolerance 2.5", std::is_same_v<typename O::coefficient, long> ? 2 : 2.5L, [&](T &t) { ga::checked_trivial_copy(o.x, t, 2.5); });
    one("checked_trivial_copy with tolerance 0", 0, [&](T &t) { ga::checked_trivial_copy(o.x, t, 0.0); });
    if constexpr (ga::is_clifford_expression_v<std::decay_t<decltype(o.x)>>) {
        one("constructor", def, [&](T &t) { T n(o.x); t = n; });
        one("copy initialisation", def, [&](T &t) { T n = o.x; t = n; });
        one("converting assignment", def, [&](T &t) { t = o.x; });
        one("constructor from a temporary", def, [&](T &t) { auto c = o.x; T n(std::move(c)); t = n; });
        auto nonconst = o.x;
        one("constructor from a variable", def, [&](T &t) { T n(nonconst); t = n; });
    }
}

// A copy checked by the compiler.
template<class T, class O> void unchecked(char const *target, O const &o) {
    T t = junk<T>();
    mon::at(std::string("trivial_copy to ") + target, o.shape, o.r.str());
    ga::trivial_copy(o.x, t);
    mon::verdict(std::string("trivial_copy to ") + target, o.shape, OPS(o.r), mon::R(t), o.r, 0);
    // assigned, moved and swapped copies are independent of each other
    T u = t, w; w = u; T x = std::move(u);
    mon::verdict(std::string("copy of copy to ") + target, o.shape, OPS(o.r), mon::R(w), o.r, 0);
    for (auto &v : w.values()) v = 77; 
    mon::verdict(std::string("moved copy to ") + target, o.shape, OPS(o.r), mon::R(x), o.r, 0);
    w = t; T &self = w; w = self;
    mon::verdict(std::string("self-assignment of ") + target, o.shape, OPS(o.r), mon::R(w), o.r, 0);
}

template<class X> struct coeff { using type = X; };
template<class C, class E> struct coeff<ga::clifford_expression<C, E> > { using type = C; };
template<class X> struct src { using coefficient = typename coeff<X>::type; X x; mv r; char const *shape; };

template<int I> void one() {
    auto const o0 = make<I>();
    src<std::decay_t<decltype(o0.x)>> const o{o0.x, o0.r, o0.shape};
    using X = std::decay_t<decltype(o.x)>;
    constexpr bool dyn = dynamic_v<X>;
    using F = full_multivector_t<double, ND>;
    using V = full_vector_t<double, ND>;
    using K = full_kvector_t<double, ND, opnd::LO2>;
    using L = full_multivector_t<double, ND, 0, opnd::LO2>;
    using S_ = ga::scalar_clifford_expression<double, ga::detail::stored_value>;
    using FI = full_multivector_t<int, ND>;
    using FF = full_multivector_t<float, ND>;
    checked<F>("full multivector<double>", o, dyn);
    checked<V>("full vector<double>", o, dyn);
    checked<K>("full 2-vector<double>", o, dyn);
    checked<L>("multivector<double> grades 0..2", o, dyn);
    checked<S_>("scalar<double>", o, dyn);
    checked<FF>("full multivector<float>", o, dyn);
    if constexpr (std::is_integral_v<typename coeff<X>::type> || true) checked<FI>("full multivector<int>", o, dyn);
    auto blade = [&](auto t, char const *name) { checked<decltype(t)>(name, o, false); unchecked<decltype(t)>(name, o); };
    if constexpr (I == 16 || I == 17) blade(scaled_basis_blade_t<double, 1, 1>{}, "run-time basis vector");
    if constexpr (I == 18) blade(scaled_basis_blade_t<double, 2, 2>{}, "run-time basis 2-blade");
    if constexpr (I == 21) blade(scaled_basis_blade_t<double, 0, ND>{}, "run-time basis blade of any grade");
    if constexpr (!dyn) {
        unchecked<F>("full multivector<double>", o);
        unchecked<FI>("full multivector<int>", o);
        if constexpr (I == 4 || I == 5 || I == 6 || I == 10) unchecked<V>("full vector<double>", o);
        if constexpr (I == 7 || I == 11) unchecked<K>("full 2-vector<double>", o);
        if constexpr (I < 12 || I == 14) unchecked<L>("multivector<double> grades 0..2", o);
        if constexpr (I < 4) unchecked<S_>("scalar<double>", o);
    }
    // copies within one type
    { X y = o.x; X z{}; z = y; mon::verdict("copy", o.shape, OPS(o.r), mon::R(y), o.r, 0); mon::verdict("assignment", o.shape, OPS(o.r), mon::R(z), o.r, 0); X w = std::move(y); mon::verdict("move", o.shape, OPS(o.r), mon::R(w), o.r, 0);
      if constexpr (ga::is_clifford_expression_v<X>) { X t = X(o.x); ga::trivial_copy(o.x, t); mon::verdict("trivial_copy to its own type", o.shape, OPS(o.r), mon::R(t), o.r, 0); ga::checked_trivial_copy(o.x, t); mon::verdict("checked_trivial_copy to its own type", o.shape, OPS(o.r), mon::R(t), o.r, 0); } }
    // scalars to native numbers and back
    if constexpr (I < 4) {
        auto const s = scalar(o.x);
        double const d = s; float const f = s; long double const l = s; int const i = s; long const n = s;
        double d2; d2 = s;
        std::vector<std::pair<char const *, num>> const got{{"double", d}, {"float", f}, {"long double", l}, {"int", i}, {"long", n}, {"assigned double", d2}, {"static_cast<double>", static_cast<double>(s)}};
        for (auto const &g : got) mon::verdict(std::string("scalar to ") + g.first, o.shape, OPS(o.r), mv(g.second), o.r, 0);
        mon::verdict("native to scalar", "double", OPS(o.r), mon::R(scalar(d)), o.r, 0);
        mon::verdict("native to scalar", "int", OPS(o.r), mon::R(scalar(i)), o.r, 0);
        mon::verdict("native to scalar", "long double", OPS(o.r), mon::R(scalar(l)), o.r, 0);
    }
}

template<int I> void from() { if constexpr (I < opnd::SHAPES) { for (int k = 0; k < mon::S().rounds; ++k) one<I>(); from<I + NPARTS>(); } }

int main(int argc, char **argv) {
    mon::begin(argc, argv, PROPERTY, UNIT);
    from<PART>();
#if PART == 0
    for (int k = 0; k < mon::S().rounds * 4; ++k) {
        double const x = mon::dreal(), y = mon::dreal();
        auto const a = x * e(c<1>) + y * e(c<ND>);
        auto check = [](char const *what, num got, num want, num in) { mon::verdict(what, "computed scalar", OPS(mv(in)), mv(got), mv(want), 4e-16L); };
        { double d = sp(e(c<1>), e(c<1>)); check("double = sp of constants", d, SP.G(0, 0), 0); }
        { double d = inv(c<3>); check("double = inv(c<3>)", d, num(1) / 3, 3); }
        { double d = c<5> * inv(c<-10>); check("double = c<5> * inv(c<-10>)", d, num(-0.5), 5); }
        { double d = sqrt(c<2>); check("double = sqrt(c<2>)", d, std::sqrt(num(2)), 2); }
        { double d = scalar(x) * c<3>; check("double = scalar(x) * c<3>", d, num(x) * 3, x); }
        { double d = scalar(x) - scalar(y); check("double = scalar(x) - scalar(y)", d, num(x) - num(y), x); }
        { double d = take_grade(a, c<0>); check("double = empty grade part", d, 0, x); }
        { double const d = sp(a, a); check("double = sp(a, a)", d, SP.sp(mon::R(a), mon::R(a)).at(0), x); }
        { float const d = c<7>; check("float = c<7>", d, 7, 7); }
        { double const s[2] = {c<1>, c<-2>}; check("array of double from constants", s[0] + s[1], -1, 1); }
    }
#endif
    return mon::finish();
}
