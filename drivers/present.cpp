// Construction, iteration over components and textual output.
#include "operands.hpp"
#include <deque>
#include <iomanip>
#include <list>
using namespace NS;
using opnd::make; using opnd::mk; using ref::mv; using ref::num;

#ifndef PART
#define PART 0
#endif
#ifndef NPARTS
#define NPARTS 22
#endif

// ---- reading the text back: the value of what was written, the numbers shown as stored and those shown as constants
struct reader {
    std::string s; size_t i = 0; int stored = 0, constant = 0; bool ok = true; bool inside = false;
    bool eat(char const *t) { size_t n = std::strlen(t); if (s.compare(i, n, t) == 0) { i += n; return true; } return false; }
    mv sum() { mv r = product(); while (ok && eat(" + ")) r = r + product(); return r; }
    mv product() { mv r = factor(); while (ok && eat(" * ")) r = ref::op(r, factor()); return r; }
    bool blade(mv &r) {
        int best = -1; for (int k = 0; k < ND; ++k) if (s.compare(i, basis_vectors_names[k].size(), basis_vectors_names[k]) == 0 && (best < 0 || basis_vectors_names[k].size() > basis_vectors_names[best].size())) best = k;
        if (best < 0) return false;
        i += basis_vectors_names[best].size(); r = mv::blade(ref::bits(1) << best); mv next;
        if (eat("^")) { if (!blade(next)) ok = false; r = ref::op(r, next); }
        return true;
    }
    mv factor() {
        mv r;
        if (eat("<")) { bool const was = inside; inside = true; r = factor(); inside = was; if (!eat(">")) ok = false; return r; }
        if (eat("(")) { r = sum(); if (!eat(")")) ok = false; return r; }
        static std::pair<char const *, num (*)(num)> const fn[] = {{"abs(", [](num x) { return std::fabs(x); }}, {"exp(", [](num x) { return std::exp(x); }}, {"log(", [](num x) { return std::log(x); }}, {"cosh(", [](num x) { return std::cosh(x); }}, {"sinh(", [](num x) { return std::sinh(x); }}, {"tanh(", [](num x) { return std::tanh(x); }}, {"cos(", [](num x) { return std::cos(x); }}, {"sin(", [](num x) { return std::sin(x); }}, {"tan(", [](num x) { return std::tan(x); }}};
        for (auto const &f : fn) if (eat(f.first)) { r = mv(f.second(sum().at(0))); if (!eat(")")) ok = false; return r; }
        if (eat("pow(")) { num a = sum().at(0); if (!eat(", ")) ok = false; num b = sum().at(0); if (!eat(")")) ok = false; num k = std::round(b * 3); return mv(a < 0 && b != std::floor(b) && std::fabs(k - b * 3) < 1e-15L ? std::pow(std::cbrt(a), k) : std::pow(a, b)); }
        if (blade(r)) return r;
        char *e; num v = std::strtod(s.c_str() + i, &e); if (e == s.c_str() + i) { ok = false; return r; }
        i = e - s.c_str(); if (inside) ++constant; else ++stored;
        return mv(v);
    }
};

template<class X> constexpr size_t stored_values = ga::detail::count_stored_values_v<typename X::expression_type>;
template<class X> constexpr size_t stored_bitsets = ga::detail::count_stored_bitsets_v<typename X::expression_type>;

// exact: the coefficients are integers or stored numbers
template<class X> void text(X const &x, mv const &want, std::string const &sh, bool exact) {
    std::ostringstream os; os << std::setprecision(20); mon::at("operator<<", sh, want.str());
    std::ostream &ret = os << x; reader r{os.str()}; mv const got = r.sum();
    mon::verdict_bool("operator<<", sh, want.str(), r.ok && r.i == r.s.size() && mon::close(got, want, exact ? 0 : 1e-15L), want.str(), os.str());
    mon::verdict_bool("operator<< returns its stream", sh, want.str(), &ret == &os, "the stream", "another one", false);
    if (exact) {
        // run-time scalars are written as a bare 1
        size_t const scalar_blades = [&] { size_t n = 0; ga::for_each_component(x, [&](auto b, auto const &, ga::entry_source_t sb, auto, bool &) { n += sb != ga::entry_source_t::COMPILE_TIME_DEFINED_ENTRY && b == 0; }); return n; }();
        mon::verdict_bool("constants are written as constants", sh, want.str(), static_cast<size_t>(r.stored) == stored_values<X> + scalar_blades, std::to_string(stored_values<X>) + " stored numbers", os.str());
    }
    std::ostringstream o2; o2 << std::setprecision(20); write(o2, x, basis_vectors_names);
    mon::verdict_bool("write", sh, want.str(), o2.str() == os.str(), os.str(), o2.str());
    std::array<std::string, ND> other; for (int k = 0; k < ND; ++k) other[k] = basis_vectors_names[ND - 1 - k];
    std::ostringstream o3; o3 << std::setprecision(20); write(o3, x, other); reader r3{o3.str()}; mv mirror;
    for (auto const &p : want.c) { mv b(p.second); for (int k = 0; k < ND; ++k) if (p.first >> k & 1) b = ref::op(b, mv::blade(ref::bits(1) << (ND - 1 - k))); mirror = mirror + b; }
    mv const g3 = r3.sum();
    mon::verdict_bool("write with names of the caller", sh, want.str(), r3.ok && mon::close(g3, mirror, exact ? 0 : 1e-15L), mirror.str(), o3.str());
}

template<class X> void iterate(X const &x, mv const &want, std::string const &sh) {
    mon::at("for_each_component", sh, want.str());
    mv got; size_t n = 0, sv = 0, sb = 0; std::set<ref::bits> fixed; bool twice = false, grew = true;
    bool const full = ga::for_each_component(x, [&](auto b, auto const &v, ga::entry_source_t bs, ga::entry_source_t vs, bool &) {
        ++n; got.acc(static_cast<ref::bits>(b), static_cast<num>(v)); sv += vs == ga::entry_source_t::STORED_RUNTIME_DEFINED_ENTRY; sb += bs == ga::entry_source_t::STORED_RUNTIME_DEFINED_ENTRY;
        if (bs == ga::entry_source_t::COMPILE_TIME_DEFINED_ENTRY) twice |= !fixed.insert(static_cast<ref::bits>(b)).second;
        if (vs == ga::entry_source_t::STORED_RUNTIME_DEFINED_ENTRY) grew &= &v >= &*x.values().cbegin() && &v < &*x.values().cbegin() + stored_values<X>;
    });
    mon::verdict("for_each_component", sh, OPS(want), got, want, 0);
    auto num_eq = [&](char const *what, size_t got_, size_t want_) { mon::verdict_bool(what, sh, want.str(), got_ == want_, std::to_string(want_), std::to_string(got_)); };
    num_eq("entries with stored values", sv, stored_values<X>); num_eq("entries with stored basis blades", sb, stored_bitsets<X>);
    num_eq("size of the storage of values", static_cast<size_t>(std::distance(x.values().cbegin(), x.values().cend())), stored_values<X>); num_eq("size of the storage of basis blades", static_cast<size_t>(std::distance(x.bitsets().cbegin(), x.bitsets().cend())), stored_bitsets<X>);
    mon::verdict_bool("each constant basis blade once, values in place, all visited", sh, want.str(), !twice && grew && full, "once", "twice or elsewhere");
    // stopping after k components visits k components
    for (size_t k = 1; k <= n; ++k) {
        size_t m = 0; mv part; bool const r = ga::for_each_component(x, [&](auto b, auto const &v, auto, auto, bool &go) { ++m; part.acc(static_cast<ref::bits>(b), static_cast<num>(v)); if (m == k) go = false; });
        mon::verdict_bool("stopping the iteration", sh, want.str(), m == k && !r, std::to_string(k), std::to_string(m));
    }
}

// The stored numbers alone, read without the library's iteration.
template<class X> void storage(X const &x, std::vector<num> const &want, std::string const &sh) {
    std::vector<num> got; for (auto const &v : x.values()) got.push_back(static_cast<num>(v));
    bool same = got == want; std::string a, b; for (num v : want) a += std::to_string(v) + " "; for (num v : got) b += std::to_string(v) + " ";
    mon::verdict_bool("stored values", sh, a, same, a, b);
}

template<int I> void row() {
    if constexpr (I < opnd::SHAPES) {
        for (int k = 0; k < mon::S().rounds; ++k) {
            auto const a = make<I>();
            if constexpr (!opnd::native_v<std::decay_t<decltype(a.x)>>) { iterate(a.x, a.r, a.shape); text(a.x, a.r, a.shape, true); }
        }
        row<I + NPARTS>();
    }
}

static mv B(int i) { return mv::blade(ref::bits(1) << (i - 1)); }
static mv V(std::vector<num> const &a) { mv r; for (int i = 0; i < ND; ++i) r = r + a[i] * B(i + 1); return r; }

template<size_t... I> void vectors_(std::index_sequence<I...>) {
    std::vector<double> d; for (int i = 0; i < ND; ++i) d.push_back(mon::dint());
    std::vector<num> w(d.begin(), d.end());
    OBSERVE("vector", "doubles", OPS(V(w)), NS::vector(d[I]...), V(w), 0);
    storage(NS::vector(d[I]...), w, "vector(doubles)");
    OBSERVE("vector", "floats", OPS(V(w)), NS::vector(static_cast<float>(d[I])...), V(w), 0);
    OBSERVE("vector", "ints", OPS(V(w)), NS::vector(static_cast<int>(d[I])...), V(w), 0);
    OBSERVE("vector", "shorts", OPS(V(w)), NS::vector(static_cast<short>(d[I])...), V(w), 0);
    OBSERVE("vector", "scalars", OPS(V(w)), NS::vector(scalar(d[I])...), V(w), 0);
    // every third coordinate a constant, a double, an int or scalar
    auto mix = [&](auto k, auto shift) { constexpr int m = (decltype(k)::value + decltype(shift)::value) % 5; double const x = d[decltype(k)::value];
        if constexpr (m == 0) return c<(decltype(k)::value % 7) - 3>; else if constexpr (m == 1) return x; else if constexpr (m == 2) return static_cast<int>(x); else if constexpr (m == 3) return scalar(static_cast<float>(x)); else return c<-2> * scalar(x); };
    auto expect = [&](int shift) { std::vector<num> r; for (int k = 0; k < ND; ++k) { int const m = (k + shift) % 5; r.push_back(m == 0 ? k % 7 - 3 : m == 4 ? -2 * num(d[k]) : num(d[k])); } return r; };
    auto stored = [&](int shift) { std::vector<num> r, e = expect(shift); for (int k = 0; k < ND; ++k) { if ((k + shift) % 5) r.push_back(e[k]); } return r; };
    auto mixed = [&](auto shift) {
        auto const v = NS::vector(mix(std::integral_constant<int, I>{}, shift)...); mv const r = V(expect(shift)); std::string const sh = "mixture " + std::to_string(shift);
        mon::verdict("vector", sh, OPS(r), mon::R(v), r, 0); storage(v, stored(shift), "vector(" + sh + ")"); iterate(v, r, "vector(" + sh + ")"); text(v, r, "vector(" + sh + ")", true);
        auto const t = std::make_tuple(mix(std::integral_constant<int, I>{}, shift)...);   // lvalues
        OBSERVE("vector", sh + " of lvalues", OPS(r), NS::vector(std::get<I>(t)...), r, 0);
    };
    mixed(std::integral_constant<int, 0>{}); mixed(std::integral_constant<int, 1>{}); mixed(std::integral_constant<int, 2>{}); mixed(std::integral_constant<int, 3>{}); mixed(std::integral_constant<int, 4>{});
    std::vector<num> k; for (int i = 0; i < ND; ++i) k.push_back(i % 5 - 2);
    OBSERVE("vector", "constants", OPS(V(k)), NS::vector(c<(int(I) % 5) - 2>...), V(k), 0);
    text(NS::vector(c<(int(I) % 5) - 2>...), V(k), "vector(constants)", true);
    std::deque<float> q(d.begin(), d.end()); std::vector<int> vi(d.begin(), d.end()); double raw[ND]; std::copy(d.begin(), d.end(), raw);
    OBSERVE("vector", "vector iterators", OPS(V(w)), NS::vector(d.begin(), d.end()), V(w), 0);
    OBSERVE("vector", "const iterators", OPS(V(w)), NS::vector(d.cbegin(), d.cend()), V(w), 0);
    OBSERVE("vector", "deque iterators", OPS(V(w)), NS::vector(q.begin(), q.end()), V(w), 0);
    OBSERVE("vector", "int iterators", OPS(V(w)), NS::vector(vi.begin(), vi.end()), V(w), 0);
    OBSERVE("vector", "pointers", OPS(V(w)), NS::vector(raw, raw + ND), V(w), 0);
    OBSERVE("vector", "const pointers", OPS(V(w)), NS::vector(static_cast<double const *>(raw), static_cast<double const *>(raw) + ND), V(w), 0);
    OBSERVE("vector", "reverse iterators", OPS(V(w)), NS::vector(d.rbegin(), d.rend()), V(std::vector<num>(d.rbegin(), d.rend())), 0);
}

template<int Gr, class T> void full_grade() {
    full_kvector_t<T, ND, Gr> x; auto const order = [] { std::vector<ref::bits> r; for (ref::bits b = 0; b <= SP.all(); ++b) if (__builtin_popcountll(b) == Gr) r.push_back(b); return r; }();
    std::vector<num> w; mv r; for (auto b : order) { w.push_back(mon::irand(1, 99)); r.acc(b, w.back()); }
    size_t i = 0; for (auto &v : x.values()) v = static_cast<T>(w.at(i++));
    mon::verdict_bool("components of full_kvector_t", std::to_string(Gr), r.str(), i == w.size(), std::to_string(w.size()), std::to_string(i));
    iterate(x, r, "full_kvector_t " + std::to_string(Gr)); text(x, r, "full_kvector_t " + std::to_string(Gr), true);
    if constexpr (Gr < ND) full_grade<Gr + 1, T>();
}
template<int A, int Z> void full_range() {
    full_multivector_t<double, ND, A, Z> x; std::vector<num> w; mv r;
    for (int g = A; g <= Z; ++g) for (ref::bits b = 0; b <= SP.all(); ++b) if (__builtin_popcountll(b) == g) { w.push_back(mon::irand(1, 99)); r.acc(b, w.back()); }
    size_t i = 0; for (auto &v : x.values()) v = static_cast<double>(w.at(i++));
    iterate(x, r, "full_multivector_t " + std::to_string(A) + ".." + std::to_string(Z)); storage(x, w, "full_multivector_t"); text(x, r, "full_multivector_t", true);
    if constexpr (Z < ND) full_range<A, Z + 1>();
    else if constexpr (A < ND) full_range<A + 1, A + 1>();
}
template<int I> void base_vectors() {
    OBSERVE("e(c<i>)", "constant", OPS(B(I)), e(c<I>), B(I), 0); OBSERVE("e(i)", "run time", OPS(B(I)), e(I), B(I), 0);
    text(e(c<I>), B(I), "e(c<i>)", true); text(e(I), B(I), "e(i)", true);
    scaled_basis_vector_t<double> s; *s.values().begin() = 5; *s.bitsets().begin() = ga::bitset_t(1) << (I - 1);
    OBSERVE("scaled_basis_vector_t", "", OPS(B(I)), s, num(5) * B(I), 0);
    scaled_constant_basis_vector_t<double, I> t; *t.values().begin() = 7;
    OBSERVE("scaled_constant_basis_vector_t", "", OPS(B(I)), t, num(7) * B(I), 0);
    OBSERVE("unit_constant_basis_vector_t", "", OPS(B(I)), (unit_constant_basis_vector_t<I>()), B(I), 0);
    scaled_constant_basis_blade_t<float, I, (I % ND) + 1> b; *b.values().begin() = 3; mv const two = ND == 1 ? num(2) * B(1) : B(I) + B(I % ND + 1);
    if (ND > 1) OBSERVE("scaled_constant_basis_blade_t", "", OPS(two), b, mv::blade((ref::bits(1) << (I - 1)) | (ref::bits(1) << (I % ND)), 3), 0);
    if (ND > 1) OBSERVE("unit_constant_basis_blade_t", "", OPS(two), (unit_constant_basis_blade_t<I, (I % ND) + 1>()), mv::blade((ref::bits(1) << (I - 1)) | (ref::bits(1) << (I % ND)), 1), 0);
    if constexpr (I < ND) base_vectors<I + 1>();
}
static void basis_walk() {
    for (int r = 0; r < mon::S().rounds * 10; ++r) {
        ref::bits const b = mon::S().rng() & (r % 2 ? static_cast<ga::bitset_t>(~ga::bitset_t(0)) >> 1 : SP.all()); std::vector<int> want, got; for (int i = 0; i < 63; ++i) if (b >> i & 1) want.push_back(i + 1);
        mon::at("for_each_basis_vector", "bitset", std::to_string(b));
        bool full = ga::for_each_basis_vector(static_cast<ga::bitset_t>(b), [&](auto i, bool &) { got.push_back(static_cast<int>(i)); });
        mon::verdict_bool("for_each_basis_vector", "bitset", std::to_string(b), got == want && full, std::to_string(want.size()), std::to_string(got.size()));
        if (!want.empty()) {
            size_t const stop = mon::irand(1, int(want.size())); got.clear();
            full = ga::for_each_basis_vector(static_cast<ga::bitset_t>(b), [&](auto i, bool &go) { got.push_back(static_cast<int>(i)); if (got.size() == stop) go = false; });
            mon::verdict_bool("stopping for_each_basis_vector", "bitset", std::to_string(b), got == std::vector<int>(want.begin(), want.begin() + stop) && !full, std::to_string(stop), std::to_string(got.size()));
        }
        scaled_basis_blade_t<double, 0, ND> x; *x.values().begin() = 2; *x.bitsets().begin() = b & SP.all(); want.clear(); got.clear(); for (int i = 0; i < ND; ++i) if (b >> i & 1) want.push_back(i + 1);
        ga::for_each_basis_vector(x, [&](auto i, bool &) { got.push_back(static_cast<int>(i)); });
        mon::verdict_bool("for_each_basis_vector", "run-time blade", std::to_string(b), got == want, std::to_string(want.size()), std::to_string(got.size()));
    }
    std::vector<int> got, want; for (int i = 1; i <= ND; ++i) want.push_back(i);
    ga::for_each_basis_vector(NS::I, [&](auto i, bool &) { got.push_back(static_cast<int>(i)); });
    mon::verdict_bool("for_each_basis_vector", "pseudoscalar", "", got == want, std::to_string(want.size()), std::to_string(got.size()));
}
static void single_values() {
    OBSERVE("pseudoscalar", "", OPS(SP.I()), pseudoscalar(), SP.I(), 0); OBSERVE("pseudoscalar(space)", "", OPS(SP.I()), ga::pseudoscalar(space), SP.I(), 0); OBSERVE("I", "", OPS(SP.I()), NS::I, SP.I(), 0);
    scaled_pseudoscalar_t<double, ND> p; *p.values().begin() = 4; OBSERVE("scaled_pseudoscalar_t", "", OPS(SP.I()), p, num(4) * SP.I(), 0);
    OBSERVE("unit_pseudoscalar_t", "", OPS(SP.I()), unit_pseudoscalar_t<ND>(), SP.I(), 0); OBSERVE("unit_scalar_t", "", OPS(mv(1)), ga::unit_scalar_t(), mv(1), 0);
    for (int r = 0; r < mon::S().rounds; ++r) {
        double const d = mon::dreal(); int const n = mon::irand(-99, 99); float const f = static_cast<float>(d); long long const l = 1000000007ll * n; unsigned const u = n + 100; bool const b = n > 0; short const h = static_cast<short>(n);
        OBSERVE("scalar", "double", OPS(mv(d)), scalar(d), mv(d), 0); OBSERVE("scalar", "int", OPS(mv(n)), scalar(n), mv(n), 0); OBSERVE("scalar", "float", OPS(mv(f)), scalar(f), mv(f), 0);
        OBSERVE("scalar", "long long", OPS(mv(l)), scalar(l), mv(l), 0); OBSERVE("scalar", "unsigned", OPS(mv(u)), scalar(u), mv(u), 0); OBSERVE("scalar", "bool", OPS(mv(b)), scalar(b), mv(b), 0); OBSERVE("scalar", "short", OPS(mv(h)), scalar(h), mv(h), 0);
        OBSERVE("scalar", "scalar", OPS(mv(d)), scalar(scalar(d)), mv(d), 0); OBSERVE("scalar", "temporary", OPS(mv(d * 2)), scalar(d * 2), mv(d * 2), 0); auto const s = scalar(d); OBSERVE("scalar", "lvalue scalar", OPS(mv(d)), scalar(s), mv(d), 0);
        text(scalar(d), mv(d), "scalar(double)", true); text(scalar(n), mv(n), "scalar(int)", true); text(scalar(l), mv(l), "scalar(long long)", true); text(scalar(1e-300 * d), mv(1e-300 * d), "tiny scalar", true);
        // all components of another expression, with stored coefficients
        auto const src = scalar(d) + c<3> * e(c<1>) + c<2> * NS::I; full_derived_multivector_t<double, typename std::decay_t<decltype(src)>::expression_type> t; double k = 1; mv w; for (auto &v : t.values()) v = k++;
        ref::bits order[] = {0, 1, SP.all()}; k = 1; for (auto o : order) w.acc(o, k++);
        if (ND > 1) { iterate(t, w, "full_derived_multivector_t"); text(t, w, "full_derived_multivector_t", true); }
    }
    text(c<0> * e(c<1>), mv(), "zero", true); text(c<0>, mv(), "c<0>", true); text(c<1>, mv(1), "c<1>", true); text(c<-7>, mv(-7), "c<-7>", true);
}
// Constants that are not integers are written as formulas.
static void formulas() {
    auto one = [&](char const *sh, auto const &x) { mv const r = mon::R(x); text(x, r, sh, false); };
    num const s2 = std::sqrt(2.0L), s3 = std::sqrt(3.0L);
    one("sqrt(c<2>)", sqrt(c<2>)); text(sqrt(c<2>), mv(s2), "sqrt(c<2>) by value", false);
    text(cbrt(c<-5>), mv(std::cbrt(-5.0L)), "cbrt(c<-5>)", false); text(inv(c<3>), mv(1.0L / 3), "inv(c<3>)", false); text(-inv(c<3>) * e(c<1>), (-1.0L / 3) * B(1), "-inv(c<3>)*e1", false);
    text((c<1> + sqrt(c<2>)) * e(c<1>), (1 + s2) * B(1), "(1+sqrt 2) e1", false);
    text((c<1> + sqrt(c<2>)) * (c<3> - sqrt(c<3>)) * e(c<1>), ((1 + s2) * (3 - s3)) * B(1), "(1+sqrt 2)(3-sqrt 3) e1", false);
    text(sqrt(c<1> + sqrt(c<2>)), mv(std::sqrt(1 + s2)), "sqrt(1+sqrt 2)", false);
    text(c<3> * sqrt(c<1> + sqrt(c<2>)) * (c<2> + sqrt(c<3>)), mv(3 * std::sqrt(1 + s2) * (2 + s3)), "3 sqrt(1+sqrt 2)(2+sqrt 3)", false);
    text(exp(c<2>) * e(c<1>) + c<1>, std::exp(2.0L) * B(1) + mv(1), "exp(2) e1 + 1", false); text(log(c<3>), mv(std::log(3.0L)), "log(3)", false); text(cos(c<1>) + sin(c<2>), mv(std::cos(1.0L) + std::sin(2.0L)), "cos 1 + sin 2", false);
    text(tan(c<1>), mv(std::tan(1.0L)), "tan 1", false); text(cosh(c<1>) * c<-2>, mv(-2 * std::cosh(1.0L)), "-2 cosh 1", false); text(sinh(c<-1>), mv(std::sinh(-1.0L)), "sinh -1", false); text(tanh(c<2>), mv(std::tanh(2.0L)), "tanh 2", false);
    text(abs(sin(c<-1>)), mv(std::fabs(std::sin(-1.0L))), "abs(sin -1)", false); text(inv(c<1> + sqrt(c<3>)) * e(c<1>), (1 / (1 + s3)) * B(1), "1/(1+sqrt 3) e1", false);
    text(unit(e(c<1>) + c<2> * e(c<1>) + c<1>), mv(1 / std::sqrt(10.0L)) + (3 / std::sqrt(10.0L)) * B(1), "unit of constants", false);
    for (int r = 0; r < mon::S().rounds; ++r) { double const d = mon::dreal(); text(scalar(d) * e(c<1>) + sqrt(c<2>), num(d) * B(1) + mv(s2), "double e1 + sqrt 2", false); if (ND > 1) text(sqrt(c<3>) * e(c<ND>) + scalar(d), s3 * B(ND) + mv(d), "sqrt 3 en + double", false); }
}

int main(int argc, char **argv) {
    mon::begin(argc, argv, PROPERTY, UNIT + " part " STR(PART));
    std::string why; if (!SP.selftest(why)) { std::cerr << "reference model broken: " << why << "\n"; return 3; }
#if PART < 100
    row<PART>();
#elif PART == 100
    for (int r = 0; r < mon::S().rounds; ++r) vectors_(std::make_index_sequence<ND>{});
#elif PART == 101
    full_grade<0, double>(); full_grade<0, int>(); full_range<0, 0>();
#elif PART == 102
    base_vectors<1>(); basis_walk(); single_values();
#else
    formulas();
#endif
    return mon::finish();
}
