// Purity and lifetime: operations called on operands in their own heap blocks, again on the same operands, on temporaries,
// and on operands that are overwritten and destroyed before the result is read.
// -DPART=l: operand shape l (every RSTEP-th right shape); -DHOSTILE=1: coefficients that are not finite, denormal or huge.
#include "operands.hpp"
#include <memory>
#include <limits>
using namespace opnd;
using ref::mv; using ref::num;

static bool same(mv const &a, mv const &b) {
    if (a.c.size() != b.c.size()) return false;
    for (auto i = a.c.begin(), j = b.c.begin(); i != a.c.end(); ++i, ++j) if (i->first != j->first || !(i->second == j->second || (std::isnan(i->second) && std::isnan(j->second)))) return false;
    return true;
}
// Some results are given as plain numbers, pairs or structures; only their value counts here.
template<class X> mv value(X const &x) { return mon::R(x); }
template<class F> F strange() { using L = std::numeric_limits<F>; static F const k[] = {L::quiet_NaN(), L::infinity(), -L::infinity(), L::denorm_min(), -L::denorm_min(), L::max(), L::lowest(), L::min(), F(-0.0), F(0), F(1), L::epsilon(), F(1e18), F(-4.5)}; return k[irand(0, 13)]; }

template<class X> void worsen(X &x) {
#ifdef HOSTILE
    if constexpr (std::is_floating_point_v<X>) x = strange<X>();
    else if constexpr (!native_v<X>) for (auto &v : x.values()) { using T = std::decay_t<decltype(v)>; if constexpr (std::is_floating_point_v<T>) { if (irand(0, 2)) v = strange<T>(); } else if constexpr (std::is_class_v<T>) { if (irand(0, 2)) v = T(strange<double>()); } }
#else
    (void)x;
#endif
}
template<class X> void scribble(X &x) {
    if constexpr (native_v<X>) x = X(93);
    else { for (auto &v : x.values()) v = std::decay_t<decltype(v)>(93); for (auto &b : x.bitsets()) b = static_cast<std::decay_t<decltype(b)>>(1); }
}

static void expect(bool ok, char const *op, std::string const &shape, std::string const &operands, mv const &want, mv const &got, char const *what) { mon::count(std::string(op) + ": " + what, shape, operands, !want.c.empty(), want.str()); if (!ok) mon::report(op, shape, operands, want.str(), got.str(), what); }

template<class F, class... X> void pure(char const *op, std::string const &sh, F const &f, X const &... x) {
    std::vector<mv> const before{value(x)...}; std::string const o = mon::join(before);
    mon::at(op, sh, o);
    auto const boxes = std::make_tuple(std::make_unique<X>(x)...);
    auto call = [&](auto const &... p) { return f(*static_cast<std::add_const_t<std::decay_t<decltype(*p)>> *>(p.get())...); };
    auto const first = std::apply(call, boxes); mv const r = value(first);
    std::vector<mv> const after = std::apply([](auto const &... p) { return std::vector<mv>{value(*p)...}; }, boxes);
    for (size_t i = 0; i < before.size(); ++i) expect(same(before[i], after[i]), op, sh, o, before[i], after[i], "operand unchanged");
    { auto const again = std::apply(call, boxes); expect(same(r, value(again)), op, sh, o, r, value(again), "same result again"); }
    { auto const &kept = f(X(x)...); expect(same(r, value(kept)), op, sh, o, r, value(kept), "result of temporaries outlives them"); }
    {
        auto mut = std::make_tuple(std::make_unique<X>(x)...);
        auto own = std::apply([&](auto &... p) { return f(*p...); }, mut);
        std::apply([](auto &... p) { (scribble(*p), ...); (p.reset(), ...); }, mut);
        expect(same(r, value(own)), op, sh, o, r, value(own), "result survives its operands");
        auto copied = own; auto const moved = std::move(own); auto assigned = copied; assigned = moved; scribble(copied);
        expect(same(r, value(moved)) && same(r, value(assigned)), op, sh, o, r, value(moved), "copies are independent");
    }
}
#define PURE1(NAME, EXPR) pure(NAME, sh, [](auto const &a) -> decltype(auto) { return EXPR; }, x)
#define PURE2(NAME, EXPR) pure(NAME, sh, [](auto const &a, auto const &b) -> decltype(auto) { return EXPR; }, x, y)

template<class X, class Y> void binary(X const &x, Y const &y, std::string const &sh) {
    constexpr bool nn = native_v<X> && native_v<Y>;
    PURE2("gp", gp(a, b)); PURE2("op", op(a, b)); PURE2("rp", rp(a, b)); PURE2("lcont", lcont(a, b)); PURE2("rcont", rcont(a, b)); PURE2("dot", dot(a, b)); PURE2("hip", hip(a, b)); PURE2("sp", sp(a, b));
    if constexpr (!nn) { PURE2("operator+", a + b); PURE2("operator-", a - b); PURE2("operator*", a * b); PURE2("operator^", a ^ b); }
    PURE2("cp", cp(a, b));
#ifndef HOSTILE
    if constexpr (norm_sign<Y> != 0) if (SP.rnorm_sqr(mon::R(y)) != 0) PURE2("igp", igp(a, b));
#endif
    // the same object twice
    if constexpr (std::is_same_v<X, Y>) {
        mv const o = mon::R(x); X z(x);
        mon::at("same object twice", sh, o.str());
        expect(same(mon::R(gp(z, z)), mon::R(gp(z, X(z)))), "gp", sh, o.str(), mon::R(gp(z, X(z))), mon::R(gp(z, z)), "same object twice");
        expect(same(mon::R(z + z), mon::R(z + X(z))), "operator+", sh, o.str(), mon::R(z + X(z)), mon::R(z + z), "same object twice");
        if constexpr (!native_v<X>) {
            X const &alias = z; z = alias; expect(same(mon::R(z), o), "operator=", sh, o.str(), o, mon::R(z), "assigned to itself");
            if constexpr (std::is_same_v<X, std::decay_t<decltype(z + z)>>) { mv const w = mon::R(x + x); z = z + z; expect(same(mon::R(z), w), "operator=", sh, o.str(), w, mon::R(z), "assigned a function of itself"); }
        }
    }
}
template<class X> void unary(X const &x, std::string const &sh) {
    PURE1("reverse", reverse(a)); PURE1("involute", involute(a)); PURE1("conjugate", conjugate(a)); PURE1("unary_minus", -a);
    if constexpr (!native_v<X>) { PURE1("unary plus", +a); PURE1("operator~", ~a); }
    PURE1("take_grade(c<1>)", take_grade(a, c<1>)); PURE1("take_grade(c<0>)", take_grade(a, c<0>));
    for (int k = 0; k <= ND; ++k) pure("take_grade(k)", sh, [](auto const &a, auto const &g) -> decltype(auto) { return take_grade(a, g); }, x, k);
    PURE1("rnorm_sqr", rnorm_sqr(a)); PURE1("undual", undual(a));
    if constexpr (!DEGENERATE) PURE1("dual", dual(a));
    mv const m = mon::R(x);
#ifndef HOSTILE
    num const n2 = SP.rnorm_sqr(m);
    if constexpr (norm_sign<X> >= 0) if (n2 >= 0) PURE1("rnorm", rnorm(a));
    if constexpr (norm_sign<X> != 0) if (n2 != 0) { PURE1("inv", inv(a)); PURE1("unit", unit(a)); }
#endif
    mon::at("is_zero, write, for_each_component", sh, m.str());
    if constexpr (!native_v<X>) {
        PURE1("is_zero", static_cast<int>(is_zero(a)));
        std::ostringstream s, t; s << x; t << x; expect(s.str() == t.str(), "operator<<", sh, m.str(), m, mon::R(x), "same output again");
        int n = 0, k = 0; for_each_component(x, [&](auto, auto const &, auto, auto, bool &) { ++n; }); for_each_component(x, [&](auto, auto const &, auto, auto, bool &go) { ++k; go = false; });
        expect(n >= k && k <= 1, "for_each_component", sh, m.str(), mv(n), mv(k), "stops when told");
    }
}

#if PART == 200
// Construction from coefficients of class type that the caller keeps, in storage filled with garbage beforehand.
using trk::Num;
static void kept(char const *op, std::initializer_list<std::pair<Num const *, double>> l) {
    for (auto const &p : l) { bool const ok = p.first->p && p.first->init && *p.first->p == p.second; expect(ok, op, "class-type coefficients", std::to_string(p.second), mv(p.second), p.first->p ? mv(*p.first->p) : mv(), "coefficients of the caller unchanged"); }
}
template<class M> void zeroed(char const *name) {
    alignas(M) unsigned char raw[sizeof(M)]; std::memset(raw, 0xA5, sizeof raw);
    mon::at("default construction", name, "");
    M *m = new (raw) M(); mv const r = mon::R(*m); expect(same(r, mv()), "default construction", name, "", mv(), r, "zero"); m->~M();
    std::memset(raw, 0xA5, sizeof raw); M *n = new (raw) M{}; mv const q = mon::R(*n); expect(same(q, mv()), "value initialization", name, "", mv(), q, "zero"); n->~M();
}
template<class T> void values_of() {
    for (int k = 0; k < mon::S().rounds; ++k) {
        double const p = dint(), q = dint(), r = mon::inz(5); T a(p), b(q), d(r); T const ca(p);
        auto check = [&](char const *op) { if constexpr (std::is_same_v<T, Num>) kept(op, {{&a, p}, {&b, q}, {&d, r}, {&ca, p}}); };
        mon::at("construction", "coefficients of the caller", "");
#define KEEPS(NAME, EXPR, WANT) do { auto const res_ = EXPR; check(NAME); mv const w_ = WANT; expect(same(mon::R(res_), w_), NAME, "coefficients of the caller", "", w_, mon::R(res_), "value"); auto const again_ = EXPR; check(NAME); expect(same(mon::R(again_), w_), NAME, "coefficients of the caller", "", w_, mon::R(again_), "value again"); } while (0)
        KEEPS("scalar(x)", scalar(a), mv(p)); KEEPS("scalar(const x)", scalar(ca), mv(p)); KEEPS("scalar(temporary)", scalar(T(p)), mv(p));
        KEEPS("vector(x, y, z)", vector(a, b, d), RB(1, p) + RB(2, q) + RB(4, r)); KEEPS("vector(x, c, z)", vector(a, c<2>, d), RB(1, p) + RB(2, 2) + RB(4, r)); KEEPS("vector(const x, temporary, x)", vector(ca, T(q), a), RB(1, p) + RB(2, q) + RB(4, p));
        KEEPS("vector(scalar, x, scalar)", vector(scalar(a), b, scalar(c<3>)), RB(1, p) + RB(2, q) + RB(4, 3));
        { std::vector<T> l{a, b, d}; KEEPS("vector(first, last)", vector(l.begin(), l.end()), RB(1, p) + RB(2, q) + RB(4, r)); if constexpr (std::is_same_v<T, Num>) { kept("vector(first, last)", {{&l[0], p}, {&l[1], q}, {&l[2], r}}); } }
        KEEPS("x * e1", a * e(c<1>), RB(1, p)); KEEPS("e1 * x", e(c<1>) * a, RB(1, p)); KEEPS("x + e1", a + e(c<1>), mv(p) + RB(1)); KEEPS("e1 - x", e(c<1>) - a, RB(1) - mv(p)); KEEPS("x ^ e1", a ^ e(c<1>), RB(1, p)); KEEPS("e1 / x", e(c<1>) / d, RB(1, 1.0 / r));
        { int i = irand(1, 3); KEEPS("x * e(i) + y * e1", a * e(i) + b * e(c<1>), RB(ref::bits(1) << (i - 1), p) + RB(1, q)); }
        {
            auto s = scalar(a), t = std::move(s); s = t; auto u = vector(a, b, d); auto v = u; v = vector(b, a, d); u = v; check("assignments");
            expect(same(mon::R(s), mv(p)) && same(mon::R(u), RB(1, q) + RB(2, p) + RB(4, r)), "assignments", "coefficients of the caller", "", mv(p), mon::R(s), "value");
            full_multivector_t<T, 3> m = u; full_vector_t<T, 3> w = u; w = m - m + u; expect(same(mon::R(w), mon::R(u)), "conversion", "coefficients of the caller", "", mon::R(u), mon::R(w), "value");
        }
        {   // a refused conversion leaves nothing behind
            int i = irand(2, 3); auto const x = d * e(i); bool thrown = false; scaled_scalar_t<T> z = scalar(b);
            using V1 = std::decay_t<decltype(a * e(c<1>))>;
            try { V1 y = x; (void)y; } catch (ga::bad_checked_copy_exception const &) { thrown = true; }
            expect(thrown, "refused conversion", "coefficients of the caller", "", mv(1), mv(0), "refused"); expect(same(mon::R(x), RB(ref::bits(1) << (i - 1), r)) && same(mon::R(z), mv(q)), "refused conversion", "coefficients of the caller", "", mv(r), mon::R(x), "operand unchanged");
        }
    }
}
int main(int argc, char **argv) {
    mon::begin(argc, argv, PROPERTY, UNIT + " construction");
    values_of<double>(); values_of<Num>();
    zeroed<full_multivector_t<double, 3>>("full multivector<double>"); zeroed<full_multivector_t<float, 4>>("full multivector<float>"); zeroed<full_multivector_t<int, 3>>("full multivector<int>"); zeroed<full_vector_t<long, 3>>("full vector<long>"); zeroed<full_kvector_t<double, 3, 2>>("full 2-vector<double>");
    zeroed<scaled_scalar_t<double>>("scalar<double>"); zeroed<scaled_basis_blade_t<double, 0, 3>>("run-time basis blade"); zeroed<scaled_basis_vector_t<double>>("run-time basis vector"); zeroed<std::decay_t<decltype(1.5 * e(c<1>) + 2.0 * e(2))>>("run-time + const basis blades"); zeroed<std::decay_t<decltype(1.5 * (e(c<1>) ^ e(c<3>)))>>("double * e1^e3");
    return mon::finish();
}
#else
#ifndef RSTEP
#define RSTEP 1
#endif
template<int L, int R_> void row() {
    if constexpr (R_ < SHAPES) {
        for (int k = 0; k < (mon::S().rounds + 2) / 3; ++k) { auto a = make<L>(); auto b = make<R_>(); worsen(a.x); worsen(b.x); binary(a.x, b.x, std::string(a.shape) + ", " + b.shape); }
        row<L, R_ + RSTEP>();
    }
}

int main(int argc, char **argv) {
    mon::begin(argc, argv, PROPERTY, UNIT + " part " STR(PART));
    std::string why; if (!SP.selftest(why)) { std::cerr << "reference model broken: " << why << "\n"; return 3; }
    for (int k = 0; k < mon::S().rounds; ++k) { auto a = make<PART>(); worsen(a.x); unary(a.x, a.shape); }
    for (int k = 0; k < (mon::S().rounds + 2) / 3; ++k) { auto a = make<PART>(); auto b(a); worsen(a.x); worsen(b.x); binary(a.x, b.x, std::string(a.shape) + " twice"); }
    row<PART, PART % RSTEP>();
    return mon::finish();
}
#endif
