// Versor application: every kind of versor (-DPART) applied to operands of every shape.
#include "operands.hpp"
using namespace opnd;

template<class X> constexpr bool float_v() { if constexpr (native_v<X>) return false; else return std::is_same_v<typename X::coefficient_type, float>; }

double nz() { return mon::inz(4); }
ref::bits HB() { return ref::bits(1) << (HI - 1); }
ref::bits B2() { return ref::bits(1) << (LO2 - 1); }

template<int I> auto versor() {
    if constexpr (I == 0) { double v = nz(); return mk(v, ref::mv(v), "double"); }
    else if constexpr (I == 1) { double v = nz(); return mk(scalar(v), ref::mv(v), "scalar(double)"); }
    else if constexpr (I == 2) return mk(c<3>, ref::mv(3), "c<3>");
    else if constexpr (I == 3) return mk(c<3> + c<2> * (e(c<1>) ^ e(c<LO2>)), ref::mv(3) + RB(1 | B2(), 2), "const even versor");
    else if constexpr (I == 4) { full_vector_t<double, ND> u, v; auto a = fill(u, [] { return nz(); }), b = fill(v, [] { return nz(); }); auto x = u * v; return mk(x, SP.gp(a, b), "product of 2 full vectors"); }
#if KID == 5 || KID == 7 // no run-time basis blades there
    else if constexpr (I == 5) { double s = nz(), t = nz(); auto x = s + t * (e(c<1>) ^ e(c<LO2>)); return mk(x, ref::mv(s) + RB(1 | B2(), t), "scalar + 2-blade"); }
    else if constexpr (I == 11) { double s = nz(); return mk(s * e(c<1>), RB(1, s), "double * e1"); }
#else
    else if constexpr (I == 5) { int i = irand(1, ND), j = irand(1, ND); double s = nz(); auto x = (s * e(i)) * e(j); return mk(x, ref::num(s) * SP.gp(RB(ref::bits(1) << (i - 1)), RB(ref::bits(1) << (j - 1))), "product of 2 run-time vectors"); }
    else if constexpr (I == 11) { int i = irand(1, ND); double s = nz(); return mk(s * e(i), RB(ref::bits(1) << (i - 1), s), "double * e(run-time)"); }
#endif
    else if constexpr (I == 6) { double t = mon::dpos(-3, 3); double s = std::cos(t), u = std::sin(t); return mk(s + u * (e(c<1>) ^ e(c<LO2>)), ref::mv(s) + RB(1 | B2(), u), "cos + sin e1^e2"); }
    else if constexpr (I == 7) { full_vector_t<float, ND> u; auto a = fill(u, [] { return nz(); }); auto x = u * (c<2> * e(c<LO2>) - e(c<1>)); return mk(x, SP.gp(a, RB(B2(), 2) - RB(1)), "float even versor"); }
    // odd
    else if constexpr (I == 8) return mk(e(c<LO2>), RB(B2()), "e(c<2>)");
    else if constexpr (I == 9) return mk(c<2> * e(c<1>) - c<3> * e(c<HI>), RB(1, 2) - RB(HB(), 3), "const vector");
    else if constexpr (I == 10) { full_vector_t<double, ND> u; auto a = fill(u, [] { return nz(); }); return mk(u, a, "full vector<double>"); }
    else if constexpr (I == 12) { double a = nz(), b = nz(); return mk(a * e(c<1>) + b * e(c<HI>), RB(1, a) + RB(HB(), b), "a e1 + b en"); }
    else if constexpr (I == 13) { full_vector_t<double, ND> u, v, w; auto a = fill(u, [] { return nz(); }), b = fill(v, [] { return nz(); }), d = fill(w, [] { return nz(); }); auto x = u * v * w; return mk(x, SP.gp(SP.gp(a, b), d), "product of 3 full vectors"); }
    else if constexpr (I == 14) { full_vector_t<float, ND> u; auto a = fill(u, [] { return nz(); }); return mk(u, a, "full vector<float>"); }
    else if constexpr (I == 15) { full_vector_t<int, ND> u; auto a = fill(u, [] { return nz(); }); return mk(u, a, "full vector<int>"); }
}
constexpr int FIRST_ODD = 8, VERSORS = 16;

#define CHECKED(OP, SHAPE, OPERANDS, EXPR, WANT, TOL, SCALE) do { std::vector<ref::mv> const o_ = OPERANDS; mon::at(OP, SHAPE, mon::join(o_)); ref::mv const g_ = mon::R(EXPR); mon::verdict(OP, SHAPE, o_, g_, WANT, TOL, SCALE); } while (0)

template<int V, class A> void apply(A const &a) {
    auto v = versor<V>(); using X = std::decay_t<decltype(a.x)>; using Y = std::decay_t<decltype(v.x)>;
    std::string const sh = std::string(v.shape) + ", " + a.shape;
    ref::num n2 = SP.rnorm_sqr(v.r), t = float_v<X>() || float_v<Y>() ? 1e-4L : 1e-11L, m = v.r.norm() * v.r.norm() * std::max(ref::num(1), a.r.norm()) * (1 << ND);
    if constexpr (V < FIRST_ODD) {
        CHECKED("apply_rotor", sh, OPS(v.r, a.r), apply_rotor(v.x, a.x), SP.gp(SP.gp(v.r, a.r), ref::reverse(v.r)), t, m);
        if constexpr (norm_sign<Y> != 0) if (std::fabs(n2) > 1e-3L) CHECKED("apply_even_versor", sh, OPS(v.r, a.r), apply_even_versor(v.x, a.x), SP.gp(SP.gp(v.r, a.r), (1 / n2) * ref::reverse(v.r)), t, std::max(m, m / std::fabs(n2)));
    } else {
        if constexpr (norm_sign<Y> != 0) if (std::fabs(n2) > 1e-3L) CHECKED("apply_odd_versor", sh, OPS(v.r, a.r), apply_odd_versor(v.x, a.x), SP.gp(SP.gp(v.r, ref::involute(a.r)), (1 / n2) * ref::reverse(v.r)), t, std::max(m, m / std::fabs(n2)));
    }
    if (!mon::close(mon::R(a.x), a.r, 0)) mon::report("operand unchanged", sh, a.r.str(), a.r.str(), mon::R(a.x).str());
    if (!mon::close(mon::R(v.x), v.r, 1e-5L)) mon::report("versor unchanged", sh, v.r.str(), v.r.str(), mon::R(v.x).str());
}

template<int A> void args() { if constexpr (A < SHAPES) { for (int k = 0; k < mon::S().rounds; ++k) apply<PART>(make<A>()); args<A + RSTEP>(); } }

int main(int argc, char **argv) {
    mon::begin(argc, argv, PROPERTY, UNIT + " versor " STR(PART));
    std::string why; if (!SP.selftest(why)) { std::cerr << "reference model broken: " << why << "\n"; return 3; }
    args<PART % RSTEP>();
    return mon::finish();
}
