// Exponential of blades: every storage form of a blade, of positive, negative and zero square, over twenty magnitudes,
// compared with the power series.
#include "operands.hpp"
using namespace opnd;

template<class X> constexpr bool float_v() { if constexpr (native_v<X>) return std::is_same_v<X, float>; else return std::is_same_v<typename X::coefficient_type, float>; }

// magnitudes on both sides of the default tolerance (of the squared weight, 1e-8), and of the explicit ones
double mag() {
    static double const m[] = {0, 1e-12, 1e-9, 1e-6, 1e-5, 5e-5, 9e-5, 1.1e-4, 2e-4, 1e-3, 5e-3, 1e-2, 0.03, 0.1, 0.5, 1, 1.5707963267948966, 2, 3.1415926535897932, 4};
    return m[irand(0, 19)] * (mon::S().rng() & 1 ? 1 : -1);
}

template<class X> void check(X const &x, ref::mv const &r, std::string const &sh, bool small) {
    bool const f = float_v<X>();
    ref::num a2 = std::fabs(SP.sp(r, r).at(0)), t = f ? 4e-5L : 1e-12L;
    if (a2 > 100) return;
    ref::mv const want = SP.exp(r);
    ref::num const sc = std::max(ref::num(1), want.norm());
    {   // at or below the tolerance of the squared weight, 1 + B is what is asked for
        OBSERVE("exp", sh, OPS(r), exp(x), want, a2 <= 1.0001e-8L ? std::max(t, 1e-8L) : t * 10);
    }
    if (small) {
        OBSERVE("exp(tol 0)", sh, OPS(r), exp(x, 0.0), a2 == 0 ? ref::mv(1) + r : want, t * 10);
        OBSERVE("exp(tol 1e-4)", sh, OPS(r), exp(x, 1e-4), a2 <= 1.0001e-4L && a2 >= 0.9999e-4L ? want : a2 < 1e-4L ? ref::mv(1) + r : want, std::max(t * 10, a2 <= 1.0001e-4L && a2 >= 0.9999e-4L ? 1e-4L : ref::num(0)));
        OBSERVE("exp(scalar tol)", sh, OPS(r), exp(x, scalar(1e-6)), want, std::max(t * 10, a2 <= 1.0001e-6L ? 1e-6L : ref::num(0)));
        if (sc < 1e4L) {
            if constexpr (!native_v<X>) {
                OBSERVE("exp(B)exp(-B)", sh, OPS(r), exp(x, 0.0) * exp(-x, 0.0), ref::mv(1), t * 100 * sc * sc);
            }
        }
    }
    if (!mon::close(mon::R(x), r, 0)) mon::report("operand unchanged", sh, r.str(), r.str(), mon::R(x).str());
}

#define K1 (RB(1))
#define KN (RB(ref::bits(1) << (HI - 1)))
#define K2 (RB(ref::bits(1) << (LO2 - 1)))

template<int I> void one() {
    if constexpr (I == 0) { double m = mag(); auto B = m * (e(c<1>) ^ e(c<LO2>)); check(B, ref::num(m) * ref::op(K1, K2), "double * e1^e2", true); }
    else if constexpr (I == 1) { double m = mag(); auto B = m * (e(c<1>) ^ e(c<HI>)); check(B, ref::num(m) * ref::op(K1, KN), "double * e1^en", true); }
    else if constexpr (I == 2) { double m = mag(); auto B = m * e(c<HI>); check(B, ref::num(m) * KN, "double * en", true); }
    else if constexpr (I == 3) { full_vector_t<double, ND> u; double m = mag(); auto r = fill(u, [m] { return m * dreal(); }); check(u, r, "full vector<double>", true); }
    else if constexpr (I == 4) { full_vector_t<double, ND> u, v; double m = mag(); auto a = fill(u, [m] { return m * dreal(); }), b = fill(v, [] { return dreal(); }); auto B = u ^ v; check(B, mon::R(B), "outer product of 2 vectors", true); (void)a; (void)b; }
    else if constexpr (I == 5) { double m = mag(); auto B = m * NS::I; check(B, RB(SP.all(), m), "double * pseudoscalar", true); }
    else if constexpr (I == 6) { auto B = e(c<1>) ^ e(c<LO2>); check(B, ref::op(K1, K2), "const 2-blade", true); auto C = c<2> * e(c<HI>); check(C, ref::num(2) * KN, "const vector", true); auto D = c<3> * (e(c<1>) ^ e(c<HI>)); check(D, ref::num(3) * ref::op(K1, KN), "const 2-blade with en", true); }
    else if constexpr (I == 7) { if constexpr (ORTHOGONAL) { int i = irand(1, ND), j = irand(1, ND); double m = mag(); auto B = m * (e(i) ^ e(j)); check(B, ref::num(m) * ref::op(RB(ref::bits(1) << (i - 1)), RB(ref::bits(1) << (j - 1))), "run-time 2-blade", true); auto C = m * e(i); check(C, RB(ref::bits(1) << (i - 1), m), "run-time vector", true); } }
    else if constexpr (I == 8) { double m = mag(), n = mag(); auto B = m * e(c<1>) + n * e(c<HI>); check(B, ref::num(m) * K1 + ref::num(n) * KN, "a e1 + b en", true); }
    else if constexpr (I == 9) { full_vector_t<float, ND> u; double m = mag(); auto r = fill(u, [m] { return float(m * dreal()); }); check(u, r, "full vector<float>", false); }
    else if constexpr (I == 10) { full_vector_t<int, ND> u; auto r = fill(u, [] { return irand(-2, 2); }); check(u, r, "full vector<int>", false); }
    else if constexpr (I == 11) { double m = mag(); OBSERVE("exp(scalar)", "scalar(double)", OPS(ref::mv(m)), exp(scalar(m)), ref::mv(std::exp(ref::num(m))), 1e-12L); OBSERVE("exp(scalar, tol)", "scalar(double)", OPS(ref::mv(m)), exp(scalar(m), 1e-6), ref::mv(std::exp(ref::num(m))), 1e-12L); OBSERVE("exp(scalar)", "double", OPS(ref::mv(m)), exp(m), ref::mv(std::exp(ref::num(m))), 1e-12L); OBSERVE("exp(c<2>)", "const", OPS(ref::mv(2)), exp(c<2>), ref::mv(std::exp(ref::num(2))), 1e-12L); }
    else if constexpr (I == 12) { if constexpr (ND >= 3) { full_kvector_t<double, 3, 2> w; double m = mag(); auto r = fill(w, [m] { return m * dreal(); }); check(w, r, "full 2-vector of 3 dimensions", true); } }
}
constexpr int FORMS = 13;
template<int L> void forms() { if constexpr (L < FORMS) { for (int k = 0; k < mon::S().rounds * 4; ++k) one<L>(); if constexpr (L + NPARTS < FORMS) forms<L + NPARTS>(); } }

int main(int argc, char **argv) {
    mon::begin(argc, argv, PROPERTY, UNIT + " part " STR(PART));
    std::string why; if (!SP.selftest(why)) { std::cerr << "reference model broken: " << why << "\n"; return 3; }
    forms<PART>();
    return mon::finish();
}
