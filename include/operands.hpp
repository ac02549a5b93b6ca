// Operand factories: every storage form a GATL expression can take (see DESIGN.md, "operand shapes").
#ifndef VERIF_OPERANDS_HPP
#define VERIF_OPERANDS_HPP

#include "alg.hpp"

// The type of the stored coefficients that are not int or float; its value as the reference sees it.
#ifndef COEF
#define COEF double
#endif
using longdouble = long double;
using coef_t = COEF;
template<class T> ref::num asnum(T const &x) { return static_cast<ref::num>(x); }

namespace opnd {

using namespace NS;
using mon::irand; using mon::inz; using mon::dint; using mon::dreal;

template<class X> struct operand { X x; ref::mv r; char const *shape; };
template<class X> operand<X> mk(X const &x, ref::mv const &r, char const *s) { return {x, r, s}; }

inline ref::mv RB(ref::bits b, ref::num v = 1) { return ref::mv::blade(b, v); }
constexpr int HI = ND;                     // index of the last basis vector
constexpr int LO2 = ND >= 2 ? 2 : 1;

// Fills the coefficients of a stored multivector and returns the value they stand for: the library documents the
// components of full multivectors to be ordered by grade, then by bitset (std::next_combination order).
template<class X, class F> ref::mv fill(X &x, F f) {
    for (auto &v : x.values()) v = static_cast<std::decay_t<decltype(v)>>(f());
    return mon::R(x);
}

#ifdef HIGH
// Sparse operands for spaces with many dimensions: basis vectors at both ends, around the middle and around the changes of sign.
constexpr int MID = ND / 2, B1 = SP_ >= 1 ? SP_ : 1, B2 = SP_ + 1 <= ND ? SP_ + 1 : ND, B3 = SP_ + SQ_ + 1 <= ND ? SP_ + SQ_ + 1 : ND;
inline ref::bits bt(int i) { return ref::bits(1) << (i - 1); }
inline int anyi() { int const k[] = {1, 2, MID, MID + 1, B1, B2, B3, ND - 1, ND}; return irand(0, 2) ? k[irand(0, 8)] : irand(1, ND); }
inline ref::bits anyb() {
    switch (irand(0, 3)) {
        case 0: return mon::S().rng() & SP.all();
        case 1: return mon::S().rng() & mon::S().rng() & mon::S().rng() & SP.all();
        case 2: return (bt(anyi()) | bt(anyi()) | bt(anyi()));
        default: return SP.all() & ~(bt(anyi()) | bt(anyi()));
    }
}
template<int I> auto make() {
    if constexpr (I == 0) { double v = dint(); return mk(v, ref::mv(v), "double"); }
    else if constexpr (I == 1) { return mk(c<-2>, ref::mv(-2), "c<-2>"); }
    else if constexpr (I == 2) { return mk(e(c<HI>), RB(bt(HI)), "e(c<n>)"); }
    else if constexpr (I == 3) { return mk(c<3> * (e(c<1>) ^ e(c<MID>) ^ e(c<HI>)), ref::num(3) * ref::op(ref::op(RB(1), RB(bt(MID))), RB(bt(HI))), "const 3-blade"); }
    else if constexpr (I == 4) { double a = dint(), b = dint(); return mk(a * (e(c<1>) ^ e(c<MID>)) + b * e(c<HI>) + c<2>, ref::num(a) * ref::op(RB(1), RB(bt(MID))) + RB(bt(HI), b) + ref::mv(2), "mixed const/double sparse"); }
    else if constexpr (I == 5) { double a = dint(), b = dint(), d = dint(), f = dint(); return mk(a * e(c<B1>) + b * e(c<B2 + (B2 == B1)>) + d * e(c<1>) - f * e(c<HI>), RB(bt(B1), a) + RB(bt(B2 + (B2 == B1)), b) + RB(1, d) - RB(bt(HI), f), "sparse vector<double>"); }
    else if constexpr (I == 6) { int i = anyi(), j = anyi(); double a = mon::inz(6); return mk(a * (e(i) ^ e(j)), ref::num(a) * ref::op(RB(bt(i)), RB(bt(j))), "double * run-time 2-blade"); }
    else if constexpr (I == 7) { scaled_basis_blade_t<double, 0, ND> v; double a = dint(); ref::bits b = anyb(); *v.values().begin() = a; *v.bitsets().begin() = b; return mk(v, RB(b, a), "run-time blade of any grade"); }
    else if constexpr (I == 8) { int i = anyi(); return mk(e(i), RB(bt(i)), "e(run-time)"); }
    else if constexpr (I == 9) { int i = anyi(); double a = dint(), b = dint(); return mk(a * e(i) + b * e(c<HI>), RB(bt(i), a) + RB(bt(HI), b), "run-time + const basis blades"); }
    else if constexpr (I == 10) { int a = irand(-9, 9); return mk(a * (e(c<1>) ^ e(c<B1 == 1 ? 2 : B1>) ^ e(c<ND - 1>) ^ e(c<HI>)), ref::num(a) * ref::op(ref::op(RB(1), RB(bt(B1 == 1 ? 2 : B1))), ref::op(RB(bt(ND - 1)), RB(bt(HI)))), "int * const 4-blade"); }
    else if constexpr (I == 11) { double a = dint(); return mk(a * NS::I, RB(SP.all(), a), "double * pseudoscalar"); }
}
constexpr int NATIVE_END = 1, STATIC_END = 6, SHAPES = 12;
#else
// Shapes with index I.  Each call draws new values.
template<int I> auto make() {
    if constexpr (I == 0) { double v = dint(); return mk(v, ref::mv(v), "double"); }
    else if constexpr (I == 1) { int v = irand(-6, 6); return mk(v, ref::mv(v), "int"); }
    else if constexpr (I == 2) { return mk(c<3>, ref::mv(3), "c<3>"); }
    else if constexpr (I == 3) { coef_t v(dint()); return mk(scalar(v), ref::mv(asnum(v)), "scalar(double)"); }
    else if constexpr (I == 4) { return mk(e(c<1>), RB(1), "e(c<1>)"); }
    else if constexpr (I == 5) { return mk(e(c<HI>), RB(ref::bits(1) << (HI - 1)), "e(c<n>)"); }
    else if constexpr (I == 6) { return mk(c<2> * e(c<1>) - c<3> * e(c<HI>), RB(1, 2) - RB(ref::bits(1) << (HI - 1), 3), "const vector"); }
    else if constexpr (I == 7) { ref::mv r = ref::op(RB(1), RB(ref::bits(1) << (LO2 - 1))); return mk(c<-2> * (e(c<1>) ^ e(c<LO2>)), ref::num(-2) * r, "const 2-blade"); }
    else if constexpr (I == 8) { return mk(c<1> + c<4> * e(c<LO2>) + c<2> * (e(c<1>) ^ e(c<HI>)), ref::mv(1) + RB(ref::bits(1) << (LO2 - 1), 4) + ref::num(2) * ref::op(RB(1), RB(ref::bits(1) << (HI - 1))), "const multivector"); }
    else if constexpr (I == 9) { coef_t a(dint()), b(dint()); return mk(a * e(c<1>) + e(c<HI>) + b, RB(1, asnum(a)) + RB(ref::bits(1) << (HI - 1)) + ref::mv(asnum(b)), "mixed const/double sparse"); }
    else if constexpr (I == 10) { full_vector_t<coef_t, ND> v; auto r = fill(v, dint); return mk(v, r, "full vector<double>"); }
    else if constexpr (I == 11) { full_kvector_t<coef_t, ND, LO2> v; auto r = fill(v, dint); return mk(v, r, "full 2-vector<double>"); }
    else if constexpr (I == 12) { full_multivector_t<coef_t, ND> v; auto r = fill(v, dint); return mk(v, r, "full multivector<double>"); }
    else if constexpr (I == 13) { full_multivector_t<int, ND> v; auto r = fill(v, [] { return irand(-5, 5); }); return mk(v, r, "full multivector<int>"); }
    else if constexpr (I == 14) { full_multivector_t<float, ND, 0, LO2> v; auto r = fill(v, dint); return mk(v, r, "multivector<float> grades 0..2"); }
    else if constexpr (I == 15) { coef_t a(dint()); return mk(a * NS::I, RB(SP.all(), asnum(a)), "double * pseudoscalar"); }
    // run-time basis blades
    else if constexpr (I == 16) { int i = irand(1, ND); return mk(e(i), RB(ref::bits(1) << (i - 1)), "e(run-time)"); }
    else if constexpr (I == 17) { int i = irand(1, ND); coef_t a(dint()); return mk(a * e(i), RB(ref::bits(1) << (i - 1), asnum(a)), "double * e(run-time)"); }
    else if constexpr (I == 18) { int i = irand(1, ND), j = irand(1, ND); coef_t a(mon::inz(6)); return mk(a * (e(i) ^ e(j)), asnum(a) * ref::op(RB(ref::bits(1) << (i - 1)), RB(ref::bits(1) << (j - 1))), "double * run-time 2-blade"); }
    else if constexpr (I == 19) { int i = irand(1, ND); coef_t a(dint()), b(dint()); return mk(a * e(i) + b * e(c<1>), RB(ref::bits(1) << (i - 1), asnum(a)) + RB(1, asnum(b)), "run-time + const basis blades"); }
    else if constexpr (I == 20) { int i = irand(1, ND), j = irand(1, ND); coef_t a(dint()), b(dint()); return mk(a * e(i) + b * e(j), RB(ref::bits(1) << (i - 1), asnum(a)) + RB(ref::bits(1) << (j - 1), asnum(b)), "sum of run-time basis vectors"); }
    else if constexpr (I == 21) { scaled_basis_blade_t<coef_t, 0, ND> v; coef_t a(dint()); ref::bits b = mon::S().rng() & SP.all(); *v.values().begin() = a; *v.bitsets().begin() = b; return mk(v, RB(b, asnum(a)), "run-time blade of any grade"); }
}

constexpr int NATIVE_END = 2, STATIC_END = 16, SHAPES = ORTHOGONAL ? 22 : 16;

#endif

template<int B, int E_, class F> void each(F &&f) { if constexpr (B < E_) { f(make<B>()); each<B + 1, E_>(f); } }
template<int... Is, class F> void some(std::integer_sequence<int, Is...>, F &&f) { (f(make<Is>()), ...); }

// The squared norm when the type alone determines it (2 otherwise): the library rejects inverses of null constants and roots of
// negative constants in compile time, by design.
template<class X> struct constant_sign { static constexpr int value = 2; };
template<class C, ga::default_integral_t V> struct constant_sign<ga::clifford_expression<C, ga::detail::component<ga::detail::constant_value<V>, ga::detail::constant_basis_blade<0> > > > { static constexpr int value = (V > 0) - (V < 0); };
template<class X> constexpr int norm_sign = constant_sign<std::decay_t<decltype(rnorm_sqr(std::declval<X const &>()))>>::value;

template<class X> constexpr bool native_v = std::is_arithmetic_v<X>;

}

#endif
