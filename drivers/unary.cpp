// Unary operations on every operand shape.  -DMASK: 1 involutions and grade extraction, 2 norms and inverses, 4 duality,
// 8 grade queries and predicates.
#include "operands.hpp"
using namespace opnd;

// Rounding allowance for results computed in the coefficient type of the operand.
template<class X> constexpr ref::num eps() {
    if constexpr (native_v<X>) return 1e-12L;
    else if constexpr (std::is_same_v<typename X::coefficient_type, float>) return 4e-5L;
    else return 1e-12L;
}
template<class X> constexpr bool integral() { if constexpr (native_v<X>) return std::is_integral_v<X>; else return std::is_integral_v<typename X::coefficient_type>; }

// Mixed precision operands (an int or a float mixed with double) are only divided when the division is exact or floating.
ref::mv cfrac(ref::num s) { return ref::mv(s); }

bool scalar_like(ref::mv const &m) { for (auto const &p : m.c) if (p.first) return false; return true; }

#if MASK & 1
template<int K, class A> void take_const(A const &a, std::string const &sh) {
    if constexpr (K <= ND + 1 && K < 64) {
        OBSERVE("take_grade(c<k>)", sh, OPS(a.r, ref::mv(K)), take_grade(a.x, c<K>), ref::take(a.r, K), 0);
        take_const<(K == 5 && ND > 12) ? ND - 1 : K + 1>(a, sh);
    }
}
#endif

template<class A> void unary(A const &a) {
    std::string const sh = a.shape; using X = std::decay_t<decltype(a.x)>; (void)sh;
#if MASK & 1
    OBSERVE("reverse", sh, OPS(a.r), reverse(a.x), ref::reverse(a.r), 0);
    OBSERVE("involute", sh, OPS(a.r), involute(a.x), ref::involute(a.r), 0);
    OBSERVE("conjugate", sh, OPS(a.r), conjugate(a.x), ref::conjugate(a.r), 0);
    OBSERVE("reverse(reverse)", sh, OPS(a.r), reverse(reverse(a.x)), a.r, 0);
    OBSERVE("involute(involute)", sh, OPS(a.r), involute(involute(a.x)), a.r, 0);
    OBSERVE("conjugate(conjugate)", sh, OPS(a.r), conjugate(conjugate(a.x)), a.r, 0);
    if constexpr (!native_v<X>) OBSERVE("operator~", sh, OPS(a.r), ~a.x, ref::reverse(a.r), 0);
    take_const<0>(a, sh);
    for (int k = 0; k <= ND + 1; ++k) {
        OBSERVE("take_grade(run-time k)", sh, OPS(a.r, ref::mv(k)), take_grade(a.x, k), ref::take(a.r, k), 0);
        OBSERVE("take_grade(scalar k)", sh, OPS(a.r, ref::mv(k)), take_grade(a.x, scalar(k)), ref::take(a.r, k), 0);
    }
#endif
#if MASK & 2
    constexpr ref::num t = eps<X>();
    ref::num n2 = SP.rnorm_sqr(a.r);
    OBSERVE("rnorm_sqr", sh, OPS(a.r), rnorm_sqr(a.x), ref::mv(n2), 0);
    if constexpr (norm_sign<X> >= 0) if (n2 >= 0) OBSERVE("rnorm", sh, OPS(a.r), rnorm(a.x), ref::mv(std::sqrt(n2)), t);
    if constexpr (norm_sign<X> != 0) if (n2 != 0) {
        ref::mv iv = (1 / n2) * ref::reverse(a.r);
        OBSERVE("inv", sh, OPS(a.r), inv(a.x), iv, t);
        OBSERVE("unit", sh, OPS(a.r), unit(a.x), (1 / std::sqrt(std::fabs(n2))) * a.r, t);
    }
#endif
#if MASK & 4
    constexpr ref::num t = eps<X>();
    auto const ps = mk(dreal() * NS::I, ref::mv(), "double * pseudoscalar");
    ref::mv const psr = mon::R(ps.x), IU = SP.I();
    if constexpr (!DEGENERATE) {
        OBSERVE("dual", sh, OPS(a.r), dual(a.x), SP.dual(a.r, IU), t);
        OBSERVE("dual(I)", sh, OPS(a.r, IU), dual(a.x, NS::I), SP.dual(a.r, IU), t);
        OBSERVE("dual(scaled I)", sh, OPS(a.r, psr), dual(a.x, ps.x), SP.dual(a.r, psr), t * 10);
        OBSERVE("undual(dual)", sh, OPS(a.r), undual(dual(a.x)), a.r, t);
        OBSERVE("dual(undual)", sh, OPS(a.r), dual(undual(a.x)), a.r, t);
        OBSERVE("undual(dual(scaled I))", sh, OPS(a.r, psr), undual(dual(a.x, ps.x), ps.x), a.r, t * 10);
        auto const b = opnd::mk(e(c<1>) ^ e(c<HI>), ref::op(RB(1), RB(ref::bits(1) << (HI - 1))), "e1^en");
        OBSERVE("dual(const)", sh, OPS(b.r), dual(b.x), SP.dual(b.r, IU), 1e-12L);
    }
    OBSERVE("undual", sh, OPS(a.r), undual(a.x), SP.undual(a.r, IU), t);
    OBSERVE("undual(I)", sh, OPS(a.r, IU), undual(a.x, NS::I), SP.undual(a.r, IU), t);
    OBSERVE("undual(scaled I)", sh, OPS(a.r, psr), undual(a.x, ps.x), SP.undual(a.r, psr), t * 10);
#endif
    if (!mon::close(mon::R(a.x), a.r, 0)) mon::report("operand unchanged", sh, a.r.str(), a.r.str(), mon::R(a.x).str());
}

#if MASK & 2
template<class A, class B> void quotient(A const &a, B const &b) {
    using X = std::decay_t<decltype(a.x)>; using Y = std::decay_t<decltype(b.x)>;
    std::string const sh = std::string(a.shape) + ", " + b.shape;
    ref::num n2 = SP.rnorm_sqr(b.r); if (n2 == 0) return;
    if constexpr (norm_sign<Y> != 0) {
        ref::mv want = SP.gp(a.r, (1 / n2) * ref::reverse(b.r));
        ref::num t = std::max(eps<X>(), eps<Y>());
        OBSERVE("igp", sh, OPS(a.r, b.r), igp(a.x, b.x), want, t);
    }
}
template<int L, int R_> void igp_pair() { for (int k = 0; k < mon::S().rounds; ++k) quotient(make<L>(), make<R_>()); }
template<int L, int R_> void igp_row() { if constexpr (R_ < SHAPES) { igp_pair<L, R_>(); igp_row<L, R_ + RSTEP>(); } }
#endif

template<int L> void shape() {
    if constexpr (L < SHAPES) {
        for (int k = 0; k < mon::S().rounds; ++k) unary(make<L>());
#if MASK & 2
        igp_row<L, (L / NPARTS) % RSTEP>();
#endif
        shape<L + NPARTS>();
    }
}

int main(int argc, char **argv) {
    mon::begin(argc, argv, PROPERTY, UNIT + " part " STR(PART));
    std::string why; if (!SP.selftest(why)) { std::cerr << "reference model broken: " << why << "\n"; return 3; }
    shape<PART>();
    return mon::finish();
}
