// Binary products, every operand shape pair. -DPART=i/NPARTS splits by the left shape; -DOPS_MASK picks the products.
#include "operands.hpp"
using namespace opnd;

template<class A, class B> void unary_binary(A const &a, B const &b) {
    std::string const sh = std::string(a.shape) + ", " + b.shape;
    using X = std::decay_t<decltype(a.x)>; using Y = std::decay_t<decltype(b.x)>;
    constexpr bool both_native = native_v<X> && native_v<Y>;
    (void)both_native;
#if OPS_MASK & 1
    OBSERVE("gp", sh, OPS(a.r, b.r), gp(a.x, b.x), SP.gp(a.r, b.r), 0);
    if constexpr (!both_native) OBSERVE("operator*", sh, OPS(a.r, b.r), a.x * b.x, SP.gp(a.r, b.r), 0);
#endif
#if OPS_MASK & 2
    OBSERVE("op", sh, OPS(a.r, b.r), op(a.x, b.x), ref::op(a.r, b.r), 0);
    if constexpr (!both_native) OBSERVE("operator^", sh, OPS(a.r, b.r), a.x ^ b.x, ref::op(a.r, b.r), 0);
    OBSERVE("rp", sh, OPS(a.r, b.r), rp(a.x, b.x), SP.rp(a.r, b.r), 0);
#endif
#if OPS_MASK & 4
    OBSERVE("lcont", sh, OPS(a.r, b.r), lcont(a.x, b.x), SP.lcont(a.r, b.r), 0);
    if constexpr (!both_native) OBSERVE("operator<", sh, OPS(a.r, b.r), a.x < b.x, SP.lcont(a.r, b.r), 0);
    OBSERVE("rcont", sh, OPS(a.r, b.r), rcont(a.x, b.x), SP.rcont(a.r, b.r), 0);
    if constexpr (!both_native) OBSERVE("operator>", sh, OPS(a.r, b.r), a.x > b.x, SP.rcont(a.r, b.r), 0);
#endif
#if OPS_MASK & 8
    OBSERVE("dot", sh, OPS(a.r, b.r), dot(a.x, b.x), SP.dot(a.r, b.r), 0);
    if constexpr (!both_native) OBSERVE("operator|", sh, OPS(a.r, b.r), a.x | b.x, SP.dot(a.r, b.r), 0);
    OBSERVE("hip", sh, OPS(a.r, b.r), hip(a.x, b.x), SP.hip(a.r, b.r), 0);
    OBSERVE("sp", sh, OPS(a.r, b.r), sp(a.x, b.x), SP.sp(a.r, b.r), 0);
#endif
    // operands are never modified
    if (!mon::close(mon::R(a.x), a.r, 0)) mon::report("operand unchanged", sh, mon::join(OPS(a.r, b.r)), a.r.str(), mon::R(a.x).str(), "left");
    if (!mon::close(mon::R(b.x), b.r, 0)) mon::report("operand unchanged", sh, mon::join(OPS(a.r, b.r)), b.r.str(), mon::R(b.x).str(), "right");
}

template<int L, int R_> void pair() { for (int k = 0; k < mon::S().rounds; ++k) unary_binary(make<L>(), make<R_>()); }
#ifndef RSTEP
#define RSTEP 1
#define ROFF 0
#endif
template<int L, int R_> void row() { if constexpr (R_ < SHAPES) { if constexpr ((R_ + 3 * L) % RSTEP == ROFF) pair<L, R_>(); row<L, R_ + 1>(); } }
template<int L> void rows() { if constexpr (L < SHAPES) { row<L, 0>(); rows<L + NPARTS>(); } }

int main(int argc, char **argv) {
    mon::begin(argc, argv, PROPERTY, UNIT + " part " STR(PART));
    std::string why; if (!SP.selftest(why)) { std::cerr << "reference model broken: " << why << "\n"; return 3; }
    rows<PART>();
    return mon::finish();
}
