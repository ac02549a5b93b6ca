// Basis blades of spaces with many dimensions: dense sets of basis vectors, drawn at random, known at run time or
// (-DBA -DBB) at compile time.  -DMASK: 1 gp, 2 op rp, 4 contractions, 8 dot hip sp, 16 involutions and grades, 32 norms, inverse and duality.
#include "operands.hpp"
using opnd::RB; using opnd::mk;
using namespace NS;

static ref::bits anyb() {
    auto &g = mon::S().rng;
    switch (g() % 6) {
        case 0: return g() & SP.all();
        case 1: return g() & g() & g() & SP.all();
        case 2: return (g() | g() | g()) & SP.all();
        case 3: { int const i = g() % ND, n = 1 + g() % (ND - i); return (n >= 64 ? ~ref::bits(0) : ((ref::bits(1) << n) - 1)) << i & SP.all(); }  // a run of neighbours
        case 4: return (ref::bits(0xF) << (4 * (g() % 16)) | (g() & g() & g() & g())) & SP.all();
        default: return SP.all() & ~(ref::bits(1) << (g() % 64)) & ~(ref::bits(1) << (g() % 64));
    }
}
static double coef() { return static_cast<double>(mon::irand(1, 9)) * (mon::S().rng() & 1 ? 1 : -1); }

template<ref::bits B> auto fixed() {
    double const v = coef();
    ga::clifford_expression<ga::default_integral_t, ga::detail::component<ga::detail::constant_value<1>, ga::detail::constant_basis_blade<B> > > b;
    return mk(v * b, RB(B, v), "double * const dense blade");
}
template<ref::bits B> auto literal_() {
    ga::clifford_expression<ga::default_integral_t, ga::detail::component<ga::detail::constant_value<-3>, ga::detail::constant_basis_blade<B> > > b;
    return mk(b, RB(B, -3), "const dense blade");
}
static auto dynamic(ref::bits b) {
    scaled_basis_blade_t<double, 0, ND> v; double const a = coef(); *v.values().begin() = a; *v.bitsets().begin() = b;
    return mk(v, RB(b, a), "run-time dense blade");
}

template<class A, class B> void two(A const &a, B const &b) {
    std::string const sh = std::string(a.shape) + ", " + b.shape;
#if MASK & 1
    OBSERVE("gp", sh, OPS(a.r, b.r), gp(a.x, b.x), SP.gp(a.r, b.r), 0);
#endif
#if MASK & 2
    OBSERVE("op", sh, OPS(a.r, b.r), op(a.x, b.x), ref::op(a.r, b.r), 0);
    OBSERVE("rp", sh, OPS(a.r, b.r), rp(a.x, b.x), SP.rp(a.r, b.r), 0);
#endif
#if MASK & 4
    OBSERVE("lcont", sh, OPS(a.r, b.r), lcont(a.x, b.x), SP.lcont(a.r, b.r), 0);
    OBSERVE("rcont", sh, OPS(a.r, b.r), rcont(a.x, b.x), SP.rcont(a.r, b.r), 0);
#endif
#if MASK & 8
    OBSERVE("dot", sh, OPS(a.r, b.r), dot(a.x, b.x), SP.dot(a.r, b.r), 0);
    OBSERVE("hip", sh, OPS(a.r, b.r), hip(a.x, b.x), SP.hip(a.r, b.r), 0);
    OBSERVE("sp", sh, OPS(a.r, b.r), sp(a.x, b.x), SP.sp(a.r, b.r), 0);
#endif
    (void)sh;
}
template<class A> void oneop(A const &a) {
    std::string const sh = a.shape; (void)sh;
#if MASK & 16
    OBSERVE("reverse", sh, OPS(a.r), reverse(a.x), ref::reverse(a.r), 0);
    OBSERVE("involute", sh, OPS(a.r), involute(a.x), ref::involute(a.r), 0);
    OBSERVE("conjugate", sh, OPS(a.r), conjugate(a.x), ref::conjugate(a.r), 0);
    int const g = ref::ones(a.r.c.begin()->first);
    for (int k : {g - 1, g, g + 1}) if (k >= 0 && k <= ND) OBSERVE("take_grade(run-time k)", sh, OPS(a.r, ref::mv(k)), take_grade(a.x, k), ref::take(a.r, k), 0);
#endif
#if MASK & 32
    ref::num const n2 = SP.rnorm_sqr(a.r);
    OBSERVE("rnorm_sqr", sh, OPS(a.r), rnorm_sqr(a.x), ref::mv(n2), 0);
    if (n2 != 0) OBSERVE("inv", sh, OPS(a.r), inv(a.x), (1 / n2) * ref::reverse(a.r), 1e-12L);
    if constexpr (!DEGENERATE) OBSERVE("dual", sh, OPS(a.r), dual(a.x), SP.dual(a.r, SP.I()), 0);
    OBSERVE("undual", sh, OPS(a.r), undual(a.x), SP.undual(a.r, SP.I()), 0);
#endif
}

int main(int argc, char **argv) {
    mon::begin(argc, argv, PROPERTY, UNIT);
    std::string why; if (!SP.selftest(why)) { std::cerr << "reference model broken: " << why << "\n"; return 3; }
    ref::bits null = 0; for (int i = 0; i < ND; ++i) if (SP.G(i, i) == 0) null |= ref::bits(1) << i;
    constexpr ref::bits BA_ = BA & (ND >= 64 ? ~ref::bits(0) : (ref::bits(1) << ND) - 1), BB_ = BB & (ND >= 64 ? ~ref::bits(0) : (ref::bits(1) << ND) - 1);
    for (int k = 0; k < 100 * mon::S().rounds; ++k) {
        ref::bits const x = k % 2 ? anyb() : anyb() & ~null, y = anyb();
        ref::bits const other[] = {y, y & ~null, SP.all() & ~x, x, x & y, x | y, y & ~x, SP.all() & ~(x & y)};  // any, complementary, equal, contained, containing, disjoint, spanning
        auto const a = dynamic(x), b = dynamic(other[mon::S().rng() % 8]);
        two(a, b); oneop(a);
        if (k % 4 == 0) { two(a, fixed<BA_>()); two(fixed<BB_>(), b); two(fixed<BA_>(), fixed<BB_>()); }
        if (k % 40 == 0) { two(literal_<BA_>(), literal_<BB_>()); two(a, literal_<BB_>()); two(literal_<BA_>(), b); oneop(literal_<BA_>()); oneop(fixed<BA_>()); oneop(fixed<BB_>()); }
    }
    return mon::finish();
}
