// Commutator product on every pair of operand shapes (-DMASK=1) and delta product on the pairs the compiler can take
// (-DMASK=2).  -DPART/-DNPARTS split by the left shape, -DRSTEP strides over the right ones.
#include "operands.hpp"
using namespace opnd;

template<class X> constexpr bool float_v() { if constexpr (native_v<X>) return false; else return std::is_same_v<typename X::coefficient_type, float>; }

template<class A, class B> void cp_pair(A const &a, B const &b) {
    std::string const sh = std::string(a.shape) + ", " + b.shape;
    ref::mv want = ref::num(0.5) * (SP.gp(a.r, b.r) - SP.gp(b.r, a.r));
    OBSERVE("cp", sh, OPS(a.r, b.r), cp(a.x, b.x), want, 0);
    if (!mon::close(mon::R(a.x), a.r, 0) || !mon::close(mon::R(b.x), b.r, 0)) mon::report("operand unchanged", sh, mon::join(OPS(a.r, b.r)), "", "");
}

// The documented default tolerance of the operands' common coefficient type; only float and double have one.
template<class X> constexpr auto coefficient(X const &) { if constexpr (native_v<X>) return X(); else return typename X::coefficient_type(); }
template<class X, class Y> constexpr ref::num default_tol() {
    using T = std::common_type_t<decltype(coefficient(std::declval<X>())), decltype(coefficient(std::declval<Y>()))>;
    return std::is_same_v<T, double> ? ref::num(GA_DEFAULT_DBL_TOLERANCE) : std::is_same_v<T, float> ? ref::num(GA_DEFAULT_FLT_TOLERANCE) : ref::num(0);
}

int largest(ref::mv const &m, ref::num tol) { int g = -2; for (auto const &p : m.c) if (std::fabs(p.second) > tol) g = std::max(g, ref::ones(p.first)); return g; }

template<class A, class B> void dp_pair(A const &a, B const &b) {
    using X = std::decay_t<decltype(a.x)>; using Y = std::decay_t<decltype(b.x)>;
    std::string const sh = std::string(a.shape) + ", " + b.shape;
    ref::mv const g = SP.gp(a.r, b.r);
    for (double tol : {0.0, 3.0, 30.0}) {
        OBSERVE("dp(tol)", sh, OPS(a.r, b.r, ref::mv(tol)), dp(a.x, b.x, tol), ref::take(g, largest(g, tol)), 0);
    }
    if constexpr (!(native_v<X> || native_v<Y>)) {
        OBSERVE("dp", sh, OPS(a.r, b.r), dp(a.x, b.x), ref::take(g, largest(g, default_tol<X, Y>())), 0);
        OBSERVE("dp(scalar tol)", sh, OPS(a.r, b.r), dp(a.x, b.x, scalar(2.0)), ref::take(g, largest(g, 2.0)), 0);
    }
    if (!mon::close(mon::R(a.x), a.r, 0) || !mon::close(mon::R(b.x), b.r, 0)) mon::report("operand unchanged", sh, mon::join(OPS(a.r, b.r)), "", "");
}

// Vectors whose products nearly vanish in one grade.
template<int I> void near() {
    full_vector_t<double, ND> u, v; auto a = fill(u, dint); double s = mon::inz(3), d = mon::inz(3) * 1e-3;
    v = u; for (auto &x : v.values()) x *= s; *(v.values().begin() + irand(0, ND - 1)) += d;
    ref::mv b = mon::R(v), g = SP.gp(a, b);
    for (double tol : {1e-6, 1e-2, 0.5}) OBSERVE("dp(tol)", "nearly parallel full vectors", OPS(a, b, ref::mv(tol)), dp(u, v, tol), ref::take(g, largest(g, tol)), 1e-12L);
}

constexpr int DP[] = {0, 1, 2, 3, 4, 5, 6, 7, 9, 10, 11, 15, 16, 17, 18, 21};
constexpr int NDP = ORTHOGONAL ? 16 : 12;

#if MASK & 1
template<int L, int R_> void cp_row() { if constexpr (R_ < SHAPES) { for (int k = 0; k < mon::S().rounds; ++k) cp_pair(make<L>(), make<R_>()); cp_row<L, R_ + RSTEP>(); } }
template<int L> void shape() { if constexpr (L < SHAPES) { cp_row<L, (L / NPARTS + L) % RSTEP>(); if constexpr (L + NPARTS < SHAPES) shape<L + NPARTS>(); } }
#else
template<int L, int R_> void dp_row() { if constexpr (R_ < NDP) { for (int k = 0; k < mon::S().rounds; ++k) dp_pair(make<DP[L]>(), make<DP[R_]>()); dp_row<L, R_ + RSTEP>(); } }
template<int L> void shape() { if constexpr (L < NDP) { dp_row<L, (L / NPARTS + L) % RSTEP>(); if constexpr (L + NPARTS < NDP) shape<L + NPARTS>(); } }
#endif

int main(int argc, char **argv) {
    mon::begin(argc, argv, PROPERTY, UNIT + (MASK & 1 ? " cp" : " dp") + " part " STR(PART));
    std::string why; if (!SP.selftest(why)) { std::cerr << "reference model broken: " << why << "\n"; return 3; }
    shape<PART>();
#if MASK & 2
    if constexpr (PART == 0) for (int k = 0; k < mon::S().rounds * 3; ++k) near<0>();
#endif
    return mon::finish();
}
