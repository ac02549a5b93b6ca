// Linear structure: unary + and -, sums and differences of every pair of operand shapes (natives included), scalar
// multiples and quotients, and the vector space laws.  -DPART/-DNPARTS split by the left shape.
#include "operands.hpp"
using namespace opnd;

template<class X> constexpr bool integral_v() { if constexpr (native_v<X>) return std::is_integral_v<X>; else return std::is_integral_v<typename X::coefficient_type>; }
template<class X> constexpr bool float_v() { if constexpr (native_v<X>) return false; else return std::is_same_v<typename X::coefficient_type, float>; }

template<class A> void unary(A const &a) {
    using X = std::decay_t<decltype(a.x)>; std::string const sh = a.shape;
    if constexpr (!native_v<X>) {
        constexpr ref::num t = float_v<X>() ? 4e-5L : 1e-12L;
        OBSERVE("+a", sh, OPS(a.r), +a.x, a.r, 0);
        OBSERVE("-a", sh, OPS(a.r), -a.x, -a.r, 0);
        OBSERVE("-(-a)", sh, OPS(a.r), -(-a.x), a.r, 0);
        OBSERVE("a+a", sh, OPS(a.r), a.x + a.x, ref::num(2) * a.r, 0);
        OBSERVE("a-a", sh, OPS(a.r), a.x - a.x, ref::mv(), 0);
        OBSERVE("a+(-a)", sh, OPS(a.r), a.x + (-a.x), ref::mv(), 0);
        OBSERVE("a+0", sh, OPS(a.r), a.x + c<0>, a.r, 0);
        OBSERVE("0+a", sh, OPS(a.r), c<0> + a.x, a.r, 0);
        OBSERVE("a*1", sh, OPS(a.r), a.x * c<1>, a.r, 0);
        OBSERVE("a*0", sh, OPS(a.r), a.x * c<0>, ref::mv(), 0);
        double d = dint(); int i = irand(-9, 9);
        OBSERVE("double*a", sh, OPS(ref::mv(d), a.r), d * a.x, ref::num(d) * a.r, 0);
        OBSERVE("a*double", sh, OPS(a.r, ref::mv(d)), a.x * d, ref::num(d) * a.r, 0);
        OBSERVE("int*a", sh, OPS(ref::mv(i), a.r), i * a.x, ref::num(i) * a.r, 0);
        OBSERVE("a*int", sh, OPS(a.r, ref::mv(i)), a.x * i, ref::num(i) * a.r, 0);
        OBSERVE("double+a", sh, OPS(ref::mv(d), a.r), d + a.x, ref::mv(d) + a.r, 0);
        OBSERVE("a+double", sh, OPS(a.r, ref::mv(d)), a.x + d, a.r + ref::mv(d), 0);
        OBSERVE("int-a", sh, OPS(ref::mv(i), a.r), i - a.x, ref::mv(i) - a.r, 0);
        OBSERVE("a-int", sh, OPS(a.r, ref::mv(i)), a.x - i, a.r - ref::mv(i), 0);
        OBSERVE("c<k>*a", sh, OPS(a.r), c<-5> * a.x, ref::num(-5) * a.r, 0);
        OBSERVE("a*scalar(double)", sh, OPS(a.r, ref::mv(d)), a.x * scalar(d), ref::num(d) * a.r, 0);
        double q = mon::dpos(0.2, 5) * (mon::S().rng() & 1 ? 1 : -1); int j = inz(4) ;
        OBSERVE("a/double", sh, OPS(a.r, ref::mv(q)), a.x / q, (1 / ref::num(q)) * a.r, t);
        OBSERVE("a/scalar(double)", sh, OPS(a.r, ref::mv(q)), a.x / scalar(q), (1 / ref::num(q)) * a.r, t);
        OBSERVE("a/c<-4>", sh, OPS(a.r), a.x / c<-4>, (ref::num(-1) / 4) * a.r, t);
        if constexpr (!integral_v<X>()) OBSERVE("a/int", sh, OPS(a.r, ref::mv(j)), a.x / j, (1 / ref::num(j)) * a.r, t);
        OBSERVE("k(a+a)=ka+ka", sh, OPS(ref::mv(d), a.r), d * (a.x + a.x) - (d * a.x + d * a.x), ref::mv(), 0);
        if (!mon::close(mon::R(a.x), a.r, 0)) mon::report("operand unchanged", sh, a.r.str(), a.r.str(), mon::R(a.x).str());
    }
}

template<class A, class B> void binary(A const &a, B const &b) {
    using X = std::decay_t<decltype(a.x)>; using Y = std::decay_t<decltype(b.x)>;
    std::string const sh = std::string(a.shape) + ", " + b.shape;
    if constexpr (!(native_v<X> && native_v<Y>)) {
        OBSERVE("operator+", sh, OPS(a.r, b.r), a.x + b.x, a.r + b.r, 0);
        OBSERVE("operator-", sh, OPS(a.r, b.r), a.x - b.x, a.r - b.r, 0);
#ifdef LAWS
        OBSERVE("(a+b)-b", sh, OPS(a.r, b.r), (a.x + b.x) - b.x, a.r, 0);
        OBSERVE("a-(b-a)", sh, OPS(a.r, b.r), a.x - (b.x - a.x), ref::num(2) * a.r - b.r, 0);
        OBSERVE("3a-2b", sh, OPS(a.r, b.r), 3 * a.x - c<2> * b.x, ref::num(3) * a.r - ref::num(2) * b.r, 0);
#endif
        if (!mon::close(mon::R(a.x), a.r, 0)) mon::report("operand unchanged", sh, mon::join(OPS(a.r, b.r)), a.r.str(), mon::R(a.x).str(), "left");
        if (!mon::close(mon::R(b.x), b.r, 0)) mon::report("operand unchanged", sh, mon::join(OPS(a.r, b.r)), b.r.str(), mon::R(b.x).str(), "right");
    }
}

template<int L, int R_> void row() { if constexpr (R_ < SHAPES) { for (int k = 0; k < mon::S().rounds; ++k) binary(make<L>(), make<R_>()); row<L, R_ + 1>(); } }
template<int L> void shape() { if constexpr (L < SHAPES) { for (int k = 0; k < mon::S().rounds; ++k) unary(make<L>()); row<L, 0>(); if constexpr (L + NPARTS < SHAPES) shape<L + NPARTS>(); } }

int main(int argc, char **argv) {
    mon::begin(argc, argv, PROPERTY, UNIT + " part " STR(PART));
    std::string why; if (!SP.selftest(why)) { std::cerr << "reference model broken: " << why << "\n"; return 3; }
    shape<PART>();
    return mon::finish();
}
