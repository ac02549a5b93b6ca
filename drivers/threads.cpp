// Threads that share constant operands: every thread computes the same expressions, the values are compared with those the
// main thread computed alone; a race detector watches the accesses.
#include "operands.hpp"
#include <atomic>
#include <thread>
using namespace opnd;
using ref::mv;

template<int L, int R_, class A, class B> std::vector<mv> work(A const &a, B const &b) {
    std::vector<mv> r;
    r.push_back(mon::R(gp(a, b))); r.push_back(mon::R(op(a, b))); r.push_back(mon::R(lcont(a, b))); r.push_back(mon::R(rp(a, b))); r.push_back(mon::R(sp(a, b))); r.push_back(mon::R(a + b)); r.push_back(mon::R(reverse(a))); r.push_back(mon::R(take_grade(b, 1)));
    r.push_back(mon::R(rnorm_sqr(a))); r.push_back(mon::R(undual(b))); r.push_back(mon::R(cp(a, b)));
    if constexpr (L > 2 && L < STATIC_END) { full_multivector_t<double, ND> m = a; r.push_back(mon::R(m)); }
    if constexpr (R_ < STATIC_END) { full_multivector_t<double, ND> n; n = b; r.push_back(mon::R(n)); }
    { std::ostringstream s; s << a << b; r.push_back(mv(double(s.str().size()))); }
    r.push_back(mon::R(exp(scalar(0.5)))); r.push_back(mon::R(e(1) * e(ND))); r.push_back(mon::R(NS::I * NS::I));
    return r;
}

template<int L, int R_> void shared() {
    for (int k = 0; k < (mon::S().rounds + 9) / 10; ++k) {
        auto const a = make<L>(); auto const b = make<R_>(); constexpr int N = 4;
        std::string const sh = std::string(a.shape) + ", " + b.shape; mon::at("threads", sh, mon::join(OPS(a.r, b.r)));
        std::vector<std::vector<mv>> got(N); std::atomic<int> ready{0}; std::vector<std::thread> ts;
        for (int t = 0; t < N; ++t) ts.emplace_back([&, t] { ++ready; while (ready < N) {} for (int q = 0; q < 5; ++q) got[t] = work<L, R_>(a.x, b.x); });
        for (auto &t : ts) t.join();
        auto const want = work<L, R_>(a.x, b.x);
        for (int t = 0; t < N; ++t) for (size_t i = 0; i < want.size(); ++i) mon::verdict("expression " + std::to_string(i) + " in thread", sh, OPS(a.r, b.r), got[t][i], want[i], 0);
        if (!mon::close(mon::R(a.x), a.r, 0) || !mon::close(mon::R(b.x), b.r, 0)) mon::report("operand unchanged", sh, mon::join(OPS(a.r, b.r)), "", "");
    }
}
template<int L, int R_> void row() { if constexpr (R_ < SHAPES) { if constexpr (R_ > 2) shared<L, R_>(); row<L, R_ + 7>(); } }

int main(int argc, char **argv) {
    mon::begin(argc, argv, PROPERTY, UNIT + " threads " STR(PART));
    std::string why; if (!SP.selftest(why)) { std::cerr << "reference model broken: " << why << "\n"; return 3; }
    row<PART, PART % 7>();
    return mon::finish();
}
