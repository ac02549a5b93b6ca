// Generated programs: the same computation done step by step, in a lazy context, and by the reference model.
#ifndef VERIF_PROG_HPP
#define VERIF_PROG_HPP

#include "operands.hpp"

namespace prog {

using ref::mv; using ref::num;

// Where the mathematical expression has no value (a division by zero, the root of a negative number) nothing is asked.
struct undefined {};

inline num defined(num v) { if (!std::isfinite(v) || std::fabs(v) > 1e200L) throw undefined(); return v; }
inline num nz(num v) { if (!(std::fabs(v) > 1e-6L)) throw undefined(); return defined(v); }

inline mv rgp(mv const &a, mv const &b) { return SP.gp(a, b); }
inline mv rop(mv const &a, mv const &b) { return SP.op(a, b); }
inline mv rlcont(mv const &a, mv const &b) { return SP.lcont(a, b); }
inline mv rrcont(mv const &a, mv const &b) { return SP.rcont(a, b); }
inline mv rdot(mv const &a, mv const &b) { return SP.dot(a, b); }
inline mv rhip(mv const &a, mv const &b) { return SP.hip(a, b); }
inline mv rsp(mv const &a, mv const &b) { return SP.sp(a, b); }
inline mv rrp(mv const &a, mv const &b) { return SP.rp(a, b); }
inline mv rcp(mv const &a, mv const &b) { return num(0.5L) * (SP.gp(a, b) - SP.gp(b, a)); }
inline mv radd(mv const &a, mv const &b) { return a + b; }
inline mv rsub(mv const &a, mv const &b) { return a - b; }
inline mv rneg(mv const &a) { return -a; }
inline mv rreverse(mv const &a) { return ref::reverse(a); }
inline mv rinvolute(mv const &a) { return ref::involute(a); }
inline mv rconjugate(mv const &a) { return ref::conjugate(a); }
inline mv rrnorm_sqr(mv const &a) { return mv(SP.rnorm_sqr(a)); }
inline mv rinv(mv const &a) { nz(SP.rnorm_sqr(a)); return SP.inv(a); }
inline mv runit(mv const &a) { return (1 / std::sqrt(std::fabs(nz(SP.rnorm_sqr(a))))) * a; }
inline mv rigp(mv const &a, mv const &b) { return SP.gp(a, rinv(b)); }
inline mv rexp(mv const &a) { for (auto const &p : a.c) if (std::fabs(p.second) > 12) throw undefined(); return SP.exp(a); }
inline mv rapply_odd_versor(mv const &v, mv const &a) { return SP.gp(SP.gp(v, ref::involute(a)), rinv(v)); }
inline mv rapply_rotor(mv const &v, mv const &a) { return SP.gp(SP.gp(v, a), ref::reverse(v)); }
inline mv rdual(mv const &a) { return SP.dual(a, SP.I()); }
inline mv rundual(mv const &a) { return SP.undual(a, SP.I()); }
inline mv rgrade(mv const &a, int k) { return ref::take(a, k); }
inline mv rscale(num k, mv const &a) { return k * a; }

// Magnitudes on the way decide how much rounding the result may carry.
inline num &peak() { static num p = 1; return p; }
inline mv seen(mv const &a) { for (auto const &p : a.c) { defined(p.second); peak() = std::max(peak(), std::fabs(p.second)); } return a; }

template<class F, class... X, size_t... I> auto lazily(F const &f, std::index_sequence<I...>, X const &...x) {
    auto lazy = ga::make_lazy_context(x...);
    return lazy.eval(f(lazy.template argument<I>()...));
}
template<class F, class... X> auto lazily(F const &f, X const &...x) { return lazily(f, std::index_sequence_for<X...>{}, x...); }

// The library's way of composing lazy computations: inside a lazy computation another one is started on its arguments.
template<class F, class... X, size_t... I> auto nested(F const &f, std::index_sequence<I...>, X const &...x) {
    auto lazy = ga::make_lazy_context(x...);
    return lazy.eval(lazily(f, lazy.template argument<I>()...));
}
template<class F, class... X, size_t... I> mv twice(F const &f, mv &second, std::index_sequence<I...>, X const &...x) {
    auto lazy = ga::make_lazy_context(x...);
    auto const expr = f(lazy.template argument<I>()...);
    mv const first = mon::R(lazy.eval(expr));
    second = mon::R(lazy.eval(expr));
    return first;
}
// MODE: 1 eager, 2 lazy, 4 nested, 8 repeated evaluation, 16 tuple form of the context.
template<int MODE, class F, class G, class... O> void run(char const *text, num tol, F const &f, G const &g, O const &...o) {
    std::string shape; ((shape += shape.empty() ? "" : ", ", shape += o.shape), ...);
    mv want; peak() = 1;
    (seen(o.r), ...);
    try { want = seen(g(o.r...)); } catch (undefined const &) { ++mon::S().events["skipped: no value"]; return; }
    std::vector<mv> const ops{o.r...};
    std::string const joined = mon::join(ops);
    auto check = [&](std::string const &how, mv const &got) { mon::verdict(how + text, shape, ops, got, want, tol, peak()); };
    auto const idx = std::index_sequence_for<O...>{};
    if constexpr (bool(MODE & 1)) { mon::at(std::string("eager ") + text, shape, joined); check("eager ", mon::R(f(o.x...))); }
    if constexpr (bool(MODE & 2)) { mon::at(std::string("lazy ") + text, shape, joined); auto const r = lazily(f, o.x...); check("lazy ", mon::R(r)); }
    if constexpr (bool(MODE & 4)) { mon::at(std::string("nested lazy ") + text, shape, joined); auto const r = nested(f, idx, o.x...); check("nested lazy ", mon::R(r)); }
    if constexpr (bool(MODE & 8)) { mon::at(std::string("repeated lazy ") + text, shape, joined); mv second; check("first evaluation ", twice(f, second, idx, o.x...)); check("second evaluation ", second); }
    if constexpr (bool(MODE & 16)) {
        mon::at(std::string("lazy tuple ") + text, shape, joined);
        auto t = ga::make_lazy_context_tuple(o.x...);
        check("lazy tuple ", std::apply([&](auto &lazy, auto const &...a) { return mon::R(lazy.eval(f(a...))); }, t));
    }
    // the operands still hold what they held
    bool same = true; ((same = same && mon::close(mon::R(o.x), o.r, 0)), ...);
    mon::verdict_bool(std::string("operands of ") + text, shape, joined, same, "unchanged", "changed");
}

}

#endif
