// Generated scalar expressions: evaluated by the library (step by step, and simplified as a whole in a lazy context) and by
// running-error arithmetic on real numbers, which also tells how far rounding may move the result.
#ifndef VERIF_SCAL_HPP
#define VERIF_SCAL_HPP

#include "operands.hpp"

namespace scal {

using num = ref::num;
struct undefined {};

constexpr num U = 4.5e-16L;   // two roundings of double precision per step

struct en { num v, e; };      // value, bound of the error

inline en mk(num v, num e) { if (!std::isfinite(v) || !std::isfinite(e) || std::fabs(v) > 1e60L || (v != 0 && std::fabs(v) < 1e-60L)) throw undefined(); return {v, e + U * std::fabs(v)}; }
inline en K(num v) { return {v, 0}; }
inline en A(num v) { return {v, 0}; }
// The terms of a sum may be multiplied out before they are added, so each contributes its own rounding.
inline en operator+(en a, en b) { return mk(a.v + b.v, a.e + b.e + U * (std::fabs(a.v) + std::fabs(b.v))); }
inline en operator-(en a, en b) { return mk(a.v - b.v, a.e + b.e + U * (std::fabs(a.v) + std::fabs(b.v))); }
inline en operator-(en a) { return {-a.v, a.e}; }
inline en operator*(en a, en b) { return mk(a.v * b.v, std::fabs(a.v) * b.e + std::fabs(b.v) * a.e + a.e * b.e); }
inline en inv_(en a) { if (std::fabs(a.v) <= 1e-9L + 100 * a.e) throw undefined(); return mk(1 / a.v, a.e / (std::fabs(a.v) * (std::fabs(a.v) - a.e))); }
template<class F> en fn(F f, en a) { num v = f(a.v), p = f(a.v + a.e), q = f(a.v - a.e); num e = std::max(std::fabs(p - v), std::fabs(q - v)); return mk(v, e * 2 + U * std::fabs(v)); }
// Functions on half-lines: the argument must be clear of the border, or exactly on it.
inline void nonneg(en a) { if (a.v < 0 || (a.v != 0 && a.v <= 1e-9L + 100 * a.e) || (a.v == 0 && a.e > 0)) throw undefined(); }
inline en sqrt_(en a) { nonneg(a); return a.v == 0 ? en{0, 0} : fn([](num x) { return std::sqrt(x); }, a); }
inline en cbrt_(en a) { if (a.v != 0 && std::fabs(a.v) <= 1e-9L + 100 * a.e || a.v == 0 && a.e > 0) throw undefined(); return a.v == 0 ? en{0, 0} : fn([](num x) { return std::cbrt(x); }, a); }
inline en abs_(en a) { return {std::fabs(a.v), a.e}; }
inline en exp_(en a) { if (std::fabs(a.v) > 30) throw undefined(); return fn([](num x) { return std::exp(x); }, a); }
inline en log_(en a) { if (!(a.v > 1e-9L + 100 * a.e)) throw undefined(); return fn([](num x) { return std::log(x); }, a); }
inline en cos_(en a) { return fn([](num x) { return std::cos(x); }, a); }
inline en sin_(en a) { return fn([](num x) { return std::sin(x); }, a); }
inline en tan_(en a) { if (std::fabs(std::cos(a.v)) < 1e-3L) throw undefined(); return fn([](num x) { return std::tan(x); }, a); }
inline en cosh_(en a) { if (std::fabs(a.v) > 30) throw undefined(); return fn([](num x) { return std::cosh(x); }, a); }
inline en sinh_(en a) { if (std::fabs(a.v) > 30) throw undefined(); return fn([](num x) { return std::sinh(x); }, a); }
inline en tanh_(en a) { return fn([](num x) { return std::tanh(x); }, a); }
inline en powi_(en a, int n) {
    if (n == 0) return K(1);
    en r = a; for (int k = 1; k < (n < 0 ? -n : n); ++k) r = r * a;
    return n < 0 ? inv_(r) : r;
}
inline en pow_(en a, en b) { if (!(a.v > 1e-9L + 100 * a.e)) throw undefined(); return exp_(b * log_(a)); }

// Values where rules go wrong: zero, units, both signs, integers, small and large.
inline double draw() {
    switch (mon::irand(0, 7)) {
        case 0: { double const k[] = {0, 1, -1, 2, -2, 4, -8, 0.5, -0.25}; return k[mon::irand(0, 8)]; }
        case 1: case 2: return mon::irand(-9, 9);
        case 3: return mon::dpos(1e-3, 1e-1) * ((mon::S().rng() & 1) ? 1 : -1);
        case 4: return mon::dpos(3, 30) * ((mon::S().rng() & 1) ? 1 : -1);
        case 5: return mon::dpos();
        default: return mon::dreal();
    }
}

template<class F, class... X, size_t... I> auto lazily(F const &f, std::index_sequence<I...>, X const &...x) {
    auto lazy = ga::make_lazy_context(x...);
    return lazy.eval(f(lazy.template argument<I>()...));
}
template<class X> auto lift(X const &x) { if constexpr (std::is_arithmetic_v<X>) return ga::scalar(x); else return x; }

inline num value(ref::mv const &m) { return m.at(0); }

// ops: the operands as the library sees them; args: their values.
template<class F, class G, class... X> void run(char const *text, char const *shape, F const &f, G const &g, X const &...x) {
    en want;
    try { want = g(A(static_cast<num>(mon::R(x).at(0)))...); } catch (undefined const &) { ++mon::S().events["skipped: no value"]; return; }
    std::vector<ref::mv> const ops{mon::R(x)...};
    num const lim = 64 * want.e;
    if (lim > 1e-5L * (1 + std::fabs(want.v))) { ++mon::S().events["skipped: ill-conditioned"]; return; }
    std::string const joined = mon::join(ops);
    auto check = [&](std::string const &how, ref::mv const &got) {
        std::string const name = how + text;
        mon::count(name, shape, joined, want.v != 0, ref::mv(want.v).str());
        num const d = std::fabs(got.at(0) - want.v);
        bool pure = true; for (auto const &p : got.c) if (p.first) pure = false;
        if (!(d <= lim + 1e-14L * std::fabs(want.v)) || !pure) mon::report(name, shape, joined, ref::mv(want.v).str(), got.str());
    };
    mon::at(std::string("eager ") + text, shape, joined);
    check("eager ", mon::R(f(lift(x)...)));
    mon::at(std::string("lazy ") + text, shape, joined);
    auto const r = lazily(f, std::index_sequence_for<X...>{}, lift(x)...);
    check("lazy ", mon::R(r));
}

}

#endif
