// Independent reference model of Clifford algebra used as the oracle by every monitor.
// It shares no code with GATL: multivectors are maps {bitset of basis vectors -> coefficient}, the metric is an
// arbitrary symmetric bilinear form, and the geometric product is derived from  v X = v ^ X + v _| X  alone.
#ifndef VERIF_REF_HPP
#define VERIF_REF_HPP

#include <cmath>
#include <cstdint>
#include <cstdlib>
#include <functional>
#include <map>
#include <sstream>
#include <string>
#include <utility>
#include <vector>

namespace ref {

using num = long double;
using bits = std::uint64_t;

inline int ones(bits b) { int n = 0; for (; b; b &= b - 1) ++n; return n; }
inline int low(bits b) { int n = 0; while (!((b >> n) & 1)) ++n; return n; }

// Sign of the permutation that sorts (elements of a) followed by (elements of b); a and b disjoint.
inline int sort_sign(bits a, bits b) {
    int inv = 0;
    for (int i = 0; i < 64; ++i) if ((b >> i) & 1) for (int j = i + 1; j < 64; ++j) if ((a >> j) & 1) ++inv;
    return (inv & 1) ? -1 : 1;
}

struct mv {
    std::map<bits, num> c;
    mv() = default;
    mv(num s) { if (s != 0) c[0] = s; }
    static mv blade(bits b, num v = 1) { mv r; if (v != 0) r.c[b] = v; return r; }
    num at(bits b) const { auto i = c.find(b); return i == c.end() ? num(0) : i->second; }
    void acc(bits b, num v) { num &x = c[b]; x += v; if (x == 0) c.erase(b); }
    num norm() const { num m = 0; for (auto const &p : c) m = std::max(m, std::fabs(p.second)); return m; }
    bool zero(num tol = 0) const { for (auto const &p : c) if (!(std::fabs(p.second) <= tol)) return false; return true; }
    std::string str() const {
        std::ostringstream o; o.precision(21); o << "{"; bool f = true;
        for (auto const &p : c) { if (!f) o << ", "; f = false; o << p.first << ": " << p.second; }
        o << "}"; return o.str();
    }
};

inline mv operator+(mv a, mv const &b) { for (auto const &p : b.c) a.acc(p.first, p.second); return a; }
inline mv operator-(mv a, mv const &b) { for (auto const &p : b.c) a.acc(p.first, -p.second); return a; }
inline mv operator*(num s, mv const &a) { mv r; for (auto const &p : a.c) { num v = s * p.second; if (v != 0) r.c[p.first] = v; } return r; }
inline mv operator-(mv const &a) { return num(-1) * a; }

inline mv take(mv const &a, int k) { mv r; for (auto const &p : a.c) if (ones(p.first) == k) r.c.insert(p); return r; }
inline mv map_grades(mv const &a, std::function<num(int)> f) { mv r; for (auto const &p : a.c) r.acc(p.first, f(ones(p.first)) * p.second); return r; }
inline mv reverse(mv const &a) { return map_grades(a, [](int k) { return ((k * (k - 1) / 2) & 1) ? num(-1) : num(1); }); }
inline mv involute(mv const &a) { return map_grades(a, [](int k) { return (k & 1) ? num(-1) : num(1); }); }
inline mv conjugate(mv const &a) { return reverse(involute(a)); }

inline mv op(mv const &a, mv const &b) {
    mv r;
    for (auto const &p : a.c) for (auto const &q : b.c)
        if (!(p.first & q.first)) r.acc(p.first | q.first, sort_sign(p.first, q.first) * p.second * q.second);
    return r;
}

// A vector space with an arbitrary symmetric metric.
struct space {
    int n = 0;
    std::vector<num> g; // row-major n x n
    bool orth = true;
    mutable std::map<std::pair<bits, bits>, mv> memo;

    space() = default;
    space(int n_, std::vector<num> g_) : n(n_), g(std::move(g_)) {
        for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (i != j && g[i * n + j] != 0) orth = false;
    }
    static space sig(int p, int q, int r) {
        int n = p + q + r; std::vector<num> g(n * n, 0);
        for (int i = 0; i < n; ++i) g[i * n + i] = i < p ? 1 : (i < p + q ? -1 : 0);
        return space(n, g);
    }
    static space euclidean(int d) { return sig(d, 0, 0); }
    static space conformal(int d) {
        int n = d + 2; std::vector<num> g(n * n, 0);
        for (int i = 0; i < d; ++i) g[i * n + i] = 1;
        g[d * n + d + 1] = g[(d + 1) * n + d] = -1;
        return space(n, g);
    }
    num G(int i, int j) const { return g[i * n + j]; }
    bits all() const { return n == 64 ? ~bits(0) : ((bits(1) << n) - 1); }

    // e_i _| X, an antiderivation.
    mv vcont(int i, mv const &x) const {
        mv r;
        for (auto const &p : x.c) {
            int s = 1;
            for (bits b = p.first; b; b &= b - 1) { int j = low(b); num m = G(i, j); if (m != 0) r.acc(p.first & ~(bits(1) << j), s * m * p.second); s = -s; }
        }
        return r;
    }
    mv vgp(int i, mv const &x) const { return ref::op(mv::blade(bits(1) << i), x) + vcont(i, x); }

    mv bgp(bits a, bits b) const {
        if (!a) return mv::blade(b);
        if (orth) { // direct formula, only an optimisation: selftest() compares both
            num f = 1; for (bits k = a & b; k; k &= k - 1) f *= G(low(k), low(k));
            int inv = 0; for (bits k = b; k; k &= k - 1) { int i = low(k); inv += ones(i == 63 ? bits(0) : (a >> (i + 1))); }
            return mv::blade(a ^ b, (inv & 1) ? -f : f);
        }
        return bgp_rec(a, b);
    }
    mv bgp_rec(bits a, bits b) const {
        if (!a) return mv::blade(b);
        auto key = std::make_pair(a, b);
        auto it = memo.find(key); if (it != memo.end()) return it->second;
        int i = low(a); bits rest = a & (a - 1);
        mv r = vgp(i, bgp_rec(rest, b));
        mv k = vcont(i, mv::blade(rest));
        for (auto const &p : k.c) r = r - p.second * bgp_rec(p.first, b);
        return memo[key] = r;
    }
    mv gp(mv const &a, mv const &b) const {
        mv r;
        for (auto const &p : a.c) for (auto const &q : b.c) { mv t = bgp(p.first, q.first); for (auto const &x : t.c) r.acc(x.first, x.second * p.second * q.second); }
        return r;
    }
    template<class F> mv graded(mv const &a, mv const &b, F f) const {
        mv r;
        for (auto const &p : a.c) for (auto const &q : b.c) {
            int l = ones(p.first), k = ones(q.first), t = f(l, k); if (t < 0) continue;
            mv x = bgp(p.first, q.first);
            for (auto const &y : x.c) if (ones(y.first) == t) r.acc(y.first, y.second * p.second * q.second);
        }
        return r;
    }
    mv op(mv const &a, mv const &b) const { return ref::op(a, b); }
    mv lcont(mv const &a, mv const &b) const { return graded(a, b, [](int l, int r) { return r - l; }); }
    mv rcont(mv const &a, mv const &b) const { return graded(a, b, [](int l, int r) { return l - r; }); }
    mv dot(mv const &a, mv const &b) const { return graded(a, b, [](int l, int r) { return l < r ? r - l : l - r; }); }
    mv hip(mv const &a, mv const &b) const { return graded(a, b, [](int l, int r) { return (l && r) ? (l < r ? r - l : l - r) : -1; }); }
    mv sp(mv const &a, mv const &b) const { return graded(a, b, [](int, int) { return 0; }); }
    mv rp(mv const &a, mv const &b) const { // with C = A n B in the middle:  A = A'^C,  B = C^B',  A'^C^B' = I  =>  A v B = C
        mv r;
        for (auto const &p : a.c) for (auto const &q : b.c) if ((p.first | q.first) == all()) {
            bits cc = p.first & q.first, a1 = p.first ^ cc, b1 = q.first ^ cc;
            int s = sort_sign(a1, cc) * sort_sign(cc, b1) * (sort_sign(a1, cc) * sort_sign(p.first, b1));
            r.acc(cc, s * p.second * q.second);
        }
        return r;
    }
    num rnorm_sqr(mv const &a) const { return sp(a, reverse(a)).at(0); }
    mv inv(mv const &a) const { return (num(1) / rnorm_sqr(a)) * reverse(a); }
    mv dual(mv const &a, mv const &ps) const { return lcont(a, inv(ps)); }
    mv undual(mv const &a, mv const &ps) const { return lcont(a, ps); }
    mv I() const { return mv::blade(all()); }

    // exp by its power series (no assumption on the square of the argument).
    mv exp(mv const &a) const {
        mv r(1), t(1);
        for (int k = 1; k < 200; ++k) { t = (num(1) / k) * gp(t, a); r = r + t; if (t.norm() < 1e-26L * (1 + r.norm())) break; }
        return r;
    }

    // Axioms of the algebra, checked on the reference itself before any verdict is believed.
    bool selftest(std::string &why) const {
        int m = n > 6 ? 6 : n;
        for (int i = 0; i < m; ++i) for (int j = 0; j < m; ++j) {
            mv a = gp(mv::blade(bits(1) << i), mv::blade(bits(1) << j)) + gp(mv::blade(bits(1) << j), mv::blade(bits(1) << i));
            mv d = a - mv(2 * G(i, j)); if (!d.zero(0)) { why = "e_i e_j + e_j e_i != 2 g_ij"; return false; }
        }
        bits lim = bits(1) << (m > 4 ? 4 : m);
        for (bits a = 0; a < lim; ++a) for (bits b = 0; b < lim; ++b) {
            if (orth) { mv d = bgp(a, b) - bgp_rec(a, b); if (!d.zero(0)) { why = "orthogonal shortcut"; return false; } }
            for (bits c = 0; c < lim; ++c) {
                mv d = gp(gp(mv::blade(a), mv::blade(b)), mv::blade(c)) - gp(mv::blade(a), gp(mv::blade(b), mv::blade(c)));
                if (!d.zero(1e-12L)) { why = "associativity"; return false; }
            }
        }
        return true;
    }
};

}

#endif
