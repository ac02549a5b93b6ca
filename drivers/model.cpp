// Euclidean (KIND=e), homogeneous (KIND=h) and plane-based (KIND=p) models: projections, flats and the documented basis.
#include "operands.hpp"
#include <deque>
using namespace NS;
using mon::R; using ref::mv; using ref::num; using opnd::mk;

constexpr int D = DIM;
using vec = std::array<num, D>;
#ifndef PART
#define PART 0
#endif
#ifndef NPARTS
#define NPARTS 22
#endif

static num dotv(vec const &a, vec const &b) { num s = 0; for (int i = 0; i < D; ++i) s += a[i] * b[i]; return s; }
static vec sub(vec const &a, vec const &b) { vec r; for (int i = 0; i < D; ++i) r[i] = a[i] - b[i]; return r; }
static vec addm(vec const &a, num k, vec const &b) { vec r; for (int i = 0; i < D; ++i) r[i] = a[i] + k * b[i]; return r; }
static mv B(int i) { return mv::blade(ref::bits(1) << (i - 1), 1); }
static mv V(vec const &a) { mv r; for (int i = 0; i < D; ++i) r = r + a[i] * B(i + 1); return r; }
static mv wedge(std::vector<vec> const &a) { mv r(1); for (auto const &x : a) r = ref::op(r, V(x)); return r; }
static vec axis(int i) { vec v{}; v[i - 1] = 1; return v; }

static vec draw() { vec v; for (auto &x : v) x = static_cast<double>(mon::irand(0, 3) ? mon::dreal() : mon::irand(-4, 4)); return v; }
static num weight() { num w = static_cast<double>(mon::dpos(0.2, 3)); return mon::irand(0, 1) ? w : -w; }
static std::vector<vec> ortho(std::vector<vec> const &a) {
    std::vector<vec> q;
    for (auto x : a) { num n0 = std::sqrt(dotv(x, x)); for (auto const &y : q) x = addm(x, -dotv(x, y), y); num n = std::sqrt(dotv(x, x)); if (!(n > 0.2L * n0) || n0 < 0.3L) return {}; for (auto &c : x) c /= n; q.push_back(x); }
    return q;
}
static vec span_part(vec const &x, std::vector<vec> const &q) { vec r{}; for (auto const &y : q) r = addm(r, dotv(x, y), y); return r; }
static std::vector<vec> directions(int k) { for (;;) { std::vector<vec> d; for (int i = 0; i < k; ++i) d.push_back(draw()); if (k == 0 || !ortho(d).empty()) return d; } }
template<class T> T hold(mv const &m) {
    T t{}; std::vector<ref::bits> order; ga::for_each_component(t, [&](auto b, auto const &, auto, auto, bool &) { order.push_back(static_cast<ref::bits>(b)); });
    size_t i = 0; for (auto &v : t.values()) v = static_cast<std::decay_t<decltype(v)>>(m.at(order[i++]));
    return t;
}
template<size_t... I> auto lib_vector_(vec const &a, std::index_sequence<I...>) { return euclidean_vector(static_cast<double>(a[I])...); }
static auto lib_vector(vec const &a) { return lib_vector_(a, std::make_index_sequence<D>{}); }
constexpr num T10 = 1e-10L;

#if KID == 1
// Every component projected on its own: projection is the outermorphism of the projection of vectors.
static mv project_ref(mv const &a, std::vector<vec> const &q) {
    mv r;
    for (auto const &p : a.c) { mv t(p.second); for (int i = 1; i <= D; ++i) if (p.first >> (i - 1) & 1) t = ref::op(t, V(span_part(axis(i), q))); r = r + t; }
    return r;
}
template<class A, class Bl> void split(A const &a, Bl const &b, mv const &rb, std::vector<vec> const &q, std::string const &shape) {
    std::string const sh = std::string(a.shape) + ", " + shape;
    mv const want = project_ref(a.r, q); num const tol = std::string(a.shape).find("float") != std::string::npos ? 1e-5L : T10;
    OBSERVE("project", sh, OPS(a.r, rb), project(a.x, b), want, tol);
    OBSERVE("reject", sh, OPS(a.r, rb), reject(a.x, b), a.r - want, tol);
}
template<int K> auto lib_wedge(std::vector<vec> const &p) { if constexpr (K == 1) return lib_vector(p[0]); else return op(lib_wedge<K - 1>(p), lib_vector(p[K - 1])); }
template<class A, int K> void onto(A const &a) {
    std::string const n = std::to_string(K);
    auto const d = directions(K); auto const q = ortho(d); num const w = weight(); mv const m = wedge(d);
    split(a, lib_wedge<K>(d), m, q, "product of " + n + " vectors");
    split(a, hold<full_kvector_t<double, D, K>>(w * m), w * m, q, "full vector of grade " + n);
    if constexpr (K < D) onto<A, K + 1>(a);
}
template<int I> void row() {
    if constexpr (I < opnd::SHAPES) {
        for (int r = 0; r < mon::S().rounds; ++r) {
            auto const a = opnd::make<I>();
            if constexpr (!opnd::native_v<std::decay_t<decltype(a.x)>>) {
                onto<decltype(a), 1>(a);
                int const i = mon::irand(1, D), j = i % D + 1; double const w = static_cast<double>(weight());
                split(a, w * e(i), num(w) * B(i), {axis(i)}, "double * e(run-time)");
                if (D > 1) split(a, w * (e(i) ^ e(j)), num(w) * ref::op(B(i), B(j)), {axis(i), axis(j)}, "double * run-time 2-blade");
                split(a, c<-3> * e(c<1>), num(-3) * B(1), {axis(1)}, "const vector");
                split(a, c<2> * NS::I, num(2) * SP.I(), [] { std::vector<vec> q; for (int k = 1; k <= D; ++k) q.push_back(axis(k)); return q; }(), "const pseudoscalar");
                split(a, scalar(w), mv(w), {}, "scalar(double)");
            }
        }
        row<I + NPARTS>();
    }
}
#elif KID == 2
static mv const EP = B(D + 1);
static mv pt(vec const &a) { return V(a) + EP; }
template<size_t... I> auto lib_point_(vec const &a, std::index_sequence<I...>) { return point(static_cast<double>(a[I])...); }
static auto lib_point(vec const &a) { return lib_point_(a, std::make_index_sequence<D>{}); }
template<int K> auto wedge_points(std::vector<vec> const &p) { if constexpr (K == 1) return lib_point(p[0]); else return op(wedge_points<K - 1>(p), lib_point(p[K - 1])); }

// A flat through the point p with the directions of the weighted blade A.
template<class X> void flat(std::string const &sh, X const &F, vec const &p, mv const &A, std::vector<vec> const &q) {
    mv const f = R(F); num const s = std::max({f.norm(), num(1)}) * 10; vec const d = sub(p, span_part(p, q)), t = draw();
    auto see = [&](char const *op, auto const &v, mv const &want) { mon::verdict(op, sh, OPS(f), R(v), want, T10, s); };
    mon::at("flat_direction", sh, f.str()); see("flat_direction", flat_direction(F), A);
    mon::at("flat_moment", sh, f.str()); see("flat_moment", flat_moment(F), ref::op(V(p), A));
    mon::at("flat_support_vector", sh, f.str()); see("flat_support_vector", flat_support_vector(F), V(d));
    mon::at("flat_unit_support_point", sh, f.str()); see("flat_unit_support_point", flat_unit_support_point(F), pt(d));
    mon::at("translate", sh, f.str());
    see("translate", translate(lib_vector(t), F), ref::op(pt(addm(p, 1, t)), A));
    double const w = static_cast<double>(weight()); int const i = mon::irand(1, D);
    see("translate along a run-time axis", translate(w * e(i), F), ref::op(pt(addm(p, w, axis(i))), A));
    see("translate along a constant vector", translate(c<2> * e(c<D>), F), ref::op(pt(addm(p, 2, axis(D))), A));
    see("translate there and back", translate(-lib_vector(t), translate(lib_vector(t), F)), ref::op(pt(p), A));
    // the flat is its support point joined to its direction, and the moment is the support vector joined to it
    see("support point ^ direction", op(flat_unit_support_point(F), flat_direction(F)), ref::op(pt(p), A));
    see("support vector ^ direction", op(flat_support_vector(F), flat_direction(F)), ref::op(V(p), A));
}
template<int K> void element() {
    std::string const n = std::to_string(K);
    for (int r = 0; r < mon::S().rounds; ++r) {
        auto const d = directions(K - 1); auto const q = ortho(d); vec const p0 = draw(); num const w = weight(); mv const A = wedge(d);
        std::vector<vec> p{p0}; for (auto const &x : d) p.push_back(addm(p0, 1, x));
        flat("flat through " + n + " points", wedge_points<K>(p), p0, A, q);
        flat("scaled flat through " + n + " points", static_cast<double>(w) * wedge_points<K>(p), p0, w * A, q);
        mv const F = w * ref::op(pt(p0), A);
        flat("full vector of a flat through " + n + " points", hold<full_kvector_t<double, ND, K>>(F), p0, w * A, q);
    }
}
#if !defined BASIS && PART >= 100
static void special() {
    for (int r = 0; r < mon::S().rounds; ++r) {
        [[maybe_unused]] int const i = mon::irand(1, D); [[maybe_unused]] vec const x = draw(); [[maybe_unused]] double const w = static_cast<double>(weight()), k = mon::inz(5);
#if PART == 100
        flat("run-time axis line", w * op(ep, e(i)), vec{}, num(w) * V(axis(i)), {axis(i)});
        flat("point on a run-time axis", k * e(i) + ep, [&] { vec v{}; v[i - 1] = k; return v; }(), mv(1), {});
#elif PART == 103
        flat("weighted point on a run-time axis", w * (k * e(i) + ep), [&] { vec v{}; v[i - 1] = k; return v; }(), mv(w), {});
#elif PART == 102
        flat("line through a run-time axis", op(lib_point(x), e(i)), x, V(axis(i)), {axis(i)});
#else
        vec z{}; for (int j = 0; j < D; ++j) z[j] = 0; z[0] = 3;
        flat("constant point", c<3> * e(c<1>) + ep, z, mv(1), {});
        flat("constant weighted point", c<6> * e(c<1>) + c<2> * ep, z, mv(2), {});
        flat("constant line", op(c<3> * e(c<1>) + ep, c<2> * e(c<D>)), z, num(2) * V(axis(D)), {axis(D)});
#endif
    }
}
#endif
#endif

// The documented basis, and points and vectors from every kind of coordinate.
template<size_t... I> static void mixed_(vec const &v, std::index_sequence<I...>) {
    auto coord = [&](auto i) { constexpr int k = decltype(i)::value; if constexpr (k == 0) return scalar(static_cast<double>(v[0])); else if constexpr (k == 1) return c<-2>; else return static_cast<float>(v[k]); };
    vec w = v; if (D > 1) w[1] = -2; for (int k = 2; k < D; ++k) w[k] = static_cast<float>(v[k]);
    vec n; for (int i = 0; i < D; ++i) n[i] = mon::irand(-6, 6);
    vec z; for (int i = 0; i < D; ++i) z[i] = i - 1;
    double const d[] = {static_cast<double>(v[I])...};
    OBSERVE("euclidean_vector", "scalar, constant and float coordinates", OPS(V(w)), euclidean_vector(coord(std::integral_constant<int, I>{})...), V(w), 0);
    OBSERVE("euclidean_vector", "int coordinates", OPS(V(n)), euclidean_vector(static_cast<int>(n[I])...), V(n), 0);
    OBSERVE("euclidean_vector", "constant coordinates", OPS(V(z)), euclidean_vector(c<int(I) - 1>...), V(z), 0);
    OBSERVE("euclidean_vector", "lvalue coordinates", OPS(V(v)), euclidean_vector(d[I]...), V(v), 0);
    OBSERVE("euclidean_vector", "expressions", OPS(V(v)), euclidean_vector((scalar(d[I]) * c<2>)...), num(2) * V(v), 0);
#if KID == 2
    OBSERVE("point", "scalar, constant and float coordinates", OPS(V(w)), point(coord(std::integral_constant<int, I>{})...), pt(w), 0);
    OBSERVE("point", "int coordinates", OPS(V(n)), point(static_cast<int>(n[I])...), pt(n), 0);
    OBSERVE("point", "constant coordinates", OPS(V(z)), point(c<int(I) - 1>...), pt(z), 0);
    OBSERVE("point", "lvalue coordinates", OPS(V(v)), point(d[I]...), pt(v), 0);
    OBSERVE("point", "expressions", OPS(V(v)), point((scalar(d[I]) * c<2>)...), V(v) + V(v) + EP, 0);
#endif
}
template<class It> static void iterators(char const *what, It b, It e_, vec const &v) {
    OBSERVE("euclidean_vector", what, OPS(V(v)), euclidean_vector(b, e_), V(v), 0);
#if KID == 2
    OBSERVE("point", what, OPS(V(v)), point(b, e_), pt(v), 0);
#endif
}
static void basis() {
    for (int r = 0; r < mon::S().rounds * 5; ++r) {
        vec const x = draw(); mixed_(x, std::make_index_sequence<D>{});
        std::vector<double> vd; std::vector<int> vi; std::deque<float> lf; vec xi, xf; for (int i = 0; i < D; ++i) { vd.push_back(static_cast<double>(x[i])); vi.push_back(mon::irand(-9, 9)); xi[i] = vi.back(); lf.push_back(static_cast<float>(x[i])); xf[i] = lf.back(); }
        iterators("vector<double> iterators", vd.begin(), vd.end(), x); iterators("const vector<double> iterators", vd.cbegin(), vd.cend(), x);
        iterators("pointers", vd.data(), vd.data() + D, x); iterators("vector<int> iterators", vi.begin(), vi.end(), xi); iterators("deque<float> iterators", lf.begin(), lf.end(), xf);
        double raw[D]; for (int i = 0; i < D; ++i) raw[i] = vd[i];
        iterators("const pointers", static_cast<double const *>(raw), static_cast<double const *>(raw) + D, x);
    }
    OBSERVE("constant", "I", OPS(mv(1)), I, SP.I(), 0);
    OBSERVE("constant", "_0", OPS(mv(1)), _0, mv(), 0); OBSERVE("constant", "_1", OPS(mv(1)), _1, mv(1), 0); OBSERVE("constant", "_2", OPS(mv(1)), _2, mv(2), 0);
#if KID == 1
    OBSERVE("constant", "Ie", OPS(mv(1)), Ie, SP.I(), 0);
#elif KID == 2
    mv ie(1); for (int i = 1; i <= D; ++i) ie = ref::op(ie, B(i));
    OBSERVE("constant", "ep", OPS(mv(1)), ep, EP, 0); OBSERVE("constant", "Ie", OPS(mv(1)), Ie, ie, 0);
#else
    OBSERVE("constant", "e0", OPS(mv(1)), e0, B(D + 1), 0);
    OBSERVE("e0 is null", "const", OPS(mv(1)), gp(e0, e0), mv(), 0);
#endif
    for (int i = 1; i <= ND; ++i) for (int j = 1; j <= ND; ++j) OBSERVE("metric of the base vectors", "e(run-time)", OPS(B(i), B(j)), sp(e(i), e(j)), SP.sp(B(i), B(j)), 0);
}

int main(int argc, char **argv) {
    mon::begin(argc, argv, PROPERTY, UNIT);
    std::string why; if (!SP.selftest(why)) { std::cerr << "reference model broken: " << why << "\n"; return 3; }
#if defined BASIS
    basis();
#elif KID == 1
    row<PART>();
#elif KID == 2
  #if PART < 100
    element<PART>();
  #else
    special();
  #endif
#endif
    return mon::finish();
}
