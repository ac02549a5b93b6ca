// Conformal (KIND=c) and Minkowski (KIND=m) models: what the parameter functions recover from elements of known geometry.
#include "operands.hpp"
#include <deque>
using namespace NS;
using mon::R; using ref::mv; using ref::num;

constexpr int D = DIM;
using vec = std::array<num, D>;

static num dotv(vec const &a, vec const &b) { num s = 0; for (int i = 0; i < D; ++i) s += a[i] * b[i]; return s; }
static vec sub(vec const &a, vec const &b) { vec r; for (int i = 0; i < D; ++i) r[i] = a[i] - b[i]; return r; }
static vec addm(vec const &a, num k, vec const &b) { vec r; for (int i = 0; i < D; ++i) r[i] = a[i] + k * b[i]; return r; }
static mv B(int i) { return mv::blade(ref::bits(1) << (i - 1), 1); }
static mv V(vec const &a) { mv r; for (int i = 0; i < D; ++i) r = r + a[i] * B(i + 1); return r; }
#if KID == 5
static mv const NO = B(D + 1), NI = B(D + 2);
#else
static mv const NO = num(0.5) * (B(D + 2) - B(D + 1)), NI = B(D + 1) + B(D + 2);
#endif
static mv pt(vec const &a) { return NO + V(a) + (dotv(a, a) / 2) * NI; }
static mv wedge(std::vector<vec> const &a) { mv r(1); for (auto const &x : a) r = ref::op(r, V(x)); return r; }

static vec draw() { vec v; for (auto &x : v) x = static_cast<double>(mon::irand(0, 3) ? mon::dreal() : mon::irand(-4, 4)); return v; }
static num weight() { num w = static_cast<double>(mon::dpos(0.2, 3)); return mon::irand(0, 1) ? w : -w; }

// Orthonormal basis of the span of the given directions; empty when they are (nearly) dependent.
static std::vector<vec> ortho(std::vector<vec> const &a) {
    std::vector<vec> q;
    for (auto x : a) { num n0 = std::sqrt(dotv(x, x)); for (auto const &y : q) x = addm(x, -dotv(x, y), y); num n = std::sqrt(dotv(x, x)); if (!(n > 0.2L * n0) || n0 < 0.3L) return {}; for (auto &c : x) c /= n; q.push_back(x); }
    return q;
}
static vec span_part(vec const &x, std::vector<vec> const &q) { vec r{}; for (auto const &y : q) r = addm(r, dotv(x, y), y); return r; }

// Independent points/directions.
static std::vector<vec> points(int k) { for (;;) { std::vector<vec> p; for (int i = 0; i < k; ++i) p.push_back(draw()); std::vector<vec> d; for (int i = 1; i < k; ++i) d.push_back(sub(p[i], p[0])); if (k == 1 || !ortho(d).empty()) return p; } }
static std::vector<vec> directions(int k) { for (;;) { std::vector<vec> d; for (int i = 0; i < k; ++i) d.push_back(draw()); if (k == 0 || !ortho(d).empty()) return d; } }

// Centre and squared radius of the sphere in the affine hull of the points.
static std::pair<vec, num> circum(std::vector<vec> const &p) {
    std::vector<vec> d; for (size_t i = 1; i < p.size(); ++i) d.push_back(sub(p[i], p[0]));
    auto q = ortho(d); size_t n = d.size(); vec x{};
    // x in span q with 2 d_i . x = d_i^2; in the orthonormal basis the system is triangular
    std::vector<num> y(n);
    for (size_t i = 0; i < n; ++i) { num s = dotv(d[i], d[i]) / 2; for (size_t j = 0; j < i; ++j) s -= dotv(d[i], q[j]) * y[j]; y[i] = s / dotv(d[i], q[i]); }
    for (size_t i = 0; i < n; ++i) x = addm(x, y[i], q[i]);
    return {addm(p[0], 1, x), dotv(x, x)};
}

// A multivector of type T holding the given components.
template<class T> T hold(mv const &m) {
    T t{}; std::vector<ref::bits> order; ga::for_each_component(t, [&](auto b, auto const &, auto, auto, bool &) { order.push_back(static_cast<ref::bits>(b)); });
    size_t i = 0; for (auto &v : t.values()) v = static_cast<std::decay_t<decltype(v)>>(m.at(order[i++]));
    return t;
}

template<size_t... I> auto lib_point_(vec const &a, std::index_sequence<I...>) { return point(static_cast<double>(a[I])...); }
static auto lib_point(vec const &a) { return lib_point_(a, std::make_index_sequence<D>{}); }
static auto lib_vector(vec const &a) { std::array<double, D> b; for (int i = 0; i < D; ++i) b[i] = static_cast<double>(a[i]); return euclidean_vector(b.begin(), b.end()); }

constexpr num T9 = 1e-10L;

// primal and dual views of one element, and what must be recovered from them
#ifndef VIEW
#define VIEW 3
#endif
template<class X> void flat(std::string const &sh, X const &F, mv const &direction, mv const &location) {
    mv const f = R(F); num const s = std::max({f.norm(), num(1)});
    auto see = [&](char const *op, auto const &v, mv const &want) { mon::verdict(op, sh, OPS(f), R(v), want, T9, s * 10); };
#if VIEW & 1
    mon::at("primal_flat_direction", sh, f.str()); see("primal_flat_direction", primal_flat_direction(F), direction);
    mon::at("primal_flat_location", sh, f.str()); see("primal_flat_location", primal_flat_location(F), location);
#endif
#if VIEW & 2
    auto const Fd = dual(F);
    mon::at("dual_flat_direction", sh, f.str()); see("dual_flat_direction", dual_flat_direction(Fd), direction);
    mon::at("dual_flat_location", sh, f.str()); see("dual_flat_location", dual_flat_location(Fd), location);
#endif
}
template<class X> void round_(std::string const &sh, X const &A, mv const &direction, mv const &location, num size) {
    mv const f = R(A); num const s = std::max({f.norm(), num(1), location.norm()});
    auto see = [&](char const *op, auto const &v, mv const &want) { mon::verdict(op, sh, OPS(f), R(v), want, T9, s * 10); };
#if VIEW & 1
    mon::at("primal_round_direction", sh, f.str()); see("primal_round_direction", primal_round_direction(A), direction);
    mon::at("primal_round_location", sh, f.str()); see("primal_round_location", primal_round_location(A), location);
    mon::at("primal_round_size_sqr", sh, f.str()); see("primal_round_size_sqr", primal_round_size_sqr(A), mv(size));
#endif
#if VIEW & 2
    auto const Ad = dual(A);
    mon::at("dual_round_direction", sh, f.str()); see("dual_round_direction", dual_round_direction(Ad), direction);
    mon::at("dual_round_location", sh, f.str()); see("dual_round_location", dual_round_location(Ad), location);
    mon::at("dual_round_size_sqr", sh, f.str()); see("dual_round_size_sqr", dual_round_size_sqr(Ad), mv(size));
#endif
}
template<class X> void tangent(std::string const &sh, X const &A, mv const &direction, mv const &location) {
    mv const f = R(A); num const s = std::max({f.norm(), num(1)});
    auto see = [&](char const *op, auto const &v, mv const &want) { mon::verdict(op, sh, OPS(f), R(v), want, T9, s * 10); };
#if VIEW & 1
    mon::at("primal_tangent_direction", sh, f.str()); see("primal_tangent_direction", primal_tangent_direction(A), direction);
    mon::at("primal_tangent_location", sh, f.str()); see("primal_tangent_location", primal_tangent_location(A), location);
#endif
#if VIEW & 2
    auto const Ad = dual(A);
    mon::at("dual_tangent_direction", sh, f.str()); see("dual_tangent_direction", dual_tangent_direction(Ad), direction);
    mon::at("dual_tangent_location", sh, f.str()); see("dual_tangent_location", dual_tangent_location(Ad), location);
#endif
}
static mv flat_location(vec const &p, std::vector<vec> const &q) { vec const d = sub(p, span_part(p, q)); return NO + V(d) + dotv(d, d) * NI; }

template<int K> auto wedge_points(std::vector<vec> const &p) { if constexpr (K == 1) return lib_point(p[0]); else return op(wedge_points<K - 1>(p), lib_point(p[K - 1])); }

template<int K> void element() {
    std::string const n = std::to_string(K);
    for (int r = 0; r < mon::S().rounds; ++r) {
#if PART == 0
        {   // flat through K points: K - 1 directions
            auto const p = points(K); std::vector<vec> d; for (int i = 1; i < K; ++i) d.push_back(sub(p[i], p[0]));
            auto const q = ortho(d); mv const A = wedge(d); num const w = weight();
            flat("flat through " + n + " points", op(wedge_points<K>(p), ni), ref::op(A, NI), flat_location(p[0], q));
            flat("scaled flat through " + n + " points", static_cast<double>(w) * op(wedge_points<K>(p), ni), w * ref::op(A, NI), flat_location(p[0], q));
            mv F(w); for (auto const &x : p) F = ref::op(F, pt(x)); F = ref::op(F, NI);
            flat("full vector of a flat through " + n + " points", hold<full_kvector_t<double, ND, K + 1>>(F), w * ref::op(A, NI), flat_location(p[0], q));
        }
#elif PART == 1
        {   // round through K points
            auto const p = points(K); std::vector<vec> d; for (int i = 1; i < K; ++i) d.push_back(sub(p[i], p[0]));
            mv const A = wedge(d); num const w = weight(); auto const cr = circum(p); if (cr.second > 400) { --r; continue; }
            round_("round through " + n + " points", wedge_points<K>(p), ref::op(A, NI), pt(cr.first), cr.second);
            mv F(w); for (auto const &x : p) F = ref::op(F, pt(x));
            round_("full vector of a round through " + n + " points", hold<full_kvector_t<double, ND, K>>(F), w * ref::op(A, NI), pt(cr.first), cr.second);
        }
#elif PART == 2
        {   // round of given centre, squared radius (also negative: imaginary) and directions; tangent (radius zero) as well
            auto const a = directions(K - 1); vec const c0 = draw(); num const w = weight(); num const s2 = r % 4 == 0 ? 0 : static_cast<double>(mon::dreal() * 2);
            auto moved = [&](num size) { mv F = w * (pt(c0) + (size / 2) * NI); for (auto const &x : a) F = ref::op(F, V(x) + dotv(x, c0) * NI); return F; };
            mv const A = w * ref::op(wedge(a), NI);
            round_(std::string(s2 < 0 ? "imaginary" : s2 > 0 ? "real" : "zero") + " round of grade " + n, hold<full_kvector_t<double, ND, K>>(moved(s2)), A, pt(c0), s2);
            tangent("tangent of grade " + n, hold<full_kvector_t<double, ND, K>>(moved(0)), A, pt(c0));
            if constexpr (K == 2) {
                // from the library's own point and direction: the tangent line element
                auto const u = lib_vector(a[0]); auto const p = lib_point(c0);
                tangent("tangent from a point and a vector", op(p, u + sp(u, p) * ni), ref::op(wedge(a), NI), pt(c0));
            }
        }
#endif
    }
#ifndef GRADE
    if constexpr (K < (PART == 0 ? D : D + 1)) element<K + 1>();
#endif
}

#if PART == 4
static vec vec_of(std::initializer_list<int> l) { vec v{}; int i = 0; for (int x : l) if (i < D) v[i++] = x; return v; }
template<int A, size_t... I> auto const_point(std::index_sequence<I...>) { return point(c<(I == 0 ? A : I == 1 ? 2 * A - 1 : -A)>...); }
template<int A> auto const_point() { return const_point<A>(std::make_index_sequence<D>{}); }
static vec at_(int a) { vec v; for (int i = 0; i < D; ++i) v[i] = i == 0 ? a : i == 1 ? 2 * a - 1 : -a; return v; }
template<size_t... I> auto int_point_(vec const &a, std::index_sequence<I...>) { return point(static_cast<int>(a[I])...); }
template<size_t... I> auto float_point_(vec const &a, std::index_sequence<I...>) { return point(static_cast<float>(a[I])...); }
static void forms() {
    std::make_index_sequence<D> seq;
    vec const a = at_(1), b = at_(3); mv const ab = V(sub(b, a)); vec mid = addm(a, 1, b); for (auto &x : mid) x /= 2; num const r2 = dotv(sub(b, a), sub(b, a)) / 4;
#if FORM == 0
    flat("constant flat point", op(const_point<3>(), ni), NI, flat_location(b, {}));
    round_("constant point", const_point<3>(), NI, pt(b), 0);
#elif FORM == 1
    round_("constant point pair", op(const_point<1>(), const_point<3>()), ref::op(ab, NI), pt(mid), r2);
#elif FORM == 2
    flat("constant line", op(op(const_point<1>(), const_point<3>()), ni), ref::op(ab, NI), flat_location(a, ortho({sub(b, a)})));
#elif FORM == 3
    tangent("constant tangent at the origin", op(no, c<3> * e(c<1>)), num(3) * ref::op(B(1), NI), NO);
    round_("constant sphere of radius 2 at the origin, direct", op(no + c<2> * ni, c<1>), NI, NO, 4);
#endif
    for (int r = 0; r < mon::S().rounds; ++r) {
        vec x, y; do for (int i = 0; i < D; ++i) x[i] = mon::irand(-5, 5), y[i] = mon::irand(-5, 5); while (dotv(sub(x, y), sub(x, y)) == 0);
        vec m = addm(x, 1, y); for (auto &t : m) t /= 2; vec const d = sub(y, x); num const q2 = dotv(d, d) / 4;
#if FORM == 4
        round_("pair of points with int coordinates", op(int_point_(x, seq), int_point_(y, seq)), ref::op(V(d), NI), pt(m), q2);
#elif FORM == 5
        flat("line through points with int coordinates", op(op(int_point_(x, seq), int_point_(y, seq)), ni), ref::op(V(d), NI), flat_location(x, ortho({d})));
#elif FORM == 6
        round_("pair of a constant and a double point", op(const_point<2>(), lib_point(addm(x, 0.25L, y))), ref::op(V(sub(addm(x, 0.25L, y), at_(2))), NI), pt([&] { vec t = addm(addm(x, 0.25L, y), 1, at_(2)); for (auto &k : t) k /= 2; return t; }()), [&] { vec t = sub(addm(x, 0.25L, y), at_(2)); return dotv(t, t) / 4; }());
#endif
    }
}
#endif

#if PART == 3
template<size_t... I> void mixed_points_(vec const &v, std::index_sequence<I...>) {
    // constants, integers, floats, scalars and doubles among the coordinates
    auto coord = [&](auto i) { constexpr int k = decltype(i)::value; if constexpr (k == 0) return scalar(static_cast<double>(v[0])); else if constexpr (k == 1) return c<-2>; else return static_cast<float>(v[k]); };
    vec w = v; if (D > 1) w[1] = -2; for (int k = 2; k < D; ++k) w[k] = static_cast<float>(v[k]);
    OBSERVE("point", "scalar, constant and float coordinates", OPS(V(w)), point(coord(std::integral_constant<int, I>{})...), pt(w), 1e-6L);
    OBSERVE("euclidean_vector", "scalar, constant and float coordinates", OPS(V(w)), euclidean_vector(coord(std::integral_constant<int, I>{})...), V(w), 0);
    vec k; for (int i = 0; i < D; ++i) k[i] = mon::irand(-6, 6);
    OBSERVE("point", "int coordinates", OPS(V(k)), point(static_cast<int>(k[I])...), pt(k), 1e-15L);
    OBSERVE("euclidean_vector", "int coordinates", OPS(V(k)), euclidean_vector(static_cast<int>(k[I])...), V(k), 0);
    vec z; for (int i = 0; i < D; ++i) z[i] = i - 1;
    OBSERVE("point", "constant coordinates", OPS(V(z)), point(c<int(I) - 1>...), pt(z), 0);
    OBSERVE("euclidean_vector", "constant coordinates", OPS(V(z)), euclidean_vector(c<int(I) - 1>...), V(z), 0);
    double const d[] = {static_cast<double>(v[I])...};
    OBSERVE("point", "lvalue coordinates", OPS(V(v)), point(d[I]...), pt(v), 1e-15L);
    OBSERVE("euclidean_vector", "lvalue coordinates", OPS(V(v)), euclidean_vector(d[I]...), V(v), 0);
    OBSERVE("euclidean_vector", "expressions", OPS(V(v)), euclidean_vector((scalar(d[I]) * c<2>)...), num(2) * V(v), 0);
}
template<class It> void from_iterators(char const *what, It b, It e_, vec const &v, num tol) {
    OBSERVE("point", what, OPS(V(v)), point(b, e_), pt(v), tol);
    OBSERVE("euclidean_vector", what, OPS(V(v)), euclidean_vector(b, e_), V(v), 0);
}
static void points_() {
    for (int r = 0; r < mon::S().rounds * 5; ++r) {
        vec const x = draw(), y = draw(); auto const p = lib_point(x), q = lib_point(y); num const d2 = dotv(sub(x, y), sub(x, y));
        OBSERVE("point", "double coordinates", OPS(V(x)), p, pt(x), 1e-15L);
        mon::verdict("inner product of points", "double", OPS(pt(x), pt(y)), R(sp(p, q)), mv(-d2 / 2), 1e-12L, pt(x).norm() + pt(y).norm());
        mon::verdict("points are null", "double", OPS(pt(x)), R(sp(p, p)), mv(), 1e-12L, pt(x).norm() * pt(x).norm());
        mon::verdict("inner product of a point with infinity", "double", OPS(pt(x)), R(sp(p, ni)), mv(-1), 1e-12L, pt(x).norm());
        mixed_points_(x, std::make_index_sequence<D>{});
        std::vector<double> vd; std::vector<int> vi; std::deque<float> lf; vec xi, xf; for (int i = 0; i < D; ++i) { vd.push_back(static_cast<double>(x[i])); vi.push_back(mon::irand(-9, 9)); xi[i] = vi.back(); lf.push_back(static_cast<float>(x[i])); xf[i] = lf.back(); }
        from_iterators("vector<double> iterators", vd.begin(), vd.end(), x, 1e-15L);
        from_iterators("const vector<double> iterators", vd.cbegin(), vd.cend(), x, 1e-15L);
        from_iterators("pointers", vd.data(), vd.data() + D, x, 1e-15L);
        from_iterators("vector<int> iterators", vi.begin(), vi.end(), xi, 1e-15L);
        from_iterators("deque<float> iterators", lf.begin(), lf.end(), xf, 1e-6L);
        // scale: a weighted point is still null, and normalising it by its product with infinity gives the point back
        num const w = weight(); auto const wp = static_cast<double>(w) * p;
        mon::verdict("normalised point", "double", OPS(pt(x), mv(w)), R(igp(wp, -sp(wp, ni))), pt(x), 1e-12L);
        // a translator moves points and leaves infinity alone
        auto const t = c<1> - igp(gp(lib_vector(y), ni), c<2>);
        vec const z = addm(x, 1, y);
        mon::verdict("translated point", "double", OPS(pt(x), V(y)), R(apply_rotor(t, p)), pt(z), 1e-11L, pt(z).norm() + pt(x).norm() + pt(y).norm());
        mon::verdict("translated infinity", "double", OPS(V(y)), R(apply_rotor(t, ni)), NI, 1e-12L, 1 + dotv(y, y));
    }
    OBSERVE("constant", "no", OPS(NO), no, NO, 0); OBSERVE("constant", "ni", OPS(NI), ni, NI, 0);
    OBSERVE("constant", "ep", OPS(NI), ep, num(0.5) * NI - NO, 0); OBSERVE("constant", "em", OPS(NI), em, num(0.5) * NI + NO, 0);
    OBSERVE("constant", "I", OPS(NI), I, SP.I(), 0);
    mv ie(1); for (int i = 1; i <= D; ++i) ie = ref::op(ie, B(i));
    OBSERVE("constant", "Ie", OPS(NI), Ie, ie, 0);
    for (int i = 1; i <= D; ++i) for (auto const *n : {&NO, &NI}) OBSERVE("base vectors are orthogonal to no and ni", "e(i)", OPS(B(i)), sp(e(i) * c<1>, hold<full_vector_t<double, ND>>(*n)), mv(), 0);
}
#endif

int main(int argc, char **argv) {
    mon::begin(argc, argv, PROPERTY, UNIT);
    std::string why; if (!SP.selftest(why)) { std::cerr << "reference model broken: " << why << "\n"; return 3; }
#if PART == 3
    points_();
#elif PART == 4
    forms();
#else
  #ifdef GRADE
    element<GRADE>();
  #else
    element<1>();
  #endif
#endif
    return mon::finish();
}
