// Grade queries, grade selection and the predicates, on every operand shape, with coefficients near and exactly at the
// tolerance.  -DPART/-DNPARTS split by shape.
#include "operands.hpp"
using namespace opnd;

constexpr int UNDET = -2, MIXED = -1;

int ref_grade(ref::mv const &m, ref::num tol) { int g = UNDET; for (auto const &p : m.c) if (std::fabs(p.second) > tol) { int k = ref::ones(p.first); if (g == UNDET) g = k; else if (g != k) g = MIXED; } return g; }
int ref_largest(ref::mv const &m, ref::num tol) { int g = UNDET; for (auto const &p : m.c) if (std::fabs(p.second) > tol) g = std::max(g, ref::ones(p.first)); return g; }
ref::mv ref_take_largest(ref::mv const &m, ref::num tol) { return ref::take(m, ref_largest(m, tol)); }

template<class G> int gval(G const &g) { return int(static_cast<grade_t>(g)); }

void num_check(std::string const &op, std::string const &sh, std::string const &o, int want, int got) { mon::verdict_bool(op, sh, o, want == got, std::to_string(want), std::to_string(got)); }
void bool_check(std::string const &op, std::string const &sh, std::string const &o, bool want, bool got) { mon::verdict_bool(op, sh, o, want == got, want ? "true" : "false", got ? "true" : "false"); }

// The documented tolerance of float and double coefficients; other types are compared exactly.
template<class X> constexpr ref::num default_tol() { if constexpr (native_v<X>) return std::is_same_v<X, double> ? GA_DEFAULT_DBL_TOLERANCE : std::is_same_v<X, float> ? GA_DEFAULT_FLT_TOLERANCE : ref::num(0); else return default_tol<std::conditional_t<std::is_arithmetic_v<typename X::coefficient_type>, typename X::coefficient_type, int>>(); }

// What the library is asked about: the stored value itself, with an explicit tolerance and with the default one.
template<class X> void query(X const &x, ref::mv const &r, std::string const &sh, double tol) {
    ref::num t = tol; std::string const o = r.str() + " ; tol " + std::to_string(tol);
    mon::at("grade(tol)", sh, o);
    auto g = grade(x, tol);
    int want = ref_grade(r, t);
    num_check("grade(tol)", sh, o, want, gval(g));
    num_check("grade(tol).flag", sh, o, want >= 0 ? int(SINGLE_GRADE) : want, int(g.flag()));
    mon::at("largest_grade(tol)", sh, o);
    num_check("largest_grade(tol)", sh, o, ref_largest(r, t), gval(largest_grade(x, tol)));
    OBSERVE("take_largest_grade(tol)", sh, OPS(r, ref::mv(t)), take_largest_grade(x, tol), ref_take_largest(r, t), 0);
    if constexpr (!native_v<X>) {
        mon::at("is_zero(tol)", sh, o);
        bool_check("is_zero(tol)", sh, o, r.zero(t), is_zero(x, tol));
    }
}

template<class X> void query_default(X const &x, ref::mv const &r, std::string const &sh) {
    constexpr ref::num t = default_tol<X>(); std::string const o = r.str() + " ; default tolerance";
    mon::at("grade", sh, o);
    auto g = grade(x);
    int want = ref_grade(r, t);
    num_check("grade", sh, o, want, gval(g));
    num_check("grade.flag", sh, o, want >= 0 ? int(SINGLE_GRADE) : want, int(g.flag()));
    mon::at("largest_grade", sh, o);
    num_check("largest_grade", sh, o, ref_largest(r, t), gval(largest_grade(x)));
    OBSERVE("take_largest_grade", sh, OPS(r), take_largest_grade(x), ref_take_largest(r, t), 0);
    if constexpr (!native_v<X>) { mon::at("is_zero", sh, o); bool_check("is_zero", sh, o, r.zero(t), is_zero(x)); }
}

template<class X> void metric_query(X const &x, ref::mv const &r, std::string const &sh) {
    if constexpr (!native_v<X>) {
        ref::num n = SP.rnorm_sqr(r);
        for (double tol : {1e-8, 0.25, 3.0}) {
            std::string const o = r.str() + " ; tol " + std::to_string(tol);
            if (std::fabs(std::fabs(n) - tol) > 1e-6L * (1 + tol) || tol > 0.2) { mon::at("is_null", sh, o); bool_check("is_null", sh, o, std::fabs(n) <= tol, is_null(x, tol)); }
            mon::at("is_unit", sh, o);
            ref::num d = std::fabs(std::fabs(n) - 1);
            bool_check("is_unit", sh, o, d <= tol, is_unit(x, tol));
        }
    }
}

template<class X> constexpr bool is_float() { if constexpr (native_v<X>) return false; else return std::is_same_v<typename X::coefficient_type, float>; }
template<class X> constexpr bool is_int() { if constexpr (native_v<X>) return std::is_integral_v<X>; else return std::is_integral_v<typename X::coefficient_type>; }

// Whether two non-zero components of x have the same basis blade (possible only with basis blades chosen at run time).
template<class X> bool repeated(X const &x) {
    if constexpr (native_v<X>) return false;
    else { std::set<ref::bits> b; bool r = false; ga::for_each_component(x, [&](auto bs, auto const &v, auto, auto, bool &) { if (v != 0 && !b.insert(ref::bits(bs)).second) r = true; }); return r; }
}

// Full multivectors of spaces with more than two dimensions are out of reach of the compiler in these functions (the
// expressions grow exponentially with the number of components), so that narrower ones take their places.
template<int L> auto pick() {
    if constexpr (ND > 2 && L == 12) { full_multivector_t<double, ND, 0, 1> v; if constexpr (ND > 4) { full_multivector_t<double, ND, 0, 0> w; auto r = fill(w, dint); return mk(w, r, "scalar<double>"); } else { auto r = fill(v, dint); return mk(v, r, "multivector<double> grades 0..1"); } }
    else if constexpr (ND > 2 && L == 13) { full_multivector_t<int, ND, ND - 1, ND> v; if constexpr (ND > 4) { full_multivector_t<int, ND, ND, ND> w; auto r = fill(w, dint); return mk(w, r, "pseudoscalar<int>"); } else { auto r = fill(v, dint); return mk(v, r, "multivector<int> grades n-1..n"); } }
    else if constexpr (ND > 2 && L == 14) { double a = dint(), b = dint(), d = dint(); return mk(a + b * e(c<LO2>) + d * (e(c<1>) ^ e(c<LO2>)) , ref::mv(a) + RB(2, b) + RB(3, d), "scalar + vector + 2-blade"); }
    else if constexpr (ND > 4 && (L == 10 || L == 11)) { double a = dint(), b = dint(), d = dint(); return mk(a * e(c<1>) + b * e(c<LO2>) + d * e(c<HI>), RB(1, a) + RB(2, b) + RB(ref::bits(1) << (HI - 1), d), "3 of n vector components"); }
    else return make<L>();
}

template<int L> void one() {
    auto a = pick<L>(); using X = std::decay_t<decltype(a.x)>; std::string const sh = a.shape + std::string(repeated(a.x) ? ", repeated basis blade" : "");
    query_default(a.x, a.r, sh);
    metric_query(a.x, a.r, sh);
    query(a.x, a.r, sh, 0.0); query(a.x, a.r, sh, 2.0); query(a.x, a.r, sh, 4.0); query(a.x, a.r, sh, 100.0);
    if constexpr (!is_int<X>()) query(a.x, a.r, sh, 2.5);
    // coefficients at, just below and just above the tolerance
    if constexpr (!native_v<X>) {
        using C = typename X::coefficient_type;
        if constexpr (std::is_floating_point_v<C>) {
            C const t = C(1e-8); C const vals[] = {t, std::nextafter(t, C(0)), std::nextafter(t, C(1)), -t, -std::nextafter(t, C(1)), C(0), C(-0.0), C(1e-9), C(3e-8), C(-2)}, d = C(GA_DEFAULT_DBL_TOLERANCE), far[] = {C(0.98) * d, C(-0.98) * d, C(1.02) * d, C(-1.02) * d, C(0), C(-0.0), C(0.1) * d, C(5) * d, C(-3) * d, C(-2)};
            X y = a.x; for (auto &v : y.values()) v = vals[mon::irand(0, 9)];
            ref::mv r = mon::R(y);
            std::string const rep = repeated(y) ? ", repeated basis blade" : "";
            query(y, r, sh + ", near tolerance" + rep, t);
            if constexpr (std::is_same_v<C, double>) { X w = a.x; for (auto &v : w.values()) v = far[mon::irand(0, 9)]; query_default(w, mon::R(w), sh + ", near default tolerance" + (repeated(w) ? ", repeated basis blade" : "")); }
            // only one grade survives
            int keep = mon::irand(0, ND); X z = a.x; ref::mv q;
            { auto it = z.values().begin(); ga::for_each_component(a.x, [&](auto bs, auto const &, auto, auto src, bool &) { if (src == STORED_RUNTIME_DEFINED_ENTRY) { *it = ref::ones(bs) == keep ? C(mon::inz(4)) : C(0); ++it; } }); }
            q = mon::R(z); std::string const s2 = sh + ", one grade" + (repeated(z) ? ", repeated basis blade" : "");
            query_default(z, q, s2); query(z, q, s2, 0.5); metric_query(z, q, s2);
        }
    }
}

template<int L> void shape() { if constexpr (L < SHAPES) { for (int k = 0; k < mon::S().rounds * 2; ++k) one<L>(); if constexpr (L + NPARTS < SHAPES) shape<L + NPARTS>(); } }

int main(int argc, char **argv) {
    mon::begin(argc, argv, PROPERTY, UNIT + " part " STR(PART));
    std::string why; if (!SP.selftest(why)) { std::cerr << "reference model broken: " << why << "\n"; return 3; }
    shape<PART>();
    return mon::finish();
}
