// Meet, join and plunge of blades spanned by random subspaces with a known intersection.  -DPART picks the storage forms.
#include "operands.hpp"
using namespace opnd;

using vec = std::vector<double>;

// A random basis of R^n: integer valued, sparse and axis aligned ones included.
std::vector<ref::mv> basis() {
    for (;;) {
        std::vector<ref::mv> r; int mode = irand(0, 3); ref::mv w(1); double scale = 1;
        std::vector<int> perm; for (int i = 0; i < ND; ++i) perm.push_back(i); std::shuffle(perm.begin(), perm.end(), mon::S().rng);
        for (int i = 0; i < ND; ++i) {
            ref::mv v;
            for (int j = 0; j < ND; ++j) {
                double x = mode == 0 ? (j == perm[i] ? inz(3) : 0) : mode == 1 ? (j == perm[i] || irand(0, 2) == 0 ? inz(3) : 0) : mode == 2 ? irand(-3, 3) : dreal();
                v = v + RB(ref::bits(1) << j, x);
            }
            w = ref::op(w, v); scale *= std::max(1e-3, double(v.norm())); r.push_back(v);
        }
        if (w.norm() > 0.05 * scale && w.norm() > 0) return r;
    }
}

ref::mv span(std::vector<ref::mv> const &b, std::vector<int> const &s) { ref::mv r(1); for (int i : s) r = ref::op(r, b[i]); return r; }

// Whether x = k y for some k that is not zero.
bool parallel(ref::mv const &x, ref::mv const &y, ref::num tol) {
    ref::bits top = 0; ref::num m = 0; for (auto const &p : y.c) if (std::fabs(p.second) > m) { m = std::fabs(p.second); top = p.first; }
    if (m == 0) return x.zero(0);
    ref::num k = x.at(top) / y.at(top); if (!(std::fabs(k) > 1e-9L)) return false;
    return (x - k * y).norm() <= tol * x.norm();
}

static ref::space EU = ref::space::euclidean(ND);
bool is_const_safe() { return true; }

template<class A, class B> void check(A const &a, B const &b, ref::mv const &ra, ref::mv const &rb, ref::mv const &want_meet, ref::mv const &want_join, std::string const &sh) {
    std::string const o = mon::join(OPS(ra, rb));
    for (int k = 0; k < 2; ++k) {
        std::string const how = k ? "(tol)" : "";
        mon::at("meet_and_join" + how, sh, o);
        auto mj = k ? meet_and_join(a, b, 1e-7) : meet_and_join(a, b);
        ref::mv m = mon::R(std::get<0>(mj)), j = mon::R(std::get<1>(mj));
        mon::verdict_bool("join" + how, sh, o, parallel(j, want_join, 1e-9L), "multiple of " + want_join.str(), j.str());
        mon::verdict_bool("meet" + how, sh, o, parallel(m, want_meet, 1e-9L), "multiple of " + want_meet.str(), m.str());
        ref::mv w = EU.lcont(EU.lcont(rb, EU.inv(j)), ra);
        mon::verdict_bool("meet=(rhs<join^-1)<lhs" + how, sh, o, mon::close(m, w, 1e-9L, 0), w.str(), m.str());
        mon::at("fast_join" + how, sh, o);
        auto fj = k ? fast_join(a, b, 1e-7) : fast_join(a, b); ref::mv f = mon::R(fj);
        mon::verdict_bool("fast_join" + how, sh, o, parallel(f, want_join, 1e-9L), "multiple of " + want_join.str(), f.str());
        mon::verdict_bool("|fast_join|=1" + how, sh, o, std::fabs(EU.rnorm_sqr(f) - 1) < 1e-9L, "1", std::to_string(double(EU.rnorm_sqr(f))));
        mon::at("fast_meet_and_join" + how, sh, o);
        auto fm = k ? fast_meet_and_join(a, b, 1e-7) : fast_meet_and_join(a, b);
        ref::mv fmm = mon::R(std::get<0>(fm)), fmj = mon::R(std::get<1>(fm));
        mon::verdict_bool("fast join" + how, sh, o, parallel(fmj, want_join, 1e-9L), "multiple of " + want_join.str(), fmj.str());
        mon::verdict_bool("fast meet" + how, sh, o, parallel(fmm, want_meet, 1e-9L), "multiple of " + want_meet.str(), fmm.str());
        ref::mv fw = EU.lcont(EU.lcont(rb, EU.inv(fmj)), ra);
        mon::verdict_bool("fast meet=(rhs<join^-1)<lhs" + how, sh, o, mon::close(fmm, fw, 1e-9L, 0), fw.str(), fmm.str());
        if (std::fabs(SP.rnorm_sqr(j)) > 1e-3L * j.norm() * j.norm()) {
            ref::mv wp = ref::op(SP.dual(rb, j), SP.dual(ra, j));
            ref::num sc = ra.norm() * rb.norm() / std::fabs(SP.rnorm_sqr(j));
            mon::at("plunge" + how, sh, o);
            ref::mv p = k ? mon::R(plunge(a, b, 1e-7)) : mon::R(plunge(a, b));
            mon::verdict("plunge" + how, sh, OPS(ra, rb), p, wp, 1e-9L, sc);
            ref::mv wf = ref::op(SP.dual(rb, f), SP.dual(ra, f));
            mon::at("fast_plunge" + how, sh, o);
            ref::mv q = k ? mon::R(fast_plunge(a, b, 1e-7)) : mon::R(fast_plunge(a, b));
            mon::verdict("fast_plunge" + how, sh, OPS(ra, rb), q, wf, 1e-9L, ra.norm() * rb.norm() / std::fabs(SP.rnorm_sqr(f)));
        }
    }
    if (!mon::close(mon::R(a), ra, 0) || !mon::close(mon::R(b), rb, 0)) mon::report("operand unchanged", sh, o, "", "");
}

template<int K> full_kvector_t<double, ND, K> store(ref::mv const &m) {
    full_kvector_t<double, ND, K> x; auto it = x.values().begin();
    auto rd = [&](auto bs, auto const &, auto, auto, bool &) { *it++ = double(m.at(ref::bits(bs))); };
    ga::for_each_component(full_kvector_t<double, ND, K>(), rd);
    return x;
}

template<int KA, int KB> void blades() {
    for (int k = 0; k < mon::S().rounds; ++k) {
        auto b = basis(); int lo = std::max(0, KA + KB - ND), hi = std::min(KA, KB), c = irand(lo, hi);
        std::vector<int> sa, sb, sm, sj;
        for (int i = 0; i < c; ++i) { sa.push_back(i); sb.push_back(i); sm.push_back(i); }
        for (int i = c; i < KA; ++i) sa.push_back(i);
        for (int i = KA; i < KA + KB - c; ++i) sb.push_back(i);
        for (int i = 0; i < KA + KB - c; ++i) sj.push_back(i);
        auto x = store<KA>(span(b, sa)); auto y = store<KB>(span(b, sb));
        check(x, y, mon::R(x), mon::R(y), span(b, sm), span(b, sj), "full " + std::to_string(KA) + "-vector, full " + std::to_string(KB) + "-vector");
    }
}

ref::mv bl(ref::bits b) { return RB(b); }

int main(int argc, char **argv) {
    mon::begin(argc, argv, PROPERTY, UNIT + " forms " STR(PART));
    std::string why; if (!SP.selftest(why)) { std::cerr << "reference model broken: " << why << "\n"; return 3; }
#if PART < 100
    blades<PART / 10, PART % 10>();
#elif PART == 100
    for (int k = 0; k < mon::S().rounds; ++k) {
        // blades given at run time
        int i = irand(1, ND), j = irand(1, ND), l = irand(1, ND); double s = inz(4), t = inz(4); if (j == l) continue;
        ref::bits p = ref::bits(1) << (i - 1), q = (ref::bits(1) << (j - 1)) ^ (ref::bits(1) << (l - 1));
        auto a = s * e(i); auto b = t * (e(j) ^ e(l));
        check(a, b, RB(p, s), mon::R(b), bl(p & q), bl(p | q), "run-time vector, run-time 2-blade");
        check(b, a, mon::R(b), RB(p, s), bl(p & q), bl(p | q), "run-time 2-blade, run-time vector");
    }
#elif PART == 101
    for (int k = 0; k < mon::S().rounds; ++k) {
        auto a = c<2> * e(c<1>); auto b = c<3> * (e(c<1>) ^ e(c<LO2>)); auto d = 1.5 * e(c<HI>); ref::bits hi = ref::bits(1) << (HI - 1);
        check(a, d, mon::R(a), mon::R(d), bl(1 & hi), bl(1 | hi), "const vector, double * en");
        check(d, b, mon::R(d), mon::R(b), bl(3 & hi), bl(3 | hi), "double * en, const 2-blade");
    }
#endif
    return mon::finish();
}
