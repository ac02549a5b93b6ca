// Runtime monitor: every observed library call is compared with the reference model (ref.hpp), operands are
// re-read after the call, and everything observed is counted and written out as the evidence of the run.
#ifndef VERIF_MON_HPP
#define VERIF_MON_HPP

#include <algorithm>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <iostream>
#include <map>
#include <random>
#include <set>
#include <sstream>
#include <string>
#include <type_traits>
#include <unordered_set>
#include <vector>

#include "ref.hpp"
#include "tracked.hpp"

extern "C" void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));

namespace mon {

using ref::num;

// ---------------------------------------------------------------- the event sink

struct violation { std::string op, shape, operands, want, got, note; };

struct sink {
    std::string property, unit;
    unsigned long long seed = 1;
    int rounds = 3;
    bool thorough = false;
    std::mt19937_64 rng;
    unsigned long long evaluations = 0, nontrivial = 0;
    std::unordered_set<unsigned long long> seen;
    std::map<std::string, unsigned long long> events;   // per operation
    std::set<std::string> shapes;                       // operation x operand shapes x unit
    std::vector<std::string> samples;
    std::vector<violation> violations;
    std::set<std::string> reported;
    unsigned long long total_violations = 0;
    std::string out;
    char at[4096];
    sink() { at[0] = 0; }
};

inline sink &S() { static sink s; return s; }

inline std::string esc(std::string const &s) {
    std::string r; for (unsigned char ch : s) {
        if (ch == '"' || ch == '\\') { r += '\\'; r += char(ch); } else if (ch < 32) { char b[8]; std::snprintf(b, 8, "\\u%04x", ch); r += b; } else r += char(ch);
    } return r;
}

inline void flush() {
    sink &s = S(); if (s.out.empty()) return;
    std::ofstream f(s.out);
    f << "{\"property\":\"" << esc(s.property) << "\",\"unit\":\"" << esc(s.unit) << "\",\"evaluations\":" << s.evaluations << ",\"distinct_nontrivial\":" << s.nontrivial << ",\"total_violations\":" << s.total_violations;
    f << ",\"events\":{"; bool c = false; for (auto const &p : s.events) { f << (c ? "," : "") << "\"" << esc(p.first) << "\":" << p.second; c = true; }
    f << "},\"shapes\":" << s.shapes.size() << ",\"shape_list\":["; c = false; for (auto const &p : s.shapes) { f << (c ? "," : "") << "\"" << esc(p) << "\""; c = true; }
    f << "],\"samples\":["; c = false; for (auto const &p : s.samples) { f << (c ? "," : "") << "\"" << esc(p) << "\""; c = true; }
    f << "],\"violations\":["; c = false;
    for (auto const &v : s.violations) { f << (c ? "," : "") << "{\"op\":\"" << esc(v.op) << "\",\"shape\":\"" << esc(v.shape) << "\",\"operands\":\"" << esc(v.operands) << "\",\"want\":\"" << esc(v.want) << "\",\"got\":\"" << esc(v.got) << "\",\"note\":\"" << esc(v.note) << "\"}"; c = true; }
    f << "]}\n";
}

inline void on_death() { std::fprintf(stderr, "\nMON-LAST-OPERATION %s\n", S().at); std::fflush(stderr); }
inline void on_terminate() { std::fprintf(stderr, "\nMON-TERMINATE\n"); on_death(); std::abort(); }

inline void begin(int argc, char **argv, char const *property, std::string const &unit) {
    sink &s = S(); s.property = property; s.unit = unit;
    if (argc > 1) s.out = argv[1];
    char const *sd = std::getenv("VERIF_SEED"); if (sd && *sd) s.seed = std::strtoull(sd, nullptr, 10);
    char const *ti = std::getenv("VERIF_TIER"); s.thorough = ti && !std::strcmp(ti, "thorough");
    char const *ro = std::getenv("VERIF_ROUNDS"); s.rounds = ro && *ro ? std::atoi(ro) : (s.thorough ? 200 : 30);
    unsigned long long h = s.seed * 0x9E3779B97F4A7C15ull; for (char ch : std::string(property) + unit) h = (h ^ (unsigned char)ch) * 1099511628211ull;
    s.rng.seed(h);
    std::set_terminate(on_terminate);
    if (__sanitizer_set_death_callback) __sanitizer_set_death_callback(on_death);
}


// ---------------------------------------------------------------- random values

inline int irand(int lo, int hi) { return lo + int(S().rng() % (unsigned long long)(hi - lo + 1)); }
inline int inz(int hi) { int v = irand(1, hi); return (S().rng() & 1) ? v : -v; }                // non-zero
inline double dint() { return irand(0, 9) == 0 ? 0.0 : double(irand(-7, 7)); }                    // exact in double
inline double dreal() { return std::uniform_real_distribution<double>(-2.5, 2.5)(S().rng); }
inline double dpos(double lo = 0.1, double hi = 3) { return std::uniform_real_distribution<double>(lo, hi)(S().rng); }

// ---------------------------------------------------------------- observation

inline void at(std::string const &op, std::string const &shape, std::string const &operands) {
    sink &s = S(); std::snprintf(s.at, sizeof s.at, "%s(%s) [%s] operands %s", op.c_str(), shape.c_str(), s.unit.c_str(), operands.c_str());
}

template<class T> std::enable_if_t<std::is_arithmetic_v<T>, ref::mv> R(T const &v) { return ref::mv(num(v)); }

// Reads a stored Clifford expression through the library's public iteration facility.
template<class C, class E> ref::mv R(ga::clifford_expression<C, E> const &x) {
    ref::mv r;
    ga::for_each_component(x, [&r](auto bs, auto const &v, auto, auto, bool &) {
        num q = static_cast<num>(v); ref::bits b = static_cast<ref::bits>(bs);
        if (std::isnan(q)) r.c[b] = q; else r.acc(b, q);
    });
    return r;
}
template<class T> std::enable_if_t<std::is_same_v<T, ref::mv>, ref::mv> R(T const &v) { return v; }

inline std::string join(std::vector<ref::mv> const &v) { std::string r; for (auto const &m : v) { if (!r.empty()) r += " ; "; r += m.str(); } return r; }

inline void report(std::string const &op, std::string const &shape, std::string const &operands, std::string const &want, std::string const &got, std::string const &note = "") {
    sink &s = S(); ++s.total_violations;
    if (!s.reported.insert(op + "|" + shape + "|" + note).second || s.violations.size() >= 60) return;
    s.violations.push_back({op, shape, operands, want, got, note});
}

inline void count(std::string const &op, std::string const &shape, std::string const &operands, bool interesting, std::string const &want) {
    sink &s = S(); ++s.evaluations; ++s.events[op]; s.shapes.insert(op + "(" + shape + ")@" + s.unit);
    std::string k = op + "|" + shape + "|" + operands; unsigned long long h = 1469598103934665603ull; for (unsigned char ch : k) h = (h ^ ch) * 1099511628211ull;
    if (trk::Num::bad) { report(op, shape, operands, "every coefficient read, copied or moved is alive and was written", trk::Num::what, "lifetime of class-type coefficients"); trk::Num::bad = 0; }
    if (s.seen.insert(h).second && interesting) {
        ++s.nontrivial;
        if (s.samples.size() < 4 || (s.samples.size() < 12 && s.nontrivial % 97 == 0)) s.samples.push_back(s.unit + ": " + op + "(" + shape + ") " + operands + " -> " + want);
    }
}

inline int finish() {
    if (trk::Num::live) report("end of program", "", "", "no live coefficients", std::to_string(trk::Num::live) + " live coefficients", "lifetime of class-type coefficients");
    flush(); sink &s = S(); std::printf("%s %s: %llu evaluations, %llu distinct, %zu op/shape combinations, %llu violations\n", s.property.c_str(), s.unit.c_str(), s.evaluations, s.nontrivial, s.shapes.size(), s.total_violations); return s.total_violations ? 1 : 0; }

// |got - want| <= tol * max(1, scale), componentwise.  tol == 0 asks for exact equality.
inline bool close(ref::mv const &got, ref::mv const &want, num tol, num scale = 0) {
    num lim = tol * std::max({num(1), want.norm(), scale});
    for (auto const &p : got.c) { num w = want.at(p.first); if (!(std::fabs(p.second - w) <= lim) && !(std::isinf(w) && p.second == w)) return false; }
    for (auto const &p : want.c) { num g = got.at(p.first); if (!(std::fabs(p.second - g) <= lim) && !(std::isinf(g) && p.second == g)) return false; }
    return true;
}

inline void verdict(std::string const &op, std::string const &shape, std::vector<ref::mv> const &operands, ref::mv const &got, ref::mv const &want, num tol, num scale = 0) {
    std::string o = join(operands);
    count(op, shape, o, !want.c.empty(), want.str());
    if (!close(got, want, tol, scale)) report(op, shape, o, want.str(), got.str());
}

inline void verdict_bool(std::string const &op, std::string const &shape, std::string const &operands, bool ok, std::string const &want, std::string const &got, bool interesting = true) {
    count(op, shape, operands, interesting, want);
    if (!ok) report(op, shape, operands, want, got);
}

}

// Evaluates the library expression EXPR (with the operation recorded first, so that a crash or a sanitizer report can be
// attributed), reads its value and compares it with WANT.
#define OBSERVE(OP, SHAPE, OPERANDS, EXPR, WANT, TOL) \
    do { \
        std::vector<ref::mv> const mon_operands_ = OPERANDS; \
        mon::at(OP, SHAPE, mon::join(mon_operands_)); \
        ref::mv const mon_got_ = mon::R(EXPR); \
        mon::verdict(OP, SHAPE, mon_operands_, mon_got_, WANT, TOL); \
    } while (0)

#define OPS(...) (std::vector<ref::mv>{__VA_ARGS__})

#endif
