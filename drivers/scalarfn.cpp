// Functions of scalar multivectors against the functions of real numbers.
#include "operands.hpp"
using namespace NS;
using ref::mv; using ref::num;

#ifndef PART
#define PART 0
#endif

static bool same(num got, num want, num rel) {
    if (std::isnan(want)) return std::isnan(got);
    if (got == want) return true;
    if (std::isinf(want) || std::isinf(got)) return false;
    return std::fabs(got - want) <= rel * std::fabs(want) + (rel > 1e-10L ? 1e-44L : 5e-324L);
}
static std::string text(num v) { char b[64]; std::snprintf(b, sizeof b, "%.20Lg", v); return b; }
template<class X> void see(char const *fn, std::string const &shape, std::string const &operands, X const &x, num want, num rel) {
    mv const m = mon::R(x); num got = 0; bool pure = true;
    for (auto const &p : m.c) { if (p.first) pure = false; else got = p.second; }
    mon::verdict_bool(fn, shape, operands, pure && same(got, want, rel), text(want), m.str() + " = " + text(got), want != 0);
}
constexpr num DBL = 8 * 1.2e-16L, FLT = 8 * 6e-8L;
template<class T> constexpr num precision = std::is_same_v<T, float> ? FLT : DBL;

// Values of interest of each coefficient type.
template<class T> T value(bool nonneg = false) {
    T r;
    if constexpr (std::is_integral_v<T>) { static T const k[] = {0, 1, -1, 2, 3, 4, -7, 16, 27, 100, -64, 1000, 12345}; r = mon::irand(0, 2) ? k[mon::irand(0, 12)] : static_cast<T>(mon::irand(-2000, 2000)); }
    else {
        static double const k[] = {0.0, -0.0, 1, -1, 2, 0.5, -0.5, 4, -8, 27, 1e-30, -1e-30, 1e30, 1e-7, 700, -700, 3.14159265358979323846, 1.57079632679489661923, 0.1};
        switch (mon::irand(0, 4)) { case 0: r = static_cast<T>(k[mon::irand(0, 18)]); break; case 1: r = static_cast<T>(mon::irand(-30, 30)); break; case 2: r = static_cast<T>(std::ldexp(mon::dreal(), mon::irand(-60, 60))); break; default: r = static_cast<T>(mon::dreal() * 4); }
    }
    return nonneg && r < 0 ? static_cast<T>(-r) : r;
}

// The real function: computed as the standard library does in the wider type, so that only the library's own steps add rounding.
template<class T> using real_t = std::conditional_t<std::is_same_v<T, float>, float, double>;

template<class T, class Mk> void functions(std::string const &shape, Mk const &make) {
    using F = real_t<T>;
    for (int r = 0; r < mon::S().rounds * 10; ++r) {
        T const v = value<T>(); F const x = static_cast<F>(v); std::string const o = text(v);
        auto const s = make(v);
        mon::at("function of a scalar", shape, o);
        see("abs", shape, o, abs(s), std::fabs(static_cast<num>(v)), 0);
        see("cbrt", shape, o, cbrt(s), std::cbrt(x), precision<T>);
        see("exp", shape, o, exp(s), std::exp(x), precision<T>);
        see("cos", shape, o, cos(s), std::cos(x), precision<T>);
        see("sin", shape, o, sin(s), std::sin(x), precision<T>);
        see("tan", shape, o, tan(s), std::tan(x), precision<T>);
        see("cosh", shape, o, cosh(s), std::cosh(x), precision<T>);
        see("sinh", shape, o, sinh(s), std::sinh(x), precision<T>);
        see("tanh", shape, o, tanh(s), std::tanh(x), precision<T>);
        see("sqrt", shape, o, sqrt(s), std::sqrt(x), precision<T>);
        see("log", shape, o, log(s), v == 0 ? -INFINITY : std::log(x), precision<T>);
        mon::verdict_bool("operand unchanged", shape, o, same(mon::R(s).at(0), static_cast<num>(v), 0), o, mon::R(s).str());
    }
}

template<class A, class B, class MA, class MB> void powers(std::string const &shape, MA const &ma, MB const &mb) {
    constexpr num p = std::max(std::is_same_v<A, float> || std::is_same_v<B, float> ? FLT : DBL, DBL);
    for (int r = 0; r < mon::S().rounds * 20; ++r) {
        A a = value<A>(); B b = mon::irand(0, 2) ? static_cast<B>(mon::irand(-5, 5)) : std::is_integral_v<B> ? static_cast<B>(mon::irand(-9, 9)) : static_cast<B>(mon::dreal());
        if (mon::irand(0, 5) == 0) b = static_cast<B>(0.5);
        if (a == 0 && b < 0) continue;                           // a division by zero in the caller's integers
        if (a < 0 && static_cast<num>(b) != std::floor(static_cast<num>(b)) && mon::irand(0, 3)) continue;
        std::string const o = text(a) + " ; " + text(b);
        mon::at("pow", shape, o);
        num const want = std::pow(static_cast<double>(a), static_cast<double>(b));
        if (std::isinf(want) || (p == FLT && (std::fabs(want) > 3e38L || (want != 0 && std::fabs(want) < 2e-38L))) || (want != 0 && std::fabs(want) < 3e-308L)) continue;
        see("pow", shape, o, pow(ma(a), mb(b)), want, p * 4);
    }
}

// Compile-time constants: every function of c<N>.
template<ga::default_integral_t N> void constants() {
    std::string const o = std::to_string(N); double const x = N; auto const k = c<N>;
    mon::at("function of a constant", "c<N>", o);
    see("abs", "c<N>", o, abs(k), std::fabs(x), 0);
    see("cbrt", "c<N>", o, cbrt(k), std::cbrt(x), DBL);
    see("exp", "c<N>", o, exp(k), std::exp(x), DBL);
    see("cos", "c<N>", o, cos(k), std::cos(x), DBL);
    see("sin", "c<N>", o, sin(k), std::sin(x), DBL);
    see("tan", "c<N>", o, tan(k), std::tan(x), DBL);
    see("cosh", "c<N>", o, cosh(k), std::cosh(x), DBL);
    see("sinh", "c<N>", o, sinh(k), std::sinh(x), DBL);
    see("tanh", "c<N>", o, tanh(k), std::tanh(x), DBL);
    if constexpr (N >= 0) see("sqrt", "c<N>", o, sqrt(k), std::sqrt(x), DBL);
    if constexpr (N > 0) see("log", "c<N>", o, log(k), std::log(x), DBL);
    auto power = [&](auto e_, double y) { see("pow", "c<N>, c<M>", o + " ; " + text(y), pow(k, e_), std::pow(x, y), 4 * DBL); };
    power(c<1>, 1); power(c<2>, 2); power(c<3>, 3);
    if constexpr (N != 0) { power(c<0>, 0); power(c<-1>, -1); power(c<-2>, -2); power(c<-3>, -3); }
    if constexpr (N > 0) { power(inv(c<2>), 0.5); power(c<3> * inv(c<2>), 1.5); power(inv(c<3>), 1.0 / 3); power(-inv(c<2>), -0.5); }
    for (int r = 0; r < mon::S().rounds; ++r) {
        double const y = mon::irand(0, 1) ? mon::irand(-4, 4) : mon::dreal(); if (N == 0 && y < 0) continue;
        mon::at("pow", "c<N>", o + " ; " + text(y));
        if constexpr (N != 0) {   // a zero base known at compile time is refused unless the exponent is known too
        see("pow", "c<N>, double", o + " ; " + text(y), pow(k, y), std::pow(x, y), 4 * DBL);
        see("pow", "c<N>, scalar(double)", o + " ; " + text(y), pow(k, scalar(y)), std::pow(x, y), 4 * DBL);
        int const n = mon::irand(0, 5);
        see("pow", "c<N>, int", o + " ; " + text(n), pow(k, n), std::pow(x, n), 4 * DBL);
        }
        double const b = value<double>(); if (N < 0 && b == 0) continue; num const w = std::pow(b, x); if (std::isinf(w) || std::fabs(w) < 3e-308L) continue;
        see("pow", "double, c<N>", text(b) + " ; " + o, pow(b, k), w, 4 * DBL);
        see("pow", "scalar(double), c<N>", text(b) + " ; " + o, pow(scalar(b), k), w, 4 * DBL);
        see("pow", "scalar(double), native int", text(b) + " ; " + o, pow(scalar(b), static_cast<int>(N)), w, 4 * DBL);
    }
    if constexpr (N < 6) constants<N + 1>();
}

// Scalars that are results of products, and arithmetic that mixes them with functions.
static void derived() {
    for (int r = 0; r < mon::S().rounds * 10; ++r) {
        double const a = mon::dreal(), b = mon::dreal(); int const n = mon::irand(-9, 9);
        auto const v = a * e(c<1>) + b * e(c<2>); double const q = a * a + b * b; std::string const o = text(a) + " ; " + text(b) + " ; " + text(n);
        mon::at("function of a derived scalar", "", o);
        auto const s = sp(v, v);
        see("sqrt", "squared norm", o, sqrt(s), std::sqrt(q), 8 * DBL); see("log", "squared norm", o, log(s), std::log(q), 1e-13L + 1e-15L / std::fabs(std::log(q)));
        see("exp", "squared norm", o, exp(s), std::exp(q), 100 * DBL); see("pow", "squared norm", o, pow(s, c<-1> * inv(c<2>)), 1 / std::sqrt(q), 8 * DBL);
        see("cos^2+sin^2", "double", o, cos(scalar(a)) * cos(scalar(a)) + sin(scalar(a)) * sin(scalar(a)), 1, 8 * DBL);
        see("cosh^2-sinh^2", "double", o, cosh(scalar(a)) * cosh(scalar(a)) - sinh(scalar(a)) * sinh(scalar(a)), 1, 2e-13L);
        see("tan*cos", "double", o, tan(scalar(a)) * cos(scalar(a)), std::sin(a), 16 * DBL);
        see("exp*exp(-)", "double", o, exp(scalar(a)) * exp(-scalar(a)), 1, 16 * DBL);
        see("exp(log)", "double", o, exp(log(scalar(q))), q, 1e-13L);
        see("sqrt(square)", "double", o, sqrt(scalar(a) * scalar(a)), std::fabs(a), 8 * DBL);
        see("sqrt*sqrt", "double", o, sqrt(scalar(q)) * sqrt(scalar(q)), q, 8 * DBL);
        see("cbrt^3", "double", o, cbrt(scalar(a)) * cbrt(scalar(a)) * cbrt(scalar(a)), a, 16 * DBL);
        see("sqrt/int", "int", o, sqrt(scalar(n * n)), std::abs(n), DBL); see("cbrt/int", "int", o, cbrt(scalar(n * n * n)), n, DBL);
        see("abs of a difference", "double", o, abs(scalar(a) - scalar(b)), std::fabs(a - b), DBL);
        see("exp of a sum with a constant", "double", o, exp(scalar(a) + c<1>), std::exp(a + 1), 16 * DBL);
        see("inv", "int", o, n == 0 ? mv(0) : mon::R(inv(scalar(n))), n == 0 ? 0 : 1.0 / n, DBL);
        see("int exponent does not truncate", "int", o, pow(scalar(n == 0 ? 1 : n), scalar(-1)), 1.0 / (n == 0 ? 1 : n), DBL);
    }
}

int main(int argc, char **argv) {
    mon::begin(argc, argv, PROPERTY, UNIT + " part " STR(PART));
    auto sc = [](auto v) { return scalar(v); }; auto nat = [](auto v) { return v; };
#if PART == 0
    functions<double>("scalar(double)", sc); functions<float>("scalar(float)", sc);
#elif PART == 1
    functions<int>("scalar(int)", sc); functions<long long>("scalar(long long)", sc);
#elif PART == 2
    powers<double, double>("scalar(double), scalar(double)", sc, sc); powers<double, double>("scalar(double), double", sc, nat); powers<double, double>("double, scalar(double)", nat, sc);
    powers<double, int>("scalar(double), scalar(int)", sc, sc); powers<double, int>("scalar(double), int", sc, nat); powers<double, int>("double, scalar(int)", nat, sc);
    powers<int, int>("scalar(int), scalar(int)", sc, sc); powers<int, int>("scalar(int), int", sc, nat); powers<int, int>("int, scalar(int)", nat, sc);
#elif PART == 3
    powers<int, double>("scalar(int), scalar(double)", sc, sc); powers<int, double>("scalar(int), double", sc, nat); powers<int, double>("int, scalar(double)", nat, sc);
    powers<float, float>("scalar(float), scalar(float)", sc, sc); powers<float, int>("scalar(float), scalar(int)", sc, sc); powers<float, double>("scalar(float), scalar(double)", sc, sc); powers<double, float>("scalar(double), scalar(float)", sc, sc); powers<long long, int>("scalar(long long), scalar(int)", sc, sc);
#elif PART == 4
    constants<-8>();
#else
    derived();
#endif
    return mon::finish();
}
