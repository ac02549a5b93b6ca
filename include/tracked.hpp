// A coefficient type of class type: owns memory, knows whether it was written, moved from or destroyed.
#pragma once
#include <cstdio>
#include <cmath>
#include <ostream>
#include <utility>
namespace trk {
struct Num {
    double *p; bool init;
    static long live, bad; static char const *what;
    static void err(char const *w) { if (!bad++) what = w; }
    double get() const { if (!p) { err("read of a moved-from value"); return 0; } if (!init) err("read of a value nobody wrote"); return *p; }
    Num() : p(new double(0)), init(false) { ++live; }
    Num(double v) : p(new double(v)), init(true) { ++live; }
    Num(Num const &o) : p(new double(o.p ? *o.p : 0)), init(o.init) { if (!o.p) err("copy of a moved-from value"); ++live; }
    Num(Num &&o) noexcept : p(o.p), init(o.init) { if (!p) err("move of a moved-from value"); o.p = nullptr; ++live; }
    Num &operator=(Num const &o) { if (!o.p) { err("assignment of a moved-from value"); return *this; } if (this != &o) { if (!p) p = new double; *p = *o.p; init = o.init; } return *this; }
    Num &operator=(Num &&o) noexcept { if (this != &o) { if (!o.p) err("move assignment of a moved-from value"); delete p; p = o.p; init = o.init; o.p = nullptr; } return *this; }
    ~Num() { delete p; --live; }
    explicit operator long double() const { return get(); }
};
inline long Num::live = 0, Num::bad = 0; inline char const *Num::what = "";
inline Num operator+(Num const &a, Num const &b) { return Num(a.get() + b.get()); }
inline Num operator-(Num const &a, Num const &b) { return Num(a.get() - b.get()); }
inline Num operator*(Num const &a, Num const &b) { return Num(a.get() * b.get()); }
inline Num operator/(Num const &a, Num const &b) { return Num(a.get() / b.get()); }
inline Num operator-(Num const &a) { return Num(-a.get()); }
inline Num operator+(Num const &a) { return Num(a.get()); }
#define CMP_(O) inline bool operator O(Num const &a, Num const &b) { return a.get() O b.get(); }
CMP_(==) CMP_(!=) CMP_(<) CMP_(>) CMP_(<=) CMP_(>=)
#define FN_(F) inline Num F(Num const &a) { return Num(std::F(a.get())); }
FN_(abs) FN_(sqrt) FN_(cbrt) FN_(exp) FN_(log) FN_(cos) FN_(sin) FN_(tan) FN_(cosh) FN_(sinh) FN_(tanh)
inline Num pow(Num const &a, Num const &b) { return Num(std::pow(a.get(), b.get())); }
inline std::ostream &operator<<(std::ostream &o, Num const &a) { return o << a.get(); }
}
