// Included by the instrumented units after the repository headers.
#pragma once
#include "../reg.h"
#include <type_traits>
#ifdef VERIF_FALLBACK // the code as it is compiles for plain index types only
#define WIDE(...)
#else
#define WIDE(...) __VA_ARGS__
#endif
namespace h {
template <class T> inline T nv(int64_t v) { return (T)v; }
struct MulF {
    int k;
    template <class T> T operator()(const T &a, const T &b) const {
        switch (k) { case 1: return a * T(3) + b * T(5); case 2: return a; case 3: return b; case 4: return a * b + a; default: return a * b; }
    }
};
struct AddF {
    int k;
    template <class T> T operator()(const T &a, const T &b) const {
        switch (k) { case 1: return b < a ? b : a; case 2: return a < b ? b : a; case 3: return a * T(31) + b; case 4: return b; case 5: return a; default: return a + b; }
    }
};
// a user type with two parts that belong together; an operation on a damaged value gives a damaged value
struct W16 {
    uint64_t a, b;
    W16() {}
    W16(int64_t v) : a((uint64_t)v), b(~(uint64_t)v) {}
    bool ok() const { return b == ~a; }
    static W16 mk(uint64_t v, bool good) { W16 w; w.a = v; w.b = good ? ~v : v; return w; }
    friend W16 operator*(const W16 &x, const W16 &y) { return mk(x.a * y.a, x.ok() && y.ok()); }
    friend W16 operator+(const W16 &x, const W16 &y) { return mk(x.a + y.a, x.ok() && y.ok()); }
    W16 &operator+=(const W16 &y) { return *this = *this + y; }
    friend bool operator<(const W16 &x, const W16 &y) { return x.a < y.a; }
    friend bool operator==(const W16 &x, const W16 &y) { return x.a == y.a && x.b == y.b; }
    friend bool operator!=(const W16 &x, const W16 &y) { return !(x == y); }
    friend W16 operator-(const W16 &x, const W16 &y) { return mk(x.a - y.a, x.ok() && y.ok()); }
    friend W16 operator/(const W16 &x, const W16 &y) { return mk(y.a ? x.a / y.a : 0, x.ok() && y.ok()); }
    W16 operator-() const { return mk(-a, ok()); }
    W16 &operator-=(const W16 &y) { return *this = *this - y; }
    W16 &operator*=(const W16 &y) { return *this = *this * y; }
    friend bool operator>(const W16 &x, const W16 &y) { return y < x; }
    friend bool operator<=(const W16 &x, const W16 &y) { return !(y < x); }
    friend bool operator>=(const W16 &x, const W16 &y) { return !(x < y); }
    template <class A, class = typename std::enable_if<std::is_arithmetic<A>::value>::type> explicit operator A() const { return (A)a; }
    template <class S> friend auto operator<<(S &s, const W16 &w) -> decltype(s << w.a) { return s << w.a; }
};
template <int V> struct TT;
template <> struct TT<T_IF> { typedef uint64_t I; typedef float N; };
template <> struct TT<T_IW> { typedef int I; typedef W16 N; };
template <> struct TT<T_ID> { typedef int I; typedef double N; };
template <> struct TT<T_LL> { typedef int64_t I; typedef int64_t N; };
template <> struct TT<T_LU> { typedef long I; typedef unsigned long N; };
}
