// Model side of the linear-algebra checks: plain containers, exact scalar types, enumeration helpers.
#ifndef VERIF_BLAS_HPP
#define VERIF_BLAS_HPP
#include <array>
#include <cassert>
#include <cmath>
#include <complex>
#include <cstdint>
#include <functional>
#include <iterator>
#include <limits>
#include <numeric>
#include <ostream>
#include <stdexcept>
#include <tuple>
#include <type_traits>
#include <utility>

#include <nil/crypto3/algebra/vector/vector.hpp>
#include <nil/crypto3/algebra/vector/utility.hpp>
#include <nil/crypto3/algebra/vector/operators.hpp>
#include <nil/crypto3/algebra/vector/math.hpp>
#include <nil/crypto3/algebra/matrix/matrix.hpp>
#include <nil/crypto3/algebra/matrix/utility.hpp>
#include <nil/crypto3/algebra/matrix/operators.hpp>
#include <nil/crypto3/algebra/matrix/math.hpp>
#include <nil/crypto3/algebra/scalar/math.hpp>

#include "mc.hpp"

// ---------- exact scalar types -------------------------------------------------------------

// rational numbers with checked 64-bit parts
struct Rat {
    std::int64_t n = 0, d = 1;
    static __int128 g(__int128 a, __int128 b) {
        if (a < 0) a = -a;
        if (b < 0) b = -b;
        while (b) { __int128 t = a % b; a = b; b = t; }
        return a;
    }
    static Rat mk(__int128 n, __int128 d) {
        if (d == 0) throw std::runtime_error("rational division by zero");
        __int128 k = g(n, d);
        if (k > 1) { n /= k; d /= k; }
        if (d < 0) { n = -n; d = -d; }
        if (n > INT64_MAX || n < -INT64_MAX || d > INT64_MAX) throw std::overflow_error("rational overflow");
        Rat r; r.n = std::int64_t(n); r.d = std::int64_t(d);
        return r;
    }
    constexpr Rat() = default;
    constexpr Rat(int v) : n(v) { }
    constexpr Rat(unsigned v) : n(v) { }
    constexpr Rat(long v) : n(v) { }
    constexpr Rat(unsigned long v) : n(std::int64_t(v)) { }
    Rat operator-() const { Rat r = *this; r.n = -r.n; return r; }
    friend Rat operator+(Rat a, Rat b) { return mk((__int128)a.n * b.d + (__int128)b.n * a.d, (__int128)a.d * b.d); }
    friend Rat operator-(Rat a, Rat b) { return a + (-b); }
    friend Rat operator*(Rat a, Rat b) { return mk((__int128)a.n * b.n, (__int128)a.d * b.d); }
    friend Rat operator/(Rat a, Rat b) { return mk((__int128)a.n * b.d, (__int128)a.d * b.n); }
    Rat &operator+=(Rat b) { return *this = *this + b; }
    Rat &operator-=(Rat b) { return *this = *this - b; }
    Rat &operator*=(Rat b) { return *this = *this * b; }
    Rat &operator/=(Rat b) { return *this = *this / b; }
    friend bool operator==(Rat a, Rat b) { return a.n == b.n && a.d == b.d; }
    friend bool operator!=(Rat a, Rat b) { return !(a == b); }
    friend bool operator<(Rat a, Rat b) { return (__int128)a.n * b.d < (__int128)b.n * a.d; }
    friend bool operator>(Rat a, Rat b) { return b < a; }
    friend bool operator<=(Rat a, Rat b) { return !(b < a); }
    friend bool operator>=(Rat a, Rat b) { return !(a < b); }
    friend std::ostream &operator<<(std::ostream &o, Rat a) { o << a.n; if (a.d != 1) o << "/" << a.d; return o; }
};

// prime field, ordered by residue (zero is the least element)
template<int P>
struct Zp {
    int v = 0;
    constexpr Zp() = default;
    constexpr Zp(int x) : v(((x % P) + P) % P) { }
    constexpr Zp(unsigned x) : v(int(x % P)) { }
    constexpr Zp(unsigned long x) : v(int(x % P)) { }
    Zp operator-() const { return Zp(-v); }
    static int inv(int a) {
        if (a == 0) throw std::runtime_error("Zp division by zero");
        for (int i = 1; i < P; ++i) if (a * i % P == 1) return i;
        return 0;
    }
    friend Zp operator+(Zp a, Zp b) { return Zp(a.v + b.v); }
    friend Zp operator-(Zp a, Zp b) { return Zp(a.v - b.v); }
    friend Zp operator*(Zp a, Zp b) { return Zp(a.v * b.v); }
    friend Zp operator/(Zp a, Zp b) { return Zp(a.v * inv(b.v)); }
    Zp &operator+=(Zp b) { return *this = *this + b; }
    Zp &operator-=(Zp b) { return *this = *this - b; }
    Zp &operator*=(Zp b) { return *this = *this * b; }
    Zp &operator/=(Zp b) { return *this = *this / b; }
    friend bool operator==(Zp a, Zp b) { return a.v == b.v; }
    friend bool operator!=(Zp a, Zp b) { return a.v != b.v; }
    friend bool operator<(Zp a, Zp b) { return a.v < b.v; }
    friend bool operator>(Zp a, Zp b) { return a.v > b.v; }
    friend bool operator<=(Zp a, Zp b) { return a.v <= b.v; }
    friend bool operator>=(Zp a, Zp b) { return a.v >= b.v; }
    friend std::ostream &operator<<(std::ostream &o, Zp a) { return o << a.v; }
};

// integer quaternions: exact, associative, NOT commutative
struct Quat {
    std::int64_t a = 0, b = 0, c = 0, d = 0;
    constexpr Quat() = default;
    constexpr Quat(int x) : a(x) { }
    constexpr Quat(unsigned x) : a(x) { }
    constexpr Quat(std::int64_t a_, std::int64_t b_, std::int64_t c_, std::int64_t d_) : a(a_), b(b_), c(c_), d(d_) { }
    friend Quat operator+(Quat x, Quat y) { return {x.a + y.a, x.b + y.b, x.c + y.c, x.d + y.d}; }
    friend Quat operator-(Quat x, Quat y) { return {x.a - y.a, x.b - y.b, x.c - y.c, x.d - y.d}; }
    friend Quat operator*(Quat x, Quat y) {
        return {x.a * y.a - x.b * y.b - x.c * y.c - x.d * y.d, x.a * y.b + x.b * y.a + x.c * y.d - x.d * y.c,
                x.a * y.c - x.b * y.d + x.c * y.a + x.d * y.b, x.a * y.d + x.b * y.c - x.c * y.b + x.d * y.a};
    }
    Quat &operator+=(Quat y) { return *this = *this + y; }
    Quat &operator*=(Quat y) { return *this = *this * y; }
    friend bool operator==(Quat x, Quat y) { return x.a == y.a && x.b == y.b && x.c == y.c && x.d == y.d; }
    friend bool operator!=(Quat x, Quat y) { return !(x == y); }
    friend std::ostream &operator<<(std::ostream &o, Quat x) { return o << "(" << x.a << "," << x.b << "," << x.c << "," << x.d << ")"; }
};

// ---------- model containers ---------------------------------------------------------------

template<typename T>
struct MV {    // model vector
    std::vector<T> e;
    MV() = default;
    explicit MV(std::size_t n) : e(n) { }
    std::size_t n() const { return e.size(); }
    T &operator[](std::size_t i) { return e.at(i); }
    const T &operator[](std::size_t i) const { return e.at(i); }
    friend bool operator==(const MV &a, const MV &b) { return a.e == b.e; }
};
template<typename T>
struct MM {    // model matrix
    std::size_t r = 0, c = 0;
    std::vector<T> e;
    MM() = default;
    MM(std::size_t r_, std::size_t c_) : r(r_), c(c_), e(r_ * c_) { }
    T &at(std::size_t i, std::size_t j) { if (i >= r || j >= c) std::abort(); return e[i * c + j]; }
    const T &at(std::size_t i, std::size_t j) const { if (i >= r || j >= c) std::abort(); return e[i * c + j]; }
    friend bool operator==(const MM &a, const MM &b) { return a.r == b.r && a.c == b.c && a.e == b.e; }
};
template<typename T>
std::ostream &operator<<(std::ostream &o, const MV<T> &v) {
    o << "[";
    for (std::size_t i = 0; i < v.n(); ++i) o << (i ? " " : "") << v[i];
    return o << "]";
}
template<typename T>
std::ostream &operator<<(std::ostream &o, const MM<T> &m) {
    o << "[";
    for (std::size_t i = 0; i < m.r; ++i) { o << (i ? "; " : ""); for (std::size_t j = 0; j < m.c; ++j) o << (j ? " " : "") << m.at(i, j); }
    return o << "]";
}

namespace alg = nil::crypto3::algebra;

template<typename T, std::size_t N>
MV<T> mod(const alg::vector<T, N> &v) {
    MV<T> r(N);
    for (std::size_t i = 0; i < N; ++i) r[i] = v.array[i];
    return r;
}
template<typename T, std::size_t N, std::size_t M>
MM<T> mod(const alg::matrix<T, N, M> &v) {
    MM<T> r(N, M);
    for (std::size_t i = 0; i < N; ++i) for (std::size_t j = 0; j < M; ++j) r.at(i, j) = v.arrays[i][j];
    return r;
}
template<std::size_t N, typename T>
alg::vector<T, N> impl(const MV<T> &v) {
    alg::vector<T, N> r {};
    for (std::size_t i = 0; i < N; ++i) r.array[i] = v[i];
    return r;
}
template<std::size_t N, std::size_t M, typename T>
alg::matrix<T, N, M> impl(const MM<T> &v) {
    alg::matrix<T, N, M> r {};
    for (std::size_t i = 0; i < N; ++i) for (std::size_t j = 0; j < M; ++j) r.arrays[i][j] = v.at(i, j);
    return r;
}

// ---------- enumeration helpers ------------------------------------------------------------

template<std::size_t... I, typename F>
void for_sizes(std::index_sequence<I...>, F f) {
    (f(std::integral_constant<std::size_t, I> {}), ...);
}
template<std::size_t R, std::size_t C>
struct Shape {
    static constexpr std::size_t r = R, c = C;
};
template<typename... S>
struct Shapes { };
template<typename... S, typename F>
void for_shapes(Shapes<S...>, F f) {
    (f(S {}), ...);
}

// calls f(v) for every assignment of n slots from the alphabet (the state space of an n-element container)
template<typename T, typename F>
void all_assignments(std::size_t n, const std::vector<T> &alpha, F f) {
    std::vector<std::size_t> ix(n, 0);
    std::vector<T> cur(n, alpha[0]);
    for (;;) {
        f(cur);
        std::size_t k = 0;
        while (k < n) {
            if (++ix[k] < alpha.size()) { cur[k] = alpha[ix[k]]; break; }
            ix[k] = 0; cur[k] = alpha[0]; ++k;
        }
        if (k == n) return;
    }
}

// distinct, non-zero, exactly representable tag of a cell
template<typename T>
T tag(std::size_t k) {
    if constexpr (alg::is_complex_v<T>) {
        using R = typename T::value_type;
        return T(R(k + 1), R(2 * k + 3));
    } else
        return T(int(k + 1));
}

template<typename T>
bool same(const T &a, const T &b) { return a == b || (a != a && b != b); }    // NaN equals NaN

// equality with IEEE specials identified by value class (NaN equals NaN, used only to compare model and implementation)
inline bool same_fp(double a, double b) { return (std::isnan(a) && std::isnan(b)) || a == b; }

using namespace nil::crypto3::algebra;
#endif
