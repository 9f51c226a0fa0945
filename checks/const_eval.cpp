// C33: constant evaluation. Every listed operation is evaluated by the compiler over every state of its space (a constexpr
// table; undefined behaviour is then a compile error) and once more at run time; the two tables have to be equal.
// PART 1: vectors and scalars. PART 2, 4: matrices. PART 3: row reduction. BIG: larger spaces.
#include "mc.hpp"
#include <complex>
#include <nil/crypto3/algebra/vector/vector.hpp>
#include <nil/crypto3/algebra/vector/utility.hpp>
#include <nil/crypto3/algebra/vector/operators.hpp>
#include <nil/crypto3/algebra/vector/math.hpp>
#include <nil/crypto3/algebra/matrix/matrix.hpp>
#include <nil/crypto3/algebra/matrix/utility.hpp>
#include <nil/crypto3/algebra/matrix/operators.hpp>
#include <nil/crypto3/algebra/matrix/math.hpp>
namespace al = nil::crypto3::algebra;
using sz = std::size_t;
typedef std::complex<double> C;
#ifndef BIG
#define BIG 0
#endif

// the k-th vector or matrix over the entries -lo .. b-1-lo (scaled where T is floating)
template<typename T> constexpr T ent(sz d, int lo) {
    if constexpr (std::is_same_v<T, C>) return C(double(int(d) - lo) * 0.5, double(lo) - double(d) * 0.25);
    else if constexpr (std::is_floating_point_v<T>) return T(T(int(d) - lo) * T(1.5));
    else return T(int(d) - lo);
}
template<typename T, sz N> constexpr al::vector<T, N> vec(sz k, sz b, int lo) {
    al::vector<T, N> v = {};
    for (sz i = 0; i < N; ++i, k /= b) v[i] = ent<T>(k % b, lo);
    return v;
}
template<typename T, sz M, sz N> constexpr al::matrix<T, M, N> mat(sz k, sz b, int lo) {
    al::matrix<T, M, N> m = {};
    for (sz i = 0; i < M; ++i) for (sz j = 0; j < N; ++j, k /= b) m[i][j] = ent<T>(k % b, lo);
    return m;
}
constexpr sz ipow(sz b, sz e) { sz r = 1; while (e--) r *= b; return r; }

constexpr double scaled(double m, int e) { for (; e > 0; --e) m *= 2; for (; e < 0; ++e) m /= 2; return m; }

template<typename T> bool same(const T &a, const T &b) { return a == b; }
template<> bool same(const double &a, const double &b) { return a == b || (a != a && b != b); }
template<> bool same(const float &a, const float &b) { return a == b || (a != a && b != b); }
template<typename T, sz N> bool same(const al::vector<T, N> &a, const al::vector<T, N> &b) { for (sz i = 0; i < N; ++i) if (!same(a[i], b[i])) return false; return true; }
template<typename T, sz M, sz N> bool same(const al::matrix<T, M, N> &a, const al::matrix<T, M, N> &b) { for (sz i = 0; i < M; ++i) for (sz j = 0; j < N; ++j) if (!same(a[i][j], b[i][j])) return false; return true; }

template<typename R, sz K> struct Table { R r[K]; };
template<sz K, typename F> constexpr auto table(F f) {
    Table<std::decay_t<decltype(f(sz(0)))>, K> t = {};
    for (sz k = 0; k < K; ++k) t.r[k] = f(k);
    return t;
}
template<sz K, typename T, typename F> void compare(const char *op, const T &ct, F f) {
    for (sz k = 0; k < K; ++k) {
        volatile sz kk = k;
        mc::state(); mc::step(op); mc::trace();
        auto rt = f(kk);
        MC_CHECK(same(ct.r[k], rt), mc::str("const:", op), op, " over ", __PRETTY_FUNCTION__, " state ", k, ": the compiler's value differs from the one at run time");
    }
}
#define CE(name, K, ...) { constexpr auto f = [](sz k) { __VA_ARGS__ }; static constexpr auto ct = table<(K)>(f); compare<(K)>(name, ct, f); }

#if PART == 1
template<typename T, sz N> void vectors() {
    constexpr sz b = N <= 2 ? 5 : N == 3 ? 3 : 2, K = ipow(b, N), K2 = K * K;
    mc::cur_args = mc::str("N=", N);
    CE("==", K2, return vec<T, N>(k % K, b, 1) == vec<T, N>(k / K, b, 1); )
    CE("!=", K2, return vec<T, N>(k % K, b, 1) != vec<T, N>(k / K, b, 1); )
    if constexpr (!std::is_same_v<T, C>) {
        CE("v+v", K2, return vec<T, N>(k % K, b, 1) + vec<T, N>(k / K, b, 1); )
        CE("v*v", K2, return vec<T, N>(k % K, b, 1) * vec<T, N>(k / K, b, 1); )
        CE("v/v", K2, return vec<T, N>(k % K, b, 1) / vec<T, N>(k / K, b, -1); )
        CE("v+s", K * 5, return vec<T, N>(k % K, b, 1) + ent<T>(k / K, 2); )
        CE("s+v", K * 5, return ent<T>(k / K, 2) + vec<T, N>(k % K, b, 1); )
        CE("v*s", K * 5, return vec<T, N>(k % K, b, 1) * ent<T>(k / K, 2); )
        CE("s*v", K * 5, return ent<T>(k / K, 2) * vec<T, N>(k % K, b, 1); )
        CE("s/v", K * 5, return ent<T>(k / K, 2) / vec<T, N>(k % K, b, -1); )
        CE("dot", K2, return al::dot(vec<T, N>(k % K, b, 1), vec<T, N>(k / K, b, 1)); )
        CE("sum", K, return al::sum(vec<T, N>(k, b, 1)); )
        CE("accumulate", K, return al::accumulate(vec<T, N>(k, b, 1), T(1), [](T x, T y) { return T(x + x - y); }); )
        CE("min", K, return al::min(vec<T, N>(k, b, 1)); )
        CE("max", K, return al::max(vec<T, N>(k, b, 1)); )
        CE("min_index", K, return al::min_index(vec<T, N>(k, b, 1)); )
        CE("max_index", K, return al::max_index(vec<T, N>(k, b, 1)); )
        CE("abs", K, return al::abs(vec<T, N>(k, b, 1)); )
        CE("iota", 5, return al::iota<N, T>(ent<T>(k, 2)); )
        CE("cast", K, return al::cast<long long>(vec<T, N>(k, b, 1)); )
        CE("elementwise", K2, return al::elementwise([](T x, T y) { return T(x + x - y); }, vec<T, N>(k % K, b, 1), vec<T, N>(k / K, b, 1)); )
    }
    if constexpr (std::is_same_v<T, C>) {
        CE("real", K, return al::real(vec<T, N>(k, b, 1)); )
        CE("imag", K, return al::imag(vec<T, N>(k, b, 1)); )
    }
    if constexpr (std::is_same_v<T, double> || std::is_same_v<T, float>) {
        CE("sqrt", K, return al::sqrt(vec<T, N>(k, b, 0)); )
        CE("linspace", 25, return al::linspace<N>(ent<T>(k % 5, 2), ent<T>(k / 5, 2)); )
    }
    CE("conj", K, return al::conj(vec<T, N>(k, b, 1)); )
    CE("fill", 5, return al::fill<N>(ent<T>(k, 2)); )
    CE("generate", 5, return al::generate<N>([k](sz i) { return ent<T>(i + k, 2); }); )
    CE("rotate", K * (4 * N + 1), return al::rotate(vec<T, N>(k % K, b, 1), int(k / K) - int(2 * N)); )
    CE("slice", K * N, return al::slice<1>(vec<T, N>(k % K, b, 1), k / K); )
    if constexpr (N > 1) CE("slice", K * 2, return al::slice<N - 1>(vec<T, N>(k % K, b, 1), k / K); )
    CE("concat", K * b, return al::concat(vec<T, N>(k % K, b, 1), vec<T, 1>(k / K, b, 1)); )
    CE("iterators", K, auto v = vec<T, N>(k, b, 1); const auto w = v; sz n = 0; bool ok = true; for (T &x : v) { ok = ok && x == w[n]; x = w[N - 1 - n]; ++n; }
       for (auto p = w.cbegin(); p != w.cend(); ++p) ok = ok && *p == w[sz(p - w.cbegin())]; return ok && n == N ? v : al::fill<N>(T()); )
}
// longer vectors: a few contents each, so that code for particular lengths is evaluated too
template<typename T, sz N> void longer() {
    mc::cur_args = mc::str("N=", N);
#define V(q) al::generate<N>([k](sz i) { return T(int((i * i * 3 + i * (k + 2) + k + q) % 19) + 1); })
    CE("v+v", 4, return V(0) + V(5); )
    CE("v*v", 4, return V(0) * V(5); )
    CE("v/v", 4, return V(0) / V(5); )
    CE("s/v", 4, return T(720) / V(5); )
    CE("==", 4, return V(0) == V(k % 2); )
    CE("dot", 4, return al::dot(V(0), V(5)); )
    CE("sum", 4, return al::sum(V(0)); )
    CE("min", 4, return al::min(V(0)); )
    CE("max_index", 4, return al::max_index(V(0)); )
    CE("min_index", 4, return al::min_index(V(0)); )
    CE("rotate", 2 * N + 1, return al::rotate(V(0), int(k) - int(N)); )
    CE("slice", N / 2, return al::slice<N - N / 2>(V(0), k); )
    CE("concat", 4, return al::concat(V(0), V(5)); )
    CE("iota", 4, return al::iota<N, T>(T(k)); )
    CE("fill", 4, return al::fill<N>(T(k)); )
    CE("cast", 4, return al::cast<short>(V(0)); )
    if constexpr (std::is_floating_point_v<T>) {
        CE("linspace", 4, return al::linspace<N>(T(k), T(3 * k + 5)); )
        CE("sqrt", 4, return al::sqrt(V(0)); )
    }
#undef V
}
static void run() {
    { mc::ScopedSpace s("vectors of length 8, 9, 16, 17, 33, 64, 65, 130: some contents, every rotation and slice");
    longer<int, 8>(); longer<int, 9>(); longer<double, 16>(); longer<int, 17>(); longer<double, 33>(); longer<int, 64>(); longer<int, 65>(); longer<double, 130>(); longer<float, 17>(); }
    { mc::ScopedSpace s("vectors of length 1..5 (1..7 thorough) over small alphabets: every state and pair of states");
    vectors<int, 1>(); vectors<int, 2>(); vectors<int, 3>(); vectors<int, 4>(); vectors<int, 5>(); vectors<double, 1>(); vectors<double, 2>(); vectors<double, 3>(); vectors<float, 2>(); vectors<short, 3>();
    vectors<long long, 4>(); vectors<C, 1>(); vectors<C, 2>(); vectors<C, 3>();
#if BIG
    vectors<double, 5>(); vectors<int, 6>(); vectors<C, 5>(); vectors<int, 7>();
#endif
    CE("make_vector", 27, return al::make_vector(int(k % 3), int(k / 3 % 3), int(k / 9)); )
    CE("deduced vector", 27, return al::vector {int(k % 3), int(k / 3 % 3), int(k / 9)}; ) }
    mc::ScopedSpace s("scalar functions over a grid of arguments");
    CE("sqrt", 2000, return al::sqrt(double(k) * 0.37); )
    CE("sqrt(float)", 400, return al::sqrt(float(k) * 1.7f); )
    CE("abs", 41, return al::abs(int(k) - 20); )
    CE("abs(double)", 41, return al::abs((int(k) - 20) * 0.3); )
    CE("abs(complex)", 81, return al::abs(C(double(k % 9) - 4, double(k / 9) - 4)); )
    CE("conj", 81, return al::conj(C(double(k % 9) - 4, double(k / 9) - 4)); )
    CE("exponentiate", 21 * 41, return al::exponentiate((int(k % 21) - 10) * 0.5 + 0.125, int(k / 21) - 20); )
    // two mantissas at every binary exponent
    CE("sqrt", 2 * 2098, return al::sqrt(scaled(k % 2 ? 1.0 : 1.7320508075688772, int(k / 2) - 1074)); )
    CE("sqrt(float)", 2 * 277, return al::sqrt(float(scaled(k % 2 ? 1.0 : 1.75, int(k / 2) - 149))); )
    CE("nthroot", 2 * 2098, return al::nthroot(scaled(k % 2 ? 1.0 : 1.7320508075688772, int(k / 2) - 1074), int(k % 5) + 2); )
    CE("exponentiate", 81 * 41, return al::exponentiate(scaled(k % 2 ? -1.25 : 1.5, int(k % 81) - 40), int(k / 81) - 20); )
    CE("abs(double)", 2 * 2098, return al::abs(scaled(k % 2 ? 1.0 : -1.5, int(k / 2) - 1074)); )
    CE("abs(complex)", 43 * 43, return al::abs(C(scaled(1.5, int(k % 43) * 10 - 210), scaled(-1.25, int(k / 43) * 10 - 210))); )
    CE("nthroot", 40 * 9, return al::nthroot(double(k % 40) * 0.7, int(k / 40) + 1); )
    mc::sample("v+v over every pair of int vectors of length 3 with entries -1..1; sqrt(0.37 k) for k < 2000");
}
#endif
#if PART == 2 || PART == 4
template<typename T, sz M, sz N> void matrices() {
    constexpr sz b = M * N <= 4 ? 3 : 2, K = ipow(b, M * N), K2 = K * K <= 8192 ? K * K : 4 * K;    // pairs: all, or each matrix with four others
    mc::cur_args = mc::str(M, "x", N);
#define L mat<T, M, N>(k % K, b, 1)
#define R mat<T, M, N>(k / K * (K * K <= 8192 ? 1 : K / 4 + 1) % K, b, 1)
    CE("==", K2, return L == R; )
    CE("!=", K2, return L != R; )
    if constexpr (!std::is_same_v<T, C>) {
        CE("m+m", K2, return L + R; )
        CE("m*m", K2, return L * R; )
        CE("m/m", K2, return L / (R + ent<T>(3, 0)); )
        CE("m+s", K * 3, return L + ent<T>(k / K, 1); )
        CE("s+m", K * 3, return ent<T>(k / K, 1) + L; )
        CE("m*s", K * 3, return L * ent<T>(k / K, 1); )
        CE("s*m", K * 3, return ent<T>(k / K, 1) * L; )
        CE("s/m", K * 3, return ent<T>(k / K, 1) / mat<T, M, N>(k % K, b, -1); )
        CE("elementwise", K2, return al::elementwise([](T x, T y) { return T(x + x - y); }, L, R); )
        CE("cast", K, return al::cast<long long>(L); )
        CE("matmul", K * 4, return al::matmul(L, mat<T, N, 2>(k / K * 7 + 1, 2, 1)); )
        CE("vectmatmul", K * 4, return al::vectmatmul(vec<T, M>(k / K, 2, 1), L); )
        CE("matvectmul", K * 4, return al::matvectmul(L, vec<T, N>(k / K, 2, 1)); )
        CE("kron", K * 4, return al::kron(L, mat<T, 2, 1>(k / K, 2, 1)); )
        CE("macs", K, return al::macs(L); )
        CE("mars", K, return al::mars(L); )
        if constexpr (M == N) CE("trace", K, return al::trace(L); )
    }
    if constexpr (std::is_same_v<T, C>) {
        CE("real", K, return al::real(L); )
        CE("imag", K, return al::imag(L); )
    }
    CE("conj", K, return al::conj(L); )
    CE("hermitian", K, return al::hermitian(L); )
    CE("transpose", K, return al::transpose(L); )
    CE("row", K * M, return L.row(k / K); )
    CE("column", K * N, return L.column(k / K); )
    CE("[]", K, auto m = L; for (sz i = 0; i < M; ++i) for (sz j = 0; j < N; ++j) m[i][j] = L[M - 1 - i][N - 1 - j]; return m; )
    CE("fill", 3, return al::fill<M, N>(ent<T>(k, 1)); )
    CE("generate", 3, return al::generate<M, N>([k](sz i, sz j) { return ent<T>(i * N + j + k, 1); }); )
    CE("repmat", K, return al::repmat<2, 3>(L); )
    CE("swaprow", K * M * M, return al::swaprow(L, k / K / M, k / K % M); )
    CE("swapcol", K * N * N, return al::swapcol(L, k / K / N, k / K % N); )
    CE("horzcat", K * 4, return al::horzcat(L, mat<T, M, 1>(k / K, 2, 1)); )
    CE("vertcat", K * 4, return al::vertcat(L, mat<T, 1, N>(k / K, 2, 1)); )
    CE("submat", K * M * N, return al::submat<1, 1>(L, k / K / N, k / K % N); )
    if constexpr (M > 1) CE("submat", K * 2, return al::submat<M - 1, N>(L, k / K, 0); )
    CE("reshape", K, return al::reshape<N, M>(L); )
    CE("reshape", K, return al::reshape<1, M * N>(L); )
    CE("as_column", 4, return al::as_column(vec<T, M>(k, 2, 1)); )
    CE("as_row", 4, return al::as_row(vec<T, N>(k, 2, 1)); )
    if constexpr (M == N && !std::is_same_v<T, C>) CE("identity", 1, return al::identity<T, M> == al::get_identity<T, M>() ? al::identity<T, M> : al::fill<M, M>(T()); )
}
// larger matrices: a few contents each
template<typename T, sz M, sz N> void larger() {
    mc::cur_args = mc::str(M, "x", N);
#define X(q, m, n) al::generate<m, n>([k](sz i, sz j) { return T(int((i * i * 3 + j * (k + 2) + i * j * 5 + k + q) % 19) - 6); })
    CE("m+m", 4, return X(0, M, N) + X(5, M, N); )
    CE("m*m", 4, return X(0, M, N) * X(5, M, N); )
    CE("==", 4, return X(0, M, N) == X(k % 2, M, N); )
    CE("matmul", 4, return al::matmul(X(0, M, N), X(5, N, 3)); )
    CE("vectmatmul", 4, return al::vectmatmul(al::as_column(X(0, M, N).column(0)).column(0), X(0, M, N)); )
    CE("matvectmul", 4, return al::matvectmul(X(0, M, N), X(5, M, N).row(0)); )
    CE("kron", 4, return al::kron(X(0, M, N), X(5, 2, 1)); )
    CE("macs", 4, return al::macs(X(0, M, N)); )
    CE("mars", 4, return al::mars(X(0, M, N)); )
    CE("transpose", 4, return al::transpose(X(0, M, N)); )
    CE("hermitian", 4, return al::hermitian(X(0, M, N)); )
    CE("swaprow", M, return al::swaprow(X(0, M, N), k, M - 1 - k); )
    CE("swapcol", N, return al::swapcol(X(0, M, N), k, N - 1 - k); )
    CE("horzcat", 4, return al::horzcat(X(0, M, N), X(5, M, 2)); )
    CE("vertcat", 4, return al::vertcat(X(0, M, N), X(5, 2, N)); )
    CE("submat", 4, return al::submat<M / 2, N / 2>(X(0, M, N), k % 2, k / 2); )
    CE("reshape", 4, return al::reshape<N, M>(X(0, M, N)); )
    CE("repmat", 4, return al::repmat<2, 2>(X(0, M, N)); )
    CE("row", M, return X(0, M, N).row(k); )
    CE("column", N, return X(0, M, N).column(k); )
    if constexpr (M == N) CE("trace", 4, return al::trace(X(0, M, N)); )
    if constexpr (M == N) CE("identity", 1, return al::identity<T, M> == al::get_identity<T, M>() ? al::identity<T, M> : al::fill<M, M>(T()); )
#undef X
}
static void run() {
#if PART == 2
    { mc::ScopedSpace s("larger matrices, some contents"); larger<int, 5, 5>(); larger<int, 9, 4>(); larger<int, 4, 9>(); larger<int, 16, 16>(); }
#else
    { mc::ScopedSpace s("larger matrices, some contents"); larger<double, 8, 8>(); larger<double, 3, 17>(); larger<double, 17, 3>(); larger<float, 9, 9>(); }
#endif
    mc::ScopedSpace s("matrices of the listed shapes over two or three entries: every state, and pairs of states");
#if PART == 2
    matrices<int, 1, 1>(); matrices<int, 1, 3>(); matrices<int, 3, 1>(); matrices<int, 2, 2>(); matrices<int, 2, 3>();
#else
    matrices<double, 3, 2>(); matrices<double, 2, 2>(); matrices<float, 1, 2>(); matrices<C, 2, 2>(); matrices<C, 2, 3>();
#endif
#if PART == 2 && BIG
    matrices<double, 2, 4>(); matrices<long long, 3, 3>();
#elif BIG
    matrices<double, 4, 2>(); matrices<C, 3, 2>();
#endif
    mc::sample("matmul of every 2x3 int matrix over {-1, 0} with four 3x2 matrices");
}
#endif
#if PART == 3
template<typename T, sz M, sz N> void reduce() {
    constexpr sz b = M * N <= 4 ? (BIG ? 5 : 4) : M * N <= 6 ? (BIG ? 3 : 2) : 2, K = ipow(b, M * N);
    mc::cur_args = mc::str(M, "x", N);
#define A mat<T, M, N>(k, b, 1)
    CE("rref", K, return al::rref(A); )
    CE("rref(tolerance)", K, return al::rref(A, T(1e-3)); )
    CE("rank", K, return al::rank(A); )
    if constexpr (M == N) {
        CE("det", K, return al::det(A); )
        CE("inverse", K, auto m = A; return al::rank(m) == M ? al::inverse(m) : m; )
    }
}
template<typename T, sz M, sz N> void larger() {
    mc::cur_args = mc::str(M, "x", N);
#define X al::generate<M, N>([k](sz i, sz j) { return k == 0 ? T(i + j + 1 == N ? i + 1 : 0) : k == 1 ? T((i + 1) * (j + 1)) : k == 2 ? T(i == j ? 4 : i + 1 == j || j + 1 == i ? 1 : 0) : k == 3 ? T(i > j ? i - j : j - i) : T(int((i * i * 3 + j * j + i * j * 5 + k) % 19) - 6); })
    CE("rref", 8, return al::rref(X); )
    CE("rank", 8, return al::rank(X); )
    if constexpr (M == N) {
        CE("det", 8, return al::det(X); )
        CE("inverse", 3, return al::inverse(al::generate<M, N>([k](sz i, sz j) { return k == 0 ? T(i + j + 1 == N ? i + 1 : 0) : k == 1 ? T(i == j ? 4 : i + 1 == j || j + 1 == i ? 1 : 0) : T(i > j ? i - j : j - i); })); )
    }
#undef X
}
static void run() {
    { mc::ScopedSpace s("larger matrices: reversal, rank one, tridiagonal, distance, dense"); larger<double, 4, 4>(); larger<double, 5, 5>(); larger<double, 8, 8>(); larger<float, 4, 6>(); larger<double, 9, 17>(); larger<double, 12, 5>(); }
    mc::ScopedSpace s("every matrix of the listed shapes over two to five entries: row reduction, rank, determinant, inverse");
    reduce<double, 1, 1>(); reduce<double, 1, 3>(); reduce<double, 3, 1>(); reduce<double, 2, 2>(); reduce<double, 2, 3>(); reduce<double, 3, 2>(); reduce<float, 2, 2>(); reduce<double, 3, 3>();
    mc::sample("rref, rank, det and inverse of every 3x3 matrix over {-1.5, 0}");
}
#endif
int main(int argc, char **argv) { mc::init(argc, argv, "const_eval"); run(); return mc::finish(); }
