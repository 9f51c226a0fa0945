// C01..C09 for further scalar types: narrow and wide integers, float, long double, complex float / long double. The contents need the
// whole width of the type (a detour through int, float or double changes them) while every stated result stays exactly representable.
#include "blas.hpp"

template<typename T> T kconj(T x) { return x; }
template<typename R> std::complex<R> kconj(std::complex<R> x) { return {x.real(), -x.imag()}; }
template<typename T> struct is_cx : std::false_type { };
template<typename R> struct is_cx<std::complex<R>> : std::true_type { };

// distinct contents; mode 0 ascending, 1 descending, 2 mixed
template<typename T>
T wide(std::size_t k, int mode) {
    if constexpr (is_cx<T>::value) {
        using R = typename T::value_type;
        return T(wide<R>(k, mode), R(mode == 1 ? 1 : -1) * (wide<R>(k + 1, mode) - R(3)));
    } else {
        int d = mode == 0 ? int(k) : mode == 1 ? 40 - int(k) : int((k * 7 + 3) % 11) + int(k % 3);
        if constexpr (std::is_floating_point_v<T>) return T(std::ldexp(T(1), std::is_same_v<T, float> ? 12 : std::is_same_v<T, double> ? 40 : 55)) + T(d);
        else if constexpr (std::is_unsigned_v<T>) return T((T(1) << (sizeof(T) * 8 - 1)) + T(d) + T(1));
        else if constexpr (sizeof(T) == 8) return (T(1) << 54) + T(d);
        else if constexpr (sizeof(T) == 4) return (T(1) << 24) + T(d);
        else return T(d - 60);
    }
}
template<typename T>
T small(std::size_t k) {
    if constexpr (is_cx<T>::value) return T(typename T::value_type(int(k % 5) + 1), typename T::value_type(int(k % 3) - 1));
    else return T(int(k % 7) + 1);
}
template<typename T> std::ostream &put(std::ostream &o, const T &x) { if constexpr (sizeof(T) == 1) return o << int(x); else return o << x; }
template<typename T>
struct Ck {
    std::string tn;
    template<typename G> void is(const char *op, const G &got, const T &want, std::size_t n) const {
        static_assert(std::is_same_v<G, T>, "result type");
        if (!(got == want)) { std::ostringstream o; o.precision(25); o << tn << " " << op << " size " << n << " got "; put(o, got); o << " want "; put(o, want); mc::violation(mc::str("types:", op), o.str()); }
    }
    template<std::size_t N> void vec(const char *op, const vector<T, N> &g, const std::vector<T> &w) const {
        if (w.size() != N) std::abort();
        mc::step(op);
        for (std::size_t i = 0; i < N; ++i) is(op, T(g.array[i]), w[i], i);
    }
    template<std::size_t M, std::size_t N> void mat(const char *op, const matrix<T, M, N> &g, const std::vector<T> &w) const {
        if (w.size() != M * N) std::abort();
        mc::step(op);
        for (std::size_t i = 0; i < M * N; ++i) is(op, T(g.arrays[i / N][i % N]), w[i], i);
    }
};
template<typename T, std::size_t N>
vector<T, N> V(const std::vector<T> &v) { vector<T, N> r {}; for (std::size_t i = 0; i < N; ++i) r.array[i] = v[i]; return r; }
template<typename T, std::size_t M, std::size_t N>
matrix<T, M, N> A(const std::vector<T> &v) { matrix<T, M, N> r {}; for (std::size_t i = 0; i < M * N; ++i) r.arrays[i / N][i % N] = v[i]; return r; }
template<typename T, typename F>
std::vector<T> lst(std::size_t n, F f) { std::vector<T> r; for (std::size_t i = 0; i < n; ++i) r.push_back(T(f(i))); return r; }

template<typename T, std::size_t N>
void vectors(const Ck<T> &c) {
    for (int mode = 0; mode < 3; ++mode) for (int swap = 0; swap < 2; ++swap) {
        mc::state(); mc::trace();
        auto a = lst<T>(N, [&](std::size_t i) { return wide<T>(i, mode); }), b = lst<T>(N, [&](std::size_t i) { return small<T>(i + std::size_t(mode)); });
        const T s = swap ? wide<T>(2, mode) : small<T>(3);
        if (swap) std::swap(a, b);
        const auto va = V<T, N>(a), vb = V<T, N>(b);
#if PROP == 1
        c.vec("v+w", va + vb, lst<T>(N, [&](std::size_t i) { return T(a[i] + b[i]); }));
        c.vec("v*w", va * vb, lst<T>(N, [&](std::size_t i) { return T(a[i] * b[i]); }));
        c.vec("v/w", va / vb, lst<T>(N, [&](std::size_t i) { return T(a[i] / b[i]); }));
        const T t = swap ? s : small<T>(3);
        c.vec("v+s", va + t, lst<T>(N, [&](std::size_t i) { return T(a[i] + t); }));
        c.vec("s+v", t + va, lst<T>(N, [&](std::size_t i) { return T(t + a[i]); }));
        c.vec("v*s", va * t, lst<T>(N, [&](std::size_t i) { return T(a[i] * t); }));
        c.vec("s*v", t * va, lst<T>(N, [&](std::size_t i) { return T(t * a[i]); }));
        c.vec("s/v", t / vb, lst<T>(N, [&](std::size_t i) { return T(t / b[i]); }));
        c.vec("elementwise", elementwise([](T x, T y) { return T(x + y); }, va, vb), lst<T>(N, [&](std::size_t i) { return T(a[i] + b[i]); }));
        mc::step("==");
        if (!(va == va) || va != va) mc::violation("types:==", c.tn);
        for (std::size_t k = 0; k < N; ++k) { auto d = va; d.array[k] = T(d.array[k] + T(1)); if (va == d || !(va != d) || d == va || !(d != va)) mc::violation("types:==", mc::str(c.tn, " differing at ", k, " of ", N)); }
        c.vec("left operand afterwards", va, a); c.vec("right operand afterwards", vb, b);
        if constexpr (!is_cx<T>::value) {
            auto w = cast<long double>(va); mc::step("cast");
            for (std::size_t i = 0; i < N; ++i) if (!(w.array[i] == (long double)a[i])) mc::violation("types:cast", mc::str(c.tn, " to long double at ", i));
            if (!swap) { auto u = cast<std::uint8_t>(vb);
            for (std::size_t i = 0; i < N; ++i) if (u.array[i] != std::uint8_t(b[i])) mc::violation("types:cast", mc::str(c.tn, " to uint8 at ", i)); }
        }
#elif PROP == 2
        c.vec("fill", fill<N>(s), std::vector<T>(N, s));
        { std::vector<T> w; T x = s; for (std::size_t i = 0; i < N; ++i) { w.push_back(x); x = T(x + T(1)); } c.vec("iota", iota<N>(s), w); }
        for (int n : {0, 1, -1, int(N), -int(N) - 1, int(N) + 2, 1000003, -1000003}) c.vec("rotate", rotate(va, n), lst<T>(N, [&](std::size_t i) { long long k = (long long)i + n; k %= (long long)N; if (k < 0) k += (long long)N; return a[std::size_t(k)]; }));
        c.vec("concat", concat(va, vb), [&] { auto w = a; w.insert(w.end(), b.begin(), b.end()); return w; }());
        c.vec("slice", slice<1>(va, N - 1), {a[N - 1]});
        if constexpr (N > 1) c.vec("slice", slice<N - 1>(va, 1), std::vector<T>(a.begin() + 1, a.end()));
        c.vec("generate", generate<N>([&](std::size_t i) { return a[i]; }), a);
        if constexpr (N >= 3) { c.vec("make_vector", make_vector(a[0], a[1], a[2]), {a[0], a[1], a[2]}); vector d {a[0], b[1], a[2]}; c.vec("deduction", d, {a[0], b[1], a[2]}); }
        { std::size_t i = 0; mc::step("iteration"); auto q = va; for (auto &x : q) { (void)x; ++i; } c.is("iteration", T(i == N), T(true), N); auto m = va; i = 0; for (auto &x : m) x = b[i++]; c.vec("iteration", m, b); }
        if constexpr (std::is_floating_point_v<T> && N > 1) { auto l = linspace<N>(T(-2), T(-2) + T(int(N - 1))); c.vec("linspace", l, lst<T>(N, [&](std::size_t i) { return T(-2) + T(int(i)); })); }
#elif PROP == 3
        T w(0); for (auto &x : a) w = T(w + x);
        mc::step("sum"); c.is("sum", sum(va), w, N);
        mc::step("accumulate"); c.is("accumulate", accumulate(va, s, [](T x, T y) { return T(x + y); }), [&] { T r = s; for (auto &x : a) r = T(r + x); return r; }(), N);
        { T d(0); for (std::size_t i = 0; i < N; ++i) d = T(d + a[i] * kconj(b[i])); mc::step("dot"); c.is("dot", dot(va, vb), d, N); }
        c.vec("conj", conj(va), lst<T>(N, [&](std::size_t i) { return kconj(a[i]); }));
        if constexpr (!is_cx<T>::value) {
            mc::step("min/max");
            c.is("min", min(va), *std::min_element(a.begin(), a.end()), N); c.is("max", max(va), *std::max_element(a.begin(), a.end()), N);
            auto ix = [&](std::size_t g, std::size_t e, const char *op) { if (g != e) mc::violation(mc::str("types:", op), mc::str(c.tn, " got ", g, " want ", e)); };
            ix(min_index(va), std::size_t(std::min_element(a.begin(), a.end()) - a.begin()), "min_index"); ix(max_index(va), std::size_t(std::max_element(a.begin(), a.end()) - a.begin()), "max_index");
            c.vec("abs", abs(va), lst<T>(N, [&](std::size_t i) { return a[i] > 0 ? a[i] : T(-a[i]); }));
            if constexpr (std::is_signed_v<T>) c.vec("abs", abs(va * T(-1)), lst<T>(N, [&](std::size_t i) { T x = T(a[i] * T(-1)); return x > 0 ? x : T(-x); }));
        } else {
            using R = typename T::value_type; Ck<R> r {c.tn};
            r.vec("real", real(va), lst<R>(N, [&](std::size_t i) { return a[i].real(); })); r.vec("imag", imag(va), lst<R>(N, [&](std::size_t i) { return a[i].imag(); }));
        }
#endif
    }
}
template<typename T, std::size_t M, std::size_t N>
void matrices(const Ck<T> &c) {
    for (int mode = 0; mode < 3; ++mode) for (int swap = 0; swap < 2; ++swap) {
        mc::state(); mc::trace();
        auto a = lst<T>(M * N, [&](std::size_t i) { return wide<T>(i, mode); }), b = lst<T>(M * N, [&](std::size_t i) { return small<T>(i + std::size_t(mode)); });
        const T s = small<T>(3);
        if (swap) std::swap(a, b);
        const auto ma = A<T, M, N>(a), mb = A<T, M, N>(b);
        auto tr = [](const std::vector<T> &v) { return lst<T>(M * N, [&](std::size_t i) { return v[(i % M) * N + i / M]; }); };
        (void)tr;
#if PROP == 4
        c.mat("transpose", transpose(ma), tr(a));
        for (std::size_t i = 0; i < M; ++i) c.vec("row", ma.row(i), lst<T>(N, [&](std::size_t j) { return a[i * N + j]; }));
        for (std::size_t j = 0; j < N; ++j) c.vec("column", ma.column(j), lst<T>(M, [&](std::size_t i) { return a[i * N + j]; }));
        c.mat("vertcat", vertcat(ma, mb), [&] { auto w = a; w.insert(w.end(), b.begin(), b.end()); return w; }());
        c.mat("horzcat", horzcat(ma, mb), lst<T>(2 * M * N, [&](std::size_t i) { std::size_t r = i / (2 * N), k = i % (2 * N); return k < N ? a[r * N + k] : b[r * N + k - N]; }));
        c.mat("reshape", reshape<N, M>(ma), a);
        c.mat("repmat", repmat<2, 3>(ma), lst<T>(6 * M * N, [&](std::size_t i) { return a[(i / (3 * N)) % M * N + (i % (3 * N)) % N]; }));
        for (std::size_t i = 0; i < M; ++i) for (std::size_t j = 0; j < M; ++j) c.mat("swaprow", swaprow(ma, i, j), lst<T>(M * N, [&](std::size_t k) { std::size_t r = k / N; return a[(r == i ? j : r == j ? i : r) * N + k % N]; }));
        for (std::size_t i = 0; i < N; ++i) for (std::size_t j = 0; j < N; ++j) c.mat("swapcol", swapcol(ma, i, j), lst<T>(M * N, [&](std::size_t k) { std::size_t q = k % N; return a[k / N * N + (q == i ? j : q == j ? i : q)]; }));
        for (std::size_t i = 0; i < M; ++i) for (std::size_t j = 0; j < N; ++j) c.mat("submat", submat<1, 1>(ma, i, j), {a[i * N + j]});
        c.mat("fill", fill<M, N>(a[0]), std::vector<T>(M * N, a[0]));
        c.mat("generate", generate<M, N>([&](std::size_t i, std::size_t j) { return a[i * N + j]; }), a);
        c.mat("identity", identity<T, N>, lst<T>(N * N, [](std::size_t i) { return T(i / N == i % N ? 1 : 0); })); c.mat("get_identity", get_identity<T, N>(), lst<T>(N * N, [](std::size_t i) { return T(i / N == i % N ? 1 : 0); }));
        c.mat("as_row", as_row(ma.row(0)), std::vector<T>(a.begin(), a.begin() + N)); c.mat("as_column", as_column(ma.row(0)), std::vector<T>(a.begin(), a.begin() + N));
#elif PROP == 5
        auto ew = [&](auto f) { return lst<T>(M * N, f); };
        c.mat("A+B", ma + mb, ew([&](std::size_t i) { return T(a[i] + b[i]); })); c.mat("A*B", ma * mb, ew([&](std::size_t i) { return T(a[i] * b[i]); })); c.mat("A/B", ma / mb, ew([&](std::size_t i) { return T(a[i] / b[i]); }));
        c.mat("A+s", ma + s, ew([&](std::size_t i) { return T(a[i] + s); })); c.mat("s+A", s + ma, ew([&](std::size_t i) { return T(s + a[i]); })); c.mat("A*s", ma * s, ew([&](std::size_t i) { return T(a[i] * s); }));
        c.mat("s*A", s * ma, ew([&](std::size_t i) { return T(s * a[i]); })); c.mat("s/A", s / mb, ew([&](std::size_t i) { return T(s / b[i]); }));
        c.mat("conj", conj(ma), ew([&](std::size_t i) { return kconj(a[i]); }));
        { auto t = tr(a); for (auto &x : t) x = kconj(x); c.mat("hermitian", hermitian(ma), t); }
        c.mat("left operand afterwards", ma, a); c.mat("right operand afterwards", mb, b);
        mc::step("==");
        if (!(ma == ma) || ma != ma) mc::violation("types:mat==", c.tn);
        for (std::size_t k = 0; k < M * N; ++k) { auto d = ma; d.arrays[k / N][k % N] = T(d.arrays[k / N][k % N] + T(1)); if (ma == d || !(ma != d) || d == ma || !(d != ma)) mc::violation("types:mat==", mc::str(c.tn, " differing at ", k, " of ", M, "x", N)); }
        if constexpr (is_cx<T>::value) {
            using R = typename T::value_type; Ck<R> r {c.tn};
            r.mat("real", real(ma), lst<R>(M * N, [&](std::size_t i) { return a[i].real(); })); r.mat("imag", imag(ma), lst<R>(M * N, [&](std::size_t i) { return a[i].imag(); }));
        } else {
            auto w = cast<long double>(ma); mc::step("cast");
            for (std::size_t i = 0; i < M * N; ++i) if (!(w.arrays[i / N][i % N] == (long double)a[i])) mc::violation("types:mat-cast", mc::str(c.tn, " to long double at ", i));
        }
#elif PROP == 6
        const auto mt = A<T, N, M>(b);    // N x M
        c.mat("matmul", matmul(ma, mt), lst<T>(M * M, [&](std::size_t i) { T r(0); for (std::size_t k = 0; k < N; ++k) r = T(r + T(a[i / M * N + k] * b[k * M + i % M])); return r; }));
        c.vec("matvectmul", matvectmul(ma, mb.row(0)), lst<T>(M, [&](std::size_t i) { T r(0); for (std::size_t k = 0; k < N; ++k) r = T(r + T(a[i * N + k] * b[k])); return r; }));
        c.vec("vectmatmul", vectmatmul(ma.column(0), mb), lst<T>(N, [&](std::size_t j) { T r(0); for (std::size_t k = 0; k < M; ++k) r = T(r + T(a[k * N] * b[k * N + j])); return r; }));
        if constexpr (M * N <= 6) c.mat("kron", kron(ma, mt), lst<T>(M * N * N * M, [&](std::size_t i) { std::size_t r = i / (N * M), q = i % (N * M); return T(a[r / N * N + q / M] * b[r % N * M + q % M]); }));
#elif PROP == 9
        if constexpr (M == N) { T r(0); for (std::size_t i = 0; i < N; ++i) r = T(r + a[i * N + i]); mc::step("trace"); c.is("trace", trace(ma), r, N); }
        if constexpr (!is_cx<T>::value) {
            // norms of both signs (sums of absolute values)
            for (int neg = 0; neg < (std::is_signed_v<T> ? 2 : 1); ++neg) {
                auto v = a; if (neg) for (std::size_t i = 0; i < v.size(); i += 2) v[i] = T(v[i] * T(-1));
                auto m = A<T, M, N>(v); auto ab = [](T x) { return x > 0 ? x : T(-x); };
                T cs(0), rs(0); bool f = true;
                for (std::size_t j = 0; j < N; ++j) { T r(0); for (std::size_t i = 0; i < M; ++i) r = T(r + ab(v[i * N + j])); if (f || r > cs) cs = r; f = false; }
                f = true;
                for (std::size_t i = 0; i < M; ++i) { T r(0); for (std::size_t j = 0; j < N; ++j) r = T(r + ab(v[i * N + j])); if (f || r > rs) rs = r; f = false; }
                mc::step("macs"); c.is("macs", macs(m), cs, M * N); mc::step("mars"); c.is("mars", mars(m), rs, M * N);
            }
        }
#endif
    }
}
#if PROP == 7 || PROP == 8
// solving in float and long double: every content over a small alphabet, at several scales, within that type's own rounding
template<typename T>
struct Solve {
    typedef std::vector<T> L;
    // exact answer over integers scaled by the common factor: rank and determinant by fraction-free elimination
    static std::size_t rank_det(std::vector<__int128> m, std::size_t r, std::size_t c, __int128 &det) {
        std::size_t k = 0; __int128 prev = 1; int sg = 1;
        for (std::size_t j = 0; j < c && k < r; ++j) {
            std::size_t p = k; while (p < r && m[p * c + j] == 0) ++p;
            if (p == r) continue;
            if (p != k) { sg = -sg; for (std::size_t q = 0; q < c; ++q) std::swap(m[p * c + q], m[k * c + q]); }
            for (std::size_t i = k + 1; i < r; ++i) { for (std::size_t q = j + 1; q < c; ++q) m[i * c + q] = (m[i * c + q] * m[k * c + j] - m[i * c + j] * m[k * c + q]) / prev; m[i * c + j] = 0; }
            prev = m[k * c + j]; ++k;
        }
        det = k == r ? sg * prev : 0;
        return k;
    }
    template<std::size_t R, std::size_t C> static void run(const Ck<T> &c, const std::vector<int> &al, T scale) {
        const T eps = std::numeric_limits<T>::epsilon();
        all_assignments<int>(R * C, al, [&](const std::vector<int> &v) {
            if (!mc::mine()) return;
            mc::state(); mc::trace();
            std::vector<__int128> z(v.begin(), v.end()); __int128 d = 0;
            const std::size_t rk = rank_det(z, R, C, d);
            auto m = A<T, R, C>(lst<T>(R * C, [&](std::size_t i) { return T(v[i]) * scale; }));
            auto show = [&] { std::ostringstream o; o << c.tn << " " << R << "x" << C << " scale " << scale << ":"; for (int x : v) o << " " << x; return o.str(); };
#if PROP == 7
            mc::step("rank"); if (rank(m) != rk) mc::violation("types:rank", mc::str(show(), " got ", rank(m), " want ", rk));
            mc::step("rref"); auto g = rref(m);
            // reduced: pivots are one and alone in their column, and the rows span the rows of m
            std::size_t row = 0; std::vector<std::size_t> piv;
            for (std::size_t i = 0; i < R; ++i) { std::size_t j = 0; while (j < C && std::abs(g.arrays[i][j]) <= 64 * eps) ++j; if (j == C) continue; if (i != row || (!piv.empty() && j <= piv.back())) mc::violation("types:rref", mc::str(show(), " is not in echelon form")); piv.push_back(j); ++row; }
            if (piv.size() != rk) mc::violation("types:rref", mc::str(show(), " has ", piv.size(), " pivots"));
            else for (std::size_t i = 0; i < R; ++i) for (std::size_t j = 0; j < C; ++j) {
                T w = 0; for (std::size_t k = 0; k < rk; ++k) w += T(v[i * C + piv[k]]) * g.arrays[k][j];
                if (!(std::abs(w - T(v[i * C + j])) <= 256 * eps)) { mc::violation("types:rref", mc::str(show(), " row ", i, " is not the stated combination")); return; }
            }
            for (std::size_t k = 0; k < piv.size(); ++k) for (std::size_t i = 0; i < R; ++i) if (!(std::abs(g.arrays[i][piv[k]] - T(i == k)) <= 64 * eps)) { mc::violation("types:rref", mc::str(show(), " column ", piv[k])); return; }
#else
            if constexpr (R == C) {
                T sd = 1; for (std::size_t i = 0; i < R; ++i) sd *= scale;
                mc::step("det"); const T got = det(m); if (!(std::abs(got / sd - T((long long)d)) <= 256 * eps * (1 + std::abs(T((long long)d))))) mc::violation("types:det", mc::str(show(), " got ", got, " want ", (long long)d, " at scale"));
                mc::step("inverse");
                try {
                    auto g = inverse(m);
                    if (rk < R) { mc::violation("types:inverse-singular", show()); return; }
                    for (std::size_t i = 0; i < R; ++i) for (std::size_t j = 0; j < R; ++j) { T w = 0, u = 0; for (std::size_t k = 0; k < R; ++k) { w += T(v[i * R + k]) * (g.arrays[k][j] * scale); u += (g.arrays[i][k] * scale) * T(v[k * R + j]); } if (!(std::abs(w - T(i == j)) <= 512 * eps) || !(std::abs(u - T(i == j)) <= 512 * eps)) { mc::violation("types:inverse", mc::str(show(), " cell ", i, ",", j)); return; } }
                } catch (const char *) { if (rk == R) mc::violation("types:inverse-throws", show()); }
            }
#endif
        });
    }
    static void all(const Ck<T> &c) {
        for (T s : {T(1), T(3), T(std::ldexp(T(1), -20)), T(std::ldexp(T(1), 20)), std::is_same_v<T, float> ? T(1e-8f) : T(1e-60L)}) {
            run<1, 1>(c, {-3, -1, 0, 1, 2, 7}, s); run<2, 2>(c, {-3, -1, 0, 1, 2}, s); run<3, 3>(c, {-1, 0, 2}, s);
#if PROP == 7
            run<1, 3>(c, {-3, 0, 1}, s); run<3, 1>(c, {-3, 0, 1}, s); run<2, 3>(c, {-1, 0, 1, 2}, s); run<3, 2>(c, {-1, 0, 1, 2}, s); run<4, 2>(c, {-1, 0, 2}, s);
#endif
            if (mc::thorough) run<3, 3>(c, {-2, 0, 1, 3}, s), run<4, 4>(c, {0, 1}, s);
        }
    }
};
#endif

template<typename T>
void types(const char *n) {
    mc::ScopedSpace sp(mc::str("contents that need the whole width of ", n));
    Ck<T> c {n};
#if PROP <= 3
    for_sizes(std::index_sequence<1, 2, 3, 5, 8, 9> {}, [&](auto k) { vectors<T, decltype(k)::value>(c); });
#elif PROP == 7 || PROP == 8
    if constexpr (std::is_same_v<T, float> || std::is_same_v<T, long double>) Solve<T>::all(c);
#else
    for_shapes(Shapes<Shape<1, 1>, Shape<1, 3>, Shape<3, 1>, Shape<2, 2>, Shape<2, 3>, Shape<3, 2>, Shape<3, 3>, Shape<2, 4>> {}, [&](auto sh) { using S = decltype(sh); matrices<T, S::r, S::c>(c); });
#endif
    mc::sample(mc::str(n, ": all listed sizes, three content patterns"));
}
int main(int argc, char **argv) {
    mc::init(argc, argv, mc::str("scalar types, property ", PROP).c_str());
    mc::hang_limit_s = 30;
#if PROP == 7 || PROP == 8
    types<float>("float"); types<long double>("long double");
#else
    types<std::int8_t>("int8_t"); types<std::uint8_t>("uint8_t"); types<short>("short"); types<unsigned short>("unsigned short"); types<int>("int"); types<unsigned>("unsigned");
    types<std::int64_t>("int64_t"); types<std::uint64_t>("uint64_t"); types<float>("float"); types<double>("double"); types<long double>("long double");
    types<std::complex<float>>("complex<float>"); types<std::complex<double>>("complex<double>"); types<std::complex<long double>>("complex<long double>");
#endif
    return mc::finish();
}
