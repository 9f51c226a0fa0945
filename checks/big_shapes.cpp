// C01..C09 at sizes beyond 8 and 16 bit index ranges and beyond common block/unroll widths:
// every cell of the result against the model, for tagged contents and for single-cell changes at every boundary position.
#include "blas.hpp"
#include <pthread.h>

using Long = std::index_sequence<251, 255, 256, 257, 259, 511, 512, 513, 1000, 1023, 1025, 4099>;
using Huge = std::index_sequence<32767, 32768, 32769, 65535, 65536, 65537>;

std::vector<std::size_t> marks(std::size_t n) {
    std::set<std::size_t> s;
    for (std::size_t b : {std::size_t(0), std::size_t(8), std::size_t(16), std::size_t(32), std::size_t(64), std::size_t(128), std::size_t(256), std::size_t(512), std::size_t(1024), std::size_t(32768), std::size_t(65536), n / 2, n})
        for (long d = -2; d <= 2; ++d)
            if (long(b) + d >= 0 && long(b) + d < long(n)) s.insert(std::size_t(long(b) + d));
    return {s.begin(), s.end()};
}
template<typename T, std::size_t N, typename F>
void eqv(const char *op, const vector<T, N> &got, F want, const std::string &ctx = "") {
    for (std::size_t i = 0; i < N; ++i)
        if (!(got.array[i] == want(i))) { mc::violation(std::string("big:") + op, mc::str("N=", N, " ", ctx, " element ", i, " got ", got.array[i], " want ", want(i))); return; }
}
template<typename T, std::size_t R, std::size_t C, typename F>
void eqm(const char *op, const matrix<T, R, C> &got, F want, const std::string &ctx = "") {
    for (std::size_t i = 0; i < R; ++i) for (std::size_t j = 0; j < C; ++j)
        if (!(got.arrays[i][j] == want(i, j))) { mc::violation(std::string("big:") + op, mc::str(R, "x", C, " ", ctx, " cell ", i, ",", j, " got ", got.arrays[i][j], " want ", want(i, j))); return; }
}
inline int A(std::size_t i) { return int((i * 7 + i / 251 * 3) % 1009) + 1; }
inline int B(std::size_t i) { return int((i * 13 + i / 127 * 5 + 4) % 977) - 480; }
inline int MA(std::size_t i, std::size_t j) { return A(i * 67 + j * 3 + (i ^ j)); }
inline int MB(std::size_t i, std::size_t j) { return B(i * 5 + j * 71 + (i ^ j)); }

template<typename T, std::size_t N>
void fillv(vector<T, N> &a, int (*f)(std::size_t)) { for (std::size_t i = 0; i < N; ++i) a.array[i] = T(f(i)); }
template<typename T, std::size_t R, std::size_t C>
void fillm(matrix<T, R, C> &a, int (*f)(std::size_t, std::size_t)) { for (std::size_t i = 0; i < R; ++i) for (std::size_t j = 0; j < C; ++j) a.arrays[i][j] = T(f(i, j)); }

#if PROP == 1
template<typename T, std::size_t N>
void vec1() {
    static vector<T, N> a {}, b {};
    fillv(a, A); fillv(b, B);
    mc::state(); mc::trace();
    mc::step("operators");
    eqv("v+v", a + b, [](std::size_t i) { return T(A(i)) + T(B(i)); });
    eqv("v*v", a * b, [](std::size_t i) { return T(A(i)) * T(B(i)); });
    eqv("v/v", b / a, [](std::size_t i) { return T(B(i)) / T(A(i)); });
    eqv("v+s", a + T(5), [](std::size_t i) { return T(A(i)) + T(5); });
    eqv("s+v", T(5) + a, [](std::size_t i) { return T(A(i)) + T(5); });
    eqv("v*s", a * T(3), [](std::size_t i) { return T(A(i)) * T(3); });
    eqv("s*v", T(3) * a, [](std::size_t i) { return T(A(i)) * T(3); });
    eqv("s/v", T(20160) / a, [](std::size_t i) { return T(20160) / T(A(i)); });
    eqv("elementwise", elementwise([](T x, T y) { return T(x + y + y); }, a, b), [](std::size_t i) { return T(A(i)) + T(B(i)) + T(B(i)); });
    eqv("abs", abs(b), [](std::size_t i) { return B(i) < 0 ? T(-B(i)) : T(B(i)); });
    mc::step("comparison");
    MC_CHECK(a == a && !(a != a), "big:v==v", "N=", N);
    static vector<T, N> c {};
    c = a;
    for (std::size_t k : marks(N)) {
        mc::state();
        c.array[k] = c.array[k] + T(1);
        MC_CHECK(!(a == c) && (a != c) && !(c == a), "big:v!=v", "N=", N, " differ only at ", k);
        c.array[k] = a.array[k];
    }
}
// complex contents, Gaussian integers: exact
template<std::size_t N>
void cvec1() {
    typedef std::complex<double> Z;
    static vector<Z, N> a {}, b {};
    auto za = [](std::size_t i) { return Z(A(i) % 31, B(i) % 23); };
    auto zb = [](std::size_t i) { return Z(B(i) % 29, A(i) % 19 + 1); };
    for (std::size_t i = 0; i < N; ++i) { a.array[i] = za(i); b.array[i] = zb(i); }
    mc::state(); mc::trace();
    mc::step("complex operators");
    eqv("v+v", a + b, [&](std::size_t i) { return za(i) + zb(i); });
    eqv("v*v", a * b, [&](std::size_t i) { return za(i) * zb(i); });
    eqv("v*s", a * Z(2, 3), [&](std::size_t i) { return za(i) * Z(2, 3); });
    eqv("s*v", Z(2, 3) * a, [&](std::size_t i) { return Z(2, 3) * za(i); });
    eqv("v+s", a + Z(2, 3), [&](std::size_t i) { return za(i) + Z(2, 3); });
    eqv("conj", conj(a), [&](std::size_t i) { return std::conj(za(i)); });
    eqv("real", real(a), [&](std::size_t i) { return za(i).real(); });
    eqv("imag", imag(a), [&](std::size_t i) { return za(i).imag(); });
    mc::step("complex comparison");
    static vector<Z, N> c {};
    c = a;
    MC_CHECK(a == c && !(a != c), "big:v==v", "N=", N);
    for (std::size_t k : marks(N)) for (Z dz : {Z(1, 0), Z(0, 1)}) {
        mc::state();
        c.array[k] = a.array[k] + dz;
        MC_CHECK(!(a == c) && (a != c) && !(c == a), "big:v!=v", "N=", N, " complex, differ only at ", k);
        c.array[k] = a.array[k];
    }
}
#elif PROP == 2
template<typename T, std::size_t N>
void vec2() {
    static vector<T, N> a {};
    fillv(a, A);
    mc::state(); mc::trace();
    mc::step("constructors");
    eqv("generate", generate<N>([](std::size_t i) { return T(A(i)); }), [](std::size_t i) { return T(A(i)); });
    eqv("fill", fill<N>(T(7)), [](std::size_t) { return T(7); });
    eqv("iota", iota<N>(T(3)), [](std::size_t i) { return T(3) + T(int(i)); });
    eqv("cast", cast<long>(a), [](std::size_t i) { return long(A(i)); });
    if constexpr (std::is_same_v<T, double>) {
        auto l = linspace<N>(T(0), T(double(N - 1)));
        for (std::size_t i = 0; i < N; ++i) if (std::abs(l.array[i] - double(i)) > 1e-9 * double(N)) { mc::violation("big:linspace", mc::str("N=", N, " i=", i, " got ", l.array[i])); break; }
    }
    mc::step("access");
    std::size_t n = 0;
    bool ok = true;
    for (auto &x : a) { ok = ok && x == T(A(n)); ++n; }
    MC_CHECK(ok && n == N, "big:iterate", "N=", N, " visited ", n);
    for (std::size_t k : marks(N)) MC_CHECK(a[k] == T(A(k)), "big:index", "N=", N, " at ", k);
    for (int s : {0, 1, -1, 127, -128, 128, 255, 256, -256, 257, 65535, -65536, 65537, int(N), -int(N), int(N) - 1, 1 - int(N), int(N) + 1}) {
        mc::state();
        mc::step("rotate");
        long long m = ((long long)s % (long long)N + (long long)N) % (long long)N;
        eqv("rotate", rotate(a, s), [&](std::size_t i) { return T(A((i + std::size_t(m)) % N)); }, mc::str("n=", s));
    }
    mc::step("slice, concat");
    auto sl = [&](auto mm) {
        constexpr std::size_t M = decltype(mm)::value;
        if constexpr (M <= N)
            for (std::size_t k : marks(N - M + 1)) { mc::state(); eqv("slice", slice<M>(a, k), [&](std::size_t i) { return T(A(k + i)); }, mc::str("of ", N, " start ", k)); }
        static vector<T, M> b {};
        fillv(b, B);
        eqv("concat", concat(a, b), [](std::size_t i) { return i < N ? T(A(i)) : T(B(i - N)); }, mc::str(N, "+", M));
        eqv("concat", concat(b, a), [](std::size_t i) { return i < M ? T(B(i)) : T(A(i - M)); }, mc::str(M, "+", N));
    };
    for_sizes(std::index_sequence<1, 5, 128, 256, 257> {}, sl);
}
#elif PROP == 3
template<typename T, std::size_t N>
void vec3() {
    static vector<T, N> a {}, b {};
    fillv(a, A); fillv(b, B);
    mc::state(); mc::trace();
    long long s = 0, d = 0;
    std::size_t in = 0, ix = 0;
    for (std::size_t i = 0; i < N; ++i) { s += A(i); d += (long long)A(i) % 31 * (B(i) % 29); if (B(i) < B(in)) in = i; if (B(i) > B(ix)) ix = i; }
    mc::step("sum");
    MC_CHECK(sum(a) == T(s), "big:sum", "N=", N, " got ", sum(a), " want ", s);
    static vector<T, N> p {}, q {};
    for (std::size_t i = 0; i < N; ++i) { p.array[i] = T(A(i) % 31); q.array[i] = T(B(i) % 29); }
    mc::step("dot");
    MC_CHECK(dot(p, q) == T(d), "big:dot", "N=", N, " got ", dot(p, q), " want ", d);
    mc::step("extrema");
    MC_CHECK(min(b) == T(B(in)) && max(b) == T(B(ix)), "big:minmax", "N=", N, " got ", min(b), " ", max(b));
    MC_CHECK(min_index(b) == in && max_index(b) == ix, "big:index", "N=", N, " got ", min_index(b), " ", max_index(b), " want ", in, " ", ix);
    mc::step("accumulate");
    // position-dependent fold: order and number of elements both matter
    std::uint64_t w = 5;
    for (std::size_t i = 0; i < N; ++i) w = w * 1000003u + std::uint64_t(A(i));
    MC_CHECK((accumulate(a, std::uint64_t(5), [](std::uint64_t r, T x) { return r * 1000003u + std::uint64_t(x); })) == w, "big:accumulate", "N=", N);
    static vector<T, N> z {}, o {};
    for (std::size_t i = 0; i < N; ++i) { z.array[i] = T(0); o.array[i] = T(1); }
    for (std::size_t k : marks(N)) {
        mc::state();
        z.array[k] = T(9);
        MC_CHECK(sum(z) == T(9) && dot(z, o) == T(9) && dot(o, z) == T(9), "big:sum-unit", "N=", N, " unit at ", k, " sum ", sum(z), " dot ", dot(z, o));
        MC_CHECK(max(z) == T(9) && max_index(z) == k && min(z) == (N > 1 ? T(0) : T(9)) && min_index(z) == (k == 0 ? 1u : 0u), "big:max-at", "N=", N, " at ", k, " got ", max_index(z));
        z.array[k] = T(-9);
        MC_CHECK(min(z) == T(-9) && min_index(z) == k && max(z) == T(0) && max_index(z) == (k == 0 ? 1u : 0u), "big:min-at", "N=", N, " at ", k, " got ", min_index(z));
        z.array[k] = T(0);
    }
}
// complex contents: dot conjugates its right operand at every index, sum and accumulate keep both parts
template<std::size_t N>
void cvec3() {
    typedef std::complex<double> Z;
    static vector<Z, N> a {}, b {};
    auto za = [](std::size_t i) { return Z(A(i) % 31, B(i) % 23); };
    auto zb = [](std::size_t i) { return Z(B(i) % 29, A(i) % 19 + 1); };
    Z s = 0, d = 0, e = 0;
    for (std::size_t i = 0; i < N; ++i) { a.array[i] = za(i); b.array[i] = zb(i); s += za(i); d += za(i) * std::conj(zb(i)); e += zb(i) * std::conj(za(i)); }
    mc::state(); mc::trace();
    mc::step("complex dot and sum");
    MC_CHECK(sum(a) == s, "big:sum-complex", "N=", N, " got ", sum(a), " want ", s);
    MC_CHECK(dot(a, b) == d && dot(b, a) == e, "big:dot-complex", "N=", N, " got ", dot(a, b), " want ", d);
    static vector<Z, N> z {}, o {};
    for (std::size_t i = 0; i < N; ++i) { z.array[i] = Z(0); o.array[i] = Z(2, 5); }
    for (std::size_t k : marks(N)) {
        mc::state();
        z.array[k] = Z(3, 7);
        MC_CHECK(sum(z) == Z(3, 7) && dot(z, o) == Z(3, 7) * Z(2, -5) && dot(o, z) == Z(2, 5) * Z(3, -7), "big:dot-complex-unit", "N=", N, " unit at ", k, " got ", dot(z, o), " ", dot(o, z));
        z.array[k] = Z(0);
    }
}
#elif PROP == 4
template<typename T, std::size_t R, std::size_t C>
void mat4() {
    static matrix<T, R, C> a {};
    fillm(a, MA);
    mc::state(); mc::trace();
    mc::step("constructors");
    eqm("generate", (generate<R, C>([](std::size_t i, std::size_t j) { return T(MA(i, j)); })), [](std::size_t i, std::size_t j) { return T(MA(i, j)); });
    eqm("fill", (fill<R, C>(T(7))), [](std::size_t, std::size_t) { return T(7); });
    if constexpr (R == C) {
        eqm("identity", get_identity<T, R>(), [](std::size_t i, std::size_t j) { return T(i == j ? 1 : 0); });
        if constexpr (R < 40) eqm("identity", identity<T, R>, [](std::size_t i, std::size_t j) { return T(i == j ? 1 : 0); });
    }
    eqm("transpose", transpose(a), [](std::size_t i, std::size_t j) { return T(MA(j, i)); });
    mc::step("rows and columns");
    for (std::size_t k : marks(R)) { mc::state(); eqv("row", a.row(k), [&](std::size_t j) { return T(MA(k, j)); }, mc::str("of ", R, "x", C, " row ", k)); for (std::size_t j : marks(C)) MC_CHECK(a[k][j] == T(MA(k, j)), "big:index", R, "x", C, " ", k, ",", j); }
    for (std::size_t k : marks(C)) { mc::state(); eqv("column", a.column(k), [&](std::size_t i) { return T(MA(i, k)); }, mc::str("of ", R, "x", C, " column ", k)); }
    mc::step("swaps");
    for (std::size_t k : {std::size_t(0), R / 2, R - 1}) for (std::size_t l : {std::size_t(0), R / 3, R - 1}) {
        mc::state();
        eqm("swaprow", swaprow(a, k, l), [&](std::size_t i, std::size_t j) { return T(MA(i == k ? l : i == l ? k : i, j)); }, mc::str("rows ", k, ",", l));
    }
    for (std::size_t k : {std::size_t(0), C / 2, C - 1}) for (std::size_t l : {std::size_t(0), C / 3, C - 1}) {
        mc::state();
        eqm("swapcol", swapcol(a, k, l), [&](std::size_t i, std::size_t j) { return T(MA(i, j == k ? l : j == l ? k : j)); }, mc::str("columns ", k, ",", l));
    }
    mc::step("assembling");
    static matrix<T, R, 3> h {};
    static matrix<T, 3, C> v {};
    fillm(h, MB); fillm(v, MB);
    eqm("horzcat", horzcat(a, h), [](std::size_t i, std::size_t j) { return j < C ? T(MA(i, j)) : T(MB(i, j - C)); });
    eqm("horzcat", horzcat(h, a), [](std::size_t i, std::size_t j) { return j < 3 ? T(MB(i, j)) : T(MA(i, j - 3)); });
    eqm("vertcat", vertcat(a, v), [](std::size_t i, std::size_t j) { return i < R ? T(MA(i, j)) : T(MB(i - R, j)); });
    eqm("vertcat", vertcat(v, a), [](std::size_t i, std::size_t j) { return i < 3 ? T(MB(i, j)) : T(MA(i - 3, j)); });
    eqm("repmat", (repmat<2, 3>(a)), [](std::size_t i, std::size_t j) { return T(MA(i % R, j % C)); });
    eqm("repmat", (repmat<3, 1>(a)), [](std::size_t i, std::size_t j) { return T(MA(i % R, j % C)); });
    constexpr std::size_t P = (R + 1) / 2, Q = (C + 1) / 2;
    for (std::size_t k : marks(R - P + 1)) for (std::size_t l : marks(C - Q + 1)) {
        mc::state();
        eqm("submat", (submat<P, Q>(a, k, l)), [&](std::size_t i, std::size_t j) { return T(MA(k + i, l + j)); }, mc::str("at ", k, ",", l));
    }
    auto rs = [&](auto shape) {
        using S = decltype(shape);
        if constexpr (S::r * S::c == R * C)
            eqm("reshape", (reshape<S::r, S::c>(a)), [](std::size_t i, std::size_t j) { std::size_t x = i * S::c + j; return T(MA(x / C, x % C)); }, mc::str("from ", R, "x", C));
    };
    rs(Shape<1, R * C> {}); rs(Shape<R * C, 1> {}); rs(Shape<C, R> {});
    if constexpr (R % 2 == 0) rs(Shape<R / 2, C * 2> {});
    if constexpr (C % 2 == 0) rs(Shape<R * 2, C / 2> {});
    if constexpr (R % 3 == 0) rs(Shape<R / 3, C * 3> {});
    static vector<T, R * C> w {};
    fillv(w, A);
    eqm("as_column", as_column(w), [](std::size_t i, std::size_t) { return T(A(i)); });
    eqm("as_row", as_row(w), [](std::size_t, std::size_t j) { return T(A(j)); });
    if constexpr (R * C < 2000) {
        static matrix<std::complex<double>, R, C> z {};
        for (std::size_t i = 0; i < R; ++i) for (std::size_t j = 0; j < C; ++j) z.arrays[i][j] = {double(MA(i, j)), double(MB(i, j))};
        mc::step("complex parts");
        eqm("conj", conj(z), [](std::size_t i, std::size_t j) { return std::complex<double>(MA(i, j), -MB(i, j)); });
        eqm("hermitian", hermitian(z), [](std::size_t i, std::size_t j) { return std::complex<double>(MA(j, i), -MB(j, i)); });
        eqm("real", real(z), [](std::size_t i, std::size_t j) { return double(MA(i, j)); });
        eqm("imag", imag(z), [](std::size_t i, std::size_t j) { return double(MB(i, j)); });
    }
}
#elif PROP == 5
template<typename T, std::size_t R, std::size_t C>
void mat5() {
    static matrix<T, R, C> a {}, b {};
    fillm(a, MA); fillm(b, MB);
    mc::state(); mc::trace();
    mc::step("operators");
    eqm("m+m", a + b, [](std::size_t i, std::size_t j) { return T(MA(i, j)) + T(MB(i, j)); });
    eqm("m*m", a * b, [](std::size_t i, std::size_t j) { return T(MA(i, j)) * T(MB(i, j)); });
    eqm("m/m", b / a, [](std::size_t i, std::size_t j) { return T(MB(i, j)) / T(MA(i, j)); });
    eqm("m+s", a + T(5), [](std::size_t i, std::size_t j) { return T(MA(i, j)) + T(5); });
    eqm("s+m", T(5) + a, [](std::size_t i, std::size_t j) { return T(MA(i, j)) + T(5); });
    eqm("m*s", a * T(3), [](std::size_t i, std::size_t j) { return T(MA(i, j)) * T(3); });
    eqm("s*m", T(3) * a, [](std::size_t i, std::size_t j) { return T(MA(i, j)) * T(3); });
    eqm("s/m", T(20160) / a, [](std::size_t i, std::size_t j) { return T(20160) / T(MA(i, j)); });
    eqm("elementwise", elementwise([](T x, T y) { return T(x + y + y); }, a, b), [](std::size_t i, std::size_t j) { return T(MA(i, j)) + T(MB(i, j)) + T(MB(i, j)); });
    eqm("cast", cast<long>(a), [](std::size_t i, std::size_t j) { return long(MA(i, j)); });
    mc::step("comparison");
    MC_CHECK(a == a && !(a != a), "big:m==m", R, "x", C);
    static matrix<T, R, C> c {};
    c = a;
    for (std::size_t k : marks(R)) for (std::size_t l : marks(C)) {
        mc::state();
        c.arrays[k][l] = c.arrays[k][l] + T(1);
        MC_CHECK(!(a == c) && (a != c) && !(c == a), "big:m!=m", R, "x", C, " differ only at ", k, ",", l);
        c.arrays[k][l] = a.arrays[k][l];
    }
}
template<std::size_t R, std::size_t C>
void cmat5() {
    typedef std::complex<double> Z;
    static matrix<Z, R, C> a {}, b {};
    auto za = [](std::size_t i, std::size_t j) { return Z(MA(i, j) % 31, MB(i, j) % 23); };
    auto zb = [](std::size_t i, std::size_t j) { return Z(MB(i, j) % 29, MA(i, j) % 19 + 1); };
    for (std::size_t i = 0; i < R; ++i) for (std::size_t j = 0; j < C; ++j) { a.arrays[i][j] = za(i, j); b.arrays[i][j] = zb(i, j); }
    mc::state(); mc::trace();
    mc::step("complex operators");
    eqm("m+m", a + b, [&](std::size_t i, std::size_t j) { return za(i, j) + zb(i, j); });
    eqm("m*m", a * b, [&](std::size_t i, std::size_t j) { return za(i, j) * zb(i, j); });
    eqm("m*s", a * Z(2, 3), [&](std::size_t i, std::size_t j) { return za(i, j) * Z(2, 3); });
    eqm("s*m", Z(2, 3) * a, [&](std::size_t i, std::size_t j) { return Z(2, 3) * za(i, j); });
    eqm("m+s", a + Z(2, 3), [&](std::size_t i, std::size_t j) { return za(i, j) + Z(2, 3); });
    mc::step("complex comparison");
    static matrix<Z, R, C> c {};
    c = a;
    MC_CHECK(a == c && !(a != c), "big:m==m", R, "x", C);
    for (std::size_t k : marks(R)) for (std::size_t l : marks(C)) for (Z dz : {Z(1, 0), Z(0, 1)}) {
        mc::state();
        c.arrays[k][l] = a.arrays[k][l] + dz;
        MC_CHECK(!(a == c) && (a != c), "big:m!=m", R, "x", C, " complex, differ only at ", k, ",", l);
        c.arrays[k][l] = a.arrays[k][l];
    }
}
#elif PROP == 6
inline int SA(std::size_t i, std::size_t j) { return MA(i, j) % 37 - 11; }
inline int SB(std::size_t i, std::size_t j) { return MB(i, j) % 41; }
template<typename T, std::size_t M, std::size_t N, std::size_t P>
void mul6() {
    static matrix<T, M, N> a {};
    static matrix<T, N, P> b {};
    fillm(a, SA); fillm(b, SB);
    mc::state(); mc::trace();
    static std::vector<long long> w;
    w.assign(M * P, 0);
    for (std::size_t i = 0; i < M; ++i) for (std::size_t k = 0; k < N; ++k) for (std::size_t j = 0; j < P; ++j) w[i * P + j] += (long long)SA(i, k) * SB(k, j);
    mc::step("matmul");
    std::string ctx = mc::str(M, "x", N, "x", P);
    auto want = [&](std::size_t i, std::size_t j) { return T(w[i * P + j]); };
    eqm("matmul", matmul(a, b), want, ctx);
    if constexpr (M == 1) { mc::step("vectmatmul"); eqv("vectmatmul", vectmatmul(a.row(0), b), [&](std::size_t j) { return T(w[j]); }, ctx); }
    if constexpr (P == 1) { mc::step("matvectmul"); eqv("matvectmul", matvectmul(a, b.column(0)), [&](std::size_t i) { return T(w[i]); }, ctx); }
    // one changed cell in one operand changes exactly its row / column
    auto cells = [](std::size_t r, std::size_t c) { std::vector<std::pair<std::size_t, std::size_t>> v; auto x = marks(r), y = marks(c); std::size_t n = std::max(x.size(), y.size()); for (std::size_t i = 0; i < n; ++i) v.push_back({x[i % x.size()], y[(i * 3 + 1) % y.size()]}); return v; };
    for (auto [k, l] : cells(M, N)) {
        mc::state();
        T old = a.arrays[k][l];
        a.arrays[k][l] = T(SA(k, l) + 1000);
        auto g = matmul(a, b);
        eqm("matmul-left-cell", g, [&, k = k, l = l](std::size_t i, std::size_t j) { return T(w[i * P + j] + (i == k ? 1000LL * SB(l, j) : 0)); }, mc::str(ctx, " left cell ", k, ",", l));
        a.arrays[k][l] = old;
    }
    for (auto [k, l] : cells(N, P)) {
        mc::state();
        T old = b.arrays[k][l];
        b.arrays[k][l] = T(SB(k, l) - 1000);
        auto g = matmul(a, b);
        eqm("matmul-right-cell", g, [&, k = k, l = l](std::size_t i, std::size_t j) { return T(w[i * P + j] - (j == l ? 1000LL * SA(i, k) : 0)); }, mc::str(ctx, " right cell ", k, ",", l));
        b.arrays[k][l] = old;
    }
}
// complex contents, Gaussian integers: nothing is conjugated
template<std::size_t M, std::size_t N, std::size_t P>
void cmul6() {
    typedef std::complex<double> Z;
    static matrix<Z, M, N> a {};
    static matrix<Z, N, P> b {};
    auto za = [](std::size_t i, std::size_t j) { return Z(SA(i, j), SB(j, i)); };
    auto zb = [](std::size_t i, std::size_t j) { return Z(SB(i, j), SA(j, i)); };
    for (std::size_t i = 0; i < M; ++i) for (std::size_t j = 0; j < N; ++j) a.arrays[i][j] = za(i, j);
    for (std::size_t i = 0; i < N; ++i) for (std::size_t j = 0; j < P; ++j) b.arrays[i][j] = zb(i, j);
    static std::vector<Z> w;
    w.assign(M * P, Z(0));
    for (std::size_t i = 0; i < M; ++i) for (std::size_t k = 0; k < N; ++k) for (std::size_t j = 0; j < P; ++j) w[i * P + j] += za(i, k) * zb(k, j);
    mc::state(); mc::trace();
    mc::step("complex matmul");
    std::string ctx = mc::str("complex ", M, "x", N, "x", P);
    eqm("matmul", matmul(a, b), [&](std::size_t i, std::size_t j) { return w[i * P + j]; }, ctx);
    if constexpr (M == 1) eqv("vectmatmul", vectmatmul(a.row(0), b), [&](std::size_t j) { return w[j]; }, ctx);
    if constexpr (P == 1) eqv("matvectmul", matvectmul(a, b.column(0)), [&](std::size_t i) { return w[i]; }, ctx);
    if constexpr (M * P < 600 && N * N < 600) eqm("kron", kron(a, b), [&](std::size_t i, std::size_t j) { return za(i / N, j / P) * zb(i % N, j % P); }, ctx);
}
template<typename T, std::size_t M, std::size_t N, std::size_t P, std::size_t Q>
void kron6() {
    static matrix<T, M, N> a {};
    static matrix<T, P, Q> b {};
    fillm(a, SA); fillm(b, SB);
    mc::state(); mc::trace();
    mc::step("kron");
    eqm("kron", kron(a, b), [](std::size_t i, std::size_t j) { return T(SA(i / P, j / Q)) * T(SB(i % P, j % Q)); }, mc::str(M, "x", N, " (x) ", P, "x", Q));
}
#elif PROP == 7 || PROP == 8
using F = Zp<101>;
std::size_t model_rref(MM<F> &m, F *det = nullptr) {
    std::size_t r = 0;
    F d = F(1);
    for (std::size_t c = 0; c < m.c && r < m.r; ++c) {
        std::size_t p = r;
        while (p < m.r && m.at(p, c) == F(0)) ++p;
        if (p == m.r) continue;
        if (p != r) { for (std::size_t j = 0; j < m.c; ++j) std::swap(m.at(p, j), m.at(r, j)); d = -d; }
        F s = m.at(r, c);
        d = d * s;
        F inv = F(1) / s;
        for (std::size_t j = 0; j < m.c; ++j) m.at(r, j) = m.at(r, j) * inv;
        for (std::size_t i = 0; i < m.r; ++i)
            if (i != r && m.at(i, c) != F(0)) { F f = m.at(i, c); for (std::size_t j = 0; j < m.c; ++j) m.at(i, j) = m.at(i, j) - f * m.at(r, j); }
        ++r;
    }
    if (det) *det = r == m.r ? d : F(0);
    return r;
}
template<std::size_t R, std::size_t C>
void one(const MM<F> &a, const std::string &ctx) {
    if (!mc::mine()) return;
    mc::state(); mc::trace();
    auto m = impl<R, C>(a);
#if PROP == 7
    MM<F> w = a;
    std::size_t rk = model_rref(w);
    mc::step("rref");
    eqm("rref", rref(m), [&](std::size_t i, std::size_t j) { return w.at(i, j); }, ctx);
    mc::step("rank");
    MC_CHECK(rank(m) == rk, "big:rank", R, "x", C, " ", ctx, " got ", rank(m), " want ", rk);
#else
    if constexpr (R == C) {
        MM<F> w = a;
        F d;
        std::size_t rk = model_rref(w, &d);
        mc::step("det");
        F gd = det(m);
        MC_CHECK(gd == d, "big:det", R, "x", C, " ", ctx, " got ", gd, " want ", d);
        mc::step("inverse");
        try {
            auto g = inverse(m);
            MC_CHECK(rk == R, "big:inverse-singular", R, "x", C, " ", ctx, " did not throw");
            if (rk == R)
                for (int side = 0; side < 2; ++side)
                    for (std::size_t i = 0; i < R; ++i) for (std::size_t j = 0; j < R; ++j) {
                        long s = 0;
                        for (std::size_t k = 0; k < R; ++k) s += side ? (long)g.arrays[i][k].v * a.at(k, j).v : (long)a.at(i, k).v * g.arrays[k][j].v;
                        if (s % 101 != (i == j)) { mc::violation("big:inverse", mc::str(R, "x", C, " ", ctx, " cell ", i, ",", j)); return; }
                    }
        } catch (const char *) {
            MC_CHECK(rk < R, "big:inverse-throws", R, "x", C, " ", ctx, " threw although invertible");
        }
    }
#endif
}
template<std::size_t R, std::size_t C>
void solve() {
    // generalized permutations: shifts, reversal, each transposition of marked rows; with one row cleared
    const std::size_t D = std::min(R, C);
    auto perm = [&](auto f, int variant, const std::string &ctx) {
        MM<F> a(R, C);
        for (std::size_t i = 0; i < D; ++i) a.at(f(i) % D, i) = F(variant == 0 ? 1 : int(i % 100) + 1);
        one<R, C>(a, ctx);
        if (variant == 1)
            for (std::size_t k : {std::size_t(0), D / 2, D - 1}) { MM<F> b = a; for (std::size_t j = 0; j < C; ++j) b.at(k, j) = F(0); one<R, C>(b, ctx + mc::str(", row ", k, " cleared")); }
    };
    for (int variant = 0; variant < 2; ++variant) {
        for (std::size_t s = 0; s < D; s += D < 20 ? 1 : 5) perm([&](std::size_t i) { return i + s; }, variant, mc::str("shift by ", s));
        perm([&](std::size_t i) { return D - 1 - i; }, variant, "reversal");
        for (std::size_t x = 0; x < D; x += D < 20 ? 1 : 7) for (std::size_t y = x + 1; y < D; y += D < 20 ? 1 : 6)
            perm([&](std::size_t i) { return i == x ? y : i == y ? x : i; }, variant, mc::str("transposition ", x, ",", y));
    }
    // low rank, dense, banded, companion, dependent rows at the end, duplicates
    for (int v = 0; v < 12; ++v) {
        MM<F> a(R, C);
        for (std::size_t i = 0; i < R; ++i) for (std::size_t j = 0; j < C; ++j) {
            std::size_t x = 0;
            if (v == 0) x = (i + 1) * (j + 1);
            if (v == 1) x = i + j;
            if (v == 2) x = i * i + j * j + i * j;
            if (v == 3) x = i == j ? 3 : i + 1 == j ? 1 : j + 1 == i ? 7 : 0;
            if (v == 4) x = i <= j ? i + 2 : 0;
            if (v == 5) x = i >= j ? j % 5 + 1 : 0;
            if (v == 6) x = i == j + 1 ? 1 : j + 1 == C ? i + 1 : 0;
            if (v == 7) { x = 1; for (std::size_t e = 0; e < i % D; ++e) x = x * (j + 1) % 101; }
            if (v == 8) x = (i * 37 + j * 59 + i * j * 11 + (i ^ j) * 7 + i * i * j) % 101;
            if (v == 9) x = i + j >= C ? (i * j) % 50 + 1 : 0;
            if (v == 10) x = i == R - 1 ? j + 1 : i + 1 == j ? 1 : 0;
            if (v == 11) x = (i == R / 2 || j == C / 2) ? 1 + i + j : i == j ? 2 : 0;
            a.at(i, j) = F(int(x % 101));
        }
        one<R, C>(a, mc::str("family ", v));
        for (std::size_t k : {std::size_t(1), R / 2, R - 1}) {
            if (k >= R) continue;
            MM<F> b = a;
            for (std::size_t j = 0; j < C; ++j) b.at(k, j) = b.at(0, j) * F(k ? 5 : 1);
            one<R, C>(b, mc::str("family ", v, ", row ", k, " a multiple of row 0"));
            MM<F> c = a;
            for (std::size_t i = 0; i < R; ++i) c.at(i, std::min(k, C - 1)) = F(0);
            one<R, C>(c, mc::str("family ", v, ", column cleared"));
        }
    }
}
#elif PROP == 9
template<typename T, std::size_t R, std::size_t C>
void norm9() {
    static matrix<T, R, C> a {};
    fillm(a, MB);
    auto check = [&](const std::string &ctx) {
        mc::state();
        long long cs = 0, rs = 0, t = 0;
        for (std::size_t j = 0; j < C; ++j) { long long s = 0; for (std::size_t i = 0; i < R; ++i) s += std::llabs((long long)a.arrays[i][j]); cs = std::max(cs, s); }
        for (std::size_t i = 0; i < R; ++i) { long long s = 0; for (std::size_t j = 0; j < C; ++j) s += std::llabs((long long)a.arrays[i][j]); rs = std::max(rs, s); }
        mc::step("macs");
        MC_CHECK(macs(a) == T(cs), "big:macs", R, "x", C, " ", ctx, " got ", macs(a), " want ", cs);
        mc::step("mars");
        MC_CHECK(mars(a) == T(rs), "big:mars", R, "x", C, " ", ctx, " got ", mars(a), " want ", rs);
        if constexpr (R == C) {
            for (std::size_t i = 0; i < R; ++i) t += (long long)a.arrays[i][i];
            mc::step("trace");
            MC_CHECK(trace(a) == T(t), "big:trace", R, "x", C, " ", ctx, " got ", trace(a), " want ", t);
        }
    };
    mc::trace();
    check("tagged");
    auto x = marks(R), y = marks(C);
    for (std::size_t n = 0; n < std::max(x.size(), y.size()); ++n)
        for (int big : {100000000, -100000000}) {
            std::size_t k = x[n % x.size()], l = R == C ? k : y[n % y.size()];
            T old = a.arrays[k][l];
            a.arrays[k][l] = T(big);
            check(mc::str("cell ", k, ",", l, " = ", big));
            a.arrays[k][l] = old;
        }
}
#endif

// shapes whose row count, column count or cell count passes 255
using Big = Shapes<Shape<16, 16>, Shape<17, 17>, Shape<19, 14>, Shape<1, 257>, Shape<257, 1>, Shape<256, 1>, Shape<1, 256>, Shape<3, 257>, Shape<258, 3>, Shape<2, 255>, Shape<33, 34>, Shape<64, 65>, Shape<300, 5>, Shape<6, 300>>;
using Wide = Shapes<Shape<1, 65537>, Shape<65537, 1>, Shape<256, 257>, Shape<257, 257>, Shape<2, 32769>, Shape<32769, 2>>;

static void *run(void *) {
    {
        mc::ScopedSpace s("sizes past 8 and 16 bit ranges and past block widths: tagged contents, single-cell changes at every boundary position");
#if PROP == 1
        for_sizes(Long {}, [](auto n) { vec1<int, decltype(n)::value>(); vec1<double, decltype(n)::value>(); cvec1<decltype(n)::value>(); });
        for_sizes(Huge {}, [](auto n) { vec1<int, decltype(n)::value>(); });
#elif PROP == 2
        for_sizes(Long {}, [](auto n) { vec2<int, decltype(n)::value>(); vec2<double, decltype(n)::value>(); });
        for_sizes(Huge {}, [](auto n) { vec2<int, decltype(n)::value>(); });
#elif PROP == 3
        for_sizes(Long {}, [](auto n) { vec3<int, decltype(n)::value>(); vec3<double, decltype(n)::value>(); cvec3<decltype(n)::value>(); });
        for_sizes(std::index_sequence<32769, 65537> {}, [](auto n) { cvec3<decltype(n)::value>(); });
        for_sizes(Huge {}, [](auto n) { vec3<int, decltype(n)::value>(); });
#elif PROP == 4
        for_shapes(Big {}, [](auto sh) { mat4<int, decltype(sh)::r, decltype(sh)::c>(); });
        for_shapes(Wide {}, [](auto sh) { mat4<int, decltype(sh)::r, decltype(sh)::c>(); });
#elif PROP == 5
        for_shapes(Big {}, [](auto sh) { mat5<int, decltype(sh)::r, decltype(sh)::c>(); mat5<double, decltype(sh)::r, decltype(sh)::c>(); });
        for_shapes(Wide {}, [](auto sh) { mat5<int, decltype(sh)::r, decltype(sh)::c>(); });
        for_shapes(Big {}, [](auto sh) { cmat5<decltype(sh)::r, decltype(sh)::c>(); });
#elif PROP == 6
        mul6<int, 17, 33, 5>(); mul6<int, 5, 17, 33>(); mul6<int, 33, 5, 17>(); mul6<int, 31, 32, 33>(); mul6<int, 33, 31, 32>();
        mul6<int, 32, 33, 31>(); mul6<int, 48, 20, 36>(); mul6<int, 65, 65, 65>(); mul6<int, 64, 64, 64>(); mul6<int, 1, 256, 1>();
        mul6<int, 1, 257, 1>(); mul6<int, 2, 257, 3>(); mul6<int, 3, 300, 2>(); mul6<int, 257, 2, 2>(); mul6<int, 2, 2, 257>();
        mul6<int, 257, 1, 257>(); mul6<int, 1, 513, 4>(); mul6<int, 4, 513, 1>(); mul6<int, 300, 3, 1>(); mul6<int, 1, 3, 300>();
        mul6<int, 1, 65537, 1>(); mul6<int, 65537, 1, 1>(); mul6<int, 1, 1, 65537>(); mul6<int, 129, 40, 24>(); mul6<int, 24, 129, 40>();
        mul6<double, 33, 34, 35>(); mul6<double, 40, 24, 129>(); mul6<double, 12, 100, 12>(); mul6<long, 20, 20, 20>(); mul6<double, 20, 257, 1>();
        cmul6<17, 19, 16>(); cmul6<33, 32, 31>(); cmul6<65, 40, 33>(); cmul6<1, 257, 3>(); cmul6<3, 257, 1>(); cmul6<257, 2, 2>(); cmul6<2, 2, 257>(); cmul6<1, 1025, 1>();
        cmul6<2, 130, 129>(); cmul6<129, 65, 2>(); cmul6<1, 4099, 1>();
        kron6<int, 17, 1, 17, 1>(); kron6<int, 1, 17, 1, 17>(); kron6<int, 16, 16, 2, 2>(); kron6<int, 2, 2, 17, 16>(); kron6<int, 9, 7, 8, 11>();
        kron6<int, 257, 1, 1, 3>(); kron6<int, 3, 1, 1, 257>(); kron6<int, 1, 257, 2, 1>(); kron6<int, 33, 3, 5, 32>(); kron6<double, 6, 5, 7, 9>();
        kron6<int, 256, 1, 1, 257>(); kron6<int, 1, 300, 300, 1>();
#elif PROP == 7
        solve<9, 9>(); solve<10, 10>(); solve<12, 12>(); solve<16, 16>(); solve<17, 17>(); solve<33, 33>();
        solve<12, 20>(); solve<20, 12>(); solve<17, 34>(); solve<33, 16>(); solve<3, 260>(); solve<260, 3>();
        if (mc::thorough) { solve<64, 65>(); solve<65, 40>(); }
#elif PROP == 8
        solve<9, 9>(); solve<10, 10>(); solve<11, 11>(); solve<12, 12>(); solve<13, 13>(); solve<16, 16>(); solve<17, 17>(); solve<33, 33>();
        if (mc::thorough) { solve<24, 24>(); solve<64, 64>(); }
#elif PROP == 9
        for_shapes(Big {}, [](auto sh) { norm9<int, decltype(sh)::r, decltype(sh)::c>(); norm9<double, decltype(sh)::r, decltype(sh)::c>(); });
        for_shapes(Wide {}, [](auto sh) { norm9<int, decltype(sh)::r, decltype(sh)::c>(); });
#endif
    }
    return nullptr;
}
int main(int argc, char **argv) {
    mc::init(argc, argv, "big_shapes");
    mc::hang_limit_s = 120;
    mc::sample("length 257: every element of a+b; comparison of vectors that differ only at element 256");
    // the operations return by value: a large stack, so that only wrong results can fail here
    pthread_attr_t at;
    pthread_t th;
    pthread_attr_init(&at);
    pthread_attr_setstacksize(&at, std::size_t(1) << 30);
    if (pthread_create(&th, &at, run, nullptr) != 0) return 2;
    pthread_join(th, nullptr);
    return mc::finish();
}
