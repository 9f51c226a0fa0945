// C06: matmul, vectmatmul, matvectmul, kron. C09: macs, mars, trace.
#include "blas.hpp"

template<typename T>
MM<T> mmul(const MM<T> &a, const MM<T> &b) {
    MM<T> w(a.r, b.c);
    for (std::size_t i = 0; i < a.r; ++i)
        for (std::size_t j = 0; j < b.c; ++j) {
            T s = T(0u);
            for (std::size_t k = 0; k < a.c; ++k) s = s + a.at(i, k) * b.at(k, j);
            w.at(i, j) = s;
        }
    return w;
}

template<typename T, std::size_t M, std::size_t N, std::size_t P>
void mul_state(const MM<T> &a, const MM<T> &b) {
    mc::state();
    mc::trace();
    mc::step("matmul");
    auto r = matmul(impl<M, N>(a), impl<N, P>(b));
    static_assert(std::is_same_v<decltype(r), matrix<T, M, P>>);
    MM<T> w = mmul(a, b);
    MC_CHECK(mod(r) == w, "mat:matmul", M, "x", N, "x", P, " a=", a, " b=", b, " got ", mod(r), " want ", w);
    if constexpr (M == 1) {
        mc::step("vectmatmul");
        MV<T> v(N);
        v.e = a.e;
        auto q = vectmatmul(impl<N>(v), impl<N, P>(b));
        static_assert(std::is_same_v<decltype(q), vector<T, P>>);
        MC_CHECK(mod(q).e == w.e, "mat:vectmatmul", N, "x", P, " v=", v, " m=", b, " got ", mod(q), " want ", w);
    }
    if constexpr (P == 1) {
        mc::step("matvectmul");
        MV<T> v(N);
        v.e = b.e;
        auto q = matvectmul(impl<M, N>(a), impl<N>(v));
        static_assert(std::is_same_v<decltype(q), vector<T, M>>);
        MC_CHECK(mod(q).e == w.e, "mat:matvectmul", M, "x", N, " m=", a, " v=", v, " got ", mod(q), " want ", w);
    }
}

template<typename T, std::size_t M, std::size_t N, std::size_t P, std::size_t Q>
void kron_state(const MM<T> &a, const MM<T> &b) {
    mc::state();
    mc::trace();
    mc::step("kron");
    auto r = kron(impl<M, N>(a), impl<P, Q>(b));
    static_assert(std::is_same_v<decltype(r), matrix<T, M * P, N * Q>>);
    for (std::size_t i = 0; i < M; ++i) for (std::size_t j = 0; j < N; ++j)
        for (std::size_t k = 0; k < P; ++k) for (std::size_t l = 0; l < Q; ++l)
            if (!(r.arrays[i * P + k][j * Q + l] == a.at(i, j) * b.at(k, l))) {
                mc::violation("mat:kron", mc::str(M, "x", N, " (x) ", P, "x", Q, " a=", a, " b=", b, " got ", mod(r)));
                return;
            }
}

template<typename T, std::size_t M, std::size_t N, std::size_t P>
void mul_tagged() {
    MM<T> a(M, N), b(N, P);
    for (std::size_t i = 0; i < a.e.size(); ++i) a.e[i] = tag<T>(i % 97);
    for (std::size_t i = 0; i < b.e.size(); ++i) b.e[i] = tag<T>((5 * i + 3) % 89);
    mul_state<T, M, N, P>(a, b);
    if (M * N * P <= 150) {
        // every pair of unit matrices: fixes each coefficient of the bilinear map separately
        for (std::size_t x = 0; x < M * N; ++x)
            for (std::size_t y = 0; y < N * P; ++y) {
                MM<T> u(M, N), v(N, P);
                for (auto &e : u.e) e = T(0u);
                for (auto &e : v.e) e = T(0u);
                u.e[x] = tag<T>(2);
                v.e[y] = tag<T>(4);
                mul_state<T, M, N, P>(u, v);
            }
    } else {
        for (std::size_t x = 0; x < M * N; ++x) {
            MM<T> u(M, N);
            for (auto &e : u.e) e = T(0u);
            u.e[x] = tag<T>(2);
            mul_state<T, M, N, P>(u, b);
        }
        for (std::size_t y = 0; y < N * P; ++y) {
            MM<T> v(N, P);
            for (auto &e : v.e) e = T(0u);
            v.e[y] = tag<T>(4);
            mul_state<T, M, N, P>(a, v);
        }
    }
}
template<typename T, std::size_t M, std::size_t N, std::size_t P>
void mul_exhaust(const std::vector<T> &al) {
    all_assignments<T>(M * N + N * P, al, [&](const std::vector<T> &v) {
        MM<T> a(M, N), b(N, P);
        std::copy(v.begin(), v.begin() + M * N, a.e.begin());
        std::copy(v.begin() + M * N, v.end(), b.e.begin());
        mul_state<T, M, N, P>(a, b);
    });
}
template<typename T, std::size_t M, std::size_t N, std::size_t P, std::size_t Q>
void kron_tagged() {
    MM<T> a(M, N), b(P, Q);
    for (std::size_t i = 0; i < a.e.size(); ++i) a.e[i] = tag<T>(i);
    for (std::size_t i = 0; i < b.e.size(); ++i) b.e[i] = tag<T>(3 * i + 1);
    kron_state<T, M, N, P, Q>(a, b);
    if (M * N * P * Q <= 200)
        for (std::size_t x = 0; x < M * N; ++x)
            for (std::size_t y = 0; y < P * Q; ++y) {
                MM<T> u(M, N), v(P, Q);
                for (auto &e : u.e) e = T(0u);
                for (auto &e : v.e) e = T(0u);
                u.e[x] = tag<T>(2);
                v.e[y] = tag<T>(4);
                kron_state<T, M, N, P, Q>(u, v);
            }
}

template<typename T> T mabs(T x) { return x < T(0) ? T(-x) : x; }

template<typename T, std::size_t R, std::size_t C>
void norm_state(const MM<T> &a) {
    mc::state();
    mc::trace();
    auto m = impl<R, C>(a);
    T cs = T(0), rs = T(0);
    for (std::size_t j = 0; j < C; ++j) { T s = T(0); for (std::size_t i = 0; i < R; ++i) s = s + mabs(a.at(i, j)); if (cs < s) cs = s; }
    for (std::size_t i = 0; i < R; ++i) { T s = T(0); for (std::size_t j = 0; j < C; ++j) s = s + mabs(a.at(i, j)); if (rs < s) rs = s; }
    mc::step("macs");
    MC_CHECK(macs(m) == cs, "mat:macs", R, "x", C, " m=", a, " got ", macs(m), " want ", cs);
    mc::step("mars");
    MC_CHECK(mars(m) == rs, "mat:mars", R, "x", C, " m=", a, " got ", mars(m), " want ", rs);
    if constexpr (R == C) {
        T t = T(0);
        for (std::size_t i = 0; i < R; ++i) t = t + a.at(i, i);
        mc::step("trace");
        MC_CHECK(trace(m) == t, "mat:trace", R, "x", C, " m=", a, " got ", trace(m), " want ", t);
    }
}
template<typename T, std::size_t R, std::size_t C>
void norm_exhaust(const std::vector<T> &al) {
    all_assignments<T>(R * C, al, [&](const std::vector<T> &v) { MM<T> a(R, C); a.e = v; norm_state<T, R, C>(a); });
}
template<typename T, std::size_t R, std::size_t C>
void norm_tagged() {
    MM<T> a(R, C);
    for (std::size_t i = 0; i < R * C; ++i) a.e[i] = tag<T>((i * 7) % 61);
    norm_state<T, R, C>(a);
    for (std::size_t k = 0; k < R * C; ++k)
        for (int big : {1, -1, 1000, -1000}) {
            MM<T> b = a, z(R, C);
            b.e[k] = T(big);
            z.e[k] = T(big);
            norm_state<T, R, C>(b);
            norm_state<T, R, C>(z);
            for (std::size_t i = 0; i < R * C; i += 2) b.e[i] = -b.e[i];
            norm_state<T, R, C>(b);
        }
}
template<typename T>
void trace_of(std::size_t) {
    for_sizes(std::index_sequence<1, 2, 3, 4, 5, 6, 7, 8, 9, 16, 17, 33> {}, [](auto n) {
        constexpr std::size_t N = decltype(n)::value;
        for (std::size_t k = 0; k <= N * N && k < 300; ++k) {
            MM<T> a(N, N);
            for (std::size_t i = 0; i < N * N; ++i) a.e[i] = k == N * N ? tag<T>(i) : T(0u);
            if (k < N * N) a.e[k] = tag<T>(3);
            T t = T(0u);
            for (std::size_t i = 0; i < N; ++i) t = t + a.at(i, i);
            mc::state();
            mc::step("trace");
            MC_CHECK(trace(impl<N, N>(a)) == t, "mat:trace-tagged", "N=", N, " got ", trace(impl<N, N>(a)), " want ", t);
        }
    });
}

int main(int argc, char **argv) {
    mc::init(argc, argv, "mat_prod");
    mc::hang_limit_s = 30;
    using D3 = std::index_sequence<1, 2, 3, 4, 5>;
#if PART == 0
    {
        mc::ScopedSpace s("products for every dimension triple in 1..5: tagged operands and every pair of unit matrices");
        for_sizes(D3 {}, [](auto m) { for_sizes(D3 {}, [](auto n) { for_sizes(D3 {}, [](auto p) { mul_tagged<int, decltype(m)::value, decltype(n)::value, decltype(p)::value>(); }); }); });
    }
    mc::sample("matmul of every pair of unit matrices E_ik E_lj for 3x4x5");
#elif PART == 1
    {
        mc::ScopedSpace s("products for larger and other-typed shapes");
        mul_tagged<int, 1, 17, 1>();
        mul_tagged<int, 16, 16, 16>();
        mul_tagged<int, 8, 33, 3>();
        mul_tagged<int, 33, 2, 17>();
        mul_tagged<int, 1, 64, 1>();
        mul_tagged<int, 1, 65, 2>();
        mul_tagged<int, 6, 7, 8>();
        mul_tagged<int, 9, 9, 9>();
        mul_tagged<int, 1, 9, 17>();
        mul_tagged<int, 17, 9, 1>();
        mul_tagged<double, 3, 4, 2>();
        mul_tagged<double, 16, 17, 2>();
        mul_tagged<float, 2, 3, 2>();
        mul_tagged<Rat, 3, 2, 4>();
        mul_tagged<Zp<7>, 3, 3, 3>();
        mul_tagged<std::complex<double>, 2, 3, 2>();
        mul_tagged<std::complex<double>, 1, 4, 2>();
        mul_tagged<std::complex<double>, 2, 4, 1>();
        mul_tagged<unsigned, 2, 2, 3>();
        mul_tagged<unsigned, 1, 5, 1>();
    }
    {
        mc::ScopedSpace s("all operand contents over small alphabets (incl. a non-commutative scalar)");
        mul_exhaust<int, 2, 2, 2>({-2, 0, 1, 3});
        mul_exhaust<int, 1, 3, 1>({-3, -1, 0, 1, 2, 5});
        mul_exhaust<int, 1, 3, 2>({-1, 0, 2});
        mul_exhaust<int, 2, 3, 1>({-1, 0, 2});
        mul_exhaust<int, 3, 1, 3>({-1, 0, 2, 3});
        mul_exhaust<int, 3, 3, 1>({-1, 1});
        mul_exhaust<unsigned, 1, 2, 1>({0u, 1u, 0x10000u, 0x80000000u, 0xffffffffu});
        mul_exhaust<double, 1, 2, 1>({-2.5, 0, 0.5, 4});
        std::vector<Quat> q {Quat(0), Quat(0, 1, 0, 0), Quat(0, 0, 1, 0), Quat(1, 2, -1, 3)};
        mul_exhaust<Quat, 1, 1, 1>(q);
        mul_exhaust<Quat, 1, 2, 1>(q);
        mul_exhaust<Quat, 2, 1, 2>(q);
        mul_exhaust<Quat, 1, 2, 2>({Quat(0, 1, 0, 0), Quat(0, 0, 1, 0), Quat(1, 2, -1, 3)});
        mul_exhaust<Quat, 2, 2, 1>({Quat(0, 1, 0, 0), Quat(0, 0, 1, 0), Quat(1, 2, -1, 3)});
        std::vector<std::complex<double>> c {{0, 0}, {1, 0}, {0, 1}, {2, -3}};
        mul_exhaust<std::complex<double>, 1, 2, 1>(c);
        if (mc::thorough) {
            mul_exhaust<int, 2, 2, 2>({-2, -1, 0, 1, 3});
            mul_exhaust<int, 2, 3, 2>({-1, 0, 2});
            mul_exhaust<int, 3, 3, 1>({-1, 0, 1});
            mul_exhaust<int, 3, 3, 3>({0, 1});
        }
    }
    {
        mc::ScopedSpace s("chains of products: every pair and triple of a generating set of 2x2 and 3x3 matrices");
        auto chain = [](auto n, const std::vector<std::vector<int>> &gens) {
            constexpr std::size_t N = decltype(n)::value;
            std::set<std::vector<int>> seen;
            std::vector<std::vector<int>> q {gens[0]};
            seen.insert(gens[0]);
            for (std::size_t h = 0; h < q.size() && h < 3000; ++h) {
                mc::state();
                for (auto &g : gens) {
                    MM<Zp<5>> a(N, N), b(N, N);
                    for (std::size_t i = 0; i < N * N; ++i) { a.e[i] = q[h][i]; b.e[i] = g[i]; }
                    mc::step("matmul");
                    auto r = matmul(impl<N, N>(a), impl<N, N>(b));
                    auto w = mmul(a, b);
                    MC_CHECK(mod(r) == w, "mat:matmul-chain", "a=", a, " b=", b, " got ", mod(r));
                    std::vector<int> x;
                    for (auto &e : w.e) x.push_back(e.v);
                    if (seen.insert(x).second) q.push_back(x);
                }
                mc::trace();
            }
        };
        chain(std::integral_constant<std::size_t, 2> {}, {{1, 1, 0, 1}, {1, 0, 1, 1}, {2, 0, 0, 1}, {0, 0, 0, 1}});
        chain(std::integral_constant<std::size_t, 3> {}, {{1, 1, 0, 0, 1, 0, 0, 0, 1}, {0, 1, 0, 0, 0, 1, 1, 0, 0}, {2, 0, 0, 0, 1, 0, 0, 0, 1}});
    }
    mc::sample("2x2 * 2x2 over {-2,0,1,3}: all 65536 contents");
#elif PART == 2
    {
        mc::ScopedSpace s("kron for every shape quadruple: tagged operands and every pair of unit matrices");
        using K = std::index_sequence<1, 2, 3>;
        for_sizes(K {}, [](auto m) { for_sizes(K {}, [](auto n) { for_sizes(K {}, [](auto p) { for_sizes(K {}, [](auto q) {
            kron_tagged<int, decltype(m)::value, decltype(n)::value, decltype(p)::value, decltype(q)::value>(); }); }); }); });
        kron_tagged<int, 4, 4, 4, 4>();
        kron_tagged<int, 2, 5, 5, 2>();
        kron_tagged<int, 1, 4, 5, 1>();
        kron_tagged<int, 5, 1, 1, 4>();
        kron_tagged<int, 1, 16, 2, 3>();
        kron_tagged<int, 3, 2, 16, 1>();
        kron_tagged<double, 2, 3, 3, 2>();
        kron_tagged<Quat, 2, 2, 2, 2>();
        kron_tagged<std::complex<double>, 2, 1, 1, 3>();
        kron_tagged<Rat, 1, 2, 2, 1>();
    }
    mc::sample("kron of every pair of unit matrices, all shapes up to 3x3 (x) 3x3");
#else
    {
        mc::ScopedSpace s("macs, mars, trace: tagged contents with every single-cell perturbation");
        using D4 = std::index_sequence<1, 2, 3, 4>;
        for_sizes(D4 {}, [](auto r) { for_sizes(D4 {}, [](auto c) { norm_tagged<int, decltype(r)::value, decltype(c)::value>(); }); });
        norm_tagged<int, 5, 5>();
        norm_tagged<int, 2, 9>();
        norm_tagged<int, 9, 2>();
        norm_tagged<int, 1, 17>();
        norm_tagged<int, 17, 1>();
        norm_tagged<int, 8, 8>();
        norm_tagged<int, 16, 3>();
        norm_tagged<int, 3, 16>();
        norm_tagged<int, 17, 17>();
        norm_tagged<double, 3, 4>();
        norm_tagged<double, 4, 3>();
        norm_tagged<double, 3, 3>();
        norm_tagged<Rat, 2, 3>();
        norm_tagged<Rat, 3, 3>();
        norm_tagged<float, 2, 2>();
        trace_of<int>(0);
        trace_of<double>(0);
        trace_of<std::complex<double>>(0);
        trace_of<Quat>(0);
    }
    {
        mc::ScopedSpace s("macs, mars, trace: all contents over small alphabets");
        norm_exhaust<int, 1, 1>({-7, -1, 0, 1, 9, INT32_MAX, -INT32_MAX});
        norm_exhaust<int, 2, 2>({-4, -1, 0, 1, 3});
        norm_exhaust<int, 2, 3>({-4, -1, 0, 3});
        norm_exhaust<int, 3, 2>({-4, -1, 0, 3});
        norm_exhaust<int, 3, 3>({-2, 0, 3});
        norm_exhaust<int, 1, 4>({-4, -1, 0, 3});
        norm_exhaust<int, 4, 1>({-4, -1, 0, 3});
        norm_exhaust<double, 2, 2>({-1e300, -0.5, 0, 5e-324, 2});
        norm_exhaust<double, 2, 3>({-0.5, 0, 2});
        norm_exhaust<Rat, 2, 2>({Rat::mk(-3, 2), Rat(0), Rat::mk(1, 3)});
        if (mc::thorough) {
            norm_exhaust<int, 3, 3>({-2, -1, 0, 3});
            norm_exhaust<int, 3, 4>({-2, 0, 3});
            norm_exhaust<int, 4, 3>({-2, 0, 3});
        }
    }
    mc::sample("[-4 3; 0 1]: macs 4, mars 7, trace -3");
#endif
    return mc::finish();
}
