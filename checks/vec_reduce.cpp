// C03: reductions and element-wise maths on vectors.
#include "blas.hpp"

template<typename T> struct real_of { using type = T; };
template<typename R> struct real_of<std::complex<R>> { using type = R; };
template<typename T> T mconj(T x) { return x; }
template<typename R> std::complex<R> mconj(std::complex<R> x) { return {x.real(), -x.imag()}; }

template<typename T, std::size_t N>
void one_state(const MV<T> &a, const MV<T> &b) {
    mc::state();
    auto va = impl<N>(a), vb = impl<N>(b);
    T s = T(0u), d = T(0u);
    for (std::size_t i = 0; i < N; ++i) { s = s + a[i]; d = d + a[i] * mconj(b[i]); }
    mc::step("sum");
    MC_CHECK(sum(va) == s, "vec:sum", "N=", N, " a=", a, " got ", sum(va), " want ", s);
    if constexpr (!std::is_same_v<T, Quat>) {
        mc::step("dot");
        MC_CHECK(dot(va, vb) == d, "vec:dot", "N=", N, " a=", a, " b=", b, " got ", dot(va, vb), " want ", d);
    }
    mc::step("accumulate");
    // a non-commutative, non-associative fold fixes the order: left to right from the initial value
    std::vector<std::pair<unsigned, T>> got, want;
    unsigned n1 = accumulate(va, 7u, [&](unsigned acc, const T &x) { got.emplace_back(acc, x); return acc * 3u + 1u; });
    unsigned n2 = 7;
    for (std::size_t i = 0; i < N; ++i) { want.emplace_back(n2, a[i]); n2 = n2 * 3u + 1u; }
    MC_CHECK(n1 == n2 && got == want, "vec:accumulate", "N=", N, " a=", a, " got ", n1, " want ", n2);
    if constexpr (!alg::is_complex_v<T> && !std::is_same_v<T, Quat>) {
        std::size_t mi = 0, Mi = 0;
        for (std::size_t i = 1; i < N; ++i) { if (a[i] < a[mi]) mi = i; if (a[Mi] < a[i]) Mi = i; }
        mc::step("min"); MC_CHECK(alg::min(va) == a[mi], "vec:min", "N=", N, " a=", a, " got ", alg::min(va));
        mc::step("max"); MC_CHECK(alg::max(va) == a[Mi], "vec:max", "N=", N, " a=", a, " got ", alg::max(va));
        mc::step("min_index"); MC_CHECK(min_index(va) == mi, "vec:min_index", "N=", N, " a=", a, " got ", min_index(va), " want ", mi);
        mc::step("max_index"); MC_CHECK(max_index(va) == Mi, "vec:max_index", "N=", N, " a=", a, " got ", max_index(va), " want ", Mi);
    }
    mc::trace();
}

template<typename T, std::size_t N>
void elementwise_maths(const MV<T> &a) {
    using R = typename real_of<T>::type;
    mc::state();
    auto va = impl<N>(a);
    mc::step("conj");
    auto c = alg::conj(va);
    for (std::size_t i = 0; i < N; ++i) MC_CHECK(c.array[i] == mconj(a[i]), "vec:conj", "N=", N, " a=", a, " i=", i, " got ", c.array[i]);
    mc::step("abs");
    auto ab = alg::abs(va);
    static_assert(std::is_same_v<decltype(ab), vector<R, N>>);
    for (std::size_t i = 0; i < N; ++i) {
        if constexpr (alg::is_complex_v<T>) {
            double want = std::sqrt(double(a[i].real()) * a[i].real() + double(a[i].imag()) * a[i].imag());
            MC_CHECK(std::abs(ab.array[i] - want) <= 1e-6 * want, "vec:abs-complex", "N=", N, " a=", a, " i=", i, " got ", ab.array[i], " want ", want);
        } else
            MC_CHECK(ab.array[i] == (a[i] < T(0) ? T(-a[i]) : a[i]), "vec:abs", "N=", N, " a=", a, " i=", i, " got ", ab.array[i]);
    }
    if constexpr (std::is_floating_point_v<R>) {
        mc::step("real");
        auto re = alg::real(va);
        mc::step("imag");
        auto im = alg::imag(va);
        static_assert(std::is_same_v<decltype(re), vector<R, N>> && std::is_same_v<decltype(im), vector<R, N>>);
        for (std::size_t i = 0; i < N; ++i) {
            MC_CHECK(re.array[i] == std::real(a[i]), "vec:real", "N=", N, " a=", a, " i=", i, " got ", re.array[i]);
            MC_CHECK(im.array[i] == std::imag(a[i]), "vec:imag", "N=", N, " a=", a, " i=", i, " got ", im.array[i]);
        }
    }
    if constexpr (std::is_same_v<T, double> || std::is_same_v<T, float>) {
        bool neg = false;
        for (auto x : a.e) neg |= x < 0;
        mc::step("sqrt");
        try {
            auto r = alg::sqrt(va);
            MC_CHECK(!neg, "vec:sqrt-negative", "no exception for ", a);
            if (!neg)
                for (std::size_t i = 0; i < N; ++i)
                    MC_CHECK(std::abs(double(r.array[i]) - std::sqrt(double(a[i]))) <= (sizeof(T) == 4 ? 2e-7 : 1e-15) * std::sqrt(double(a[i])), "vec:sqrt", "N=", N, " a=", a, " i=", i, " got ", r.array[i]);
        } catch (const char *) {
            MC_CHECK(neg, "vec:sqrt-throws", "exception for ", a);
        }
    }
}

template<typename T, std::size_t N>
void exhaust(const std::vector<T> &alpha) {
    all_assignments<T>(2 * N, alpha, [&](const std::vector<T> &v) {
        MV<T> a(N), b(N);
        for (std::size_t i = 0; i < N; ++i) { a[i] = v[i]; b[i] = v[N + i]; }
        one_state<T, N>(a, b);
    });
}
template<typename T, std::size_t N>
void exhaust1(const std::vector<T> &alpha) {
    all_assignments<T>(N, alpha, [&](const std::vector<T> &v) {
        MV<T> a(N);
        a.e = v;
        one_state<T, N>(a, a);
    });
}
template<typename T, std::size_t N>
void exhaust_maths(const std::vector<T> &alpha) {
    all_assignments<T>(N, alpha, [&](const std::vector<T> &v) { MV<T> a(N); a.e = v; elementwise_maths<T, N>(a); });
}

// every position of the unique extreme, of tied extremes, and of a single non-zero cell, for every length
template<typename T, std::size_t N>
void positions() {
    MV<T> a(N), b(N);
    for (std::size_t i = 0; i < N; ++i) { a[i] = tag<T>(i); b[i] = tag<T>(2 * i + 1); }
    one_state<T, N>(a, b);
    std::reverse(a.e.begin(), a.e.end());
    one_state<T, N>(a, b);
    for (std::size_t k = 0; k < N; ++k) {
        MV<T> z(N), lo(N), hi(N), two(N);
        for (std::size_t i = 0; i < N; ++i) { z[i] = T(0u); lo[i] = tag<T>(7); hi[i] = tag<T>(7); two[i] = tag<T>(3); }
        z[k] = tag<T>(4);
        lo[k] = T(1u);
        hi[k] = tag<T>(90);
        one_state<T, N>(z, a);
        one_state<T, N>(a, z);
        one_state<T, N>(lo, a);
        one_state<T, N>(hi, lo);
        for (std::size_t j = 0; j < N && N <= 18; ++j) {
            two = MV<T>(N);
            for (std::size_t i = 0; i < N; ++i) two[i] = tag<T>(3);
            two[k] = tag<T>(60);
            two[j] = T(0u);
            one_state<T, N>(two, lo);
            two[k] = two[j] = tag<T>(60);
            one_state<T, N>(two, hi);
            two[k] = two[j] = T(0u);
            one_state<T, N>(two, hi);
        }
    }
    if constexpr (!std::is_same_v<T, Quat>) {
        MV<T> m(N);
        for (std::size_t i = 0; i < N; ++i) m[i] = tag<T>(i);
        elementwise_maths<T, N>(m);
        if constexpr (std::is_signed_v<T> || alg::is_complex_v<T>)
            for (std::size_t k = 0; k < N; ++k) { MV<T> w = m; w[k] = -w[k]; elementwise_maths<T, N>(w); }
    }
}

int main(int argc, char **argv) {
    mc::init(argc, argv, "vec_reduce");
    mc::hang_limit_s = 30;
    using C = std::complex<double>;
    using Lens = std::index_sequence<1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 16, 17, 18, 31, 32, 33, 64, 65, 128, 129>;
    {
        mc::ScopedSpace s("positions of extremes, ties and single non-zero cells for every listed length");
        for_sizes(Lens {}, [](auto n) { positions<int, decltype(n)::value>(); });
        for_sizes(std::index_sequence<1, 2, 3, 4, 5, 8, 9, 16, 17, 33> {}, [](auto n) {
            positions<double, decltype(n)::value>();
            positions<C, decltype(n)::value>();
        });
        for_sizes(std::index_sequence<1, 2, 3, 5, 9, 17> {}, [](auto n) {
            positions<unsigned, decltype(n)::value>();
            positions<Rat, decltype(n)::value>();
            positions<Quat, decltype(n)::value>();
        });
    }
    {
        mc::ScopedSpace s("all operand pairs over small alphabets");
        std::vector<int> ai;
        for (int i = -9; i <= 9; ++i) ai.push_back(i);
        exhaust<int, 1>(ai);
        exhaust<int, 2>({-5, -1, 0, 1, 2, 7});
        exhaust<int, 3>({-2, -1, 0, 1, 3});
        exhaust<int, 4>({-1, 0, 2});
        exhaust1<int, 5>({-3, -1, 0, 1, 2});
        exhaust1<int, 6>({-1, 0, 1, 2});
        exhaust1<int, 8>({-1, 0, 1});
        exhaust1<long, 4>({INT32_MIN / 4, -1, 0, 1, INT32_MAX / 4});
        exhaust<unsigned, 2>({0u, 1u, 0x7fffffffu, 0x80000000u, 0xffffffffu});
        exhaust<double, 2>({-4, -0.5, 0, 1, 3});
        exhaust<double, 3>({-4, -0.5, 0, 2});
        exhaust1<double, 3>({-1e300, -1e-300, 0, 5e-324, 1, 1e300});
        std::vector<C> ac;
        for (int i = -1; i <= 2; ++i) for (int j = -2; j <= 1; ++j) ac.emplace_back(i, j);
        exhaust<C, 1>(ac);
        exhaust<C, 2>({C(0, 0), C(1, 0), C(0, 1), C(-1, 2), C(2, -3)});
        exhaust<Rat, 2>({Rat::mk(-3, 2), Rat(0), Rat::mk(1, 3), Rat(2)});
        if (mc::thorough) {
            exhaust<int, 3>({-4, -2, -1, 0, 1, 3, 5});
            exhaust<int, 5>({-1, 0, 2});
            exhaust1<int, 7>({-3, -1, 0, 1, 2});
            exhaust1<int, 10>({-1, 0, 1});
            exhaust<C, 2>(ac);
        }
    }
    {
        mc::ScopedSpace s("conj, abs, real, imag, sqrt over small alphabets");
        exhaust_maths<int, 1>({-1000000, -7, -1, 0, 1, 7, 1000000, INT32_MAX, -INT32_MAX});
        exhaust_maths<int, 3>({-7, -1, 0, 1, 5});
        exhaust_maths<double, 1>({-1e300, -1, -0.5, -5e-324, 0, 5e-324, 1e-310, 0.1, 1, 2, 3, 4, 1e10, 1e300});
        exhaust_maths<double, 3>({-3, 0, 0.25, 2, 9});
        exhaust_maths<double, 4>({0, 0.5, 2, 9});
        exhaust_maths<float, 2>({-3, 0, 0.25f, 2, 9, 1e-30f, 1e30f});
        std::vector<C> ac;
        for (int i = -3; i <= 4; ++i) for (int j = -4; j <= 3; ++j) ac.emplace_back(i, j);
        exhaust_maths<C, 1>(ac);
        exhaust_maths<C, 2>({C(0, 0), C(3, 4), C(0, 1), C(-1, 2), C(2, -3)});
        exhaust_maths<std::complex<float>, 2>({{0, 0}, {3, 4}, {0, 1}, {-1, 2}});
    }
    mc::sample("a=[-1 0 2 2] b=[2 -1 0 0]: sum, dot, accumulate order, min, max, first index of the extremes");
    return mc::finish();
}
