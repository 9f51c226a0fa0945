// C02: construction, access and restructuring of vectors against a list model.
#include "blas.hpp"
#include <climits>
#include <deque>
#include <map>

template<typename T, std::size_t N>
void expect(const char *op, const vector<T, N> &got, const MV<T> &want, const std::string &ctx) {
    mc::step(op);
    if (!(mod(got) == want)) mc::violation(std::string("vec:") + op, mc::str(op, " ", ctx, " got ", mod(got), " want ", want));
}

template<typename T, std::size_t N>
MV<T> tags(std::size_t off = 0) {
    MV<T> a(N);
    for (std::size_t i = 0; i < N; ++i) a[i] = tag<T>(i + off);
    return a;
}

template<typename T, std::size_t N>
void access() {
    mc::state();
    MV<T> a = tags<T, N>();
    vector<T, N> v = impl<N>(a);
    const vector<T, N> &cv = v;
    static_assert(vector<T, N>::size == N);
    static_assert(std::is_same_v<typename vector<T, N>::value_type, T>);
    mc::step("iterators");
    MC_CHECK(v.end() - v.begin() == std::ptrdiff_t(N) && cv.cend() - cv.cbegin() == std::ptrdiff_t(N), "vec:iterators", "N=", N);
    MC_CHECK(v.begin() == &v[0] && cv.cbegin() == &cv[0], "vec:begin", "N=", N);
    std::size_t k = 0;
    for (auto &x : v) { MC_CHECK(x == a[k], "vec:iteration", "N=", N, " k=", k); ++k; }
    MC_CHECK(k == N, "vec:iteration-length", "N=", N, " visited ", k);
    k = 0;
    for (auto p = cv.cbegin(); p != cv.cend() && k <= N; ++p, ++k) MC_CHECK(*p == a[k], "vec:const-iteration", "N=", N, " k=", k);
    MC_CHECK(k == N, "vec:const-iteration-length", "N=", N);
    for (std::size_t i = 0; i < N; ++i) {
        mc::step("operator[]");
        MC_CHECK(v[i] == a[i] && cv[i] == a[i] && &v[i] == &cv[i], "vec:index", "N=", N, " i=", i);
        vector<T, N> w = v;
        w[i] = tag<T>(500);
        MV<T> b = a;
        b[i] = tag<T>(500);
        MC_CHECK(mod(w) == b, "vec:index-write", "N=", N, " i=", i);
        *(w.begin() + i) = a[i];
        MC_CHECK(mod(w) == a, "vec:iterator-write", "N=", N, " i=", i);
    }
}

template<typename T, std::size_t N>
void construct(const std::vector<T> &values) {
    for (const T &x : values) {
        mc::state();
        MV<T> w(N);
        for (auto &e : w.e) e = x;
        expect("fill", alg::fill<N>(x), w, mc::str("N=", N, " value=", x));
        T c = x;
        for (auto &e : w.e) { e = c; c = c + T(1u); }
        expect("iota", alg::iota<N>(x), w, mc::str("N=", N, " from ", x));
    }
    mc::state();
    MV<T> w(N);
    for (std::size_t i = 0; i < N; ++i) w[i] = tag<T>(i * i + 1);
    expect("generate", alg::generate<N>([](std::size_t i) { return tag<T>(i * i + 1); }), w, mc::str("N=", N));
    std::vector<std::size_t> calls;
    mc::step("generate");
    auto g = alg::generate<N>([&](std::size_t i) { calls.push_back(i); return tag<T>(i); });
    MC_CHECK(mod(g) == (tags<T, N>()), "vec:generate-stateful", "N=", N);
    MV<T> z(N);
    T c = T();
    for (auto &e : z.e) { e = c; c = c + T(1u); }
    expect("iota-default", alg::iota<N, T>(), z, mc::str("N=", N));
}

template<std::size_t N>
void lin() {
    // spacings that are powers of two are exact, so every element is exact; otherwise a few ulps
    for (int lo = -6; lo <= 6; ++lo)
        for (int k = -4; k <= 4; ++k) {
            mc::state();
            double step = std::ldexp(1.0, k), hi = lo + step * double(N - 1);
            for (int sgn = 0; sgn < 2; ++sgn) {
                double a = sgn ? hi : lo, b = sgn ? lo : hi;
                mc::step("linspace");
                auto v = alg::linspace<N>(a, b);
                for (std::size_t i = 0; i < N; ++i) {
                    double want = N == 1 ? a : a + (sgn ? -step : step) * double(i);
                    MC_CHECK(std::abs(v.array[i] - want) <= 1e-12 * (std::abs(a) + std::abs(b) + 1), "vec:linspace", "N=", N, " [", a, ",", b, "] i=", i, " got ", v.array[i], " want ", want);
                }
            }
        }
    for (double a : {0.0, 0.1, -3.7, 1e6, -1e-6})
        for (double b : {0.0, 0.3, 12.5, -1e6, 1e-3}) {
            mc::state();
            mc::step("linspace");
            auto v = alg::linspace<N>(a, b);
            for (std::size_t i = 0; i < N; ++i) {
                double want = N == 1 ? a : a + (b - a) * double(i) / double(N - 1);
                MC_CHECK(std::abs(v.array[i] - want) <= 1e-12 * (std::abs(a) + std::abs(b) + 1e-300), "vec:linspace-general", "N=", N, " [", a, ",", b, "] i=", i, " got ", v.array[i], " want ", want);
            }
            mc::step("linspace<float>");
            auto f = alg::linspace<N>(float(a), float(b));
            for (std::size_t i = 0; i < N; ++i) {
                double want = N == 1 ? double(float(a)) : float(a) + (double(float(b)) - float(a)) * double(i) / double(N - 1);
                MC_CHECK(std::abs(f.array[i] - want) <= 1e-5 * (std::abs(a) + std::abs(b) + 1e-30), "vec:linspace-float", "N=", N, " [", a, ",", b, "] i=", i, " got ", f.array[i], " want ", want);
            }
        }
}

template<typename T, std::size_t N>
void rotations() {
    MV<T> a = tags<T, N>();
    std::vector<int> ns;
    const int w = int(N) * 3 + 2;
    for (int n = -w; n <= w; ++n) ns.push_back(n);
    for (int n : {1000, -1000, 65535, -65536, 1000000, -1000000}) ns.push_back(n);
    for (int n : {INT_MAX, INT_MAX - 1, INT_MAX - 7, INT_MIN, INT_MIN + 1, INT_MIN + 7}) ns.push_back(n);
    for (int n : ns) {
        if (n < -2000000 && N < 5) continue;    // linear-time normalisation of the shift: keep the extreme cases few
        mc::state();
        MV<T> want(N);
        long long m = ((long long)n % (long long)N + (long long)N) % (long long)N;
        for (std::size_t i = 0; i < N; ++i) want[i] = a[std::size_t((i + m) % N)];
        mc::cur_args = mc::str("N=", N, " n=", n);
        expect("rotate", alg::rotate(impl<N>(a), n), want, mc::str("N=", N, " n=", n));
    }
}

template<typename T, std::size_t N, std::size_t M>
void slices() {
    if constexpr (M >= 1 && M <= N) {
        MV<T> a = tags<T, N>();
        for (std::size_t s = 0; s + M <= N; ++s) {
            mc::state();
            MV<T> want(M);
            for (std::size_t i = 0; i < M; ++i) want[i] = a[s + i];
            expect("slice", alg::slice<M>(impl<N>(a), s), want, mc::str("N=", N, " M=", M, " start=", s));
            if (s == 0) expect("slice-default", alg::slice<M>(impl<N>(a)), want, mc::str("N=", N, " M=", M));
        }
    }
}
template<typename T, std::size_t N, std::size_t M>
void concats() {
    mc::state();
    MV<T> a = tags<T, N>(), b = tags<T, M>(100), w(N + M);
    for (std::size_t i = 0; i < N; ++i) w[i] = a[i];
    for (std::size_t i = 0; i < M; ++i) w[N + i] = b[i];
    expect("concat", alg::concat(impl<N>(a), impl<M>(b)), w, mc::str("N=", N, " M=", M));
}
template<typename T, std::size_t N, std::size_t... M>
void pairs(std::index_sequence<M...>) {
    (slices<T, N, M>(), ...);
    (concats<T, N, M>(), ...);
}

template<typename T, std::size_t... I>
void makev(std::index_sequence<I...>) {
    constexpr std::size_t N = sizeof...(I);
    mc::state();
    auto v = make_vector(tag<T>(I)...);
    static_assert(std::is_same_v<decltype(v), vector<T, N>>);
    expect("make_vector", v, tags<T, N>(), mc::str("N=", N));
    vector u {tag<T>(I)...};
    static_assert(std::is_same_v<decltype(u), vector<T, N>>);
    expect("vector{...}", u, tags<T, N>(), mc::str("N=", N));
    vector w {{tag<T>(I)...}};
    expect("vector{{...}}", w, tags<T, N>(), mc::str("N=", N));
}

// explicit-state search: every arrangement of N tagged cells reachable through rotate / slice+concat / generate copies
template<std::size_t N>
void arrangements() {
    using V = std::vector<int>;
    std::map<V, unsigned> seen;
    std::deque<V> q;
    V init(N);
    std::iota(init.begin(), init.end(), 1);
    seen[init] = 0;
    q.push_back(init);
    auto push = [&](const char *op, const vector<int, N> &got, const V &want, const V &from, unsigned d) {
        mc::step(op);
        V g(got.array, got.array + N);
        if (g != want) { MV<int> f, w; f.e = from; w.e = want; mc::violation(std::string("vec:seq:") + op, mc::str(op, " on ", f, " got ", mod(got), " want ", w)); return; }
        if (seen.emplace(want, d + 1).second) q.push_back(want);
    };
    while (!q.empty()) {
        V s = q.front();
        q.pop_front();
        unsigned d = seen[s];
        mc::state();
        mc::trace();
        vector<int, N> v {};
        for (std::size_t i = 0; i < N; ++i) v.array[i] = s[i];
        for (int n : {1, -1, 2, int(N)}) {
            V w(N);
            for (std::size_t i = 0; i < N; ++i) w[i] = s[std::size_t((int(i) + n + int(N)) % int(N))];
            push("rotate", alg::rotate(v, n), w, s, d);
        }
        {    // swap the two halves, and move the first element behind the next two
            V w(s.begin() + 2, s.end());
            w.insert(w.end(), s.begin(), s.begin() + 2);
            push("slice+concat", alg::concat(alg::slice<N - 2>(v, 2), alg::slice<2>(v)), w, s, d);
            V u = s;
            std::swap(u[0], u[1]);
            push("slice*3+concat", alg::concat(alg::concat(alg::slice<1>(v, 1), alg::slice<1>(v, 0)), alg::slice<N - 2>(v, 2)), u, s, d);
            V r(s.rbegin(), s.rend());
            push("generate(reverse)", alg::generate<N>([&](std::size_t i) { return v[N - 1 - i]; }), r, s, d);
        }
    }
}

template<typename T, std::size_t... N>
void all_len(std::index_sequence<N...>) {
    (access<T, N>(), ...);
    (construct<T, N>({tag<T>(0), tag<T>(9), T(0u)}), ...);
}

int main(int argc, char **argv) {
    mc::init(argc, argv, "vec_struct");
    mc::hang_limit_s = 60;
    using Lens = std::index_sequence<1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 31, 32, 33, 64, 65, 127, 128, 129>;
    using Few = std::index_sequence<1, 2, 3, 4, 5, 8, 16, 17, 33>;
    {
        mc::ScopedSpace s("access, iteration, fill, iota, generate over all listed lengths");
        all_len<int>(Lens {});
        all_len<double>(Few {});
        all_len<Rat>(Few {});
        all_len<unsigned>(Few {});
        all_len<std::complex<double>>(std::index_sequence<1, 2, 3, 5> {});
        construct<int, 5>({-3, -1, 0, 1, 1000000});
        construct<unsigned, 5>({0xfffffffeu, 0xffffffffu, 0x7fffffffu});
        construct<float, 4>({0.5f, -2.25f});
        std::size_t one = 0;
        (void)one;
    }
    {
        mc::ScopedSpace s("linspace over a grid of end points");
        for_sizes(std::index_sequence<1, 2, 3, 4, 5, 6, 7, 8, 9, 16, 17, 33> {}, [](auto n) { lin<decltype(n)::value>(); });
    }
    {
        mc::ScopedSpace s("rotate by every shift in [-3N-2,3N+2] and extreme shifts");
        for_sizes(Lens {}, [](auto n) { rotations<int, decltype(n)::value>(); });
        for_sizes(Few {}, [](auto n) { rotations<double, decltype(n)::value>(); });
    }
    {
        mc::ScopedSpace s("slice and concat, every length pair and start");
        using L8 = std::index_sequence<1, 2, 3, 4, 5, 6, 7, 8, 9, 16, 17>;
        for_sizes(L8 {}, [](auto n) { pairs<int, decltype(n)::value>(L8 {}); });
        for_sizes(std::index_sequence<1, 2, 3, 5> {}, [](auto n) { pairs<double, decltype(n)::value>(std::index_sequence<1, 2, 3, 4, 5, 9> {}); });
        for_sizes(std::index_sequence<33, 65> {}, [](auto n) { pairs<int, decltype(n)::value>(std::index_sequence<1, 16, 31, 32, 33, 64> {}); });
    }
    {
        mc::ScopedSpace s("make_vector and deduction guides");
        for_sizes(std::index_sequence<1, 2, 3, 4, 5, 6, 7, 8, 9, 16, 17> {}, [](auto n) {
            makev<int>(std::make_index_sequence<decltype(n)::value> {});
            makev<double>(std::make_index_sequence<decltype(n)::value> {});
            makev<Rat>(std::make_index_sequence<decltype(n)::value> {});
        });
    }
    {
        mc::ScopedSpace s("arrangements of N tagged cells reachable by operation sequences (breadth-first, N=3..6)");
        arrangements<3>();
        arrangements<4>();
        arrangements<5>();
        arrangements<6>();
        if (mc::thorough) { arrangements<7>(); arrangements<8>(); }
    }
    mc::sample("rotate([1 2 3 4 5], -7) == [4 5 1 2 3]");
    mc::sample("breadth-first search over arrangements of 6 cells: rotate, slice+concat, generate");
    return mc::finish();
}
