// C01: element-wise vector arithmetic, comparison, elementwise() and cast() against a per-element model.
#include "blas.hpp"

// the element-wise model: position i of the result depends on position i of the operands only
template<typename T, std::size_t N>
void one_state(const MV<T> &a, const MV<T> &b, T s, bool div) {
    const auto va = impl<N>(a);
    const auto vb = impl<N>(b);
    mc::state();
    auto chk = [&](const char *op, const auto &got, auto f) {
        mc::step(op);
        static_assert(std::decay_t<decltype(got)>::size == N);
        for (std::size_t i = 0; i < N; ++i) {
            T want = f(i);
            if (!same(got.array[i], want)) {
                mc::violation(std::string("vec:") + op, mc::str(op, " N=", N, " a=", a, " b=", b, " s=", s, " i=", i, " got ", got.array[i], " want ", want));
                break;
            }
        }
    };
    chk("vector+vector", va + vb, [&](std::size_t i) { return T(a[i] + b[i]); });
    chk("vector*vector", va * vb, [&](std::size_t i) { return T(a[i] * b[i]); });
    chk("vector+scalar", va + s, [&](std::size_t i) { return T(a[i] + s); });
    chk("scalar+vector", s + va, [&](std::size_t i) { return T(s + a[i]); });
    chk("vector*scalar", va * s, [&](std::size_t i) { return T(a[i] * s); });
    chk("scalar*vector", s * va, [&](std::size_t i) { return T(s * a[i]); });
    if constexpr (!std::is_same_v<T, Quat>) {
        if (div) {
            bool bz = false;
            for (auto &x : b.e) bz |= x == T(0u);
            if (!bz) {
                chk("vector/vector", va / vb, [&](std::size_t i) { return T(a[i] / b[i]); });
                chk("scalar/vector", s / vb, [&](std::size_t i) { return T(s / b[i]); });
            }
        }
    }
    mc::step("==");
    bool eq = true;
    for (std::size_t i = 0; i < N; ++i) if (a[i] != b[i]) eq = false;
    MC_CHECK((va == vb) == eq, "vec:==", "N=", N, " a=", a, " b=", b, " got ", va == vb);
    mc::step("!=");
    MC_CHECK((va != vb) == !eq, "vec:!=", "N=", N, " a=", a, " b=", b, " got ", va != vb);
    chk("elementwise1", elementwise([&](T x) { return T(x * s + x); }, va), [&](std::size_t i) { return T(a[i] * s + a[i]); });
    chk("elementwise2", elementwise([](T x, T y) { return T(x * x + y); }, va, vb), [&](std::size_t i) { return T(a[i] * a[i] + b[i]); });
    chk("elementwise3", elementwise([](T x, T y, T z) { return T(x * y + y + z * z); }, va, vb, va), [&](std::size_t i) { return T(a[i] * b[i] + b[i] + a[i] * a[i]); });
    // operands are left alone
    for (std::size_t i = 0; i < N; ++i)
        MC_CHECK(va.array[i] == a[i] && vb.array[i] == b[i], "vec:operand-modified", "N=", N, " a=", a);
    mc::trace();
}

template<typename T, std::size_t N>
void exhaust(const std::vector<T> &alpha, const std::vector<T> &scalars, bool div) {
    all_assignments<T>(2 * N, alpha, [&](const std::vector<T> &v) {
        MV<T> a(N), b(N);
        for (std::size_t i = 0; i < N; ++i) { a[i] = v[i]; b[i] = v[N + i]; }
        for (auto &s : scalars) one_state<T, N>(a, b, s, div);
    });
}

// index-tagged operands: every cell distinct, plus the pair differing in exactly one cell
template<typename T, std::size_t N>
void tagged(bool div) {
    MV<T> a(N), b(N);
    for (std::size_t i = 0; i < N; ++i) { a[i] = tag<T>(i); b[i] = tag<T>(3 * i + 7); }
    one_state<T, N>(a, b, tag<T>(4), div);
    one_state<T, N>(b, a, tag<T>(1), div);
    one_state<T, N>(a, a, tag<T>(0), div);
    for (std::size_t k = 0; k < N; ++k) {
        MV<T> c = a;
        c[k] = tag<T>(N + 50);
        one_state<T, N>(a, c, tag<T>(2), div);
        one_state<T, N>(c, a, tag<T>(2), div);
        MV<T> z(N), u(N);    // all zero except one cell; all ones except one cell
        for (std::size_t i = 0; i < N; ++i) { z[i] = T(0u); u[i] = T(1u); }
        z[k] = tag<T>(5);
        u[k] = tag<T>(5);
        one_state<T, N>(z, u, tag<T>(2), div);
        one_state<T, N>(u, z, tag<T>(2), div);
    }
}

template<typename T, std::size_t... N>
void tagged_all(std::index_sequence<N...>, bool div) {
    (tagged<T, N>(div), ...);
}

template<typename T, typename U, std::size_t N>
void cast_states(const std::vector<U> &alpha) {
    all_assignments<U>(N, alpha, [&](const std::vector<U> &v) {
        MV<U> a(N);
        a.e = v;
        mc::state();
        mc::step("cast");
        auto r = cast<T>(impl<N>(a));
        static_assert(std::is_same_v<decltype(r), vector<T, N>>);
        for (std::size_t i = 0; i < N; ++i)
            MC_CHECK(r.array[i] == static_cast<T>(a[i]), "vec:cast", "N=", N, " a=", a, " got ", r.array[i]);
    });
}

int main(int argc, char **argv) {
    mc::init(argc, argv, "vec_ops");
    mc::hang_limit_s = 30;
    using Small = std::index_sequence<1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129>;
    using Few = std::index_sequence<1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 32, 33, 65>;
    {
        mc::ScopedSpace s("index-tagged operands, every length in the list, every single-cell perturbation");
        tagged_all<int>(Small {}, true);
        tagged_all<double>(Small {}, true);
        tagged_all<float>(Few {}, true);
        tagged_all<std::uint64_t>(Few {}, true);
        tagged_all<std::complex<double>>(Few {}, false);
        tagged_all<Rat>(Few {}, true);
        tagged_all<Quat>(Few {}, false);
    }
    {
        mc::ScopedSpace s("all operand pairs over small alphabets (lengths 1..3)");
        std::vector<int> ai;
        for (int i = -12; i <= 12; ++i) ai.push_back(i);
        exhaust<int, 1>(ai, ai, true);
        exhaust<int, 2>({-7, -2, -1, 0, 1, 3}, {-3, 0, 1, 5}, true);
        exhaust<int, 3>({-2, -1, 0, 1}, {-3, 2}, true);
        exhaust<int, 4>({-1, 0, 2}, {-3}, true);
        std::vector<unsigned> au {0u, 1u, 2u, 3u, 7u, 0x7fffffffu, 0x80000000u, 0x80000001u, 0xfffffffeu, 0xffffffffu, 0x10000u, 0xffffu};
        exhaust<unsigned, 1>(au, au, true);
        exhaust<unsigned, 2>({0u, 1u, 0x80000000u, 0xffffffffu}, {0u, 3u, 0xffffffffu}, true);
        std::vector<std::uint64_t> al {0u, 1u, 2u, 0x7fffffffu, 0xffffffffu, 0x100000000ull, 0x8000000000000000ull, ~0ull};
        exhaust<std::uint64_t, 1>(al, al, true);
        std::vector<double> ad {-8, -2.5, -1, -0.5, 0, 0.25, 1, 3, 1024, 1e300, -1e300, 1e-300, 5e-324};
        exhaust<double, 1>(ad, ad, true);
        exhaust<double, 2>({-2.5, -1, 0, 1, 4}, {-0.5, 3}, true);
        std::vector<float> af {-8, -2.5f, -1, -0.5f, 0, 0.25f, 1, 3, 1e30f, -1e30f};
        exhaust<float, 1>(af, af, true);
        std::vector<std::complex<double>> ac;
        for (int i = -2; i <= 2; ++i) for (int j = -2; j <= 2; ++j) ac.emplace_back(i, j);
        exhaust<std::complex<double>, 1>(ac, ac, false);
        std::vector<Rat> ar;
        for (int n = -3; n <= 3; ++n) for (int d = 1; d <= 3; ++d) ar.push_back(Rat::mk(n, d));
        exhaust<Rat, 1>(ar, ar, true);
        std::vector<Quat> aq {Quat(0), Quat(1), Quat(0, 1, 0, 0), Quat(0, 0, 1, 0), Quat(0, 0, 0, 1), Quat(1, 2, -1, 3), Quat(-2, 0, 1, 1)};
        exhaust<Quat, 1>(aq, aq, false);
        exhaust<Quat, 2>({Quat(0), Quat(0, 1, 0, 0), Quat(0, 0, 1, 0), Quat(1, 2, -1, 3)}, aq, false);
        if (mc::thorough) {
            exhaust<int, 3>({-5, -2, -1, 0, 1, 3}, {-3, 2}, true);
            exhaust<int, 5>({-1, 0, 2}, {-3, 4}, true);
            exhaust<double, 3>({-2.5, -1, 0, 1, 4, 7}, {-0.5, 3}, true);
            exhaust<unsigned, 3>({0u, 1u, 5u, 0x80000000u, 0xffffffffu}, {0u, 3u, 0xffffffffu}, true);
            std::vector<int> big;
            for (int i = -150; i <= 150; ++i) big.push_back(i);
            exhaust<int, 1>(big, {-7, 0, 1, 11}, true);
        }
    }
    {
        mc::ScopedSpace s("IEEE specials in == and !=");
        const double nan = std::numeric_limits<double>::quiet_NaN(), inf = std::numeric_limits<double>::infinity();
        std::vector<double> sp {0.0, -0.0, 1.0, nan, inf, -inf, 5e-324};
        auto eqs = [&](auto n) {
            constexpr std::size_t N = decltype(n)::value;
            all_assignments<double>(2 * N, sp, [&](const std::vector<double> &v) {
                MV<double> a(N), b(N);
                bool eq = true;
                for (std::size_t i = 0; i < N; ++i) { a[i] = v[i]; b[i] = v[N + i]; eq = eq && a[i] == b[i]; }
                mc::state();
                mc::step("==");
                mc::step("!=");
                MC_CHECK((impl<N>(a) == impl<N>(b)) == eq, "vec:==-specials", "a=", a, " b=", b);
                MC_CHECK((impl<N>(a) != impl<N>(b)) == !eq, "vec:!=-specials", "a=", a, " b=", b);
            });
        };
        eqs(std::integral_constant<std::size_t, 1> {});
        eqs(std::integral_constant<std::size_t, 2> {});
    }
    {
        mc::ScopedSpace s("cast");
        cast_states<int, double, 3>({-2.75, -1, -0.5, 0, 0.5, 1.25, 2.999, 100000.5});
        cast_states<double, int, 3>({-5, -1, 0, 1, 7, 1 << 30});
        cast_states<unsigned, int, 2>({-5, -1, 0, 1, 7, INT32_MAX, INT32_MIN});
        cast_states<unsigned char, int, 2>({-5, -1, 0, 1, 7, 255, 256, 300});
        cast_states<bool, int, 3>({-5, 0, 1, 7});
        cast_states<float, double, 2>({-2.75, 1e10, 0, 0.1, 1.0 / 3});
        cast_states<long, int, 17>({9});
        cast_states<int, double, 33>({9.75});
    }
    mc::sample("a=[1 2] b=[8 11] s=5: + * / with vector and scalar operands, ==, !=, elementwise over 1..3 vectors");
    return mc::finish();
}
