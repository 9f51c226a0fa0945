// C05: element-wise matrix arithmetic and comparison, conjugation, hermitian transpose, real/imag, cast.
#include "blas.hpp"

template<typename T> T mconj(T x) { return x; }
template<typename R> std::complex<R> mconj(std::complex<R> x) { return {x.real(), -x.imag()}; }

template<typename T, std::size_t R, std::size_t C>
void one_state(const MM<T> &a, const MM<T> &b, T s, bool div) {
    const auto ma = impl<R, C>(a), mb = impl<R, C>(b);
    mc::state();
    auto chk = [&](const char *op, const auto &got, auto f) {
        mc::step(op);
        static_assert(std::decay_t<decltype(got)>::column_size == R && std::decay_t<decltype(got)>::row_size == C);
        for (std::size_t i = 0; i < R * C; ++i) {
            T want = f(i);
            if (!same(got.arrays[i / C][i % C], want)) {
                mc::violation(std::string("mat:") + op, mc::str(op, " ", R, "x", C, " a=", a, " b=", b, " s=", s, " cell ", i / C, ",", i % C, " got ", got.arrays[i / C][i % C], " want ", want));
                break;
            }
        }
    };
    const auto &x = a.e, &y = b.e;
    chk("matrix+matrix", ma + mb, [&](std::size_t i) { return T(x[i] + y[i]); });
    chk("matrix*matrix", ma * mb, [&](std::size_t i) { return T(x[i] * y[i]); });
    chk("matrix+scalar", ma + s, [&](std::size_t i) { return T(x[i] + s); });
    chk("scalar+matrix", s + ma, [&](std::size_t i) { return T(s + x[i]); });
    chk("matrix*scalar", ma * s, [&](std::size_t i) { return T(x[i] * s); });
    chk("scalar*matrix", s * ma, [&](std::size_t i) { return T(s * x[i]); });
    if constexpr (!std::is_same_v<T, Quat>) {
        bool bz = false;
        for (auto &e : y) bz |= e == T(0u);
        if (div && !bz) {
            chk("matrix/matrix", ma / mb, [&](std::size_t i) { return T(x[i] / y[i]); });
            chk("scalar/matrix", s / mb, [&](std::size_t i) { return T(s / y[i]); });
        }
        chk("conj", alg::conj(ma), [&](std::size_t i) { return mconj(x[i]); });
        mc::step("hermitian");
        auto h = hermitian(ma);
        static_assert(std::is_same_v<decltype(h), matrix<T, C, R>>);
        for (std::size_t i = 0; i < R; ++i)
            for (std::size_t j = 0; j < C; ++j)
                MC_CHECK(same(h.arrays[j][i], mconj(a.at(i, j))), "mat:hermitian", R, "x", C, " a=", a, " got ", mod(h));
    }
    chk("elementwise1", elementwise([&](T p) { return T(p * s + p); }, ma), [&](std::size_t i) { return T(x[i] * s + x[i]); });
    chk("elementwise2", elementwise([](T p, T q) { return T(p * p + q); }, ma, mb), [&](std::size_t i) { return T(x[i] * x[i] + y[i]); });
    chk("elementwise3", elementwise([](T p, T q, T r) { return T(p * q + q + r * r); }, ma, mb, ma), [&](std::size_t i) { return T(x[i] * y[i] + y[i] + x[i] * x[i]); });
    bool eq = true;
    for (std::size_t i = 0; i < R * C; ++i) if (x[i] != y[i]) eq = false;
    mc::step("==");
    MC_CHECK((ma == mb) == eq, "mat:==", R, "x", C, " a=", a, " b=", b);
    mc::step("!=");
    MC_CHECK((ma != mb) == !eq, "mat:!=", R, "x", C, " a=", a, " b=", b);
    if constexpr (alg::is_complex_v<T> || std::is_floating_point_v<T>) {
        mc::step("real");
        auto re = alg::real(ma);
        mc::step("imag");
        auto im = alg::imag(ma);
        for (std::size_t i = 0; i < R * C; ++i) {
            MC_CHECK(re.arrays[i / C][i % C] == std::real(x[i]), "mat:real", R, "x", C, " a=", a, " got ", mod(re));
            MC_CHECK(im.arrays[i / C][i % C] == std::imag(x[i]), "mat:imag", R, "x", C, " a=", a, " got ", mod(im));
        }
    }
    mc::trace();
}

template<typename T, std::size_t R, std::size_t C>
void exhaust(const std::vector<T> &alpha, const std::vector<T> &scalars, bool div) {
    all_assignments<T>(2 * R * C, alpha, [&](const std::vector<T> &v) {
        MM<T> a(R, C), b(R, C);
        for (std::size_t i = 0; i < R * C; ++i) { a.e[i] = v[i]; b.e[i] = v[R * C + i]; }
        for (auto &s : scalars) one_state<T, R, C>(a, b, s, div);
    });
}
template<typename T, std::size_t R, std::size_t C>
void tagged(bool div) {
    MM<T> a(R, C), b(R, C);
    for (std::size_t i = 0; i < R * C; ++i) { a.e[i] = tag<T>(i); b.e[i] = tag<T>(3 * i + 7); }
    one_state<T, R, C>(a, b, tag<T>(4), div);
    one_state<T, R, C>(b, a, tag<T>(1), div);
    one_state<T, R, C>(a, a, tag<T>(0), div);
    for (std::size_t k = 0; k < R * C; ++k) {
        MM<T> c = a, z(R, C), u(R, C);
        c.e[k] = tag<T>(R * C + 50);
        one_state<T, R, C>(a, c, tag<T>(2), div);
        one_state<T, R, C>(c, a, tag<T>(2), div);
        for (auto &e : z.e) e = T(0u);
        for (auto &e : u.e) e = T(1u);
        z.e[k] = u.e[k] = tag<T>(5);
        one_state<T, R, C>(z, u, tag<T>(2), div);
    }
}
using Sh = Shapes<Shape<1, 1>, Shape<1, 2>, Shape<2, 1>, Shape<2, 2>, Shape<1, 3>, Shape<3, 1>, Shape<2, 3>, Shape<3, 2>, Shape<3, 3>, Shape<2, 4>, Shape<4, 2>, Shape<3, 4>, Shape<4, 3>, Shape<4, 4>, Shape<1, 5>, Shape<5, 1>,
                  Shape<5, 3>, Shape<3, 5>, Shape<5, 5>, Shape<6, 6>, Shape<2, 7>, Shape<7, 2>, Shape<8, 8>, Shape<1, 17>, Shape<17, 1>, Shape<3, 16>, Shape<16, 3>, Shape<9, 9>>;
using Small = Shapes<Shape<1, 1>, Shape<1, 3>, Shape<3, 1>, Shape<2, 2>, Shape<2, 3>, Shape<3, 2>, Shape<3, 3>, Shape<4, 5>>;

int main(int argc, char **argv) {
    mc::init(argc, argv, "mat_ops");
    mc::hang_limit_s = 30;
    using C = std::complex<double>;
#if PART == 0
    {
        mc::ScopedSpace s("index-tagged operands and every single-cell perturbation, all listed shapes");
        for_shapes(Sh {}, [](auto sh) { using S = decltype(sh); tagged<int, S::r, S::c>(true); });
    }
#elif PART == 1
    {
        mc::ScopedSpace s("index-tagged operands and every single-cell perturbation, other scalar types");
        for_shapes(Small {}, [](auto sh) {
            using S = decltype(sh);
            tagged<double, S::r, S::c>(true);
            tagged<Quat, S::r, S::c>(false);
            tagged<C, S::r, S::c>(false);
        });
    }
#else
    {
        mc::ScopedSpace s("all operand pairs over small alphabets");
        std::vector<int> ai;
        for (int i = -9; i <= 9; ++i) ai.push_back(i);
        exhaust<int, 1, 1>(ai, ai, true);
        exhaust<int, 1, 2>({-5, -1, 0, 1, 3}, {-3, 0, 1, 4}, true);
        exhaust<int, 2, 1>({-5, -1, 0, 1, 3}, {-3, 0, 1, 4}, true);
        exhaust<int, 2, 2>({-1, 0, 2}, {-3, 2}, true);
        exhaust<int, 2, 3>({0, 1}, {5}, true);
        exhaust<int, 3, 2>({-1, 1}, {5}, true);
        std::vector<unsigned> au {0u, 1u, 2u, 3u, 7u, 0x7fffffffu, 0x80000000u, 0xfffffffeu, 0xffffffffu};
        exhaust<unsigned, 1, 1>(au, au, true);
        std::vector<double> ad {-8, -2.5, -1, -0.5, 0, 0.25, 1, 3, 1024, 1e300, -1e300};
        exhaust<double, 1, 1>(ad, ad, true);
        exhaust<double, 2, 2>({-2.5, 0, 4}, {-0.5}, true);
        std::vector<C> ac;
        for (int i = -2; i <= 2; ++i) for (int j = -2; j <= 2; ++j) ac.emplace_back(i, j);
        exhaust<C, 1, 1>(ac, {C(0, 0), C(1, 0), C(0, 1), C(2, -1)}, false);
        exhaust<C, 1, 2>({C(0, 0), C(1, 0), C(0, 1), C(2, -1)}, {C(1, 1)}, false);
        exhaust<C, 2, 1>({C(0, 0), C(1, 0), C(0, 1), C(2, -1)}, {C(1, 1)}, false);
        exhaust<Rat, 1, 2>({Rat::mk(-3, 2), Rat(0), Rat::mk(1, 3), Rat(2)}, {Rat::mk(5, 7)}, true);
        if (mc::thorough) {
            exhaust<int, 2, 2>({-3, -1, 0, 2, 5}, {-3, 2}, true);
            exhaust<int, 2, 3>({-1, 0, 2}, {5}, true);
            exhaust<int, 3, 2>({-1, 0, 2}, {5}, true);
            exhaust<C, 2, 2>({C(0, 0), C(1, 0), C(0, 1), C(2, -1)}, {C(1, 1)}, false);
        }
    }
    {
        mc::ScopedSpace s("IEEE specials in == and !=");
        const double nan = std::numeric_limits<double>::quiet_NaN(), inf = std::numeric_limits<double>::infinity();
        std::vector<double> sp {0.0, -0.0, 1.0, nan, inf};
        all_assignments<double>(4, sp, [&](const std::vector<double> &v) {
            MM<double> a(2, 1), b(2, 1);
            bool eq = true;
            for (std::size_t i = 0; i < 2; ++i) { a.e[i] = v[i]; b.e[i] = v[2 + i]; eq = eq && v[i] == v[2 + i]; }
            mc::state();
            mc::step("==");
            mc::step("!=");
            MC_CHECK((impl<2, 1>(a) == impl<2, 1>(b)) == eq, "mat:==-specials", "a=", a, " b=", b);
            MC_CHECK((impl<2, 1>(a) != impl<2, 1>(b)) == !eq, "mat:!=-specials", "a=", a, " b=", b);
        });
    }
    {
        mc::ScopedSpace s("cast");
        all_assignments<double>(4, {-2.75, -0.5, 0, 1.25, 2.999, 1000.5}, [&](const std::vector<double> &v) {
            MM<double> a(2, 2);
            a.e = v;
            mc::state();
            mc::step("cast");
            auto r = cast<int>(impl<2, 2>(a));
            static_assert(std::is_same_v<decltype(r), matrix<int, 2, 2>>);
            for (int i = 0; i < 4; ++i) MC_CHECK(r.arrays[i / 2][i % 2] == int(v[i]), "mat:cast", "a=", a, " got ", mod(r));
        });
        for_shapes(Sh {}, [](auto sh) {
            using S = decltype(sh);
            MM<int> a(S::r, S::c);
            for (std::size_t i = 0; i < S::r * S::c; ++i) a.e[i] = int(i) - 3;
            mc::state();
            mc::step("cast");
            auto r = cast<double>(impl<S::r, S::c>(a));
            for (std::size_t i = 0; i < S::r * S::c; ++i) MC_CHECK(r.arrays[i / S::c][i % S::c] == double(a.e[i]), "mat:cast-shape", S::r, "x", S::c, " got ", mod(r));
        });
    }
#endif
    mc::sample("a=[1 2; 3 4] b=[8 11; 14 17] s=5: + * / with matrix and scalar operands, == !=, conj, hermitian, elementwise");
    return mc::finish();
}
