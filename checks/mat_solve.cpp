// C07: rref and rank. C08: det and inverse. Exact scalar types decide the algebra, double decides the tolerance logic.
#include "blas.hpp"

// reference Gauss-Jordan over an exact field: the reduced row echelon form is unique
template<typename T>
std::size_t model_rref(MM<T> &m, T *det = nullptr) {
    std::size_t r = 0;
    T d = T(1);
    for (std::size_t c = 0; c < m.c && r < m.r; ++c) {
        std::size_t p = r;
        while (p < m.r && m.at(p, c) == T(0)) ++p;
        if (p == m.r) continue;
        if (p != r) { for (std::size_t j = 0; j < m.c; ++j) std::swap(m.at(p, j), m.at(r, j)); d = -d; }
        T s = m.at(r, c);
        d = d * s;
        for (std::size_t j = 0; j < m.c; ++j) m.at(r, j) = m.at(r, j) / s;
        for (std::size_t i = 0; i < m.r; ++i)
            if (i != r && m.at(i, c) != T(0)) {
                T f = m.at(i, c);
                for (std::size_t j = 0; j < m.c; ++j) m.at(i, j) = m.at(i, j) - f * m.at(r, j);
            }
        ++r;
    }
    if (det) *det = r == m.r ? d : T(0);
    return r;
}
template<typename T>
MM<T> mmul(const MM<T> &a, const MM<T> &b) {
    MM<T> w(a.r, b.c);
    for (std::size_t i = 0; i < a.r; ++i) for (std::size_t j = 0; j < b.c; ++j) { T s = T(0); for (std::size_t k = 0; k < a.c; ++k) s = s + a.at(i, k) * b.at(k, j); w.at(i, j) = s; }
    return w;
}
template<typename T>
double dbl(T x) { return double(x); }
inline double dbl(Rat x) { return double(x.n) / double(x.d); }
inline Rat to_rat(double x) {    // exact for the dyadic alphabets used here
    int k = 0;
    while (x != std::floor(x) && k < 40) { x *= 2; ++k; }
    return Rat::mk((__int128)x, (__int128)1 << k);
}

// ---- C07
template<typename T, std::size_t R, std::size_t C>
void rref_exact(const MM<T> &a) {
    mc::state();
    mc::trace();
    MM<T> w = a;
    std::size_t rk = model_rref(w);
    auto m = impl<R, C>(a);
    mc::step("rref");
    auto g = rref(m);
    MC_CHECK(mod(g) == w, "mat:rref", R, "x", C, " m=", a, " got ", mod(g), " want ", w);
    mc::step("rref(tolerance 0)");
    auto g0 = rref(m, T(0));
    MC_CHECK(mod(g0) == w, "mat:rref-tol0", R, "x", C, " m=", a, " got ", mod(g0), " want ", w);
    mc::step("rank");
    MC_CHECK(rank(m) == rk, "mat:rank", R, "x", C, " m=", a, " got ", rank(m), " want ", rk);
    mc::step("rref(rref)");
    MC_CHECK(mod(rref(g)) == w, "mat:rref-idempotent", R, "x", C, " m=", a);
    MC_CHECK(mod(m) == a, "mat:operand-modified", R, "x", C, " m=", a);
}
template<std::size_t R, std::size_t C>
void rref_double(const MM<double> &a, double scale) {
    mc::state();
    mc::trace();
    MM<Rat> w(R, C);
    MM<double> s(R, C);
    for (std::size_t i = 0; i < R * C; ++i) { w.e[i] = to_rat(a.e[i]); s.e[i] = a.e[i] * scale; }
    std::size_t rk = model_rref(w);
    auto m = impl<R, C>(s);
    mc::step("rref<double>");
    auto g = rref(m);
    for (std::size_t i = 0; i < R * C; ++i)
        if (!(std::abs(g.arrays[i / C][i % C] - dbl(w.e[i])) <= 1e-9)) {
            mc::violation("mat:rref-double", mc::str(R, "x", C, " m=", s, " got ", mod(g), " want ", w));
            break;
        }
    mc::step("rank<double>");
    MC_CHECK(rank(m) == rk, "mat:rank-double", R, "x", C, " m=", s, " got ", rank(m), " want ", rk);
}
template<typename T, std::size_t R, std::size_t C>
void ex7(const std::vector<T> &al) {
    std::size_t k = 0;
    all_assignments<T>(R * C, al, [&](const std::vector<T> &v) { if (!mc::mine()) return; (void)k; MM<T> a(R, C); a.e = v; rref_exact<T, R, C>(a); });
}
template<std::size_t R, std::size_t C>
void exd7(const std::vector<double> &al, double scale = 1) {
    all_assignments<double>(R * C, al, [&](const std::vector<double> &v) { if (!mc::mine()) return; MM<double> a(R, C); a.e = v; rref_double<R, C>(a, scale); });
}
// the explicit tolerance decides which pivots count
template<std::size_t N>
void tolerances() {
    for (double tol : {1e-12, 1e-6, 1e-3, 0.5})
        for (unsigned mask = 0; mask < (1u << N); ++mask)
            for (int neg = 0; neg < 2; ++neg) {
                // diagonal matrix; cells in mask are well below the tolerance, the others well above
                mc::state();
                MM<double> a(N, N), w(N, N);
                std::size_t row = 0;
                (void)row;
                for (std::size_t i = 0; i < N; ++i) {
                    double v = (mask >> i & 1) ? tol / 8 : tol * 16;
                    a.at(i, i) = neg ? -v : v;
                }
                mc::step("rref(tolerance)");
                auto g = rref(impl<N, N>(a), tol);
                // rows above the tolerance become unit rows, in order; what is below the tolerance may stay or vanish
                std::size_t r = 0;
                bool ok = true;
                for (std::size_t j = 0; j < N; ++j)
                    if (!(mask >> j & 1)) {
                        for (std::size_t i = 0; i < N; ++i) ok = ok && std::abs(g.arrays[i][j] - (i == r ? 1.0 : 0.0)) < 1e-9;
                        ++r;
                    } else
                        for (std::size_t i = 0; i < N; ++i) ok = ok && std::abs(g.arrays[i][j]) <= tol;
                MC_CHECK(ok, "mat:rref-tolerance", "diag ", a, " tol=", tol, " got ", mod(g));
                mc::step("rref(huge tolerance)");
                // nothing reaches the tolerance: the rows come back unchanged, in some order
                auto rows = [](const MM<double> &x) { std::multiset<std::vector<double>> r; for (std::size_t i = 0; i < N; ++i) r.emplace(x.e.begin() + i * N, x.e.begin() + (i + 1) * N); return r; };
                MC_CHECK(rows(mod(rref(impl<N, N>(a), 1e9))) == rows(a), "mat:rref-tolerance-all", "diag ", a, " got ", mod(rref(impl<N, N>(a), 1e9)));
            }
}

// ---- C08
template<typename T, std::size_t N>
void inv_exact(const MM<T> &a) {
    mc::state();
    mc::trace();
    MM<T> w = a;
    T d;
    std::size_t rk = model_rref(w, &d);
    auto m = impl<N, N>(a);
    mc::step("det");
    MC_CHECK(det(m) == d, "mat:det", N, "x", N, " m=", a, " got ", det(m), " want ", d);
    mc::step("inverse");
    try {
        auto g = inverse(m);
        MC_CHECK(rk == N, "mat:inverse-singular", N, "x", N, " m=", a, " did not throw");
        if (rk == N) {
            MM<T> id(N, N);
            for (std::size_t i = 0; i < N; ++i) for (std::size_t j = 0; j < N; ++j) id.at(i, j) = T(i == j ? 1 : 0);
            MC_CHECK(mmul(a, mod(g)) == id && mmul(mod(g), a) == id, "mat:inverse", N, "x", N, " m=", a, " got ", mod(g));
        }
    } catch (const char *) {
        MC_CHECK(rk < N, "mat:inverse-throws", N, "x", N, " m=", a, " threw although invertible");
    }
}
template<std::size_t N>
void inv_double(const MM<double> &a, double scale) {
    mc::state();
    mc::trace();
    MM<Rat> w(N, N);
    MM<double> s(N, N);
    for (std::size_t i = 0; i < N * N; ++i) { w.e[i] = to_rat(a.e[i]); s.e[i] = a.e[i] * scale; }
    MM<Rat> aug(N, 2 * N), red = w;
    Rat d;
    std::size_t rk = model_rref(red, &d);
    for (std::size_t i = 0; i < N; ++i) for (std::size_t j = 0; j < 2 * N; ++j) aug.at(i, j) = j < N ? w.at(i, j) : Rat(j - N == i ? 1 : 0);
    model_rref(aug);
    auto m = impl<N, N>(s);
    double sd = std::pow(scale, int(N));
    mc::step("det<double>");
    MC_CHECK(std::abs(det(m) - dbl(d) * sd) <= 1e-9 * sd * (1 + std::abs(dbl(d))), "mat:det-double", N, "x", N, " m=", s, " got ", det(m), " want ", dbl(d) * sd);
    mc::step("inverse<double>");
    try {
        auto g = inverse(m);
        MC_CHECK(rk == N, "mat:inverse-singular-double", N, "x", N, " m=", s, " did not throw");
        if (rk == N)
            for (std::size_t i = 0; i < N; ++i) for (std::size_t j = 0; j < N; ++j) {
                double want = dbl(aug.at(i, N + j)) / scale;
                if (!(std::abs(g.arrays[i][j] - want) <= 1e-8 * (1 + std::abs(want * scale)) / scale)) { mc::violation("mat:inverse-double", mc::str(N, "x", N, " m=", s, " got ", mod(g), " cell ", i, ",", j, " want ", want)); return; }
            }
    } catch (const char *) {
        MC_CHECK(rk < N, "mat:inverse-throws-double", N, "x", N, " m=", s, " threw although invertible");
    }
}
template<typename T, std::size_t N>
void ex8(const std::vector<T> &al) {
    all_assignments<T>(N * N, al, [&](const std::vector<T> &v) { if (!mc::mine()) return; MM<T> a(N, N); a.e = v; inv_exact<T, N>(a); });
}
template<std::size_t N>
void exd8(const std::vector<double> &al, double scale = 1) {
    all_assignments<double>(N * N, al, [&](const std::vector<double> &v) { if (!mc::mine()) return; MM<double> a(N, N); a.e = v; inv_double<N>(a, scale); });
}
// entries of very different size: det must be the Leibniz value and inverse two-sided, up to rounding relative to the largest entry
template<std::size_t N>
void mixed8(const std::vector<double> &al) {
    all_assignments<double>(N * N, al, [&](const std::vector<double> &v) {
        if (!mc::mine()) return;
        MM<double> a(N, N);
        a.e = v;
        mc::state();
        mc::trace();
        std::vector<int> p(N);
        std::iota(p.begin(), p.end(), 0);
        long double want = 0;
        do {
            long double t = 1;
            for (std::size_t i = 0; i < N; ++i) {
                t *= a.at(i, std::size_t(p[i]));
                for (std::size_t j = 0; j < i; ++j) if (p[j] > p[i]) t = -t;
            }
            want += t;
        } while (std::next_permutation(p.begin(), p.end()));
        double mx = 0;
        for (double x : v) mx = std::max(mx, std::abs(x));
        double big = std::pow(mx, int(N));
        auto m = impl<N, N>(a);
        mc::step("det<double>");
        MC_CHECK(std::abs(det(m) - double(want)) <= 1e-9 * big, "mat:det-mixed-magnitudes", N, "x", N, " m=", a, " got ", det(m), " want ", double(want));
        if (std::abs(want) > 1e-3 * big) {
            mc::step("inverse<double>");
            try {
                auto r = mod(matmul(inverse(m), m));
                for (std::size_t i = 0; i < N * N; ++i)
                    if (!(std::abs(r.e[i] - (i % (N + 1) == 0 ? 1 : 0)) <= 1e-9)) { mc::violation("mat:inverse-mixed-magnitudes", mc::str(N, "x", N, " m=", a, " inverse*m ", r)); break; }
            } catch (const char *) {
                mc::violation("mat:inverse-mixed-throws", mc::str(N, "x", N, " m=", a, " threw although invertible"));
            }
        }
    });
}
// every signed permutation-and-scaling pattern, and products of two transvections, at larger sizes
template<typename T, std::size_t N, typename F>
void structured(F f) {
    std::vector<int> p(N);
    std::iota(p.begin(), p.end(), 0);
    std::size_t count = 0;
    do {
        if (N >= 7 && count++ % (N == 7 ? 7 : 61) != 0) continue;    // every k-th permutation at N >= 7
        for (int variant = 0; variant < 4; ++variant) {
            MM<T> a(N, N);
            for (std::size_t i = 0; i < N; ++i) a.at(i, std::size_t(p[i])) = T(variant == 0 ? 1 : variant == 1 ? int(i % 3) + 1 : variant == 2 ? (i % 2 ? -1 : 1) : (i == N / 2 ? 0 : 2));
            f(a);
        }
    } while (std::next_permutation(p.begin(), p.end()));
    for (std::size_t i = 0; i < N; ++i) for (std::size_t j = 0; j < N; ++j) for (std::size_t k = 0; k < N; ++k) for (std::size_t l = 0; l < N; ++l) {
        if (i == j || k == l) continue;
        MM<T> a(N, N), b(N, N);
        for (std::size_t x = 0; x < N; ++x) a.at(x, x) = b.at(x, x) = T(1);
        a.at(i, j) = T(2);
        b.at(k, l) = T(-3);
        f(mmul(a, b));
    }
    {    // companion matrices, tridiagonal, upper/lower triangular, all-ones
        for (int v = 0; v < 5; ++v) {
            MM<T> a(N, N);
            for (std::size_t i = 0; i < N; ++i) for (std::size_t j = 0; j < N; ++j) {
                int x = 0;
                if (v == 0) x = i == j + 1 ? 1 : j == N - 1 ? int(i % 3) - 1 : 0;
                if (v == 1) x = i == j ? 2 : (i + 1 == j || j + 1 == i) ? -1 : 0;
                if (v == 2) x = i <= j ? 1 : 0;
                if (v == 3) x = i >= j ? int(j % 2) + 1 : 0;
                if (v == 4) x = 1;
                a.at(i, j) = T(x);
            }
            f(a);
        }
    }
}

int main(int argc, char **argv) {
    mc::init(argc, argv, "mat_solve");
    mc::hang_limit_s = 60;
    std::vector<Zp<2>> z2 {0, 1};
    std::vector<Zp<3>> z3 {0, 1, 2};
    std::vector<Zp<5>> z5 {0, 1, 2, 3, 4};
#if PART == 7
    {
        mc::ScopedSpace s("exact: all contents over small alphabets (rationals, GF(2), GF(3), GF(5))");
        std::vector<Rat> r {Rat(-2), Rat(-1), Rat(0), Rat(1), Rat::mk(1, 2), Rat(3)};
        ex7<Rat, 1, 1>(r); ex7<Rat, 1, 2>(r); ex7<Rat, 2, 1>(r); ex7<Rat, 1, 3>(r); ex7<Rat, 3, 1>(r); ex7<Rat, 2, 2>(r);
        ex7<Rat, 4, 1>({Rat(-1), Rat(0), Rat(2)}); ex7<Rat, 1, 4>({Rat(-1), Rat(0), Rat(2)});
        ex7<Rat, 2, 3>({Rat(-2), Rat(0), Rat(1), Rat(3)}); ex7<Rat, 3, 2>({Rat(-2), Rat(0), Rat(1), Rat(3)});
        ex7<Rat, 3, 3>({Rat(-1), Rat(0), Rat(2)});
        ex7<Rat, 2, 4>({Rat(-1), Rat(0), Rat(2)}); ex7<Rat, 4, 2>({Rat(-1), Rat(0), Rat(2)});
        ex7<Rat, 3, 4>({Rat(0), Rat(1)}); ex7<Rat, 4, 3>({Rat(0), Rat(1)});
        ex7<Zp<3>, 3, 3>(z3); ex7<Zp<2>, 3, 3>(z2); ex7<Zp<2>, 4, 3>(z2); ex7<Zp<2>, 3, 4>(z2); ex7<Zp<5>, 2, 2>(z5); ex7<Zp<5>, 2, 3>(z5);
        ex7<Zp<2>, 4, 4>(z2); ex7<Zp<2>, 2, 6>(z2); ex7<Zp<2>, 6, 2>(z2); ex7<Zp<2>, 5, 3>(z2); ex7<Zp<2>, 3, 5>(z2);
        if (mc::thorough) {
            ex7<Rat, 3, 3>({Rat(-1), Rat(0), Rat(1), Rat(2)});
            ex7<Rat, 3, 4>({Rat(-1), Rat(0), Rat(1)}); ex7<Rat, 4, 3>({Rat(-1), Rat(0), Rat(1)});
            ex7<Zp<5>, 3, 3>(z5); ex7<Zp<5>, 2, 4>(z5);
            ex7<Zp<2>, 4, 5>(z2); ex7<Zp<2>, 5, 4>(z2);
            ex7<Zp<3>, 3, 4>(z3); ex7<Zp<3>, 4, 3>(z3);
        }
    }
    {
        mc::ScopedSpace s("structured matrices up to 8x8 (permutations, transvection products, companions) and wide/tall blocks");
        auto f7 = [](const auto &a, auto n) { constexpr std::size_t N = decltype(n)::value; if (mc::mine()) rref_exact<Zp<7>, N, N>(a); };
        structured<Zp<7>, 4>([&](const MM<Zp<7>> &a) { f7(a, std::integral_constant<std::size_t, 4> {}); });
        structured<Zp<7>, 5>([&](const MM<Zp<7>> &a) { f7(a, std::integral_constant<std::size_t, 5> {}); });
        structured<Zp<7>, 6>([&](const MM<Zp<7>> &a) { f7(a, std::integral_constant<std::size_t, 6> {}); });
        structured<Zp<7>, 8>([&](const MM<Zp<7>> &a) { f7(a, std::integral_constant<std::size_t, 8> {}); });
        for_shapes(Shapes<Shape<1, 17>, Shape<17, 1>, Shape<2, 9>, Shape<9, 2>, Shape<5, 8>, Shape<8, 5>, Shape<16, 17>, Shape<17, 16>, Shape<4, 33>, Shape<33, 4>> {}, [](auto sh) {
            using S = decltype(sh);
            for (int k = 0; k < 60; ++k) {
                if (!mc::mine()) continue;
                MM<Zp<7>> a(S::r, S::c);
                for (std::size_t i = 0; i < S::r; ++i) for (std::size_t j = 0; j < S::c; ++j) a.at(i, j) = Zp<7>(int((i * i * (k + 1) + j * (k / 7 + 1) + i * j * (k % 7)) % (k % 3 ? 7 : 2)));
                rref_exact<Zp<7>, S::r, S::c>(a);
            }
        });
    }
    {
        mc::ScopedSpace s("double: all contents over small alphabets, at several scales");
        exd7<1, 1>({-3, -1, 0, 1, 0.5, 7}); exd7<1, 3>({-3, 0, 1, 0.5}); exd7<3, 1>({-3, 0, 1, 0.5});
        exd7<2, 2>({-3, -1, 0, 0.5, 1, 2}); exd7<2, 3>({-1, 0, 1, 2}); exd7<3, 2>({-1, 0, 1, 2});
        exd7<3, 3>({-1, 0, 2}); exd7<3, 4>({0, 1}); exd7<4, 3>({0, 1}); exd7<4, 4>({0, 1});
        exd7<2, 2>({-3, -1, 0, 0.5, 1, 2}, 1e-20); exd7<2, 2>({-3, -1, 0, 0.5, 1, 2}, 1e20);
        exd7<3, 3>({-1, 0, 2}, 1e-100); exd7<3, 3>({0, 1}, 1e100); exd7<2, 3>({-1, 0, 2}, 1e-200);
        if (mc::thorough) { exd7<3, 3>({-1, 0, 1, 2}); exd7<3, 4>({-1, 0, 2}); exd7<4, 3>({-1, 0, 2}); }
        if (mc::shard == 0) tolerances<1>(), tolerances<2>(), tolerances<3>(), tolerances<4>();
        // a negligible entry above or below a usable pivot must not hide it
        for (int tiny = 0; tiny < 3; ++tiny) for (int p = 0; p < 27; ++p) {
            if (!mc::mine()) continue;
            double v[3] = {0, 1e-20, 1};
            MM<double> a(3, 1);
            int q = p;
            double mx = 0;
            for (int i = 0; i < 3; ++i) { a.e[i] = v[q % 3] * (tiny == 1 ? -1 : tiny == 2 ? 1e6 : 1); q /= 3; mx = std::max(mx, std::abs(a.e[i])); }
            mc::state();
            mc::step("rank");
            MC_CHECK(rank(impl<3, 1>(a)) == (mx > 0 ? 1u : 0u), "mat:rank-mixed-magnitudes", "m=", a, " got ", rank(impl<3, 1>(a)));
        }
    }
    {
        // a zero tolerance makes every non-zero element a pivot, however small
        mc::ScopedSpace s("rref with tolerance 0: all diagonal and triangular 1x1..3x3 over cells 0, 1e-30, -1e-20, 1, 3");
        const double al[5] = {0, 1e-30, -1e-20, 1, 3};
        for (int p = 0; p < 125; ++p) for (int up = 0; up < 2; ++up) {
            if (!mc::mine()) continue;
            double v[3] = {al[p % 5], al[p / 5 % 5], al[p / 25]};
            MM<double> a(3, 3);
            for (int i = 0; i < 3; ++i) a.at(i, i) = v[i];
            if (up && v[0] == 0) continue;   // a full first pivot keeps the upper triangle exact
            if (up) a.at(0, 1) = v[0], a.at(0, 2) = -2 * v[0];
            MM<double> w(3, 3);
            std::size_t r = 0;
            for (int i = 0; i < 3; ++i) if (v[i] != 0) w.at(r++, i) = 1;
            if (up) w.at(0, 1) = v[1] != 0 ? 0 : 1, w.at(0, 2) = v[2] != 0 ? 0 : -2;
            mc::state();
            mc::trace();
            mc::step("rref(tolerance 0)");
            MC_CHECK(mod(rref(impl<3, 3>(a), 0.0)).e == w.e, "mat:rref-tolerance-zero", "m=", a, " got ", mod(rref(impl<3, 3>(a), 0.0)), " want ", w);
        }
    }
    mc::sample("3x3 over {-1,0,2} (all 19683): rref equals the unique reduced form, rank, idempotence");
#else
    {
        mc::ScopedSpace s("exact: all contents over small alphabets (rationals, GF(2), GF(3), GF(5))");
        std::vector<Rat> r {Rat(-2), Rat(-1), Rat(0), Rat(1), Rat::mk(1, 2), Rat(3)};
        ex8<Rat, 1>({Rat(-5), Rat(-2), Rat(-1), Rat(0), Rat(1), Rat::mk(1, 2), Rat::mk(-7, 3), Rat(3)});
        ex8<Rat, 2>(r);
        ex8<Rat, 3>({Rat(-1), Rat(0), Rat(2)});
        ex8<Zp<2>, 3>(z2); ex8<Zp<3>, 3>(z3); ex8<Zp<5>, 2>(z5); ex8<Zp<2>, 4>(z2);
        if (mc::thorough) { ex8<Rat, 3>({Rat(-1), Rat(0), Rat(1), Rat(2)}); ex8<Zp<5>, 3>(z5); }
    }
    {
        mc::ScopedSpace s("structured matrices up to 8x8");
        structured<Rat, 4>([&](const MM<Rat> &a) { if (mc::mine()) inv_exact<Rat, 4>(a); });
        structured<Rat, 5>([&](const MM<Rat> &a) { if (mc::mine()) inv_exact<Rat, 5>(a); });
        structured<Zp<7>, 6>([&](const MM<Zp<7>> &a) { if (mc::mine()) inv_exact<Zp<7>, 6>(a); });
        structured<Zp<7>, 7>([&](const MM<Zp<7>> &a) { if (mc::mine()) inv_exact<Zp<7>, 7>(a); });
        structured<Zp<7>, 8>([&](const MM<Zp<7>> &a) { if (mc::mine()) inv_exact<Zp<7>, 8>(a); });
    }
    {
        mc::ScopedSpace s("double: all contents over small alphabets, at several scales");
        exd8<1>({-3, -1, 0, 1, 0.5, 7, 1024}); exd8<2>({-3, -1, 0, 0.5, 1, 2, 4}); exd8<3>({-1, 0, 2}); exd8<4>({0, 1});
        exd8<1>({-3, -1, 0, 1, 0.5, 7}, 1e-17); exd8<1>({-3, -1, 0, 1, 0.5, 7}, 1e-100); exd8<1>({-3, 0, 1}, 1e100);
        exd8<2>({-3, -1, 0, 0.5, 1, 2}, 1e-20); exd8<2>({-3, -1, 0, 0.5, 1, 2}, 1e20); exd8<3>({-1, 0, 2}, 1e-30); exd8<3>({-1, 0, 2}, 1e30);
        if (mc::thorough) exd8<3>({-1, 0, 1, 2});
    }
    {
        mc::ScopedSpace s("double: all contents mixing negligible and usable magnitudes");
        mixed8<2>({0, 1e-20, -1e-20, 1, -1, 2}); mixed8<3>({0, 1e-20, 1}); mixed8<3>({0, -1e-19, -2});
        if (mc::thorough) mixed8<3>({0, 1e-20, 1, -3}); 
    }
    {
        // near the limit of numerical rank the decisions agree: inverse throws, rank is deficient and det vanishes together
        mc::ScopedSpace s("double: agreement of inverse, rank and det for [[a,b],[0,t]] with t from eps/64 to 64 eps");
        const double eps = std::numeric_limits<double>::epsilon();
        for (double sc : {1.0, 1e-20, 1e20}) for (double b : {0.0, 1.0, -1.0, 0.5, 3.0}) for (int k = -6; k <= 6; ++k) for (int sg = -1; sg <= 1; sg += 2) for (int fl = 0; fl < 2; ++fl) {
            if (!mc::mine()) continue;
            // 5/4: no exact tie with the tolerance
            MM<double> a(2, 2);
            a.at(0, 0) = sc; a.at(0, 1) = b * sc; a.at(1, 1) = sg * std::ldexp(eps * 1.25, k) * sc;
            if (fl) std::swap(a.at(0, 0), a.at(1, 0)), std::swap(a.at(0, 1), a.at(1, 1));
            auto m = impl<2, 2>(a);
            bool threw = false;
            mc::state();
            mc::trace();
            mc::step("inverse, rank, det at the limit");
            try { inverse(m); } catch (const char *) { threw = true; }
            bool def = rank(m) < 2, zero = det(m) == 0;
            MC_CHECK(threw == def && def == zero, "mat:limit-agreement", "m=", a, " throws ", threw, " rank<2 ", def, " det=0 ", zero);
        }
    }
    mc::sample("3x3 over {-1,0,2} (all 19683): det equals the Leibniz value, inverse is two-sided, singular ones throw");
#endif
    return mc::finish();
}
