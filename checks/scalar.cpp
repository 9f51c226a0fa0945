// C10: sqrt, nthroot, exponentiate, abs, conj on scalars: every representative of the enumerated argument grid terminates and is accurate.
#include "blas.hpp"
#include <cfloat>
#include <climits>
#include <cstring>

static double from_bits(std::uint64_t b) { double d; std::memcpy(&d, &b, 8); return d; }
static float from_bits32(std::uint32_t b) { float d; std::memcpy(&d, &b, 4); return d; }
static bool close(double got, double want, double rel, double floor_ = 0) {
    if (std::isnan(want)) return std::isnan(got);
    if (std::isinf(want) || std::isinf(got)) return got == want;
    return std::abs(got - want) <= rel * std::abs(want) + floor_;
}
template<typename F>
bool throws(F f) { try { f(); } catch (...) { return true; } return false; }

static void sqrt1(double x) {
    mc::state();
    mc::cur_args = mc::str("x=", x);
    mc::step("sqrt(double)");
    double got = alg::sqrt(x);
    if (x > 1e-290 && x < 1e300) {
        mc::trace();
        mc::step("sqrt+exponentiate");
        MC_CHECK(close(exponentiate(got, 2), x, 3e-15), "scalar:sqrt-back", "sqrt(", x, ")^2 = ", exponentiate(got, 2));
    }
    MC_CHECK(close(got, std::sqrt(x), 1e-15, 5e-324), "scalar:sqrt", "sqrt(", x, ") = ", got, " want ", std::sqrt(x));
}
static void sqrt1f(float x) {
    mc::state();
    mc::step("sqrt(float)");
    float got = alg::sqrt(x);
    MC_CHECK(close(got, std::sqrt(x), 1.3e-7, 2e-45), "scalar:sqrtf", "sqrt(float ", x, ") = ", got, " want ", std::sqrt(x));
}
static void exp1(double x, int n) {
    mc::state();
    mc::cur_args = mc::str("x=", x, " n=", n);
    mc::step("exponentiate");
    double got = exponentiate(x, n);
    long double w = n == 0 ? 1.0L : std::pow((long double)x, (long double)n);
    double want = double(w);
    if (std::abs(w) > 1e308L || (w != 0 && std::abs(w) < 1e-300L)) {    // overflow and underflow of intermediates
        MC_CHECK(std::abs(w) > 1 ? std::abs(got) > 1e290 || std::isinf(got) : std::abs(got) < 1e-290, "scalar:exponentiate-range", x, "^", n, " = ", got);
        MC_CHECK(got == 0 || std::signbit(got) == std::signbit(want), "scalar:exponentiate-sign", x, "^", n, " = ", got);
        return;
    }
    double nn = std::abs(double(n));
    MC_CHECK(close(got, want, 3e-16 * (nn + 4)), "scalar:exponentiate", x, "^", n, " = ", got, " want ", want);
}
static void root1(double x, int n) {
    mc::state();
    mc::cur_args = mc::str("x=", x, " n=", n);
    mc::step("nthroot");
    double got = nthroot(x, n);
    if (x > 1e-290 && x < 1e290) {    // two-operation history: root, then power
        mc::trace();
        mc::step("nthroot+exponentiate");
        double back = exponentiate(got, n);
        MC_CHECK(close(back, x, 1e-14 * (n + 1)), "scalar:nthroot-back", "nthroot(", x, ", ", n, ")^n = ", back);
    }
    double want = n == 1 ? x : x == 0 ? 0 : double(std::pow((long double)x, 1.0L / n));
    MC_CHECK(close(got, want, 2e-15 * (1 + n / 4.0)), "scalar:nthroot", "nthroot(", x, ", ", n, ") = ", got, " want ", want);
}

int main(int argc, char **argv) {
    mc::init(argc, argv, "scalar");
    mc::hang_limit_s = 15;
    const double inf = std::numeric_limits<double>::infinity(), nan = std::numeric_limits<double>::quiet_NaN();
    {
        mc::ScopedSpace s("sqrt over all exponents x leading mantissa bits x trailing patterns (double)");
        const int mb = mc::thorough ? 10 : 5;
        for (std::uint64_t e = 0; e < 2047; ++e)
            for (std::uint64_t m = 0; m < (1ull << mb); ++m)
                for (std::uint64_t lo : {0ull, 1ull, (1ull << (52 - mb)) - 1}) {
                    if (!mc::mine()) continue;
                    sqrt1(from_bits(e << 52 | m << (52 - mb) | lo));
                }
    }
    {
        mc::ScopedSpace s("sqrt of integers, of squares and their neighbours");
        for (int n = 0; n <= (mc::thorough ? 2000000 : 60000); ++n) {
            if (!mc::mine()) continue;
            double q = double(n) * n;
            sqrt1(n);
            sqrt1(q);
            sqrt1(std::nextafter(q, inf));
            if (n) sqrt1(std::nextafter(q, 0));
            sqrt1(n / 8.0);
            sqrt1(n * 1e-5);
        }
    }
    {
        mc::ScopedSpace s("sqrt(float): exponents x leading mantissa bits");
        const int mb = mc::thorough ? 16 : 9;
        for (std::uint32_t e = 0; e < 255; ++e)
            for (std::uint32_t m = 0; m < (1u << mb); ++m) {
                if (!mc::mine()) continue;
                sqrt1f(from_bits32(e << 23 | m << (23 - mb)));
                sqrt1f(from_bits32(e << 23 | m << (23 - mb) | ((1u << (23 - mb)) - 1)));
            }
    }
    {
        mc::ScopedSpace s("exponentiate: bases x exponents");
        std::vector<double> xs {0, 1, -1, 2, -2, 0.5, -0.5, 3, -3, 10, -10, 0.1, 1.5, -1.5, 7, 1e10, 1e-10, -1e10, 1.0000001, 0.9999999, 1e100, 1e-100, 255, 12345.678};
        for (double x : xs)
            for (int n = -300; n <= 300; ++n) {
                if (!mc::mine()) continue;
                if (x == 0 && n < 0) {
                    mc::step("exponentiate");
                    mc::state();
                    MC_CHECK(std::isinf(exponentiate(x, n)), "scalar:exponentiate-zero", "0^", n);
                    continue;
                }
                exp1(x, n);
            }
        // odd and even exponents around and past the range of the type: sign, overflow and underflow
        for (double x : {2.0, -2.0, 0.5, -0.5, 3.0, -3.0, 1.5, -1.5, 10.0, -10.0, -0.1, 1.01, -1.01, 1e100, -1e100})
            for (int n = 301; n <= 2600; n += n < 1110 ? 1 : 7)
                for (int sgn : {1, -1}) { if (mc::mine()) exp1(x, sgn * n); }
        for (int k = 0; k <= 31; ++k)
            for (int d = -1; d <= 1; ++d)
                for (int sgn : {1, -1})
                    for (double x : {1.0, -1.0, 2.0, 0.5, 3.0, -2.0, -0.5, -3.0, 1.0000001, -1.0000001, -1e10}) {
                        if (!mc::mine()) continue;
                        long long n = sgn * ((1ll << k) + d);
                        if (n > INT_MAX || n < INT_MIN) continue;
                        exp1(x, int(n));
                    }
        if (mc::shard == 0) {
            for (int n : {INT_MIN, INT_MIN + 1, INT_MAX, INT_MAX - 1}) {
                exp1(1, n);
                exp1(-1, n);
                exp1(2, n);
                exp1(0.5, n);
            }
            MC_CHECK(exponentiate(nan, 0) == 1 && exponentiate(inf, 0) == 1 && exponentiate(0, 0) == 1, "scalar:exponentiate-n0", "x^0 is not 1");
        }
        // every exponent of a small base agrees with repeated multiplication (exact while below 2^53)
        for (int b = -9; b <= 9; ++b) {
            double w = 1;
            for (int n = 0; std::abs(w) < 9007199254740992.0 && n < 60; ++n, w *= b) {
                if (!mc::mine()) continue;
                mc::state();
                mc::step("exponentiate");
                MC_CHECK(exponentiate(b, n) == w, "scalar:exponentiate-exact", b, "^", n, " = ", exponentiate(b, n), " want ", w);
            }
        }
    }
    {
        mc::ScopedSpace s("nthroot: arguments x degrees");
        for (int n = 1; n <= 40; ++n) {
            for (int i = 0; i <= (mc::thorough ? 40000 : 1200); ++i) {
                if (!mc::mine()) continue;
                root1(i * 0.25, n);
            }
            for (int e = -300; e <= 300; e += (mc::thorough ? 1 : 4)) {
                if (!mc::mine()) continue;
                root1(std::ldexp(1.0, e), n);
                root1(std::ldexp(1.7, e), n);
            }
            for (int k = 0; k <= 30; ++k) {
                if (!mc::mine()) continue;
                root1(double(std::pow((long double)k, (long double)n)) < 1e300 ? double(std::pow((long double)k, (long double)n)) : 1.0, n);
            }
        }
        if (mc::shard == 0)
            for (double x : {1e300, 1e-300, 1e308, DBL_MAX, 1.0 + DBL_EPSILON, 1.0 - DBL_EPSILON / 2, 0.0})
                for (int n : {1, 2, 3, 5, 17, 64, 100}) root1(x, n);
    }
    if (mc::shard == 0) {
        mc::ScopedSpace s("argument classes");
        for (double x : {-1.0, -5e-324, -1e300, -inf}) {
            mc::state();
            mc::step("sqrt");
            MC_CHECK(throws([&] { alg::sqrt(x); }), "scalar:sqrt-negative", "sqrt(", x, ") did not throw");
            MC_CHECK(throws([&] { alg::sqrt(float(x) == 0 ? -1e-45f : float(x)); }), "scalar:sqrtf-negative", "sqrt(float ", x, ") did not throw");
            for (int n : {1, 2, 3, 4, 10}) MC_CHECK(throws([&] { nthroot(x, n); }), "scalar:nthroot-negative", "nthroot(", x, ",", n, ") did not throw");
        }
        for (double x : {0.0, -0.0, inf, nan, DBL_MAX, DBL_MIN, 5e-324, 1.0, 4.0, 2.25, 1e-310}) {
            sqrt1(x);
            sqrt1f(float(x));
        }
        for (int i = -300; i <= 300; ++i) {
            mc::state();
            mc::step("abs");
            MC_CHECK(alg::abs(i) == std::abs(i) && alg::abs(long(i) * 10000000000l) == std::abs(long(i) * 10000000000l) && alg::abs(i * 0.125) == std::abs(i * 0.125) && alg::abs(i * 0.5f) == std::abs(i * 0.5f), "scalar:abs", "abs at ", i);
            MC_CHECK(alg::conj(i) == i && alg::conj(i * 0.5) == i * 0.5, "scalar:conj", "conj at ", i);
        }
        MC_CHECK(alg::abs(INT_MAX) == INT_MAX && alg::abs(-INT_MAX) == INT_MAX && alg::abs(-inf) == inf && std::isnan(alg::abs(nan)) && alg::abs(-DBL_MAX) == DBL_MAX && alg::abs(-5e-324) == 5e-324, "scalar:abs-extremes", "abs extremes");
        for (int a = -20; a <= 20; ++a)
            for (int b = -20; b <= 20; ++b)
                for (double sc : {1.0, 0.25, 1e-100, 1e100}) {
                    mc::state();
                    mc::step("abs(complex)");
                    std::complex<double> z(a * sc, b * sc);
                    static_assert(std::is_same_v<decltype(alg::abs(z)), double>);
                    MC_CHECK(close(alg::abs(z), std::hypot(a * sc, b * sc), 2e-15), "scalar:abs-complex", "abs(", z, ") = ", alg::abs(z));
                    MC_CHECK(alg::conj(z) == std::complex<double>(a * sc, -b * sc), "scalar:conj-complex", "conj(", z, ")");
                    std::complex<float> y(a, b);
                    MC_CHECK(close(alg::abs(y), std::hypot(double(a), double(b)), 2e-7), "scalar:abs-complexf", "abs(", y, ")");
                    MC_CHECK(alg::conj(y) == std::complex<float>(a, -b), "scalar:conj-complexf", "conj(", y, ")");
                }
        // the functions are constant expressions and agree with their run-time values
        constexpr double c1 = alg::sqrt(2.0), c2 = nthroot(10.0, 3), c3 = exponentiate(1.5, -7), c4 = alg::sqrt(0.0), c5 = alg::abs(std::complex<double>(3, 4));
        volatile double two = 2, ten = 10, oh = 1.5;
        mc::step("constexpr");
        MC_CHECK(c1 == alg::sqrt(double(two)) && c2 == nthroot(double(ten), 3) && c3 == exponentiate(double(oh), -7) && c4 == 0 && c5 == 5, "scalar:constexpr", "compile-time and run-time results differ");
    }
    mc::sample("sqrt at every exponent 0..2046 with 5 leading mantissa bits; nthroot(0.25 i, n) for i<=1200, n<=40");
    return mc::finish();
}
