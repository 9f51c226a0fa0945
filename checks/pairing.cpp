// C25: pairings of the shipped curves at full width. PART 1: bls12_381, 2: mnt4_298, 3: mnt6_298, 4: edwards_183,
// 5: alt_bn128_254 (algebraic laws only).
// Every pair of multiples from a bounded set, in two representations of each point: e(aP, bQ) = e(P, Q)^(ab), the value has order dividing r,
// the two-step and the one-step forms agree, the double Miller loop is the product of two. The final exponentiation is compared with an exact
// power in an independent big-integer tower, and the whole pairing with a textbook Miller algorithm on affine points over the full extension.
#if PART == 1
#include <nil/crypto3/algebra/pairing/bls12.hpp>
#elif PART == 2
#include <nil/crypto3/algebra/pairing/mnt4.hpp>
#elif PART == 3
#include <nil/crypto3/algebra/pairing/mnt6.hpp>
#elif PART == 4
#include <nil/crypto3/algebra/pairing/edwards.hpp>
#else
#include <nil/crypto3/algebra/pairing/alt_bn128.hpp>
#endif
#include <nil/crypto3/algebra/algorithms/pair.hpp>
#include <nil/crypto3/algebra/curves/detail/scalar_mul.hpp>
#include "pairmodel.hpp"
using namespace nil::crypto3::algebra;
#if PART == 1
typedef curves::bls12<381> C; static const char *NAME = "bls12_381"; static const unsigned K = 12;
#elif PART == 2
typedef curves::mnt4<298> C; static const char *NAME = "mnt4_298"; static const unsigned K = 4;
#elif PART == 3
typedef curves::mnt6<298> C; static const char *NAME = "mnt6_298"; static const unsigned K = 6;
#elif PART == 4
typedef curves::edwards<183> C; static const char *NAME = "edwards_183"; static const unsigned K = 6;
#else
typedef curves::alt_bn128<254> C; static const char *NAME = "alt_bn128_254"; static const unsigned K = 12;
#endif
typedef C::g1_type<>::value_type E1;
typedef C::g2_type<>::value_type E2;
typedef C::gt_type::value_type T;

template<typename E> static E times(const E &p, big k) {
    E r = E::zero();
    if (k == 0) return r;
    for (long i = long(msb(k)); i >= 0; --i) { r = r + r; if (bit_test(k, unsigned(i))) r = r + p; }
    return r;
}
static T power(const T &x, big k) {
    T r = T::one();
    if (k == 0) return r;
    for (long i = long(msb(k)); i >= 0; --i) { r = r * r; if (bit_test(k, unsigned(i))) r = r * x; }
    return r;
}
// the same point with its coordinates brought back from the affine form
#if PART == 4
template<typename E> static E renorm(const E &p) { if (p.is_zero()) return E::zero(); auto a = p.to_affine(); return E(a.Y, a.X, a.X * a.Y); }
#else
template<typename E> static E renorm(const E &p) { if (p.is_zero()) return E::zero(); auto a = p.to_affine(); return E(a.X, a.Y); }
#endif

int main(int argc, char **argv) {
    mc::init(argc, argv, NAME);
    mc::hang_limit_s = 300;
    const big q(C::base_field_type::modulus), r(C::scalar_field_type::modulus);
    pm::Fld gt(conv::tower<big, T>::get());
    const E1 G = E1::one(); const E2 H = E2::one();
    std::string n = NAME;
    std::vector<big> ks {0, 1, 2, 3, 5, r - 1, r - 2, (r - 1) / 2, big(1) << 40, (big(1) << 64) - 1};
    if (mc::thorough) for (big k : {big(4), big(7), big(8), big(r - 3), big((r + 1) / 2), big(r / 3), big((big(1) << 32) + 1), big(r >> 7), big((big(1) << 90) + 12345)}) ks.push_back(k);
    std::vector<E1> Ps, Pn; std::vector<E2> Qs, Qn;
    for (auto &k : ks) { Ps.push_back(times(G, k)); Pn.push_back(renorm(Ps.back())); Qs.push_back(times(H, k)); Qn.push_back(renorm(Qs.back())); }
    const T e = pair_reduced<C>(G, H);
    {
        mc::ScopedSpace sp(n + ": order and non-degeneracy"); mc::state();
        mc::step("pair_reduced"); MC_CHECK(!(e == T::one()), n + ":degenerate", "e(G, H) is one");
        mc::step("order"); MC_CHECK(power(e, r) == T::one(), n + ":order", "e(G, H)^r is not one");
    }
    {
        mc::ScopedSpace sp(n + ": bilinearity over all pairs of multiples");
        for (std::size_t i = 0; i < ks.size(); ++i) for (std::size_t j = 0; j < ks.size(); ++j) {
            if (!mc::mine()) continue;
            mc::state(); mc::trace();
            std::string at = mc::str(n, " a=", ks[i], " b=", ks[j]);
            mc::cur_args = at;
            const T want = power(e, big(ks[i] * ks[j] % r));
            const bool alt = (i + j) % 2;
            const E1 &P = alt ? Pn[i] : Ps[i]; const E2 &Q = alt ? Qs[j] : Qn[j];
            mc::step("pair_reduced");
            MC_CHECK(pair_reduced<C>(P, Q) == want, n + ":bilinear", at, ": pair_reduced(aG, bH) != e(G, H)^(ab)");
            mc::step("precompute");
            auto p1 = precompute_g1<C>(P); auto q1 = precompute_g2<C>(Q);
            MC_CHECK(p1 == precompute_g1<C>(alt ? Ps[i] : Pn[i]), n + ":precompute_g1", at, ": precomputation depends on the representation of P");
            MC_CHECK(q1 == precompute_g2<C>(alt ? Qn[j] : Qs[j]), n + ":precompute_g2", at, ": precomputation depends on the representation of Q");
            mc::step("miller_loop");
            const T m = miller_loop<C>(p1, q1);
            MC_CHECK(m == pair<C>(P, Q), n + ":pair", at, ": pair differs from precompute and miller_loop");
            MC_CHECK(final_exponentiation<C>(m) == want, n + ":final_exponentiation", at, ": final_exponentiation(miller_loop) differs from e(G, H)^(ab)");
            const std::size_t i2 = (i * 3 + j + 1) % ks.size(), j2 = (j * 7 + i * 2) % ks.size();
            mc::step("double_miller_loop");
            const T d = double_miller_loop<C>(p1, q1, precompute_g1<C>(Ps[i2]), precompute_g2<C>(Qn[j2]));
            MC_CHECK(final_exponentiation<C>(d) == power(e, big((ks[i] * ks[j] + ks[i2] * ks[j2]) % r)), n + ":double_miller_loop", at, " a2=", ks[i2], " b2=", ks[j2], ": double loop is not the product");
            // the same precomputed objects on both sides
            const std::size_t al = (i + 2 * j) % 3;
            auto p2 = precompute_g1<C>(Ps[i2]); auto q2 = precompute_g2<C>(Qn[j2]);
            mc::step("double_miller_loop, shared arguments");
            const T da = al == 0 ? double_miller_loop<C>(p1, q1, p1, q1) : al == 1 ? double_miller_loop<C>(p1, q1, p1, q2) : double_miller_loop<C>(p1, q1, p2, q1);
            MC_CHECK(final_exponentiation<C>(da) == power(e, big((ks[i] * ks[j] + (al == 2 ? ks[i2] : ks[i]) * (al == 1 ? ks[j2] : ks[j])) % r)), n + ":double_miller_loop-shared", at, " a2=", ks[i2], " b2=", ks[j2], ": double loop with ", al == 0 ? "both arguments shared" : al == 1 ? "the same P twice" : "the same Q twice", " is not the product");
        }
    }
#if PART != 5
    {
        mc::ScopedSpace sp(n + ": final exponentiation against an exact power");
        // gt elements: sparse vectors with coefficients from {1, q-1, 2}, and two dense ones
        big full = 1; for (unsigned i = 0; i < K; ++i) full *= q;
        big c = (full - 1) / r * (PART == 1 ? 3 : 1);
        std::vector<model::Vec<big>> xs;
        sparse_vectors<big>(K, 1, {1, q - 1}, [&](const model::Vec<big> &v) { xs.push_back(v); });
        model::Vec<big> d1(K), d2(K); for (unsigned i = 0; i < K; ++i) { d1[i] = (i + 3) * (i + 2); d2[i] = (q / (i + 2) + i * i) % q; }
        xs.push_back(d1); xs.push_back(d2);
        model::Vec<big> m; conv::flat<big>(miller_loop<C>(precompute_g1<C>(Ps[3]), precompute_g2<C>(Qs[4])), m); xs.push_back(m);
        for (auto &x : xs) {
            if (gt.zero(x) || !mc::mine()) continue;
            mc::state(); mc::trace(); mc::step("final_exponentiation");
            mc::cur_args = show(x);
            T y = final_exponentiation<C>(conv::from<T>(x));
            auto want = gt.pow(x, c);
            MC_CHECK(conv::to<big>(y) == want, n + ":final_exponent", n, " x=", show(x), ": not the power (q^k-1)/r");
        }
    }
    {
        mc::ScopedSpace sp(n + ": textbook Miller algorithm");
        std::vector<std::pair<std::size_t, std::size_t>> ij {{1, 1}, {2, 3}, {5, 4}, {6, 9}, {7, 8}};
        big full = 1; for (unsigned i = 0; i < K; ++i) full *= q;
        big c = (full - 1) / r * (PART == 1 ? 3 : 1);
        for (auto &x : ij) {
            if (!mc::mine()) continue;
            mc::state(); mc::trace(); mc::step("reference");
            auto p = Ps[x.first].to_affine(); auto h = Qs[x.second].to_affine();
#if PART == 4
            auto coef = conv::to<big>(typename C::base_field_type::value_type(C::g1_type<>::params_type::d));
#else
            auto coef = conv::to<big>(typename C::base_field_type::value_type(C::g1_type<>::params_type::a));
#endif
            auto want = gt.pow(pm::ate(gt, pm::Twist(PART), conv::to<big>(p.X), conv::to<big>(p.Y), conv::to<big>(h.X), conv::to<big>(h.Y), coef, PART == 4 ? big(abs(pm::loop(q, r))) : pm::loop(q, r)), c);    // the Edwards loop runs over |t - 1|
            T y = pair_reduced<C>(Ps[x.first], Qs[x.second]);
            MC_CHECK(conv::to<big>(y) == want, n + ":reference", n, " a=", ks[x.first], " b=", ks[x.second], ": differs from the textbook ate pairing");
        }
    }
#endif
    return mc::finish();
}
