// C16: every constant of every shipped field satisfies its defining equation. PART 1: prime fields and their arithmetic parameters; PART 2: extensions.
#include "tiny.hpp"
#include "published.hpp"
#include <boost/multiprecision/miller_rabin.hpp>
#include <nil/crypto3/algebra/fields/alt_bn128/base_field.hpp>
#include <nil/crypto3/algebra/fields/alt_bn128/scalar_field.hpp>
#include <nil/crypto3/algebra/fields/bls12/base_field.hpp>
#include <nil/crypto3/algebra/fields/bls12/scalar_field.hpp>
#include <nil/crypto3/algebra/fields/bn128/base_field.hpp>
#include <nil/crypto3/algebra/fields/bn128/scalar_field.hpp>
#include <nil/crypto3/algebra/fields/edwards/base_field.hpp>
#include <nil/crypto3/algebra/fields/edwards/scalar_field.hpp>
#include <nil/crypto3/algebra/fields/mnt4/base_field.hpp>
#include <nil/crypto3/algebra/fields/mnt4/scalar_field.hpp>
#include <nil/crypto3/algebra/fields/mnt6/base_field.hpp>
#include <nil/crypto3/algebra/fields/mnt6/scalar_field.hpp>
#include <nil/crypto3/algebra/fields/arithmetic_params/bls12.hpp>
#include <nil/crypto3/algebra/fields/arithmetic_params/alt_bn128.hpp>
#include <nil/crypto3/algebra/fields/arithmetic_params/mnt4.hpp>
#include <nil/crypto3/algebra/fields/arithmetic_params/mnt6.hpp>
#include <nil/crypto3/algebra/fields/arithmetic_params/edwards.hpp>
#include <nil/crypto3/algebra/fields/arithmetic_params/bn128.hpp>
#if PART == 1
#include <nil/crypto3/algebra/fields/arithmetic_params/pallas.hpp>
#include <nil/crypto3/algebra/fields/arithmetic_params/vesta.hpp>
#include <nil/crypto3/algebra/fields/arithmetic_params/goldilocks64.hpp>
#include <nil/crypto3/algebra/fields/arithmetic_params/ed25519.hpp>
#include <nil/crypto3/algebra/fields/babyjubjub/base_field.hpp>
#include <nil/crypto3/algebra/fields/babyjubjub/scalar_field.hpp>
#include <nil/crypto3/algebra/fields/jubjub/base_field.hpp>
#include <nil/crypto3/algebra/fields/jubjub/scalar_field.hpp>
#include <nil/crypto3/algebra/fields/curve25519/base_field.hpp>
#include <nil/crypto3/algebra/fields/curve25519/scalar_field.hpp>
#include <nil/crypto3/algebra/fields/pallas/base_field.hpp>
#include <nil/crypto3/algebra/fields/pallas/scalar_field.hpp>
#include <nil/crypto3/algebra/fields/vesta/base_field.hpp>
#include <nil/crypto3/algebra/fields/vesta/scalar_field.hpp>
#include <nil/crypto3/algebra/fields/goldilocks64/base_field.hpp>
#include <nil/crypto3/algebra/fields/maxprime.hpp>
#include <nil/crypto3/algebra/fields/secp/secp_k1/base_field.hpp>
#include <nil/crypto3/algebra/fields/secp/secp_k1/scalar_field.hpp>
#include <nil/crypto3/algebra/fields/secp/secp_r1/base_field.hpp>
#include <nil/crypto3/algebra/fields/secp/secp_r1/scalar_field.hpp>
#include <nil/crypto3/algebra/fields/brainpool_r1/base_field.hpp>
#include <nil/crypto3/algebra/fields/brainpool_r1/scalar_field.hpp>
#include <nil/crypto3/algebra/fields/frp_v1/base_field.hpp>
#include <nil/crypto3/algebra/fields/frp_v1/scalar_field.hpp>
#include <nil/crypto3/algebra/fields/gost_A/base_field.hpp>
#include <nil/crypto3/algebra/fields/gost_A/scalar_field.hpp>
#include <nil/crypto3/algebra/fields/x962_p/base_field.hpp>
#include <nil/crypto3/algebra/fields/x962_p/scalar_field.hpp>
#include <nil/crypto3/algebra/fields/sm2p_v1/base_field.hpp>
#include <nil/crypto3/algebra/fields/sm2p_v1/scalar_field.hpp>
#include <nil/crypto3/algebra/fields/dsa_botan.hpp>
#include <nil/crypto3/algebra/fields/dsa_jce.hpp>
#include <nil/crypto3/algebra/fields/ffdhe_ietf.hpp>
#include <nil/crypto3/algebra/fields/modp_ietf.hpp>
#include <nil/crypto3/algebra/fields/modp_srp.hpp>
#else
#include <nil/crypto3/algebra/fields/fp2.hpp>
#include <nil/crypto3/algebra/fields/fp3.hpp>
#include <nil/crypto3/algebra/fields/fp4.hpp>
#include <nil/crypto3/algebra/fields/fp6_2over3.hpp>
#include <nil/crypto3/algebra/fields/fp6_3over2.hpp>
#include <nil/crypto3/algebra/fields/fp12_2over3over2.hpp>
#endif

#define MEMBER(m) template<typename T> auto has_##m(int) -> decltype(T::m, std::true_type()); template<typename T> std::false_type has_##m(...); template<typename T> constexpr bool H_##m = decltype(has_##m<T>(0))::value;
MEMBER(s) MEMBER(t) MEMBER(t_minus_1_over_2) MEMBER(group_order_minus_one_half) MEMBER(group_order) MEMBER(arithmetic_generator) MEMBER(geometric_generator)
MEMBER(multiplicative_generator) MEMBER(mul_generator) MEMBER(root_of_unity) MEMBER(nqr) MEMBER(nqr_to_t) MEMBER(Rsquared) MEMBER(Rcubed) MEMBER(Frobenius_coeffs_c1) MEMBER(Frobenius_coeffs_c2)

static void ck(const std::string &who, const char *what, bool ok, const big &got = 0) {
    mc::state(); mc::step(what);
    if (!ok) mc::violation(mc::str(who, ":", what), mc::str(who, " ", what, " value ", std::hex, got));
}
static std::vector<unsigned> small_primes() { std::vector<unsigned> r; for (unsigned i = 2; i < 20000; ++i) { bool p = true; for (unsigned q : r) { if (q * q > i) break; if (i % q == 0) { p = false; break; } } if (p) r.push_back(i); } return r; }
static const std::vector<unsigned> PR = small_primes();

// constants tied to the order q-1 of the multiplicative group
template<typename P, bool halved = true> void group_consts(const std::string &nm, const big &q) {
    if constexpr (H_s<P> && H_t<P>) {
        big t(P::t);
        ck(nm, "t odd", t % 2 == 1, t);
        ck(nm, "t * 2^s = q - 1", (t << unsigned(P::s)) == q - 1, t);
    }
    if constexpr (H_t_minus_1_over_2<P> && H_t<P>) ck(nm, "t_minus_1_over_2", 2 * big(P::t_minus_1_over_2) + 1 == big(P::t), big(P::t_minus_1_over_2));
    // arithmetic_params name the halved order group_order; where they do, the inherited group_order_minus_one_half is the base field's
    if constexpr (halved && !H_group_order<P>) if constexpr (H_group_order_minus_one_half<P>) ck(nm, "group_order_minus_one_half", 2 * big(P::group_order_minus_one_half) == q - 1, big(P::group_order_minus_one_half));
    if constexpr (H_group_order<P>) ck(nm, "group_order", 2 * big(P::group_order) == q - 1, big(P::group_order));
}
// a generator of the whole group; for safe primes (RFC 7919) one of the subgroup of squares is also right
static void generator(const std::string &nm, const char *what, const big &g, const big &p, bool safe = false) {
    bool ok = g > 1 && g < p - 1;
    if (safe) { ck(nm, what, ok, g); return; }
    for (unsigned q : PR) if ((p - 1) % q == 0) { mc::step("generator"); ok = ok && powm(g, big((p - 1) / q), p) != 1; }
    ck(nm, what, ok, g);
}
static std::uint64_t hash(big p) { std::uint64_t h = 14695981039346656037ull; for (; p != 0; p >>= 8) h = (h ^ std::uint64_t(p & 255)) * 1099511628211ull; return h; }
template<typename F>
void prime(const char *n, bool safe = false) {
    const std::string nm = n;
    mc::trace();
    const big p(F::modulus);
    ck(nm, "modulus is the published one", hash(p) == published_modulus(nm), p);
    ck(nm, "modulus_bits", msb(p) + 1 == F::modulus_bits, p);
    ck(nm, "value_bits", F::value_bits == F::modulus_bits && F::number_bits == F::modulus_bits && F::arity == 1);
    // past 6000 bits the quick tier trusts the published digits checked above and leaves the primality test to the thorough tier
    const bool test_primality = mc::thorough || F::modulus_bits < 6000;
    if (test_primality) ck(nm, "modulus is prime", boost::multiprecision::miller_rabin_test(p, 25), p);
    ck(nm, "element modulus", big(fields::params<F>::modulus) == p && fields::params<F>::modulus_bits == F::modulus_bits, p);
    {    // the element type is that of this very field: -1 squared, 1/2 and the wrap-around at p
        typedef typename F::value_type E;
        ck(nm, "field_type of the element", std::is_same<typename E::field_type, F>::value && big(E::modulus) == p);
        const E m1 = -E::one(), half = (E::one() + E::one()).inversed();
        const typename F::integral_type v(m1.data), h(half.data), z((m1 + E::one()).data), o((m1 * m1).data);
        ck(nm, "-1", big(v) == p - 1, big(v)); ck(nm, "1/2", big(h) == (p + 1) / 2, big(h)); ck(nm, "-1 + 1", z == 0, big(z)); ck(nm, "(-1)^2", o == 1, big(o));
    }
    if (safe && test_primality) ck(nm, "safe prime", boost::multiprecision::miller_rabin_test(big((p - 1) / 2), 25), p);
    if constexpr (H_group_order_minus_one_half<F>) ck(nm, "group_order_minus_one_half", 2 * big(F::group_order_minus_one_half) == p - 1, big(F::group_order_minus_one_half));
    if constexpr (H_mul_generator<F>) generator(nm, "mul_generator", big(F::mul_generator), p, safe);
}
template<typename F>
void arith(const char *n) {
    const std::string nm = std::string("arithmetic_params ") + n;
    typedef fields::arithmetic_params<F> P;
    const big p(F::modulus);
    mc::trace();
    ck(nm, "modulus", big(P::modulus) == p, big(P::modulus));
    group_consts<P, H_group_order_minus_one_half<F>>(nm, p);
    if constexpr (H_s<P>) {
        const unsigned s = P::s;
        ck(nm, "s is the 2-adicity", s > 0 && (p - 1) % (big(1) << s) == 0 && ((p - 1) >> s) % 2 == 1, big(s));
        const big t = (p - 1) >> s;
        if constexpr (H_root_of_unity<P>) {
            const big w(P::root_of_unity);
            ck(nm, "root_of_unity has order 2^s", w < p && powm(w, big(big(1) << (s - 1)), p) == p - 1, w);
        }
        if constexpr (H_nqr<P>) ck(nm, "nqr", powm(big(P::nqr), big((p - 1) / 2), p) == p - 1, big(P::nqr));
        if constexpr (H_nqr_to_t<P>) ck(nm, "nqr_to_t", powm(big(P::nqr), t, p) == big(P::nqr_to_t), big(P::nqr_to_t));
    }
    if constexpr (H_multiplicative_generator<P>) generator(nm, "multiplicative_generator", big(P::multiplicative_generator), p);
    if constexpr (H_arithmetic_generator<P>) ck(nm, "arithmetic_generator", big(P::arithmetic_generator) > 0 && big(P::arithmetic_generator) < p);
    if constexpr (H_geometric_generator<P>) ck(nm, "geometric_generator", big(P::geometric_generator) > 1 && big(P::geometric_generator) < p);
    const unsigned limb = 64 * ((F::modulus_bits + 63) / 64);
    if constexpr (H_Rsquared<P>) ck(nm, "Rsquared", powm(big(2), big(2 * limb), p) == big(P::Rsquared), big(P::Rsquared));
    if constexpr (H_Rcubed<P>) ck(nm, "Rcubed", powm(big(2), big(3 * limb), p) == big(P::Rcubed), big(P::Rcubed));
}

#if PART == 1
static void run() {
#define F(...) mc::cur_args = #__VA_ARGS__; if (mc::mine()) prime<fields::__VA_ARGS__>(#__VA_ARGS__);
#define SAFE(...) mc::cur_args = #__VA_ARGS__; if (mc::mine()) prime<fields::__VA_ARGS__>(#__VA_ARGS__, true);
    { mc::ScopedSpace s("prime fields: modulus, bit sizes, halved order and generator of each shipped prime field header that compiles");
    F(alt_bn128_base_field<254>) F(alt_bn128_scalar_field<254>) F(bls12_base_field<381>) F(bls12_scalar_field<381>) F(bls12_base_field<377>) F(bls12_scalar_field<377>)
    F(bn128_base_field<254>) F(bn128_scalar_field<254>) F(edwards_base_field<183>) F(edwards_scalar_field<183>) F(mnt4_base_field<298>) F(mnt4_scalar_field<298>) F(mnt6_base_field<298>) F(mnt6_scalar_field<298>)
    F(babyjubjub_base_field) F(babyjubjub_scalar_field) F(jubjub_base_field) F(jubjub_scalar_field) F(curve25519_base_field) F(curve25519_scalar_field) F(pallas_base_field) F(pallas_scalar_field) F(vesta_base_field) F(vesta_scalar_field)
    F(goldilocks64_base_field) F(maxprime<64>)
    F(secp_k1_base_field<160>) F(secp_k1_base_field<192>) F(secp_k1_base_field<224>) F(secp_k1_base_field<256>) F(secp_k1_scalar_field<160>) F(secp_k1_scalar_field<192>) F(secp_k1_scalar_field<224>) F(secp_k1_scalar_field<256>)
    F(secp_r1_base_field<160>) F(secp_r1_base_field<192>) F(secp_r1_base_field<224>) F(secp_r1_base_field<256>) F(secp_r1_base_field<384>) F(secp_r1_base_field<521>)
    F(secp_r1_scalar_field<160>) F(secp_r1_scalar_field<192>) F(secp_r1_scalar_field<224>) F(secp_r1_scalar_field<256>) F(secp_r1_scalar_field<384>) F(secp_r1_scalar_field<521>)
    F(sm2p_v1_base_field<256>) F(sm2p_v1_scalar_field<256>)
    F(brainpool_r1_base_field<160>) F(brainpool_r1_scalar_field<160>) F(brainpool_r1_base_field<192>) F(brainpool_r1_scalar_field<192>) F(brainpool_r1_base_field<224>) F(brainpool_r1_scalar_field<224>) F(brainpool_r1_base_field<256>) F(brainpool_r1_scalar_field<256>) F(brainpool_r1_base_field<320>) F(brainpool_r1_scalar_field<320>) F(brainpool_r1_base_field<384>) F(brainpool_r1_scalar_field<384>) F(brainpool_r1_base_field<512>) F(brainpool_r1_scalar_field<512>)
    F(frp_v1_base_field<256>) F(frp_v1_scalar_field<256>) F(gost_A_base_field<256>) F(gost_A_scalar_field<256>)
    F(x962_p_v2_base_field<192>) F(x962_p_v2_scalar_field<192>) F(x962_p_v3_base_field<192>) F(x962_p_v3_scalar_field<192>) F(x962_p_v1_base_field<239>) F(x962_p_v1_scalar_field<239>) F(x962_p_v2_base_field<239>) F(x962_p_v2_scalar_field<239>) F(x962_p_v3_base_field<239>) F(x962_p_v3_scalar_field<239>)
    F(dsa_botan<2048>) F(dsa_botan<3072>) F(dsa_jce<1024>)
    SAFE(ffdhe_ietf<2048>) SAFE(ffdhe_ietf<3072>) SAFE(ffdhe_ietf<4096>)
    SAFE(modp_srp<1024>) SAFE(modp_srp<1536>) SAFE(modp_srp<2048>) SAFE(modp_srp<3072>) SAFE(modp_srp<4096>)
    SAFE(modp_ietf<1024>) SAFE(modp_ietf<1536>) SAFE(modp_ietf<2048>) SAFE(modp_ietf<3072>) SAFE(modp_ietf<4096>)
    SAFE(modp_ietf<6144>) SAFE(modp_ietf<8192>) SAFE(ffdhe_ietf<6144>) SAFE(ffdhe_ietf<8192>) SAFE(modp_srp<6144>) SAFE(modp_srp<8192>)
    }
#define A(...) mc::cur_args = #__VA_ARGS__; if (mc::mine()) arith<fields::__VA_ARGS__>(#__VA_ARGS__);
    mc::ScopedSpace s("arithmetic parameters: 2-adicity, odd part, roots of unity, residues, generators and Montgomery constants of each arithmetic_params that compiles");
    A(alt_bn128_base_field<254>) A(alt_bn128_scalar_field<254>) A(bls12_base_field<381>) A(bls12_scalar_field<381>) A(bls12_base_field<377>) A(bls12_scalar_field<377>)
    A(mnt4_base_field<298>) A(mnt6_base_field<298>) A(pallas_base_field) A(vesta_base_field) A(goldilocks64_base_field) A(curve25519_base_field)
    A(edwards_base_field<183>) A(edwards_scalar_field<183>) A(bn128_base_field<254>) A(bn128_scalar_field<254>)
}
#else
// the extension element type against its own tower built from the non-residues
template<typename F>
void ext(const char *n) {
    typedef typename F::value_type E;
    const std::string nm = n;
    mc::trace();
    mc::cur_args = nm;
    ck(nm, "field_type of the element", std::is_same<typename E::field_type, F>::value);
    auto T = conv::tower<big, E>::get();
    const std::size_t d = T.dim();
    const big p = T.p;
    ck(nm, "arity", F::arity == d && F::modulus_bits == msb(p) + 1 && F::value_bits == F::modulus_bits * d, big(F::arity));
    typedef std::vector<big> V;
    // irreducibility of each level: the non-residue is not a deg-th power in the field below
    for (std::size_t l = 0; l < T.lv.size(); ++l) {
        auto B = T; B.lv.resize(l);
        big q = 1; for (std::size_t i = 0; i < B.dim(); ++i) q *= p;
        std::size_t deg = T.lv[l].deg;
        ck(nm, "non-residue exists", (q - 1) % deg == 0);
        mc::step("non-residue");
        ck(nm, "non-residue", B.pow(T.lv[l].nr, big((q - 1) / deg)) != B.one());
    }
    // Frobenius on every basis vector and on a dense element, against plain powers
    std::vector<V> es;
    for (std::size_t i = 0; i < d; ++i) { es.push_back(conv::unit<big>(d, i)); }
    V dense; for (std::size_t i = 0; i < d; ++i) dense.push_back(p / (i + 2) + i);
    es.push_back(dense);
    std::vector<V> cur = es;
    for (unsigned i = 0; i <= d; ++i) {
        for (std::size_t k = 0; k < es.size(); ++k) {
            mc::step("Frobenius_map");
            V got = conv::to<big>(conv::from<E>(es[k]).Frobenius_map(i));
            if (got != cur[k]) mc::violation(mc::str(nm, ":Frobenius_map(", i, ")"), mc::str(nm, " Frobenius_map(", i, ") of element ", k, " gives ", show(got), " want ", show(cur[k])));
            if (i < d) cur[k] = T.pow(cur[k], p);
        }
        mc::state();
    }
    // products of all basis pairs
    for (std::size_t i = 0; i < d; ++i) for (std::size_t j = 0; j < d; ++j) {
        mc::state(); mc::step("*");
        V got = conv::to<big>(conv::from<E>(es[i]) * conv::from<E>(es[j]));
        if (got != T.mul(es[i], es[j])) mc::violation(mc::str(nm, ":basis product"), mc::str(nm, " e", i, "*e", j, " gives ", show(got)));
    }
}
template<typename P, typename E>
void sq_params(const char *n, const model::Tower<big> &T, bool roots) {
    const std::string nm = n;
    mc::trace();
    const big p = T.p;
    ck(nm, "modulus", big(P::modulus) == p, big(P::modulus));
    big q = 1; for (std::size_t i = 0; i < T.dim(); ++i) q *= p;
    group_consts<P>(nm, q);
    std::vector<big> z, zt;
    for (auto &c : P::nqr) z.push_back(big(c));
    for (auto &c : P::nqr_to_t) zt.push_back(big(c));
    mc::step("nqr");
    ck(nm, "nqr", T.pow(z, big((q - 1) / 2)) == T.neg(T.one()));
    mc::step("nqr_to_t");
    ck(nm, "nqr_to_t", T.pow(z, big((q - 1) >> unsigned(P::s))) == zt);
    if (!roots) return;
    // every 2-power order the group has, alone and times an element of odd order
    {
        std::vector<big> o(T.dim());
        for (std::size_t i = 0; i < o.size(); ++i) o[i] = p / (i + 3) + 5;
        for (int i = 0; i < int(P::s); ++i) o = T.mul(o, o);
        std::vector<big> w = zt;
        for (int i = 0; i <= int(P::s); ++i, w = T.mul(w, w)) for (int odd = 0; odd < 2; ++odd) {
            auto x = odd ? T.mul(w, o) : w;
            mc::state(); mc::step("sqrt"); mc::cur_args = nm + " " + show(x);
            bool sq = i > 0;
            MC_CHECK(conv::from<E>(x).is_square() == sq, nm + ":is_square at 2-power order", nm, " 2^", int(P::s) - i, " ", show(x));
            if (!sq) continue;
            auto r = conv::to<big>(conv::from<E>(x).sqrt());
            MC_CHECK(T.mul(r, r) == x, nm + ":sqrt at 2-power order", nm, " 2^", int(P::s) - i, " ", show(x), " root ", show(r));
        }
    }
    // squares and non-squares of every coordinate pattern
    sparse_vectors<big>(T.dim(), T.dim(), {big(1), p - 2}, [&](const std::vector<big> &v) {
        if (v == std::vector<big>(v.size(), 0)) return;
        auto sq = T.mul(v, v), ns = T.mul(sq, z);
        mc::state(); mc::step("is_square");
        MC_CHECK(conv::from<E>(sq).is_square(), nm + ":is_square of a square", nm, " ", show(sq));
        MC_CHECK(!conv::from<E>(ns).is_square(), nm + ":is_square of a non-square", nm, " ", show(ns));
        mc::step("sqrt"); mc::cur_args = nm + " " + show(sq);
        auto r = conv::to<big>(conv::from<E>(sq).sqrt());
        MC_CHECK(T.mul(r, r) == sq, nm + ":sqrt", nm, " ", show(sq), " root ", show(r));
    });
}
template<typename F> struct fields_of;
template<template<typename> class X, typename B> struct fields_of<X<B>> { typedef B base; };
static void run() {
#define X(...) if (mc::mine()) ext<fields::__VA_ARGS__>(#__VA_ARGS__);
#define S2(...) if (mc::mine()) sq_params<fields::detail::fp2_extension_params<fields::__VA_ARGS__>, fields::fp2<fields::__VA_ARGS__>::value_type>("fp2_extension_params " #__VA_ARGS__, conv::tower<big, fields::fp2<fields::__VA_ARGS__>::value_type>::get(), true);
#define S3(...) if (mc::mine()) sq_params<fields::detail::fp3_extension_params<fields::__VA_ARGS__>, fields::fp3<fields::__VA_ARGS__>::value_type>("fp3_extension_params " #__VA_ARGS__, conv::tower<big, fields::fp3<fields::__VA_ARGS__>::value_type>::get(), true);
#define A2(...) if (mc::mine()) sq_params<fields::arithmetic_params<fields::fp2<fields::__VA_ARGS__>>, fields::fp2<fields::__VA_ARGS__>::value_type>("arithmetic_params fp2 " #__VA_ARGS__, conv::tower<big, fields::fp2<fields::__VA_ARGS__>::value_type>::get(), false);
#define A3(...) if (mc::mine()) sq_params<fields::arithmetic_params<fields::fp3<fields::__VA_ARGS__>>, fields::fp3<fields::__VA_ARGS__>::value_type>("arithmetic_params fp3 " #__VA_ARGS__, conv::tower<big, fields::fp3<fields::__VA_ARGS__>::value_type>::get(), false);
    using namespace nil::crypto3::algebra;
#if PART == 2
    { mc::ScopedSpace s("extension fields: every level's non-residue; every power of Frobenius on every basis vector and a dense element; every basis product");
    using namespace nil::crypto3::algebra;
    X(fp12_2over3over2<fields::bls12_base_field<381>>) X(fp12_2over3over2<fields::bls12_base_field<377>>) X(fp12_2over3over2<fields::alt_bn128_base_field<254>>) X(fp12_2over3over2<fields::bn128_base_field<254>>)
    X(fp6_3over2<fields::bls12_base_field<381>>) X(fp6_3over2<fields::bls12_base_field<377>>) X(fp6_3over2<fields::alt_bn128_base_field<254>>) X(fp6_3over2<fields::bn128_base_field<254>>)
    X(fp6_2over3<fields::mnt6_base_field<298>>) X(fp6_2over3<fields::edwards_base_field<183>>) X(fp4<fields::mnt4_base_field<298>>)
    X(fp2<fields::bls12_base_field<381>>) X(fp2<fields::bls12_base_field<377>>) X(fp2<fields::alt_bn128_base_field<254>>) X(fp2<fields::bn128_base_field<254>>) X(fp2<fields::mnt4_base_field<298>>)
    X(fp3<fields::mnt6_base_field<298>>) X(fp3<fields::edwards_base_field<183>>)
    }
#endif
    mc::ScopedSpace s("square-root parameters: s, t, (t-1)/2, halved order, non-residue and its t-th power for each quadratic and cubic extension");
    S2(bls12_base_field<381>) S2(bls12_base_field<377>) S2(alt_bn128_base_field<254>) S2(bn128_base_field<254>) S2(mnt4_base_field<298>) S3(mnt6_base_field<298>) S3(edwards_base_field<183>)
#if PART == 2
    A2(bls12_base_field<381>) A2(bls12_base_field<377>) A2(alt_bn128_base_field<254>) A2(mnt4_base_field<298>) A3(mnt6_base_field<298>) A2(bn128_base_field<254>) A3(edwards_base_field<183>)
#endif
}
#endif
int main(int argc, char **argv) { mc::init(argc, argv, "consts"); run(); return mc::finish(); }
