// Tiny prime fields and their extensions, instantiated from the shipped templates, and an independent tower model.
#ifndef VERIF_TINY_HPP
#define VERIF_TINY_HPP
#include <nil/crypto3/algebra/fields/params.hpp>
#include <nil/crypto3/algebra/fields/field.hpp>
#include <nil/crypto3/algebra/fields/detail/element/fp.hpp>
#include <nil/crypto3/algebra/fields/fp2.hpp>
#include <nil/crypto3/algebra/fields/fp3.hpp>
#include <nil/crypto3/algebra/fields/fp4.hpp>
#include <nil/crypto3/algebra/fields/fp6_2over3.hpp>
#include <nil/crypto3/algebra/fields/fp6_3over2.hpp>
#include <nil/crypto3/algebra/fields/fp12_2over3over2.hpp>
#include <boost/multiprecision/cpp_int.hpp>
#include "mc.hpp"

namespace alg = nil::crypto3::algebra;
namespace fields = nil::crypto3::algebra::fields;
using u32 = std::uint32_t;
using u64 = std::uint64_t;

namespace tiny {
    constexpr std::size_t bitlen(u64 v) { std::size_t n = 0; while (v) { ++n; v >>= 1; } return n; }
    constexpr u64 mulm(u64 a, u64 b, u64 p) { return static_cast<u64>(static_cast<unsigned __int128>(a) * b % p); }
    constexpr u64 powm(u64 a, u64 e, u64 p) { u64 r = 1 % p; a %= p; while (e) { if (e & 1) r = mulm(r, a, p); a = mulm(a, a, p); e >>= 1; } return r; }
    constexpr u64 norm(long long a, u64 p) { long long m = static_cast<long long>(p); return static_cast<u64>(((a % m) + m) % m); }
    struct e2 { u64 a, b; };
    constexpr e2 mul2(e2 x, e2 y, u64 nr, u64 p) { return {(mulm(x.a, y.a, p) + mulm(nr, mulm(x.b, y.b, p), p)) % p, (mulm(x.a, y.b, p) + mulm(x.b, y.a, p)) % p}; }
    constexpr e2 pow2(e2 x, u64 e, u64 nr, u64 p) { e2 r {1, 0}; while (e) { if (e & 1) r = mul2(r, x, nr, p); x = mul2(x, x, nr, p); e >>= 1; } return r; }
    struct e3 { u64 a, b, c; };
    constexpr e3 mul3(e3 x, e3 y, u64 nr, u64 p) {
        return {(mulm(x.a, y.a, p) + mulm(nr, (mulm(x.b, y.c, p) + mulm(x.c, y.b, p)) % p, p)) % p,
                (mulm(x.a, y.b, p) + mulm(x.b, y.a, p) + mulm(nr, mulm(x.c, y.c, p), p)) % p,
                (mulm(x.a, y.c, p) + mulm(x.b, y.b, p) + mulm(x.c, y.a, p)) % p};
    }
    constexpr e3 pow3(e3 x, u64 e, u64 nr, u64 p) { e3 r {1, 0, 0}; while (e) { if (e & 1) r = mul3(r, x, nr, p); x = mul3(x, x, nr, p); e >>= 1; } return r; }
    // (p^i - 1) / k modulo m
    constexpr u64 fexp(u64 p, unsigned i, u64 k, u64 m) { u64 r = 1; for (unsigned j = 0; j < i; ++j) r = mulm(r, p, k * m); return ((r + k * m - 1) % (k * m)) / k; }
    constexpr e2 nqr2(u64 nr, u64 p) {
        for (u64 a = 0; a < p; ++a) for (u64 b = 1; b < p; ++b) { e2 r = pow2({a, b}, (p * p - 1) / 2, nr, p); if (!(r.a == 1 && r.b == 0)) return {a, b}; }
        return {0, 0};
    }
    constexpr e3 nqr3(u64 nr, u64 p) {
        for (u64 a = 0; a < p; ++a) for (u64 b = 1; b < p; ++b) { e3 r = pow3({a, b, 0}, (p * p * p - 1) / 2, nr, p); if (!(r.a == 1 && r.b == 0 && r.c == 0)) return {a, b, 0}; }
        return {0, 0, 0};
    }
    constexpr std::size_t twos(u64 v) { std::size_t n = 0; while (v % 2 == 0) { v /= 2; ++n; } return n; }

    // Field with P elements; NR: non-residue of the degree 2 / 3 extension; (X0, X1): non-residue of the cubic over quadratic tower
    template<u64 P, long long NR = 0, long long X0 = 0, long long X1 = 0>
    struct tf : public fields::field<bitlen(P)> {
        typedef fields::field<bitlen(P)> policy_type;
        constexpr static const std::size_t modulus_bits = policy_type::modulus_bits;
        constexpr static const std::size_t number_bits = policy_type::number_bits;
        constexpr static const std::size_t value_bits = modulus_bits;
        constexpr static const std::size_t arity = 1;
        typedef typename policy_type::integral_type integral_type;
        typedef typename policy_type::extended_integral_type extended_integral_type;
        constexpr static const integral_type modulus = integral_type(P);
        constexpr static const integral_type group_order_minus_one_half = integral_type((P - 1) / 2);
        typedef typename policy_type::modular_backend modular_backend;
        typedef typename policy_type::modular_params_type modular_params_type;
        constexpr static const modular_params_type modulus_params = modulus.backend();
        typedef boost::multiprecision::number<boost::multiprecision::backends::modular_adaptor<
            modular_backend, boost::multiprecision::backends::modular_params_ct<modular_backend, modulus_params>>> modular_type;
        typedef fields::detail::element_fp<fields::params<tf>> value_type;
        static constexpr u64 p = P, nr = norm(NR, P), x0 = norm(X0, P), x1 = norm(X1, P);
    };
}    // namespace tiny

namespace nil { namespace crypto3 { namespace algebra { namespace fields { namespace detail {
#define TINY_COMMON                                                         \
    typedef ::tiny::tf<P, NR, X0, X1> base_field_type;                      \
    typedef fields::params<base_field_type> policy_type;                    \
    typedef typename policy_type::integral_type integral_type;              \
    typedef typename policy_type::extended_integral_type extended_integral_type; \
    constexpr static const integral_type modulus = policy_type::modulus;    \
    typedef base_field_type BF;
    template<u64 P, long long NR, long long X0, long long X1>
    class fp2_extension_params<::tiny::tf<P, NR, X0, X1>> : public params<::tiny::tf<P, NR, X0, X1>> {
    public:
        TINY_COMMON
        using field_type = fields::fp2<base_field_type>;
        typedef base_field_type non_residue_field_type;
        typedef typename non_residue_field_type::value_type non_residue_type;
        typedef base_field_type underlying_field_type;
        typedef typename underlying_field_type::value_type underlying_type;
        constexpr static const non_residue_type non_residue = non_residue_type(BF::nr);
        constexpr static const std::size_t s = ::tiny::twos(P * P - 1);
        constexpr static const u64 tt = (P * P - 1) >> s;
        constexpr static const extended_integral_type t = extended_integral_type(tt);
        constexpr static const extended_integral_type t_minus_1_over_2 = extended_integral_type((tt - 1) / 2);
        constexpr static const extended_integral_type group_order_minus_one_half = extended_integral_type((P * P - 1) / 2);
        constexpr static const ::tiny::e2 nq = ::tiny::nqr2(BF::nr, P);
        constexpr static const ::tiny::e2 nqt = ::tiny::pow2(nq, tt, BF::nr, P);
        constexpr static const std::array<integral_type, 2> nqr = {integral_type(nq.a), integral_type(nq.b)};
        constexpr static const std::array<integral_type, 2> nqr_to_t = {integral_type(nqt.a), integral_type(nqt.b)};
        constexpr static const std::array<integral_type, 2> Frobenius_coeffs_c1 = {integral_type(1u), integral_type(::tiny::powm(BF::nr, (P - 1) / 2, P))};
    };
    template<u64 P, long long NR, long long X0, long long X1>
    class fp3_extension_params<::tiny::tf<P, NR, X0, X1>> : public params<::tiny::tf<P, NR, X0, X1>> {
    public:
        TINY_COMMON
        using field_type = fields::fp3<base_field_type>;
        typedef base_field_type non_residue_field_type;
        typedef typename non_residue_field_type::value_type non_residue_type;
        typedef base_field_type underlying_field_type;
        typedef typename underlying_field_type::value_type underlying_type;
        constexpr static const non_residue_type non_residue = non_residue_type(BF::nr);
        constexpr static const std::size_t s = ::tiny::twos(P * P * P - 1);
        constexpr static const u64 tt = (P * P * P - 1) >> s;
        constexpr static const extended_integral_type t = extended_integral_type(tt);
        constexpr static const extended_integral_type t_minus_1_over_2 = extended_integral_type((tt - 1) / 2);
        constexpr static const extended_integral_type group_order_minus_one_half = extended_integral_type((P * P * P - 1) / 2);
        constexpr static const ::tiny::e3 nq = ::tiny::nqr3(BF::nr, P);
        constexpr static const ::tiny::e3 nqt = ::tiny::pow3(nq, tt, BF::nr, P);
        constexpr static const std::array<integral_type, 3> nqr = {integral_type(nq.a), integral_type(nq.b), integral_type(nq.c)};
        constexpr static const std::array<integral_type, 3> nqr_to_t = {integral_type(nqt.a), integral_type(nqt.b), integral_type(nqt.c)};
        template<unsigned I, unsigned K> static constexpr integral_type c() { return integral_type(::tiny::powm(BF::nr, K * ::tiny::fexp(P, I, 3, P - 1), P)); }
        constexpr static const std::array<integral_type, 3> Frobenius_coeffs_c1 = {c<0, 1>(), c<1, 1>(), c<2, 1>()};
        constexpr static const std::array<integral_type, 3> Frobenius_coeffs_c2 = {c<0, 2>(), c<1, 2>(), c<2, 2>()};
    };
    template<u64 P, long long NR, long long X0, long long X1>
    class fp4_extension_params<::tiny::tf<P, NR, X0, X1>> : public params<::tiny::tf<P, NR, X0, X1>> {
    public:
        TINY_COMMON
        using field_type = fields::fp4<base_field_type>;
        typedef base_field_type non_residue_field_type;
        typedef typename non_residue_field_type::value_type non_residue_type;
        typedef fields::fp2<base_field_type> underlying_field_type;
        typedef typename underlying_field_type::value_type underlying_type;
        constexpr static const non_residue_type non_residue = non_residue_type(BF::nr);
        template<unsigned I> static constexpr integral_type c() { return integral_type(::tiny::powm(BF::nr, ::tiny::fexp(P, I, 4, P - 1), P)); }
        constexpr static const std::array<integral_type, 4> Frobenius_coeffs_c1 = {c<0>(), c<1>(), c<2>(), c<3>()};
    };
    template<u64 P, long long NR, long long X0, long long X1>
    class fp6_2over3_extension_params<::tiny::tf<P, NR, X0, X1>> : public params<::tiny::tf<P, NR, X0, X1>> {
    public:
        TINY_COMMON
        using field_type = fields::fp6_2over3<base_field_type>;
        typedef base_field_type non_residue_field_type;
        typedef typename non_residue_field_type::value_type non_residue_type;
        typedef fields::fp3<base_field_type> underlying_field_type;
        typedef typename underlying_field_type::value_type underlying_type;
        constexpr static const non_residue_type non_residue = non_residue_type(BF::nr);
        template<unsigned I> static constexpr integral_type c() { return integral_type(::tiny::powm(BF::nr, ::tiny::fexp(P, I, 6, P - 1), P)); }
        constexpr static const std::array<integral_type, 6> Frobenius_coeffs_c1 = {c<0>(), c<1>(), c<2>(), c<3>(), c<4>(), c<5>()};
    };
    template<u64 P, long long NR, long long X0, long long X1>
    class fp6_3over2_extension_params<::tiny::tf<P, NR, X0, X1>> : public params<::tiny::tf<P, NR, X0, X1>> {
    public:
        TINY_COMMON
        using field_type = fields::fp6_3over2<base_field_type>;
        typedef fields::fp2<base_field_type> non_residue_field_type;
        typedef typename non_residue_field_type::value_type non_residue_type;
        typedef fields::fp2<base_field_type> underlying_field_type;
        typedef typename underlying_field_type::value_type underlying_type;
        constexpr static const non_residue_type non_residue = non_residue_type(typename non_residue_type::underlying_type(BF::x0), typename non_residue_type::underlying_type(BF::x1));
        static constexpr ::tiny::e2 ce(unsigned i, unsigned k) { return ::tiny::pow2({BF::x0, BF::x1}, k * ::tiny::fexp(P, i, 3, P * P - 1), BF::nr, P); }
        template<unsigned I, unsigned K> static constexpr integral_type a() { return integral_type(ce(I, K).a); }
        template<unsigned I, unsigned K> static constexpr integral_type b() { return integral_type(ce(I, K).b); }
        constexpr static const std::array<integral_type, 12> Frobenius_coeffs_c1 = {a<0, 1>(), b<0, 1>(), a<1, 1>(), b<1, 1>(), a<2, 1>(), b<2, 1>(), a<3, 1>(), b<3, 1>(), a<4, 1>(), b<4, 1>(), a<5, 1>(), b<5, 1>()};
        constexpr static const std::array<integral_type, 12> Frobenius_coeffs_c2 = {a<0, 2>(), b<0, 2>(), a<1, 2>(), b<1, 2>(), a<2, 2>(), b<2, 2>(), a<3, 2>(), b<3, 2>(), a<4, 2>(), b<4, 2>(), a<5, 2>(), b<5, 2>()};
    };
    template<u64 P, long long NR, long long X0, long long X1>
    class fp12_2over3over2_extension_params<::tiny::tf<P, NR, X0, X1>> : public params<::tiny::tf<P, NR, X0, X1>> {
    public:
        TINY_COMMON
        using field_type = fields::fp12_2over3over2<base_field_type>;
        typedef fields::fp2<base_field_type> non_residue_field_type;
        typedef typename non_residue_field_type::value_type non_residue_type;
        typedef fields::fp6_3over2<base_field_type> underlying_field_type;
        typedef typename underlying_field_type::value_type underlying_type;
        constexpr static const non_residue_type non_residue = non_residue_type(typename non_residue_type::underlying_type(BF::x0), typename non_residue_type::underlying_type(BF::x1));
        static constexpr ::tiny::e2 ce(unsigned i) { return ::tiny::pow2({BF::x0, BF::x1}, ::tiny::fexp(P, i, 6, P * P - 1), BF::nr, P); }
        template<unsigned I> static constexpr integral_type a() { return integral_type(ce(I).a); }
        template<unsigned I> static constexpr integral_type b() { return integral_type(ce(I).b); }
        constexpr static const std::array<integral_type, 24> Frobenius_coeffs_c1 = {a<0>(), b<0>(), a<1>(), b<1>(), a<2>(), b<2>(), a<3>(), b<3>(), a<4>(), b<4>(), a<5>(), b<5>(), a<6>(), b<6>(), a<7>(), b<7>(), a<8>(), b<8>(), a<9>(), b<9>(), a<10>(), b<10>(), a<11>(), b<11>()};
    };
#undef TINY_COMMON
}}}}}    // namespace nil::crypto3::algebra::fields::detail

// ---- independent model: towers of extensions by schoolbook polynomial arithmetic ------------------------------------
using big = boost::multiprecision::cpp_int;
namespace model {
    template<typename I> I modp(I a, const I &p) { a %= p; if (a < 0) a += p; return a; }
    template<typename I> using Vec = std::vector<I>;

    template<typename I>
    struct Tower {
        I p;
        struct Level { std::size_t deg; Vec<I> nr; };    // x^deg = nr, nr an element of the level below
        std::vector<Level> lv;
        std::size_t dim(std::size_t l) const { std::size_t n = 1; for (std::size_t i = 0; i < l; ++i) n *= lv[i].deg; return n; }
        std::size_t dim() const { return dim(lv.size()); }
        Vec<I> add(const Vec<I> &a, const Vec<I> &b) const { Vec<I> r(a); for (std::size_t i = 0; i < r.size(); ++i) r[i] = modp<I>(r[i] + b[i], p); return r; }
        Vec<I> sub(const Vec<I> &a, const Vec<I> &b) const { Vec<I> r(a); for (std::size_t i = 0; i < r.size(); ++i) r[i] = modp<I>(r[i] - b[i], p); return r; }
        Vec<I> neg(const Vec<I> &a) const { return sub(Vec<I>(a.size(), I(0)), a); }
        Vec<I> mul(const Vec<I> &a, const Vec<I> &b) const { return mul(lv.size(), a, b); }
        Vec<I> one() const { Vec<I> r(dim(), I(0)); r[0] = 1 % p; return r; }
        Vec<I> mul(std::size_t l, const Vec<I> &a, const Vec<I> &b) const {
            if (l == 0) return {modp<I>(a[0] * b[0], p)};
            std::size_t d = lv[l - 1].deg, m = dim(l - 1);
            std::vector<Vec<I>> c(2 * d - 1, Vec<I>(m, I(0)));
            for (std::size_t i = 0; i < d; ++i) for (std::size_t j = 0; j < d; ++j)
                c[i + j] = add(c[i + j], mul(l - 1, Vec<I>(a.begin() + i * m, a.begin() + (i + 1) * m), Vec<I>(b.begin() + j * m, b.begin() + (j + 1) * m)));
            for (std::size_t k = 2 * d - 2; k >= d; --k) c[k - d] = add(c[k - d], mul(l - 1, lv[l - 1].nr, c[k]));
            Vec<I> r;
            for (std::size_t i = 0; i < d; ++i) r.insert(r.end(), c[i].begin(), c[i].end());
            return r;
        }
        template<typename E>
        Vec<I> pow(Vec<I> a, E e) const {
            Vec<I> r = one();
            while (e != 0) { if (e % 2 != 0) r = mul(r, a); a = mul(a, a); e /= 2; }
            return r;
        }
    };
}    // namespace model

// ---- implementation <-> model ---------------------------------------------------------------------------------------
namespace conv {
    template<typename I, typename FP>
    void flat(const fields::detail::element_fp<FP> &x, std::vector<I> &o) {
        typename FP::integral_type v(x.data);
        if constexpr (std::is_same<I, big>::value) o.push_back(big(v)); else o.push_back(v.template convert_to<I>());
    }
    template<typename I, typename E>
    auto flat(const E &x, std::vector<I> &o) -> decltype(x.data.size(), void()) { for (auto &c : x.data) flat(c, o); }
    template<typename I, typename E>
    std::vector<I> to(const E &x) { std::vector<I> o; flat(x, o); return o; }

    template<typename E> struct mk;
    template<typename FP>
    struct mk<fields::detail::element_fp<FP>> {
        typedef fields::detail::element_fp<FP> E;
        static constexpr std::size_t dim = 1;
        template<typename It> static E at(It it) {
            if constexpr (std::is_integral<typename std::decay<decltype(*it)>::type>::value) return E(static_cast<u64>(*it));
            else return E(typename FP::integral_type(*it));
        }
    };
    template<template<typename> class T, typename FP>
    struct mk<T<FP>> {
        typedef T<FP> E;
        typedef typename E::underlying_type U;
        static constexpr std::size_t n = std::tuple_size<typename E::data_type>::value, dim = n * mk<U>::dim;
        template<typename It> static E at(It it) {
            typename E::data_type d;
            for (std::size_t i = 0; i < n; ++i) d[i] = mk<U>::at(it + i * mk<U>::dim);
            return E(d);
        }
    };
    template<typename E, typename I> E from(const std::vector<I> &v) { return mk<E>::at(v.begin()); }

    // the tower of a field's element type, read from its own parameters
    template<typename I, typename E> struct tower;
    template<typename I, typename FP>
    struct tower<I, fields::detail::element_fp<FP>> {
        static model::Tower<I> get() { return {I(big(FP::modulus)), {}}; }
    };
    template<typename I, typename E>
    model::Tower<I> tower_with(std::size_t deg, std::vector<I> nr) {
        model::Tower<I> t = tower<I, typename E::underlying_type>::get();
        nr.resize(t.dim(), I(0));
        t.lv.push_back({deg, nr});
        return t;
    }
    template<typename I> std::vector<I> unit(std::size_t dim, std::size_t at) { std::vector<I> v(dim, I(0)); v[at] = 1; return v; }
    template<typename I, typename FP> struct tower<I, fields::detail::element_fp2<FP>> { static model::Tower<I> get() { return tower_with<I, fields::detail::element_fp2<FP>>(2, to<I>(FP::non_residue)); } };
    template<typename I, typename FP> struct tower<I, fields::detail::element_fp3<FP>> { static model::Tower<I> get() { return tower_with<I, fields::detail::element_fp3<FP>>(3, to<I>(FP::non_residue)); } };
    // fp4 = fp2[v] / (v^2 - u), fp6_2over3 = fp3[v] / (v^2 - u), fp12 = fp6[w] / (w^2 - v), fp6_3over2 = fp2[v] / (v^3 - xi)
    template<typename I, typename FP> struct tower<I, fields::detail::element_fp4<FP>> { static model::Tower<I> get() { return tower_with<I, fields::detail::element_fp4<FP>>(2, unit<I>(2, 1)); } };
    template<typename I, typename FP> struct tower<I, fields::detail::element_fp6_2over3<FP>> { static model::Tower<I> get() { return tower_with<I, fields::detail::element_fp6_2over3<FP>>(2, unit<I>(3, 1)); } };
    template<typename I, typename FP> struct tower<I, fields::detail::element_fp6_3over2<FP>> { static model::Tower<I> get() { return tower_with<I, fields::detail::element_fp6_3over2<FP>>(3, to<I>(FP::non_residue)); } };
    template<typename I, typename FP> struct tower<I, fields::detail::element_fp12_2over3over2<FP>> { static model::Tower<I> get() { return tower_with<I, fields::detail::element_fp12_2over3over2<FP>>(2, unit<I>(6, 2)); } };
}    // namespace conv

template<typename I>
std::string show(const std::vector<I> &v) { std::ostringstream o; o << "("; for (std::size_t i = 0; i < v.size(); ++i) o << (i ? "," : "") << v[i]; o << ")"; return o.str(); }
template<typename F>
void all_vectors(std::size_t n, u64 p, F f) {
    std::vector<long long> v(n, 0);
    for (;;) {
        f(v);
        std::size_t i = 0;
        while (i < n && v[i] + 1 == static_cast<long long>(p)) v[i++] = 0;
        if (i == n) return;
        ++v[i];
    }
}
// every vector with at most k non-zero coordinates drawn from `vals`
template<typename I, typename F>
void sparse_vectors(std::size_t n, unsigned k, const std::vector<I> &vals, F f, std::size_t from = 0, std::vector<I> *cur = nullptr) {
    std::vector<I> own;
    if (!cur) { own.assign(n, I(0)); cur = &own; f(*cur); }
    if (k == 0) return;
    for (std::size_t i = from; i < n; ++i)
        for (const I &x : vals) {
            (*cur)[i] = x;
            f(*cur);
            sparse_vectors(n, k - 1, vals, f, i + 1, cur);
            (*cur)[i] = I(0);
        }
}
#endif
