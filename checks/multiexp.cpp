// C24: multi-scalar multiplication. Every vector of scalars of small lengths (and structured longer ones), every method and number of chunks:
// naive_plain, BDLO12, bos_coster through multiexp and multiexp_with_mixed_addition, and inner_product of field vectors. PART 1: symbolic bases,
// PART 2: tiny curves, every pair of points and scalars; PART 3: shipped curves.
#if PART == 2
#include <nil/crypto3/algebra/curves/detail/forms/short_weierstrass/coordinates.hpp>
#include <nil/crypto3/algebra/curves/detail/forms/twisted_edwards/coordinates.hpp>
#include <nil/crypto3/algebra/curves/detail/forms/short_weierstrass/element_g1_affine.hpp>
#include <nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian/element_g1.hpp>
#include <nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian_with_a4_0/element_g1.hpp>
#include <nil/crypto3/algebra/curves/detail/forms/short_weierstrass/projective/element_g1.hpp>
#include <nil/crypto3/algebra/curves/detail/forms/twisted_edwards/element_g1_affine.hpp>
#include <nil/crypto3/algebra/curves/detail/forms/twisted_edwards/extended_with_a_minus_1/element_g1.hpp>
#include <nil/crypto3/algebra/curves/detail/scalar_mul.hpp>
#include "tinycurve.hpp"
#endif
#if PART == 3
#include <nil/crypto3/algebra/curves/params/wnaf/alt_bn128.hpp>
#include <nil/crypto3/algebra/curves/params/wnaf/bls12.hpp>
#include <nil/crypto3/algebra/curves/params/wnaf/edwards.hpp>
#include <nil/crypto3/algebra/curves/params/wnaf/mnt4.hpp>
#include <nil/crypto3/algebra/curves/params/wnaf/mnt6.hpp>
#include <nil/crypto3/algebra/curves/params/multiexp/alt_bn128.hpp>
#include <nil/crypto3/algebra/curves/params/multiexp/bls12.hpp>
#include <nil/crypto3/algebra/curves/params/multiexp/edwards.hpp>
#include <nil/crypto3/algebra/curves/params/multiexp/mnt4.hpp>
#include <nil/crypto3/algebra/curves/params/multiexp/mnt6.hpp>
#include <nil/crypto3/algebra/curves/detail/scalar_mul.hpp>
#endif
#include <nil/crypto3/algebra/wnaf.hpp>
#include <nil/crypto3/algebra/multiexp/multiexp.hpp>
#include <nil/crypto3/algebra/multiexp/inner_product.hpp>
#include "sym.hpp"
namespace cv = nil::crypto3::algebra::curves;

#if PART == 2
namespace nil { namespace crypto3 { namespace algebra { namespace curves {
    template<typename P, typename Fm, typename C> struct wnaf_params<tc::group<P, Fm, C>> { static inline std::array<std::size_t, 4> wnaf_window_table = {2, 3, 4, 5}; };
    template<typename P, typename Fm, typename C> struct multiexp_params<tc::group<P, Fm, C>> { static inline std::array<std::size_t, 5> fixed_base_exp_window_table = {1, 3, 0, 6, 12}; };
}}}}
#endif


typedef alg::policies::multiexp_method_naive_plain Naive;
typedef alg::policies::multiexp_method_BDLO12 Bdlo;
typedef alg::policies::multiexp_method_bos_coster Bos;

// every method, way of calling and number of chunks; ok(result) decides
template<typename B, typename S, typename Ok, typename Desc>
void every(const std::vector<B> &b, const std::vector<S> &s, Ok ok, Desc desc, const std::vector<std::size_t> &chunks) {
    auto one = [&](const char *name, auto method) {
        typedef decltype(method) M;
        for (auto c : chunks) {
            mc::step(name); mc::trace();
            MC_CHECK(ok(alg::multiexp<M>(b.begin(), b.end(), s.begin(), s.end(), c)), std::string("multiexp:") + name, name, " with ", c, " chunks: ", desc());
            mc::step(name); mc::trace();
            MC_CHECK(ok(alg::multiexp_with_mixed_addition<M>(b.begin(), b.end(), s.begin(), s.end(), c)), std::string("multiexp-mixed:") + name, name, " (mixed addition) with ", c, " chunks: ", desc());
        }
    };
    one("naive_plain", Naive());
    one("BDLO12", Bdlo());
    one("bos_coster", Bos());
}

#if PART == 1
template<typename F, typename C, int N>
struct Sym {
    typedef sym::El<C, N> E;
    typedef typename F::value_type SV;
    std::vector<E> b;
    void vec(const std::vector<big> &k, const std::vector<std::size_t> &chunks) {
        if (!mc::mine()) return;
        mc::state();
        std::vector<SV> s;
        std::vector<E> g;
        E want;
        for (std::size_t i = 0; i < k.size(); ++i) { s.push_back(SV(typename F::integral_type(k[i]))); g.push_back(E::e(i % N, 1 + i / N)); want = want + E::e(i % N, 1 + i / N).times(k[i]); }
        every(g, s, [&](const E &r) { return r == want; }, [&] { std::string t = "scalars"; for (auto &x : k) t += " " + x.str(); return t + " modulo " + big(F::modulus).str(); }, chunks);
    }
    // every tuple of the given values
    void tuples(const char *space, unsigned n, const std::vector<big> &vals, const std::vector<std::size_t> &chunks) {
        mc::ScopedSpace sp(space);
        std::vector<unsigned> d(n, 0);
        for (;;) {
            std::vector<big> k;
            for (auto x : d) k.push_back(vals[x]);
            vec(k, chunks);
            unsigned i = 0;
            while (i < n && ++d[i] == vals.size()) d[i++] = 0;
            if (i == n) break;
        }
    }
};
static std::vector<big> upto(long long n) { std::vector<big> r; for (long long i = 0; i < n; ++i) r.push_back(i); return r; }

template<typename F>
void inner(unsigned nmax, u64 lim) {
    mc::ScopedSpace sp("inner_product: every pair of vectors of field elements");
    typedef typename F::value_type V;
    for (unsigned n = 0; n <= nmax; ++n) {
        u64 tot = 1; for (unsigned i = 0; i < 2 * n; ++i) tot *= F::p;
        if (tot > lim) break;
        for (u64 x = 0; x < tot; ++x) {
            if (!mc::mine()) continue;
            std::vector<V> a, b; u64 y = x, want = 0;
            for (unsigned i = 0; i < n; ++i) { u64 u = y % F::p, v = (y / F::p) % F::p; y /= F::p * F::p; want += u * v; a.push_back(V(u)); b.push_back(V(v)); }
            mc::state(); mc::step("inner_product"); mc::trace();
            MC_CHECK(alg::inner_product(a.begin(), a.end(), b.begin(), b.end()) == V(want % F::p), "inner_product", "GF(", F::p, ") length ", n, " index ", x);
        }
    }
}

int main(int argc, char **argv) {
    mc::init(argc, argv, "multiexp, symbolic bases");
    bool T = mc::thorough;
    const std::vector<std::size_t> few = {1, 2}, more = {1, 2, 3, 4, 7};
    { Sym<tiny::tf<31, 3, 4, 1>, long long, 1> c; c.tuples("every scalar vector, lengths 0 and 1", 0, {0}, more); c.tuples("every scalar vector, lengths 0 and 1", 1, upto(31), more); }
    { Sym<tiny::tf<61>, long long, 2> c; c.tuples("every scalar vector, length 2", 2, upto(61), more); }
    { Sym<tiny::tf<1021>, long long, 2> c; c.tuples("every scalar vector over GF(1021), length 2", 2, upto(T ? 1021 : 300), few); }
    { Sym<tiny::tf<31, 3, 4, 1>, long long, 3> c; c.tuples("every scalar vector, length 3", 3, upto(31), more); }
    { Sym<tiny::tf<13, 2, 0, 1>, long long, 4> c; c.tuples("every scalar vector, length 4", 4, upto(13), more); }
    { Sym<tiny::tf<7, -1, 2, 1>, long long, 5> c; c.tuples("every scalar vector, length 5", 5, upto(7), more); }
    { Sym<tiny::tf<31, 3, 4, 1>, long long, 6> c; c.tuples("scalar vectors of length 6 and 7 from a small set", 6, {0, 1, 2, 3, 12, 29}, few); }
    { Sym<tiny::tf<31, 3, 4, 1>, long long, 7> c; c.tuples("scalar vectors of length 6 and 7 from a small set", 7, T ? std::vector<big> {0, 1, 2, 7, 30} : std::vector<big> {0, 1, 7, 30}, few); }
    if (T) { Sym<tiny::tf<31, 3, 4, 1>, long long, 9> c; c.tuples("scalar vectors of length 9 from a small set", 9, {0, 1, 5, 17}, few); }
    // wide scalars: differences of 20 bits and more between the largest ones
    {
        typedef tiny::tf<2305843009213693951ull> W;
        std::vector<big> v = {0, 1, 2, 3, big(1) << 20, (big(1) << 20) + 1, (big(1) << 41) - 1, big(1) << 60, big(W::modulus) - 1, big(0x123456789abcdef)};
        { Sym<W, big, 2> c; c.tuples("wide scalars, lengths 2 to 4", 2, v, few); }
        { Sym<W, big, 3> c; c.tuples("wide scalars, lengths 2 to 4", 3, v, few); }
        { Sym<W, big, 4> c; c.tuples("wide scalars, lengths 2 to 4", 4, T ? v : std::vector<big> {0, 3, big(1) << 20, big(1) << 60, big(W::modulus) - 1}, few); }
        // bit lengths of the two largest scalars
        mc::ScopedSpace sp("two scalars of every pair of bit lengths");
        Sym<W, big, 3> c;
        for (unsigned i = 0; i < 61; ++i) for (unsigned j = 0; j <= i; ++j) for (int d : {-1, 0, 1}) {
            if (i - j > 6 && i - j < 15 && !T && i % 3) continue;
            big a = (big(1) << i) + d, b = big(1) << j;
            if (a < 0 || a >= big(W::modulus)) continue;
            c.vec({a, b}, {1}); c.vec({b, a, 1}, {1});
        }
    }
    // long vectors: the window of BDLO12 and the shape of the heap depend on the length
    {
        mc::ScopedSpace sp("long vectors with structured scalars");
        typedef tiny::tf<1021> W;
        Sym<W, long long, 5> c;
        for (unsigned n = 0; n <= (T ? 300u : 140u); ++n) for (int pat = 0; pat < 7; ++pat) {
            std::vector<big> k;
            for (unsigned i = 0; i < n; ++i) switch (pat) {
                case 0: k.push_back(0); break;
                case 1: k.push_back(1); break;
                case 2: k.push_back((i * 37 + 5) % 1021); break;
                case 3: k.push_back(i % 3); break;
                case 4: k.push_back(1020 - i); break;
                case 5: k.push_back(i + 1 == n ? 1020 : 0); break;
                default: k.push_back(i % 2 ? 512 : i);
            }
            c.vec(k, {1, 2, 5});
        }
        for (unsigned n : T ? std::vector<unsigned> {511, 512, 1023, 1024, 1500, 4096} : std::vector<unsigned> {255, 256, 511, 512}) {
            std::vector<big> k;
            for (unsigned i = 0; i < n; ++i) k.push_back((i * 97 + 3) % 1021);
            c.vec(k, {1, 3});
        }
    }
    // lengths at which the window of BDLO12 outgrows an octet, and past 16 bits
    {
        mc::ScopedSpace sp("lengths around powers of two up to 65537");
        typedef tiny::tf<2305843009213693951ull> W;
        Sym<W, big, 7> c;
        std::vector<unsigned> ns = {1023, 1024, 1500, 4096, 65536, 65537};
        if (T) ns = {1023, 1024, 1025, 2047, 2048, 4095, 4096, 4097, 8192, 16384, 32767, 32768, 65535, 65536, 65537, 131072, 262144};
        for (unsigned n : ns) for (int pat = 0; pat < (n > 5000 ? 2 : 4); ++pat) {
            std::vector<big> k;
            for (unsigned i = 0; i < n; ++i) switch (pat) {
                case 0: k.push_back((big(i + 1) * 0x9e3779b97f4a7c15ull) % big(W::modulus)); break;
                case 1: k.push_back(i + 1 == n ? big(W::modulus) - 1 : big(i)); break;
                case 2: k.push_back(i % 300); break;
                default: k.push_back(big(1) << (i % 61)); break;
            }
            c.vec(k, n > 5000 ? std::vector<std::size_t> {1, 1000} : std::vector<std::size_t> {1, 3, 300, n, n + 1});
        }
    }
    {
        mc::ScopedSpace sp("inner_product: long vectors");
        typedef tiny::tf<2305843009213693951ull> W;
        typedef typename W::value_type V;
        for (unsigned n : {15u, 16u, 17u, 31u, 32u, 33u, 63u, 64u, 65u, 127u, 128u, 129u, 255u, 256u, 257u, 300u, 511u, 512u, 1023u, 1024u, 1025u, 4096u, 65535u, 65536u, 65537u}) for (int pat = 0; pat < 3; ++pat) {
            if (!mc::mine()) continue;
            std::vector<V> a, b; big want = 0;
            for (unsigned i = 0; i < n; ++i) {
                big x = pat == 0 ? big(W::modulus) - 1 - i : pat == 1 ? big(i) : (big(i + 3) * 0x9e3779b97f4a7c15ull) % big(W::modulus), y = pat == 1 ? big(i + 1 == n) : big(W::modulus) - 2 * i - 1;
                want += x * y; a.push_back(V(typename W::integral_type(x))); b.push_back(V(typename W::integral_type(y)));
            }
            mc::state(); mc::step("inner_product"); mc::trace();
            MC_CHECK(alg::inner_product(a.begin(), a.end(), b.begin(), b.end()) == V(typename W::integral_type(want % big(W::modulus))), "inner_product:long", "length ", n, " pattern ", pat);
        }
    }
    inner<tiny::tf<5, 2>>(4, T ? 500000 : 20000);
    inner<tiny::tf<13, 2, 0, 1>>(2, 100000);
    inner<tiny::tf<3>>(6, T ? 600000 : 60000);
    return mc::finish();
}
#endif

#if PART == 2
typedef boost::multiprecision::number<boost::multiprecision::backends::cpp_int_modular_backend<24>> num24;
template<typename F, typename S, typename Fm, typename C>
struct Chk {
    typedef tc::elem<F, Fm, C, F, S> E;
    typedef tc::params_f<F, F, S, Fm> Pm;
    typedef typename E::group_type G;
    tc::Model<F> m;
    const tc::Tab<F> &t = tc::Tab<F>::get();
    static constexpr bool te = std::is_same<Fm, forms::twisted_edwards>::value, aff = std::is_same<C, coords::affine>::value, proj = std::is_same<C, coords::projective>::value;
    auto fv(u32 i) const { return t.el[i]; }
    int decode(const E &e) const {
        u32 x = t.of(e.X), y = t.of(e.Y);
        if constexpr (aff) return x == 0 && y == 0 ? 0 : m.find(x, y);
        else {
            u32 z = t.of(e.Z), i = t.inv(z);
            if (te) return z ? m.find(t.mul(x, i), t.mul(y, i)) : -1;
            if (z == 0) return 0;
            return proj ? m.find(t.mul(x, i), t.mul(y, i)) : m.find(t.mul(x, t.sq(i)), t.mul(y, t.mul(i, t.sq(i))));
        }
    }
    E make(int i, u32 z) const {
        u32 x = m.pts[i].x, y = m.pts[i].y;
        if constexpr (aff) return i || te ? E(fv(x), fv(y)) : E();
        else if constexpr (te) return E(fv(t.mul(x, z)), fv(t.mul(y, z)), fv(t.mul(t.mul(x, y), z)), fv(z));
        else if (i == 0) return E(fv(0), fv(z), fv(0));
        else if (proj) return E(fv(t.mul(x, z)), fv(t.mul(y, z)), fv(z));
        else return E(fv(t.mul(x, t.sq(z))), fv(t.mul(y, t.mul(z, t.sq(z)))), fv(z));
    }

    void all(const char *name, u32 step) {
        mc::ScopedSpace sp(mc::str(name, " q=", t.q, ": every pair of points and of scalars, triples with repeated points"));
        u32 k = 0;
        for (u32 u = 0; u < t.q; ++u) for (u32 v = 0; v < t.q; ++v) {
            if (std::is_same<C, coords::jacobian_with_a4_0>::value && u) continue;
            if (std::is_same<C, coords::extended_with_a_minus_1>::value && u != t.num(-1)) continue;
            if (k++ % step || !mc::mine()) continue;
            if constexpr (te) { if (!m.edwards(u, v) || !m.complete()) continue; Pm::a = fv(u); Pm::d = fv(v); }
            else { if ((aff && v == 0) || !m.weierstrass(u, v)) continue; Pm::a = fv(u); Pm::b = fv(v); }
            Pm::zero_fill = {fv(0), fv(0)};
            std::string nm = mc::str(name, " q=", t.q, " coefficients ", u, " ", v);
            mc::cur_args = nm;
            auto go = [&](const std::vector<int> &p, const std::vector<u64> &s) {
                std::vector<E> b; std::vector<typename S::value_type> x;
                int want = 0;
                for (std::size_t i = 0; i < p.size(); ++i) { b.push_back(make(p[i], 1 + (i + p[i]) % (t.q - 1))); x.push_back(typename S::value_type(s[i])); want = m.add(want, m.mul(p[i], s[i])); }
                mc::state();
                every(b, x, [&](const E &r) { return decode(r) == want; }, [&] { std::string d = nm + ":"; for (std::size_t i = 0; i < p.size(); ++i) d += mc::str(" ", s[i], "*", m.show(p[i])); return d; }, {1, 2});
            };
            int n = m.n();
            go({}, {});
            for (int i = 0; i < n; ++i) for (u64 a = 0; a < S::p; ++a) {
                go({i}, {a});
                go({i, i, m.neg(i)}, {a, (a * 3 + 1) % S::p, (2 * a) % S::p});
                for (int j = 0; j < n; ++j) for (u64 b = 0; b < S::p; b += (mc::thorough ? 1 : 2)) go({i, j}, {a, b});
            }
        }
    }
};
int main(int argc, char **argv) {
    mc::init(argc, argv, "multiexp, tiny curves");
    bool T = mc::thorough;
    typedef tiny::tf<13, 2, 0, 1> S;
    { Chk<tiny::tf<5, 2>, S, forms::short_weierstrass, coords::jacobian> c; c.all("jacobian", 1); }
    { Chk<tiny::tf<5, 2>, S, forms::short_weierstrass, coords::projective> c; c.all("projective", T ? 1 : 2); }
    { Chk<tiny::tf<7, -1, 2, 1>, S, forms::short_weierstrass, coords::jacobian_with_a4_0> c; c.all("jacobian_with_a4_0", 1); }
    { Chk<tiny::tf<5, 2>, S, forms::short_weierstrass, coords::affine> c; c.all("affine", 1); }
    { Chk<tiny::tf<5, 2>, S, forms::twisted_edwards, coords::affine> c; c.all("twisted Edwards affine", 1); }
    { Chk<tiny::tf<7, -1, 2, 1>, S, forms::twisted_edwards, coords::extended_with_a_minus_1> c; c.all("twisted Edwards extended", 1); }
    if (T) { Chk<tiny::tf<13, 2, 0, 1>, S, forms::short_weierstrass, coords::jacobian> c; c.all("jacobian", 7); }
    return mc::finish();
}
#endif

#if PART == 3
template<typename G, typename S>
void shipped(const char *name) {
    mc::ScopedSpace sp("shipped groups: structured vectors of multiples of the generator");
    mc::cur_args = name;
    typedef typename G::value_type E;
    typedef typename S::integral_type SI;
    typedef typename S::value_type SV;
    const big r = big(S::modulus);
    const unsigned bits = S::modulus_bits;
    const E g = E::one();
    std::vector<E> mult = {E::zero()};
    for (int i = 1; i < 12; ++i) mult.push_back(mult.back() + g);
    for (unsigned n : mc::thorough ? std::vector<unsigned> {0, 1, 2, 3, 4, 5, 8, 9, 17, 33, 64} : std::vector<unsigned> {0, 1, 2, 3, 5, 9, 17})
        for (int pat = 0; pat < 6; ++pat) {
            if (!mc::mine()) continue;
            mc::state();
            std::vector<E> b; std::vector<SV> s; big want = 0;
            for (unsigned i = 0; i < n; ++i) {
                unsigned m = pat == 1 ? 1 : (i * 5 + pat) % 12;
                big k;
                switch (pat) {
                    case 0: k = 0; break;
                    case 1: k = r - 1 - i; break;
                    case 2: k = big(1) << ((i * 61 + 7) % (bits - 1)); break;
                    case 3: k = i % 4; break;
                    case 4: k = ((big(0x9e3779b97f4a7c15ull) << (bits - 70)) * (i + 3) + i) % r; break;
                    default: k = i % 2 ? big(i) : (big(1) << (bits - 2)) - i;
                }
                b.push_back(mult[m]); s.push_back(SV(SI(k))); want += k * m;
            }
            const E w = mult[1] * SI(want % r);
            every(b, s, [&](const E &x) { return x == w; }, [&] { return mc::str(name, " length ", n, " pattern ", pat); }, {1, 3});
        }
    // inner products of the scalar field
    mc::ScopedSpace sp2("inner_product over shipped scalar fields");
    if (mc::mine()) for (unsigned n = 0; n <= 9; ++n) for (int pat = 0; pat < 3; ++pat) {
        std::vector<SV> a, b; big want = 0;
        for (unsigned i = 0; i < n; ++i) {
            big x = pat == 0 ? big(r - 1) : pat == 1 ? (big(1) << ((i * 31) % (bits - 1))) : r - 1 - i, y = pat == 2 ? big(i) : r - 1 - 3 * i;
            a.push_back(SV(SI(x))); b.push_back(SV(SI(y))); want += x * y;
        }
        mc::state(); mc::step("inner_product"); mc::trace();
        MC_CHECK(alg::inner_product(a.begin(), a.end(), b.begin(), b.end()) == SV(SI(want % r)), "inner_product:shipped", name, " length ", n);
    }
}
int main(int argc, char **argv) {
    mc::init(argc, argv, "multiexp, shipped curves");
    shipped<cv::bls12<381>::g1_type<>, cv::bls12<381>::scalar_field_type>("bls12_381 G1");
    shipped<cv::bls12<381>::g2_type<>, cv::bls12<381>::scalar_field_type>("bls12_381 G2");
    shipped<cv::bls12<377>::g1_type<>, cv::bls12<377>::scalar_field_type>("bls12_377 G1");
    shipped<cv::alt_bn128<254>::g1_type<>, cv::alt_bn128<254>::scalar_field_type>("alt_bn128 G1");
    shipped<cv::alt_bn128<254>::g2_type<>, cv::alt_bn128<254>::scalar_field_type>("alt_bn128 G2");
    shipped<cv::mnt4<298>::g1_type<>, cv::mnt4<298>::scalar_field_type>("mnt4 G1");
    shipped<cv::mnt6<298>::g1_type<>, cv::mnt6<298>::scalar_field_type>("mnt6 G1");
    shipped<cv::edwards<183>::g1_type<>, cv::edwards<183>::scalar_field_type>("edwards_183 G1");
    return mc::finish();
}
#endif
