// C23: windowed exponentiation. Every scalar of a range, every window, every (small) window table: fixed_window_wnaf_exp, opt_window_wnaf_exp,
// the fixed-base tables (get_exp_window_size, get_window_table, windowed_exp, batch_exp, batch_exp_with_coeff). PART 1: symbolic group,
// PART 2: tiny curves, every point; PART 3: shipped curves and their shipped tables.
#if PART == 2
#include <nil/crypto3/algebra/curves/detail/forms/short_weierstrass/coordinates.hpp>
#include <nil/crypto3/algebra/curves/detail/forms/twisted_edwards/coordinates.hpp>
#include <nil/crypto3/algebra/curves/detail/forms/short_weierstrass/element_g1_affine.hpp>
#include <nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian/element_g1.hpp>
#include <nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian_with_a4_0/element_g1.hpp>
#include <nil/crypto3/algebra/curves/detail/forms/short_weierstrass/projective/element_g1.hpp>
#include <nil/crypto3/algebra/curves/detail/forms/twisted_edwards/element_g1_affine.hpp>
#include <nil/crypto3/algebra/curves/detail/forms/twisted_edwards/extended_with_a_minus_1/element_g1.hpp>
#include <nil/crypto3/algebra/curves/detail/scalar_mul.hpp>
#include "tinycurve.hpp"
#endif
#if PART == 3
#include <nil/crypto3/algebra/curves/params/wnaf/alt_bn128.hpp>
#include <nil/crypto3/algebra/curves/params/wnaf/bls12.hpp>
#include <nil/crypto3/algebra/curves/params/wnaf/edwards.hpp>
#include <nil/crypto3/algebra/curves/params/wnaf/mnt4.hpp>
#include <nil/crypto3/algebra/curves/params/wnaf/mnt6.hpp>
#include <nil/crypto3/algebra/curves/params/multiexp/alt_bn128.hpp>
#include <nil/crypto3/algebra/curves/params/multiexp/bls12.hpp>
#include <nil/crypto3/algebra/curves/params/multiexp/edwards.hpp>
#include <nil/crypto3/algebra/curves/params/multiexp/mnt4.hpp>
#include <nil/crypto3/algebra/curves/params/multiexp/mnt6.hpp>
#include <nil/crypto3/algebra/curves/detail/scalar_mul.hpp>
#endif
#include <nil/crypto3/algebra/wnaf.hpp>
#include <nil/crypto3/algebra/multiexp/multiexp.hpp>
#include "sym.hpp"
namespace cv = nil::crypto3::algebra::curves;

#if PART == 2
namespace nil { namespace crypto3 { namespace algebra { namespace curves {
    template<typename P, typename Fm, typename C> struct wnaf_params<tc::group<P, Fm, C>> { static inline std::array<std::size_t, 4> wnaf_window_table = {2, 3, 4, 5}; };
    template<typename P, typename Fm, typename C> struct multiexp_params<tc::group<P, Fm, C>> { static inline std::array<std::size_t, 5> fixed_base_exp_window_table = {1, 3, 0, 6, 12}; };
}}}}
#endif

static std::size_t model_window(const std::size_t *t, std::size_t n, std::size_t k) {
#ifdef LOWMEM
    const std::size_t cap = 14;
#else
    const std::size_t cap = ~std::size_t(0);
#endif
    for (std::size_t i = n; i-- > 0;) if (t[i] != 0 && k >= t[i]) return std::min(cap, i + 1);
    return n ? 1 : std::min<std::size_t>(cap, 17);
}

// bases: (element, predicate that recognises k times it)
template<typename G, typename F, typename Base, typename IsMul>
void fixed_base(const std::string &nm, const Base &g, IsMul is, unsigned max_size, unsigned max_window) {
    typedef typename F::value_type SV;
    typedef typename F::integral_type SI;
    for (unsigned size = 1; size <= max_size; ++size) for (unsigned w = 1; w <= max_window; ++w) {
        mc::step("get_window_table");
        auto table = alg::get_window_table<G>(size, w, g);
        mc::state();
        u64 lim = std::min<u64>(u64(1) << size, u64(F::p));
        std::vector<SV> all;
        for (u64 k = 0; k < lim; ++k) {
            all.push_back(SV(k));
            mc::step("windowed_exp"); mc::trace();
            auto r = alg::windowed_exp<G, F>(size, w, table, all.back());
            MC_CHECK(is(r, k), "fixed-base:windowed_exp", nm, ": windowed_exp of size ", size, " window ", w, " scalar ", k, " is wrong");
        }
        mc::step("batch_exp");
        auto r = alg::batch_exp<G, F>(size, w, table, all);
        MC_CHECK(r.size() == all.size(), "fixed-base:batch_exp-size", nm);
        for (u64 k = 0; k < lim && k < r.size(); ++k) MC_CHECK(is(r[k], k), "fixed-base:batch_exp", nm, ": batch_exp size ", size, " window ", w, " position ", k);
        MC_CHECK((alg::batch_exp<G, F>(size, w, table, std::vector<SV>()).empty()), "fixed-base:batch_exp-empty", nm);
        // lists in other orders and with repeated scalars: each position depends on its own scalar only
        std::vector<std::pair<const char *, std::vector<u64>>> lists;
        auto list = [&](const char *n, auto f, u64 len) { std::vector<u64> v; for (u64 i = 0; i < len; ++i) v.push_back(f(i) % lim); lists.push_back({n, v}); };
        list("descending", [&](u64 i) { return lim - 1 - i; }, lim);
        list("every scalar twice in a row", [&](u64 i) { return i / 2; }, 2 * lim);
        list("every scalar three times in a row", [&](u64 i) { return i / 3; }, 3 * lim);
        list("the list twice", [&](u64 i) { return i; }, 2 * lim);
        list("mirrored", [&](u64 i) { return i < lim ? i : 2 * lim - 1 - i; }, 2 * lim);
        list("interleaved with zero", [&](u64 i) { return i % 2 ? 0 : i / 2; }, 2 * lim);
        list("interleaved with one", [&](u64 i) { return i % 2 ? 1 : i / 2; }, 2 * lim);
        for (u64 a = 0; a < std::min<u64>(lim, 6); ++a) for (u64 b = 0; b < std::min<u64>(lim, 6); ++b) list("pair", [&](u64 i) { return i ? b : a; }, 2);
        for (u64 a : {u64(0), u64(1), lim - 1}) for (u64 len : {1, 2, 3, 70}) list("all equal", [&](u64) { return a; }, len);
        for (auto &[ln, ks] : lists) {
            mc::state(); mc::trace();
            mc::step("batch_exp list");
            std::vector<SV> vs;
            for (u64 k : ks) vs.push_back(SV(k));
            auto b = alg::batch_exp<G, F>(size, w, table, vs);
            MC_CHECK(b.size() == ks.size(), "fixed-base:list-size", nm, ": ", ln);
            for (u64 i = 0; i < ks.size() && i < b.size(); ++i) MC_CHECK(is(b[i], ks[i]), "fixed-base:list", nm, ": batch_exp size ", size, " window ", w, " ", ln, ", position ", i);
            if ((u64(1) << size) < F::p) continue;
            for (u64 c : {u64(1), u64(F::p - 2)}) {
                mc::step("batch_exp_with_coeff list");
                auto d = alg::batch_exp_with_coeff<G, F>(size, w, table, SV(c), vs);
                MC_CHECK(d.size() == ks.size(), "fixed-base:with_coeff-list-size", nm, ": ", ln);
                for (u64 i = 0; i < ks.size() && i < d.size(); ++i) MC_CHECK(is(d[i], c * ks[i] % F::p), "fixed-base:with_coeff-list", nm, ": batch_exp_with_coeff size ", size, " window ", w, " coeff ", c, " ", ln, ", position ", i);
            }
        }
        if ((u64(1) << size) >= F::p) {
            for (u64 c : {u64(0), u64(1), u64(2), u64(F::p - 1)}) {
                mc::step("batch_exp_with_coeff");
                auto b = alg::batch_exp_with_coeff<G, F>(size, w, table, SV(c), all);
                MC_CHECK(b.size() == all.size(), "fixed-base:with_coeff-size", nm);
                for (u64 k = 0; k < lim && k < b.size(); ++k) MC_CHECK(is(b[k], c * k % F::p), "fixed-base:with_coeff", nm, ": batch_exp_with_coeff size ", size, " window ", w, " coeff ", c, " position ", k);
            }
        }
    }
}

#if PART == 1
struct vec_group { };   // a group whose table can have any length
namespace nil { namespace crypto3 { namespace algebra { namespace curves {
    template<> struct multiexp_params<vec_group> { static inline std::vector<std::size_t> fixed_base_exp_window_table; };
}}}}
typedef sym::El<long long, 1> E1;
typedef sym::El<big, 1> EB;
typedef cv::wnaf_params<E1::group_type> WP;
typedef cv::multiexp_params<E1::group_type> MP;
template<unsigned Bits> using num = boost::multiprecision::number<boost::multiprecision::backends::cpp_int_modular_backend<Bits>>;

int main(int argc, char **argv) {
    mc::init(argc, argv, "windowed exponentiation, symbolic group");
    bool T = mc::thorough;
    (void)T;
#ifndef LOWMEM
    {
        mc::ScopedSpace sp("fixed_window_wnaf_exp: every window and scalar");
        for (unsigned w = 1; w <= 8; ++w) for (long long base : {1, -3}) {
            if (!mc::mine()) continue;
            mc::state();
            const E1 b = E1::e(0, base);
            for (u64 k = 0; k < (T ? 1u << 20 : 1u << 17); ++k) {
                mc::step("fixed_window_wnaf_exp"); mc::trace();
                E1 r = alg::fixed_window_wnaf_exp(w, b, num<24>(k));
                MC_CHECK(r.c[0] == (long long)(k) * base, "wnaf:fixed", "window ", w, ": ", k, " times ", base, " = ", r);
            }
            MC_CHECK(b == E1::e(0, base), "wnaf:operand", "base changed");
        }
    }
    {
        mc::ScopedSpace sp("fixed_window_wnaf_exp: wide scalars made of one or two runs of bits");
        auto wide = [&](auto tag, unsigned bits) {
            typedef decltype(tag) N;
            std::set<big> s;
            unsigned st = T ? 1 : 5;
            for (unsigned i = 0; i < bits; i += st) for (unsigned j = 0; j <= i; j += st) {
                big a = big(1) << i, b = big(1) << j;
                for (big x : {big(a + b), big(a - b), big(a + b - 1), big((a << 1) - b), big((big(1) << bits) - a - b)}) if (x >= 0 && x < (big(1) << bits)) s.insert(x);
            }
            for (unsigned w = 1; w <= 6; ++w) for (auto &k : s) {
                if (!mc::mine()) continue;
                mc::state(); mc::step("fixed_window_wnaf_exp wide"); mc::trace();
                EB r = alg::fixed_window_wnaf_exp(w, EB::e(0), N(k));
                MC_CHECK(r.c[0] == k, "wnaf:fixed-wide", "window ", w, ": ", k, " gives ", r);
            }
        };
        wide(num<256>(), 256); wide(num<64>(), 64); wide(num<65>(), 65); if (T) wide(num<384>(), 384);
    }
    {
        mc::ScopedSpace sp("opt_window_wnaf_exp: every small table, scalar and scalar size");
        const std::size_t v[] = {0, 1, 2, 3, 5, 8, 20};
        for (auto a : v) for (auto b : v) for (auto c : v) for (auto d : v) {
            if (!mc::mine()) continue;
            WP::wnaf_window_table = {a, b, c, d};
            mc::state();
            for (u64 k = 0; k < (T ? 2000 : 300); ++k) {
                std::size_t bits = tiny::bitlen(k);
                for (std::size_t extra : {0, 1, 7, 40}) {
                    mc::step("opt_window_wnaf_exp"); mc::trace();
                    E1 r = alg::opt_window_wnaf_exp(E1::e(0, 5), num<24>(k), bits + extra);
                    MC_CHECK(r.c[0] == (long long)(5 * k), "wnaf:opt", "table ", a, " ", b, " ", c, " ", d, ": ", k, " of size ", bits + extra, " gives ", r);
                }
            }
        }
    }
#endif
    {
        mc::ScopedSpace sp("get_exp_window_size: every small table and instance size");
        const std::size_t v[] = {0, 1, 2, 3, 5, 9};
        for (auto a : v) for (auto b : v) for (auto c : v) for (auto d : v) for (auto e : v) {
            if (!mc::mine()) continue;
            MP::fixed_base_exp_window_table = {a, b, c, d, e};
            mc::state();
            for (std::size_t n = 0; n <= 11; ++n) {
                mc::step("get_exp_window_size"); mc::trace();
                std::size_t got = alg::get_exp_window_size<E1::group_type>(n), want = model_window(MP::fixed_base_exp_window_table.data(), 5, n);
                MC_CHECK(got == want, "fixed-base:window_size", "table ", a, " ", b, " ", c, " ", d, " ", e, ": ", n, " scalars: window ", got, " want ", want);
            }
        }
    }
    {
        // tables of every length from 0 to 24: dense, with gaps, and with a single threshold
        mc::ScopedSpace sp("get_exp_window_size: tables of every length up to 24");
        auto &t = cv::multiexp_params<vec_group>::fixed_base_exp_window_table;
        for (std::size_t len = 0; len <= 24; ++len) for (int shape = 0; shape < 4 + int(len); ++shape) {
            if (!mc::mine()) continue;
            t.assign(len, 0);
            for (std::size_t i = 0; i < len; ++i) t[i] = shape == 0 ? 2 * i + 1 : shape == 1 ? (i % 2 ? 0 : 3 * i + 2) : shape == 2 ? (i % 3 == 1 ? std::size_t(1) << (2 * i) : 0) : shape == 3 ? (std::size_t(1) << i) : (i == std::size_t(shape - 4) ? 5 + i : 0);
            std::set<std::size_t> ns = {0, 1, std::size_t(1) << 50};
            for (auto x : t) if (x) { ns.insert(x - 1); ns.insert(x); ns.insert(x + 1); }
            mc::state();
            for (auto n : ns) {
                mc::step("get_exp_window_size"); mc::trace();
                std::size_t got = alg::get_exp_window_size<vec_group>(n), want = model_window(t.data(), len, n);
                MC_CHECK(got == want, "fixed-base:window_size", "table of ", len, " shape ", shape, ": ", n, " scalars: window ", got, " want ", want);
            }
        }
    }
#ifdef LOWMEM
    return mc::finish();
#endif
    {
        mc::ScopedSpace sp("fixed-base tables: every scalar size, window and scalar");
        auto is = [](long long b) { return [b](const E1 &r, u64 k) { return r.c[0] == (long long)(k) * b; }; };
        if (mc::mine()) fixed_base<E1::group_type, tiny::tf<1021>>("symbolic, GF(1021)", E1::e(0), is(1), 11, 12);
        if (mc::mine()) fixed_base<E1::group_type, tiny::tf<61>>("symbolic, GF(61)", E1::e(0, -7), is(-7), 8, 8);
        if (mc::mine()) fixed_base<E1::group_type, tiny::tf<3>>("symbolic, GF(3)", E1::e(0, 2), is(2), 4, 6);
        if (mc::mine()) fixed_base<E1::group_type, tiny::tf<257>>("symbolic, GF(257)", E1::e(0, 2), is(2), 12, 5);
        if (T && mc::mine()) fixed_base<E1::group_type, tiny::tf<65537>>("symbolic, GF(65537)", E1::e(0, 1), is(1), 18, 9);
    }
    return mc::finish();
}
#endif

#if PART == 2
typedef boost::multiprecision::number<boost::multiprecision::backends::cpp_int_modular_backend<24>> num24;
template<typename F, typename S, typename Fm, typename C>
struct Chk {
    typedef tc::elem<F, Fm, C, F, S> E;
    typedef tc::params_f<F, F, S, Fm> Pm;
    typedef typename E::group_type G;
    tc::Model<F> m;
    const tc::Tab<F> &t = tc::Tab<F>::get();
    static constexpr bool te = std::is_same<Fm, forms::twisted_edwards>::value, aff = std::is_same<C, coords::affine>::value, proj = std::is_same<C, coords::projective>::value;
    auto fv(u32 i) const { return t.el[i]; }
    int decode(const E &e) const {
        u32 x = t.of(e.X), y = t.of(e.Y);
        if constexpr (aff) return x == 0 && y == 0 ? 0 : m.find(x, y);
        else {
            u32 z = t.of(e.Z), i = t.inv(z);
            if (te) return z ? m.find(t.mul(x, i), t.mul(y, i)) : -1;
            if (z == 0) return 0;
            return proj ? m.find(t.mul(x, i), t.mul(y, i)) : m.find(t.mul(x, t.sq(i)), t.mul(y, t.mul(i, t.sq(i))));
        }
    }
    E make(int i, u32 z) const {
        u32 x = m.pts[i].x, y = m.pts[i].y;
        if constexpr (aff) return i || te ? E(fv(x), fv(y)) : E();
        else if constexpr (te) return E(fv(t.mul(x, z)), fv(t.mul(y, z)), fv(t.mul(t.mul(x, y), z)), fv(z));
        else if (i == 0) return E(fv(0), fv(z), fv(0));
        else if (proj) return E(fv(t.mul(x, z)), fv(t.mul(y, z)), fv(z));
        else return E(fv(t.mul(x, t.sq(z))), fv(t.mul(y, t.mul(z, t.sq(z)))), fv(z));
    }
    void all(const char *name, u32 step) {
        mc::ScopedSpace sp(mc::str(name, " q=", t.q, ": every point, scalar and window"));
        u32 k = 0;
        for (u32 u = 0; u < t.q; ++u) for (u32 v = 0; v < t.q; ++v) {
            if (std::is_same<C, coords::jacobian_with_a4_0>::value && u) continue;
            if (std::is_same<C, coords::extended_with_a_minus_1>::value && u != t.num(-1)) continue;
            if (k++ % step || !mc::mine()) continue;
            if constexpr (te) { if (!m.edwards(u, v) || !m.complete()) continue; Pm::a = fv(u); Pm::d = fv(v); }
            else { if ((aff && v == 0) || !m.weierstrass(u, v)) continue; Pm::a = fv(u); Pm::b = fv(v); }
            Pm::zero_fill = {fv(0), fv(0)};
            std::string nm = mc::str(name, " q=", t.q, " coefficients ", u, " ", v);
            for (int i = 0; i < m.n(); ++i) for (u32 z : {1u, t.q - 1}) {
                const E P = make(i, z);
                mc::state();
                for (u64 k = 0; k < u64(2 * m.n() + 3); ++k) {
                    for (unsigned w = 1; w <= 4; ++w) {
                        mc::step("fixed_window_wnaf_exp"); mc::trace();
                        E r = alg::fixed_window_wnaf_exp(w, P, num24(k));
                        MC_CHECK(decode(r) == m.mul(i, k), "curve:wnaf-fixed", nm, " window ", w, ": ", k, " * ", m.show(i), " = ", m.show(decode(r)));
                    }
                    mc::step("opt_window_wnaf_exp"); mc::trace();
                    E r = alg::opt_window_wnaf_exp(P, num24(k), tiny::bitlen(k));
                    MC_CHECK(decode(r) == m.mul(i, k), "curve:wnaf-opt", nm, ": ", k, " * ", m.show(i), " = ", m.show(decode(r)));
                }
                if (z == 1) fixed_base<G, S>(nm, P, [&](const E &r, u64 k) { return decode(r) == m.mul(i, k); }, tiny::bitlen(S::p), 3);
                MC_CHECK(decode(P) == i, "curve:operand", nm);
                if (aff) break;
            }
        }
    }
};
int main(int argc, char **argv) {
    mc::init(argc, argv, "windowed exponentiation, tiny curves");
    bool T = mc::thorough;
    typedef tiny::tf<31, 3, 4, 1> S;
    { Chk<tiny::tf<5, 2>, S, forms::short_weierstrass, coords::jacobian> c; c.all("jacobian", 1); }
    { Chk<tiny::tf<13, 2, 0, 1>, S, forms::short_weierstrass, coords::jacobian> c; c.all("jacobian", T ? 1 : 2); }
    { Chk<tiny::tf<13, 2, 0, 1>, S, forms::short_weierstrass, coords::projective> c; c.all("projective", T ? 1 : 2); }
    { Chk<tiny::tf<13, 2, 0, 1>, S, forms::short_weierstrass, coords::jacobian_with_a4_0> c; c.all("jacobian_with_a4_0", 1); }
    { Chk<tiny::tf<13, 2, 0, 1>, S, forms::short_weierstrass, coords::affine> c; c.all("affine", T ? 1 : 2); }
    { Chk<tiny::tf<13, 2, 0, 1>, S, forms::twisted_edwards, coords::affine> c; c.all("twisted Edwards affine", T ? 1 : 2); }
    { Chk<tiny::tf<13, 2, 0, 1>, S, forms::twisted_edwards, coords::extended_with_a_minus_1> c; c.all("twisted Edwards extended", 1); }
    return mc::finish();
}
#endif

#if PART == 3
template<typename G, typename S>
void shipped(const char *name) {
    typedef typename G::value_type E;
    typedef typename S::integral_type SI;
    const auto &wt = cv::wnaf_params<G>::wnaf_window_table;
    const auto &mt = cv::multiexp_params<G>::fixed_base_exp_window_table;
    mc::cur_args = name;
    {
        mc::ScopedSpace sp("shipped window tables: every threshold");
        if (mc::mine()) {
            std::size_t last = 0;
            for (std::size_t i = 0; i < mt.size(); ++i) if (mt[i]) { MC_CHECK(mt[i] > last, "shipped:table", name, ": thresholds not increasing at window ", i + 1); last = mt[i]; }
            for (std::size_t i = 1; i < wt.size(); ++i) MC_CHECK(wt[i] > wt[i - 1], "shipped:wnaf-table", name);
            std::set<std::size_t> ns = {0, 1, 2, std::size_t(1) << 40};
            for (auto x : mt) if (x) { ns.insert(x - 1); ns.insert(x); ns.insert(x + 1); }
            for (auto n : ns) {
                mc::state(); mc::step("get_exp_window_size"); mc::trace();
                MC_CHECK(alg::get_exp_window_size<G>(n) == model_window(mt.data(), mt.size(), n), "shipped:window_size", name, ": ", n, " scalars: window ", alg::get_exp_window_size<G>(n));
            }
        }
    }
#ifdef LOWMEM
    return;
#endif
    mc::ScopedSpace sp("shipped groups: structured scalars through every window");
    const unsigned bits = S::modulus_bits;
    std::set<big> s = {0, 1, 2, 3, big(S::modulus) - 1, big(S::modulus) / 2};
    for (unsigned i = 0; i < bits - 1; i += (mc::thorough ? 5 : 41)) { s.insert(big(1) << i); s.insert((big(1) << i) - 1); s.insert((big(0x5555555u) << i) % big(S::modulus)); }
    for (auto x : wt) for (int d : {-1, 0, 1}) if (x + d > 0 && x + d < bits) s.insert((big(1) << (x + d)) - 1);
    const E g = E::one();
    std::map<unsigned, alg::window_table<G>> tables;
    for (auto &k : s) {
        if (!mc::mine()) continue;
        mc::state(); mc::trace();
        const SI n(k);
        E want = g * n;
        unsigned b = 0; while (k >> b) ++b;
        mc::step("opt_window_wnaf_exp"); MC_CHECK(alg::opt_window_wnaf_exp(g, n, b) == want, "shipped:wnaf-opt", name, " scalar ", k);
        mc::step("opt_window_wnaf_exp"); MC_CHECK(alg::opt_window_wnaf_exp(g, n, bits) == want, "shipped:wnaf-opt", name, " scalar ", k, " full size");
        for (unsigned w : {1, 3, 4}) { mc::step("fixed_window_wnaf_exp"); MC_CHECK(alg::fixed_window_wnaf_exp(w, g, n) == want, "shipped:wnaf-fixed", name, " window ", w, " scalar ", k); }
        for (unsigned w : {1, 4, 7}) {
            mc::step("windowed_exp");
            if (!tables.count(w)) tables[w] = alg::get_window_table<G>(bits, w, g);
            MC_CHECK((alg::windowed_exp<G, S>(bits, w, tables[w], typename S::value_type(n)) == want), "shipped:windowed_exp", name, " window ", w, " scalar ", k);
        }
    }
}
int main(int argc, char **argv) {
    mc::init(argc, argv, "windowed exponentiation, shipped curves");
    shipped<cv::bls12<381>::g1_type<>, cv::bls12<381>::scalar_field_type>("bls12_381 G1");
    shipped<cv::bls12<381>::g2_type<>, cv::bls12<381>::scalar_field_type>("bls12_381 G2");
    shipped<cv::bls12<377>::g1_type<>, cv::bls12<377>::scalar_field_type>("bls12_377 G1");
    shipped<cv::bls12<377>::g2_type<>, cv::bls12<377>::scalar_field_type>("bls12_377 G2");
    shipped<cv::alt_bn128<254>::g1_type<>, cv::alt_bn128<254>::scalar_field_type>("alt_bn128 G1");
    shipped<cv::alt_bn128<254>::g2_type<>, cv::alt_bn128<254>::scalar_field_type>("alt_bn128 G2");
    shipped<cv::mnt4<298>::g1_type<>, cv::mnt4<298>::scalar_field_type>("mnt4 G1");
    shipped<cv::mnt4<298>::g2_type<>, cv::mnt4<298>::scalar_field_type>("mnt4 G2");
    shipped<cv::mnt6<298>::g1_type<>, cv::mnt6<298>::scalar_field_type>("mnt6 G1");
    shipped<cv::mnt6<298>::g2_type<>, cv::mnt6<298>::scalar_field_type>("mnt6 G2");
    shipped<cv::edwards<183>::g1_type<>, cv::edwards<183>::scalar_field_type>("edwards_183 G1");
    shipped<cv::edwards<183>::g2_type<>, cv::edwards<183>::scalar_field_type>("edwards_183 G2");
    return mc::finish();
}
#endif
