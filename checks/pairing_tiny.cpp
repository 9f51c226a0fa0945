// C25: the shipped pairing code instantiated over tiny pairing-friendly curves, explored exhaustively.
// KIND 1: BLS12 (Q_, NR_, X0_, X1_, R_, Z as trace minus one), 2: MNT4, 3: MNT6, 4: Edwards (k = 6).  TR_: trace of Frobenius.
// Every point of E(F_q) against every point of the order-r subgroup of the twist, every projective representation of the arguments (bounded for
// the twist), double loops, final exponentiation of every element (or sparse set) of the target field.
#if KIND == 2
#define CRYPTO3_ALGEBRA_CURVES_MNT4_HPP
#define CRYPTO3_ALGEBRA_PAIRING_MNT4_298_PAIRING_PARAMS_HPP
#elif KIND == 3
#define CRYPTO3_ALGEBRA_CURVES_MNT6_HPP
#define CRYPTO3_ALGEBRA_PAIRING_MNT6_298_PAIRING_PARAMS_HPP
#elif KIND == 4
#define CRYPTO3_ALGEBRA_CURVES_EDWARDS_HPP
#define CRYPTO3_ALGEBRA_PAIRING_EDWARDS_183_PAIRING_PARAMS_HPP
#endif
#include "tinycurve.hpp"
#include "pairmodel.hpp"
#include <nil/crypto3/algebra/curves/detail/forms/short_weierstrass/element_g1_affine.hpp>
#include <nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian_with_a4_0/element_g1.hpp>
#include <nil/crypto3/algebra/curves/detail/forms/short_weierstrass/projective/element_g1.hpp>
#include <nil/crypto3/algebra/curves/detail/forms/twisted_edwards/element_g1_affine.hpp>
#include <nil/crypto3/algebra/curves/detail/forms/twisted_edwards/inverted/element_g1.hpp>

#if KIND == 1
typedef tiny::tf<Q_, NR_, X0_, X1_> F;
typedef fields::fp2<F> F2; typedef fields::fp12_2over3over2<F> GT; typedef coords::jacobian_with_a4_0 CO;
static const unsigned K = 12, DG = 2; static const char *NAME = "bls12";
#elif KIND == 2
typedef tiny::tf<Q_, NR_> F;
typedef fields::fp2<F> F2; typedef fields::fp4<F> GT; typedef coords::projective CO;
static const unsigned K = 4, DG = 2; static const char *NAME = "mnt4";
#elif KIND == 3
typedef tiny::tf<Q_, NR_> F;
typedef fields::fp3<F> F2; typedef fields::fp6_2over3<F> GT; typedef coords::projective CO;
static const unsigned K = 6, DG = 3; static const char *NAME = "mnt6";
#else
typedef tiny::tf<Q_, NR_> F;
typedef fields::fp3<F> F2; typedef fields::fp6_2over3<F> GT; typedef coords::inverted CO;
static const unsigned K = 6, DG = 3; static const char *NAME = "edwards";
#endif
typedef tiny::tf<R_> S;
typedef F::value_type FV; typedef F2::value_type F2V; typedef GT::value_type T;

#if KIND == 4
template<typename C, typename Form> struct twist_group;
struct twist_params : tc::params<F2, F, S> { template<typename C> using group_type = twist_group<C, forms::twisted_edwards>; };
// the shipped twist element adds these two to the plain group law
template<typename C> struct twist_elem : curves::detail::curve_element<twist_params, forms::twisted_edwards, C> {
    typedef curves::detail::curve_element<twist_params, forms::twisted_edwards, C> base;
    using base::base;
    twist_elem() {}
    twist_elem(const base &b) : base(b) {}
    static F2V mul_by_a(const F2V &x) { return twist_params::a * x; }
    struct aff { F2V X, Y, Z; };
    aff to_affine() const { auto a = base::to_affine(); return {a.X, a.Y, F2V::one()}; }
};
template<typename C, typename Form> struct twist_group { typedef twist_params params_type; typedef F2 field_type; typedef tc::curve_of<F2, F, S> curve_type; typedef twist_elem<C> value_type; static constexpr std::size_t value_bits = F2::value_bits; };
template<> struct twist_group<coords::affine, forms::twisted_edwards> { typedef twist_params params_type; typedef F2 field_type; typedef tc::curve_of<F2, F, S> curve_type; typedef curves::detail::curve_element<twist_params, forms::twisted_edwards, coords::affine> value_type; };
#define G2_PARAMS twist_params
#else
#define G2_PARAMS tc::params_f<F2, F, S, forms::short_weierstrass>
#endif

struct curve_base {
    typedef F base_field_type; typedef S scalar_field_type; typedef GT gt_type;
#if KIND == 4
    template<typename C = CO, typename Form = forms::twisted_edwards> using g1_type = tc::group<tc::params_f<F, F, S, Form>, Form, C>;
    struct aff_group { struct value_type { F2V X, Y, Z; value_type() {} template<typename A> value_type(const A &a) : X(a.X), Y(a.Y), Z(a.Z) {} }; };
    template<typename C> struct g2_sel { typedef twist_group<C, forms::twisted_edwards> type; };
    template<typename C = CO, typename Form = forms::twisted_edwards> using g2_type = typename std::conditional<std::is_same<C, coords::affine>::value, aff_group, twist_group<C, Form>>::type;
#else
    template<typename C = CO, typename Form = forms::short_weierstrass> using g1_type = tc::group<tc::params_f<F, F, S, Form>, Form, C>;
    template<typename C = CO, typename Form = forms::short_weierstrass> using g2_type = tc::group<tc::params_f<F2, F, S, Form>, Form, C>;
#endif
};
namespace nil { namespace crypto3 { namespace algebra { namespace curves {
#if KIND == 1
    struct tiny_bls : curve_base {};
    typedef tiny_bls tiny_curve;
#elif KIND == 2
    template<std::size_t> class mnt4; template<> class mnt4<298> : public curve_base {}; typedef mnt4<298> tiny_curve;
#elif KIND == 3
    template<std::size_t> class mnt6; template<> class mnt6<298> : public curve_base {}; typedef mnt6<298> tiny_curve;
#else
    template<std::size_t> class edwards; template<> class edwards<183> : public curve_base {}; typedef edwards<183> tiny_curve;
#endif
}
namespace pairing { namespace detail {
    template<typename C> class pairing_params;
    template<> class pairing_params<curves::tiny_curve> {
    public:
        typedef F::integral_type integral_type;
        constexpr static const std::size_t integral_type_max_bits = F::modulus_bits;
        static constexpr long long T_ = TR_ - 1;
        constexpr static const integral_type ate_loop_count = integral_type(T_ < 0 ? -T_ : T_);
        constexpr static const bool ate_is_loop_count_neg = KIND != 4 && T_ < 0;
        // last chunk of the final exponent: (q^(k/3..) - ...) / r = w0 + w1 q
        static constexpr long long E_ = KIND == 2 ? ((long long)Q_ * Q_ + 1) / R_ : ((long long)Q_ * Q_ - Q_ + 1) / R_;
        static constexpr long long W1 = (E_ + Q_ / 2) / Q_, W0 = E_ - W1 * Q_;
        constexpr static const integral_type final_exponent_last_chunk_abs_of_w0 = integral_type(W0 < 0 ? -W0 : W0);
        constexpr static const bool final_exponent_last_chunk_is_w0_neg = W0 < 0;
        constexpr static const integral_type final_exponent_last_chunk_w1 = integral_type(W1);
        constexpr static const integral_type final_exponent_z = integral_type(T_ < 0 ? -T_ : T_);
        constexpr static const bool final_exponent_is_z_neg = T_ < 0;
        static inline F2V twist, twist_coeff_a, twist_coeff_b;
    };
}}}}}
#if KIND == 1
#include <nil/crypto3/algebra/pairing/forms/short_weierstrass/jacobian_with_a4_0/ate_double_miller_loop.hpp>
#include <nil/crypto3/algebra/pairing/forms/short_weierstrass/jacobian_with_a4_0/ate_miller_loop.hpp>
#include <nil/crypto3/algebra/pairing/forms/short_weierstrass/jacobian_with_a4_0/ate_precompute_g1.hpp>
#include <nil/crypto3/algebra/pairing/forms/short_weierstrass/jacobian_with_a4_0/ate_precompute_g2.hpp>
#include <nil/crypto3/algebra/pairing/forms/short_weierstrass/jacobian_with_a4_0/final_exponentiation.hpp>
#elif KIND == 2
#include <nil/crypto3/algebra/pairing/mnt4/298/ate_double_miller_loop.hpp>
#include <nil/crypto3/algebra/pairing/mnt4/298/ate_miller_loop.hpp>
#include <nil/crypto3/algebra/pairing/forms/short_weierstrass/projective/ate_precompute_g1.hpp>
#include <nil/crypto3/algebra/pairing/forms/short_weierstrass/projective/ate_precompute_g2.hpp>
#include <nil/crypto3/algebra/pairing/mnt4/298/final_exponentiation.hpp>
#elif KIND == 3
#include <nil/crypto3/algebra/pairing/mnt6/298/ate_double_miller_loop.hpp>
#include <nil/crypto3/algebra/pairing/mnt6/298/ate_miller_loop.hpp>
#include <nil/crypto3/algebra/pairing/forms/short_weierstrass/projective/ate_precompute_g1.hpp>
#include <nil/crypto3/algebra/pairing/forms/short_weierstrass/projective/ate_precompute_g2.hpp>
#include <nil/crypto3/algebra/pairing/mnt6/298/final_exponentiation.hpp>
#else
#include <nil/crypto3/algebra/pairing/edwards/183/ate_double_miller_loop.hpp>
#include <nil/crypto3/algebra/pairing/edwards/183/ate_miller_loop.hpp>
#include <nil/crypto3/algebra/pairing/edwards/183/ate_precompute_g1.hpp>
#include <nil/crypto3/algebra/pairing/edwards/183/ate_precompute_g2.hpp>
#include <nil/crypto3/algebra/pairing/edwards/183/final_exponentiation.hpp>
#endif
#include <nil/crypto3/algebra/pairing/pairing_policy.hpp>
namespace nil { namespace crypto3 { namespace algebra { namespace pairing {
    template<> struct pairing_policy<curves::tiny_curve> {
#if KIND == 1
        using precompute_g1 = short_weierstrass_jacobian_with_a4_0_ate_precompute_g1<curves::tiny_curve>;
        using precompute_g2 = short_weierstrass_jacobian_with_a4_0_ate_precompute_g2<curves::tiny_curve>;
        using miller_loop = short_weierstrass_jacobian_with_a4_0_ate_miller_loop<curves::tiny_curve>;
        using double_miller_loop = short_weierstrass_jacobian_with_a4_0_ate_double_miller_loop<curves::tiny_curve>;
        using final_exponentiation = short_weierstrass_jacobian_with_a4_0_final_exponentiation<curves::tiny_curve>;
#elif KIND == 2 || KIND == 3
        using precompute_g1 = short_weierstrass_projective_ate_precompute_g1<curves::tiny_curve>;
        using precompute_g2 = short_weierstrass_projective_ate_precompute_g2<curves::tiny_curve>;
#if KIND == 2
        using miller_loop = mnt4_ate_miller_loop<298>; using double_miller_loop = mnt4_ate_double_miller_loop<298>; using final_exponentiation = mnt4_final_exponentiation<298>;
#else
        using miller_loop = mnt6_ate_miller_loop<298>; using double_miller_loop = mnt6_ate_double_miller_loop<298>; using final_exponentiation = mnt6_final_exponentiation<298>;
#endif
#else
        using precompute_g1 = edwards_ate_precompute_g1<183>; using precompute_g2 = edwards_ate_precompute_g2<183>;
        using miller_loop = edwards_ate_miller_loop<183>; using double_miller_loop = edwards_ate_double_miller_loop<183>; using final_exponentiation = edwards_final_exponentiation<183>;
#endif
        using g1_precomputed_type = typename precompute_g1::g1_precomputed_type;
        using g2_precomputed_type = typename precompute_g2::g2_precomputed_type;
    };
}}}}
#include <nil/crypto3/algebra/algorithms/pair.hpp>
using namespace nil::crypto3::algebra;
typedef curves::tiny_curve C;
typedef C::g1_type<>::value_type E1;
typedef C::g2_type<>::value_type E2;
typedef pairing::detail::pairing_params<C> PP;
typedef model::Vec<big> V;

// affine model of either form over any tower
struct Grp {
    pm::Fld f; bool ed; V a, b;    // y^2 = x^3 + a x + b, or a x^2 + y^2 = 1 + b x^2 y^2
    pm::Pt add(const pm::Pt &P, const pm::Pt &R) const {
        if (P.inf) return R;
        if (R.inf) return P;
        pm::Pt s; s.inf = false;
        if (ed) {
            V k = f.mul(b, f.mul(f.mul(P.x, R.x), f.mul(P.y, R.y)));
            s.x = f.div(f.add(f.mul(P.x, R.y), f.mul(P.y, R.x)), f.add(f.one(), k));
            s.y = f.div(f.sub(f.mul(P.y, R.y), f.mul(a, f.mul(P.x, R.x))), f.sub(f.one(), k));
            if (f.zero(s.x) && s.y == f.one()) s.inf = true;
            return s;
        }
        pm::Cubic c {f, f.num(0), f.one(), a};
        V l;
        if (!c.slope(P, R, l)) return pm::Pt();
        s.x = f.sub(f.sub(f.mul(l, l), P.x), R.x);
        s.y = f.sub(f.mul(l, f.sub(P.x, s.x)), P.y);
        return s;
    }
    pm::Pt mul(pm::Pt P, big k) const { pm::Pt r; while (k != 0) { if (k % 2 != 0) r = add(r, P); P = add(P, P); k /= 2; } return r; }
    bool on(const pm::Pt &P) const {
        if (P.inf) return true;
        V xx = f.mul(P.x, P.x), yy = f.mul(P.y, P.y);
        if (ed) return f.add(f.mul(a, xx), yy) == f.add(f.one(), f.mul(b, f.mul(xx, yy)));
        return yy == f.add(f.add(f.mul(xx, P.x), f.mul(a, P.x)), b);
    }
    // the other coordinate of the points with the given x: y^2 = rhs
    V rhs(const V &x) const {
        V xx = f.mul(x, x);
        if (ed) return f.div(f.sub(f.one(), f.mul(a, xx)), f.sub(f.one(), f.mul(b, xx)));
        return f.add(f.add(f.mul(xx, x), f.mul(a, x)), b);
    }
};
static bool same(const pm::Pt &a, const pm::Pt &b) { return a.inf == b.inf && (a.inf || (a.x == b.x && a.y == b.y)); }
static V vec_of(u64 i, unsigned d) { V v(d); for (auto &x : v) { x = i % Q_; i /= Q_; } return v; }
static bool tonelli(const pm::Fld &f, const V &a, V &out) {
    big N = 1; for (unsigned i = 0; i < f.dim(); ++i) N *= f.p;
    N -= 1;
    if (f.zero(a)) { out = a; return true; }
    if (f.pow(a, N / 2) != f.one()) return false;
    big t = N; unsigned s = 0; while (t % 2 == 0) { t /= 2; ++s; }
    V z; for (u64 i = Q_ + 1;; ++i) { z = vec_of(i, unsigned(f.dim())); if (f.dim() == 1) z = f.num(i % Q_); if (!f.zero(z) && f.pow(z, N / 2) != f.one()) break; }
    V c = f.pow(z, t), x = f.pow(a, (t + 1) / 2), b = f.pow(a, t); unsigned m = s;
    while (b != f.one()) {
        unsigned i = 0; V k = b; while (k != f.one()) { k = f.mul(k, k); ++i; }
        V g = c; for (unsigned j = 0; j + i + 1 < m; ++j) g = f.mul(g, g);
        x = f.mul(x, g); c = f.mul(g, g); b = f.mul(b, c); m = i;
    }
    out = x; return true;
}
template<typename E, typename FV_> static E mk(const pm::Pt &p, const FV_ &z) {
    if (p.inf) return E::zero();
    FV_ x = conv::from<FV_>(p.x), y = conv::from<FV_>(p.y);
#if KIND == 1
    return E(x * z.squared(), y * z.squared() * z, z);
#elif KIND == 4
    return E(y * z, x * z, x * y * z);
#else
    return E(x * z, y * z, z);
#endif
}

int main(int argc, char **argv) {
    std::string n = mc::str(NAME, "_", Q_);
    mc::init(argc, argv, n.c_str());
    mc::hang_limit_s = 300;
    const big q(Q_), r(R_), t(TR_);
    pm::Fld f1(conv::tower<big, FV>::get()), f2(conv::tower<big, F2V>::get()), gt(conv::tower<big, T>::get());
    const u64 order = Q_ + 1 - (TR_), cof = order / R_;
    // --- coefficients: the first ones whose curve has the right number of points -------------------------------------
    Grp g1 {f1, KIND == 4, {}, {}};
    std::vector<pm::Pt> pts;
    std::vector<std::vector<u64>> roots(Q_); for (u64 y = 0; y < Q_; ++y) roots[y * y % Q_].push_back(y);
    auto collect = [&]() {
        pts.clear(); if (!g1.ed) pts.push_back(pm::Pt());
        for (u64 x = 0; x < Q_; ++x) {
            V X = f1.num(x);
            if (g1.ed && f1.zero(f1.sub(f1.one(), f1.mul(g1.b, f1.mul(X, X))))) return false;    // d must be a non-residue: complete law
            u64 v = g1.rhs(X)[0].convert_to<u64>();
            for (u64 y : roots[v]) { pm::Pt p; p.inf = g1.ed && x == 0 && y == 1; p.x = X; p.y = f1.num(y); pts.push_back(p); }
        }
        return pts.size() == order;
    };
    bool found = false;
    for (u64 a = (KIND == 1 || KIND == 4) ? 0 : 1; a < (KIND == 1 || KIND == 4 ? 1 : Q_) && !found; ++a) for (u64 b = 2; b < Q_ && !found; ++b) {
        if (KIND == 4) { if (tiny::powm(b, (Q_ - 1) / 2, Q_) == 1) continue; }
        else if ((4 * a * a % Q_ * a + 27 * b % Q_ * b) % Q_ == 0) continue;
        g1.a = f1.num(KIND == 4 ? 1 : a); g1.b = f1.num(b);
        found = collect();
    }
    if (!found) { std::fprintf(stderr, "no curve\n"); return 3; }
    // --- twist --------------------------------------------------------------------------------------------------------
    V u(DG, big(0)); u[1] = 1;
    V xi = u;
#if KIND == 1
    xi[0] = X0_; xi[1] = X1_;
#endif
    Grp g2 {f2, KIND == 4, {}, {}};
    auto lift = [&](const V &c) { return f2.embed(c); };
    big n2;
    {
        big t2 = t * t - 2 * q, t3 = t * t * t - 3 * q * t;
        if (KIND == 1) {
            big ff = (4 * q * q - t2 * t2) / 3, f = sqrt(ff);
            n2 = q * q + 1 - (3 * f + t2) / 2; if (n2 % r != 0) n2 = q * q + 1 - (-3 * f + t2) / 2;
            g2.a = lift(g1.a); g2.b = f2.mul(lift(g1.b), xi);
        } else if (KIND == 4) { n2 = q * q * q + 1 + t3; g2.a = u; g2.b = f2.mul(lift(g1.b), u); }
        else {
            n2 = KIND == 2 ? big(q * q + 1 + t2) : big(q * q * q + 1 + t3);
            g2.a = f2.mul(lift(g1.a), f2.mul(u, u)); g2.b = f2.mul(lift(g1.b), f2.mul(u, f2.mul(u, u)));
        }
    }
    if (n2 % r != 0) { std::fprintf(stderr, "twist order\n"); return 3; }
    pm::Pt H;
    for (u64 i = Q_ + 2;; ++i) {
        pm::Pt p; p.inf = false; p.x = vec_of(i, DG);
        if (!tonelli(f2, g2.rhs(p.x), p.y)) continue;
        if (!g2.on(p)) { std::fprintf(stderr, "not on the twist\n"); return 3; }
        if (!g2.mul(p, n2).inf) { std::fprintf(stderr, "wrong twist\n"); return 3; }
        big c = n2; while (c % r == 0) c /= r;
        H = g2.mul(p, c);
        if (!H.inf) break;
    }
    if (!g2.mul(H, r).inf) { std::fprintf(stderr, "order of the twist point\n"); return 3; }
    // --- implementation parameters -------------------------------------------------------------------------------------
#if KIND == 4
    typedef tc::params_f<F, F, S, forms::twisted_edwards> P1;
    P1::a = conv::from<FV>(g1.a); P1::d = conv::from<FV>(g1.b); twist_params::a = conv::from<F2V>(g2.a); twist_params::d = conv::from<F2V>(g2.b);
    P1::zero_fill = {FV::zero(), FV::one()}; twist_params::zero_fill = {F2V::zero(), F2V::one()};
#else
    typedef tc::params_f<F, F, S, forms::short_weierstrass> P1; typedef G2_PARAMS P2;
    P1::a = conv::from<FV>(g1.a); P1::b = conv::from<FV>(g1.b); P2::a = conv::from<F2V>(g2.a); P2::b = conv::from<F2V>(g2.b);
    P1::zero_fill = {FV::zero(), FV::zero()}; P2::zero_fill = {F2V::zero(), F2V::zero()};
    PP::twist_coeff_a = P2::a; PP::twist_coeff_b = P2::b;
#endif
    PP::twist = conv::from<F2V>(xi);
    // --- logarithms ----------------------------------------------------------------------------------------------------
    pm::Pt G; for (auto &p : pts) { pm::Pt c = g1.mul(p, cof); if (!c.inf) { G = c; break; } }
    std::vector<pm::Pt> mG(1), mH(1);
    for (u64 i = 1; i < R_; ++i) { mG.push_back(g1.add(mG.back(), G)); mH.push_back(g2.add(mH.back(), H)); }
    const u64 icof = tiny::powm(cof % R_, R_ - 2, R_);
    std::map<std::pair<u64, u64>, u64> dlog;
    for (u64 i = 1; i < R_; ++i) dlog[{mG[i].x[0].convert_to<u64>(), mG[i].y[0].convert_to<u64>()}] = i;
    auto log1 = [&](const pm::Pt &p) -> u64 { pm::Pt c = g1.mul(p, cof); if (c.inf) return 0; return dlog.at({c.x[0].convert_to<u64>(), c.y[0].convert_to<u64>()}) * icof % R_; };
    big full = 1; for (unsigned i = 0; i < K; ++i) full *= q;
    const big ex = (full - 1) / r * (KIND == 1 ? 3 : 1);
    // --- reference value of e(G, H) from the textbook algorithm --------------------------------------------------------
    V e = gt.pow(pm::ate(gt, pm::Twist(KIND), G.x, G.y, H.x, H.y, KIND == 4 ? g1.b : g1.a, KIND == 4 ? big(abs(t - 1)) : big(t - 1)), ex);
    if (e == gt.one() || gt.pow(e, r) != gt.one()) { std::fprintf(stderr, "model pairing degenerate\n"); return 3; }
    std::vector<T> pw(R_); { V x = gt.one(); for (u64 i = 0; i < R_; ++i) { pw[i] = conv::from<T>(x); x = gt.mul(x, e); } }
    // points the implementation's coordinates cannot express: the inverted system has no points with a zero coordinate
    auto usable = [&](const pm::Pt &p) { return p.inf || KIND != 4 || (!f1.zero(p.x) && !f1.zero(p.y)); };
    mc::sample(mc::str(n, ": order ", order, " = ", cof, " * ", R_, ", coefficients ", show(g1.a), " ", show(g1.b), ", G=", show(G.x), show(G.y), " H=", show(H.x), show(H.y)));
    std::vector<u64> qs;    // multiples of H explored
    for (u64 i = 0; i < R_; ++i) if (R_ <= (K < 12 ? 700 : 300) || mc::thorough || i < 6 || i + 3 > R_ || i % 97 == 0) qs.push_back(i);
    std::vector<std::size_t> ps;    // sparse set of left arguments, used with every Q
    for (std::size_t i = 0; i < pts.size(); ++i) if (usable(pts[i]) && (i < 4 || i % (pts.size() / 6 + 1) == 1)) ps.push_back(i);
    const FV z1 = FV::one(); const F2V z2 = F2V::one();
    auto chk = [&](const E1 &P, const E2 &Q, u64 want, const std::string &at) {
        mc::state(); mc::trace(); mc::step("pair_reduced"); mc::cur_args = at;
        T v = pair_reduced<C>(P, Q);
        MC_CHECK(v == pw[want], n + ":value", at, ": pair_reduced gives ", show(conv::to<big>(v)), ", expected ", show(conv::to<big>(pw[want])));
    };
    {
        mc::ScopedSpace sp(n + ": every point of the curve with the multiples of H");
        for (std::size_t i = 0; i < pts.size(); ++i) {
            if (!usable(pts[i]) || !mc::mine()) continue;
            u64 a = log1(pts[i]); E1 P = mk<E1>(pts[i], z1);
            for (u64 b : qs) chk(P, mk<E2>(mH[b], z2), a * b % R_, mc::str(n, " P=", pts[i].inf ? "O" : show(pts[i].x) + show(pts[i].y), " Q=", b, "H"));
        }
    }
    {
        mc::ScopedSpace sp(n + ": every multiple of H with some points");
        for (u64 b = 0; b < R_; ++b) {
            if (!mc::mine()) continue;
            E2 Q = mk<E2>(mH[b], z2);
            for (std::size_t i : ps) chk(mk<E1>(pts[i], z1), Q, log1(pts[i]) * b % R_, mc::str(n, " P=", pts[i].inf ? "O" : show(pts[i].x) + show(pts[i].y), " Q=", b, "H"));
        }
    }
    {
        mc::ScopedSpace sp(n + ": representations");
        for (std::size_t i : ps) {
            if (pts[i].inf) continue;
            u64 a = log1(pts[i]);
            auto want1 = precompute_g1<C>(mk<E1>(pts[i], z1));
            for (u64 z = 1; z < Q_; z += (Q_ > 1000 && !mc::thorough ? 61 : 1)) {
                if (!mc::mine()) continue;
                E1 P = mk<E1>(pts[i], FV(z));
                chk(P, mk<E2>(mH[2], z2), a * 2 % R_, mc::str(n, " P=", show(pts[i].x), show(pts[i].y), " scaled by ", z, " Q=2H"));
                mc::step("precompute_g1"); MC_CHECK(precompute_g1<C>(P) == want1, n + ":precompute_g1", n, " P=", show(pts[i].x), show(pts[i].y), " scaled by ", z, ": precomputation depends on the representation");
            }
        }
        for (u64 b : {u64(1), u64(2), u64(R_ - 1)}) {
            auto want2 = precompute_g2<C>(mk<E2>(mH[b], z2));
            u64 lim = 1; for (unsigned i = 0; i < DG; ++i) lim *= Q_;
            for (u64 z = 1; z < lim; z += (lim > 3000 ? lim / 700 * 2 + 1 : 1)) {
                if (!mc::mine()) continue;
                mc::state(); mc::trace(); mc::step("precompute_g2");
                MC_CHECK(precompute_g2<C>(mk<E2>(mH[b], conv::from<F2V>(vec_of(z, DG)))) == want2, n + ":precompute_g2", n, " Q=", b, "H scaled by ", show(vec_of(z, DG)), ": precomputation depends on the representation");
            }
        }
    }
    {
        mc::ScopedSpace sp(n + ": double Miller loop");
        std::vector<u64> bs {0, 1, 2, 5 % R_, u64(R_ - 1)};
        for (std::size_t i : ps) for (std::size_t j : ps) for (u64 b : bs) for (u64 c : bs) {
            if (!mc::mine()) continue;
            mc::state(); mc::trace(); mc::step("double_miller_loop");
            auto p1 = precompute_g1<C>(mk<E1>(pts[i], z1)), p2 = precompute_g1<C>(mk<E1>(pts[j], z1));
            auto q1 = precompute_g2<C>(mk<E2>(mH[b], z2)), q2 = precompute_g2<C>(mk<E2>(mH[c], z2));
            T v = final_exponentiation<C>(double_miller_loop<C>(p1, q1, p2, q2));
            MC_CHECK(v == pw[(log1(pts[i]) * b + log1(pts[j]) * c) % R_], n + ":double_miller_loop", n, " logs ", log1(pts[i]), " ", b, " ", log1(pts[j]), " ", c);
            mc::step("double_miller_loop, shared arguments");
            T vp = final_exponentiation<C>(double_miller_loop<C>(p1, q1, p1, q2)), vq = final_exponentiation<C>(double_miller_loop<C>(p1, q1, p2, q1)), vb = final_exponentiation<C>(double_miller_loop<C>(p1, q1, p1, q1));
            MC_CHECK(vp == pw[log1(pts[i]) * (b + c) % R_] && vq == pw[(log1(pts[i]) + log1(pts[j])) * b % R_] && vb == pw[2 * log1(pts[i]) * b % R_], n + ":double_miller_loop-shared", n, " logs ", log1(pts[i]), " ", b, " ", log1(pts[j]), " ", c, ": the same objects on both sides");
            MC_CHECK(miller_loop<C>(p1, q1) == pair<C>(mk<E1>(pts[i], z1), mk<E2>(mH[b], z2)), n + ":pair", n, " pair differs from precompute and miller_loop");
        }
    }
    {
        mc::ScopedSpace sp(n + ": final exponentiation");
        auto one = [&](const V &x) {
            if (gt.zero(x) || !mc::mine()) return;
            mc::state(); mc::trace(); mc::step("final_exponentiation"); mc::cur_args = show(x);
            T y = final_exponentiation<C>(conv::from<T>(x));
            MC_CHECK(conv::to<big>(y) == gt.pow(x, ex), n + ":final_exponent", n, " x=", show(x), ": not the power");
        };
        if (K == 4 && Q_ < 20) { for (u64 i = 1; i < u64(Q_) * Q_ * Q_ * Q_; ++i) one(vec_of(i, 4)); }
        else sparse_vectors<big>(K, mc::thorough || K < 12 ? 3 : 2, {1, q - 1, big(2 + Q_ / 3)}, one);
    }
    return mc::finish();
}
