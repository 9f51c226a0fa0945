// C21: scalar multiplication. Every point of tiny curves (Z = 1 and Z != 1) times every scalar up to beyond twice the
// group order, through every multiplication interface; model: repeated addition in the affine group.
#include <nil/crypto3/algebra/curves/detail/forms/short_weierstrass/coordinates.hpp>
#include <nil/crypto3/algebra/curves/detail/forms/twisted_edwards/coordinates.hpp>
#include <nil/crypto3/algebra/curves/detail/forms/short_weierstrass/element_g1_affine.hpp>
#include <nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian/element_g1.hpp>
#include <nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian_with_a4_0/element_g1.hpp>
#include <nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian_with_a4_minus_3/element_g1.hpp>
#include <nil/crypto3/algebra/curves/detail/forms/short_weierstrass/projective/element_g1.hpp>
#include <nil/crypto3/algebra/curves/detail/forms/short_weierstrass/projective_with_a4_minus_3/element_g1.hpp>
#include <nil/crypto3/algebra/curves/detail/forms/twisted_edwards/element_g1_affine.hpp>
#include <nil/crypto3/algebra/curves/detail/forms/twisted_edwards/extended_with_a_minus_1/element_g1.hpp>
#include <nil/crypto3/algebra/curves/detail/forms/twisted_edwards/inverted/element_g1.hpp>
#include <nil/crypto3/algebra/curves/detail/forms/montgomery/element_g1_affine.hpp>
#include <nil/crypto3/algebra/curves/detail/scalar_mul.hpp>
#include <nil/crypto3/algebra/curves/detail/subgroup_check.hpp>
#include <nil/crypto3/algebra/fields/bls12/scalar_field.hpp>
#include "tinycurve.hpp"
// a tiny field that reports a wide integral type: a std::size_t factor is converted to that type
struct wide_tf : tiny::tf<13, 2, 0, 1> { typedef nil::crypto3::algebra::fields::bls12_scalar_field<381>::integral_type integral_type; };
typedef forms::FORM Fm;
typedef coords::COORD C;
#define NAME BOOST_PP_STRINGIZE(FORM) " " BOOST_PP_STRINGIZE(COORD)
template<typename A, typename B> constexpr bool is = std::is_same<A, B>::value;
constexpr bool sw = is<Fm, forms::short_weierstrass>, te = is<Fm, forms::twisted_edwards>, mo = is<Fm, forms::montgomery>;
constexpr bool aff = is<C, coords::affine>, inv = is<C, coords::inverted>, ext = is<C, coords::extended_with_a_minus_1>;
constexpr bool proj = is<C, coords::projective> || is<C, coords::projective_with_a4_minus_3>;

template<typename F, typename S>
struct Chk {
    typedef tc::elem<F, Fm, C, F, S> E;
    typedef tc::params_f<F, F, S, Fm> Pm;
    typedef tc::curve_of<F, F, S> Curve;
    typedef typename S::value_type SV;
    typedef typename S::integral_type SI;
    tc::Model<F> m;
    const tc::Tab<F> &t = tc::Tab<F>::get();
    std::string nm;
    static auto fv(u32 i) { return tc::Tab<F>::get().el[i]; }
    int decode(const E &e) const {
        u32 x = t.of(e.X), y = t.of(e.Y);
        if constexpr (mo) return e.is_zero() ? 0 : m.find(x, y);
        else if constexpr (aff) return x == 0 && y == 0 ? 0 : m.find(x, y);
        else {
            u32 z = t.of(e.Z), i = t.inv(z);
            if constexpr (inv) return y == 0 && z == 0 ? 0 : x && y && z ? m.find(t.div(z, x), t.div(z, y)) : -1;
            else if constexpr (te) return z ? m.find(t.mul(x, i), t.mul(y, i)) : -1;
            else if (z == 0) return !proj || x == 0 ? 0 : -1;
            else if constexpr (proj) return m.find(t.mul(x, i), t.mul(y, i));
            else return m.find(t.mul(x, t.sq(i)), t.mul(y, t.mul(i, t.sq(i))));
        }
    }
    E make(int i, u32 z) const {
        u32 x = m.pts[i].x, y = m.pts[i].y;
        if constexpr (mo) return i ? E(fv(x), fv(y)) : E();
        else if constexpr (sw && aff) return i ? E(fv(x), fv(y)) : E();
        else if constexpr (aff) return E(fv(x), fv(y));
        else if constexpr (inv) return i ? E(fv(t.div(z, x)), fv(t.div(z, y)), fv(z)) : E(fv(z), fv(0), fv(0));
        else if constexpr (ext) return E(fv(t.mul(x, z)), fv(t.mul(y, z)), fv(t.mul(t.mul(x, y), z)), fv(z));
        else if (i == 0) return E(fv(0), fv(z), fv(0));
        else if constexpr (proj) return E(fv(t.mul(x, z)), fv(t.mul(y, z)), fv(z));
        else return E(fv(t.mul(x, t.sq(z))), fv(t.mul(y, t.mul(z, t.sq(z)))), fv(z));
    }
    void eq(const char *op, const E &got, int want, int p, u32 z, unsigned long long k) const {
        int g = decode(got);
        if (g != want) mc::violation(std::string("mul:") + op, mc::str(nm, " ", op, " ", k, " * ", m.show(p), " (z=", z, ") = ", m.show(g), " want ", m.show(want)));
    }
    int order(int i) const { int k = 1, p = i; while (p > 0) { p = m.add(p, i); ++k; } return p == 0 ? k : -1; }
    void run(unsigned long long kmax) {
        mc::cur_args = nm;
        std::vector<u32> zs = {1};
        if (!aff) zs = {1, 2, t.q - 1};
        for (int i = 0; i < m.n(); ++i) {
            int ord = order(i);
            if (ord < 0 || (inv && (ord % 2 == 0))) continue;
            for (u32 z : zs) {
                if (inv && i && (m.pts[i].x == 0 || m.pts[i].y == 0)) continue;
                const E P = make(i, z);
                mc::state();
                for (unsigned long long k = 0; k <= kmax; ++k) {
                    int want = m.mul(i, k);
                    mc::trace();
                    mc::step("*number"); eq("point*number", P * SI(k), want, i, z, k);
                    mc::step("number*"); eq("number*point", SI(k) * P, want, i, z, k);
                    mc::step("*cpp_int"); eq("point*cpp_int", P * big(k), want, i, z, k);
                    mc::step("scalar_mul"); eq("scalar_mul", curves::detail::scalar_mul(P, big(k)), want, i, z, k);
                    // the std::size_t factor is converted to the integral type of the base field, which is tiny here
                    if (k >> F::value_bits == 0) {
                        mc::step("*size_t"); eq("point*size_t", P * std::size_t(k), want, i, z, k);
                        mc::step("size_t*"); eq("size_t*point", std::size_t(k) * P, want, i, z, k);
                    }
                    if (k < S::p) {
                        const SV s(k);
                        mc::step("*field"); eq("point*scalar", P * s, want, i, z, k);
                        mc::step("field*"); eq("scalar*point", s * P, want, i, z, k);
                        mc::step("*modular"); eq("point*modular", P * s.data, want, i, z, k);
                        mc::step("*="); { E q = P; E &r = (q *= s); eq("point*=scalar", q, want, i, z, k); MC_CHECK(&r == &q, "mul:*=-ref", nm); }
                    }
                    MC_CHECK(decode(P) == i, "mul:operand", nm, " operand changed");
                }
                {
                    mc::step("subgroup_check");
                    MC_CHECK(curves::detail::subgroup_check(P) == (m.mul(i, (unsigned long long)(Curve::q)) == 0), "mul:subgroup_check", nm, " ", m.show(i));
                }
            }
            if (i == 0) continue;
            // construction and assignment from an integer: that multiple of the generator
            if constexpr (std::is_constructible<E, const SI &>::value) {
                if (inv && (m.pts[i].x == 0 || m.pts[i].y == 0)) continue;
                Pm::one_fill = {fv(m.pts[i].x), fv(m.pts[i].y)};
                for (unsigned long long k = 0; k <= kmax; ++k) {
                    mc::trace();
                    mc::step("construct"); eq("construct(number)", E(SI(k)), m.mul(i, k), i, 1, k);
                    mc::step("assign"); { E e; e = SI(k); eq("assign(number)", e, m.mul(i, k), i, 1, k); }
                }
            }
        }
    }
    // scalars of up to 1024 bits around every power of two: a few points of both kinds, orders found by repeated addition
    void wide() {
        mc::cur_args = nm;
        std::vector<unsigned> js;
        for (unsigned j = 1; j <= 66; ++j) js.push_back(j);
        for (unsigned b : {127u, 128u, 192u, 253u, 254u, 255u, 256u, 511u, 512u, 1024u}) js.push_back(b);
        for (int i = 0, left = 4; i < m.n() && left; ++i) {
            const int ord = order(i);
            if (ord < 3 || (inv && (ord % 2 == 0 || m.pts[i].x == 0 || m.pts[i].y == 0))) continue;
            --left;
            for (u32 z : {1u, 2u}) {
                if (aff && z > 1) continue;
                const E P = make(i, z);
                mc::state();
                for (unsigned j : js) for (int d = -1; d <= 1; ++d) {
                    const big k = (big(1) << j) + d;
                    const int want = m.mul(i, (unsigned long long)(big(k % ord)));
                    mc::trace();
                    const std::string ks = mc::str("2^", j, d < 0 ? "-1" : d ? "+1" : "");
                    auto eqk = [&](const char *op, const E &got) {
                        int g = decode(got);
                        if (g != want) mc::violation(std::string("widemul:") + op, mc::str(nm, " ", op, " ", ks, " * ", m.show(i), " (z=", z, ") = ", m.show(g), " want ", m.show(want)));
                    };
                    mc::step("*cpp_int"); eqk("point*cpp_int", P * k);
                    mc::step("cpp_int*"); eqk("cpp_int*point", k * P);
                    mc::step("scalar_mul"); eqk("scalar_mul", curves::detail::scalar_mul(P, k));
                    if (k >> 64 == 0) {
                        const std::size_t n = std::size_t(k);
                        mc::step("*size_t"); eqk("point*size_t", P * n);
                        mc::step("size_t*"); eqk("size_t*point", n * P);
                    }
                    if (k < big(S::modulus)) {
                        mc::step("*number"); eqk("point*number", P * SI(k));
                        mc::step("number*"); eqk("number*point", SI(k) * P);
                        const SV s {SI(k)};
                        mc::step("*field"); eqk("point*scalar", P * s);
                        mc::step("field*"); eqk("scalar*point", s * P);
                        mc::step("*modular"); eqk("point*modular", P * s.data);
                        mc::step("*="); { E q = P; q *= s; eqk("point*=scalar", q); }
                        if constexpr (std::is_constructible<E, const SI &>::value) {
                            Pm::one_fill = {fv(m.pts[i].x), fv(m.pts[i].y)};
                            mc::step("construct"); eqk("construct(number)", E(SI(k)));
                            mc::step("assign"); { E e; e = SI(k); eqk("assign(number)", e); }
                        }
                        Curve::q = SI(k);
                        mc::step("subgroup_check"); MC_CHECK(curves::detail::subgroup_check(P) == (want == 0), "widemul:subgroup_check", nm, " ", ks, " ", m.show(i));
                        if (k * ord < big(S::modulus)) {
                            Curve::q = SI(big(k * ord));
                            MC_CHECK(curves::detail::subgroup_check(P), "widemul:subgroup_check", nm, " ", ks, " times the order ", ord, " ", m.show(i));
                        }
                    }
                    MC_CHECK(decode(P) == i, "mul:operand", nm, " operand changed");
                }
            }
        }
    }
    // (u, v): the two free coefficients of the form
    template<bool Wide = false>
    void all(u32 step) {
        u32 k = 0;
        for (u32 u = 0; u < t.q; ++u) for (u32 v = 0; v < t.q; ++v) {
            if (is<C, coords::jacobian_with_a4_0> && u) continue;
            if ((is<C, coords::jacobian_with_a4_minus_3> || is<C, coords::projective_with_a4_minus_3>) && u != t.num(-3)) continue;
            if (ext && u != t.num(-1)) continue;
            if (k++ % step || !mc::mine()) continue;
            if constexpr (sw) { if ((aff && v == 0) || !m.weierstrass(u, v)) continue; Pm::a = fv(u); Pm::b = fv(v); }
            else if constexpr (te) { if (!m.edwards(u, v)) continue; Pm::a = fv(u); Pm::d = fv(v); }
            else { if (!m.montgomery(u, v)) continue; Pm::A = fv(u); Pm::B = fv(v); }
            Pm::zero_fill = {fv(0), fv(0)};
            nm = mc::str(NAME, " q=", t.q, " coefficients ", show(t.vec(u)), " ", show(t.vec(v)));
            if constexpr (Wide) {
                mc::ScopedSpace sp(mc::str("q=", t.q, ": points times scalars around every power of two up to 2^66 and around chosen ones up to 2^1024"));
                mc::sample(mc::str(nm, ": 2^j - 1, 2^j, 2^j + 1"));
                wide();
            } else {
            mc::ScopedSpace sp(mc::str("q=", t.q, ": every point times every scalar"));
            int top = 1;
            for (int i = 0; i < m.n(); ++i) if (order(i) > top) top = order(i);
            Curve::q = SI(top % 2 == 0 ? top / 2 : top);
            mc::sample(mc::str(nm, ": ", m.n(), " points, scalars 0..", 2 * m.n() + 5));
            run(2 * m.n() + 5);
            }
        }
    }
};
int main(int argc, char **argv) {
    mc::init(argc, argv, "scalar multiplication " NAME);
    bool T = mc::thorough;
    // thorough explores larger fields as well
    bool special = ext || is<C, coords::jacobian_with_a4_0> || is<C, coords::jacobian_with_a4_minus_3> || is<C, coords::projective_with_a4_minus_3>;
    { Chk<tiny::tf<5, 2>, tiny::tf<31, 3, 4, 1>> c; c.all(1); }
    { Chk<tiny::tf<7, -1, 2, 1>, tiny::tf<31, 3, 4, 1>> c; c.all(1); }
    { Chk<tiny::tf<13, 2, 0, 1>, tiny::tf<43, -1, 2, 1>> c; c.all(1); }
    { Chk<tiny::tf<31, 3, 4, 1>, tiny::tf<103, -1, 2, 1>> c; c.all(special ? 1 : T ? 5 : 30); }
    { Chk<tiny::tf<61>, tiny::tf<251>> c; c.all(special ? (T ? 2 : 15) : T ? 60 : 600); }
    { Chk<wide_tf, nil::crypto3::algebra::fields::bls12_scalar_field<381>> c; c.all<true>(special ? 1 : T ? 3 : 30); }
    return mc::finish();
}
