// C17 / C18: short Weierstrass points in every coordinate system. Every curve over tiny fields, every point in every
// representation (all Z), every pair; the model is the chord-and-tangent group on the affine point set.
#include <nil/crypto3/algebra/curves/detail/forms/short_weierstrass/coordinates.hpp>
#include <nil/crypto3/algebra/curves/detail/forms/short_weierstrass/element_g1_affine.hpp>
#include <nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian/element_g1.hpp>
#include <nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian_with_a4_0/element_g1.hpp>
#include <nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian_with_a4_minus_3/element_g1.hpp>
#include <nil/crypto3/algebra/curves/detail/forms/short_weierstrass/projective/element_g1.hpp>
#include <nil/crypto3/algebra/curves/detail/forms/short_weierstrass/projective_with_a4_minus_3/element_g1.hpp>
#include "tinycurve.hpp"
#ifndef COORD
#define COORD jacobian
#endif
typedef coords::COORD C;
typedef forms::short_weierstrass SW;
template<typename X> constexpr bool is_aff = std::is_same<X, coords::affine>::value;
template<typename X> constexpr bool is_proj = std::is_same<X, coords::projective>::value || std::is_same<X, coords::projective_with_a4_minus_3>::value;
template<typename X> constexpr bool is_jac = !is_aff<X> && !is_proj<X>;
template<typename X> constexpr bool needs_a0 = std::is_same<X, coords::jacobian_with_a4_0>::value;
template<typename X> constexpr bool needs_am3 = std::is_same<X, coords::jacobian_with_a4_minus_3>::value || std::is_same<X, coords::projective_with_a4_minus_3>::value;

template<typename T, typename = void> struct has_sub_assign : std::false_type { };
template<typename T> struct has_sub_assign<T, decltype(void(std::declval<T &>() -= std::declval<const T &>()))> : std::true_type { };
template<typename T, typename = void> struct has_wf : std::false_type { };
template<typename T> struct has_wf<T, decltype(void(std::declval<const T &>().is_well_formed()))> : std::true_type { };
template<typename T, typename = void> struct has_to_projective : std::false_type { };
template<typename T> struct has_to_projective<T, decltype(void(std::declval<const T &>().to_projective()))> : std::true_type { };

template<typename F>
struct Chk {
    typedef tc::elem<F, SW, C> E;
    typedef tc::params_f<F, F, F, SW> Pm;
    typedef typename F::value_type V;
    tc::Model<F> m;
    const tc::Tab<F> &t = tc::Tab<F>::get();
    std::string nm;
    u32 ca = 0, cb = 0;
    struct Rep { int pt; E e; };
    std::vector<Rep> reps;

    static V fv(u32 i) { return tc::Tab<F>::get().el[i]; }
    template<typename X> static u32 zof(const X &e) { if constexpr (is_aff<C>) { (void)e; return 1; } else return tc::Tab<F>::get().of(e.Z); }
    // value of an element under the documented meaning of its coordinate system; -1: not a point of the curve
    template<typename X> int decode(const X &e) const {
        typedef typename X::coordinates XC;
        if constexpr (is_aff<XC>) {
            u32 x = t.of(e.X), y = t.of(e.Y);
            if (x == t.of(Pm::zero_fill[0]) && y == t.of(Pm::zero_fill[1])) return 0;
            return m.find(x, y);
        } else {
            u32 x = t.of(e.X), y = t.of(e.Y), z = t.of(e.Z);
            if (z == 0) return is_jac<XC> || x == 0 ? 0 : -1;
            u32 i = t.inv(z);
            if constexpr (is_jac<XC>) return m.find(t.mul(x, t.sq(i)), t.mul(y, t.mul(i, t.sq(i))));
            else return m.find(t.mul(x, i), t.mul(y, i));
        }
    }
    static std::string raw(const E &e) {
        auto &t = tc::Tab<F>::get();
        std::string s = mc::str("(", show(t.vec(t.of(e.X))), ":", show(t.vec(t.of(e.Y))));
        if constexpr (!is_aff<C>) s += mc::str(":", show(t.vec(t.of(e.Z))));
        return s + ")";
    }
    void eq(const char *op, const E &got, int want, const E &a, const E &b) const {
        int g = decode(got);
        if (g != want) mc::violation(std::string("sw:") + op, mc::str(nm, " ", op, " P=", raw(a), " Q=", raw(b), " got ", raw(got), " = ", m.show(g), " want ", m.show(want)));
    }
    void same(const char *op, const E &now, const E &before) const {
        bool ok = now.X == before.X && now.Y == before.Y;
        if constexpr (!is_aff<C>) ok = ok && now.Z == before.Z;
        if (!ok) mc::violation(std::string("sw:operand-") + op, mc::str(nm, " ", op, " changed its operand ", raw(before), " to ", raw(now)));
    }
    // z_step: keep one representation in z_step for large fields; inf_all: every (X, Y, 0)
    void build(u32 z_step, bool inf_all) {
        reps.clear();
        std::vector<u32> zs;
        for (u32 z = 1; z < t.q; z += z == 1 ? 1 : z_step) zs.push_back(z);
        if constexpr (is_aff<C>) reps.push_back({0, E(Pm::zero_fill[0], Pm::zero_fill[1])});
        else {
            std::vector<u32> c;
            if (inf_all) for (u32 i = 0; i < t.q; ++i) c.push_back(i); else { c = {0, 1, 2 % t.q, t.q - 1}; }
            for (u32 x : c) { if (is_proj<C> && x != 0) continue; for (u32 y : c) reps.push_back({0, E(fv(x), fv(y), fv(0))}); }
        }
        for (int i = 1; i < m.n(); ++i) {
            u32 x = m.pts[i].x, y = m.pts[i].y;
            if constexpr (is_aff<C>) reps.push_back({i, E(fv(x), fv(y))});
            else for (u32 z : zs) reps.push_back({i, is_jac<C> ? E(fv(t.mul(x, t.sq(z))), fv(t.mul(y, t.mul(z, t.sq(z)))), fv(z)) : E(fv(t.mul(x, z)), fv(t.mul(y, z)), fv(z))});
        }
    }
    void law_pair(const Rep &P, const Rep &Q) const {
        mc::state(); mc::trace();
        const E &x = P.e, &y = Q.e;
        int s = m.add(P.pt, Q.pt), d = m.add(P.pt, m.neg(Q.pt));
        mc::step("+"); { E a = x, b = y; eq("add", a + b, s, x, y); same("+", a, x); same("+", b, y); }
        { mc::step("+="); E a = x, b = y; E &r = (a += b); eq("add-assign", a, s, x, y); same("+=", b, y); MC_CHECK(&r == &a, "sw:add-assign-ref", nm); }
        mc::step("-"); { E a = x, b = y; eq("sub", a - b, d, x, y); same("-", a, x); same("-", b, y); }
        if constexpr (has_sub_assign<E>::value) { mc::step("-="); E a = x, b = y; E &r = (a -= b); eq("sub-assign", a, d, x, y); same("-=", b, y); MC_CHECK(&r == &a, "sw:sub-assign-ref", nm); }
        if constexpr (!is_aff<C>) if (zof(y) <= 1) { mc::step("mixed_add"); E a = x, b = y; a.mixed_add(b); eq("mixed_add", a, s, x, y); same("mixed_add", b, y); }
    }
    void law_unary(const Rep &P) const {
        mc::state(); mc::trace();
        const E &x = P.e;
        int dbl = m.add(P.pt, P.pt);
        eq("construct", x, P.pt, x, x);
        mc::step("neg"); { E a = x; eq("neg", -a, m.neg(P.pt), x, x); same("neg", a, x); }
        mc::step("double"); { E a = x; a.double_inplace(); eq("double", a, dbl, x, x); }
        mc::step("alias+="); { E a = x; a += a; eq("alias-add-assign", a, dbl, x, x); }
        mc::step("alias+"); { E a = x; a = a + a; eq("alias-add", a, dbl, x, x); }
        if constexpr (has_sub_assign<E>::value) { mc::step("alias-="); E a = x; a -= a; eq("alias-sub-assign", a, 0, x, x); }
        mc::step("alias-"); { E a = x; a = a - a; eq("alias-sub", a, 0, x, x); }
        if constexpr (!is_aff<C>) if (zof(x) <= 1) { mc::step("alias-mixed"); E a = x; a.mixed_add(a); eq("alias-mixed_add", a, dbl, x, x); }
        mc::step("chain"); { E a = x; for (int k = 0; k < 3; ++k) { a.double_inplace(); a += x; } eq("chain 15P", a, m.mul(P.pt, 15), x, x); }
    }
    template<typename R> void conv_eq(const char *op, const R &r, int want, const E &x) const {
        if (is_aff<typename R::coordinates> && marked && want != 0 && decode(r) == 0) return;
        int g = decode(r);
        MC_CHECK(g == want, std::string("sw:") + op, nm, " ", op, " of ", raw(x), " = ", m.show(want), " gives ", m.show(g));
        MC_CHECK(r.is_zero() == (want == 0), std::string("sw:zero-") + op, nm, " ", raw(x));
    }
    void view_unary(const Rep &P) const {
        mc::state(); mc::trace();
        const E &x = P.e;
        mc::step("is_zero"); MC_CHECK(x.is_zero() == (P.pt == 0), "sw:is_zero", nm, " ", raw(x));
        { mc::step("copy"); E a(x); same("copy", a, x); E b; b = x; same("assign", b, x); b = b; same("self-assign", b, x); }
        if constexpr (!is_aff<C>) {
            mc::step("to_affine");
            auto r = x.to_affine();
            conv_eq("to_affine", r, P.pt, x);
        }
        if constexpr (has_to_projective<E>::value) {
            mc::step("to_projective");
            auto r = x.to_projective();
            conv_eq("to_projective", r, P.pt, x);
            auto ra = r.to_affine();
            conv_eq("to_projective.to_affine", ra, P.pt, x);
        }
        mc::step("<<");
        std::ostringstream o, w;
        o << x;
        w << "{\"X\":" << x.X << ",\"Y\":" << x.Y;
        if constexpr (!is_aff<C>) w << ",\"Z\":" << x.Z;
        w << "}";
        MC_CHECK(o.str() == w.str(), "sw:text", nm, " prints ", o.str(), " want ", w.str());
    }
    void view_pair(const Rep &P, const Rep &Q) const {
        mc::state(); mc::trace();
        mc::step("=="); bool e = P.e == Q.e, n = P.e != Q.e;
        MC_CHECK(e == (P.pt == Q.pt) && n == (P.pt != Q.pt), "sw:equality", nm, " ", raw(P.e), " vs ", raw(Q.e), " == gives ", e, " != gives ", n);
    }
    void wf(u32 step) const {
        if constexpr (has_wf<E>::value && !is_aff<C>) {
            mc::ScopedSpace sp("is_well_formed on every coordinate triple");
            for (u32 x = 0; x < t.q; ++x) for (u32 y = 0; y < t.q; ++y) for (u32 z = (x * 5 + y * 3) % step; z < t.q; z += step) {
                E e(fv(x), fv(y), fv(z));
                mc::state(); mc::trace(); mc::step("is_well_formed");
                MC_CHECK(e.is_well_formed() == (decode(e) >= 0), "sw:is_well_formed", nm, " ", raw(e), " says ", e.is_well_formed());
            }
        }
    }
    // the marker of infinity of affine coordinates is the coordinate pair zero_fill; marked: that pair is a point of this curve
    bool marked = false;
    bool usable(u32 a, u32 b, bool std_inf) const {
        if (needs_a0<C> && a != 0) return false;
        if (needs_am3<C> && a != t.num(-3)) return false;
        if (is_aff<C> && (std_inf ? b == 1 : b == 0)) return false;
        return t.add(t.mul(t.num(4), t.mul(a, t.sq(a))), t.mul(t.num(27), t.sq(b))) != 0;
    }
    bool setup(u32 a, u32 b, bool std_inf) {
        marked = std_inf ? b == 1 : b == 0;
        if (!m.weierstrass(a, b)) return false;
        ca = a; cb = b;
        Pm::a = fv(a); Pm::b = fv(b);
        Pm::zero_fill = {fv(0), fv(std_inf ? 1 : 0)};
        int g = m.n() > 1 ? 1 : 0;
        Pm::one_fill = {fv(m.pts[g].x), fv(m.pts[g].y)};
        nm = mc::str(BOOST_PP_STRINGIZE(COORD), " q=", t.q, " y^2=x^3+", show(t.vec(a)), "x+", show(t.vec(b)), std_inf ? " inf=(0,1)" : "");
        mc::cur_args = nm;
        return true;
    }
    void run_one(u32 z_step, u32 left_step, bool inf_all, u32 wf_step) {
        build(z_step, inf_all);
        MC_CHECK(E::zero().is_zero() && E().is_zero() && decode(E::zero()) == 0, "sw:zero", nm);
        if (m.n() > 1) MC_CHECK(decode(E::one()) == 1, "sw:one", nm);
#if PROP == 17
        { mc::ScopedSpace sp(mc::str("q=", t.q, ": every representation, unary operations")); for (auto &P : reps) law_unary(P); }
        { mc::ScopedSpace sp(mc::str("q=", t.q, ": pairs of representations, binary operations"));
          for (std::size_t i = 0; i < reps.size(); i += left_step) for (auto &Q : reps) { law_pair(reps[i], Q); if (left_step > 1 ) law_pair(Q, reps[i]); } }
#else
        { mc::ScopedSpace sp(mc::str("q=", t.q, ": every representation, conversions and text")); for (auto &P : reps) view_unary(P); }
        { mc::ScopedSpace sp(mc::str("q=", t.q, ": pairs of representations, equality"));
          for (std::size_t i = 0; i < reps.size(); i += left_step) for (auto &Q : reps) view_pair(reps[i], Q); }
        wf(wf_step);
#endif
    }
    // every curve over the field (curve_step: one in curve_step); both markers of infinity
    void all(u32 curve_step, u32 z_step, u32 left_step, bool inf_all, u32 wf_step) {
        bool modelled = false;
        u32 k = 0;
        for (u32 a = 0; a < t.q; ++a) for (u32 b = 0; b < t.q; ++b) for (int inf = 0; inf < 2; ++inf) {
            if (!usable(a, b, inf)) continue;
            if (k++ % curve_step) continue;
            if (!mc::mine()) continue;
            if (!setup(a, b, inf)) continue;
            if (!modelled) { modelled = true; if (!m.is_group()) { std::fprintf(stderr, "model is not a group: %s\n", nm.c_str()); std::exit(2); } }
            mc::sample(mc::str(nm, ": ", m.n(), " points, ", "all pairs"));
            run_one(z_step, left_step, inf_all, wf_step);
        }
    }
};

int main(int argc, char **argv) {
    mc::init(argc, argv, "short Weierstrass " BOOST_PP_STRINGIZE(COORD));
    bool T = mc::thorough;
    bool special = needs_a0<C> || needs_am3<C>;
    { Chk<tiny::tf<5, 2>> c; c.all(1, 1, 1, true, 1); }
    { Chk<tiny::tf<7, -1, 2, 1>> c; c.all(1, 1, 1, true, 1); }
    bool full = special || is_aff<C>;
    { Chk<tiny::tf<11>> c; c.all(full || T ? 1 : 2, 1, 1, T, 1); }
    { Chk<tiny::tf<13, 2, 0, 1>> c; c.all(full || T ? 1 : 6, 1, 1, T, 1); }
    { Chk<tiny::tf<17>> c; c.all(full ? 1 : T ? 2 : 60, 1, 1, false, 1); }
    { Chk<fields::fp2<tiny::tf<5, 2>>> c; c.all(is_aff<C> ? 5 : special ? (T ? 1 : 6) : (T ? 20 : 120), T ? 1 : 3, T ? 1 : 3, false, T ? 1 : 3); }
    { Chk<fields::fp2<tiny::tf<7, -1, 2, 1>>> c; c.all(is_aff<C> ? 60 : special ? (T ? 3 : 10) : (T ? 100 : 600), T ? 5 : 11, T ? 3 : 7, false, T ? 3 : 11); }
    { Chk<tiny::tf<31, 3, 4, 1>> c; c.all(is_aff<C> ? 5 : special ? (T ? 1 : 4) : (T ? 20 : 100), T ? 1 : 5, T ? 3 : 5, false, T ? 1 : 3); }
    { Chk<fields::fp3<tiny::tf<7, 3>>> c; c.all(is_aff<C> ? 20000 : special ? (T ? 30 : 120) : (T ? 8000 : 40000), 150, 17, false, T ? 11 : 97); }
    return mc::finish();
}
