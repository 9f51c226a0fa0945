// C19 / C20: twisted Edwards, Edwards and Montgomery points. Every curve over tiny fields, every point, every
// representation, every pair; model: the affine addition laws on the affine point set.
#include <nil/crypto3/algebra/curves/detail/forms/twisted_edwards/coordinates.hpp>
#include <nil/crypto3/algebra/curves/detail/forms/twisted_edwards/element_g1_affine.hpp>
#include <nil/crypto3/algebra/curves/detail/forms/twisted_edwards/extended_with_a_minus_1/element_g1.hpp>
#include <nil/crypto3/algebra/curves/detail/forms/twisted_edwards/inverted/element_g1.hpp>
#include <nil/crypto3/algebra/curves/detail/forms/edwards/inverted/add_2007_bl.hpp>
#include <nil/crypto3/algebra/curves/detail/forms/edwards/inverted/dbl_2007_bl.hpp>
#include <nil/crypto3/algebra/curves/detail/forms/edwards/inverted/madd_2007_bl.hpp>
#include <nil/crypto3/algebra/curves/detail/forms/montgomery/element_g1_affine.hpp>
#include "tinycurve.hpp"
// KIND 1: affine, 2: extended (a = -1), 3: inverted, 4: Edwards inverted formulas, 5: Montgomery affine
typedef forms::twisted_edwards TE;
typedef forms::montgomery MO;

// the curve element class of this coordinate system (edwards/inverted/element_g1.hpp) does not compile: it includes a
// header the repository does not have; its three formula headers are exercised through this stand-in
template<typename F>
struct EdElem {
    typedef F field_type;
    struct params_type { static inline typename F::value_type c, d; };
    typedef coords::inverted coordinates;
    typename F::value_type X, Y, Z;
    EdElem() = default;
    EdElem(const typename F::value_type &x, const typename F::value_type &y, const typename F::value_type &z) : X(x), Y(y), Z(z) { }
    bool is_zero() const { return Y.is_zero() && Z.is_zero(); }
};
#if KIND == 1
typedef coords::affine C; typedef TE FORM;
#define NAME "twisted Edwards affine"
#elif KIND == 2
typedef coords::extended_with_a_minus_1 C; typedef TE FORM;
#define NAME "twisted Edwards extended"
#elif KIND == 3
typedef coords::inverted C; typedef TE FORM;
#define NAME "twisted Edwards inverted"
#elif KIND == 4
typedef coords::inverted C; typedef forms::edwards FORM;
#define NAME "Edwards inverted formulas"
#else
typedef coords::affine C; typedef MO FORM;
#define NAME "Montgomery affine"
#endif

template<typename F>
struct Chk {
#if KIND == 4
    typedef EdElem<F> E;
#else
    typedef tc::elem<F, FORM, C> E;
#endif
    typedef tc::params_f<F, F, F, FORM> Pm;
    typedef tc::params_f<F, F, F, TE> PT;
    typedef tc::params_f<F, F, F, MO> PM;
    tc::Model<F> m;
    const tc::Tab<F> &t = tc::Tab<F>::get();
    std::string nm;
    struct Rep { int pt; E e; };
    std::vector<Rep> reps;
    static auto fv(u32 i) { return tc::Tab<F>::get().el[i]; }
    // coordinates that the inverted systems can express: the neutral element and points without zero coordinates
    bool repr(int p) const { return KIND == 3 || KIND == 4 ? p == 0 || (p > 0 && m.pts[p].x != 0 && m.pts[p].y != 0) : p >= 0; }
    template<typename X> int decode(const X &e, const tc::Model<F> &m) const {
        typedef typename X::coordinates XC;
        u32 x = t.of(e.X), y = t.of(e.Y);
        if constexpr (std::is_same<XC, coords::affine>::value) {
            if constexpr (std::is_same<typename X::form, MO>::value) return e.is_zero() ? 0 : m.find(x, y);
            else return x == t.of(PT::zero_fill[0]) && y == t.of(PT::zero_fill[1]) ? 0 : m.find(x, y);
        } else if constexpr (std::is_same<XC, coords::inverted>::value) {
            u32 z = t.of(e.Z);
            if (y == 0 && z == 0) return 0;
            if (x == 0 || y == 0 || z == 0) return -1;
            return m.find(t.div(z, x), t.div(z, y));
        } else {
            u32 z = t.of(e.Z), T = t.of(e.T);
            if (z == 0 || t.mul(x, y) != t.mul(T, z)) return -1;
            return m.find(t.div(x, z), t.div(y, z));
        }
    }
    static std::string raw(const E &e) {
        auto &t = tc::Tab<F>::get();
        std::string s = mc::str("(", show(t.vec(t.of(e.X))), ":", show(t.vec(t.of(e.Y))));
        if constexpr (KIND == 5) { if (e.is_zero()) return "O"; }
        if constexpr (KIND == 2) s += mc::str(":T=", show(t.vec(t.of(e.T))));
        if constexpr (KIND >= 2 && KIND <= 4) s += mc::str(":", show(t.vec(t.of(e.Z))));
        return s + ")";
    }
    void eq(const char *op, const E &got, int want, const E &a, const E &b) const {
        int g = decode(got, m);
        if (g != want) mc::violation(std::string("ed:") + op, mc::str(nm, " ", op, " P=", raw(a), " Q=", raw(b), " got ", raw(got), " = ", m.show(g), " want ", m.show(want)));
    }
    void same(const char *op, const E &now, const E &before) const {
        bool ok = now.X == before.X && now.Y == before.Y && now.is_zero() == before.is_zero();
#if KIND == 5
        ok = before.is_zero() ? now.is_zero() : ok;
#endif
#if KIND == 2
        ok = ok && now.T == before.T;
#endif
#if KIND >= 2 && KIND <= 4
        ok = ok && now.Z == before.Z;
#endif
        if (!ok) mc::violation(std::string("ed:operand-") + op, mc::str(nm, " ", op, " changed its operand ", raw(before), " to ", raw(now)));
    }
    void build() {
        reps.clear();
        for (int i = 0; i < m.n(); ++i) {
            if (!repr(i)) continue;
            u32 x = m.pts[i].x, y = m.pts[i].y;
#if KIND == 1
            reps.push_back({i, E(fv(x), fv(y))});
            if (i == 0) reps.push_back({0, E(PT::zero_fill[0], PT::zero_fill[1])});
#elif KIND == 5
            reps.push_back({i, i == 0 ? E() : E(fv(x), fv(y))});
#elif KIND == 2
            for (u32 z = 1; z < t.q; ++z) reps.push_back({i, E(fv(t.mul(x, z)), fv(t.mul(y, z)), fv(t.mul(t.mul(x, y), z)), fv(z))});
#else
            if (i == 0) for (u32 k = 0; k < t.q; ++k) reps.push_back({0, E(fv(k), fv(0), fv(0))});
            else for (u32 z = 1; z < t.q; ++z) reps.push_back({i, E(fv(t.div(z, x)), fv(t.div(z, y)), fv(z))});
#endif
        }
    }
    void law_pair(const Rep &P, const Rep &Q) const {
        const E &x = P.e, &y = Q.e;
        int s = m.add(P.pt, Q.pt), d = m.add(P.pt, m.neg(Q.pt));
        mc::state(); mc::trace();
#if KIND == 4
        // the formulas themselves: neither operand is the neutral element
        if (P.pt == 0 || Q.pt == 0 || !repr(s)) return;
        namespace D = curves::detail;
        mc::step("add"); { E a = x; D::edwards_element_g1_inverted_add_2007_bl::process(a, y); eq("add", a, s, x, y); }
        mc::step("madd"); if (y.Z.is_one()) { E a = x; D::edwards_element_g1_inverted_madd_2007_bl::process(a, y); eq("madd", a, s, x, y); }
        (void)d;
#else
        if (repr(s)) {
            mc::step("+"); { E a = x, b = y; eq("add", a + b, s, x, y); same("+", a, x); same("+", b, y); }
            mc::step("+="); { E a = x, b = y; E &r = (a += b); eq("add-assign", a, s, x, y); same("+=", b, y); MC_CHECK(&r == &a, "ed:add-assign-ref", nm); }
#if KIND == 2 || KIND == 3
            if (y.Z.is_one() || y.is_zero()) { mc::step("mixed_add"); E a = x, b = y; a.mixed_add(b); eq("mixed_add", a, s, x, y); same("mixed_add", b, y); }
#endif
        }
        if (repr(d)) {
            mc::step("-"); { E a = x, b = y; eq("sub", a - b, d, x, y); same("-", a, x); same("-", b, y); }
            mc::step("-="); { E a = x, b = y; E &r = (a -= b); eq("sub-assign", a, d, x, y); same("-=", b, y); MC_CHECK(&r == &a, "ed:sub-assign-ref", nm); }
        }
#endif
    }
    void law_unary(const Rep &P) const {
        const E &x = P.e;
        int dbl = m.add(P.pt, P.pt);
        mc::state(); mc::trace();
        eq("construct", x, P.pt, x, x);
#if KIND == 4
        if (repr(dbl)) { mc::step("dbl"); E a = x; curves::detail::edwards_element_g1_inverted_dbl_2007_bl::process(a); eq("dbl", a, dbl, x, x); }
#else
        mc::step("neg"); { E a = x; eq("neg", -a, m.neg(P.pt), x, x); same("neg", a, x); }
        if (repr(dbl)) {
            mc::step("double"); { E a = x; a.double_inplace(); eq("double", a, dbl, x, x); }
            mc::step("alias+="); { E a = x; a += a; eq("alias-add-assign", a, dbl, x, x); }
            mc::step("alias+"); { E a = x; a = a + a; eq("alias-add", a, dbl, x, x); }
#if KIND == 2 || KIND == 3
            if (x.Z.is_one()) { mc::step("alias-mixed"); E a = x; a.mixed_add(a); eq("alias-mixed_add", a, dbl, x, x); }
#endif
        }
        if (m.add(P.pt, m.neg(P.pt)) == 0) { mc::step("alias-");  E a = x; a -= a; eq("alias-sub-assign", a, 0, x, x); a = x; a = a - a; eq("alias-sub", a, 0, x, x); }
        if (m.complete() && (KIND != 3)) { mc::step("chain"); E a = x; for (int k = 0; k < 3; ++k) { a.double_inplace(); a += x; } eq("chain 15P", a, m.mul(P.pt, 15), x, x); }
#endif
    }
#if KIND != 4
    template<typename R> void conv_eq(const char *op, const R &r, int want, const E &x, const tc::Model<F> &mm) const {
        int g = decode(r, mm);
        MC_CHECK(g == want, std::string("ed:") + op, nm, " ", op, " of ", raw(x), " want ", mm.show(want), " gives ", mm.show(g));
        MC_CHECK(r.is_zero() == (want == 0), std::string("ed:zero-") + op, nm, " ", raw(x));
    }
    void view_unary(const Rep &P) const {
        const E &x = P.e;
        mc::state(); mc::trace();
        mc::step("is_zero"); MC_CHECK(x.is_zero() == (P.pt == 0), "ed:is_zero", nm, " ", raw(x));
        MC_CHECK(x.is_well_formed(), "ed:is_well_formed", nm, " ", raw(x), " is a point");
        { mc::step("copy"); E a(x); same("copy", a, x); E b; b = x; same("assign", b, x); b = b; same("self-assign", b, x); if (m.n() > 1) { E c = reps.back().e; c = x; same("reassign", c, x); } }
        mc::step("to_affine"); conv_eq("to_affine", x.to_affine(), P.pt, x, m);
#if KIND == 1
        if (m.pts[P.pt].x != 0 && m.pts[P.pt].y != 0 || P.pt == 0) { mc::step("to_inverted"); auto r = x.to_inverted(); conv_eq("to_inverted", r, P.pt, x, m); conv_eq("to_inverted.to_affine", r.to_affine(), P.pt, x, m); }
        if (P.e.X != PT::zero_fill[0] || P.e.Y != PT::zero_fill[1] || P.e.Y.is_one()) { mc::step("to_extended"); auto r = x.to_extended_with_a_minus_1(); conv_eq("to_extended", r, P.pt, x, m); conv_eq("to_extended.to_affine", r.to_affine(), P.pt, x, m); }
#endif
#if KIND == 3
        if (P.pt != 0) { E e(fv(m.pts[P.pt].x), fv(m.pts[P.pt].y)); conv_eq("construct-affine", e, P.pt, x, m); }
#endif
        mc::step("<<");
        std::ostringstream o, w;
        o << x;
        w << "{\"X\":" << x.X << ",\"Y\":" << x.Y;
#if KIND == 2
        w << ",\"T\":" << x.T;
#endif
#if KIND == 2 || KIND == 3
        w << ",\"Z\":" << x.Z;
#endif
        w << "}";
        MC_CHECK(o.str() == w.str(), "ed:text", nm, " prints ", o.str(), " want ", w.str());
    }
    void view_pair(const Rep &P, const Rep &Q) const {
        mc::state(); mc::trace();
        mc::step("=="); bool e = P.e == Q.e, n = P.e != Q.e;
        MC_CHECK(e == (P.pt == Q.pt) && n == (P.pt != Q.pt), "ed:equality", nm, " ", raw(P.e), " vs ", raw(Q.e), " == gives ", e, " != gives ", n);
    }
    void wf1(const E &e) const {
        mc::state(); mc::trace(); mc::step("is_well_formed");
        bool on = decode(e, m) >= 0;
        MC_CHECK(e.is_well_formed() == on, "ed:is_well_formed", nm, " ", raw(e), " says ", e.is_well_formed());
    }
    void wf() const {
        mc::ScopedSpace sp("is_well_formed on every coordinate tuple");
        for (u32 x = 0; x < t.q; ++x) for (u32 y = 0; y < t.q; ++y) {
#if KIND == 1 || KIND == 5
            wf1(E(fv(x), fv(y)));
#elif KIND == 2
            for (u32 z = 1; z < t.q; ++z) for (u32 T = 0; T < t.q; ++T) wf1(E(fv(x), fv(y), fv(T), fv(z)));
#else
            for (u32 z = 1; z < t.q; ++z) if (x && y) wf1(E(fv(x), fv(y), fv(z)));
#endif
        }
    }
#endif
    void run_one(u32 left_step) {
        mc::cur_args = nm;
        build();
#if KIND != 4
        MC_CHECK(E::zero().is_zero() && E().is_zero() && decode(E::zero(), m) == 0, "ed:zero", nm);
        if (repr(m.n() - 1)) { Pm::one_fill = {fv(m.pts.back().x), fv(m.pts.back().y)}; if (!m.pts.back().inf) MC_CHECK(decode(E::one(), m) == m.n() - 1, "ed:one", nm); }
#endif
#if PROP == 19
        { mc::ScopedSpace sp(mc::str("q=", t.q, ": every representation, unary operations")); for (auto &P : reps) law_unary(P); }
        { mc::ScopedSpace sp(mc::str("q=", t.q, ": pairs of representations, binary operations"));
          for (std::size_t i = 0; i < reps.size(); i += left_step) for (auto &Q : reps) { law_pair(reps[i], Q); if (left_step > 1) law_pair(Q, reps[i]); } }
#elif KIND != 4
        { mc::ScopedSpace sp(mc::str("q=", t.q, ": every representation, conversions and text")); for (auto &P : reps) view_unary(P); }
        { mc::ScopedSpace sp(mc::str("q=", t.q, ": pairs of representations, equality"));
          for (std::size_t i = 0; i < reps.size(); i += left_step) for (auto &Q : reps) view_pair(reps[i], Q); }
        wf();
#endif
    }
    // every twisted Edwards curve a x^2 + y^2 = 1 + d x^2 y^2 and every Montgomery curve isomorphic to it
    void forms_check(u32 step) {
#if KIND == 5 && PROP == 20
        typedef tc::elem<F, TE, coords::affine> TEE;
        tc::Model<F> me;
        u32 k = 0;
        for (u32 a = 1; a < t.q; ++a) for (u32 d = 1; d < t.q; ++d) for (u32 w = 1; w <= t.q / 2; ++w) for (int inf = 0; inf < 2; ++inf) {
            if (a == d || k++ % step || !mc::mine()) continue;
            if (!me.edwards(a, d) || !me.complete()) continue;      // no exceptional points besides the 2-torsion
            u32 A = t.div(t.mul(t.num(2), t.add(a, d)), t.sub(a, d)), B0 = t.div(t.num(4), t.sub(a, d)), B = t.mul(B0, t.sq(w));
            if (!m.montgomery(A, B)) { std::fprintf(stderr, "models disagree\n"); std::exit(2); }
            if (m.n() != me.n()) continue;      // the twisted Edwards curve has points at infinity
            PT::a = fv(a); PT::d = fv(d); PM::A = fv(A); PM::B = fv(B);
            PT::zero_fill = {fv(0), fv(inf)};
            nm = mc::str("q=", t.q, " TE a=", show(t.vec(a)), " d=", show(t.vec(d)), " Montgomery A=", show(t.vec(A)), " B=", show(t.vec(B)));
            mc::cur_args = nm;
            mc::ScopedSpace sp(mc::str("q=", t.q, ": Montgomery <-> twisted Edwards, every point"));
            auto mont = [&](int i) { return i == 0 ? E() : E(fv(m.pts[i].x), fv(m.pts[i].y)); };
            std::vector<int> img(m.n(), -1);
            for (int i = 0; i < m.n(); ++i) {
                mc::state(); mc::trace();
                mc::step("to_twisted_edwards");
                auto r = mont(i).to_twisted_edwards();
                img[i] = decode(r, me);
                MC_CHECK(img[i] >= 0 && (img[i] == 0) == (i == 0), "ed:to_twisted_edwards-point", nm, " point ", m.show(i), " maps to ", me.show(img[i]));
                if (img[i] < 0) continue;
                mc::step("to_montgomery");
                auto b = r.to_montgomery();
                MC_CHECK(decode(b, m) == i, "ed:montgomery-roundtrip", nm, " point ", m.show(i), " -> ", me.show(img[i]), " -> ", m.show(decode(b, m)));
                mc::step("to_montgomery of the affine pair");
                auto c = TEE(fv(me.pts[img[i]].x), fv(me.pts[img[i]].y)).to_montgomery();
                MC_CHECK(decode(c, m) == i, "ed:to_montgomery", nm, " point ", me.show(img[i]), " -> ", m.show(decode(c, m)));
            }
            for (int i = 0; i < m.n(); ++i) for (int j = 0; j < m.n(); ++j) {
                mc::state(); mc::step("homomorphism");
                if (img[i] < 0 || img[j] < 0) continue;
                MC_CHECK(img[m.add(i, j)] == me.add(img[i], img[j]), "ed:form-homomorphism", nm, " ", m.show(i), " + ", m.show(j));
            }
        }
#endif
    }
    void all(u32 step, u32 left_step) {
        u32 k = 0;
        bool modelled = false;
#if KIND == 5
        for (u32 a = 0; a < t.q; ++a) for (u32 d = 1; d < t.q; ++d) {
            int inf = 0;
#else
        for (u32 a = 1; a < t.q; ++a) for (u32 d = 1; d < t.q; ++d) for (int inf = 0; inf < 2; ++inf) {
#endif
            if (KIND == 2 && a != t.num(-1)) continue;
            if (k++ % step) continue;
            if (!mc::mine()) continue;
#if KIND == 4
            // here a stands for c
            if (inf || !m.edwards(1, d, a)) continue;
            E::params_type::c = fv(a); E::params_type::d = fv(d);
#elif KIND == 5
            if (!m.montgomery(a, d)) continue;
            PM::A = fv(a); PM::B = fv(d);
#else
            if (!m.edwards(a, d)) continue;
            PT::a = fv(a); PT::d = fv(d);
            PT::zero_fill = {fv(0), fv(inf)};
#endif
            nm = mc::str(NAME " q=", t.q, KIND == 4 ? " c=" : " a=", show(t.vec(a)), KIND == 5 ? " B=" : " d=", show(t.vec(d)), inf ? " inf=(0,1)" : "");
            if (!modelled) { modelled = true; if (!m.is_group()) { std::fprintf(stderr, "model is not a group: %s\n", nm.c_str()); std::exit(2); } }
            mc::sample(mc::str(nm, ": ", m.n(), " points"));
            run_one(left_step);
        }
    }
};

int main(int argc, char **argv) {
    mc::init(argc, argv, NAME);
    bool T = mc::thorough;
    bool aff = KIND == 1 || KIND == 5;
    { Chk<tiny::tf<5, 2>> c; c.all(1, 1); c.forms_check(1); }
    { Chk<tiny::tf<7, -1, 2, 1>> c; c.all(1, 1); c.forms_check(1); }
    { Chk<tiny::tf<11>> c; c.all(1, 1); c.forms_check(1); }
    { Chk<tiny::tf<13, 2, 0, 1>> c; c.all(1, 1); c.forms_check(1); }
    { Chk<tiny::tf<17>> c; c.all(aff || KIND == 2 || T ? 1 : 8, 1); c.forms_check(1); }
    { Chk<tiny::tf<19>> c; c.all(aff || KIND == 2 || T ? 1 : 20, 1); c.forms_check(T ? 1 : 3); }
    { Chk<tiny::tf<31, 3, 4, 1>> c; c.all(aff ? 1 : T ? 3 : KIND == 2 ? 4 : 40, KIND == 2 ? 5 : 3); c.forms_check(T ? 3 : 40); }
#if KIND != 2 && KIND != 5
    { Chk<fields::fp2<tiny::tf<5, 2>>> c; c.all(aff ? 3 : T ? 2 : 20, 3); }
#endif
    return mc::finish();
}
