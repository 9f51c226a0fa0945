// C22: the curves the library ships. For every group: the coefficients and generator satisfy the defining equation, the generator has the
// order of the scalar field, the group has the size Hasse's bound allows; and a bounded set of multiples of the generator, in every coordinate
// system that fits the coefficients, added, subtracted, doubled, converted and multiplied as in an independent big-integer affine model.
#include <nil/crypto3/algebra/curves/forms.hpp>
#include <nil/crypto3/algebra/curves/alt_bn128.hpp>
#include <nil/crypto3/algebra/curves/babyjubjub.hpp>
#include <nil/crypto3/algebra/curves/bls12.hpp>
#include <nil/crypto3/algebra/curves/curve25519.hpp>
#include <nil/crypto3/algebra/curves/ed25519.hpp>
#include <nil/crypto3/algebra/curves/edwards.hpp>
#include <nil/crypto3/algebra/curves/jubjub.hpp>
#include <nil/crypto3/algebra/curves/mnt4.hpp>
#include <nil/crypto3/algebra/curves/mnt6.hpp>
#include <nil/crypto3/algebra/curves/pallas.hpp>
#include <nil/crypto3/algebra/curves/secp_k1.hpp>
#include <nil/crypto3/algebra/curves/secp_r1.hpp>
#include <nil/crypto3/algebra/curves/sm2p_v1.hpp>
#include <nil/crypto3/algebra/curves/vesta.hpp>
#include <nil/crypto3/algebra/curves/detail/forms/short_weierstrass/element_g1_affine.hpp>
#include <nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian/element_g1.hpp>
#include <nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian_with_a4_0/element_g1.hpp>
#include <nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian_with_a4_minus_3/element_g1.hpp>
#include <nil/crypto3/algebra/curves/detail/forms/short_weierstrass/projective/element_g1.hpp>
#include <nil/crypto3/algebra/curves/detail/forms/short_weierstrass/projective_with_a4_minus_3/element_g1.hpp>
#include <nil/crypto3/algebra/curves/detail/forms/twisted_edwards/extended_with_a_minus_1/element_g1.hpp>
#include <nil/crypto3/algebra/curves/detail/forms/twisted_edwards/inverted/element_g1.hpp>
#include "tiny.hpp"
#include "published.hpp"
using namespace nil::crypto3::algebra;
namespace coords = curves::coordinates;
namespace cd = curves::detail;
typedef nil::crypto3::algebra::curves::forms FM;
typedef model::Vec<big> V;

static big inv_mod(const big &a, const big &p) {
    big r0 = p, r1 = model::modp<big>(a, p), t0 = 0, t1 = 1;
    while (r1 != 0) { big q = r0 / r1, x = r0 - q * r1; r0 = r1; r1 = x; x = t0 - q * t1; t0 = t1; t1 = x; }
    return model::modp<big>(t0, p);
}
struct Fld : model::Tower<big> {
    Fld() {}
    Fld(const model::Tower<big> &t) : model::Tower<big>(t) {}
    V num(big k) const { V r(dim(), big(0)); r[0] = model::modp<big>(k, p); return r; }
    bool zero(const V &a) const { for (auto &x : a) if (x != 0) return false; return true; }
    V inv(const V &a) const {    // solve a * x = 1
        std::size_t n = dim();
        if (n == 1) return {inv_mod(a[0], p)};
        std::vector<V> m(n, V(n + 1, big(0)));
        for (std::size_t j = 0; j < n; ++j) { V e(n, big(0)); e[j] = 1; V c = mul(a, e); for (std::size_t i = 0; i < n; ++i) m[i][j] = c[i]; }
        m[0][n] = 1;
        for (std::size_t c = 0; c < n; ++c) {
            std::size_t r = c;
            while (m[r][c] == 0) ++r;
            std::swap(m[r], m[c]);
            big k = inv_mod(m[c][c], p);
            for (auto &x : m[c]) x = x * k % p;
            for (std::size_t i = 0; i < n; ++i) if (i != c && m[i][c] != 0) { big f = m[i][c]; for (std::size_t j = c; j <= n; ++j) m[i][j] = model::modp<big>(m[i][j] - f * m[c][j], p); }
        }
        V r(n); for (std::size_t i = 0; i < n; ++i) r[i] = m[i][n];
        return r;
    }
};
struct Pt { bool inf = true; V x, y; };
enum Kind { SW, TE, MO };
struct Curve {
    Fld f; Kind k; V a, b;    // SW: a, b; TE: a, d; MO: A, B
    V s(const V &x, const V &y) const { return f.add(x, y); }
    V m(const V &x, const V &y) const { return f.mul(x, y); }
    bool on(const Pt &p) const {
        if (p.inf) return true;
        V xx = m(p.x, p.x), yy = m(p.y, p.y);
        if (k == SW) return yy == s(s(m(xx, p.x), m(a, p.x)), b);
        if (k == TE) return s(m(a, xx), yy) == s(f.one(), m(b, m(xx, yy)));
        return m(b, yy) == s(s(m(xx, p.x), m(a, xx)), p.x);
    }
    bool nonsingular() const {
        if (k == SW) return !f.zero(s(m(f.num(4), m(a, m(a, a))), m(f.num(27), m(b, b))));
        if (k == TE) return !f.zero(a) && !f.zero(b) && a != b;
        return !f.zero(b) && m(a, a) != f.num(4);
    }
    Pt norm(Pt p) const { if (k == TE && !p.inf && f.zero(p.x) && p.y == f.one()) return Pt(); return p; }
    bool same(const Pt &p, const Pt &q) const { Pt u = norm(p), v = norm(q); return u.inf == v.inf && (u.inf || (u.x == v.x && u.y == v.y)); }
    Pt neg(Pt p) const { if (!p.inf) (k == TE ? p.x : p.y) = f.neg(k == TE ? p.x : p.y); return p; }
    Pt add(const Pt &p, const Pt &q) const {
        if (p.inf) return q;
        if (q.inf) return p;
        if (k == TE) {
            V xy = m(p.x, q.y), yx = m(p.y, q.x), c = m(b, m(xy, yx)), o = f.one();
            Pt r; r.inf = false;
            r.x = m(s(xy, yx), f.inv(s(o, c)));
            r.y = m(f.sub(m(p.y, q.y), m(a, m(p.x, q.x))), f.inv(f.sub(o, c)));
            return norm(r);
        }
        V l;
        if (p.x == q.x) {
            if (p.y != q.y || f.zero(p.y)) return Pt();
            V xx = m(p.x, p.x), n3 = m(f.num(3), xx);
            if (k == SW) l = m(s(n3, a), f.inv(s(p.y, p.y)));
            else l = m(s(s(n3, m(f.num(2), m(a, p.x))), f.one()), f.inv(m(f.num(2), m(b, p.y))));
        } else l = m(f.sub(q.y, p.y), f.inv(f.sub(q.x, p.x)));
        Pt r; r.inf = false;
        V ll = m(l, l);
        if (k == MO) ll = f.sub(m(b, ll), a);
        r.x = f.sub(f.sub(ll, p.x), q.x);
        r.y = f.sub(m(l, f.sub(p.x, r.x)), p.y);
        return r;
    }
    Pt mul(big e, Pt p) const { Pt r; while (e != 0) { if (e % 2 != 0) r = add(r, p); p = add(p, p); e /= 2; } return r; }
    std::string show(const Pt &p) const { return p.inf ? "O" : ::show(p.x) + "," + ::show(p.y); }
};

static void ck(const std::string &who, const char *what, bool ok, const std::string &more = "") {
    mc::state(); mc::step(what);
    if (!ok) mc::violation(mc::str(who, ":", what), mc::str(who, ": ", what, " ", more));
}
#define MEMBER(m) template<typename T> auto has_##m(int) -> decltype(T::m, std::true_type()); template<typename T> std::false_type has_##m(...); template<typename T> constexpr bool H_##m = decltype(has_##m<T>(0))::value;
MEMBER(cofactor)
#define METHOD(m) template<typename T> auto hm_##m(int) -> decltype(std::declval<T>().m(), std::true_type()); template<typename T> std::false_type hm_##m(...); template<typename T> constexpr bool M_##m = decltype(hm_##m<T>(0))::value;
METHOD(is_well_formed) METHOD(to_affine) METHOD(to_projective) METHOD(to_montgomery) METHOD(to_twisted_edwards) METHOD(to_inverted) METHOD(to_extended_with_a_minus_1)
template<typename T> auto hm_mixed(int) -> decltype(std::declval<T &>().mixed_add(std::declval<T &>()), std::true_type()); template<typename T> std::false_type hm_mixed(...); template<typename T> constexpr bool M_mixed = decltype(hm_mixed<T>(0))::value;
template<typename A, typename B> constexpr bool is = std::is_same<A, B>::value;

static std::string hx(const big &b) { std::ostringstream o; o << std::hex << b; return o.str(); }
// a coefficient given as an integer or a field element
template<typename F, typename T> V coef(const Fld &f, const T &t) { if constexpr (is<T, typename F::value_type>) return conv::to<big>(t); else return f.num(big(t)); }

template<typename E> V fv(const E &e) { return conv::to<big>(e); }

// one coordinate system of one group
template<typename G, typename S>
struct Sys {
    typedef typename G::value_type E;
    typedef typename E::coordinates C;
    typedef typename E::form Fm;
    Curve c; std::string nm; big r;
    static auto raw() { return 0; }
    Pt dec(const E &e) const {
        Pt p; p.inf = false;
        if constexpr (is<C, coords::affine>) {
            if constexpr (is<Fm, FM::montgomery>) { if (e.is_zero()) return Pt(); }
            else if (e == E::zero()) return Pt();
            p.x = fv(e.X); p.y = fv(e.Y);
        } else {
            V X = fv(e.X), Y = fv(e.Y), Z = fv(e.Z);
            if constexpr (is<C, coords::inverted>) {
                if (c.f.zero(Y) && c.f.zero(Z)) return Pt();
                if (c.f.zero(X) || c.f.zero(Y) || c.f.zero(Z)) { p.x = p.y = c.f.num(0); return p; }
                p.x = c.m(Z, c.f.inv(X)); p.y = c.m(Z, c.f.inv(Y));
            } else {
                if (c.f.zero(Z)) { if (is<Fm, FM::twisted_edwards>) { p.x = p.y = c.f.num(0); return p; } return Pt(); }
                V i = c.f.inv(Z);
                if constexpr (is<Fm, FM::twisted_edwards> || is<C, coords::projective> || is<C, coords::projective_with_a4_minus_3>) { p.x = c.m(X, i); p.y = c.m(Y, i); }
                else { V ii = c.m(i, i); p.x = c.m(X, ii); p.y = c.m(Y, c.m(ii, i)); }
                if constexpr (is<C, coords::extended_with_a_minus_1>) if (c.m(fv(e.T), Z) != c.m(X, Y)) p.x = p.y = c.f.num(0);
            }
        }
        return c.norm(p);
    }
    void eq(const char *op, const E &e, const Pt &want, const std::string &more) const {
        Pt g = dec(e);
        if (!c.same(g, want)) mc::violation(mc::str(nm, ":", op), mc::str(nm, " ", op, " ", more, " = ", c.show(g), " want ", c.show(want)));
        if constexpr (M_is_well_formed<E>) MC_CHECK(e.is_well_formed(), mc::str(nm, ":", op, ":well_formed"), nm, " ", op, " ", more, " is not well formed");
        MC_CHECK(e.is_zero() == want.inf, mc::str(nm, ":", op, ":is_zero"), nm, " ", op, " ", more, " is_zero = ", e.is_zero());
    }
    template<typename A> void eq_any(const char *op, const A &a, const Pt &want, const std::string &more) const {
        typedef typename A::group_type AG;
        Sys<AG, S> o; o.c = c; o.nm = nm; o.r = r;
        o.eq(op, a, want, more);
    }
    void run(const std::vector<Pt> &mult, const std::vector<std::pair<big, Pt>> &scal) {
        mc::cur_args = nm;
        mc::ScopedSpace sp(mc::str("multiples of the generator, pairwise: ", nm));
        const int n = int(mult.size());
        const E one = E::one(), zero = E::zero();
        mc::step("one"); eq("one", one, mult[1], "");
        mc::step("zero"); eq("zero", zero, Pt(), ""); eq("default", E(), Pt(), "");
        std::vector<E> e(n, zero);
        for (int i = 1; i < n; ++i) { mc::state(); mc::step("+="); e[i] = e[i - 1]; e[i] += one; eq("+=one", e[i], mult[i], mc::str(i)); }
        auto W = [&](int k) { return k >= 0 ? mult[k] : c.neg(mult[-k]); };
        for (int i = 0; i < n; ++i) {
            mc::step("neg"); eq("neg", -e[i], W(-i), mc::str(i));
            if (2 * i < n) { mc::step("double"); E d = e[i]; d.double_inplace(); eq("double", d, W(2 * i), mc::str(i)); }
            if constexpr (M_to_affine<E>) if constexpr (!is<decltype(e[i].to_affine()), E> || std::is_constructible<typename E::form>::value) { mc::step("to_affine"); eq_any("to_affine", e[i].to_affine(), W(i), mc::str(i)); }
            if constexpr (M_to_inverted<E>) if (i) { mc::step("to_inverted"); eq_any("to_inverted", e[i].to_inverted(), W(i), mc::str(i)); }
            for (int j = 0; j < n; ++j) {
                mc::trace();
                MC_CHECK((e[i] == e[j]) == (i == j) && (e[i] != e[j]) == (i != j), nm + ":==", nm, " ", i, "==", j);
                mc::step("-"); eq("-", e[i] - e[j], W(i - j), mc::str(i, "-", j));
                if (i + j >= n) continue;
                mc::step("+"); eq("+", e[i] + e[j], W(i + j), mc::str(i, "+", j));
                if constexpr (M_mixed<E>) if (j) {
                    E z1 = E::one();
                    if constexpr (is<C, coords::inverted>) { V i_ = c.f.inv(fv(e[j].Z)); z1 = E(conv::from<decltype(z1.X)>(c.m(fv(e[j].X), i_)), conv::from<decltype(z1.X)>(c.m(fv(e[j].Y), i_)), decltype(z1.Z)::one()); }
                    else if constexpr (is<C, coords::extended_with_a_minus_1>) z1 = E(conv::from<decltype(z1.X)>(mult[j].x), conv::from<decltype(z1.X)>(mult[j].y), conv::from<decltype(z1.X)>(c.m(mult[j].x, mult[j].y)), decltype(z1.Z)::one());
                    else z1 = E(conv::from<decltype(z1.X)>(mult[j].x), conv::from<decltype(z1.X)>(mult[j].y), decltype(z1.Z)::one());
                    mc::step("mixed_add"); E x = e[i]; x.mixed_add(z1); eq("mixed_add", x, W(i + j), mc::str(i, "+", j));
                }
            }
        }
        mc::sample(mc::str(nm, ": ", n, " multiples pairwise, ", scal.size(), " scalars"));
        for (auto &s : scal) {
            mc::state();
            mc::step("*number");
            typename S::integral_type k(s.first);
            eq("*number", one * k, s.second, s.first.str());
            if (s.first < r) { mc::step("*field"); typename S::value_type q(k); eq("*field", one * q, s.second, s.first.str()); eq("field*", q * one, s.second, s.first.str()); }
        }
    }
};

template<typename P, typename F> Curve curve_of(const Fld &f, FM::short_weierstrass *) { return {f, SW, coef<F>(f, P::a), coef<F>(f, P::b)}; }
template<typename P, typename F> Curve curve_of(const Fld &f, FM::twisted_edwards *) { return {f, TE, coef<F>(f, P::a), coef<F>(f, P::d)}; }
template<typename P, typename F> auto mont(const Fld &f, int) -> decltype(P::A, Curve()) { return {f, MO, coef<F>(f, P::A), coef<F>(f, P::B)}; }
template<typename P, typename F> Curve mont(const Fld &f, ...) { return {f, MO, coef<F>(f, P::a), coef<F>(f, P::b)}; }
template<typename P, typename F> Curve curve_of(const Fld &f, FM::montgomery *) { return mont<P, F>(f, 0); }

struct Group { Curve c; Pt g; std::vector<Pt> mult; std::vector<std::pair<big, Pt>> scal; big r; std::string nm; };
static bool prime_power_hasse(const big &q, const big &r, big &h) {
    // the only multiple of r in [q + 1 - 2 sqrt q, q + 1 + 2 sqrt q]
    big w = 2 * sqrt(q) + 1, lo = q + 1 - w, hi = q + 1 + w;
    h = hi / r;
    return h * r >= lo && h > 0 && (h - 1) * r < lo;
}
template<typename P, typename S, typename Form>
Group params(const std::string &nm) {
    typedef typename P::field_type F;
    Group g; g.nm = nm;
    mc::cur_args = nm;
    mc::ScopedSpace sp("parameters: equation, generator, order, group size");
    Fld f(conv::tower<big, typename F::value_type>::get());
    g.r = big(S::modulus);
    ck(nm, "field types", is<typename P::scalar_field_type, S> && big(P::base_field_type::modulus) == f.p);
    g.c = curve_of<P, F>(f, (Form *)nullptr);
    ck(nm, "non-singular", g.c.nonsingular());
    g.g.inf = false; g.g.x = fv(P::one_fill[0]); g.g.y = fv(P::one_fill[1]);
    {
        std::string w;
        for (auto *v : {&g.c.a, &g.c.b, &g.g.x, &g.g.y}) w += (w.empty() ? "" : " ") + ::show(*v);
        ck(nm, "published coefficients and generator", w == published(nm), mc::str("have ", w, " want ", published(nm)));
    }
    ck(nm, "generator on the curve", g.c.on(g.g), g.c.show(g.g));
    Pt t = g.c.mul(g.r, g.g);
    ck(nm, "order of the generator", g.c.norm(t).inf && !g.c.norm(g.g).inf, mc::str("r*G = ", g.c.show(t)));
    big q = 1, h; for (std::size_t i = 0; i < f.dim(); ++i) q *= f.p;
    if (g.r * g.r > 16 * q) {    // then r pins the group order down
        ck(nm, "Hasse's bound", prime_power_hasse(q, g.r, h), hx(h));
        if constexpr (H_cofactor<P>) ck(nm, "cofactor", big(P::cofactor) == h, mc::str(P::cofactor));
    }
    const int n = mc::thorough ? 48 : 14;
    g.mult.push_back(Pt());
    for (int i = 1; i < n; ++i) { g.mult.push_back(g.c.add(g.mult.back(), g.g)); ck(nm, "multiple on the curve", g.c.on(g.mult.back())); }
    std::set<big> ks;
    const unsigned bits = msb(g.r) + 1;
    for (int i = 0; i < (mc::thorough ? 40 : 20); ++i) { ks.insert(i); ks.insert(g.r - i); if (mc::thorough) ks.insert(g.r + i); }
    for (unsigned i = 4; i < bits; i += mc::thorough ? 3 : 29) for (int d = -1; d <= 1; ++d) { big x = (big(1) << i) + d; if (x < g.r) ks.insert(x); }
    for (const big &k : ks) g.scal.push_back({k, g.c.mul(k, g.g)});
    mc::trace(ks.size());
    return g;
}
template<typename G, typename S> void sys(const Group &g, const char *co) {
    if (!mc::mine()) return;
    mc::step("group");
    typedef typename G::value_type E;
    ck(g.nm, "value_bits", G::value_bits == G::field_type::value_bits + 1 && big(G::field_type::modulus) == g.c.f.p && G::field_type::arity == g.c.f.dim(), co);
    ck(g.nm, "types", is<typename E::field_type, typename G::field_type> && is_curve_group<G>::value && is_group_element<E>::value, co);
    Sys<G, S> s; s.c = g.c; s.r = g.r; s.nm = g.nm + " " + co;
    s.run(g.mult, g.scal);
}
typedef coords::affine Aff; typedef coords::jacobian Jac; typedef coords::jacobian_with_a4_0 Ja0; typedef coords::jacobian_with_a4_minus_3 Ja3;
typedef coords::projective Pro; typedef coords::projective_with_a4_minus_3 Pr3; typedef coords::inverted Inv; typedef coords::extended_with_a_minus_1 Ext;
#define SWGROUP(NM, CURVE, GT, PARAMS, A0, A3)                                                                          \
    if (!*only || std::string(NM).find(only) != std::string::npos) { \
        typedef CURVE Cv; typedef Cv::scalar_field_type S;                                                              \
        Group g = params<PARAMS, S, FM::short_weierstrass>(NM);                                                         \
        sys<Cv::GT<Aff>, S>(g, "affine"); sys<Cv::GT<Jac>, S>(g, "jacobian"); sys<Cv::GT<Pro>, S>(g, "projective");      \
        sys<Cv::GT<>, S>(g, "default");                                                                                 \
        if constexpr (A0) sys<Cv::GT<Ja0>, S>(g, "jacobian_with_a4_0");                                                 \
        if constexpr (A3) { sys<Cv::GT<Ja3>, S>(g, "jacobian_with_a4_minus_3"); sys<Cv::GT<Pr3>, S>(g, "projective_with_a4_minus_3"); } \
        ck(NM, "a4 of the default coordinates", (!A0 || g.c.f.zero(g.c.a)) && (!A3 || g.c.a == g.c.f.num(-3)));         \
    }
template<typename T, typename R> void pairing_consts(const char *nm, unsigned k) {
    ck(nm, "embedding degree", T::gt_type::arity == k);
    big p(T::base_field_type::modulus), r(T::scalar_field_type::modulus), x = 1;
    for (unsigned i = 1; i <= k; ++i) { x = x * p % r; ck(nm, "p^i mod r", (x == 1) == (i == k), mc::str(i)); }
}
// G2 of edwards<183> has an element type of its own: inverted coordinates on the twist with coefficients a*twist, d*twist
static void edwards_g2() {
    if (!mc::mine()) return;
    typedef curves::edwards<183> Cv; typedef Cv::g2_type<> G; typedef G::value_type E; typedef Cv::scalar_field_type S;
    typedef cd::edwards_g2_params<183, FM::edwards> EP;
    typedef decltype(E::X) X;
    mc::ScopedSpace sp("edwards_183 G2");
    mc::cur_args = "edwards_183 G2";
    Fld f(conv::tower<big, X>::get());
    const big r(S::modulus);
    V tw = fv(EP::twist);
    Curve c {f, TE, tw, f.mul(f.num(big(cd::edwards_params<183, FM::edwards>::d)), tw)};
    const std::string nm = "edwards_183 G2";
    ck(nm, "twist", fv(E::twist) == tw && fv(EP::c) == c.a && fv(EP::d) == c.b && c.nonsingular());
    Pt g; g.inf = false; g.x = fv(EP::one_fill[0]); g.y = fv(EP::one_fill[1]);
    auto dec = [&](const E &e) { Pt p; V X_ = fv(e.X), Y = fv(e.Y), Z = fv(e.Z); if (f.zero(Y) && f.zero(Z)) return p; p.inf = false; p.x = f.mul(Z, f.inv(X_)); p.y = f.mul(Z, f.inv(Y)); return c.norm(p); };
    ck(nm, "generator", c.on(g) && c.same(dec(E::one()), g) && !c.norm(g).inf);
    ck(nm, "order of the generator", c.norm(c.mul(r, g)).inf);
    ck(nm, "value_bits", G::value_bits == G::field_type::value_bits + 1);
    auto eq = [&](const char *op, const E &e, const Pt &w, const std::string &more) {
        Pt p = dec(e);
        if (!c.same(p, w)) mc::violation(nm + ":" + op, mc::str(nm, " ", op, " ", more, " = ", c.show(p), " want ", c.show(w)));
        MC_CHECK(e.is_well_formed() && e.is_zero() == w.inf, nm + ":" + op + ":predicates", nm, " ", op, " ", more);
    };
    const int n = mc::thorough ? 40 : 12;
    std::vector<Pt> m(1); std::vector<E> e(1, E::zero());
    eq("zero", e[0], Pt(), ""); eq("default", E(), Pt(), "");
    for (int i = 1; i < n; ++i) { mc::state(); m.push_back(c.add(m.back(), g)); e.push_back(e.back() + E::one()); eq("+one", e[i], m[i], mc::str(i)); }
    auto W = [&](int k) { return k >= 0 ? m[k] : c.neg(m[-k]); };
    auto quad = [&](const V &v) { return conv::from<X>(v); };
    for (int i = 0; i < n; ++i) {
        mc::step("neg"); eq("neg", -e[i], W(-i), mc::str(i));
        if (2 * i < n) { mc::step("double"); E d = e[i]; d.double_inplace(); eq("double", d, W(2 * i), mc::str(i)); }
        mc::step("to_affine"); { E a = e[i].to_affine(); Pt w = W(i); if (w.inf) { w.x = f.num(0); w.y = f.num(1); } MC_CHECK(fv(a.X) == w.x && fv(a.Y) == w.y && fv(a.Z) == f.one(), nm + ":to_affine", nm, " to_affine ", i); }
        mc::step("to_projective"); { E p = e[i].to_projective(); eq("to_projective", p, W(i), mc::str(i)); MC_CHECK(p.is_special(), nm + ":is_special", nm, " ", i); }
        for (int j = 0; j < n; ++j) {
            mc::trace();
            MC_CHECK((e[i] == e[j]) == (i == j) && (e[i] != e[j]) == (i != j), nm + ":==", nm, " ", i, "==", j);
            mc::step("-"); eq("-", e[i] - e[j], W(i - j), mc::str(i, "-", j)); { E x = e[i]; x -= e[j]; eq("-=", x, W(i - j), mc::str(i, "-", j)); }
            if (i + j >= n) continue;
            mc::step("+"); eq("+", e[i] + e[j], W(i + j), mc::str(i, "+", j)); { E x = e[i]; x += e[j]; eq("+=", x, W(i + j), mc::str(i, "+", j)); }
            mc::step("mixed_add"); { E x = e[i]; x.mixed_add(j ? e[j].to_projective() : e[j]); eq("mixed_add", x, W(i + j), mc::str(i, "+", j)); }
            mc::step("mixed_add neg"); { E x = e[i]; x.mixed_add(j ? -e[j].to_projective() : e[j]); eq("mixed_add of the negative", x, W(i - j), mc::str(i, "-", j)); }
        }
    }
    mc::step("mul_by_a"); MC_CHECK(fv(E::mul_by_a(quad(g.x))) == f.mul(c.a, g.x), nm + ":mul_by_a", "mul_by_a");
    mc::step("mul_by_d"); MC_CHECK(fv(E::mul_by_d(quad(g.x))) == f.mul(c.b, g.x), nm + ":mul_by_d", "mul_by_d");
    std::set<big> ks;
    for (int i = 0; i < 12; ++i) { ks.insert(i); ks.insert(r - i); }
    for (unsigned i = 4; i < 180; i += 29) ks.insert(big(1) << i);
    for (auto &k : ks) { mc::state(); mc::step("*number"); eq("*number", E::one() * S::integral_type(k), c.norm(c.mul(k, g)), k.str()); }
    mc::sample(mc::str(nm, ": ", n, " multiples pairwise, ", ks.size(), " scalars"));
}
static void sm2() {
    typedef curves::sm2p_v1<256> Cv;
    const std::string nm = "sm2p_v1_256";
    Fld f(conv::tower<big, typename Cv::base_field_type::value_type>::get());
    Curve c {f, SW, f.num(big(Cv::a)), f.num(big(Cv::b))};
    Pt g; g.inf = false; g.x = f.num(big(Cv::x)); g.y = f.num(big(Cv::y));
    const big r(Cv::scalar_field_type::modulus);
    big h;
    ck(nm, "moduli", big(Cv::p) == f.p && big(Cv::q) == r && big(Cv::base_field_modulus) == f.p && big(Cv::scalar_field_modulus) == r);
    ck(nm, "non-singular", c.nonsingular()); ck(nm, "generator on the curve", c.on(g)); ck(nm, "order of the generator", c.mul(r, g).inf); ck(nm, "Hasse's bound", prime_power_hasse(f.p, r, h) && h == 1);
}
// twisted Edwards <-> Montgomery maps of a shipped curve: isomorphisms on the multiples of the generator
template<typename Cv> void forms_map(const Group &te, const Group &mo) {
    typedef typename Cv::scalar_field_type S;
    typedef typename Cv::template g1_type<coords::affine, FM::twisted_edwards> TG; typedef typename Cv::template g1_type<coords::affine, FM::montgomery> MG;
    typedef typename TG::value_type T; typedef typename MG::value_type M;
    if (!mc::mine()) return;
    mc::ScopedSpace sp("maps between the forms: " + te.nm);
    V s = te.c.s(te.c.a, te.c.b), d = te.c.f.sub(te.c.a, te.c.b);    // A = 2(a+d)/(a-d); B is 4/(a-d) up to a square
    ck(te.nm, "A = 2(a+d)/(a-d)", mo.c.m(mo.c.a, d) == te.c.m(te.c.f.num(2), s));
    Sys<TG, S> ts; ts.c = te.c; ts.nm = te.nm; ts.r = te.r;
    Sys<MG, S> ms; ms.c = mo.c; ms.nm = mo.nm; ms.r = mo.r;
    T t = T::zero(); M u = M::zero();
    Pt tm = Pt(), g, um;
    for (std::size_t i = 0; i < te.mult.size(); ++i) {
        mc::state(); mc::trace();
        mc::step("to_montgomery"); M m = t.to_montgomery();
        if (i == 1) { g = ms.dec(m); ck(te.nm, "to_montgomery on the curve", mo.c.on(g) && !g.inf, mo.c.show(g)); }
        ms.eq("to_montgomery", m, tm, mc::str(i));
        mc::step("to_twisted_edwards"); ts.eq("to_montgomery.to_twisted_edwards", m.to_twisted_edwards(), te.mult[i], mc::str(i));
        T v = u.to_twisted_edwards();
        if (i == 1) { um = ts.dec(v); ck(mo.nm, "to_twisted_edwards on the curve", te.c.on(um)); }
        ts.eq("to_twisted_edwards", v, te.c.mul(big(i), um), mc::str(i));
        ms.eq("to_twisted_edwards.to_montgomery", v.to_montgomery(), mo.mult[i], mc::str(i));
        if (i == 0) { t = T::one(); u = M::one(); } else { t += T::one(); u += M::one(); }
        tm = mo.c.add(tm, i == 0 ? ms.dec(T::one().to_montgomery()) : g);
    }
}
template<typename Cv, typename TP, typename MP> void te_mont(const char *nt, const char *nm) {
    typedef typename Cv::scalar_field_type S;
    Group te = params<TP, S, FM::twisted_edwards>(nt), mo = params<MP, S, FM::montgomery>(nm);
    sys<typename Cv::template g1_type<coords::affine, FM::twisted_edwards>, S>(te, "affine");
    sys<typename Cv::template g1_type<>, S>(te, "default");
    sys<typename Cv::template g1_type<coords::affine, FM::montgomery>, S>(mo, "affine");
    forms_map<Cv>(te, mo);
}
int main(int argc, char **argv) {
    mc::init(argc, argv, "shipped curves part " BOOST_PP_STRINGIZE(PART));
    const char *only = std::getenv("ONLY") ? std::getenv("ONLY") : "";
#if PART == 1
    { typedef cd::alt_bn128_g1_params<254, FM::short_weierstrass> Pp; SWGROUP("alt_bn128_254 G1", curves::alt_bn128<254>, g1_type, Pp, 1, 0) }
    { typedef cd::alt_bn128_g2_params<254, FM::short_weierstrass> Pp; SWGROUP("alt_bn128_254 G2", curves::alt_bn128<254>, g2_type, Pp, 1, 0) }
    pairing_consts<curves::alt_bn128<254>, void>("alt_bn128_254", 12);
#endif
#if PART == 2
    { typedef cd::bls12_g1_params<381, FM::short_weierstrass> Pp; SWGROUP("bls12_381 G1", curves::bls12<381>, g1_type, Pp, 1, 0) }
    { typedef cd::bls12_g2_params<381, FM::short_weierstrass> Pp; SWGROUP("bls12_381 G2", curves::bls12<381>, g2_type, Pp, 1, 0) }
    pairing_consts<curves::bls12<381>, void>("bls12_381", 12);
#endif
#if PART == 3
    { typedef cd::bls12_g1_params<377, FM::short_weierstrass> Pp; SWGROUP("bls12_377 G1", curves::bls12<377>, g1_type, Pp, 1, 0) }
    { typedef cd::bls12_g2_params<377, FM::short_weierstrass> Pp; SWGROUP("bls12_377 G2", curves::bls12<377>, g2_type, Pp, 1, 0) }
    pairing_consts<curves::bls12<377>, void>("bls12_377", 12);
#endif
#if PART == 4
    { typedef cd::mnt4_g1_params<298, FM::short_weierstrass> Pp; SWGROUP("mnt4_298 G1", curves::mnt4<298>, g1_type, Pp, 0, 0) }
    { typedef cd::mnt4_g2_params<298, FM::short_weierstrass> Pp; SWGROUP("mnt4_298 G2", curves::mnt4<298>, g2_type, Pp, 0, 0) }
    pairing_consts<curves::mnt4<298>, void>("mnt4_298", 4);
#endif
#if PART == 5
    { typedef cd::pallas_g1_params<FM::short_weierstrass> Pp; SWGROUP("pallas", curves::pallas, g1_type, Pp, 1, 0) }
    { typedef cd::vesta_g1_params<FM::short_weierstrass> Pp; SWGROUP("vesta", curves::vesta, g1_type, Pp, 1, 0) }
#endif
#if PART == 6
    { typedef cd::mnt6_g1_params<298, FM::short_weierstrass> Pp; SWGROUP("mnt6_298 G1", curves::mnt6<298>, g1_type, Pp, 0, 0) }
    { typedef cd::mnt6_g2_params<298, FM::short_weierstrass> Pp; SWGROUP("mnt6_298 G2", curves::mnt6<298>, g2_type, Pp, 0, 0) }
    pairing_consts<curves::mnt6<298>, void>("mnt6_298", 6);
#endif
#if PART == 7
    { typedef cd::secp_k1_g1_params<160, FM::short_weierstrass> Pp; SWGROUP("secp_k1_160", curves::secp_k1<160>, g1_type, Pp, 1, 0) }
    { typedef cd::secp_k1_g1_params<192, FM::short_weierstrass> Pp; SWGROUP("secp_k1_192", curves::secp_k1<192>, g1_type, Pp, 1, 0) }
    { typedef cd::secp_k1_g1_params<224, FM::short_weierstrass> Pp; SWGROUP("secp_k1_224", curves::secp_k1<224>, g1_type, Pp, 1, 0) }
    { typedef cd::secp_k1_g1_params<256, FM::short_weierstrass> Pp; SWGROUP("secp_k1_256", curves::secp_k1<256>, g1_type, Pp, 1, 0) }
#endif
#if PART == 8
    { typedef cd::secp_r1_g1_params<160, FM::short_weierstrass> Pp; SWGROUP("secp_r1_160", curves::secp_r1<160>, g1_type, Pp, 0, 1) }
    { typedef cd::secp_r1_g1_params<192, FM::short_weierstrass> Pp; SWGROUP("secp_r1_192", curves::secp_r1<192>, g1_type, Pp, 0, 1) }
    { typedef cd::secp_r1_g1_params<224, FM::short_weierstrass> Pp; SWGROUP("secp_r1_224", curves::secp_r1<224>, g1_type, Pp, 0, 1) }
    { typedef cd::secp_r1_g1_params<256, FM::short_weierstrass> Pp; SWGROUP("secp_r1_256", curves::secp_r1<256>, g1_type, Pp, 0, 1) }
    { typedef cd::secp_r1_g1_params<384, FM::short_weierstrass> Pp; SWGROUP("secp_r1_384", curves::secp_r1<384>, g1_type, Pp, 0, 1) }
    { typedef cd::secp_r1_g1_params<521, FM::short_weierstrass> Pp; SWGROUP("secp_r1_521", curves::secp_r1<521>, g1_type, Pp, 0, 1) }
#endif
#if PART == 9
    te_mont<curves::jubjub, cd::jubjub_g1_params<FM::twisted_edwards>, cd::jubjub_g1_params<FM::montgomery>>("jubjub", "jubjub montgomery");
    te_mont<curves::babyjubjub, cd::babyjubjub_g1_params<FM::twisted_edwards>, cd::babyjubjub_g1_params<FM::montgomery>>("babyjubjub", "babyjubjub montgomery");
#endif
#if PART == 10
    {
        typedef curves::ed25519 Cv; typedef Cv::scalar_field_type S;
        Group te = params<cd::curve25519_g1_params<FM::twisted_edwards>, S, FM::twisted_edwards>("ed25519"), mo = params<cd::curve25519_g1_params<FM::montgomery>, S, FM::montgomery>("curve25519");
        ck("ed25519", "a = -1", te.c.a == te.c.f.num(-1));
        // RFC 7748: the birational map (u, v) -> (u sqrt(-486664) / v, (u - 1) / (u + 1)) takes one base point to the other
        V one = te.c.f.one(), y = te.c.m(te.c.f.sub(mo.g.x, one), te.c.f.inv(te.c.s(mo.g.x, one)));
        ck("curve25519", "base points correspond", y == te.g.y, show(y));
        ck("curve25519", "coefficients correspond", mo.c.m(mo.c.a, te.c.f.sub(te.c.a, te.c.b)) == te.c.m(te.c.f.num(2), te.c.s(te.c.a, te.c.b)));
        sys<Cv::g1_type<Ext>, S>(te, "extended_with_a_minus_1"); sys<Cv::g1_type<Aff>, S>(te, "affine"); sys<Cv::g1_type<>, S>(te, "default");
        // the group of the Montgomery form and the maps between the two
        typedef curves::curve25519 Cm;
        sys<Cm::g1_type<Aff>, S>(mo, "affine"); sys<Cm::g1_type<>, S>(mo, "default");
        forms_map<Cm>(te, mo);
    }
    {
        typedef curves::edwards<183> Cv; typedef Cv::scalar_field_type S;
        Group te = params<cd::edwards_g1_params<183, FM::twisted_edwards>, S, FM::twisted_edwards>("edwards_183 G1");
        sys<Cv::g1_type<Inv>, S>(te, "inverted"); sys<Cv::g1_type<Aff>, S>(te, "affine"); sys<Cv::g1_type<>, S>(te, "default");
        typedef cd::edwards_params<183, FM::edwards> EP;
        ck("edwards_183", "Edwards and twisted Edwards coefficients", EP::c * EP::c * EP::c * EP::c * te.c.b[0] == big(EP::d) && te.c.a == te.c.f.one());
        pairing_consts<Cv, void>("edwards_183", 6);
    }
    edwards_g2();
    sm2();
#endif
    return mc::finish();
}
