// C29: hash-to-curve maps. PART 1: the simplified SWU map over every suitable tiny curve and every field element.
// PART 2: the shipped suites: maps land on the curves, the isogenies are homomorphisms with the stated kernel treatment.
#include "tinycurve.hpp"
#include "bigcurve.hpp"
#include <nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian/element_g1.hpp>
#include <nil/crypto3/algebra/curves/detail/forms/short_weierstrass/projective/element_g1.hpp>
#include <nil/crypto3/algebra/curves/bls12.hpp>
#include <nil/crypto3/algebra/curves/detail/h2c/h2c_suites.hpp>

namespace nil { namespace crypto3 { namespace algebra { namespace curves { namespace detail {
    template<typename F, typename C>
    struct h2c_suite<tc::group<tc::params_f<F, F, F, forms::short_weierstrass>, forms::short_weierstrass, C>> {
        typedef tc::group<tc::params_f<F, F, F, forms::short_weierstrass>, forms::short_weierstrass, C> group_type;
        typedef typename group_type::value_type group_value_type;
        typedef typename F::value_type field_value_type;
        typedef typename F::integral_type integral_type;
        static inline field_value_type Ai, Bi, Z;
    };
}}}}}
#include <nil/crypto3/algebra/curves/detail/h2c/h2c_m2c.hpp>
namespace cd = curves::detail;

#if PART == 1
template<typename F, typename C>
void tiny_swu(const char *nm, unsigned keep = 1) {
    typedef tc::group<tc::params_f<F, F, F, forms::short_weierstrass>, forms::short_weierstrass, C> G;
    typedef cd::h2c_suite<G> S;
    const auto &t = tc::Tab<F>::get();
    mc::ScopedSpace sp(mc::str("simplified SWU over GF(", t.q, ")"));
    std::vector<bool> sqr(t.q, false);
    for (u32 i = 0; i < t.q; ++i) sqr[t.sq(i)] = true;
    auto sgn = [&](u32 i) { for (long long c : t.vec(i)) if (c) return bool(c & 1); else if (t.d == 1) return false; return false; };
    unsigned n = 0;
    for (u32 a = 1; a < t.q; ++a) for (u32 b = 1; b < t.q; ++b) {
        if (t.add(t.mul(t.num(4), t.mul(a, t.sq(a))), t.mul(t.num(27), t.sq(b))) == 0) continue;
        auto g = [&](u32 x) { return t.add(t.add(t.mul(x, t.sq(x)), t.mul(a, x)), b); };
        for (u32 z = 1; z < t.q; ++z) {
            // the preconditions of RFC 9380, section 6.6.2
            if (sqr[z] || z == t.neg(1)) continue;
            bool irr = true;
            for (u32 x = 0; x < t.q && irr; ++x) irr = g(x) != z;
            if (!irr || !sqr[g(t.div(b, t.mul(z, a)))]) continue;
            if (n++ % keep || !mc::mine()) continue;
            S::Ai = t.el[a]; S::Bi = t.el[b]; S::Z = t.el[z];
            for (u32 u = 0; u < t.q; ++u) {
                u32 zu2 = t.mul(z, t.sq(u)), den = t.add(t.sq(zu2), zu2);
                u32 x1 = den == 0 ? t.div(b, t.mul(z, a)) : t.mul(t.neg(t.div(b, a)), t.add(1, t.inv(den)));
                u32 x = sqr[g(x1)] ? x1 : t.mul(zu2, x1);
                mc::state(); mc::step("m2c_simple_swu");
                mc::cur_args = mc::str(nm, " q=", t.q, " A=", a, " B=", b, " Z=", z, " u=", u);
                auto P = cd::m2c_simple_swu<G>::process(t.el[u]);
                u32 px = t.of(P.X), py = t.of(P.Y);
                mc::trace();
                std::string k = den == 0 ? ":exceptional" : "";
                MC_CHECK(t.sq(py) == g(px), "swu:curve" + k, mc::cur_args, ": (", px, ",", py, ") is not on the curve");
                MC_CHECK(px == x, "swu:x" + k, mc::cur_args, ": x is ", px, ", expected ", x);
                MC_CHECK(py == 0 || sgn(py) == sgn(u), "swu:sign" + k, mc::cur_args, ": y is ", py);
                if constexpr (!std::is_same<C, coords::affine>::value) MC_CHECK(t.of(P.Z) == 1, "swu:Z" + k, mc::cur_args);
            }
        }
    }
    mc::sample(mc::str(nm, " q=", t.q, ": ", n, " suitable (A, B, Z)"));
}
int main(int argc, char **argv) {
    mc::init(argc, argv, "h2c_PART1");
    typedef coords::jacobian J; typedef coords::projective P;
    tiny_swu<tiny::tf<5>, J>("fp"); tiny_swu<tiny::tf<7>, J>("fp"); tiny_swu<tiny::tf<11>, J>("fp"); tiny_swu<tiny::tf<13>, J>("fp");
    tiny_swu<tiny::tf<17>, J>("fp"); tiny_swu<tiny::tf<19>, J>("fp"); tiny_swu<tiny::tf<23>, J>("fp", 2); tiny_swu<tiny::tf<13>, P>("fp");
    tiny_swu<tiny::tf<41>, J>("fp", 16);
    tiny_swu<fields::fp2<tiny::tf<5, 2>>, J>("fp2"); tiny_swu<fields::fp2<tiny::tf<7, -1>>, J>("fp2", mc::thorough ? 8 : 40);
    if (mc::thorough) { tiny_swu<tiny::tf<31>, J>("fp"); tiny_swu<tiny::tf<37>, J>("fp"); tiny_swu<tiny::tf<43>, P>("fp", 4); tiny_swu<fields::fp2<tiny::tf<11, -1>>, J>("fp2", 4000); }
    return mc::finish();
}
#else
template<typename G>
struct Suite {
    typedef cd::h2c_suite<G> S;
    typedef typename S::group_value_type E;
    typedef typename S::field_value_type FV;
    std::string nm;
    Fld f;
    Curve iso, cur;
    big order;    // of both curves
    Suite(const char *n, big ord) : nm(n), f(conv::tower<big, FV>::get()), order(ord) {
        iso = {f, SW, conv::to<big>(S::Ai), conv::to<big>(S::Bi)};
        typedef typename G::params_type P;
        cur = {f, SW, V(f.dim(), big(0)), [] { if constexpr (std::is_same<std::decay_t<decltype(P::b)>, FV>::value) return conv::to<big>(P::b); else return V{big(P::b)}; }()};
    }
    Pt pt(const E &e) const {
        Pt p; if (e.is_zero()) return p;
        auto a = e.to_affine();
        p.inf = false; p.x = conv::to<big>(a.X); p.y = conv::to<big>(a.Y);
        return p;
    }
    E el(const Pt &p) const { return p.inf ? E() : E(conv::from<FV>(p.x), conv::from<FV>(p.y), FV::one()); }
    Pt map(const Pt &p) { mc::step("iso_map"); mc::trace(); return pt(cd::iso_map<G>::process(el(p))); }
    bool sgn(const V &v) const { for (auto &c : v) { if (c != 0) return c % 2 != 0; if (v.size() == 1) break; } return false; }
    bool is_sq(const V &v) const { big q = 1; for (std::size_t i = 0; i < f.dim(); ++i) q *= f.p; return f.zero(v) || f.pow(v, big((q - 1) / 2)) == f.one(); }
    V root(const V &v) const { return conv::to<big>(conv::from<FV>(v).sqrt()); }
    // RFC 9380, 6.6.2
    Pt swu(const V &u) const {
        V z = conv::to<big>(S::Z), zu2 = f.mul(z, f.mul(u, u)), den = f.add(f.mul(zu2, zu2), zu2);
        V x1 = f.zero(den) ? f.mul(iso.b, f.inv(f.mul(z, iso.a))) : f.mul(f.neg(f.mul(iso.b, f.inv(iso.a))), f.add(f.one(), f.inv(den)));
        auto g = [&](const V &x) { return f.add(f.add(f.mul(x, f.mul(x, x)), f.mul(iso.a, x)), iso.b); };
        V x = is_sq(g(x1)) ? x1 : f.mul(zu2, x1), y = root(g(x));
        if (f.mul(y, y) != g(x)) mc::violation("h2c:root", nm + ": sqrt");
        if (sgn(y) != sgn(u)) y = f.neg(y);
        Pt p; p.inf = false; p.x = x; p.y = y;
        return p;
    }
    void run(const std::vector<V> &us, const std::vector<Pt> &extra) {
        std::vector<Pt> pts, im;
        {
            mc::ScopedSpace sp(nm + ": maps of structured field elements");
            for (auto &u : us) {
                mc::state(); mc::step("m2c_simple_swu"); mc::trace();
                mc::cur_args = show(u);
                auto e = cd::m2c_simple_swu<G>::process(conv::from<FV>(u));
                Pt p; p.inf = false; p.x = conv::to<big>(e.X); p.y = conv::to<big>(e.Y);
                Pt w = swu(u);
                MC_CHECK(iso.on(p), "h2c:swu:curve:" + nm, nm, " u=", show(u), " is not mapped to the isogenous curve");
                MC_CHECK(iso.same(p, w), "h2c:swu:" + nm, nm, " u=", show(u), " maps to ", iso.show(p), ", expected ", iso.show(w));
                mc::step("map_to_curve");
                auto m = cd::map_to_curve<G>::process(conv::from<FV>(u));
                Pt mm = pt(m);
                MC_CHECK(cur.on(mm), "h2c:map:curve:" + nm, nm, " u=", show(u), " is not mapped to the curve");
                MC_CHECK(cur.same(mm, map(w)), "h2c:map:" + nm, nm, " u=", show(u), ": map_to_curve is not the isogeny of the simplified SWU map");
                if (pts.size() < (mc::thorough ? 24u : 10u)) pts.push_back(w);
            }
        }
        {
            mc::ScopedSpace sp(nm + ": isogeny, pairwise sums");
            for (auto &e : extra) pts.push_back(e);
            for (auto &p : pts) {
                if (!iso.on(p)) { mc::violation("h2c:model", nm + ": model point off the curve"); return; }
                im.push_back(map(p));
                MC_CHECK(cur.on(im.back()), "h2c:iso:curve:" + nm, nm, ": the image of ", iso.show(p), " is not on the curve");
            }
            for (std::size_t i = 0; i < pts.size(); ++i) {
                mc::state();
                Pt n = map(iso.neg(pts[i]));
                MC_CHECK(cur.same(n, cur.neg(im[i])), "h2c:iso:neg:" + nm, nm, ": image of the opposite of ", iso.show(pts[i]));
                for (std::size_t j = i; j < pts.size(); ++j) {
                    mc::state();
                    Pt s = iso.add(pts[i], pts[j]);
                    if (s.inf) continue;
                    Pt got = map(s), want = cur.add(im[i], im[j]);
                    MC_CHECK(cur.same(got, want), "h2c:iso:sum:" + nm + (want.inf ? ":pole" : ""), nm, ": image of ", iso.show(pts[i]), " + ", iso.show(pts[j]), " is ", cur.show(got), ", expected ", cur.show(want));
                }
            }
            mc::sample(mc::str(nm, ": ", pts.size(), " points, ", extra.size(), " of small order"));
        }
    }
    // being a homomorphism with that kernel leaves the automorphisms of the curve (j = 0: six) open: one point pins them
    void pin(const V &u, const V &x, const V &y) {
        mc::state(); mc::step("iso_map");
        Pt q = map(swu(u)), w; w.inf = false; w.x = x; w.y = y;
        MC_CHECK(cur.same(q, w), "h2c:iso:pinned:" + nm, nm, ": the image of u = ", show(u), " is ", cur.show(q));
    }
};
int main(int argc, char **argv) {
    mc::init(argc, argv, "h2c_PART2");
    typedef curves::bls12_381 B;
    const big z("0xd201000000010000"), p(B::base_field_type::modulus), r(B::scalar_field_type::modulus);
    if (mc::shard == 0) {
        typedef Suite<B::g1_type<>> S1;
        S1 s("bls12-381 G1", p + 1 - (1 - z));
        std::vector<V> us;
        for (int i = -(mc::thorough ? 40 : 8); i <= (mc::thorough ? 40 : 8); ++i) us.push_back(s.f.num(i));
        for (unsigned k = 8; k < 381; k += mc::thorough ? 7 : 61) { us.push_back(s.f.num(big(1) << k)); us.push_back(s.f.num(-(big(1) << k))); }
        V e = s.f.neg(s.f.inv(conv::to<big>(S1::S::Z)));
        if (s.is_sq(e)) us.push_back(s.root(e));
        unsigned poles = 0;
        // points of order 11: the kernel of the isogeny is among them
        std::vector<Pt> ex;
        for (int i = 1; i < 12 && ex.size() < 24; ++i) {
            big c = s.order; while (c % 11 == 0) c /= 11;
            Pt t = s.iso.mul(c, s.swu(s.f.num(i)));
            while (!t.inf && !s.iso.mul(11, t).inf) t = s.iso.mul(11, t);
            if (t.inf) continue;
            bool have = false;
            for (auto &x : ex) have = have || s.iso.same(x, t);
            Pt m = t;
            if (!have) for (int k = 1; k < 11; ++k) { ex.push_back(m); m = s.iso.add(m, t); }
            if (ex.size() >= 20) break;
        }
        // field elements that the simplified SWU map sends to them: Z u^2 = w with w^2 + w = c (x1) or w^2 + (1 - k) w + 1 - k = 0 (x2)
        for (auto &t : ex) {
            V k = s.f.neg(s.f.mul(t.x, s.f.mul(s.iso.a, s.f.inv(s.iso.b)))), one = s.f.one();
            V cs[2][2] = {{one, s.f.neg(s.f.inv(s.f.sub(k, one)))}, {s.f.sub(one, k), s.f.sub(one, k)}};
            for (auto &q : cs) {    // w^2 + q0 w + q1 = 0
                V d = s.f.sub(s.f.mul(q[0], q[0]), s.f.mul(s.f.num(4), q[1]));
                if (!s.is_sq(d)) continue;
                V rt = s.root(d);
                for (int sg = 0; sg < 2; ++sg) {
                    V w = s.f.mul(s.f.sub(sg ? rt : s.f.neg(rt), q[0]), s.f.inv(s.f.num(2))), u2 = s.f.mul(w, s.f.inv(conv::to<big>(S1::S::Z)));
                    if (!s.is_sq(u2)) continue;
                    V u = s.root(u2);
                    for (int k2 = 0; k2 < 2; ++k2, u = s.f.neg(u)) if (s.iso.same(s.swu(u), t)) { us.push_back(u); ++poles; }
                }
            }
        }
        mc::sample(mc::str("G1: ", poles, " field elements mapped to points of order 11"));
        MC_CHECK(s.iso.mul(s.order, s.swu(s.f.num(1))).inf, "h2c:order:G1", "order of the isogenous curve");
        s.run(us, ex);
        // RFC 9380, J.9.1, msg = "", Q0
        s.pin(V{big("0x0ba14bd907ad64a016293ee7c2d276b8eae71f25a4b941eece7b0d89f17f75cb3ae5438a614fb61d6835ad59f29c564f")},
              V{big("0x11a3cce7e1d90975990066b2f2643b9540fa40d6137780df4e753a8054d07580db3b7f1f03396333d4a359d1fe3766fe")},
              V{big("0x0eeaf6d794e479e270da10fdaf768db4c96b650a74518fc67b04b03927754bac66f3ac720404f339ecdcc028afa091b7")});
    }
    if (mc::shard == 1 || mc::shards == 1) {
        typedef Suite<B::g2_type<>> S2;
        const big h2("0x5d543a95414e7f1091d50792876a202cd91de4547085abaa68a205b2e5a7ddfa628f1cb4d9e82ef21537e293a6691ae1616ec6e786f0c70cf1c38e31c7238e5");
        S2 s("bls12-381 G2", h2 * r);
        std::vector<V> us;
        for (int i = -2; i <= 2; ++i) for (int j = -2; j <= 2; ++j) us.push_back(V{model::modp<big>(i, p), model::modp<big>(j, p)});
        for (unsigned k = 8; k < 381; k += mc::thorough ? 23 : 120) { us.push_back(V{big(1) << k, 0}); us.push_back(V{0, p - (big(1) << k)}); }
        V e = s.f.neg(s.f.inv(conv::to<big>(S2::S::Z)));
        if (s.is_sq(e)) us.push_back(s.root(e));
        std::vector<Pt> ex;
        for (int i = 1; i < 6 && ex.size() < 8; ++i) {
            big c = s.order; while (c % 3 == 0) c /= 3;
            Pt t = s.iso.mul(c, s.swu(V{i, 1}));
            while (!t.inf && !s.iso.mul(3, t).inf) t = s.iso.mul(3, t);
            if (t.inf) continue;
            bool have = false;
            for (auto &x : ex) have = have || s.iso.same(x, t);
            if (!have) { ex.push_back(t); ex.push_back(s.iso.neg(t)); }
        }
        MC_CHECK(s.iso.mul(s.order, s.swu(V{1, 1})).inf, "h2c:order:G2", "order of the isogenous curve");
        s.run(us, ex);
        // RFC 9380, J.10.1, msg = "", Q0
        s.pin(V{big("0x03dbc2cce174e91ba93cbb08f26b917f98194a2ea08d1cce75b2b9cc9f21689d80bd79b594a613d0a68eb807dfdc1cf8"), big("0x05a2acec64114845711a54199ea339abd125ba38253b70a92c876df10598bd1986b739cad67961eb94f7076511b3b39a")},
              V{big("0x019ad3fc9c72425a998d7ab1ea0e646a1f6093444fc6965f1cad5a3195a7b1e099c050d57f45e3fa191cc6d75ed7458c"), big("0x171c88b0b0efb5eb2b88913a9e74fe111a4f68867b59db252ce5868af4d1254bfab77ebde5d61cd1a86fb2fe4a5a1c1d")},
              V{big("0x0ba10604e62bdd9eeeb4156652066167b72c8d743b050fb4c1016c31b505129374f76e03fa127d6a156213576910fef3"), big("0x0eb22c7a543d3d376e9716a49b72e79a89c9bfe9feee8533ed931cbb5373dde1fbcd7411d8052e02693654f71e15410a")});
    }
    return mc::finish();
}
#endif
