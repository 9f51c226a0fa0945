// C28: random elements. The generator is the only source of nondeterminism, so every sequence of its outputs up to a
// depth is explored (stateless search over choice points) and the exact probability of every result is accumulated.
#include <mc.hpp>
#include <nil/crypto3/algebra/type_traits.hpp>
#include <nil/crypto3/algebra/curves/detail/forms/short_weierstrass/coordinates.hpp>
#include <nil/crypto3/algebra/curves/detail/forms/twisted_edwards/coordinates.hpp>
#include <nil/crypto3/algebra/curves/detail/forms/short_weierstrass/element_g1_affine.hpp>
#include <nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian/element_g1.hpp>
#include <nil/crypto3/algebra/curves/detail/forms/short_weierstrass/projective/element_g1.hpp>
#include <nil/crypto3/algebra/curves/detail/scalar_mul.hpp>
#include <nil/crypto3/algebra/random_element.hpp>
#include <nil/crypto3/algebra/curves/bls12.hpp>
#include <nil/crypto3/algebra/curves/mnt4.hpp>
#include <nil/crypto3/algebra/curves/mnt6.hpp>
#include <nil/crypto3/algebra/curves/pallas.hpp>
#include <nil/crypto3/algebra/curves/ed25519.hpp>
#include "tinycurve.hpp"
typedef unsigned __int128 u128;
struct Cut { };
struct Choices {
    std::vector<u32> path;
    std::vector<u32> allowed;    // values explored per draw
    std::size_t pos = 0, depth = 0;
    u32 next() {
        if (pos == depth) throw Cut();
        if (pos == path.size()) path.push_back(0);
        return allowed[path[pos++]];
    }
    bool advance() {
        path.resize(pos);
        while (!path.empty() && path.back() + 1 == allowed.size()) path.pop_back();
        if (path.empty()) return false;
        ++path.back();
        return true;
    }
};
static Choices ch;
template<u32 B>
struct Eng {
    typedef u32 result_type;
    static constexpr u32 min() { return 0; }
    static constexpr u32 max() { return B - 1; }
    u32 operator()() { return ch.next(); }
};
template<typename E> static std::vector<u32> key(const E &e) { return conv::to<u32>(e); }

// every draw sequence of length <= depth; returns the mass of every result in units of B^-depth
template<u32 B, typename Fn>
static std::map<std::vector<u32>, u128> explore(std::size_t depth, Fn f, u128 &cut, u64 &runs) {
    std::map<std::vector<u32>, u128> m;
    ch = Choices();
    ch.depth = depth;
    for (u32 i = 0; i < B; ++i) ch.allowed.push_back(i);
    cut = 0; runs = 0;
    std::vector<u128> w(depth + 1, 1);
    for (std::size_t i = depth; i-- > 0;) w[i] = w[i + 1] * B;    // w[d] = B^(depth-d)
    do {
        ch.pos = 0;
        ++runs;
        mc::step("random_element");
        mc::trace();
        try {
            auto k = f();
            m[k] += w[ch.pos];
        } catch (Cut &) { cut += 1; }
    } while (ch.advance());
    return m;
}
template<u32 B, typename Fn>
static void uniform(const std::string &nm, std::size_t depth, u64 size, Fn f) {
    if (!mc::mine()) return;
    mc::cur_args = nm;
    u128 cut, total = 0;
    u64 runs;
    auto m = explore<B>(depth, f, cut, runs);
    mc::state(m.size());
    MC_CHECK(m.size() == size, "random:support:" + nm, nm, ": ", m.size(), " results instead of ", size, " over all draw sequences of length ", depth);
    if (m.empty()) return;
    u128 first = m.begin()->second;
    for (auto &x : m) total += x.second;
    for (auto &x : m) {
        if (x.second != first) {
            mc::violation("random:uniform:" + nm, mc::str(nm, ": ", show(x.first), " has ", u64(x.second), " and ", show(m.begin()->first), " has ", u64(first), " of the draw sequences of length ", depth));
            break;
        }
    }
    u128 all = 1;
    for (std::size_t i = 0; i < depth; ++i) all *= B;
    MC_CHECK(total + cut == all, "random:mass", nm);
    mc::sample(mc::str(nm, ": ", runs, " draw sequences, ", m.size(), " results, each ", u64(first), "/", u64(all)));
}
template<u32 B, typename F>
static void field(const char *nm, std::size_t depth, u64 size) {
    mc::ScopedSpace sp("tiny fields: every sequence of generator outputs");
    uniform<B>(mc::str(nm, " generator of ", B, " values"), depth, size, [] { Eng<B> e; return key(alg::random_element<F>(e)); });
}
// an extension element takes one independent coordinate per draw: draws restricted to a few values
template<u32 B, typename F>
static void coords_only(const char *nm, std::vector<u32> vals, std::size_t dim) {
    if (!mc::mine()) return;
    mc::ScopedSpace sp("degree 12: every sequence of generator outputs from a subset");
    ch = Choices();
    ch.depth = dim;
    ch.allowed = vals;
    std::set<std::vector<u32>> seen;
    u64 n = 0;
    do {
        ch.pos = 0;
        mc::step("random_element"); mc::trace();
        try {
            Eng<B> e;
            auto k = key(alg::random_element<F>(e));
            ++n;
            MC_CHECK(seen.insert(k).second, std::string("random:distinct:") + nm, nm, " two draw sequences give ", show(k));
            MC_CHECK(ch.pos == dim, std::string("random:draws:") + nm, nm, " took ", ch.pos, " draws");
        } catch (Cut &) { mc::violation(std::string("random:draws:") + nm, mc::str(nm, " takes more than ", dim, " draws of a generator whose range is the field")); return; }
    } while (ch.advance());
    mc::state(n);
}
template<typename F, typename S, typename C>
struct Curve {
    typedef tc::elem<F, forms::short_weierstrass, C, F, S> E;
    typedef tc::params_f<F, F, S, forms::short_weierstrass> Pm;
    typedef tc::group<Pm, forms::short_weierstrass, C> G;
    static constexpr bool aff = std::is_same<C, coords::affine>::value, proj = std::is_same<C, coords::projective>::value;
    tc::Model<F> m;
    const tc::Tab<F> &t = tc::Tab<F>::get();
    u32 decode(const E &e) const {
        u32 x = t.of(e.X), y = t.of(e.Y);
        if constexpr (aff) return x == 0 && y == 0 ? 0 : m.find(x, y);
        else {
            u32 z = t.of(e.Z), i = t.inv(z);
            if (z == 0) return 0;
            if constexpr (proj) return m.find(t.mul(x, i), t.mul(y, i));
            else return m.find(t.mul(x, t.sq(i)), t.mul(y, t.mul(i, t.sq(i))));
        }
    }
    template<u32 B>
    void run(const char *nm, std::size_t depth) {
        mc::ScopedSpace sp("tiny curves: every sequence of generator outputs");
        for (u32 a = 0; a < t.q; ++a) for (u32 b = 1; b < t.q; ++b) {
            if (!m.weierstrass(a, b) || u64(m.n()) != S::p) continue;
            Pm::a = t.el[a]; Pm::b = t.el[b];
            Pm::zero_fill = {t.el[0], t.el[1]};
            if (aff) Pm::zero_fill = {t.el[0], t.el[0]};
            Pm::one_fill = {t.el[m.pts[1].x], t.el[m.pts[1].y]};
            uniform<B>(mc::str(nm, " y^2=x^3+", a, "x+", b, " generator of ", B, " values"), depth, S::p, [&] { Eng<B> e; return std::vector<u32> {decode(alg::random_element<G>(e))}; });
        }
    }
};
// a distribution that records its bounds and returns its ends and values near them
template<typename I>
struct Rec {
    typedef I result_type;
    static inline std::vector<std::pair<big, big>> bounds;
    static inline std::vector<big> given;
    I lo, hi;
    Rec(I a, I b) : lo(a), hi(b) { bounds.push_back({big(a), big(b)}); }
    template<typename R> I operator()(R &r) {
        u32 k = r();
        big v = k == 0 ? big(lo) : k == 1 ? big(hi) : k == 2 ? big(lo) + 1 : (big(lo) + big(hi)) / 2;
        given.push_back(v);
        return I(v);
    }
};
template<typename F>
static void custom(const char *nm, std::size_t dim, std::size_t maxdim) {
    if (!mc::mine()) return;
    mc::ScopedSpace sp("shipped fields: bounds and use of a given distribution");
    typedef typename F::integral_type I;
    ch = Choices();
    ch.depth = dim;
    ch.allowed = {0, 1, 2, 3};
    if (dim > maxdim) ch.allowed = {0, 1};
    do {
        ch.pos = 0;
        Rec<I>::bounds.clear(); Rec<I>::given.clear();
        mc::state(); mc::step("random_element"); mc::trace();
        try {
            Eng<4> e;
            auto x = alg::random_element<F, Rec<I>>(e);
            auto v = conv::to<big>(x);
            MC_CHECK(v.size() == dim && Rec<I>::given.size() == dim && v == Rec<I>::given, std::string("random:custom:") + nm, nm, " does not take its coordinates from the distribution in order: ", show(v));
            for (auto &b : Rec<I>::bounds) MC_CHECK(b.first == 0 && b.second == big(F::modulus) - 1, std::string("random:bounds:") + nm, nm, " draws from ", b.first, " to ", b.second);
        } catch (Cut &) { mc::violation(std::string("random:custom:") + nm, mc::str(nm, " takes more draws than coordinates")); return; }
    } while (ch.advance());
}
int main(int argc, char **argv) {
    mc::init(argc, argv, "random_elem");
    bool T = mc::thorough;
    typedef tiny::tf<3, -1> f3; typedef tiny::tf<5, 2> f5; typedef tiny::tf<7, -1, 2, 1> f7; typedef tiny::tf<13, 2, 0, 1> f13; typedef tiny::tf<7, 3> f7c;
    field<3, f3>("fp 3", 6, 3); field<2, f3>("fp 3", 12, 3); field<4, f3>("fp 3", 6, 3); field<7, f3>("fp 3", 5, 3); field<256, f3>("fp 3", 2, 3);
    field<5, f5>("fp 5", 5, 5); field<2, f5>("fp 5", 12, 5); field<3, f5>("fp 5", 8, 5); field<16, f5>("fp 5", 4, 5);
    field<7, f7>("fp 7", 4, 7); field<2, f7>("fp 7", 12, 7); field<3, f7>("fp 7", 8, 7); field<256, f7>("fp 7", 2, 7);
    field<13, f13>("fp 13", 4, 13); field<2, f13>("fp 13", 14, 13); field<4, f13>("fp 13", 8, 13); field<256, f13>("fp 13", 2, 13);
    field<61, tiny::tf<61>>("fp 61", 2, 61); field<2, tiny::tf<61>>("fp 61", T ? 18 : 15, 61); field<256, tiny::tf<251>>("fp 251", 2, 251);
    field<3, fields::fp2<f3>>("fp2 3", 5, 9); field<2, fields::fp2<f3>>("fp2 3", 14, 9); field<5, fields::fp2<f5>>("fp2 5", 4, 25); field<7, fields::fp2<f7>>("fp2 7", 4, 49); field<16, fields::fp2<f5>>("fp2 5", 4, 25);
    field<7, fields::fp3<f7c>>("fp3 7", 4, 343); field<2, fields::fp3<f7c>>("fp3 7", T ? 18 : 15, 343);
    field<5, fields::fp4<f5>>("fp4 5", 5, 625);
    field<7, fields::fp6_2over3<f7c>>("fp6 2 over 3, 7", 6, 117649); field<7, fields::fp6_3over2<f7>>("fp6 3 over 2, 7", 6, 117649);
    coords_only<7, fields::fp12_2over3over2<f7>>("fp12 7", {0, 6}, 12);
    coords_only<13, fields::fp12_2over3over2<f13>>("fp12 13", T ? std::vector<u32> {0, 1, 12} : std::vector<u32> {3, 11}, 12);
    { Curve<tiny::tf<5, 2>, tiny::tf<7, 3>, coords::jacobian> c; c.run<7>("jacobian q=5", 3); c.run<2>("jacobian q=5", 10); }
    { Curve<tiny::tf<7, 3>, tiny::tf<5, 2>, coords::projective> c; c.run<5>("projective q=7", 3); c.run<3>("projective q=7", 7); }
    { Curve<tiny::tf<7, 3>, tiny::tf<11, 2>, coords::affine> c; c.run<11>("affine q=7", 2); c.run<2>("affine q=7", 12); }
    { Curve<tiny::tf<13, 2>, tiny::tf<7, 3>, coords::jacobian> c; c.run<7>("jacobian q=13", 3); c.run<256>("jacobian q=13", 1); }
    { Curve<tiny::tf<13, 2>, tiny::tf<19, 2>, coords::projective> c; c.run<19>("projective q=13", 2); c.run<4>("projective q=13", 8); }
    using namespace alg::curves;
    custom<bls12<381>::base_field_type>("bls12_381 base", 1, 6); custom<bls12<381>::scalar_field_type>("bls12_381 scalar", 1, 6);
    custom<pallas::base_field_type>("pallas base", 1, 6); custom<pallas::scalar_field_type>("pallas scalar", 1, 6); custom<ed25519::base_field_type>("ed25519 base", 1, 6);
    custom<bls12<381>::g2_type<>::field_type>("bls12_381 fp2", 2, 6); custom<bls12<381>::gt_type>("bls12_381 fp12", 12, 6);
    custom<mnt4<298>::g2_type<>::field_type>("mnt4 fp2", 2, 6); custom<mnt4<298>::gt_type>("mnt4 fp4", 4, 6);
    custom<mnt6<298>::g2_type<>::field_type>("mnt6 fp3", 3, 6); custom<mnt6<298>::gt_type>("mnt6 fp6", 6, 6);
    return mc::finish();
}
