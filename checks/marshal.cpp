// C30: serialisation. PART 1: field elements, every element and every octet string of tiny fields, structured elements of
// shipped ones. PART 2: BLS12-381 points in the Zcash format, in every representation of a closed set of points.
#define BOOST_ENABLE_ASSERT_HANDLER
#include <stdexcept>
#include <string>
namespace boost {
    // the library states its preconditions as assertions: a failing one on a valid input is a violation
    [[noreturn]] inline void assertion_failed(char const *e, char const *, char const *, long) { throw std::logic_error(std::string("assertion ") + e); }
    [[noreturn]] inline void assertion_failed_msg(char const *e, char const *, char const *, char const *, long) { throw std::logic_error(std::string("assertion ") + e); }
}
#include "tiny.hpp"
#include "bigcurve.hpp"
#include <nil/crypto3/algebra/marshalling.hpp>
#include <nil/crypto3/algebra/fields/pallas/base_field.hpp>
#include <nil/crypto3/algebra/fields/alt_bn128/base_field.hpp>
#include <nil/crypto3/algebra/fields/goldilocks64/base_field.hpp>
#include <nil/crypto3/algebra/fields/secp/secp_r1/base_field.hpp>
#include <nil/crypto3/algebra/fields/mnt4/base_field.hpp>
#include <nil/crypto3/algebra/fields/curve25519/base_field.hpp>
#include <deque>
namespace mar = nil::marshalling;
typedef std::vector<std::uint8_t> Oct;
static std::string hex(const Oct &o) { std::string s; char b[3]; for (auto c : o) { std::snprintf(b, 3, "%02x", c); s += b; } return s; }
template<typename C> Oct oct(const C &c) { return Oct(c.begin(), c.end()); }

// the model: each coordinate little-endian in ceil(bits / 8) octets
static Oct enc(const std::vector<big> &v, std::size_t w) { Oct o; for (big x : v) for (std::size_t i = 0; i < w; ++i) { o.push_back(static_cast<std::uint8_t>(big(x & 255))); x >>= 8; } return o; }
static std::vector<big> dec(const Oct &o, std::size_t w) { std::vector<big> v; for (std::size_t i = 0; i < o.size(); i += w) { big x = 0; for (std::size_t j = w; j-- > 0;) x = x * 256 + o[i + j]; v.push_back(x); } return v; }

#if PART == 1
template<typename F>
struct Fl {
    typedef typename F::value_type E;
    typedef mar::bincode::field<F> M;
    std::string nm;
    big p = conv::tower<big, E>::get().p;
    std::size_t w = M::modulus_chunks, n = M::field_octets_num / w;
    Fl(const std::string &s) : nm(s) {
        std::size_t bits = msb(p) + 1;
        MC_CHECK(w == (bits + 7) / 8 && n == F::arity && M::get_element_size() == n * w, "field:size:" + kind(), nm, " takes ", M::get_element_size(), " octets");
    }
    std::string kind() const { return n == 1 ? "fp" : mc::str("fp", n); }
    void write(const std::vector<big> &v) {
        E e = conv::from<E>(v);
        Oct want = enc(v, w);
        for (int fill : {0x00, 0xff, 0xa5}) {
            mc::state(); mc::step("field_element_to_bytes"); mc::trace();
            Oct out(n * w + 2, static_cast<std::uint8_t>(fill));
            auto r = M::field_element_to_bytes(e, out.begin() + 1, out.begin() + 1 + n * w);
            Oct got(out.begin() + 1, out.end() - 1);
            MC_CHECK(got == want, "field:write:" + kind() + (fill ? ":reused buffer" : ""), nm, " ", show(v), " is written as ", hex(got), " into a buffer of ", fill, ", expected ", hex(want));
            MC_CHECK(r == n * w && out.front() == fill && out.back() == fill, "field:write:extent:" + kind(), nm, " ", show(v), " reports ", r, " octets or writes beyond its range");
        }
        read(want);
    }
    void read(const Oct &o) {
        mc::state(); mc::step("field_element_from_bytes"); mc::trace();
        auto v = dec(o, w);
        bool ok = true;
        for (auto &x : v) ok = ok && x < p;
        auto r = M::field_element_from_bytes(o.begin(), o.end());
        MC_CHECK(r.first == ok, "field:valid:" + kind() + (ok ? "" : ":out of range"), nm, " octets ", hex(o), " are reported as ", r.first ? "valid" : "invalid");
        if (ok) MC_CHECK(conv::to<big>(r.second) == v, "field:read:" + kind(), nm, " octets ", hex(o), " are read as ", show(conv::to<big>(r.second)));
        std::deque<std::uint8_t> q(o.begin(), o.end());
        auto r2 = M::field_element_from_bytes(q.begin(), q.end());
        MC_CHECK(r2.first == r.first && r2.second == r.second, "field:read:iterator:" + kind(), nm, " octets ", hex(o));
    }
};
// every element and every octet string of up to two octets
template<typename F>
void every(const char *s) {
    mc::ScopedSpace sp("tiny fields: every element and every octet string");
    Fl<F> f(s);
    all_vectors(f.n, u64(f.p), [&](const std::vector<long long> &v) { if (mc::mine()) f.write(std::vector<big>(v.begin(), v.end())); });
    if (f.n * f.w <= 2) for (unsigned x = 0; x < (1u << (8 * f.n * f.w)); ++x) if (mc::mine()) { Oct o; for (std::size_t i = 0; i < f.n * f.w; ++i) o.push_back(std::uint8_t(x >> (8 * i))); f.read(o); }
    mc::sample(mc::str(s, ": ", f.n * f.w, " octets"));
}
// sparse elements, and octet strings with one or two octets at the ends of the range in every coordinate
template<typename F>
void some(const char *s, unsigned k) {
    mc::ScopedSpace sp("structured elements and octet strings");
    Fl<F> f(s);
    std::vector<big> vals {1, 127, 128, 255, 256, 65535, 65536, f.p - 1, f.p / 2, big(1) << msb(f.p)};
    for (std::size_t i = 8; i <= msb(f.p); i += (mc::thorough ? 8 : 56)) { vals.push_back(big(1) << i); vals.push_back((big(1) << i) - 1); }
    std::vector<big> vv; for (auto &x : vals) if (x > 0 && x < f.p) vv.push_back(x);
    sparse_vectors<big>(f.n, k, vv, [&](const std::vector<big> &v) { if (mc::mine()) f.write(v); });
    std::vector<big> dense; for (std::size_t i = 0; i < f.n; ++i) dense.push_back(vv[(i * 3 + 1) % vv.size()]);
    f.write(dense);
    std::vector<big> edge {f.p, f.p + 1, f.p - 1, f.p * 2 - 1, (big(1) << (8 * f.w)) - 1};
    for (std::size_t b = msb(f.p) - 1; b < 8 * f.w; ++b) { edge.push_back(big(1) << b); edge.push_back((big(1) << b) + 5); edge.push_back((big(1) << b) + f.p % (big(1) << b)); }
    for (auto &e : edge) if (e < (big(1) << (8 * f.w))) for (std::size_t i = 0; i < f.n; ++i) if (mc::mine()) { auto v = dense; v[i] = e; f.read(enc(v, f.w)); }
}
int main(int argc, char **argv) {
    mc::init(argc, argv, "marshal_PART1");
    every<tiny::tf<3>>("GF(3)"); every<tiny::tf<13>>("GF(13)"); every<tiny::tf<127>>("GF(127)"); every<tiny::tf<251>>("GF(251)"); every<tiny::tf<257>>("GF(257)"); every<tiny::tf<1021>>("GF(1021)");
    every<tiny::tf<32749>>("GF(32749)"); every<tiny::tf<65521>>("GF(65521)");
    every<fields::fp2<tiny::tf<13, 2>>>("GF(13^2)"); every<fields::fp2<tiny::tf<103, -1>>>("GF(103^2)"); every<fields::fp3<tiny::tf<13, 2>>>("GF(13^3)"); every<fields::fp4<tiny::tf<5, 2>>>("GF(5^4)");
    every<fields::fp6_2over3<tiny::tf<3, 2>>>("GF(3^6)"); every<fields::fp6_3over2<tiny::tf<3, 2, 1, 1>>>("GF(3^6)");
    some<tiny::tf<2147483647ull>>("GF(2^31-1)", 1); some<fields::fp2<tiny::tf<257, 3>>>("GF(257^2)", 2);
    some<fields::bls12_base_field<381>>("bls12-381 fq", 1); some<fields::bls12_scalar_field<381>>("bls12-381 fr", 1); some<fields::pallas_base_field>("pallas fq", 1);
    some<fields::alt_bn128_base_field<254>>("alt_bn128 fq", 1); some<fields::goldilocks64_base_field>("goldilocks", 1); some<fields::secp_r1_base_field<256>>("secp256r1 fq", 1);
    some<fields::mnt4_base_field<298>>("mnt4 fq", 1); some<fields::curve25519_base_field>("curve25519 fq", 1);
    some<fields::fp2<fields::bls12_base_field<381>>>("bls12-381 fq2", 1); some<fields::fp6_3over2<fields::bls12_base_field<381>>>("bls12-381 fq6", 1);
    some<fields::fp12_2over3over2<fields::bls12_base_field<381>>>("bls12-381 fq12", 1);
    return mc::finish();
}
#else
typedef alg::curves::bls12_381 B;
typedef mar::curve_element_serializer<B> S;
typedef mar::bincode::curve<B> BC;
template<typename G> struct Pts {
    typedef typename G::value_type E;
    typedef typename E::field_type::value_type FV;
    std::string nm;
    Fld f;
    Curve c;
    static constexpr bool g2 = G::value_type::field_type::arity == 2;
    Pts(const char *n) : nm(n), f(conv::tower<big, FV>::get()) { c = {f, SW, V(f.dim(), big(0)), g2 ? V{big(4), big(4)} : f.num(4)}; }
    bool big_y(const V &y) const { big h = (f.p - 1) / 2; return f.dim() == 2 && y[1] != 0 ? y[1] > h : y[0] > h; }
    Oct enc(const Pt &p, bool comp) const {
        Oct o(f.dim() * 48 * (comp ? 1 : 2), 0);
        auto put = [&](big v, std::size_t at) { for (std::size_t i = 48; i-- > 0; v >>= 8) o[at + i] = std::uint8_t(big(v & 255)); };
        if (!p.inf) for (std::size_t i = 0; i < f.dim(); ++i) { put(p.x[f.dim() - 1 - i], 48 * i); if (!comp) put(p.y[f.dim() - 1 - i], 48 * (f.dim() + i)); }
        o[0] |= (comp ? 0x80 : 0) | (p.inf ? 0x40 : 0) | (comp && !p.inf && big_y(p.y) ? 0x20 : 0);
        return o;
    }
    Pt pt(const E &e) const { Pt p; if (e.is_zero()) return p; auto a = e.to_affine(); p.inf = false; p.x = conv::to<big>(a.X); p.y = conv::to<big>(a.Y); return p; }
    std::vector<std::pair<std::string, E>> reps(const Pt &p) const {
        std::vector<std::pair<std::string, E>> r;
        std::vector<V> ls; for (long long k : {1, 2, -1, 12345}) ls.push_back(f.num(k));
        if (f.dim() == 2) ls.push_back(V{3, 7});
        for (auto &l : ls) {
            V l2 = f.mul(l, l), l3 = f.mul(l2, l);
            if (!p.inf) r.push_back({"Z=" + show(l), E(conv::from<FV>(f.mul(p.x, l2)), conv::from<FV>(f.mul(p.y, l3)), conv::from<FV>(l))});
            else r.push_back({"(x,y,0)", E(conv::from<FV>(l2), conv::from<FV>(l3), FV::zero())});
        }
        if (p.inf) { r.push_back({"default", E()}); r.push_back({"zero()", E::zero()}); }
        return r;
    }
    template<typename R> E decode(const R &o) const { if constexpr (g2) return S::octets_to_g2_point(o); else return S::octets_to_g1_point(o); }
    void one(const Pt &p) {
        if (!c.on(p)) { mc::violation("marshal:model", nm + " model point"); return; }
        Oct wc = enc(p, true), wu = enc(p, false);
        std::string inf = p.inf ? ":infinity" : "";
        for (auto &r : reps(p)) {
            mc::state(); mc::cur_args = nm + " " + c.show(p) + " " + r.first;
            mc::step("point_to_octets_compress"); mc::trace();
            auto a = S::point_to_octets_compress(r.second);
            MC_CHECK(oct(a) == wc, "point:compress:" + nm + inf, mc::cur_args, " gives ", hex(oct(a)), ", expected ", hex(wc));
            mc::step("point_to_octets"); mc::trace();
            auto b = S::point_to_octets(r.second);
            MC_CHECK(oct(b) == wu, "point:write:" + nm + inf, mc::cur_args, " gives ", hex(oct(b)), ", expected ", hex(wu));
            for (int fill : {0, 0xa5}) {
                mc::step("point_to_bytes"); mc::trace();
                Oct out(wc.size() + 2, std::uint8_t(fill));
                auto n = BC::point_to_bytes<G>(r.second, out.begin() + 1, out.end() - 1);
                MC_CHECK(n == wc.size() && Oct(out.begin() + 1, out.end() - 1) == wc && out.front() == fill && out.back() == fill, "point:to_bytes:" + nm + inf, mc::cur_args);
            }
        }
        mc::cur_args = nm + " " + c.show(p);
        auto chk = [&](const char *op, auto get) {
            mc::trace(); E e;
            try { e = get(); } catch (const std::logic_error &x) { mc::violation(std::string("point:") + op + ":" + nm + inf, mc::cur_args + ": " + x.what()); return; }
            MC_CHECK(c.same(pt(e), p), std::string("point:") + op + ":" + nm + inf, mc::cur_args, " is read back as ", c.show(pt(e))); };
        typename std::conditional<g2, S::compressed_g2_octets, S::compressed_g1_octets>::type ac;
        typename std::conditional<g2, S::uncompressed_g2_octets, S::uncompressed_g1_octets>::type au;
        std::copy(wc.begin(), wc.end(), ac.begin()); std::copy(wu.begin(), wu.end(), au.begin());
        mc::step("octets_to_point(compressed)"); chk("read compressed", [&] { return decode(ac); });
        mc::step("octets_to_point(uncompressed)"); chk("read", [&] { return decode(au); });
        mc::step("octets_to_point(vector)"); chk("read compressed vector", [&] { return decode(wc); }); chk("read vector", [&] { return decode(wu); });
        mc::step("point_from_bytes");
        if constexpr (g2) chk("from_bytes", [&] { return BC::g2_point_from_bytes(wc.begin(), wc.end()); }); else chk("from_bytes", [&] { return BC::g1_point_from_bytes(wc.begin(), wc.end()); });
        MC_CHECK(oct(ac) == wc && oct(au) == wu, "point:input changed:" + nm, mc::cur_args);
    }
    void both(const Pt &p) { one(p); if (!p.inf) one(c.neg(p)); }
    void multiples() {
        mc::ScopedSpace sp(nm + ": multiples of the generator");
        Pt g = pt(E::one()), p;
        std::size_t n = mc::thorough ? 64 : 10;
        for (std::size_t k = 0; k <= n; ++k) { if (mc::mine()) both(p); p = c.add(p, g); }
        p = g;
        for (std::size_t k = 0; k < (mc::thorough ? 255u : 20u); ++k) { p = c.add(p, p); if (mc::mine()) both(p); }
    }
    // points with extreme coordinates: x = v (or both coordinates from the list), wherever that is on the curve
    void by_x() {
        mc::ScopedSpace sp(nm + ": every listed x with both signs of y");
        std::vector<big> v;
        for (int i = 0; i < (mc::thorough ? 40 : 12); ++i) { v.push_back(i); if (!g2) v.push_back(f.p - 1 - i); }
        for (unsigned k = 8; k < 381; k += g2 ? 124 : mc::thorough ? 8 : 31) { v.push_back(big(1) << k); v.push_back((big(1) << k) - 1); }
        unsigned n = 0;
        auto at = [&](const V &x) {
            V y2 = f.add(f.mul(x, f.mul(x, x)), c.b);
            FV e = conv::from<FV>(y2);
            if (!e.is_square()) return;
            Pt p; p.inf = false; p.x = x; p.y = conv::to<big>(e.sqrt()); ++n;
            both(p);
        };
        for (auto &a : v) if (!g2) { if (mc::mine()) at({a}); } else for (auto &b : v) if ((mc::thorough || a < 2 || b < 2 || a == b) && mc::mine()) at({a, b});
        mc::sample(mc::str(nm, ": ", n, " points with structured x"));
    }
    // octets that are not the canonical encoding of a point: the assertions of the library must refuse them
    void refuse(const Oct &o, const std::string &kind) {
        mc::state(); mc::trace(); mc::step("octets_to_point(malformed)");
        mc::cur_args = nm + " " + hex(o);
        try { E e = decode(o); MC_CHECK(false, "point:accepted:" + kind + ":" + nm, mc::cur_args, " (", kind, ") is read as ", c.show(pt(e))); } catch (const std::logic_error &) { }
    }
    void malformed() {
        mc::ScopedSpace sp(nm + ": malformed encodings");
        for (bool comp : {true, false}) {
            Oct inf = enc(Pt(), comp);
            for (std::size_t i = 0; i < inf.size(); ++i) for (int x : {1, 2, 16, 128, 255}) {
                if (!mc::mine() || (i == 0 && x > 31)) continue;
                Oct o = inf; o[i] |= x; refuse(o, "octets after infinity");
            }
        }
        std::vector<Pt> ps; Pt g = pt(E::one()), p = g;
        for (int k = 0; k < (mc::thorough ? 12 : 4); ++k) { ps.push_back(p); ps.push_back(c.neg(p)); p = c.add(p, g); }
        for (auto &q : ps) for (bool comp : {true, false}) {
            if (!mc::mine()) continue;
            Oct o = enc(q, comp), base = o;
            base[0] &= 0x1f;
            for (int fl : {0x20, 0x60, 0xe0}) { Oct r = base; r[0] |= fl; refuse(r, "reserved flags"); }
            { Oct r = base; r[0] |= comp ? 0x00 : 0x80; refuse(r, "flags for another length"); }
            { Oct r = base; r[0] |= comp ? 0xc0 : 0x40; refuse(r, "infinity with coordinates"); }
            { Oct r = o; r.pop_back(); refuse(r, "length"); r = o; r.push_back(0); refuse(r, "length"); r = o; r.push_back(7); refuse(r, "length"); r = Oct(o.begin(), o.begin() + o.size() / 2); refuse(r, "length"); r = o; r.insert(r.end(), o.begin(), o.end()); refuse(r, "length"); }
            if (!comp) for (auto &q2 : ps) if (q2.x != q.x) { Pt m = q; m.y = q2.y; refuse(enc(m, false), "off the curve"); }
            if (!comp) { Pt m = q; m.y = f.add(q.y, f.one()); refuse(enc(m, false), "off the curve"); }
        }
        auto at = [&](const V &x) {
            V y2 = f.add(f.mul(x, f.mul(x, x)), c.b);
            FV e = conv::from<FV>(y2);
            Pt p; p.inf = false; p.x = x; p.y = f.one();
            if (!e.is_square()) { Oct o = enc(p, true); refuse(o, "no such x"); o[0] ^= 0x20; refuse(o, "no such x"); return; }
            p.y = conv::to<big>(e.sqrt());
            for (std::size_t i = 0; i < 2 * f.dim(); ++i) {
                // a coordinate as its other representative below 2^381
                Pt m = p; big &z = i < f.dim() ? m.x[i] : m.y[i - f.dim()];
                z += f.p;
                if (z >> 381) continue;
                refuse(enc(m, false), "coordinate not reduced");
                if (i < f.dim()) refuse(enc(m, true), "coordinate not reduced");
            }
        };
        for (int i = 0; i < (mc::thorough ? 40 : 10); ++i) if (!g2) { if (mc::mine()) { at({i}); at({f.p - 1 - i}); } } else for (int j = 0; j < (mc::thorough ? 12 : 4); ++j) if (mc::mine()) at({i, j});
    }
    // G2 points whose y lies in the base field or is a multiple of i: the two branches of the sign
    void by_y() {
        mc::ScopedSpace sp(nm + ": y in a coordinate axis");
        big q1 = f.p * f.p - 1, t = q1, s = 1;
        while (t % 3 == 0) { t /= 3; s *= 3; }
        big i3 = inv_mod(3, t);
        unsigned n = 0;
        for (int k = 0; k < (mc::thorough ? 200 : 40); ++k) for (int ax = 0; ax < 2; ++ax) {
            V y {0, 0}; y[ax] = k;
            V w = f.sub(f.mul(y, y), c.b);
            if (f.pow(w, t) != f.one()) continue;
            Pt p; p.inf = false; p.x = f.pow(w, i3); p.y = y; ++n;
            if (mc::mine()) both(p);
        }
        mc::sample(mc::str(nm, ": ", n, " points with y on an axis"));
    }
};
int main(int argc, char **argv) {
    mc::init(argc, argv, "marshal_PART2");
    { Pts<B::g1_type<>> s("G1"); s.multiples(); s.by_x(); s.malformed(); }
    { Pts<B::g2_type<>> s("G2"); s.multiples(); s.by_x(); s.by_y(); s.malformed(); }
    static_assert(BC::element_size<BC::g1_type>() == 48 && BC::element_size<BC::g2_type>() == 96 && BC::element_size<BC::fr_type>() == 32 && BC::element_size<BC::fp_type>() == 48 && BC::element_size<BC::gt_type>() == 576);
    {
        mc::ScopedSpace sp("field elements through the curve interface");
        auto rt = [&](auto tag, const std::vector<big> &v) {
            typedef typename decltype(tag)::type F;
            mc::state(); mc::step("curve field_element_to_bytes"); mc::trace();
            constexpr std::size_t n = BC::element_size<F>();
            typedef typename F::value_type E;
            E e = conv::from<E>(v);
            Oct o(n, 0xa5), w = enc(v, n / F::arity);
            auto k = BC::field_element_to_bytes<F>(e, o.begin(), o.end());
            MC_CHECK(k == n && o == w, "curve:field:write", show(v), " gives ", hex(o));
            auto r = BC::field_element_from_bytes<F>(w.begin(), w.end());
            MC_CHECK(r.first && r.second == e, "curve:field:read", show(v));
        };
        struct Fr { typedef BC::fr_type type; }; struct Fp { typedef BC::fp_type type; }; struct Gt { typedef BC::gt_type type; };
        for (unsigned k = 0; k < 381; k += 5) { if (k < 254) rt(Fr(), {big(1) << k}); if (k < 380) rt(Fp(), {big(1) << k}); for (int i = 0; i < 12 && k < 380; i += 1 + k % 3) { std::vector<big> v(12, big(k + i)); v[i] = big(1) << k; rt(Gt(), v); } }
        rt(Fr(), {0}); rt(Fp(), {0}); rt(Gt(), std::vector<big>(12, big(0)));
    }
    return mc::finish();
}
#endif
