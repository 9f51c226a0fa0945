// C26: precomputed points (equality, text form) and the pairing front end over a recording policy.
#include <iostream>
#include <set>
#include <mc.hpp>
#ifndef PART
#define PART 1
#endif
using std::size_t;

// ---- a JSON reader that accepts exactly RFC 8259 without escapes and keeps the structure ----
struct J {
    char kind = 0;    // o object, a array, n number, s string
    std::string text;
    std::vector<std::pair<std::string, J>> kids;
};
struct Reader {
    const std::string &s;
    size_t i = 0;
    bool ok = true;
    explicit Reader(const std::string &x) : s(x) { }
    void ws() { while (i < s.size() && (s[i] == ' ' || s[i] == '\n' || s[i] == '\t' || s[i] == '\r')) ++i; }
    bool eat(char c) { ws(); if (i < s.size() && s[i] == c) { ++i; return true; } return false; }
    std::string str() {
        std::string r;
        if (!eat('"')) { ok = false; return r; }
        while (i < s.size() && s[i] != '"') { if (s[i] == '\\' || (unsigned char)s[i] < 0x20) { ok = false; return r; } r += s[i++]; }
        if (i >= s.size()) ok = false; else ++i;
        return r;
    }
    J value() {
        J j;
        ws();
        if (i >= s.size()) { ok = false; return j; }
        if (eat('{')) {
            j.kind = 'o';
            if (eat('}')) return j;
            do {
                std::string k = str();
                if (!ok || !eat(':')) { ok = false; return j; }
                j.kids.push_back({k, value()});
                if (!ok) return j;
            } while (eat(','));
            if (!eat('}')) ok = false;
        } else if (eat('[')) {
            j.kind = 'a';
            if (eat(']')) return j;
            do {
                j.kids.push_back({"", value()});
                if (!ok) return j;
            } while (eat(','));
            if (!eat(']')) ok = false;
        } else if (s[i] == '"') {
            j.kind = 's';
            j.text = str();
        } else {
            j.kind = 'n';
            while (i < s.size() && (std::isdigit((unsigned char)s[i]) || s[i] == '-')) j.text += s[i++];
            if (j.text.empty() || j.text == "-" || (j.text.size() > 1 && j.text[0] == '0')) ok = false;
        }
        return j;
    }
};
static bool parse(const std::string &s, J &j) {
    Reader r(s);
    j = r.value();
    r.ws();
    return r.ok && r.i == s.size();
}
static std::string flat(const J &j) {
    std::string r;
    if (j.kind == 'o') { r = "{"; for (auto &k : j.kids) r += k.first + ":" + flat(k.second) + ";"; return r + "}"; }
    if (j.kind == 'a') { r = "["; for (auto &k : j.kids) r += flat(k.second) + ";"; return r + "]"; }
    return j.kind == 's' ? "'" + j.text + "'" : j.text;
}

#if PART == 1
#include <nil/crypto3/algebra/algorithms/pair.hpp>
#include <nil/crypto3/algebra/pairing/detail/forms/short_weierstrass/jacobian_with_a4_0/types.hpp>
#include <nil/crypto3/algebra/pairing/detail/forms/short_weierstrass/projective/types.hpp>
using namespace nil::crypto3::algebra;

// A field value: v is its value, tag an invisible part of the representation, so equality must be the field's own.
// Text form: a number for an element of the base field, an array for one of the extension.
template<int K>
struct Val {
    int v = 0, tag = 0;
    bool operator==(const Val &o) const { return v == o.v; }
    bool operator!=(const Val &o) const { return v != o.v; }
};
static std::ostream &operator<<(std::ostream &o, const Val<1> &x) { return o << x.v; }
static std::ostream &operator<<(std::ostream &o, const Val<2> &x) { return o << "[" << x.v << "," << x.v + 100 << "]"; }
static std::string tx(const Val<1> &x) { return std::to_string(x.v); }
static std::string tx(const Val<2> &x) { return "[" + std::to_string(x.v) + ";" + std::to_string(x.v + 100) + ";]"; }
struct Mock {
    struct base_field_type {
        using integral_type = unsigned;
        using extended_integral_type = unsigned;
        using value_type = Val<1>;
    };
    struct g2field { using value_type = Val<2>; };
    template<typename = void>
    struct g2_type { using field_type = g2field; };
};
using JP = pairing::detail::short_weierstrass_jacobian_with_a4_0_types_policy<Mock>;
using PP = pairing::detail::short_weierstrass_projective_types_policy<Mock>;

static int tagger = 0;
template<int K> static void set(Val<K> &x, int v) { x.v = v; x.tag = ++tagger; }

template<typename T>
static bool eqboth(const T &a, const T &b) { return a == b; }

// model: a flat vector of ints with vector lengths in front
template<typename T>
struct Coded { std::vector<int> code; T t; };

template<typename T>
static void all_pairs(const char *name, const std::vector<Coded<T>> &s) {
    mc::ScopedSpace sp(std::string(name) + ": all pairs of states");
    mc::state(s.size());
    for (auto &a : s)
        for (auto &b : s) {
            mc::step(name);
            bool want = a.code == b.code;
            if (eqboth(a.t, b.t) != want) {
                std::string ca, cb;
                for (int x : a.code) ca += std::to_string(x) + ",";
                for (int x : b.code) cb += std::to_string(x) + ",";
                mc::violation(std::string("eq:") + name, mc::str(name, " equality gives ", !want, " for components ", ca, " and ", cb));
            }
        }
}
template<typename T>
static void text(const char *name, const T &t, const std::string &want) {
    mc::step(name);
    std::ostringstream o;
    o << t;
    J j;
    if (!parse(o.str(), j)) mc::violation(std::string("json:") + name, mc::str("text of ", name, " is not JSON: ", o.str()));
    else if (flat(j) != want) mc::violation(std::string("text:") + name, mc::str("text of ", name, " reads ", flat(j), " instead of ", want));
}

// lengths on both sides of the sizes at which a narrower count or a block of work would end
static const std::vector<size_t> LONG = {3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000};
static const std::vector<size_t> VERY_LONG = {4095, 4096, 4097, 65535, 65536, 65537};
// a list of n entries equals its copy in another representation and differs once any single entry (at the front, at the back, around
// every power of two) changes, and from the list one entry shorter or longer; F: members of one entry
template<typename T, typename Make>
static void long_lists(const char *name, Make make, int F) {
    mc::ScopedSpace sp(std::string(name) + ": long coefficient lists against copies, single changes and prefixes");
    auto lens = LONG;
    lens.insert(lens.end(), VERY_LONG.begin(), VERY_LONG.end());
    for (size_t n : lens) {
        const T a = make(n, size_t(-1), 0);
        auto cmp = [&](const T &b, bool want, const char *what, size_t at) {
            mc::state(); mc::trace();
            mc::step(name);
            if (eqboth(a, b) != want || eqboth(b, a) != want)
                mc::violation(std::string("longeq:") + name, mc::str(name, " equality of lists of ", n, " entries, ", what, " ", at, " gives ", !want));
        };
        cmp(make(n, size_t(-1), 0), true, "equal", n);
        cmp(make(n - 1, size_t(-1), 0), false, "other length", n - 1);
        cmp(make(n + 1, size_t(-1), 0), false, "other length", n + 1);
        if (n < 2000) cmp(make(n + 256, size_t(-1), 0), false, "other length", n + 256), cmp(make(n + 65536, size_t(-1), 0), false, "other length", n + 65536);
        std::set<size_t> at = {0, n - 1};
        if (n <= 300) for (size_t i = 0; i < n; ++i) at.insert(i);
        for (size_t b = 2; b <= n; b *= 2) for (size_t i : {b - 1, b, b + 1}) if (i < n) at.insert(i);
        for (size_t i : at) for (int f = 0; f < F; ++f) cmp(make(n, i, f), false, "change in entry", i);
    }
}

// every vector of coefficient structs of length up to maxlen with F fields in {0..vals-1}
static std::vector<std::vector<int>> coef_codes(int F, int maxlen, int vals) {
    std::vector<std::vector<int>> r, cur = {{}};
    r.push_back({});
    for (int l = 1; l <= maxlen; ++l) {
        std::vector<std::vector<int>> nx;
        for (auto &c : cur) {
            long n = 1;
            for (int f = 0; f < F; ++f) n *= vals;
            for (long m = 0; m < n; ++m) {
                auto d = c;
                long k = m;
                for (int f = 0; f < F; ++f, k /= vals) d.push_back(int(k % vals));
                nx.push_back(d);
            }
        }
        cur = nx;
        for (auto &c : cur) r.push_back(c);
    }
    return r;
}

static void jac_types() {
    using G1 = JP::ate_g1_precomputed_type;
    using G2 = JP::ate_g2_precomputed_type;
    using C = JP::ate_ell_coeffs;
    std::vector<Coded<G1>> s1;
    for (int x = 0; x < 3; ++x) for (int y = 0; y < 3; ++y) for (int k = 0; k < 2; ++k) {
        Coded<G1> c; c.code = {x, y}; set(c.t.PX, x); set(c.t.PY, y); s1.push_back(c);
    }
    all_pairs("jacobian ate_g1_precomputed_type", s1);
    std::vector<Coded<C>> sc;
    for (auto &cc : coef_codes(3, 1, 3)) if (cc.size()) for (int k = 0; k < 2; ++k) {
        Coded<C> c; c.code = cc; set(c.t.ell_0, cc[0]); set(c.t.ell_VW, cc[1]); set(c.t.ell_VV, cc[2]); sc.push_back(c);
    }
    all_pairs("ate_ell_coeffs", sc);
    std::vector<Coded<G2>> s2;
    int maxlen = mc::thorough ? 3 : 2;
    for (auto &cc : coef_codes(3, maxlen, 2)) for (int xy = 0; xy < 4; ++xy) {
        Coded<G2> c; c.code = {xy & 1, xy >> 1, int(cc.size())};
        set(c.t.QX, xy & 1); set(c.t.QY, xy >> 1);
        for (size_t i = 0; i < cc.size(); i += 3) {
            C e; set(e.ell_0, cc[i]); set(e.ell_VW, cc[i + 1]); set(e.ell_VV, cc[i + 2]); c.t.coeffs.push_back(e);
        }
        c.code.insert(c.code.end(), cc.begin(), cc.end());
        s2.push_back(c);
    }
    all_pairs("jacobian ate_g2_precomputed_type", s2);
    long_lists<G2>("jacobian ate_g2_precomputed_type", [](size_t n, size_t at, int f) {
        G2 t; set(t.QX, 1); set(t.QY, 2);
        for (size_t i = 0; i < n; ++i) {
            C e; set(e.ell_0, int(3 * i)); set(e.ell_VW, int(3 * i + 1)); set(e.ell_VV, int(3 * i + 2));
            if (i == at) { if (f == 0) e.ell_0.v ^= 1; else if (f == 1) e.ell_VW.v ^= 1; else e.ell_VV.v ^= 1; }
            t.coeffs.push_back(e);
        }
        return t;
    }, 3);
    mc::ScopedSpace sp("text form of Jacobian precomputed points");
    for (auto &c : s1) { mc::state(); mc::trace(); text("jacobian ate_g1_precomputed_type", c.t, "{PX:" + tx(c.t.PX) + ";PY:" + tx(c.t.PY) + ";}"); }
    std::vector<int> lens;
    for (int len = 0; len <= 40; ++len) lens.push_back(len);
    for (size_t n : LONG) if (n > 40) lens.push_back(int(n));
    for (int len : lens)
        for (int base = 0; base < 3; ++base) {
            mc::state(); mc::trace();
            G2 t; set(t.QX, 7 + base); set(t.QY, 8 + base);
            std::string want = "{QX:" + tx(t.QX) + ";QY:" + tx(t.QY) + ";coeffs:[";
            for (int i = 0; i < len; ++i) {
                C e; set(e.ell_0, 1000 + 3 * i); set(e.ell_VW, 1001 + 3 * i); set(e.ell_VV, 1002 + 3 * i);
                t.coeffs.push_back(e);
                want += "[" + tx(e.ell_0) + ";" + tx(e.ell_VW) + ";" + tx(e.ell_VV) + ";];";
            }
            text("jacobian ate_g2_precomputed_type", t, want + "];}");
        }
}
static void proj_types() {
    using G1 = PP::ate_g1_precomputed_type;
    using G2 = PP::ate_g2_precomputed_type;
    using D = PP::ate_dbl_coeffs;
    using E = PP::ate_add_coeffs;
    std::vector<Coded<G1>> s1;
    for (auto &cc : coef_codes(4, 1, 3)) if (cc.size()) for (int k = 0; k < 2; ++k) {
        Coded<G1> c; c.code = cc; set(c.t.PX, cc[0]); set(c.t.PY, cc[1]); set(c.t.PX_twist, cc[2]); set(c.t.PY_twist, cc[3]); s1.push_back(c);
    }
    all_pairs("projective ate_g1_precomputed_type", s1);
    std::vector<Coded<D>> sd;
    for (auto &cc : coef_codes(4, 1, 3)) if (cc.size()) for (int k = 0; k < 2; ++k) {
        Coded<D> c; c.code = cc; set(c.t.c_H, cc[0]); set(c.t.c_4C, cc[1]); set(c.t.c_J, cc[2]); set(c.t.c_L, cc[3]); sd.push_back(c);
    }
    all_pairs("ate_dbl_coeffs", sd);
    std::vector<Coded<E>> se;
    for (auto &cc : coef_codes(2, 1, 4)) if (cc.size()) for (int k = 0; k < 2; ++k) {
        Coded<E> c; c.code = cc; set(c.t.c_L1, cc[0]); set(c.t.c_RZ, cc[1]); se.push_back(c);
    }
    all_pairs("ate_add_coeffs", se);
    auto fill = [](G2 &t, const std::vector<int> &q, const std::vector<int> &d, const std::vector<int> &a) {
        set(t.QX, q[0]); set(t.QY, q[1]); set(t.QY2, q[2]); set(t.QX_over_twist, q[3]); set(t.QY_over_twist, q[4]);
        for (size_t i = 0; i < d.size(); i += 4) { D e; set(e.c_H, d[i]); set(e.c_4C, d[i + 1]); set(e.c_J, d[i + 2]); set(e.c_L, d[i + 3]); t.dbl_coeffs.push_back(e); }
        for (size_t i = 0; i < a.size(); i += 2) { E e; set(e.c_L1, a[i]); set(e.c_RZ, a[i + 1]); t.add_coeffs.push_back(e); }
    };
    std::vector<Coded<G2>> s2, s3;
    auto push = [&](std::vector<Coded<G2>> &s, const std::vector<int> &q, const std::vector<int> &d, const std::vector<int> &a) {
        Coded<G2> c; c.code = q; c.code.push_back(int(d.size())); c.code.push_back(int(a.size()));
        c.code.insert(c.code.end(), d.begin(), d.end()); c.code.insert(c.code.end(), a.begin(), a.end());
        fill(c.t, q, d, a); s.push_back(c);
    };
    for (int m = 0; m < 32; ++m)
        for (auto &d : coef_codes(4, 1, 2)) for (auto &a : coef_codes(2, 1, 2))
            push(s2, {m & 1, m >> 1 & 1, m >> 2 & 1, m >> 3 & 1, m >> 4}, d, a);
    all_pairs("projective ate_g2_precomputed_type, up to one coefficient", s2);
    for (auto &d : coef_codes(4, 2, 2)) for (auto &a : coef_codes(2, 2, 2))
        if (mc::thorough || d.size() < 8 || a.size() < 4) push(s3, {0, 1, 0, 1, 0}, d, a);
    all_pairs("projective ate_g2_precomputed_type, up to two coefficients", s3);
    for (int list = 0; list < 2; ++list)
        long_lists<G2>(list ? "projective ate_g2_precomputed_type, add_coeffs" : "projective ate_g2_precomputed_type, dbl_coeffs", [list](size_t n, size_t at, int f) {
            G2 t; set(t.QX, 1); set(t.QY, 2); set(t.QY2, 3); set(t.QX_over_twist, 4); set(t.QY_over_twist, 5);
            const size_t nd = list ? 3 : n, na = list ? n : 3;
            for (size_t i = 0; i < nd; ++i) {
                D e; set(e.c_H, int(4 * i)); set(e.c_4C, int(4 * i + 1)); set(e.c_J, int(4 * i + 2)); set(e.c_L, int(4 * i + 3));
                if (!list && i == at) { if (f == 0) e.c_H.v ^= 1; else if (f == 1) e.c_4C.v ^= 1; else if (f == 2) e.c_J.v ^= 1; else e.c_L.v ^= 1; }
                t.dbl_coeffs.push_back(e);
            }
            for (size_t i = 0; i < na; ++i) {
                E e; set(e.c_L1, int(2 * i)); set(e.c_RZ, int(2 * i + 1));
                if (list && i == at) { if (f == 0) e.c_L1.v ^= 1; else e.c_RZ.v ^= 1; }
                t.add_coeffs.push_back(e);
            }
            return t;
        }, list ? 2 : 4);
    mc::ScopedSpace sp("text form of projective precomputed points");
    for (auto &c : s1) {
        mc::state(); mc::trace();
        text("projective ate_g1_precomputed_type", c.t, "{PX:" + tx(c.t.PX) + ";PY:" + tx(c.t.PY) + ";PX_twist:" + tx(c.t.PX_twist) + ";PY_twist:" + tx(c.t.PY_twist) + ";}");
    }
    std::vector<std::pair<int, int>> lens;
    for (int nd = 0; nd <= 12; ++nd) for (int na = 0; na <= 12; ++na) lens.push_back({nd, na});
    for (size_t n : LONG) if (n > 12) lens.push_back({int(n), 2}), lens.push_back({3, int(n)}), lens.push_back({int(n), int(n)});
    for (auto [nd, na] : lens) {
        mc::state(); mc::trace();
        std::vector<int> d, a;
        for (int i = 0; i < nd * 4; ++i) d.push_back(1000 + i);
        for (int i = 0; i < na * 2; ++i) a.push_back(2000 + i);
        G2 t; fill(t, {1, 2, 3, 4, 5}, d, a);
        std::string want = "{QX:" + tx(t.QX) + ";QY:" + tx(t.QY) + ";QY2:" + tx(t.QY2) + ";QX_over_twist:" + tx(t.QX_over_twist) + ";QY_over_twist:" + tx(t.QY_over_twist) + ";dbl_coeffs:[";
        for (auto &e : t.dbl_coeffs) want += "[" + tx(e.c_H) + ";" + tx(e.c_4C) + ";" + tx(e.c_J) + ";" + tx(e.c_L) + ";];";
        want += "];add_coeffs:[";
        for (auto &e : t.add_coeffs) want += "[" + tx(e.c_L1) + ";" + tx(e.c_RZ) + ";];";
        text("projective ate_g2_precomputed_type", t, want + "];}");
    }
}

// ---- front end over a free term algebra: every function symbol is a distinct constructor ----
struct Term { std::string s; };
struct P1 : Term { }; struct P2 : Term { }; struct PC1 : Term { }; struct PC2 : Term { }; struct GT : Term { };
struct FCurve {
    template<typename = void> struct g1_type { using value_type = P1; };
    template<typename = void> struct g2_type { using value_type = P2; };
    struct gt_type { using value_type = GT; };
};
static long calls = 0;
template<int W>
struct FPolicy {
    using g1_precomputed_type = PC1;
    using g2_precomputed_type = PC2;
    static std::string n(const char *f) { ++calls; return std::string(f) + std::to_string(W); }
    struct precompute_g1 { static PC1 process(const P1 &p) { PC1 r; r.s = n("pre1") + "(" + p.s + ")"; return r; } };
    struct precompute_g2 { static PC2 process(const P2 &p) { PC2 r; r.s = n("pre2") + "(" + p.s + ")"; return r; } };
    struct miller_loop { static GT process(const PC1 &p, const PC2 &q) { GT r; r.s = n("loop") + "(" + p.s + "," + q.s + ")"; return r; } };
    struct double_miller_loop {
        static GT process(const PC1 &p, const PC2 &q, const PC1 &r, const PC2 &s) { GT t; t.s = n("dloop") + "(" + p.s + "," + q.s + "," + r.s + "," + s.s + ")"; return t; }
    };
    struct final_exponentiation { static GT process(const GT &g) { GT r; r.s = n("fin") + "(" + g.s + ")"; return r; } };
};
namespace nil { namespace crypto3 { namespace algebra { namespace pairing {
    template<> struct pairing_policy<FCurve> : FPolicy<0> { };
}}}}
template<typename T> static T mk(const char *k, int i) { T t; t.s = std::string(k) + std::to_string(i); return t; }
static void same(const char *f, const std::string &got, const std::string &want) {
    mc::step(f);
    MC_CHECK(got == want, std::string("front:") + f, f, " computes ", got, " instead of ", want);
}
template<int W, typename... Pol>
static void front() {
    mc::ScopedSpace sp("front end over the free term algebra, policy " + std::to_string(W));
    std::string w = std::to_string(W);
    const int N = 3;
    for (int i = 0; i < N; ++i) {
        P1 p = mk<P1>("p", i);
        mc::state(); mc::trace();
        same("precompute_g1", precompute_g1<FCurve, Pol...>(p).s, "pre1" + w + "(" + p.s + ")");
        P2 q = mk<P2>("q", i);
        same("precompute_g2", precompute_g2<FCurve, Pol...>(q).s, "pre2" + w + "(" + q.s + ")");
        GT g = mk<GT>("g", i);
        same("final_exponentiation", final_exponentiation<FCurve, Pol...>(g).s, "fin" + w + "(" + g.s + ")");
        MC_CHECK(p.s == mk<P1>("p", i).s && q.s == mk<P2>("q", i).s && g.s == mk<GT>("g", i).s, "front:modified", "an argument was modified");
        for (int j = 0; j < N; ++j) {
            P2 q2 = mk<P2>("q", j);
            mc::state(); mc::trace();
            std::string loop = "loop" + w + "(pre1" + w + "(" + p.s + "),pre2" + w + "(" + q2.s + "))";
            same("pair", pair<FCurve, Pol...>(p, q2).s, loop);
            same("pair_reduced", pair_reduced<FCurve, Pol...>(p, q2).s, "fin" + w + "(" + loop + ")");
            PC1 a = mk<PC1>("a", i);
            PC2 b = mk<PC2>("b", j);
            same("miller_loop", miller_loop<FCurve, Pol...>(a, b).s, "loop" + w + "(" + a.s + "," + b.s + ")");
            for (int k = 0; k < N; ++k)
                for (int l = 0; l < N; ++l) {
                    mc::state(); mc::trace();
                    PC1 c = mk<PC1>("a", k);
                    PC2 d = mk<PC2>("b", l);
                    same("double_miller_loop", double_miller_loop<FCurve, Pol...>(a, b, c, d).s, "dloop" + w + "(" + a.s + "," + b.s + "," + c.s + "," + d.s + ")");
                }
        }
    }
}
int main(int argc, char **argv) {
    mc::init(argc, argv, "pairing_types PART1");
    jac_types();
    proj_types();
    front<0>();
    front<1, FPolicy<1>>();
    mc::sample("g2 text: coefficient lists of 0..40 entries parse as JSON and read back entry by entry");
    return mc::finish();
}
#else
// shipped curves: the precomputed points of a set of multiples of the generators print as JSON and compare by value
#include <nil/crypto3/algebra/algorithms/pair.hpp>
#if PART == 2
#include <nil/crypto3/algebra/curves/bls12.hpp>
#include <nil/crypto3/algebra/pairing/bls12.hpp>
using Curve = nil::crypto3::algebra::curves::bls12<381>;
#elif PART == 3
#include <nil/crypto3/algebra/curves/mnt4.hpp>
#include <nil/crypto3/algebra/pairing/mnt4.hpp>
using Curve = nil::crypto3::algebra::curves::mnt4<298>;
#elif PART == 4
#include <nil/crypto3/algebra/curves/mnt6.hpp>
#include <nil/crypto3/algebra/pairing/mnt6.hpp>
using Curve = nil::crypto3::algebra::curves::mnt6<298>;
#else
#include <nil/crypto3/algebra/curves/edwards.hpp>
#include <nil/crypto3/algebra/pairing/edwards.hpp>
using Curve = nil::crypto3::algebra::curves::edwards<183>;
#endif
using namespace nil::crypto3::algebra;
template<typename T>
static void text(const char *name, const T &t, std::vector<std::string> members) {
#if PART != 5
    std::ostringstream o;
    o << t;
    J j;
    mc::step(name);
    if (!parse(o.str(), j) || j.kind != 'o') { mc::violation(std::string("json:") + name, mc::str("text of ", name, " is not a JSON object: ", o.str().substr(0, 300))); return; }
    std::vector<std::string> got;
    for (auto &k : j.kids) got.push_back(k.first);
    MC_CHECK(got == members, std::string("members:") + name, "text of ", name, " has other members");
#endif
}
int main(int argc, char **argv) {
    mc::init(argc, argv, "pairing_types shipped");
    using pol = pairing::pairing_policy<Curve>;
    using g1 = typename Curve::template g1_type<>::value_type;
    using g2 = typename Curve::template g2_type<>::value_type;
    int N = mc::thorough ? 12 : 5;
    std::vector<typename pol::g1_precomputed_type> a;
    std::vector<typename pol::g2_precomputed_type> b;
    std::vector<int> ka, kb;
    {
    mc::ScopedSpace sp("all pairs of precomputed multiples of the generators in two representations");
    g1 P = g1::zero();
    g2 Q = g2::zero();
    for (int k = 1; k <= N; ++k) {
        P = P + g1::one();
        Q = Q + g2::one();
        // the second representation comes from another sequence of operations
        g1 P2 = (P + g1::one() + g1::one()) - g1::one() - g1::one();
        g2 Q2 = (Q + g2::one() + g2::one()) - g2::one() - g2::one();
        mc::state(2);
        mc::step("precompute");
        a.push_back(precompute_g1<Curve>(P)); ka.push_back(k);
        a.push_back(precompute_g1<Curve>(P2)); ka.push_back(k);
        b.push_back(precompute_g2<Curve>(Q)); kb.push_back(k);
        b.push_back(precompute_g2<Curve>(Q2)); kb.push_back(k);
#if PART == 2
        text("g1 precomputation", a.back(), {"PX", "PY"});
        text("g2 precomputation", b.back(), {"QX", "QY", "coeffs"});
#elif PART == 3 || PART == 4
        text("g1 precomputation", a.back(), {"PX", "PY", "PX_twist", "PY_twist"});
        text("g2 precomputation", b.back(), {"QX", "QY", "QY2", "QX_over_twist", "QY_over_twist", "dbl_coeffs", "add_coeffs"});
#endif
    }
    for (size_t i = 0; i < a.size(); ++i)
        for (size_t j = 0; j < a.size(); ++j) {
            mc::step("equality");
            MC_CHECK((a[i] == a[j]) == (ka[i] == ka[j]), "eq:g1", "precomputations of ", ka[i], "P and ", ka[j], "P");
            MC_CHECK((b[i] == b[j]) == (kb[i] == kb[j]), "eq:g2", "precomputations of ", kb[i], "Q and ", kb[j], "Q");
        }
    }
    // every single component of a precomputation takes part in the comparison
#if PART == 5
    {
        mc::ScopedSpace s2("Edwards: every single component takes part in the comparison");
        using TP = pairing::detail::types_policy<Curve>;
        using F1 = TP::g1_field_value_type;
        using F2 = TP::g2_field_value_type;
        auto bits1 = [](int m, int i) { return (m >> i & 1) ? F1::one() : F1::zero(); };
        auto bits2 = [](int m, int i) { return (m >> i & 1) ? F2::one() : F2::zero(); };
        for (int x = 0; x < 8; ++x) for (int y = 0; y < 8; ++y) {
            mc::step("Edwards coefficient equality");
            mc::state(); mc::trace();
            TP::Fq_conic_coefficients c1 {bits1(x, 0), bits1(x, 1), bits1(x, 2)}, c2 {bits1(y, 0), bits1(y, 1), bits1(y, 2)};
            MC_CHECK((c1 == c2) == (x == y), "eq:Fq_conic_coefficients", x, " ", y);
            TP::Fq3_conic_coefficients d1 {bits2(x, 0), bits2(x, 1), bits2(x, 2)}, d2 {bits2(y, 0), bits2(y, 1), bits2(y, 2)};
            MC_CHECK((d1 == d2) == (x == y), "eq:Fq3_conic_coefficients", x, " ", y);
            TP::ate_g1_precomputed_type e1 {bits1(x, 0), bits1(x, 1), bits1(x, 2)}, e2 {bits1(y, 0), bits1(y, 1), bits1(y, 2)};
            MC_CHECK((e1 == e2) == (x == y), "eq:ate_g1_precomputed_type", x, " ", y);
            if (x < 4 && y < 4) {
                TP::tate_g2_precomp f1 {bits2(x, 0), bits2(x, 1)}, f2 {bits2(y, 0), bits2(y, 1)};
                MC_CHECK((f1 == f2) == (x == y), "eq:tate_g2_precomp", x, " ", y);
            }
        }
    }
#endif
    mc::sample("precomputations of kP, kQ, k in 1..N, each from two representations");
    return mc::finish();
}
#endif
