// Full-width curve arithmetic over a model tower, independent of the library.
#ifndef VERIF_BIGCURVE_HPP
#define VERIF_BIGCURVE_HPP
#include "tiny.hpp"
typedef model::Vec<big> V;

static big inv_mod(const big &a, const big &p) {
    big r0 = p, r1 = model::modp<big>(a, p), t0 = 0, t1 = 1;
    while (r1 != 0) { big q = r0 / r1, x = r0 - q * r1; r0 = r1; r1 = x; x = t0 - q * t1; t0 = t1; t1 = x; }
    return model::modp<big>(t0, p);
}
struct Fld : model::Tower<big> {
    Fld() {}
    Fld(const model::Tower<big> &t) : model::Tower<big>(t) {}
    V num(big k) const { V r(dim(), big(0)); r[0] = model::modp<big>(k, p); return r; }
    bool zero(const V &a) const { for (auto &x : a) if (x != 0) return false; return true; }
    V inv(const V &a) const {    // solve a * x = 1
        std::size_t n = dim();
        if (n == 1) return {inv_mod(a[0], p)};
        std::vector<V> m(n, V(n + 1, big(0)));
        for (std::size_t j = 0; j < n; ++j) { V e(n, big(0)); e[j] = 1; V c = mul(a, e); for (std::size_t i = 0; i < n; ++i) m[i][j] = c[i]; }
        m[0][n] = 1;
        for (std::size_t c = 0; c < n; ++c) {
            std::size_t r = c;
            while (m[r][c] == 0) ++r;
            std::swap(m[r], m[c]);
            big k = inv_mod(m[c][c], p);
            for (auto &x : m[c]) x = x * k % p;
            for (std::size_t i = 0; i < n; ++i) if (i != c && m[i][c] != 0) { big f = m[i][c]; for (std::size_t j = c; j <= n; ++j) m[i][j] = model::modp<big>(m[i][j] - f * m[c][j], p); }
        }
        V r(n); for (std::size_t i = 0; i < n; ++i) r[i] = m[i][n];
        return r;
    }
};
struct Pt { bool inf = true; V x, y; };
enum Kind { SW, TE, MO };
struct Curve {
    Fld f; Kind k; V a, b;    // SW: a, b; TE: a, d; MO: A, B
    V s(const V &x, const V &y) const { return f.add(x, y); }
    V m(const V &x, const V &y) const { return f.mul(x, y); }
    bool on(const Pt &p) const {
        if (p.inf) return true;
        V xx = m(p.x, p.x), yy = m(p.y, p.y);
        if (k == SW) return yy == s(s(m(xx, p.x), m(a, p.x)), b);
        if (k == TE) return s(m(a, xx), yy) == s(f.one(), m(b, m(xx, yy)));
        return m(b, yy) == s(s(m(xx, p.x), m(a, xx)), p.x);
    }
    bool nonsingular() const {
        if (k == SW) return !f.zero(s(m(f.num(4), m(a, m(a, a))), m(f.num(27), m(b, b))));
        if (k == TE) return !f.zero(a) && !f.zero(b) && a != b;
        return !f.zero(b) && m(a, a) != f.num(4);
    }
    Pt norm(Pt p) const { if (k == TE && !p.inf && f.zero(p.x) && p.y == f.one()) return Pt(); return p; }
    bool same(const Pt &p, const Pt &q) const { Pt u = norm(p), v = norm(q); return u.inf == v.inf && (u.inf || (u.x == v.x && u.y == v.y)); }
    Pt neg(Pt p) const { if (!p.inf) (k == TE ? p.x : p.y) = f.neg(k == TE ? p.x : p.y); return p; }
    Pt add(const Pt &p, const Pt &q) const {
        if (p.inf) return q;
        if (q.inf) return p;
        if (k == TE) {
            V xy = m(p.x, q.y), yx = m(p.y, q.x), c = m(b, m(xy, yx)), o = f.one();
            Pt r; r.inf = false;
            r.x = m(s(xy, yx), f.inv(s(o, c)));
            r.y = m(f.sub(m(p.y, q.y), m(a, m(p.x, q.x))), f.inv(f.sub(o, c)));
            return norm(r);
        }
        V l;
        if (p.x == q.x) {
            if (p.y != q.y || f.zero(p.y)) return Pt();
            V xx = m(p.x, p.x), n3 = m(f.num(3), xx);
            if (k == SW) l = m(s(n3, a), f.inv(s(p.y, p.y)));
            else l = m(s(s(n3, m(f.num(2), m(a, p.x))), f.one()), f.inv(m(f.num(2), m(b, p.y))));
        } else l = m(f.sub(q.y, p.y), f.inv(f.sub(q.x, p.x)));
        Pt r; r.inf = false;
        V ll = m(l, l);
        if (k == MO) ll = f.sub(m(b, ll), a);
        r.x = f.sub(f.sub(ll, p.x), q.x);
        r.y = f.sub(m(l, f.sub(p.x, r.x)), p.y);
        return r;
    }
    Pt mul(big e, Pt p) const { Pt r; while (e != 0) { if (e % 2 != 0) r = add(r, p); p = add(p, p); e /= 2; } return r; }
    std::string show(const Pt &p) const { return p.inf ? "O" : ::show(p.x) + "," + ::show(p.y); }
};
#endif
