// Independent model of the ate pairing: textbook Miller algorithm with affine chord-and-tangent arithmetic over the full extension field.
#ifndef VERIF_PAIRMODEL_HPP
#define VERIF_PAIRMODEL_HPP
#include "tiny.hpp"
namespace pm {
    typedef model::Vec<big> V;
    inline big inv_mod(const big &a, const big &p) {
        big r0 = p, r1 = model::modp<big>(a, p), t0 = 0, t1 = 1;
        while (r1 != 0) { big q = r0 / r1, x = r0 - q * r1; r0 = r1; r1 = x; x = t0 - q * t1; t0 = t1; t1 = x; }
        return model::modp<big>(t0, p);
    }
    struct Fld : model::Tower<big> {
        Fld(const model::Tower<big> &t) : model::Tower<big>(t) {}
        V num(big k) const { V r(dim(), big(0)); r[0] = model::modp<big>(k, p); return r; }
        bool zero(const V &a) const { for (auto &x : a) if (x != 0) return false; return true; }
        V inv(const V &a) const {    // solve a * x = 1
            std::size_t n = dim();
            if (n == 1) return {inv_mod(a[0], p)};
            std::vector<V> m(n, V(n + 1, big(0)));
            for (std::size_t j = 0; j < n; ++j) { V e(n, big(0)); e[j] = 1; V c = mul(a, e); for (std::size_t i = 0; i < n; ++i) m[i][j] = c[i]; }
            m[0][n] = 1;
            for (std::size_t c = 0; c < n; ++c) {
                std::size_t r = c;
                while (m[r][c] == 0) ++r;
                std::swap(m[r], m[c]);
                big k = inv_mod(m[c][c], p);
                for (auto &x : m[c]) x = x * k % p;
                for (std::size_t i = 0; i < n; ++i) if (i != c && m[i][c] != 0) { big f = m[i][c]; for (std::size_t j = c; j <= n; ++j) m[i][j] = model::modp<big>(m[i][j] - f * m[c][j], p); }
            }
            V r(n); for (std::size_t i = 0; i < n; ++i) r[i] = m[i][n];
            return r;
        }
        V div(const V &a, const V &b) const { return mul(a, inv(b)); }
        V pow(const V &a, const big &e) const {    // left to right
            V r = one();
            if (e == 0) return r;
            for (long i = long(msb(e)); i >= 0; --i) { r = mul(r, r); if (bit_test(e, unsigned(i))) r = mul(r, a); }
            return r;
        }
        V embed(const V &a, std::size_t at = 0) const { V r(dim(), big(0)); for (std::size_t i = 0; i < a.size(); ++i) r[at + i] = a[i]; return r; }
    };
    struct Pt { bool inf = true; V x, y; };
    // B y^2 = x^3 + A x^2 + a x + ...
    struct Cubic {
        const Fld &f; V A, B, a;
        // slope of the line through P and R; false: vertical
        bool slope(const Pt &P, const Pt &R, V &l) const {
            if (P.x == R.x) {
                if (P.y != R.y || f.zero(P.y)) return false;
                V n = f.add(f.add(f.mul(f.num(3), f.mul(P.x, P.x)), f.mul(f.num(2), f.mul(A, P.x))), a);
                l = f.div(n, f.mul(f.num(2), f.mul(B, P.y)));
            } else l = f.div(f.sub(R.y, P.y), f.sub(R.x, P.x));
            return true;
        }
        // adds R to P; value of the line at X divided by the vertical through the sum
        V step(Pt &P, const Pt &R, const Pt &X) const {
            if (P.inf) { P = R; return f.one(); }
            if (R.inf) return f.one();
            V l;
            if (!slope(P, R, l)) { V v = f.sub(X.x, P.x); P = Pt(); return v; }
            V num = f.sub(f.sub(X.y, P.y), f.mul(l, f.sub(X.x, P.x)));
            V x = f.sub(f.sub(f.sub(f.mul(B, f.mul(l, l)), A), P.x), R.x);
            V y = f.sub(f.mul(l, f.sub(P.x, x)), P.y);
            P.inf = false; P.x = x; P.y = y;
            return f.div(num, f.sub(X.x, x));
        }
        V miller(const Pt &Q, const Pt &P, const big &T) const {    // f_{|T|,Q}(P), inverted for negative T
            if (Q.inf || P.inf) return f.one();
            V r = f.one(); Pt R = Q; big n = abs(T);
            for (long i = long(msb(n)) - 1; i >= 0; --i) {
                r = f.mul(f.mul(r, r), step(R, R, P));
                if (bit_test(n, unsigned(i))) r = f.mul(r, step(R, Q, P));
            }
            if (T < 0) r = f.inv(f.mul(r, R.inf ? f.one() : f.sub(P.x, R.x)));
            return r;
        }
    };
    // trace minus one: the representative of q modulo r closest to zero
    inline big loop(const big &q, const big &r) { big t = q % r; return t > r / 2 ? big(t - r) : t; }
    enum Twist { BLS = 1, MNT4 = 2, MNT6 = 3, EDWARDS = 4 };
    // P, Q: affine coordinates over the base field and over the twist's field
    inline V ate(const Fld &f, Twist tw, const V &px, const V &py, const V &qx, const V &qy, const V &a, const big &T) {
        Pt P, Q; P.inf = Q.inf = false;
        P.x = f.embed(px); P.y = f.embed(py); Q.x = f.embed(qx); Q.y = f.embed(qy);
        const std::size_t k = f.dim();
        V zero(k, big(0));
        V u = f.embed({1}, 1), v = f.embed({1}, k / 2);    // MNT, Edwards: v^2 = u, u the generator of the twist's field
        if (tw == BLS) {    // w^2 = v, v^3 = xi
            V w = f.embed({1}, 6), w2 = f.embed({1}, 2);
            Q.x = f.div(Q.x, w2); Q.y = f.div(Q.y, f.mul(w2, w));
            return Cubic {f, zero, f.one(), f.embed(a)}.miller(Q, P, T);
        }
        if (tw == MNT4 || tw == MNT6) {
            Q.x = f.div(Q.x, u); Q.y = f.div(Q.y, f.mul(u, v));
            return Cubic {f, zero, f.one(), f.embed(a)}.miller(Q, P, T);
        }
        // x^2 + y^2 = 1 + d x^2 y^2 through the Montgomery curve with A = 2 (1 + d) / (1 - d), B = 4 / (1 - d); a holds d
        Q.x = f.mul(Q.x, v);
        V d = f.embed(a), e = f.sub(f.one(), d), A = f.div(f.mul(f.num(2), f.add(f.one(), d)), e), B = f.div(f.num(4), e);
        auto to = [&](Pt &X) {
            V x = f.div(f.add(f.one(), X.y), f.sub(f.one(), X.y));
            X.y = f.div(x, X.x); X.x = x;
        };
        to(P); to(Q);
        return Cubic {f, A, B, f.one()}.miller(Q, P, T);
    }
}    // namespace pm
#endif
