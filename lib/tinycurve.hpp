// Tiny curves instantiated from the shipped curve_element templates, and an independent table-driven affine group model.
#ifndef VERIF_TINYCURVE_HPP
#define VERIF_TINYCURVE_HPP
#include "tiny.hpp"
#include <nil/crypto3/algebra/curves/forms.hpp>
#include <nil/crypto3/algebra/curves/params.hpp>
#include <nil/crypto3/algebra/curves/detail/forms/short_weierstrass/coordinates.hpp>
#include <nil/crypto3/algebra/curves/detail/forms/twisted_edwards/coordinates.hpp>
#include <nil/crypto3/algebra/curves/detail/forms/edwards/coordinates.hpp>
#include <nil/crypto3/algebra/curves/detail/forms/montgomery/coordinates.hpp>
namespace curves = nil::crypto3::algebra::curves;
namespace coords = nil::crypto3::algebra::curves::coordinates;
typedef nil::crypto3::algebra::curves::forms forms;

namespace tc {
    // ---- finite field as index tables, built by schoolbook arithmetic -------------------------------------------------
    template<typename F>
    struct Tab {
        typedef typename F::value_type V;
        u32 q = 0, p = 0, d = 0;
        std::vector<u32> add_, mul_, neg_, inv_;
        std::vector<V> el;
        Tab() {
            auto t = conv::tower<long long, V>::get();
            p = u32(t.p); d = u32(t.dim());
            q = 1; for (u32 i = 0; i < d; ++i) q *= p;
            add_.resize(q * q); mul_.resize(q * q); neg_.resize(q); inv_.assign(q, 0);
            for (u32 i = 0; i < q; ++i) el.push_back(conv::from<V>(vec(i)));
            for (u32 i = 0; i < q; ++i) for (u32 j = 0; j < q; ++j) {
                add_[i * q + j] = index(t.add(vec(i), vec(j)));
                u32 m = mul_[i * q + j] = index(t.mul(vec(i), vec(j)));
                if (add_[i * q + j] == 0) neg_[i] = j;
                if (m == 1) inv_[i] = j;
            }
        }
        std::vector<long long> vec(u32 i) const { std::vector<long long> v(d); for (u32 k = 0; k < d; ++k) { v[k] = i % p; i /= p; } return v; }
        u32 index(const std::vector<long long> &v) const { u32 r = 0; for (u32 k = d; k-- > 0;) r = r * p + u32(v[k]); return r; }
        u32 add(u32 a, u32 b) const { return add_[a * q + b]; }
        u32 mul(u32 a, u32 b) const { return mul_[a * q + b]; }
        u32 neg(u32 a) const { return neg_[a]; }
        u32 sub(u32 a, u32 b) const { return add(a, neg(b)); }
        u32 inv(u32 a) const { return inv_[a]; }
        u32 div(u32 a, u32 b) const { return mul(a, inv(b)); }
        u32 sq(u32 a) const { return mul(a, a); }
        u32 num(long long k) const { return u32(((k % (long long)p) + p) % p); }
        u32 of(const V &x) const { return index(conv::to<long long>(x)); }
        static const Tab &get() { static const Tab t; return t; }
    };

    // ---- parameter structures for the shipped templates; coefficients are run-time values -----------------------------
    template<typename Params, typename Form, typename C> struct group;
    template<typename F, typename Base, typename Scalar> struct curve_of;

    template<typename F, typename Base = F, typename Scalar = Base>
    struct params {
        typedef F field_type;
        typedef Base base_field_type;
        typedef Scalar scalar_field_type;
        typedef typename F::value_type V;
        typedef curve_of<F, Base, Scalar> curve_type;
        static inline V a, b, c, d, A, B;
        static inline std::array<V, 2> zero_fill, one_fill;
    };
    template<typename F, typename Base, typename Scalar, typename Form>
    struct params_f : params<F, Base, Scalar> {
        template<typename C> using group_type = group<params_f, Form, C>;
    };
    template<typename Params, typename Form, typename C>
    struct group {
        typedef Params params_type;
        typedef typename Params::curve_type curve_type;
        typedef typename Params::field_type field_type;
        static constexpr std::size_t value_bits = field_type::value_bits + 1;
        typedef curves::detail::curve_element<Params, Form, C> value_type;
    };
    template<typename F, typename Base, typename Scalar>
    struct curve_of {
        typedef Base base_field_type;
        typedef Scalar scalar_field_type;
        static inline typename Scalar::integral_type q;
        template<typename C, typename Form = forms::short_weierstrass> using g1_type = group<params_f<F, Base, Scalar, Form>, Form, C>;
    };
    template<typename F, typename Form, typename C, typename Base = F, typename Scalar = Base>
    using elem = typename group<params_f<F, Base, Scalar, Form>, Form, C>::value_type;

    // ---- model groups: points by index, 0 = neutral element ------------------------------------------------------------
    struct Pt { u32 x, y; bool inf; };
    template<typename F>
    struct Model {
        const Tab<F> &t = Tab<F>::get();
        std::vector<Pt> pts;
        std::vector<int> at;                  // x * q + y -> index or -1
        std::vector<int> add_, neg_;          // add_: -1 where the affine law is not defined (incomplete Edwards curves)
        int add(int i, int j) const { return add_[i * int(pts.size()) + j]; }
        int neg(int i) const { return neg_[i]; }
        int mul(int i, unsigned long long k) const { int r = 0; for (int b = 63; b >= 0; --b) { r = add(r, r); if (r >= 0 && ((k >> b) & 1)) r = add(r, i); } return r; }
        int n() const { return int(pts.size()); }
        int find(u32 x, u32 y) const { return at[x * t.q + y]; }
        std::string show(int i) const { return i < 0 ? "(not a point)" : pts[i].inf ? "O" : mc::str("(", ::show(t.vec(pts[i].x)), ",", ::show(t.vec(pts[i].y)), ")"); }
        template<typename On> void collect(On on, bool inf) {
            pts.clear(); at.assign(t.q * t.q, -1);
            if (inf) pts.push_back({0, 0, true});
            for (u32 x = 0; x < t.q; ++x) for (u32 y = 0; y < t.q; ++y) if (on(x, y)) pts.push_back({x, y, false});
        }
        void index() { for (std::size_t i = 0; i < pts.size(); ++i) if (!pts[i].inf) at[pts[i].x * t.q + pts[i].y] = int(i); }
        template<typename Sum, typename Neg> void tables(Sum s, Neg ng) {
            add_.assign(n() * n(), -1); neg_.assign(n(), -1);
            for (int i = 0; i < n(); ++i) { neg_[i] = ng(i); for (int j = 0; j < n(); ++j) add_[i * n() + j] = s(i, j); }
        }
        // y^2 = x^3 + a x + b, chord and tangent
        bool weierstrass(u32 a, u32 b) {
            u32 disc = t.add(t.mul(t.num(4), t.mul(a, t.sq(a))), t.mul(t.num(27), t.sq(b)));
            if (disc == 0) return false;
            collect([&](u32 x, u32 y) { return t.sq(y) == t.add(t.add(t.mul(x, t.sq(x)), t.mul(a, x)), b); }, true);
            index();
            tables([&](int i, int j) { return chord(i, j, t.num(0), t.num(1), a); }, [&](int i) { return i == 0 ? 0 : find(pts[i].x, t.neg(pts[i].y)); });
            return true;
        }
        // B y^2 = x^3 + A x^2 + x
        bool montgomery(u32 A, u32 B) {
            if (B == 0 || t.sq(A) == t.num(4)) return false;
            collect([&](u32 x, u32 y) { return t.mul(B, t.sq(y)) == t.add(t.add(t.mul(x, t.sq(x)), t.mul(A, t.sq(x))), x); }, true);
            index();
            tables([&](int i, int j) { return chord(i, j, A, B, t.num(1)); }, [&](int i) { return i == 0 ? 0 : find(pts[i].x, t.neg(pts[i].y)); });
            return true;
        }
        // B y^2 = x^3 + A x^2 + a x + ...
        int chord(int i, int j, u32 A, u32 B, u32 a) const {
            if (i == 0) return j;
            if (j == 0) return i;
            const Pt &P = pts[i], &Q = pts[j];
            u32 l;
            if (P.x == Q.x) {
                if (P.y != Q.y || P.y == 0) return 0;
                l = t.div(t.add(t.add(t.mul(t.num(3), t.sq(P.x)), t.mul(t.mul(t.num(2), A), P.x)), a), t.mul(t.mul(t.num(2), B), P.y));
            } else l = t.div(t.sub(Q.y, P.y), t.sub(Q.x, P.x));
            u32 x = t.sub(t.sub(t.sub(t.mul(B, t.sq(l)), A), P.x), Q.x);
            u32 y = t.sub(t.mul(l, t.sub(P.x, x)), P.y);
            return find(x, y);
        }
        // a x^2 + y^2 = c^2 (1 + d x^2 y^2)
        bool edwards(u32 a, u32 d, u32 c = 1) {
            u32 c2 = t.sq(c);
            if (a == 0 || d == 0 || a == d || c == 0 || t.mul(d, t.sq(c2)) == 1) return false;
            collect([&](u32 x, u32 y) { return t.add(t.mul(a, t.sq(x)), t.sq(y)) == t.mul(c2, t.add(1, t.mul(d, t.mul(t.sq(x), t.sq(y))))); }, false);
            for (std::size_t i = 0; i < pts.size(); ++i) if (pts[i].x == 0 && pts[i].y == c) std::swap(pts[0], pts[i]);
            index();
            tables([&](int i, int j) {
                const Pt &P = pts[i], &Q = pts[j];
                u32 k = t.mul(d, t.mul(t.mul(P.x, Q.x), t.mul(P.y, Q.y)));
                u32 e = t.mul(c, t.add(1, k)), f = t.mul(c, t.sub(1, k));
                if (e == 0 || f == 0) return -1;
                return find(t.div(t.add(t.mul(P.x, Q.y), t.mul(P.y, Q.x)), e), t.div(t.sub(t.mul(P.y, Q.y), t.mul(a, t.mul(P.x, Q.x))), f));
            }, [&](int i) { return find(t.neg(pts[i].x), pts[i].y); });
            return true;
        }
        bool complete() const { for (int v : add_) if (v < 0) return false; return true; }
        // sanity of the model itself: closed, associative, inverses
        bool is_group() const {
            for (int i = 0; i < n(); ++i) {
                if (add(0, i) != i || add(i, 0) != i || neg(i) < 0 || add(i, neg(i)) > 0) return false;
                for (int j = 0; j < n(); ++j) {
                    if (add(i, j) != add(j, i)) return false;
                    if (add(i, j) < 0) continue;
                    for (int k = 0; k < n(); k += (n() > 60 ? 7 : 1)) {
                        if (add(j, k) < 0 || add(add(i, j), k) < 0 || add(i, add(j, k)) < 0) continue;
                        if (add(add(i, j), k) != add(i, add(j, k))) return false;
                    }
                }
            }
            return true;
        }
    };
}    // namespace tc

// type of the curve_type::g2_type etc. is not needed by the checks
#endif
