// C13 (PROP=13): extension-field arithmetic. C14 (PROP=14): Frobenius, cyclotomic and sparse operations. C15 (PROP=15): powers, squares and roots.
// DEG selects the tower: 2, 3, 4 (2 over 2), 62 (2 over 3), 63 (3 over 2), 12 (2 over 3 over 2).
#include "tiny.hpp"
#include <unordered_set>
typedef long long I;
typedef std::vector<I> V;
using boost::multiprecision::uint128_t;
template<typename E> constexpr std::size_t dimof = conv::mk<E>::dim;

template<typename E>
struct Ctx {
    std::string nm;
    model::Tower<I> T = conv::tower<I, E>::get();
    static constexpr std::size_t n = dimof<E>;
    E el(const V &v) const { return conv::from<E>(v); }
    V val(const E &e) const { return conv::to<I>(e); }
    void eq(const char *op, const E &got, const V &want, const V &a, const V &b = {}) const {
        V g = val(got);
        if (g != want) mc::violation(mc::str("ext:", n, ":", op), mc::str(nm, " ", op, " a=", show(a), " b=", show(b), " got ", show(g), " want ", show(want)));
    }
    V zero() const { return V(n, 0); }
};
#if DEG == 2
#define FLD fields::fp2
#elif DEG == 3
#define FLD fields::fp3
#elif DEG == 4
#define FLD fields::fp4
#elif DEG == 62
#define FLD fields::fp6_2over3
#elif DEG == 63
#define FLD fields::fp6_3over2
#else
#define FLD fields::fp12_2over3over2
#endif

// is the tower of this field actually a field? (the non-residues used by the harness must be non-residues)
template<typename F> bool tower_ok() {
    u64 p = F::p;
    auto ns = [&](u64 k) { return (p - 1) % k == 0 && tiny::powm(F::nr, (p - 1) / k, p) != 1; };
    auto nx = [&](u64 k) { tiny::e2 r = tiny::pow2({F::x0, F::x1}, (p * p - 1) / k, F::nr, p); return (p * p - 1) % k == 0 && !(r.a == 1 && r.b == 0); };
    switch (DEG) {
        case 2: return ns(2);
        case 3: return ns(3);
        case 4: return ns(2) && p % 4 == 1;
        case 62: return ns(2) && ns(3);
        case 63: return ns(2) && nx(3) && p % 3 == 1;
        default: return ns(2) && nx(2) && nx(3) && p % 3 == 1;
    }
}
template<typename F> Ctx<typename FLD<F>::value_type> ctx() {
    Ctx<typename FLD<F>::value_type> c;
    c.nm = mc::str("p=", F::p, " nr=", F::nr, " xi=(", F::x0, ",", F::x1, ")");
    if (!tower_ok<F>()) { std::fprintf(stderr, "harness: bad tower %s\n", c.nm.c_str()); std::_Exit(9); }
    return c;
}
// representative vectors: dense patterns that exercise every coordinate
template<typename F> std::vector<V> dense(std::size_t n, int count) {
    std::vector<V> r;
    u64 s = 12345;
    for (int k = 0; k < count; ++k) {
        V v(n);
        for (auto &x : v) { s = s * 6364136223846793005ull + 1442695040888963407ull; x = I((s >> 33) % F::p); }
        r.push_back(v);
    }
    for (I c : {I(1), I(F::p - 1)}) r.push_back(V(n, c));
    return r;
}
template<typename F> std::vector<V> sparse(std::size_t n, unsigned k) {
    std::vector<V> r;
    std::set<I> vals {1, I(F::p - 1), 2};
    sparse_vectors<I>(n, k, V(vals.begin(), vals.end()), [&](const V &v) { r.push_back(v); });
    return r;
}
template<typename E, typename U>
void scalar_mul(const Ctx<E> &c, const char *op, const V &u, const V &a) {
    constexpr std::size_t d = dimof<U>;
    V e(u);
    e.resize(c.n, 0);
    V want = c.T.mul(e, a);
    const U s = conv::from<U>(u);
    const E x = c.el(a);
    (void)d;
    mc::step(op);
    c.eq(op, s * x, want, a, u);
    c.eq(op, x * s, want, a, u);
}
template<typename E>
void pair13(const Ctx<E> &c, const V &a, const V &b) {
    const E x = c.el(a), y = c.el(b);
    const V sum = c.T.add(a, b), dif = c.T.sub(a, b), prod = c.T.mul(a, b);
    mc::state(); mc::trace();
    mc::step("+"); c.eq("add", x + y, sum, a, b);
    mc::step("-"); c.eq("sub", x - y, dif, a, b);
    mc::step("*"); c.eq("mul", x * y, prod, a, b);
    { E t = x; mc::step("+="); E &r = (t += y); c.eq("add-assign", t, sum, a, b); MC_CHECK(&r == &t, "ext:ref", c.nm); }
    { E t = x; mc::step("-="); E &r = (t -= y); c.eq("sub-assign", t, dif, a, b); MC_CHECK(&r == &t, "ext:ref", c.nm); }
    { E t = x; mc::step("*="); E &r = (t *= y); c.eq("mul-assign", t, prod, a, b); MC_CHECK(&r == &t, "ext:ref", c.nm); }
    { E t = x; t = y; c.eq("assign", t, b, a, b); }
    mc::step("compare"); MC_CHECK((x == y) == (a == b) && (x != y) == (a != b), mc::str("ext:", c.n, ":equality"), c.nm, " a=", show(a), " b=", show(b));
    c.eq("left-operand", x, a, a, b); c.eq("right-operand", y, b, a, b);
}
template<typename E>
std::string printed(const E &, const V &v, std::size_t &at);
template<typename FP>
std::string printed(const fields::detail::element_fp<FP> &, const V &v, std::size_t &at) { return mc::str(v[at++]); }
template<typename E>
std::string printed(const E &e, const V &v, std::size_t &at) {
    std::string r = "[";
    for (std::size_t i = 0; i < e.data.size(); ++i) r += (i ? "," : "") + printed(e.data[i], v, at);
    return r + "]";
}
template<typename E>
void unary13(const Ctx<E> &c, const V &a) {
    const E x = c.el(a);
    mc::state(); mc::trace();
    c.eq("construct", x, a, a);
    mc::step("neg"); c.eq("neg", -x, c.T.neg(a), a);
    mc::step("doubled"); c.eq("doubled", x.doubled(), c.T.add(a, a), a);
    mc::step("squared"); c.eq("squared", x.squared(), c.T.mul(a, a), a);
    { E t = x; mc::step("aliasing"); t += t; c.eq("alias+=", t, c.T.add(a, a), a); t = x; t -= t; c.eq("alias-=", t, c.zero(), a); t = x; t *= t; c.eq("alias*=", t, c.T.mul(a, a), a); t = x; t = t; c.eq("alias=", t, a, a); }
    mc::step("is_zero"); MC_CHECK(x.is_zero() == (a == c.zero()) && x.is_one() == (a == c.T.one()), "ext:is-zero-one", c.nm, show(a));
    { E k(x); c.eq("copy", k, a, a); E m(std::move(k)); c.eq("move", m, a, a); }
    { mc::step("<<"); std::ostringstream o; o << x; std::size_t at = 0; std::string w = printed(x, a, at); MC_CHECK(o.str() == w, mc::str("ext:", c.n, ":stream"), c.nm, " printed ", o.str(), " want ", w); }
    if (a != c.zero()) {
        mc::step("inversed");
        V i = c.val(x.inversed());
        MC_CHECK(c.T.mul(a, i) == c.T.one(), mc::str("ext:", c.n, ":inverse"), c.nm, " a=", show(a), " inverse ", show(i));
    }
}
template<typename F>
void prop13(bool all_unary, bool all_pairs, unsigned sup) {
    if (!mc::mine()) return;
    typedef typename FLD<F>::value_type E;
    auto c = ctx<F>();
    mc::ScopedSpace s(mc::str("arithmetic of degree-", c.n, " towers: ", all_pairs ? "all pairs" : all_unary ? "all elements, pairs of sparse and dense vectors" : "sparse and dense vectors and their pairs"));
    c.eq("zero()", E::zero(), c.zero(), {}); c.eq("one()", E::one(), c.T.one(), {});
    std::vector<V> sp = sparse<F>(c.n, sup), de = dense<F>(c.n, 24);
    if (all_unary) all_vectors(c.n, F::p, [&](const V &v) { unary13(c, v); });
    else { for (auto &v : sparse<F>(c.n, sup + 1)) unary13(c, v); for (auto &v : dense<F>(c.n, 400)) unary13(c, v); }
    sp.insert(sp.end(), de.begin(), de.end());
    if (all_pairs) all_vectors(c.n, F::p, [&](const V &a) { all_vectors(c.n, F::p, [&](const V &b) { pair13(c, a, b); }); });
    else for (auto &a : sp) for (auto &b : sp) pair13(c, a, b);
    // scalar multiplication by every subfield for which an operator exists
    auto scal = [&](auto tag, const char *op) {
        typedef typename decltype(tag)::type U;
        constexpr std::size_t d = dimof<U>;
        std::vector<V> us;
        if (d <= 2 && F::p <= 31) all_vectors(d, F::p, [&](const V &v) { us.push_back(v); });
        else { us = sparse<F>(d, 2); auto t = dense<F>(d, 12); us.insert(us.end(), t.begin(), t.end()); }
        for (auto &u : us) for (auto &a : de) scalar_mul<E, U>(c, op, u, a);
        for (auto &u : us) for (std::size_t i = 0; i < c.n; ++i) scalar_mul<E, U>(c, op, u, conv::unit<I>(c.n, i));
    };
#if DEG == 2 || DEG == 3
    scal(std::common_type<typename E::underlying_type>(), "scalar(fp)");
#elif DEG == 62
    scal(std::common_type<typename E::underlying_type::underlying_type>(), "scalar(fp)");
#elif DEG == 63
    scal(std::common_type<typename E::underlying_type::underlying_type>(), "scalar(fp)");
    scal(std::common_type<typename E::underlying_type>(), "scalar(fp2)");
#elif DEG == 12
    scal(std::common_type<typename E::underlying_type::underlying_type::underlying_type>(), "scalar(fp)");
    scal(std::common_type<typename E::underlying_type::underlying_type>(), "scalar(fp2)");
    scal(std::common_type<typename E::underlying_type>(), "scalar(fp6)");
#endif
#if DEG == 2
    {
        std::unordered_set<E> hs;
        std::size_t cnt = 0;
        for (int rep = 0; rep < 2; ++rep) all_vectors(2, F::p, [&](const V &v) { mc::step("hash"); hs.insert(c.el(v)); cnt += rep == 0; });
        MC_CHECK(hs.size() == cnt, "ext:2:hash-set", c.nm);
        // helpers of the bn128 pairing are defined for u^2 = -1
        if (F::nr == F::p - 1) all_vectors(2, F::p, [&](const V &v) {
            E x = c.el(v);
            mc::step("mul_xi");
            c.eq("mul_xi", x.mul_xi(), c.T.mul(v, {I(9 % F::p), 1}), v);
            c.eq("mul_x", x.mul_x(), c.T.mul(v, {0, 1}), v);
            for (I k = 0; k < I(F::p); ++k) {
                typename E::underlying_type b = conv::from<typename E::underlying_type>(V {k});
                c.eq("mul_Fp_0", x.mul_Fp_0(b), c.T.mul(v, {k, 0}), v, {k});
                c.eq("mul_Fp_1", x.mul_Fp_1(b), c.T.mul(v, {0, k}), v, {k});
            }
        });
    }
#endif
}
// ---- C14 ------------------------------------------------------------------------------------------------------------
template<typename F>
void frobenius(bool all) {
    auto c = ctx<F>();
    mc::ScopedSpace s(mc::str("Frobenius powers of degree-", c.n, " towers", all ? ", all elements" : ", all basis multiples and dense vectors"));
    std::vector<V> vs;
    if (all) all_vectors(c.n, F::p, [&](const V &v) { vs.push_back(v); });
    else {
        for (std::size_t i = 0; i < c.n; ++i) for (I k = 0; k < I(F::p); ++k) { V v(c.n, 0); v[i] = k; vs.push_back(v); }
        auto d = dense<F>(c.n, 40);
        vs.insert(vs.end(), d.begin(), d.end());
    }
    for (auto &v : vs) {
        V want = v;
        mc::state(); mc::trace();
        auto x = c.el(v);
        std::vector<V> image;
        for (unsigned i = 0; i <= 2 * c.n + 1; ++i) {
            image.push_back(want);
            mc::step("Frobenius_map");
            c.eq("frobenius", x.Frobenius_map(i), want, v, {I(i)});
            c.eq("frobenius(size_t)", x.Frobenius_map(std::size_t(i) + c.n * 1000), want, v, {I(i)});
            want = c.T.pow(want, F::p);
        }
        // powers at the ends of the 8-, 16-, 32-, 63- and 64-bit ranges
        for (unsigned bits : {8u, 16u, 31u, 32u, 33u, 63u, 64u})
            for (int d = -int(c.n) - 1; d <= int(c.n) + 1; ++d) {
                if (bits == 64 && d >= 0) continue;
                const unsigned long long k = (bits == 64 ? 0ull : 1ull << bits) + (unsigned long long)(long long)(d);
                mc::step("Frobenius_map(wide)");
                c.eq("frobenius(wide power)", x.Frobenius_map(std::size_t(k)), image[k % c.n], v, {I(k % c.n), I(bits)});
            }
    }
}
#if DEG == 4 || DEG == 62 || DEG == 12
template<typename F>
void cyclotomic() {
    auto c = ctx<F>();
    typedef typename FLD<F>::value_type E;
    const I p = I(F::p);
    const I order = DEG == 4 ? p * p + 1 : DEG == 62 ? p * p - p + 1 : p * p * p * p - p * p + 1;
    mc::ScopedSpace s(mc::str("the whole cyclotomic subgroup of degree-", c.n, " towers"));
    // a generator: some x^((p^k - 1) / order) of full order
    big cof = 1;
    for (std::size_t i = 0; i < c.n; ++i) cof *= p;
    cof = (cof - 1) / order;
    std::vector<I> pf;
    for (I q = 2, m = order; m > 1; ++q) { if (q * q > m) q = m; if (m % q == 0) { pf.push_back(q); while (m % q == 0) m /= q; } }
    V g;
    for (auto &d : dense<F>(c.n, 60)) {
        V t = c.T.pow(d, cof);
        bool full = c.T.pow(t, order) == c.T.one();
        for (I q : pf) if (c.T.pow(t, order / q) == c.T.one()) full = false;
        if (full) { g = t; break; }
    }
    if (g.empty()) { std::fprintf(stderr, "harness: no generator\n"); std::_Exit(9); }
    std::vector<V> pw {c.T.one()};
    for (I i = 1; i < order; ++i) pw.push_back(c.T.mul(pw.back(), g));
    for (I i = 0; i < order; ++i) {
        E x = c.el(pw[i]);
        mc::state(); mc::trace();
        mc::step("cyclotomic_squared"); c.eq("cyclotomic_squared", x.cyclotomic_squared(), pw[2 * i % order], pw[i]);
        mc::step("unitary_inversed"); c.eq("unitary_inversed", x.unitary_inversed(), pw[(order - i) % order], pw[i]);
        E y = x.cyclotomic_squared().cyclotomic_squared() * x;
        c.eq("cyclotomic_chain", y, pw[5 * i % order], pw[i]);
    }
    // every unitary element made from a closed set of elements: x^(p^(n/2) - 1), plus and minus one (outside the cyclotomic subgroup too)
    {
        big half = 1;
        for (std::size_t i = 0; i < c.n / 2; ++i) half *= p;
        auto uni = [&](const V &u, const V &inv) { mc::state(); mc::trace(); mc::step("unitary_inversed"); c.eq("unitary_inversed", c.el(u).unitary_inversed(), inv, u); };
        V mone = c.T.one(); for (auto &x : mone) x = (p - x) % p;
        uni(c.T.one(), c.T.one()); uni(mone, mone);
        std::vector<V> xs;
        for (auto &d : dense<F>(c.n, mc::thorough ? 400 : 80)) xs.push_back(d);
        for (std::size_t i = 0; i < c.n; ++i) for (std::size_t j = i; j < c.n; ++j) for (I b : {I(1), I(2), p - 1}) { V v = c.T.one(); for (auto &x : v) x = 0; v[i] = 1; if (j != i) v[j] = b; xs.push_back(v); }
        for (auto &x : xs) {
            bool z = true; for (auto &y : x) z = z && y == 0;
            if (z) continue;
            V u = c.T.pow(x, big(half - 1)), v = c.T.pow(u, half);
            if (c.T.mul(u, v) != c.T.one()) { std::fprintf(stderr, "harness: not unitary\n"); std::_Exit(9); }
            uni(u, v);
        }
    }
    auto cexp = [&](I i, auto e, const big &be) {
        mc::step("cyclotomic_exp");
        I k = (big(i) * be % order).convert_to<I>();
        c.eq("cyclotomic_exp", c.el(pw[i]).cyclotomic_exp(e), pw[k], pw[i], {I(be % 1000000007)});
    };
    typedef typename F::extended_integral_type X;
    typedef boost::multiprecision::number<boost::multiprecision::backends::cpp_int_modular_backend<150>> W;
    typedef boost::multiprecision::number<boost::multiprecision::backends::cpp_int_modular_backend<64>> W64;
    for (I e = 0; e < (mc::thorough ? 4096 : 700); ++e) for (I i : {I(1), order / 2, order - 1}) { cexp(i, W64(u64(e)), e); }
    for (unsigned sft = 0; sft < 150; ++sft) for (int d = -3; d <= 3; ++d) {
        big b = (big(1) << sft) + d;
        if (b < 0 || msb(b + 1) >= 150) continue;
        mc::state();
        cexp(1, W(b), b); cexp(order / 3, W(b), b);
    }
    cexp(1, W((big(1) << 150) - 1), (big(1) << 150) - 1);
    if (F::modulus_bits * 16 >= 32) cexp(1, X(u64(0xABCDEF)), 0xABCDEF);
}
#endif
template<typename F>
void sparse_mul() {
    auto c = ctx<F>();
    typedef typename FLD<F>::value_type E;
    (void)c;
    mc::ScopedSpace s("sparse multiplications: all shapes of the sparse operand");
    std::vector<V> xs = sparse<F>(c.n, 2), de = dense<F>(c.n, 30);
    xs.insert(xs.end(), de.begin(), de.end());
#if DEG == 4
    all_vectors(3, F::p < 8 ? F::p : 3, [&](const V &q) {
        V o {q[0], 0, q[1], q[2]};
        for (auto &x : xs) { mc::state(); mc::trace(); mc::step("mul_by_023"); c.eq("mul_by_023", c.el(x).mul_by_023(c.el(o)), c.T.mul(x, o), x, o); }
    });
#elif DEG == 62
    std::vector<V> qs = sparse<F>(4, 3), q2 = dense<F>(4, 30);
    qs.insert(qs.end(), q2.begin(), q2.end());
    for (auto &q : qs) {
        V o {0, 0, q[0], q[1], q[2], q[3]};
        for (auto &x : xs) { mc::state(); mc::trace(); mc::step("mul_by_2345"); c.eq("mul_by_2345", c.el(x).mul_by_2345(c.el(o)), c.T.mul(x, o), x, o); }
    }
#elif DEG == 12
    typedef typename E::underlying_type::underlying_type E2;
    std::vector<V> qs = sparse<F>(6, 2), q2 = dense<F>(6, 30);
    qs.insert(qs.end(), q2.begin(), q2.end());
    for (auto &q : qs) {
        E2 e0 = conv::from<E2>(V {q[0], q[1]}), vw = conv::from<E2>(V {q[2], q[3]}), vv = conv::from<E2>(V {q[4], q[5]});
        V o45 {q[2], q[3], 0, 0, 0, 0, 0, 0, q[0], q[1], q[4], q[5]};    // (ell_VW, 0, 0) + (0, ell_0, ell_VV) w
        V o24 {q[0], q[1], 0, 0, q[4], q[5], 0, 0, q[2], q[3], 0, 0};    // (ell_0, 0, ell_VV) + (0, ell_VW, 0) w
        for (auto &x : xs) {
            mc::state(); mc::trace();
            mc::step("mul_by_045"); c.eq("mul_by_045", c.el(x).mul_by_045(e0, vw, vv), c.T.mul(x, o45), x, q);
            mc::step("mul_by_024"); c.eq("mul_by_024", c.el(x).mul_by_024(e0, vw, vv), c.T.mul(x, o24), x, q);
        }
    }
#endif
    // multiplication by the non-residue of the tower step
#if DEG != 2 && DEG != 3
    {
        typedef typename E::underlying_type U;
        auto TU = conv::tower<I, U>::get();
        V nr = c.T.lv.back().nr;
        for (auto &u : [&] { auto r = sparse<F>(dimof<U>, 2); auto d = dense<F>(dimof<U>, 50); r.insert(r.end(), d.begin(), d.end()); return r; }()) {
            mc::state(); mc::step("mul_by_non_residue");
            V got = conv::to<I>(E::one().mul_by_non_residue(conv::from<U>(u)));
            MC_CHECK(got == TU.mul(u, nr), mc::str("ext:", c.n, ":mul_by_non_residue"), c.nm, " u=", show(u), " got ", show(got));
        }
    }
#endif
}
// ---- C15 ------------------------------------------------------------------------------------------------------------
template<typename F>
void powers() {
    auto c = ctx<F>();
    mc::ScopedSpace s(mc::str("powers in degree-", c.n, " towers: all exponents up to a bound and around powers of two"));
    typedef boost::multiprecision::number<boost::multiprecision::backends::cpp_int_modular_backend<140>> W;
    auto vs = dense<F>(c.n, 3);
    vs.push_back(c.zero());
    vs.push_back(c.T.one());
    for (auto &v : vs) {
        V w = c.T.one();
        auto x = c.el(v);
        for (unsigned e = 0; e < 600; ++e) {
            mc::state(); mc::trace(); mc::step("pow");
            c.eq("pow", x.pow(uint128_t(e)), w, v, {I(e)});
            c.eq("power", fields::detail::power(x, W(e)), w, v, {I(e)});
            w = c.T.mul(w, v);
        }
        for (unsigned sft = 9; sft < 140; ++sft) for (int d = -1; d <= 1; ++d) {
            big b = (big(1) << sft) + d;
            mc::state(); mc::step("pow");
            c.eq("pow-large", x.pow(W(b)), c.T.pow(v, b), v, {I(sft), d});
        }
    }
}
#if DEG == 2 || DEG == 3
template<typename F>
void roots() {
    auto c = ctx<F>();
    mc::ScopedSpace s(mc::str("squares and square roots: every element of GF(p^", c.n, ")"));
    std::set<V> squares;
    all_vectors(c.n, F::p, [&](const V &v) { squares.insert(c.T.mul(v, v)); });
    all_vectors(c.n, F::p, [&](const V &v) {
        mc::state(); mc::trace();
        auto x = c.el(v);
        bool sq = squares.count(v) != 0;
        mc::step("is_square"); MC_CHECK(x.is_square() == sq, mc::str("ext:", c.n, ":is_square"), c.nm, " a=", show(v), " is_square ", x.is_square());
        if (sq) {
            mc::cur_args = mc::str(c.nm, " a=", show(v));
            mc::step("sqrt");
            V r = c.val(x.sqrt());
            MC_CHECK(c.T.mul(r, r) == v, mc::str("ext:", c.n, ":sqrt"), c.nm, " a=", show(v), " sqrt ", show(r));
        }
    });
}
#endif

int main(int argc, char **argv) {
    mc::init(argc, argv, "ext");
    mc::hang_limit_s = 30;
#if DEG == 2
#define EACH(f) f(5, 2) f(7, -1) f(7, 5) f(11, -1) f(13, 2) f(17, 3) f(3, 2)
#define MORE(f) f(19, -1) f(23, 5) f(31, -1) f(29, 2) f(41, 3) f(97, 5) f(103, -1)
#elif DEG == 3
#define EACH(f) f(7, 2) f(7, 3)
#define MORE(f) f(13, 2) f(19, 2) f(31, 3)
#elif DEG == 4
#define EACH(f) f(5, 2) f(5, 3)
#define MORE(f) f(13, 2) f(17, 3) f(29, 2)
#elif DEG == 62
#define EACH(f) f(7, 3)
#define MORE(f) f(13, 2) f(31, 3) f(7, 5) f(103, 5)
#elif DEG == 63    // the shipped Frobenius formulas of the cubic step need p = 1 mod 3
#define EACH(f) f(7, -1, 2, 1)
#define MORE(f) f(13, 2, 0, 1) f(19, -1, 1, 1) f(31, 3, 4, 1) f(103, -1, 2, 1) f(7, -1, 1, 2)
#else
#define EACH(f) f(7, -1, 2, 1) f(13, 2, 0, 1)
#define MORE(f) f(19, -1, 1, 1) f(31, 3, 4, 1) f(103, -1, 2, 1) f(7, -1, 1, 2)
#endif
#if PROP == 13
#define A(...) prop13<tiny::tf<__VA_ARGS__>>(DEG <= 4 || (DEG == 63) || (DEG == 62 && mc::thorough), DEG == 2 || (DEG == 3) || (DEG == 4 && mc::thorough), 2);
#define B(...) prop13<tiny::tf<__VA_ARGS__>>(DEG <= 4 && tiny::tf<__VA_ARGS__>::p < 24, DEG == 2 && tiny::tf<__VA_ARGS__>::p < (mc::thorough ? 32 : 20), mc::thorough || DEG <= 4 ? 2 : 1);
    EACH(A) MORE(B)
#elif PROP == 14
#define A(...) if (mc::mine()) frobenius<tiny::tf<__VA_ARGS__>>(DEG <= 4); if (mc::mine()) sparse_mul<tiny::tf<__VA_ARGS__>>();
#define B(...) if (mc::mine()) frobenius<tiny::tf<__VA_ARGS__>>(DEG == 2); if (mc::mine()) sparse_mul<tiny::tf<__VA_ARGS__>>();
    EACH(A) MORE(B)
#if DEG == 4 || DEG == 62 || DEG == 12
#define C(...) if (mc::mine()) cyclotomic<tiny::tf<__VA_ARGS__>>();
    EACH(C)
#if DEG != 12
    MORE(C)
#else
    C(7, -1, 1, 2)
    if (mc::thorough) { C(19, -1, 1, 1) }
#endif
#endif
#else
#define A(...) if (mc::mine()) powers<tiny::tf<__VA_ARGS__>>();
    EACH(A)
#if DEG == 2 || DEG == 3
#define B(...) if (mc::mine()) roots<tiny::tf<__VA_ARGS__>>();
    EACH(B) MORE(B)
#endif
#endif
    mc::sample("tower " + std::to_string(DEG) + ": implementation results equal schoolbook arithmetic in the same basis");
    return mc::finish();
}
