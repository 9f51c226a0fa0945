// C12: prime field elements. Every element (pair) of tiny prime fields, and a boundary-value grid of word-boundary and shipped fields.
#include "tiny.hpp"
#include <nil/crypto3/algebra/fields/detail/element/operations.hpp>
#if PART == 2
#include <nil/crypto3/algebra/fields/pallas/base_field.hpp>
#include <nil/crypto3/algebra/fields/pallas/scalar_field.hpp>
#include <nil/crypto3/algebra/fields/bls12/base_field.hpp>
#include <nil/crypto3/algebra/fields/bls12/scalar_field.hpp>
#include <nil/crypto3/algebra/fields/alt_bn128/base_field.hpp>
#include <nil/crypto3/algebra/fields/alt_bn128/scalar_field.hpp>
#include <nil/crypto3/algebra/fields/goldilocks64/base_field.hpp>
#include <nil/crypto3/algebra/fields/curve25519/base_field.hpp>
#include <nil/crypto3/algebra/fields/secp/secp_k1/base_field.hpp>
#include <nil/crypto3/algebra/fields/secp/secp_r1/base_field.hpp>
#include <nil/crypto3/algebra/fields/mnt4/base_field.hpp>
#include <nil/crypto3/algebra/fields/mnt6/base_field.hpp>
#include <nil/crypto3/algebra/fields/edwards/base_field.hpp>
#include <nil/crypto3/algebra/fields/maxprime.hpp>
#endif
#include <unordered_set>

template<typename I> I mpow(I b, I e, const I &p) { I r = I(1) % p; b %= p; while (e > 0) { if (e % 2 != 0) r = r * b % p; b = b * b % p; e /= 2; } return r; }

template<typename F, typename I>
struct Chk {
    typedef typename F::value_type E;
    typedef typename F::integral_type N;
    const I p = I(big(F::modulus));
    std::string nm;
    E el(const I &v) const { I w = model::modp<I>(v, p); return conv::mk<E>::at(&w); }
    I val(const E &e) const { return conv::to<I>(e)[0]; }
    I m(const I &v) const { return model::modp<I>(v, p); }
    void eq(const char *op, const E &got, const I &want, const I &a, const I &b) const {
        if (!(val(got) == m(want))) mc::violation(std::string("fp:") + op, mc::str(nm, " ", op, " a=", a, " b=", b, " got ", val(got), " want ", m(want)));
    }
    void pair(const I &a, const I &b) const {
        const E x = el(a), y = el(b);
        mc::state(); mc::trace();
        mc::step("+"); eq("add", x + y, a + b, a, b);
        mc::step("-"); eq("sub", x - y, a - b, a, b);
        mc::step("*"); eq("mul", x * y, a * b, a, b);
        { E t = x; mc::step("+="); E &r = (t += y); eq("add-assign", t, a + b, a, b); MC_CHECK(&r == &t, "fp:add-assign-ref", nm); }
        { E t = x; mc::step("-="); E &r = (t -= y); eq("sub-assign", t, a - b, a, b); MC_CHECK(&r == &t, "fp:sub-assign-ref", nm); }
        { E t = x; mc::step("*="); E &r = (t *= y); eq("mul-assign", t, a * b, a, b); MC_CHECK(&r == &t, "fp:mul-assign-ref", nm); }
        { E t = x; mc::step("="); t = y; eq("assign", t, b, a, b); }
        eq("operands-left", x, a, a, b); eq("operands-right", y, b, a, b);
        mc::step("compare");
        MC_CHECK((x == y) == (a == b) && (x != y) == (a != b), "fp:equality", nm, " a=", a, " b=", b);
        MC_CHECK((x < y) == (a < b) && (x > y) == (a > b) && (x <= y) == (a <= b) && (x >= y) == (a >= b), "fp:order", nm, " a=", a, " b=", b);
        if (b != 0) { mc::step("division"); E q = x * y.inversed(); eq("div-mul", q * y, a, a, b); }
    }
    void unary(const I &a, bool square = true) const {
        const E x = el(a);
        mc::state(); mc::trace();
        eq("construct", x, a, a, 0);
        mc::step("neg"); eq("neg", -x, -a, a, 0);
        mc::step("doubled"); eq("doubled", x.doubled(), a + a, a, 0);
        mc::step("squared"); eq("squared", x.squared(), a * a, a, 0);
        { E t = x; mc::step("++"); E &r = ++t; eq("preinc", t, a + 1, a, 0); MC_CHECK(&r == &t, "fp:preinc-ref", nm); E o = t++; eq("postinc-old", o, a + 1, a, 0); eq("postinc", t, a + 2, a, 0); }
        { E t = x; mc::step("--"); E &r = --t; eq("predec", t, a - 1, a, 0); MC_CHECK(&r == &t, "fp:predec-ref", nm); E o = t--; eq("postdec-old", o, a - 1, a, 0); eq("postdec", t, a - 2, a, 0); }
        { E t = x; t += t; eq("alias+=", t, a + a, a, 0); t = x; t -= t; eq("alias-=", t, 0, a, 0); t = x; t *= t; eq("alias*=", t, a * a, a, 0); }
        mc::step("is_zero"); MC_CHECK(x.is_zero() == (a == 0) && x.is_one() == (a == m(1)), "fp:is-zero-one", nm, " a=", a);
        { E c(x); eq("copy", c, a, a, 0); E d(std::move(c)); eq("move", d, a, a, 0); }
        if (a != 0) {
            mc::step("inversed");
            E i = x.inversed();
            eq("inverse", x * i, 1, a, 0); eq("inverse-fermat", i, mpow<I>(a, p - 2, p), a, 0);
        }
        if (square) {
            I h = (p - 1) / 2;
            bool sq = a == 0 || mpow<I>(a, h, p) == 1;
            if constexpr (has_half<F>(0)) { mc::step("is_square"); MC_CHECK(x.is_square() == sq, "fp:is_square", nm, " a=", a); }
            if (sq) { mc::step("sqrt"); mc::cur_args = mc::str(nm, " a=", a); E r = x.sqrt(); eq("sqrt", r * r, a, a, 0); }
        }
        { std::ostringstream o; o << x; mc::step("<<"); MC_CHECK(o.str() == mc::str(a), "fp:stream", nm, " a=", a, " printed ", o.str()); }
    }
    void pows(const I &a) const {
        const E x = el(a);
        for (int n = 0; n < 20; ++n) {
            mc::step("pow(integral)"); eq("pow-integral", x.pow(n), mpow<I>(a, I(n), p), a, I(n));
            mc::step("pow(number)"); eq("pow-number", x.pow(N(unsigned(n) % unsigned(p < 1000 ? int(p) : 1000))), mpow<I>(a, I(unsigned(n) % unsigned(p < 1000 ? int(p) : 1000)), p), a, I(n));
            mc::step("power()"); eq("power", fields::detail::power(x, boost::multiprecision::uint128_t(unsigned(n))), mpow<I>(a, I(n), p), a, I(n));
        }
        eq("pow-order", x.pow(N(F::modulus)), a, a, p);
        for (u64 n : {u64(255), u64(256), u64(0xffffffffu), u64(1) << 32, ~u64(0), (u64(1) << 63) + 1}) eq("pow-u64", x.pow(n), mpow<big>(big(a), big(n), big(p)).template convert_to<I>(), a, I(n % 1000000));
    }
    // exponents of every length: 2^k - 1, 2^k, 2^k + 1 up to twice the width of the field, and around p
    void exponent(const I &a, const big &n) const {
        typedef boost::multiprecision::number<boost::multiprecision::backends::cpp_int_modular_backend<2 * F::modulus_bits + 8>> W;
        const E x = el(a);
        mc::trace();
        const I want = mpow<big>(big(a), n, big(p)).template convert_to<I>();
        mc::step("pow(wide number)"); eq("pow-wide", x.pow(W(n)), want, a, I(n % 1000003));
        if (msb(n + 1) < F::modulus_bits) { mc::step("pow(number)"); eq("pow-number", x.pow(N(n)), want, a, I(n % 1000003)); }
        mc::step("power(number)"); eq("power-wide", fields::detail::power(x, W(n)), want, a, I(n % 1000003));
        if (msb(n + 1) < 64) { mc::step("pow(integral)"); eq("pow-integral", x.pow(n.template convert_to<u64>()), want, a, I(n % 1000003)); }
    }
    void exponents(const I &a) const {
        mc::state();
        for (unsigned k = 1; k <= 2 * F::modulus_bits; k += (mc::thorough || F::modulus_bits < 70) ? 1 : (k % 32 >= 30 || k % 32 < 2) ? 1 : k % 32 < 24 ? 7 : 6) for (int d = -1; d <= 1; ++d) exponent(a, (big(1) << k) + d);
        for (int d = -2; d <= 2; ++d) for (int m : {1, 2}) { exponent(a, big(p) * m + d); if (big(p) > 5) exponent(a, (big(p) - 1) / 2 * m + d); }
    }
    template<typename G> static constexpr auto has_half(int) -> decltype(G::group_order_minus_one_half, bool()) { return true; }
    template<typename G> static constexpr bool has_half(...) { return false; }
    template<typename Int> void from_int(Int v) const {
        mc::step("construct(int)");
        I w = m(I(v));
        E x(v);
        eq("from-int", x, w, I(v), sizeof(Int));
        mc::step("mixed int operators");
        const E y = el(I(3));
        using namespace fields::detail;
        eq("elem+int", y + v, I(3) + w, I(v), 0); eq("int+elem", v + y, w + 3, I(v), 0);
        eq("elem-int", y - v, I(3) - w, I(v), 0); eq("int-elem", v - y, w - 3, I(v), 0);
        eq("elem*int", y * v, I(3) * w, I(v), 0); eq("int*elem", v * y, w * 3, I(v), 0);
    }
    void ints() const {
        mc::state();
        for (int i = -40; i <= 40; ++i) { from_int(i); from_int((long)i); from_int((long long)i); from_int((short)i); from_int((signed char)i); }
        for (unsigned i = 0; i <= 300; ++i) { from_int(i); from_int((unsigned long)i); from_int((unsigned char)(i & 255)); }
        for (int s : {0, 1, 7, 8, 15, 16, 31, 32, 62}) for (long d : {-1L, 0L, 1L}) { from_int((1L << s) + d); from_int(-(1L << s) + d); from_int((unsigned long)((1UL << s) + d)); }
    }
    void numbers(const std::vector<I> &vs) const {
        typedef boost::multiprecision::number<boost::multiprecision::backends::cpp_int_modular_backend<2 * F::modulus_bits>> W;
        for (const I &a : vs) for (int k = 0; k < 4; ++k) {
            big v = big(a) + big(p) * k;
            mc::state(); mc::step("construct(number)");
            E x = E(W(v));
            eq("from-number", x, a, I(k), a);
            E y; y = E(N(big(a)));
            eq("from-integral", y, a, a, 0);
        }
    }
    void consts() const {
        mc::state();
        eq("zero", E::zero(), 0, 0, 0); eq("one", E::one(), 1, 0, 0);
        MC_CHECK(big(E::modulus) == big(p), "fp:modulus", nm);
        MC_CHECK(&E::zero() == &E::zero(), "fp:zero-instance", nm);
        MC_CHECK(F::modulus_bits == msb(big(p)) + 1 && F::value_bits == F::modulus_bits && F::number_bits == F::modulus_bits && F::arity == 1, "fp:bits", nm, " modulus_bits ", F::modulus_bits, " modulus has ", msb(big(p)) + 1);
    }
    void hashes(const std::vector<I> &vs) const {
        std::unordered_set<E> s;
        std::hash<E> h;
        for (const I &a : vs) { mc::step("hash"); s.insert(el(a)); MC_CHECK(h(el(a)) == h(el(a) + E::zero()) && h(el(a)) == h(-(-el(a))), "fp:hash", nm, " a=", a); }
        for (const I &a : vs) s.insert(el(a));
        std::set<I> d(vs.begin(), vs.end());
        MC_CHECK(s.size() == d.size(), "fp:hash-set", nm, " ", s.size(), " distinct elements instead of ", d.size());
    }
    // breadth-first search over in-place update histories: every value reachable, every edge compared with the model
    void histories(unsigned depth) const {
        std::set<std::pair<I, I>> seen {{0, m(1)}}, cur = seen;
        for (unsigned d = 0; d < depth && !cur.empty(); ++d) {
            std::set<std::pair<I, I>> nx;
            for (auto &st : cur) {
                mc::state();
                for (int op = 0; op < 9; ++op) {
                    E x = el(st.first), y = el(st.second);
                    I a = st.first, b = st.second;
                    mc::step("history");
                    switch (op) {
                        case 0: x += y; a = m(a + b); break;
                        case 1: x -= y; a = m(a - b); break;
                        case 2: x *= y; a = m(a * b); break;
                        case 3: std::swap(x, y); std::swap(a, b); break;
                        case 4: ++x; a = m(a + 1); break;
                        case 5: y -= E::one(); b = m(b - 1); break;
                        case 6: x = x.squared(); a = m(a * a); break;
                        case 7: y = -y; b = m(-b); break;
                        case 8: x = x.doubled(); a = m(a + a); break;
                    }
                    if (val(x) != a || val(y) != b) mc::violation("fp:history", mc::str(nm, " from (", st.first, ",", st.second, ") op ", op));
                    if (seen.insert({a, b}).second) nx.insert({a, b});
                }
            }
            cur.swap(nx);
        }
        mc::trace(seen.size());
    }
};
template<u64 P>
void tiny_field(unsigned maxpair) {
    if (!mc::mine()) return;
    typedef tiny::tf<P> F;
    Chk<F, long long> c;
    c.nm = mc::str("GF(", P, ")");
    mc::ScopedSpace s(mc::str("GF(p), p <= 251: all elements, all pairs up to p = ", maxpair));
    std::vector<long long> all;
    for (u64 a = 0; a < P; ++a) { all.push_back((long long)a); c.unary((long long)a); c.pows((long long)a); }
    for (u64 a = 0; a < P; ++a) for (u64 n = 0; n <= 2 * P && P <= maxpair; ++n) c.exponent((long long)a, n);
    for (u64 a = 0; a < P; a += a < 3 ? 1 : P / 4) c.exponents((long long)a);
    if (P <= maxpair) for (u64 a = 0; a < P; ++a) for (u64 b = 0; b < P; ++b) c.pair((long long)a, (long long)b);
    c.ints(); c.numbers(all); c.consts(); c.hashes(all);
    if (P <= 61) c.histories(64);
}
template<typename F>
void grid(const char *nm, bool square = true) {
    if (!mc::mine()) return;
    Chk<F, big> c;
    c.nm = nm;
    mc::ScopedSpace s("boundary-value grid of word-boundary and shipped fields: all pairs");
    const big p(F::modulus);
    std::set<big> v;
    auto put = [&](big x) { v.insert(model::modp<big>(x, p)); };
    for (int d = -3; d <= 3; ++d) { put(d); put((p - 1) / 2 + d); put(p / 3 + d); }
    for (unsigned k = 1; k < F::modulus_bits; k += (k % 32 == 31 || k % 32 == 0) ? 1 : (k % 32 == 1 ? 30 : 1)) for (int d = -1; d <= 1; ++d) put((big(1) << k) + d);
    big g = 1;
    for (int i = 0; i < 12; ++i) { g = g * 7919 * (i + 3) + 0x9e3779b97f4a7c15ull; g = g * g % p; put(g); }
    std::vector<big> vs(v.begin(), v.end());
    if (!mc::thorough && vs.size() > 70) { std::vector<big> t; for (std::size_t i = 0; i < vs.size(); i += vs.size() > 110 ? 2 : 1) t.push_back(vs[i]); t.push_back(vs.back()); vs.swap(t); }
    for (auto &a : vs) c.unary(a, square);
    for (auto &a : vs) for (auto &b : vs) c.pair(a, b);
    for (std::size_t i = 0; i < vs.size(); i += 5) c.pows(vs[i]);
    for (std::size_t i = 0; i < vs.size(); i += i < 4 ? 1 : vs.size() / (mc::thorough ? 12 : 3)) c.exponents(vs[i]);
    c.ints(); c.numbers(vs); c.consts(); c.hashes(vs);
}
int main(int argc, char **argv) {
    mc::init(argc, argv, "fp");
#if PART == 1
    unsigned mp = mc::thorough ? 251 : 103;
    tiny_field<3>(mp); tiny_field<5>(mp); tiny_field<7>(mp); tiny_field<11>(mp); tiny_field<13>(mp); tiny_field<17>(mp);
    tiny_field<31>(mp); tiny_field<61>(mp); tiny_field<97>(mp); tiny_field<103>(mp); tiny_field<127>(mp); tiny_field<193>(mp); tiny_field<251>(mp);
    grid<tiny::tf<65537>>("GF(65537)"); grid<tiny::tf<2147483647>>("GF(2^31-1)"); grid<tiny::tf<4294967291ull>>("GF(2^32-5)");
    grid<tiny::tf<4294967311ull>>("GF(2^32+15)"); grid<tiny::tf<2305843009213693951ull>>("GF(2^61-1)"); grid<tiny::tf<18446744073709551557ull>>("GF(2^64-59)");
    mc::sample("GF(103): all 10609 pairs: + - * += -= *= < == against integers");
#else
    grid<fields::goldilocks64>("goldilocks64"); grid<fields::maxprime<64>>("maxprime64");
    grid<fields::pallas_base_field>("pallas fq", mc::thorough); grid<fields::pallas_scalar_field>("pallas fr", mc::thorough);
    grid<fields::bls12_base_field<381>>("bls12-381 fq"); grid<fields::bls12_scalar_field<381>>("bls12-381 fr", mc::thorough);
    grid<fields::bls12_base_field<377>>("bls12-377 fq", mc::thorough);
    grid<fields::alt_bn128_base_field<254>>("alt_bn128 fq"); grid<fields::alt_bn128_scalar_field<254>>("alt_bn128 fr", mc::thorough);
    grid<fields::curve25519_base_field>("curve25519 fq"); grid<fields::secp_k1_base_field<160>>("secp160k1 fq"); grid<fields::secp_r1_base_field<521>>("secp521r1 fq", false);
    grid<fields::mnt4_base_field<298>>("mnt4 fq", mc::thorough); grid<fields::mnt6_base_field<298>>("mnt6 fq", mc::thorough); grid<fields::edwards_base_field<183>>("edwards fq", mc::thorough);
    mc::sample("shipped fields: all pairs of values around 0, p, p/2 and every word boundary against big integers");
#endif
    return mc::finish();
}
