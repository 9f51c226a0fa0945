// C11: bit, byte and sequence helpers.
#include <cassert>
#include <cstddef>
#include <climits>
#include <cstdint>
#include <initializer_list>
#include <limits>
#include <array>
#include <list>
#include <vector>
#include "mc.hpp"
#include <nil/crypto3/detail/make_array.hpp>
#include <nil/crypto3/detail/make_uint_t.hpp>
#include <nil/crypto3/detail/octet.hpp>
#include <nil/crypto3/detail/same_value.hpp>
#include <nil/crypto3/detail/state_adder.hpp>
#include <nil/crypto3/detail/unbounded_shift.hpp>
#include <nil/crypto3/algebra/algorithms/strxor.hpp>
namespace d = nil::crypto3::detail;

template<typename T>
std::vector<T> values() {
    std::vector<T> v;
    const unsigned W = sizeof(T) * 8;
    if (W == 8) { for (int i = 0; i < 256; ++i) v.push_back(T(i)); return v; }
    for (unsigned i = 0; i < W; ++i) { v.push_back(T(T(1) << i)); v.push_back(T((T(1) << i) - 1)); v.push_back(T(~(T(1) << i))); }
    for (T x : {T(0x5555555555555555ull), T(0xaaaaaaaaaaaaaaaaull), T(0x0123456789abcdefull), T(~0ull), T(0xf0f0f0f0f0f0f0f0ull)}) v.push_back(x);
    return v;
}
template<typename T>
T mshl(T x, std::size_t n) { return n >= sizeof(T) * 8 ? T(0) : T(std::uint64_t(x) << n); }
template<typename T>
T mshr(T x, std::size_t n) { return n >= sizeof(T) * 8 ? T(0) : T(std::uint64_t(x) >> n); }

template<typename T, int S>
void static_shift(T x) {
    mc::step("unbounded_shl<N>");
    T a = d::unbounded_shl<S, T>(x);
    MC_CHECK(a == mshl(x, S), "bits:shl-static", "width ", sizeof(T) * 8, " x=", std::uint64_t(x), " << ", S, " got ", std::uint64_t(a));
    mc::step("unbounded_shr<N>");
    T b = d::unbounded_shr<S, T>(x);
    MC_CHECK(b == mshr(x, S), "bits:shr-static", "width ", sizeof(T) * 8, " x=", std::uint64_t(x), " >> ", S, " got ", std::uint64_t(b));
    mc::step("low_bits<N>");
    T c = d::low_bits<S, T>(x);
    T want = S >= int(sizeof(T) * 8) ? x : T(x & T(~mshl(T(~T(0)), S)));
    MC_CHECK(c == want, "bits:low_bits-static", "width ", sizeof(T) * 8, " x=", std::uint64_t(x), " low ", S, " got ", std::uint64_t(c));
}
// words of TB bits held in a T that may be wider
template<typename T, std::size_t TB, std::size_t S>
void static_low(T x) {
    mc::step("low_bits<N, TypeBits>");
    T c = d::low_bits<S, TB, T>(x);
    T want = S >= sizeof(T) * 8 ? x : T(x & T(mshl(T(1), S) - 1));
    MC_CHECK(c == want, "bits:low_bits-static-typebits", "word of ", TB, " bits in ", sizeof(T) * 8, " x=", std::uint64_t(x), " low ", S, " got ", std::uint64_t(c));
}
template<typename T, std::size_t TB, std::size_t... S>
void narrow(T x, std::index_sequence<S...>) {
    constexpr std::size_t W = sizeof(T) * 8;
    if (TB < W) x = T(x & T(mshl(T(1), TB) - 1));
    (static_low<T, TB, S>(x), ...);
    for (std::size_t n = 0; n <= TB; ++n) {
        mc::step("low_bits<TypeBits>(n)");
        T l = d::low_bits<TB, T>(x, n);
        T wl = n >= W ? x : T(x & T(mshl(T(1), n) - 1));
        MC_CHECK(l == wl, "bits:low_bits-typebits", "word of ", TB, " bits in ", W, " x=", std::uint64_t(x), " low ", n, " got ", std::uint64_t(l));
        mc::step("high_bits<TypeBits>(n)");
        T h = d::high_bits<TB, T>(x, n);
        T wh = n == 0 ? T(0) : T(x & mshl(T(~T(0)), TB - n));
        MC_CHECK(h == wh, "bits:high_bits-typebits", "word of ", TB, " bits in ", W, " x=", std::uint64_t(x), " high ", n, " got ", std::uint64_t(h));
    }
}
template<typename T, std::size_t... K>
void narrows(T x, std::index_sequence<K...>) { (narrow<T, (K + 1) * sizeof(T)>(x, std::make_index_sequence<(K + 1) * sizeof(T) + 1> {}), ...); }
template<typename T, std::size_t... S>
void static_shifts(T x, std::index_sequence<S...>) { (static_shift<T, int(S)>(x), ...); }

template<typename T>
void shifts() {
    constexpr std::size_t W = sizeof(T) * 8;
    for (T x : values<T>()) {
        mc::state();
        mc::trace();
        static_shifts<T>(x, std::make_index_sequence<W + 3> {});
        narrows<T>(x, std::make_index_sequence<8> {});
        std::vector<std::size_t> amounts;
        for (std::size_t n = 0; n <= 2 * W + 3; ++n) amounts.push_back(n);
        for (unsigned b = 7; b < 64; ++b) for (int d = -1; d <= 4; ++d) amounts.push_back((std::size_t(1) << b) + std::size_t(d));
        for (std::size_t n : {std::size_t(-1), std::size_t(-2), std::size_t(-std::ptrdiff_t(W)), std::size_t(-std::ptrdiff_t(W) - 1), (std::size_t(1) << 32) + W - 1, (std::size_t(1) << 16) + W - 1, std::size_t(256) + W - 1, std::size_t(256) + W}) amounts.push_back(n);
        for (std::size_t n : amounts) {
            mc::step("unbounded_shl(n)");
            T a = d::unbounded_shl<T>(x, n);
            MC_CHECK(a == mshl(x, n), "bits:shl", "width ", W, " x=", std::uint64_t(x), " << ", n, " got ", std::uint64_t(a));
            mc::step("unbounded_shr(n)");
            T b = d::unbounded_shr<T>(x, n);
            MC_CHECK(b == mshr(x, n), "bits:shr", "width ", W, " x=", std::uint64_t(x), " >> ", n, " got ", std::uint64_t(b));
            mc::step("low_bits(n)");
            T l = d::low_bits<W, T>(x, n);
            T wl = n >= W ? x : T(x & T(mshl(T(1), n) - 1));
            MC_CHECK(l == wl, "bits:low_bits", "width ", W, " x=", std::uint64_t(x), " low ", n, " got ", std::uint64_t(l));
            mc::step("high_bits(n)");
            T h = d::high_bits<W, T>(x, n);
            T wh = n >= W ? x : n == 0 ? T(0) : T(x & mshl(T(~T(0)), W - n));
            MC_CHECK(h == wh, "bits:high_bits", "width ", W, " x=", std::uint64_t(x), " high ", n, " got ", std::uint64_t(h));
        }
    }
}

template<std::size_t N, typename C>
void arrays(const C &c) {
    mc::state();
    mc::step("make_array");
    auto a = nil::crypto3::make_array<N>(c.begin(), c.begin() + N);
    static_assert(std::is_same_v<decltype(a), std::array<typename C::value_type, N>>);
    for (std::size_t i = 0; i < N; ++i) MC_CHECK(a[i] == c[i], "seq:make_array", "N=", N, " i=", i, " got ", a[i], " want ", c[i]);
}
template<typename C, std::size_t... N>
void all_arrays(const C &c, std::index_sequence<N...>) { (arrays<N>(c), ...); }

template<typename T>
void xors(std::size_t n) {
    auto vals = values<T>();
    for (std::size_t k = 0; k < vals.size(); k += (n > 3 ? 7 : 1)) {
        mc::state();
        mc::trace();
        std::vector<T> a(n), b(n), out(n, T(0x77)), w(n);
        for (std::size_t i = 0; i < n; ++i) { a[i] = vals[(k + i) % vals.size()]; b[i] = vals[(3 * k + 5 * i + 1) % vals.size()]; w[i] = T(a[i] ^ b[i]); }
        mc::step("strxor(iterators)");
        auto e = nil::crypto3::algebra::strxor(a.begin(), a.end(), b.begin(), b.end(), out.begin());
        MC_CHECK(out == w && e == out.end(), "seq:strxor", "n=", n, " k=", k, " end offset ", e - out.begin());
        std::vector<T> o2(n, T(0x33));
        mc::step("strxor(ranges)");
        nil::crypto3::algebra::strxor(a, b, o2);
        MC_CHECK(o2 == w, "seq:strxor-range", "n=", n, " k=", k);
        std::vector<T> back(n);
        nil::crypto3::algebra::strxor(o2, b, back);
        MC_CHECK(back == a, "seq:strxor-involution", "n=", n, " k=", k);
    }
}

int main(int argc, char **argv) {
    mc::init(argc, argv, "detail_helpers");
    mc::hang_limit_s = 20;
    {
        mc::ScopedSpace s("shifts and masks: every width, shift amount and bit pattern family (all 256 bytes)");
        shifts<std::uint8_t>();
        shifts<std::uint16_t>();
        shifts<std::uint32_t>();
        shifts<std::uint64_t>();
    }
    {
        mc::ScopedSpace s("make_uint_t / extract_uint_t");
        for (unsigned a = 0; a < 256; ++a)
            for (unsigned b = 0; b < 256; b += (mc::thorough ? 1 : 5)) {
                mc::state();
                mc::trace();
                std::uint8_t A = std::uint8_t(a), B = std::uint8_t(b), C = std::uint8_t(a * 7 + b), D = std::uint8_t(a ^ (b * 3));
                mc::step("make_uint_t");
                auto u16 = d::make_uint_t<16>(A, B);
                auto u32 = d::make_uint_t<32>(A, B, C, D);
                auto u64 = d::make_uint_t<64>(A, B, C, D, D, C, B, A);
                static_assert(std::is_same_v<decltype(u16), std::uint16_t> && std::is_same_v<decltype(u32), std::uint32_t> && sizeof(u64) == 8);
                std::uint32_t w32 = std::uint32_t(A) << 24 | std::uint32_t(B) << 16 | std::uint32_t(C) << 8 | D;
                std::uint64_t w64 = std::uint64_t(w32) << 32 | (std::uint32_t(D) << 24 | std::uint32_t(C) << 16 | std::uint32_t(B) << 8 | A);
                MC_CHECK(u16 == (a << 8 | b) && u32 == w32 && u64 == w64, "bits:make_uint_t", "bytes ", a, " ", b);
                auto h32 = d::make_uint_t<32>(u16, std::uint16_t(u32));
                MC_CHECK(h32 == (std::uint32_t(u16) << 16 | (u32 & 0xffff)), "bits:make_uint_t-16", "halves ", a, " ", b);
                // words that do not fill the result leave the rest zero; the first argument names the word type
                MC_CHECK(d::make_uint_t<32>(A, B) == (a << 8 | b) && d::make_uint_t<64>(A) == a && d::make_uint_t<64>(A, B, C) == w32 >> 8 && d::make_uint_t<8>(A) == A && d::make_uint_t<16>(B) == b,
                         "bits:make_uint_t-short", "bytes ", a, " ", b);
                MC_CHECK(d::make_uint_t<64>(u32, u16) == (std::uint64_t(w32) << 32 | u16) && d::make_uint_t<64>(u16, A, B, C) == (std::uint64_t(u16) << 48 | std::uint64_t(A) << 32 | std::uint64_t(B) << 16 | C) &&
                         d::make_uint_t<64>(u32, std::uint32_t(~u32)) == (std::uint64_t(w32) << 32 | std::uint32_t(~w32)), "bits:make_uint_t-mixed", "words ", u32, " ", u16);
                MC_CHECK((d::make_uint_t<32, std::uint8_t>({A, B, C})) == w32 >> 8 && (d::make_uint_t<32, std::uint8_t>(std::initializer_list<std::uint8_t> {})) == 0, "bits:make_uint_t-list", "bytes ", a, " ", b);
                mc::step("extract_uint_t");
                bool ok = true;
                for (std::size_t p = 0; p < 8; ++p) ok = ok && d::extract_uint_t<16>(std::uint64_t(u64), p) == std::uint16_t(w64 >> (8 * (7 - p))) && d::extract_uint_t<32>(std::uint64_t(u64), p) == std::uint32_t(w64 >> (8 * (7 - p))) &&
                                                              d::extract_uint_t<64>(std::uint64_t(u64), p) == w64 >> (8 * (7 - p));
                for (std::size_t p = 0; p < 8; ++p) ok = ok && d::extract_uint_t<8>(std::uint64_t(u64), p) == std::uint8_t(w64 >> (8 * (7 - p)));
                for (std::size_t p = 0; p < 4; ++p) ok = ok && d::extract_uint_t<8>(u32, p) == std::uint8_t(w32 >> (8 * (3 - p)));
                for (std::size_t p = 0; p < 2; ++p) ok = ok && d::extract_uint_t<8>(u16, p) == std::uint8_t(u16 >> (8 * (1 - p)));
                MC_CHECK(ok && d::extract_uint_t<8>(A, 0) == A, "bits:extract_uint_t", "word ", u64);
            }
    }
    {
        mc::ScopedSpace s("make_array, strxor, state_adder, same_value, octet");
        std::vector<int> v(80);
        for (int i = 0; i < 80; ++i) v[i] = i * 3 + 1;
        all_arrays(v, std::index_sequence<1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 31, 32, 33, 64, 65> {});
        std::array<std::uint8_t, 70> u;
        for (int i = 0; i < 70; ++i) u[i] = std::uint8_t(i * 5);
        all_arrays(u, std::index_sequence<1, 2, 3, 8, 20, 32, 64> {});
        for (std::size_t n = 0; n <= 34; ++n) { xors<std::uint8_t>(n); xors<std::uint32_t>(n); }
        for (std::size_t n = 0; n <= 9; ++n)
            for (std::size_t m = 0; m <= 9; ++m) {
                mc::state();
                mc::step("state_adder");
                std::vector<std::uint32_t> a(n), b(m), w;
                for (std::size_t i = 0; i < n; ++i) a[i] = std::uint32_t(0xfffffff0u + i * 3);
                for (std::size_t i = 0; i < m; ++i) b[i] = std::uint32_t(i * 11 + 5);
                w = a;
                for (std::size_t i = 0; i < std::min(n, m); ++i) w[i] += b[i];
                auto b0 = b;
                d::state_adder()(a, b);
                MC_CHECK(a == w && b == b0, "seq:state_adder", "sizes ", n, ",", m);
            }
        mc::state();
        mc::step("constants");
        using nil::crypto3::algebra::detail::all_same_value;
        MC_CHECK((all_same_value<int, 3>::value == 3 && all_same_value<int, 7, 7>::value == 7 && all_same_value<std::size_t, 5, 5, 5, 5>::value == 5), "seq:same_value", "all_same_value");
        MC_CHECK(nil::crypto3::octet_bits == 8 && (std::is_same_v<nil::crypto3::octet_type, std::uint8_t>), "seq:octet", "octet_bits ", nil::crypto3::octet_bits);
    }
    mc::sample("unbounded_shl<uint32_t>(x, n) for n in 0..67; low_bits<8>(x, n) for all 256 bytes");
    return mc::finish();
}
