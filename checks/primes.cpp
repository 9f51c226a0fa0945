// C31: primes, factorisation and totients. Every integer up to a bound (and every product of a closed set of primes),
// against a sieve; every (bits, step) and (prime, step) up to a bound for the prime searches.
#ifndef NDEBUG   // with NDEBUG the assertions are compiled out, as they are for a user
#define BOOST_ENABLE_ASSERT_HANDLER
#endif
#include <stdexcept>
#include <string>
namespace boost {
    [[noreturn]] inline void assertion_failed(char const *e, char const *, char const *, long) { throw std::logic_error(std::string("assertion ") + e); }
    [[noreturn]] inline void assertion_failed_msg(char const *e, char const *, char const *, char const *, long) { throw std::logic_error(std::string("assertion ") + e); }
}
#include "mc.hpp"
#include <vector>
#include <set>
#include <numeric>
#include <boost/multiprecision/cpp_int.hpp>
#include <nil/crypto3/algebra/totient.hpp>
namespace alg = nil::crypto3::algebra;
namespace bmp = boost::multiprecision;
typedef bmp::cpp_int big;
typedef std::uint64_t u64;

static std::vector<u64> lowest;    // the least prime factor of every integer below the bound
static void sieve(u64 n) { lowest.assign(n + 1, 0); for (u64 i = 2; i <= n; ++i) if (!lowest[i]) for (u64 j = i; j <= n; j += i) if (!lowest[j]) lowest[j] = i; }
static bool prime(u64 n) { if (n < 2) return false; if (n < lowest.size()) return lowest[n] == n; for (u64 d = 2; d * d <= n; ++d) if (n % d == 0) return false; return true; }

// Miller-Rabin on big integers, thirteen bases (exact below 3.3e24, and far beyond the reach of the values here above)
static bool bigprime(const big &n) {
    static const int base[] = {2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41};
    if (n < 2) return false;
    for (int b : base) if (n % b == 0) return n == b;
    big d = n - 1; unsigned s = 0;
    while (d % 2 == 0) d /= 2, ++s;
    for (int b : base) {
        big x = 1, y = b, e = d;
        for (; e > 0; e /= 2) { if (e % 2 != 0) x = x * y % n; y = y * y % n; }
        bool ok = x == 1 || x == n - 1;
        for (unsigned i = 1; i < s && !ok; ++i) { x = x * x % n; ok = x == n - 1; }
        if (!ok) return false;
    }
    return true;
}

template<typename F> static bool guarded(const std::string &key, const std::string &what, F f) {
    try { f(); return true; } catch (const std::exception &e) { MC_CHECK(false, key, what, " throws ", std::string(e.what())); return false; }
}
template<typename S> static std::string show(const S &s) { std::string r = "{"; for (auto &x : s) r += (r.size() > 1 ? ", " : "") + mc::str(x); return r + "}"; }

template<typename I> struct Ints {
    std::string nm;
    // n with its distinct prime factors and totient
    void one(const big &n, const std::set<big> &want, const big &phi) {
        const std::string cls = want.size() == 1 ? (*want.begin() == n ? "prime" : "prime power") : n == 1 ? "one" : "composite";
        mc::state(); mc::trace(); mc::step("prime_factorize");
        guarded("factorize:" + cls, mc::str(nm, " prime_factorize(", n, ")"), [&] {
            std::set<I> s; alg::prime_factorize(I(n), s);
            std::set<big> got; for (auto &x : s) got.insert(big(x));
            MC_CHECK(got == want, "factorize:" + cls, nm, " prime_factorize(", n, ") gives ", show(got), ", expected ", show(want));
        });
        mc::step("prime_factorize into a set in use");
        guarded("factorize:kept:" + cls, mc::str(nm, " prime_factorize(", n, ") into a set in use"), [&] {
            std::set<I> s {I(13), I(1000003)}; alg::prime_factorize(I(n), s);
            std::set<big> got, w2 = want; for (auto &x : s) got.insert(big(x));
            w2.insert(13); w2.insert(1000003);
            MC_CHECK(got == w2, "factorize:kept:" + cls, nm, " prime_factorize(", n, ") into {13, 1000003} gives ", show(got));
        });
        mc::step("totient");
        guarded("totient:" + cls, mc::str(nm, " totient(", n, ")"), [&] {
            big got(alg::totient(I(n)));
            MC_CHECK(got == phi, "totient:" + cls, nm, " totient(", n, ") = ", got, ", expected ", phi);
        });
        if (want.size() >= 1 && *want.begin() != n) {
            mc::step("pollard_rho_factorization");
            guarded("rho:" + cls, mc::str(nm, " pollard_rho_factorization(", n, ")"), [&] {
                big d(alg::pollard_rho_factorization(I(n)));
                MC_CHECK(d > 1 && d < n && n % d == 0, "rho:" + cls, nm, " pollard_rho_factorization(", n, ") = ", d, ", which is no proper factor");
            });
        }
    }
    void upto(u64 N) {
        for (u64 n = 1; n <= N; ++n) {
            if (!mc::mine()) continue;
            std::set<big> f; u64 phi = n;
            for (u64 m = n; m > 1;) { u64 q = lowest[m]; f.insert(big(q)); phi = phi / q * (q - 1); while (m % q == 0) m /= q; }
            one(big(n), f, big(phi));
        }
    }
    void products(const std::vector<big> &ps, int depth) {
        std::vector<big> sel;
        std::function<void(std::size_t, int)> go = [&](std::size_t i, int left) {
            if (sel.size() && mc::mine()) {
                big n = 1, phi = 1; std::set<big> f;
                for (auto &p : sel) { n *= p; phi *= f.insert(p).second ? big(p - 1) : p; }
                one(n, f, phi);
            }
            if (left) for (std::size_t j = i; j < ps.size(); ++j) { sel.push_back(ps[j]); go(j, left - 1); sel.pop_back(); }
        };
        go(0, depth);
    }
    void lists(u64 N) {
        for (u64 n = 1; n <= N; ++n) {
            if (!mc::mine()) continue;
            mc::state(); mc::trace(); mc::step("totient_list");
            std::vector<big> want, got;
            for (u64 m = 1; m <= n; ++m) if (std::gcd(m, n) == 1) want.push_back(big(m));
            guarded("totient_list", mc::str("totient_list(", n, ")"), [&] {
                for (auto &x : alg::totient_list(I(n))) got.push_back(big(x));
                MC_CHECK(got == want, std::string("totient_list:") + (n == 1 ? "one" : prime(n) ? "prime" : "composite"), nm, " totient_list(", n, ") = ", show(got), ", expected ", show(want));
            });
        }
    }
    void first(u64 bits, u64 M) {
        for (u64 b = 0; b <= bits; ++b) for (u64 m = 1; m <= M; ++m) {
            if (!mc::mine()) continue;
            mc::state(); mc::trace(); mc::step("first_prime");
            u64 w = (u64(1) << b) + 1;
            while (!(prime(w) && w % m == 1 % m)) ++w;
            guarded("first_prime", mc::str("first_prime(", b, ", ", m, ")"), [&] {
                big got(alg::first_prime<I>(b, m));
                MC_CHECK(got == w, std::string("first_prime:") + ((u64(1) << b) % m == 0 ? "divides" : "general"), nm, " first_prime(", b, ", ", m, ") = ", got, ", expected ", w);
            });
        }
    }
    // every start q (prime or not) and step m with a prime in the progression
    void neighbours(u64 Q, u64 M) {
        for (u64 q = 1; q <= Q; ++q) for (u64 m = 1; m <= M; ++m) {
            if (!mc::mine()) continue;
            mc::state(); mc::trace();
            u64 w = 0;
            for (u64 x = q + m, i = 0; i < 400 && !w; ++i, x += m) if (prime(x)) w = x;
            if (w) {
                mc::step("next_prime");
                guarded("next_prime", mc::str("next_prime(", q, ", ", m, ")"), [&] {
                    big got(alg::next_prime(I(q), m));
                    MC_CHECK(got == w, std::string("next_prime:") + (prime(q) ? "from a prime" : "from a composite"), nm, " next_prime(", q, ", ", m, ") = ", got, ", expected ", w);
                });
            }
            w = 0;
            for (u64 x = q; x > m && !w;) { x -= m; if (prime(x)) w = x; }
            if (w) {
                mc::step("previous_prime");
                guarded("previous_prime", mc::str("previous_prime(", q, ", ", m, ")"), [&] {
                    big got(alg::previous_prime(I(q), m));
                    MC_CHECK(got == w, std::string("previous_prime:") + (prime(q) ? "from a prime" : "from a composite"), nm, " previous_prime(", q, ", ", m, ") = ", got, ", expected ", w);
                });
            }
        }
    }
    // beyond 64 bits: smooth numbers times one large prime; searches from either side of powers of two
    void wide() {
        const bool T = mc::thorough;
        std::vector<big> large {(big(1) << 31) - 1, big(4294967311ull), (big(1) << 61) - 1, (big(1) << 64) - 59, (big(1) << 64) + 13, (big(1) << 89) - 1, (big(1) << 107) - 1, (big(1) << 127) - 1};
        if (T) large.push_back((big(1) << 180) - 47);
        std::vector<big> small {1, 2, 3, 5, 257, 4099, 65537};
        for (auto &p : large) {
            if (!bigprime(p)) { MC_CHECK(false, "wide:model", p, " is not a prime"); continue; }
            for (std::size_t i = 0; i < small.size(); ++i) for (std::size_t j = i; j < small.size(); ++j) {
                if (!mc::mine() || (small[i] == 1 && j > 1 && j % 2)) continue;
                std::set<big> f {p}; big phi = p - 1;
                for (auto &q : {small[i], small[j]}) if (q != 1) phi *= f.insert(q).second ? big(q - 1) : q;
                one(p * small[i] * small[j], f, phi);
            }
        }
        for (unsigned b = 20; b <= (T ? 200u : 132u); b += T ? 1 : (b % 32 >= 30 || b % 32 <= 1) ? 1 : 4) for (u64 m : {u64(1), u64(2), u64(3), u64(6), u64(30), u64(97), u64(1) << 20, u64(3) << 33, u64(1) << 40}) {
            if (!mc::mine()) continue;
            mc::state(); mc::trace(); mc::step("first_prime");
            big w = (big(1) << b) + 1;
            if (w % m != 1 % m) w += m - (w % m + m - 1 % m) % m;
            while (!bigprime(w)) w += m;
            guarded("first_prime", mc::str("first_prime(", b, ", ", m, ")"), [&] {
                big got(alg::first_prime<I>(b, m));
                MC_CHECK(got == w, "first_prime:wide", nm, " first_prime(", b, ", ", m, ") = ", got, ", expected ", w);
            });
            for (int d : {-2, -1, 0, 1, 2}) {
                const big q = (big(1) << b) + d;
                big up = 0, down = 0;
                for (int i = 1; i < 2000 && up == 0; ++i) if (bigprime(q + big(m) * i)) up = q + big(m) * i;
                for (int i = 1; i < 2000 && down == 0 && q > big(m) * i; ++i) if (bigprime(q - big(m) * i)) down = q - big(m) * i;
                if (up != 0) { mc::step("next_prime"); guarded("next_prime", mc::str("next_prime(", q, ", ", m, ")"), [&] { big got(alg::next_prime(I(q), m)); MC_CHECK(got == up, "next_prime:wide", nm, " next_prime(", q, ", ", m, ") = ", got, ", expected ", up); }); }
                if (down != 0) { mc::step("previous_prime"); guarded("previous_prime", mc::str("previous_prime(", q, ", ", m, ")"), [&] { big got(alg::previous_prime(I(q), m)); MC_CHECK(got == down, "previous_prime:wide", nm, " previous_prime(", q, ", ", m, ") = ", got, ", expected ", down); }); }
            }
        }
    }
    void run(double scale) {
        bool T = mc::thorough;
        u64 N = static_cast<u64>((T ? 400000 : 20000) * scale);
        sieve(std::max<u64>(N, 1000000));
        mc::ScopedSpace a(nm);
        upto(N);
        std::vector<big> ps {2, 3, 5, 7, 11, 101, 257, 4099, 65537};
        if (T) { ps.push_back(big(1000003)); ps.push_back(big("4294967311")); }
        products(ps, T ? 4 : 3);
        lists(static_cast<u64>((T ? 4000 : 1000) * scale));
        first(T ? 19 : 14, T ? 200 : 64);
        neighbours(T ? 2000 : 300, T ? 100 : 40);
        wide();
    }
};
typedef bmp::number<bmp::cpp_int_backend<>, bmp::et_off> plain;
int main(int argc, char **argv) {
    mc::init(argc, argv, "primes");
    Ints<big>{"cpp_int"}.run(1.0);
    Ints<plain>{"cpp_int without expression templates"}.run(0.3);
    Ints<bmp::uint512_t>{"uint512_t"}.run(0.3);
    Ints<bmp::int512_t>{"int512_t"}.run(0.2);
    return mc::finish();
}
