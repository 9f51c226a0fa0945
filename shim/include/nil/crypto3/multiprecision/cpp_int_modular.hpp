// Stand-in for the (absent) nil/crypto3/multiprecision dependency of crypto3-algebra.
// Only the parts of its public contract that crypto3-algebra uses are provided, on top of the installed
// Boost.Multiprecision.  Everything here is part of the trusted base of the checks (it is cross-checked against
// plain integer arithmetic by `shim_selftest`).
#ifndef VERIF_SHIM_CPP_INT_MODULAR_HPP
#define VERIF_SHIM_CPP_INT_MODULAR_HPP

// dependencies that the real library pulls in transitively and on which crypto3-algebra's headers rely
#include <array>
#include <cassert>
#include <cstdint>
#include <functional>
#include <iterator>
#include <memory>
#include <stdexcept>
#include <string>
#include <tuple>
#include <vector>

#include <boost/container_hash/hash.hpp>
#include <boost/integer.hpp>
#include <boost/multiprecision/cpp_int.hpp>
#include <boost/multiprecision/number.hpp>
#include <boost/type_traits/is_integral.hpp>

namespace boost { namespace multiprecision { namespace backends {

    // fixed-width unsigned integer, arithmetic modulo 2^Bits
    template<unsigned long Bits>
    using cpp_int_modular_backend =
        cpp_int_backend<static_cast<unsigned>(Bits), static_cast<unsigned>(Bits), unsigned_magnitude, unchecked, void>;

}}}    // namespace boost::multiprecision::backends

namespace verif_shim {
    constexpr unsigned hexval(char c) {
        return (c >= '0' && c <= '9') ? static_cast<unsigned>(c - '0')
             : (c >= 'a' && c <= 'f') ? static_cast<unsigned>(c - 'a' + 10)
             : (c >= 'A' && c <= 'F') ? static_cast<unsigned>(c - 'A' + 10)
                                      : 99u;
    }
    template<std::size_t L>
    struct fixed_str {
        char c[L];
    };
    template<std::size_t L>
    constexpr std::size_t lit_bits(const fixed_str<L> s) {
        std::size_t n = 0;
        for (std::size_t i = 2; i < L; ++i) {
            if (s.c[i] == '\'') continue;
            unsigned h = hexval(s.c[i]);
            if (n == 0) {
                n = h >= 8 ? 4 : h >= 4 ? 3 : h >= 2 ? 2 : h;
            } else
                n += 4;
        }
        return n == 0 ? 1 : n;
    }
    // the real library rounds a literal's width up to whole limbs: a literal may be a few bits wider than its suffix
    // says
    template<std::size_t N, char... Str>
    constexpr auto lit() {
        constexpr fixed_str<sizeof...(Str)> s = {{Str...}};
        static_assert(sizeof...(Str) > 2, "hex literal expected");
        constexpr std::size_t nb = lit_bits(s);
        constexpr std::size_t B = nb > N ? nb : N;
        typedef boost::multiprecision::number<boost::multiprecision::backends::cpp_int_modular_backend<B>> num;
        num r(0u);
        for (std::size_t i = 2; i < sizeof...(Str); ++i) {
            if (s.c[i] == '\'') continue;
            r = num(num(r << 4) | num(hexval(s.c[i])));
        }
        return r;
    }
}    // namespace verif_shim

#define VERIF_LIT(N)                                    \
    template<char... Str>                               \
    constexpr auto operator"" _cppui_modular##N() {     \
        return verif_shim::lit<N, Str...>(); \
    }
#include "verif_literals.inc"
#undef VERIF_LIT

#endif
