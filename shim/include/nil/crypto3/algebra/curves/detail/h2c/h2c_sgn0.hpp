// Stand-in for the sign function of RFC 9380, section 4.1.
#ifndef VERIF_SHIM_H2C_SGN0_HPP
#define VERIF_SHIM_H2C_SGN0_HPP
#include <nil/crypto3/algebra/fields/detail/element/fp.hpp>
#include <nil/crypto3/algebra/fields/detail/element/fp2.hpp>
namespace nil { namespace crypto3 { namespace algebra { namespace curves { namespace detail {
    template<typename P>
    bool sgn0(const fields::detail::element_fp<P> &x) {
        typename P::integral_type v(x.data);
        return boost::multiprecision::bit_test(v, 0);
    }
    template<typename P>
    bool sgn0(const fields::detail::element_fp2<P> &x) {
        return x.data[0].is_zero() ? sgn0(x.data[1]) : sgn0(x.data[0]);
    }
}}}}}
#endif
