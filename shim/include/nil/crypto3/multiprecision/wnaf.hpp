// Stand-in for nil/crypto3/multiprecision/wnaf.hpp: the width-w non-adjacent form, least significant digit first.
// For window size w digits are odd and of absolute value < 2^w (or zero).
#ifndef VERIF_SHIM_WNAF_HPP
#define VERIF_SHIM_WNAF_HPP
#include <nil/crypto3/multiprecision/modular/modular_adaptor.hpp>
namespace boost { namespace multiprecision {
    template<std::size_t N, cpp_integer_type S, cpp_int_check_type C, typename A, expression_template_option ET>
    std::vector<long> find_wnaf(const std::size_t window_size, const number<cpp_int_backend<N, N, S, C, A>, ET> &scalar) {
        typedef number<backends::cpp_int_modular_backend<N + 66>, et_off> W;
        W c(scalar);
        std::vector<long> res(N + 1, 0);
        std::size_t j = 0;
        while (c != 0u) {
            long u = 0;
            if (bit_test(c, 0)) {
                u = static_cast<long>(W(c & W((1ul << (window_size + 1)) - 1ul)).template convert_to<unsigned long>());
                if (u > (1l << window_size))
                    u -= (1l << (window_size + 1));
                if (u > 0)
                    c = c - W(static_cast<unsigned long>(u));
                else
                    c = c + W(static_cast<unsigned long>(-u));
            }
            res[j] = u;
            ++j;
            c = c >> 1;
        }
        return res;
    }
    template<typename B, typename P, expression_template_option ET>
    std::vector<long> find_wnaf(const std::size_t window_size, const number<backends::modular_adaptor<B, P>, ET> &scalar) {
        return find_wnaf(window_size, number<B, et_off>(scalar.backend().m_base));
    }
}}    // namespace boost::multiprecision
#endif
