// Stand-in for nil/crypto3/multiprecision/ressol.hpp: a square root modulo an odd prime, or 0 when there is none.
#ifndef VERIF_SHIM_RESSOL_HPP
#define VERIF_SHIM_RESSOL_HPP
#include <nil/crypto3/multiprecision/modular/modular_adaptor.hpp>
namespace boost { namespace multiprecision {
    template<typename B, typename P, expression_template_option ET>
    constexpr number<backends::modular_adaptor<B, P>, ET> ressol(const number<backends::modular_adaptor<B, P>, ET> &a) {
        typedef number<backends::modular_adaptor<B, P>, ET> num;
        typedef number<B, et_off> inum;
        inum q = inum(P::mod_data().mod_backend());
        const inum pm1 = q - 1u;
        const num zero(0u), one(1u);
        if (a == zero)
            return zero;
        if (powm(a, inum(pm1 >> 1)) != one)
            return zero;
        q = pm1;
        unsigned s = 0;
        while (!bit_test(q, 0)) {
            q = q >> 1;
            ++s;
        }
        num z(2u);
        while (powm(z, inum(pm1 >> 1)) == one)
            z = z + one;
        num c = powm(z, q), t = powm(a, q), r = powm(a, inum((q + 1u) >> 1));
        unsigned m = s;
        while (t != one) {
            unsigned i = 0;
            num tt = t;
            while (tt != one) {
                tt = tt * tt;
                ++i;
            }
            num b = c;
            for (unsigned j = 0; j + i + 1 < m; ++j)
                b = b * b;
            m = i;
            c = b * b;
            t = t * c;
            r = r * b;
        }
        return r;
    }
}}    // namespace boost::multiprecision
#endif
