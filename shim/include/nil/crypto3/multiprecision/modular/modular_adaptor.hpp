// Stand-in for nil/crypto3/multiprecision/modular/modular_adaptor.hpp: integers modulo a compile-time modulus,
// kept in canonical reduced form [0, m).
#ifndef VERIF_SHIM_MODULAR_ADAPTOR_HPP
#define VERIF_SHIM_MODULAR_ADAPTOR_HPP

#include <nil/crypto3/multiprecision/cpp_int_modular.hpp>

namespace boost { namespace multiprecision { namespace backends {

    template<typename Backend>
    struct modular_params {
        typedef number<Backend> number_type;
        Backend m_mod;

        constexpr modular_params() : m_mod() { }
        constexpr modular_params(const Backend &m) : m_mod(m) { }
        constexpr modular_params(const number_type &m) : m_mod(m.backend()) { }

        constexpr number_type get_mod() const { return number_type(m_mod); }
        constexpr const Backend &mod_backend() const { return m_mod; }
    };

    template<typename Backend, const modular_params<Backend> &Modulus>
    struct modular_params_ct {
        static constexpr const modular_params<Backend> &mod_data() { return Modulus; }
    };

    namespace verif_detail {
        template<typename B> struct width;
        template<std::size_t N, cpp_integer_type S, cpp_int_check_type C, typename A>
        struct width<cpp_int_backend<N, N, S, C, A>> { static constexpr unsigned value = N; };
        // a plain (et_off) number wide enough for a product
        template<typename B>
        using wide = number<cpp_int_modular_backend<2ul * width<B>::value + 1>, et_off>;
        template<unsigned long N>
        using unum = number<cpp_int_modular_backend<N>, et_off>;
    }

    // tag of numbers that carry their modulus
    template<typename Backend>
    struct modular_params_rt { };

    template<typename Backend, typename Params>
    struct modular_adaptor {
        typedef Backend value_type;
        typedef std::tuple<signed char, short, int, long, long long, int128_type> signed_types;
        typedef std::tuple<unsigned char, unsigned short, unsigned, unsigned long, unsigned long long, uint128_type>
            unsigned_types;
        typedef std::tuple<float, double, long double> float_types;

        static constexpr unsigned bits = verif_detail::width<Backend>::value;
        static constexpr bool tiny = bits <= 31;
        typedef verif_detail::wide<Backend> wide;

        Backend m_base;

        static constexpr const Backend &mod() { return Params::mod_data().mod_backend(); }
        static constexpr std::uint64_t tmod() { return static_cast<std::uint64_t>(*mod().limbs()); }
        constexpr std::uint64_t tval() const { return static_cast<std::uint64_t>(*m_base.limbs()); }

        constexpr modular_adaptor() : m_base() { }
        constexpr modular_adaptor(const modular_adaptor &o) : m_base(o.m_base) { }
        constexpr modular_adaptor &operator=(const modular_adaptor &o) {
            m_base = o.m_base;
            return *this;
        }

        struct raw_tag { };
        constexpr modular_adaptor(const Backend &b, raw_tag) : m_base(b) { }

        template<std::size_t N, cpp_integer_type S, cpp_int_check_type C, typename A>
        constexpr modular_adaptor(const cpp_int_backend<N, N, S, C, A> &b, const modular_params<Backend> &) : m_base() {
            assign_backend(b);
        }
        template<typename UI, typename std::enable_if<std::is_integral<UI>::value, int>::type = 0>
        constexpr modular_adaptor(UI v, const modular_params<Backend> &) : m_base() {
            assign_int(v);
        }
        template<std::size_t N, cpp_integer_type S, cpp_int_check_type C, typename A>
        explicit constexpr modular_adaptor(const cpp_int_backend<N, N, S, C, A> &b) : m_base() {
            assign_backend(b);
        }
        template<typename UI, typename std::enable_if<std::is_integral<UI>::value || std::is_same<UI, int128_type>::value || std::is_same<UI, uint128_type>::value, int>::type = 0>
        constexpr modular_adaptor(UI v) : m_base() {
            assign_int(v);
        }
        template<typename UI>
        constexpr typename std::enable_if<std::is_integral<UI>::value || std::is_same<UI, int128_type>::value || std::is_same<UI, uint128_type>::value, modular_adaptor &>::type operator=(UI v) {
            assign_int(v);
            return *this;
        }
        modular_adaptor &operator=(const char *s) {
            cpp_int v(s);
            cpp_int m = cpp_int(number<Backend>(mod()));
            v %= m;
            if (v < 0) v += m;
            m_base = number<Backend>(v).backend();
            return *this;
        }

        template<std::size_t N, cpp_integer_type S, cpp_int_check_type C, typename A>
        explicit constexpr operator cpp_int_backend<N, N, S, C, A>() const {
            return cpp_int_backend<N, N, S, C, A>(m_base);
        }

        constexpr operator Backend() const { return m_base; }

        constexpr Backend base_data() const { return m_base; }
        constexpr const modular_params<Backend> &mod_data() const { return Params::mod_data(); }

        template<typename B2>
        constexpr void assign_backend(const B2 &b) {
            constexpr unsigned n2 = verif_detail::width<B2>::value;
            constexpr unsigned w = (n2 > bits ? n2 : bits) + 1;
            verif_detail::unum<w> v(number<B2, et_off>{b});
            verif_detail::unum<w> m(number<Backend, et_off>{mod()});
            if (v >= m) v = v % m;
            m_base = static_cast<number<Backend, et_off>>(v).backend();
        }
        template<typename UI>
        constexpr void assign_int(UI v) {
            bool neg = v < 0;
            uint128_type u = neg ? uint128_type(0) - static_cast<uint128_type>(v) : static_cast<uint128_type>(v);
            constexpr unsigned w = (bits > 128 ? bits : 128) + 1;
            verif_detail::unum<w> x(static_cast<std::uint64_t>(u >> 64));
            x = x << 64;
            x = x | verif_detail::unum<w>(static_cast<std::uint64_t>(u));
            verif_detail::unum<w> m(number<Backend, et_off>{mod()});
            if (x >= m) x = x % m;
            if (neg && x != 0u) x = m - x;
            m_base = static_cast<number<Backend, et_off>>(x).backend();
        }

        constexpr int compare(const modular_adaptor &o) const { return m_base.compare(o.m_base); }
        template<typename A, typename = typename std::enable_if<std::is_arithmetic<A>::value>::type>
        constexpr int compare(A v) const {
            // integers compare by residue, as the operands of a modular number's == always are
            return compare(modular_adaptor(v));
        }

        constexpr void swap(modular_adaptor &o) {
            Backend t = m_base;
            m_base = o.m_base;
            o.m_base = t;
        }
        std::string str(std::streamsize dig, std::ios_base::fmtflags f) const {
            return m_base.str(dig, f);
        }
        constexpr void negate() {
            using default_ops::eval_is_zero;
            if (!eval_is_zero(m_base)) {
                number<Backend, et_off> r = number<Backend, et_off>{mod()} - number<Backend, et_off>{m_base};
                m_base = r.backend();
            }
        }
        constexpr void set_tiny(std::uint64_t v) {
            m_base = static_cast<std::uint32_t>(v);
        }
        constexpr void add(const modular_adaptor &o) {
            if constexpr (tiny) {
                std::uint64_t s = tval() + o.tval();
                if (s >= tmod()) s -= tmod();
                set_tiny(s);
            } else {
                wide a(number<Backend, et_off>{m_base}), b(number<Backend, et_off>{o.m_base}), m(number<Backend, et_off>{mod()});
                a += b;
                if (a >= m) a -= m;
                m_base = static_cast<number<Backend, et_off>>(a).backend();
            }
        }
        constexpr void sub(const modular_adaptor &o) {
            if constexpr (tiny) {
                std::uint64_t s = tval() + tmod() - o.tval();
                if (s >= tmod()) s -= tmod();
                set_tiny(s);
            } else {
                modular_adaptor t(o);
                t.negate();
                add(t);
            }
        }
        constexpr void mul(const modular_adaptor &o) {
            if constexpr (tiny) {
                set_tiny(tval() * o.tval() % tmod());
            } else {
                wide a(number<Backend, et_off>{m_base}), b(number<Backend, et_off>{o.m_base}), m(number<Backend, et_off>{mod()});
                a = a * b;
                a = a % m;
                m_base = static_cast<number<Backend, et_off>>(a).backend();
            }
        }
        // extended Euclid; the inverse of a non-unit is reported as 0
        constexpr modular_adaptor inverse() const {
            if constexpr (tiny) {
                std::int64_t a = static_cast<std::int64_t>(tval()), m = static_cast<std::int64_t>(tmod());
                std::int64_t r0 = m, r1 = a, t0 = 0, t1 = 1;
                while (r1 != 0) {
                    std::int64_t q = r0 / r1, r = r0 - q * r1, t = t0 - q * t1;
                    r0 = r1; r1 = r; t0 = t1; t1 = t;
                }
                modular_adaptor res;
                if (r0 != 1) return res;
                res.set_tiny(static_cast<std::uint64_t>(((t0 % m) + m) % m));
                return res;
            } else {
                typedef verif_detail::unum<2ul * bits + 2> W;
                W m(number<Backend, et_off>{mod()});
                W r0 = m, r1(number<Backend, et_off>{m_base}), t0 = 0u, t1 = 1u;
                while (r1 != 0u) {
                    W q = r0 / r1;
                    W r = r0 - q * r1;
                    W qt = (q * t1) % m;
                    W t = t0 >= qt ? W(t0 - qt) : W(t0 + m - qt);
                    r0 = r1; r1 = r; t0 = t1; t1 = t;
                }
                modular_adaptor res;
                if (r0 != 1u) return res;
                res.m_base = static_cast<number<Backend, et_off>>(t0).backend();
                return res;
            }
        }
    };

    // integers modulo a run-time modulus, kept in [0, m); a number without a modulus is a plain integer
    template<typename Backend>
    struct modular_adaptor<Backend, modular_params_rt<Backend>> {
        typedef std::tuple<signed char, short, int, long, long long, int128_type> signed_types;
        typedef std::tuple<unsigned char, unsigned short, unsigned, unsigned long, unsigned long long, uint128_type> unsigned_types;
        typedef std::tuple<float, double, long double> float_types;
        cpp_int v, m;

        modular_adaptor() : v(0), m(0) { }
        modular_adaptor(const Backend &b, const Backend &mod) : v(number<Backend>(b)), m(number<Backend>(mod)) { fit(); }
        explicit modular_adaptor(const Backend &b) : v(number<Backend>(b)), m(0) { }
        template<typename UI, typename std::enable_if<std::is_integral<UI>::value, int>::type = 0>
        modular_adaptor(UI x) : v(x), m(0) { }
        template<typename UI>
        typename std::enable_if<std::is_integral<UI>::value, modular_adaptor &>::type operator=(UI x) { v = x; fit(); return *this; }
        modular_adaptor &operator=(const char *s) { v = cpp_int(s); fit(); return *this; }
        explicit operator Backend() const { return number<Backend>(v).backend(); }
        void fit() { if (m != 0) { v %= m; if (v < 0) v += m; } }
        void of(const modular_adaptor &o) { if (m == 0) m = o.m; }
        int compare(const modular_adaptor &o) const { return v.compare(o.v); }
        template<typename A, typename = typename std::enable_if<std::is_arithmetic<A>::value>::type>
        int compare(A x) const { return v.compare(cpp_int(x)); }
        void swap(modular_adaptor &o) { v.swap(o.v); m.swap(o.m); }
        std::string str(std::streamsize dig, std::ios_base::fmtflags f) const { return v.str(dig, f); }
        void negate() { v = -v; fit(); }
    };
    template<typename B> void eval_add(modular_adaptor<B, modular_params_rt<B>> &r, const modular_adaptor<B, modular_params_rt<B>> &a) { r.of(a); r.v += a.v; r.fit(); }
    template<typename B> void eval_subtract(modular_adaptor<B, modular_params_rt<B>> &r, const modular_adaptor<B, modular_params_rt<B>> &a) { r.of(a); r.v -= a.v; r.fit(); }
    template<typename B> void eval_multiply(modular_adaptor<B, modular_params_rt<B>> &r, const modular_adaptor<B, modular_params_rt<B>> &a) { r.of(a); r.v *= a.v; r.fit(); }
    template<typename B> void eval_divide(modular_adaptor<B, modular_params_rt<B>> &r, const modular_adaptor<B, modular_params_rt<B>> &a) {
        r.of(a);
        // the inverse of a non-unit is reported as 0
        cpp_int r0 = r.m, r1 = a.v, t0 = 0, t1 = 1;
        while (r1 != 0) { cpp_int q = r0 / r1, x = r0 - q * r1; r0 = r1; r1 = x; x = t0 - q * t1; t0 = t1; t1 = x; }
        r.v *= r0 == 1 ? t0 : cpp_int(0); r.fit();
    }
    template<typename B> bool eval_is_zero(const modular_adaptor<B, modular_params_rt<B>> &a) { return a.v == 0; }
    template<typename B> int eval_get_sign(const modular_adaptor<B, modular_params_rt<B>> &a) { return a.v == 0 ? 0 : 1; }
    template<typename B> void eval_gcd(modular_adaptor<B, modular_params_rt<B>> &r, const modular_adaptor<B, modular_params_rt<B>> &a, const modular_adaptor<B, modular_params_rt<B>> &b) {
        cpp_int g = boost::multiprecision::gcd(a.v, b.v);    // of the residues
        r.m = a.m; r.v = g; r.fit();
    }
    template<typename R, typename B> typename std::enable_if<std::is_arithmetic<R>::value>::type eval_convert_to(R *r, const modular_adaptor<B, modular_params_rt<B>> &a) { *r = a.v.template convert_to<R>(); }

#define VERIF_MA template<typename B, typename P>
    VERIF_MA constexpr void eval_add(modular_adaptor<B, P> &r, const modular_adaptor<B, P> &a) { r.add(a); }
    VERIF_MA constexpr void eval_subtract(modular_adaptor<B, P> &r, const modular_adaptor<B, P> &a) { r.sub(a); }
    VERIF_MA constexpr void eval_multiply(modular_adaptor<B, P> &r, const modular_adaptor<B, P> &a) { r.mul(a); }
    VERIF_MA constexpr void eval_divide(modular_adaptor<B, P> &r, const modular_adaptor<B, P> &a) { r.mul(a.inverse()); }
    VERIF_MA constexpr bool eval_is_zero(const modular_adaptor<B, P> &a) { using default_ops::eval_is_zero; return eval_is_zero(a.m_base); }
    VERIF_MA constexpr int eval_get_sign(const modular_adaptor<B, P> &a) { using default_ops::eval_is_zero; return eval_is_zero(a.m_base) ? 0 : 1; }
    VERIF_MA constexpr std::size_t eval_msb(const modular_adaptor<B, P> &a) { using default_ops::eval_msb; return eval_msb(a.m_base); }
    VERIF_MA constexpr std::size_t eval_lsb(const modular_adaptor<B, P> &a) { using default_ops::eval_lsb; return eval_lsb(a.m_base); }
    VERIF_MA constexpr bool eval_bit_test(const modular_adaptor<B, P> &a, std::size_t i) {
        using default_ops::eval_bit_test;
        return i < modular_adaptor<B, P>::bits && eval_bit_test(a.m_base, i);
    }
    VERIF_MA inline std::size_t hash_value(const modular_adaptor<B, P> &a) { return hash_value(a.m_base); }
    template<typename R, typename B, typename P>
    constexpr typename std::enable_if<std::is_arithmetic<R>::value>::type eval_convert_to(R *r, const modular_adaptor<B, P> &a) {
        eval_convert_to(r, a.m_base);
    }
#undef VERIF_MA
}    // namespace backends

    using backends::modular_adaptor;
    using backends::modular_params;
    using backends::modular_params_ct;

    template<typename B, typename P>
    struct number_category<backends::modular_adaptor<B, P>> : public std::integral_constant<int, number_kind_integer> { };
    // the two-argument constructors of number are offered to (value, modulus)
    template<typename B, expression_template_option ET>
    struct component_type<number<backends::modular_adaptor<B, backends::modular_params_rt<B>>, ET>> {
        typedef number<B, ET> type;
    };
    template<typename B, typename P>
    struct expression_template_default<backends::modular_adaptor<B, P>> {
        static constexpr expression_template_option value = et_off;
    };

    // ---- free functions on modular numbers -------------------------------------------------------------------
    template<typename B, typename P, expression_template_option ET>
    constexpr number<backends::modular_adaptor<B, P>, ET> inverse_mod(const number<backends::modular_adaptor<B, P>, ET> &a) {
        return number<backends::modular_adaptor<B, P>, ET>(a.backend().inverse());
    }

    template<typename B, typename P, expression_template_option ET, std::size_t N, cpp_integer_type S, cpp_int_check_type C,
             typename A, expression_template_option ET2>
    constexpr number<backends::modular_adaptor<B, P>, ET>
        powm(const number<backends::modular_adaptor<B, P>, ET> &a,
             const number<cpp_int_backend<N, N, S, C, A>, ET2> &e) {
        typedef number<backends::modular_adaptor<B, P>, ET> num;
        num r(1u);
        if (e == 0u)
            return r;
        for (long i = static_cast<long>(msb(e)); i >= 0; --i) {
            r = r * r;
            if (bit_test(e, static_cast<unsigned>(i)))
                r = r * a;
        }
        return r;
    }

    template<typename B, typename P, expression_template_option ET, typename UI>
    constexpr typename std::enable_if<std::is_integral<UI>::value, number<backends::modular_adaptor<B, P>, ET>>::type
        powm(const number<backends::modular_adaptor<B, P>, ET> &a, UI e) {
        return powm(a, uint128_t(e));
    }
}}    // namespace boost::multiprecision

#endif
