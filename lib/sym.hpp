// Free abelian group on N symbols with exact integer coefficients, as a stand-in for a curve group: an algorithm that only adds, subtracts and
// doubles its operands and gets the right combination of symbols here gets it right for every assignment of points of every abelian group.
#ifndef VERIF_SYM_HPP
#define VERIF_SYM_HPP
#include "tiny.hpp"
#include <nil/crypto3/algebra/curves/params.hpp>
namespace sym {
    template<typename C, int N> struct El;
    template<typename C, int N> struct group { typedef El<C, N> value_type; };
    template<typename I> inline void to(long long &c, const I &k) { c = static_cast<long long>(k); }
    template<typename I> inline void to(big &c, const I &k) { c = big(k); }
    template<typename C, int N>
    struct El {
        typedef group<C, N> group_type;
        typedef void field_type;
        std::array<C, N> c;
        static inline unsigned long long ops = 0;
        El() { for (auto &x : c) x = 0; }
        static El e(int i, long long k = 1) { El r; r.c[i] = k; return r; }
        static El zero() { return El(); }
        bool is_zero() const { for (auto &x : c) if (x != 0) return false; return true; }
        bool operator==(const El &o) const { return c == o.c; }
        bool operator!=(const El &o) const { return c != o.c; }
        El operator+(const El &o) const { El r; ++ops; for (int i = 0; i < N; ++i) r.c[i] = c[i] + o.c[i]; return r; }
        El operator-(const El &o) const { El r; ++ops; for (int i = 0; i < N; ++i) r.c[i] = c[i] - o.c[i]; return r; }
        El operator-() const { El r; for (int i = 0; i < N; ++i) r.c[i] = -c[i]; return r; }
        El &operator+=(const El &o) { return *this = *this + o; }
        El &operator-=(const El &o) { return *this = *this - o; }
        void double_inplace() { *this = *this + *this; }
        template<typename K> El times(const K &k) const { C f; to(f, k); El r; for (int i = 0; i < N; ++i) r.c[i] = c[i] * f; return r; }
        template<typename B, boost::multiprecision::expression_template_option ET>
        friend El operator*(const boost::multiprecision::number<B, ET> &k, const El &x) { return x.times(k); }
        template<typename B, boost::multiprecision::expression_template_option ET>
        friend El operator*(const El &x, const boost::multiprecision::number<B, ET> &k) { return x.times(k); }
        template<typename P>
        friend El operator*(const fields::detail::element_fp<P> &k, const El &x) { return x.times(typename P::integral_type(k.data)); }
        template<typename P>
        friend El operator*(const El &x, const fields::detail::element_fp<P> &k) { return x.times(typename P::integral_type(k.data)); }
        friend std::ostream &operator<<(std::ostream &o, const El &x) { o << "["; for (int i = 0; i < N; ++i) o << (i ? "," : "") << x.c[i]; return o << "]"; }
    };
}    // namespace sym
// run-time window tables, so that every table can be explored
namespace nil { namespace crypto3 { namespace algebra { namespace curves {
    template<typename C, int N> struct wnaf_params<sym::group<C, N>> { static inline std::array<std::size_t, 4> wnaf_window_table = {1, 3, 6, 9}; };
    template<typename C, int N> struct multiexp_params<sym::group<C, N>> { static inline std::array<std::size_t, 5> fixed_base_exp_window_table = {1, 3, 0, 6, 12}; };
}}}}
#endif
