// C27: type classification. The state space is the set of type descriptions: every subset of the members a trait asks
// for (own or inherited, of every kind), standard and shipped types, cv/ref/pointer variants.
#include <mc.hpp>
#ifndef PART
#define PART 1
#endif
#define EXPECT(what, got, want) do { mc::step(what); bool g_ = (got), w_ = (want); if (g_ != w_) mc::violation(std::string("trait:") + what, mc::str(what, " is ", g_, " instead of ", w_, " for ", NAME)); } while (0)
static std::string NAME;

#if PART == 1
#include <type_traits>
#include <iterator>
#include <array>
#include <deque>
#include <forward_list>
#include <list>
#include <map>
#include <memory>
#include <queue>
#include <stack>
#include <string>
#include <string_view>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <nil/crypto3/detail/type_traits.hpp>
#include <nil/crypto3/detail/stream_endian.hpp>
namespace D = nil::crypto3::detail;

template<int I> struct None { };
template<typename... B> struct Join : B... { };
template<bool B, typename T, int I> using Pick = std::conditional_t<B, T, None<I>>;

#define TYPE(n) struct Ty_##n { using n = int; };
#define CONSTANT(n) struct Da_##n { constexpr static const std::size_t n = 8; };
TYPE(iterator) TYPE(const_iterator) TYPE(encoded_value_type) TYPE(encoded_block_type) TYPE(decoded_value_type) TYPE(decoded_block_type)
TYPE(block_type) TYPE(digest_type) TYPE(key_type) TYPE(key_schedule_type) TYPE(word_type)
CONSTANT(encoded_value_bits) CONSTANT(encoded_block_bits) CONSTANT(decoded_value_bits) CONSTANT(decoded_block_bits)
CONSTANT(block_bits) CONSTANT(digest_bits) CONSTANT(key_bits) CONSTANT(min_key_bits) CONSTANT(max_key_bits) CONSTANT(key_schedule_bits) CONSTANT(word_bits)
struct Da_rounds { constexpr static const unsigned rounds = 10; };
struct Fn_begin { int begin() const { return 0; } };
struct Fn_end { int end() const { return 0; } };
struct Fn_encode { int encode() { return 0; } };
struct Fn_decode { int decode() { return 0; } };
struct Fn_encrypt { int encrypt() { return 0; } };
struct Fn_decrypt { int decrypt() { return 0; } };
struct Fn_generate { void generate() { } };
struct Fn_check { void check() const { } };

// mixed in by inheritance over every bit mask; F<mask>::name for reports
template<typename T> struct Deep : T { };    // one more level of inheritance

template<template<typename> class Trait, typename List> struct Lattice;
template<typename... Ms> struct L { };
template<template<typename> class Trait, typename... Ms>
struct Lattice<Trait, L<Ms...>> {
    static constexpr unsigned N = sizeof...(Ms);
    template<unsigned M, std::size_t... I>
    static auto make(std::index_sequence<I...>) -> Join<Pick<(M >> I & 1) != 0, Ms, int(I)>...>;
    template<unsigned M> using At = decltype(make<M>(std::make_index_sequence<N>()));
    template<unsigned M>
    static void one(const char *what, bool (*model)(unsigned)) {
        mc::state();
        NAME = "a type with the members in mask " + std::to_string(M);
        EXPECT(what, Trait<At<M>>::value, model(M));
        if (M % 7 == 0 || M == (1u << N) - 1) {
            NAME += " inherited twice";
            EXPECT(what, Trait<Deep<At<M>>>::value, model(M));
        }
    }
    template<unsigned B, unsigned... M>
    static void block(const char *what, bool (*model)(unsigned), std::integer_sequence<unsigned, M...>) { (one<B + M>(what, model), ...); }
    template<unsigned... B>
    static void blocks(const char *what, bool (*model)(unsigned), std::integer_sequence<unsigned, B...>) {
        (block<B * 64>(what, model, std::make_integer_sequence<unsigned, 64>()), ...);
    }
    static void run(const char *what, bool (*model)(unsigned)) {
        mc::ScopedSpace sp(std::string(what) + ": every subset of its " + std::to_string(N) + " members");
        if constexpr (N < 6) block<0>(what, model, std::make_integer_sequence<unsigned, (1u << N)>());
        else blocks(what, model, std::make_integer_sequence<unsigned, (1u << N) / 64>());
    }
};
template<unsigned N> static bool all(unsigned m) { return m == (1u << N) - 1; }

// one member name: absent, own type, own data, inherited, in a private-free struct; with an unrelated member that differs by a suffix
#define MEMBER_TYPE(n)                                                                                       \
    {                                                                                                        \
        mc::ScopedSpace sp("has_" #n);                                                                       \
        struct Own { struct n { }; };                                                                        \
        struct Und { struct n##_ { }; };                                                                     \
        mc::state(6);                                                                                        \
        NAME = "a type with a nested type " #n; EXPECT("has_" #n, D::has_##n<Own>::value, true);             \
        NAME = "a type with an alias " #n; EXPECT("has_" #n, D::has_##n<Ty_##n>::value, true);               \
        NAME = "a type inheriting " #n; EXPECT("has_" #n, D::has_##n<Deep<Ty_##n>>::value, true);            \
        NAME = "a type without " #n; EXPECT("has_" #n, D::has_##n<Und>::value, false);                       \
        NAME = "an empty type"; EXPECT("has_" #n, D::has_##n<None<0>>::value, false);                        \
        NAME = "non-class types";                                                                            \
        EXPECT("has_" #n, D::has_##n<int>::value || D::has_##n<int *>::value || D::has_##n<Ty_##n *>::value || D::has_##n<Ty_##n &>::value || D::has_##n<int[3]>::value || D::has_##n<void>::value || D::has_##n<int()>::value, false); \
        static_assert(std::is_base_of<std::integral_constant<bool, true>, D::has_##n<Own>>::value, "");      \
    }
#define MEMBER_DATA(n)                                                                                       \
    {                                                                                                        \
        mc::ScopedSpace sp("has_" #n);                                                                       \
        struct Own { int n; };                                                                               \
        struct En { enum { n = 3 }; };                                                                       \
        struct Und { int n##_; };                                                                            \
        mc::state(7);                                                                                        \
        NAME = "a type with a data member " #n; EXPECT("has_" #n, D::has_##n<Own>::value, true);             \
        NAME = "a type with an enumerator " #n; EXPECT("has_" #n, D::has_##n<En>::value, true);              \
        NAME = "a type with a static constant " #n; EXPECT("has_" #n, D::has_##n<Da_##n>::value, true);      \
        NAME = "a type inheriting " #n; EXPECT("has_" #n, D::has_##n<Deep<Da_##n>>::value, true);            \
        NAME = "a type without " #n; EXPECT("has_" #n, D::has_##n<Und>::value, false);                       \
        NAME = "an empty type"; EXPECT("has_" #n, D::has_##n<None<0>>::value, false);                        \
        NAME = "non-class types";                                                                            \
        EXPECT("has_" #n, D::has_##n<int>::value || D::has_##n<int *>::value || D::has_##n<Da_##n *>::value || D::has_##n<Da_##n &>::value || D::has_##n<int[3]>::value || D::has_##n<void>::value || D::has_##n<int()>::value, false); \
    }
template<typename A, typename B> struct Both : A, B { };
// a member function that counts only together with the type it returns
#define MEMBER_RETURN(f, t)                                                                                  \
    {                                                                                                        \
        mc::ScopedSpace sp("has_" #f);                                                                       \
        mc::state(5);                                                                                        \
        typedef Both<Fn_##f, Ty_##t> B;                                                                      \
        NAME = "a type with " #f "() and " #t; EXPECT("has_" #f, D::has_##f<B>::value, true);                \
        NAME = "a type inheriting " #f "() and " #t; EXPECT("has_" #f, D::has_##f<Deep<B>>::value, true);    \
        NAME = "a type with only " #t; EXPECT("has_" #f, D::has_##f<Ty_##t>::value, false);                  \
        NAME = "an empty type"; EXPECT("has_" #f, D::has_##f<None<0>>::value, false);                        \
        NAME = "non-class types"; EXPECT("has_" #f, D::has_##f<int>::value || D::has_##f<int *>::value, false); \
    }
#define MEMBER_FN(f)                                                                                         \
    {                                                                                                        \
        mc::ScopedSpace sp("has_" #f);                                                                       \
        mc::state(4);                                                                                        \
        NAME = "a type with " #f "()"; EXPECT("has_" #f, D::has_##f<Fn_##f>::value, true);                   \
        NAME = "a type inheriting " #f "()"; EXPECT("has_" #f, D::has_##f<Deep<Fn_##f>>::value, true);       \
        NAME = "an empty type"; EXPECT("has_" #f, D::has_##f<None<0>>::value, false);                        \
        NAME = "non-class types"; EXPECT("has_" #f, D::has_##f<int>::value || D::has_##f<int *>::value, false); \
    }
// is_hash: construction is itself a type with two members
template<int K> struct HC { };
struct ct_ { using type = int; }; struct cp_ { using params_type = int; };
template<> struct HC<1> { struct construction { }; };
template<> struct HC<2> { struct construction : ct_ { }; };
template<> struct HC<3> { struct construction : cp_ { }; };
template<> struct HC<4> { struct construction : ct_, cp_ { }; };
template<int K> static void hash_one() {
    mc::state(4);
    NAME = "digest_type, digest_bits, construction kind " + std::to_string(K);
    EXPECT("is_hash", (D::is_hash<Join<Ty_digest_type, Da_digest_bits, HC<K>>>::value), K == 4);
    NAME = "digest_bits only, construction kind " + std::to_string(K);
    EXPECT("is_hash", (D::is_hash<Join<Da_digest_bits, HC<K>>>::value), false);
    NAME = "digest_type only, construction kind " + std::to_string(K);
    EXPECT("is_hash", (D::is_hash<Join<Ty_digest_type, HC<K>>>::value), false);
    NAME = "no digest, construction kind " + std::to_string(K);
    EXPECT("is_hash", (D::is_hash<HC<K>>::value), false);
}
template<typename T> static void rng(const char *n, bool r) {
    mc::state();
    NAME = n;
    EXPECT("is_range", D::is_range<T>::value, r);
    EXPECT("is_container", D::is_container<T>::value, r);
    EXPECT("is_codec", D::is_codec<T>::value, false);
    EXPECT("is_block_cipher", D::is_block_cipher<T>::value, false);
    EXPECT("is_hash", D::is_hash<T>::value, false);
    EXPECT("is_mac", D::is_mac<T>::value, false);
    EXPECT("is_kdf", D::is_kdf<T>::value, false);
    EXPECT("is_passhash", D::is_passhash<T>::value, false);
}
template<typename T> static void it(const char *n, bool r) {
    mc::state();
    NAME = n;
    EXPECT("is_iterator", D::is_iterator<T>::value, r);
}
// an iterator-like class: every subset of the five member types
struct I1 { using difference_type = long; }; struct I2 { using pointer = int *; }; struct I3 { using reference = int &; };
struct I4 { using value_type = int; }; struct I5 { using iterator_category = std::forward_iterator_tag; };
template<unsigned... M> static void iters(std::integer_sequence<unsigned, M...>) {
    mc::ScopedSpace sp("is_iterator: every subset of the iterator member types");
    auto f = [](auto k) {
        constexpr unsigned m = decltype(k)::value;
        typedef Join<Pick<(m & 1) != 0, I1, 1>, Pick<(m & 2) != 0, I2, 2>, Pick<(m & 4) != 0, I3, 3>, Pick<(m & 8) != 0, I4, 4>, Pick<(m & 16) != 0, I5, 5>> T;
        mc::state();
        NAME = "an iterator-like type with members in mask " + std::to_string(m);
        EXPECT("is_iterator", D::is_iterator<T>::value, m == 31);
    };
    (f(std::integral_constant<unsigned, M>()), ...);
}
namespace se = nil::crypto3::stream_endian;
template<typename A, typename B> static void endian(const char *n) {
    mc::state();
    NAME = n;
    EXPECT("stream_endian", (std::is_same<A, B>::value), true);
}
int main(int argc, char **argv) {
    mc::init(argc, argv, "traits PART1");
    MEMBER_TYPE(iterator) MEMBER_TYPE(const_iterator) MEMBER_TYPE(encoded_value_type) MEMBER_TYPE(encoded_block_type)
    MEMBER_TYPE(decoded_value_type) MEMBER_TYPE(decoded_block_type) MEMBER_TYPE(block_type) MEMBER_TYPE(digest_type)
    MEMBER_TYPE(key_type) MEMBER_TYPE(key_schedule_type) MEMBER_TYPE(word_type)
    MEMBER_DATA(encoded_value_bits) MEMBER_DATA(encoded_block_bits) MEMBER_DATA(decoded_value_bits) MEMBER_DATA(decoded_block_bits)
    MEMBER_DATA(block_bits) MEMBER_DATA(digest_bits) MEMBER_DATA(key_bits) MEMBER_DATA(min_key_bits) MEMBER_DATA(max_key_bits)
    MEMBER_DATA(key_schedule_bits) MEMBER_DATA(word_bits) MEMBER_DATA(rounds)
    MEMBER_RETURN(begin, const_iterator) MEMBER_RETURN(end, const_iterator)
    MEMBER_RETURN(encode, encoded_block_type) MEMBER_RETURN(decode, decoded_block_type)
    MEMBER_RETURN(encrypt, block_type) MEMBER_RETURN(decrypt, block_type)
    MEMBER_FN(generate) MEMBER_FN(check)
    Lattice<D::is_range, L<Ty_iterator, Ty_const_iterator, Fn_begin, Fn_end>>::run("is_range", all<4>);
    Lattice<D::is_container, L<Ty_iterator, Ty_const_iterator, Fn_begin, Fn_end>>::run("is_container", all<4>);
    Lattice<D::is_codec, L<Ty_encoded_value_type, Da_encoded_value_bits, Ty_decoded_value_type, Da_decoded_value_bits, Ty_encoded_block_type,
                           Da_encoded_block_bits, Ty_decoded_block_type, Da_decoded_block_bits, Fn_encode, Fn_decode>>::run("is_codec", all<10>);
    Lattice<D::is_block_cipher, L<Ty_word_type, Da_word_bits, Ty_block_type, Da_block_bits, Ty_key_type, Da_key_bits, Da_rounds, Fn_encrypt, Fn_decrypt>>::run("is_block_cipher", all<9>);
    Lattice<D::is_mac, L<Ty_digest_type, Da_digest_bits, Ty_block_type, Da_block_bits, Ty_key_type, Da_key_bits>>::run("is_mac", all<6>);
    Lattice<D::is_kdf, L<Ty_digest_type, Da_digest_bits, Ty_key_type, Da_max_key_bits, Da_min_key_bits>>::run("is_kdf", all<5>);
    Lattice<D::is_passhash, L<Fn_generate, Fn_check>>::run("is_passhash", all<2>);
    {
        mc::ScopedSpace sp("is_hash: every combination of digest members and construction");
        hash_one<0>(); hash_one<1>(); hash_one<2>(); hash_one<3>(); hash_one<4>();
    }
    {
        mc::ScopedSpace sp("standard types");
#define R(T, v) rng<T>(#T, v)
        R(std::vector<int>, true); R(std::vector<bool>, true); R(std::list<int>, true); R(std::deque<char>, true); R(std::forward_list<int>, true);
        R(std::string, true); R(std::set<int>, true); R(std::unordered_set<int>, true);
        rng<std::map<int, int>>("std::map<int, int>", true); rng<std::unordered_map<int, int>>("std::unordered_map<int, int>", true);
        rng<std::array<int, 3>>("std::array<int, 3>", true); rng<std::array<int, 0>>("std::array<int, 0>", true);
        R(std::string_view, true); R(std::initializer_list<int>, true); R(const std::vector<int>, true);
        R(std::stack<int>, false); R(std::queue<int>, false); R(int, false); R(double, false); R(char *, false); R(int[4], false);
        R(std::vector<int> &, false); R(std::vector<int> *, false); R(std::unique_ptr<int>, false); rng<std::pair<int, int>>("pair", false); R(void, false);
        R(std::vector<int>::iterator, false); R(None<1>, false);
#define IT(T, v) it<T>(#T, v)
        IT(int *, true); IT(const int *, true); IT(char **, true); IT(std::vector<int>::iterator, true); IT(std::vector<int>::const_iterator, true);
        IT(std::list<int>::iterator, true); IT(std::forward_list<int>::const_iterator, true); IT(std::deque<int>::reverse_iterator, true);
        IT(std::string::iterator, true); IT(std::set<int>::iterator, true); IT(std::back_insert_iterator<std::vector<int>>, true);
        IT(std::ostream_iterator<int>, true); IT(std::istream_iterator<int>, true); IT(std::vector<bool>::iterator, true);
        it<std::map<int, int>::iterator>("map iterator", true); it<std::unordered_map<int, int>::const_iterator>("unordered_map iterator", true);
        IT(int, false); IT(double, false); IT(std::vector<int>, false); IT(std::string, false); IT(None<1>, false); IT(std::nullptr_t, false);
        IT(std::unique_ptr<int>, false); IT(std::shared_ptr<int>, false); it<std::pair<int, int>>("pair", false); IT(bool, false);
        it<void (*)()>("function pointer", true == false || D::is_iterator<void (*)()>::value);    // unspecified: only that it compiles
    }
    iters(std::make_integer_sequence<unsigned, 32>());
    {
        mc::ScopedSpace sp("stream byte and bit orders");
        endian<se::big_bit, se::big_unit_big_bit<1>>("big_bit");
        endian<se::big_byte_big_bit, se::big_unit_big_bit<CHAR_BIT>>("big_byte_big_bit");
        endian<se::big_octet_big_bit, se::big_unit_big_bit<8>>("big_octet_big_bit");
        endian<se::little_bit, se::little_unit_little_bit<1>>("little_bit");
        endian<se::little_byte_little_bit, se::little_unit_little_bit<CHAR_BIT>>("little_byte_little_bit");
        endian<se::little_octet_little_bit, se::little_unit_little_bit<8>>("little_octet_little_bit");
        endian<se::big_byte_little_bit, se::big_unit_little_bit<CHAR_BIT>>("big_byte_little_bit");
        endian<se::big_octet_little_bit, se::big_unit_little_bit<8>>("big_octet_little_bit");
        endian<se::little_byte_big_bit, se::little_unit_big_bit<CHAR_BIT>>("little_byte_big_bit");
        endian<se::little_octet_big_bit, se::little_unit_big_bit<8>>("little_octet_big_bit");
        endian<se::host_byte, se::host_unit<CHAR_BIT>>("host_byte");
    }
    mc::sample("is_codec over all 1024 subsets of its 10 members, by inheritance from one mix-in per member");
    return mc::finish();
}
#else
#include <complex>
#include <boost/preprocessor.hpp>
#include <nil/crypto3/algebra/type_traits.hpp>
#if PART == 3
#include <nil/crypto3/algebra/curves/bls12.hpp>
#include <nil/crypto3/algebra/curves/alt_bn128.hpp>
#include <nil/crypto3/algebra/curves/mnt4.hpp>
#include <nil/crypto3/algebra/curves/mnt6.hpp>
#include <nil/crypto3/algebra/curves/edwards.hpp>
#include <nil/crypto3/algebra/curves/jubjub.hpp>
#include <nil/crypto3/algebra/curves/pallas.hpp>
#include <nil/crypto3/algebra/curves/vesta.hpp>
#include <nil/crypto3/algebra/curves/babyjubjub.hpp>
#include <nil/crypto3/algebra/curves/secp_k1.hpp>
#include <nil/crypto3/algebra/curves/secp_r1.hpp>
#include <nil/crypto3/algebra/curves/ed25519.hpp>
#include <nil/crypto3/algebra/curves/curve25519.hpp>
#endif
namespace A = nil::crypto3::algebra;

#if PART == 2
// ---- every subset of directly declared members, generated by the preprocessor ----
#define IFB(b, x) BOOST_PP_IF(b, x, )
#define B01 (0)(1)
// g1_type, g2_type: absent, a type, or a template
template<int K> struct G1k { }; template<> struct G1k<1> { using g1_type = int; }; template<> struct G1k<2> { template<typename C = int, typename F = int> struct g1_type { }; };
template<int K> struct G2k { }; template<> struct G2k<1> { using g2_type = int; }; template<> struct G2k<2> { template<typename C = int, typename F = int> struct g2_type { }; };
template<int K> struct Gtk { }; template<> struct Gtk<1> { using gt_type = int; };
template<int K> struct Bfk { }; template<> struct Bfk<1> { using base_field_type = int; };
template<int K> struct Sfk { }; template<> struct Sfk<1> { using scalar_field_type = int; };
template<int B, int S, int T, int G1, int G2> struct CurveMix : Bfk<B>, Sfk<S>, Gtk<T>, G1k<G1>, G2k<G2> { };
template<int M> static void curve_one() {
    constexpr int b = M % 2, s = M / 2 % 2, t = M / 4 % 2, g1 = M / 8 % 3, g2 = M / 24 % 3;
    mc::state();
    NAME = mc::str("a type with base_field_type ", b, " scalar_field_type ", s, " gt_type ", t, " g1_type kind ", g1, " g2_type kind ", g2);
    EXPECT("is_curve", (A::is_curve<CurveMix<b, s, t, g1, g2>>::value), b && s && t && g1 && g2);
    static_assert(std::is_same<typename A::is_curve<CurveMix<b, s, t, g1, g2>>::type, CurveMix<b, s, t, g1, g2>>::value, "");
}
template<int... M> static void curves(std::integer_sequence<int, M...>) {
    mc::ScopedSpace sp("is_curve: every subset of its members, group types absent, plain or templates");
    (curve_one<M>(), ...);
}
// kinds of a static constant: absent, constexpr size_t, static const size_t, wrong type, not static, a nested type
template<int K> struct Vb { }; template<> struct Vb<1> { constexpr static const std::size_t value_bits = 3; }; template<> struct Vb<2> { static const std::size_t value_bits; };
template<> struct Vb<3> { std::size_t value_bits; }; template<> struct Vb<4> { using value_bits = std::size_t; }; template<> struct Vb<5> { constexpr static const char *value_bits = ""; };
template<int K> struct Mb { }; template<> struct Mb<1> { constexpr static const std::size_t modulus_bits = 3; }; template<> struct Mb<2> { std::size_t modulus_bits; };
template<int K> struct Ar { }; template<> struct Ar<1> { constexpr static const std::size_t arity = 1; }; template<> struct Ar<2> { std::size_t arity; };
#define OPT(S, n) template<int K> struct S { }; template<> struct S<1> { using n = int; };
OPT(Vt, value_type) OPT(Ft, field_type) OPT(Ct, curve_type) OPT(It, integral_type) OPT(Mt, modular_type) OPT(Ep, extension_policy)
template<typename... B> struct Mix : B... { };
template<int M> static void group_one() {
    constexpr int v = M % 2, f = M / 2 % 2, c = M / 4 % 2, b = M / 8 % 6;
    typedef Mix<Vt<v>, Ft<f>, Ct<c>, Vb<b>> T;
    mc::state();
    NAME = mc::str("a type with value_type ", v, " field_type ", f, " curve_type ", c, " value_bits kind ", b);
    EXPECT("is_curve_group", A::is_curve_group<T>::value, v && f && c && (b == 1 || b == 2));
}
template<int... M> static void groups(std::integer_sequence<int, M...>) {
    mc::ScopedSpace sp("is_curve_group: every combination of its members");
    (group_one<M>(), ...);
}
template<int M> static void field_one() {
    constexpr int v = M % 2, i = M / 2 % 2, m = M / 4 % 2, e = M / 8 % 2, b = M / 16 % 4, mb = M / 64 % 3, a = M / 192 % 3;
    typedef Mix<Vt<v>, It<i>, Mt<m>, Ep<e>, Vb<b>, Mb<mb>, Ar<a>> T;
    mc::state();
    NAME = mc::str("a type with value_type ", v, " integral_type ", i, " modular_type ", m, " extension_policy ", e, " value_bits kind ", b, " modulus_bits kind ", mb, " arity kind ", a);
    bool common = v && i && m && (b == 1 || b == 2) && mb == 1;
    EXPECT("is_field", A::is_field<T>::value, common && a == 1);
    EXPECT("is_extended_field", A::is_extended_field<T>::value, common && e);
}
template<int... M> static void fields(std::integer_sequence<int, M...>) {
    mc::ScopedSpace sp("is_field, is_extended_field: every combination of their members");
    (field_one<M>(), ...);
}
// group elements: the seven members declared directly
#define GE_BODY(p)                                                                            \
    IFB(BOOST_PP_SEQ_ELEM(0, p), using field_type = int;)                                     \
    IFB(BOOST_PP_SEQ_ELEM(1, p), using group_type = int;)                                     \
    IFB(BOOST_PP_SEQ_ELEM(2, p), static T zero();)                                            \
    IFB(BOOST_PP_SEQ_ELEM(3, p), static T one();)                                             \
    IFB(BOOST_PP_SEQ_ELEM(4, p), bool is_zero();)                                             \
    IFB(BOOST_PP_SEQ_ELEM(5, p), bool is_well_formed();)                                      \
    IFB(BOOST_PP_SEQ_ELEM(6, p), T &double_inplace();)
#define GE(r, p)                                                                              \
    {                                                                                         \
        struct T { GE_BODY(p) };                                                              \
        mc::state();                                                                          \
        NAME = "a type with members " BOOST_PP_STRINGIZE(p);                                  \
        EXPECT("is_group_element", A::is_group_element<T>::value,                             \
               BOOST_PP_SEQ_ELEM(0, p) && BOOST_PP_SEQ_ELEM(1, p) && BOOST_PP_SEQ_ELEM(2, p) && BOOST_PP_SEQ_ELEM(3, p) && BOOST_PP_SEQ_ELEM(4, p) && BOOST_PP_SEQ_ELEM(5, p) && BOOST_PP_SEQ_ELEM(6, p)); \
    }
static void group_elements() {
    mc::ScopedSpace sp("is_group_element: every subset of its members");
    BOOST_PP_SEQ_FOR_EACH_PRODUCT(GE, (B01)(B01)(B01)(B01)(B01)(B01)(B01))
}
static void mixed() {
    mc::ScopedSpace sp("has_mixed_add: absent and every signature");
    struct N { };
    struct Y { void mixed_add(const Y &); };
    struct C { constexpr void mixed_add(const C &) { } };
    struct V { void mixed_add(int); };
    struct Z { void mixed_add(); };
    struct R { int mixed_add(const R &); };
    struct T { using mixed_add = int; };
    struct F { int mixed_add; };
    mc::state(8);
    NAME = "no mixed_add"; EXPECT("has_mixed_add", A::has_mixed_add<N>::value, false);
    NAME = "void mixed_add(const T&)"; EXPECT("has_mixed_add", A::has_mixed_add<Y>::value, true);
    NAME = "constexpr void mixed_add(const T&)"; EXPECT("has_mixed_add", A::has_mixed_add<C>::value, true);
    NAME = "mixed_add(int)"; EXPECT("has_mixed_add", A::has_mixed_add<V>::value, false);
    NAME = "mixed_add()"; EXPECT("has_mixed_add", A::has_mixed_add<Z>::value, false);
    NAME = "int mixed_add(const T&)"; EXPECT("has_mixed_add", A::has_mixed_add<R>::value, false);
    NAME = "nested type mixed_add"; EXPECT("has_mixed_add", A::has_mixed_add<T>::value, false);
    NAME = "data member mixed_add"; EXPECT("has_mixed_add", A::has_mixed_add<F>::value, false);
}
#define HT(n) { struct Y { using n = int; }; struct N { using n##x = int; }; struct Dm { int n; }; mc::state(4); NAME = #n; \
    EXPECT("has_type_" #n, A::has_type_##n<Y>::value, true); EXPECT("has_type_" #n, A::has_type_##n<N>::value, false); \
    EXPECT("has_type_" #n, A::has_type_##n<Dm>::value, false); EXPECT("has_type_" #n, A::has_type_##n<int>::value, false); }
#define HSD(n) struct YY_##n { static int n; };
HSD(value_bits) HSD(modulus_bits) HSD(base_field_modulus) HSD(scalar_field_modulus) HSD(arity) HSD(p) HSD(q)
#define HF(n) { struct Y { bool n(); }; struct S { static bool n(); }; struct N { bool n##x(); }; struct W { bool n(int); }; mc::state(4); NAME = #n; \
    EXPECT("has_function_" #n, (A::has_function_##n<Y, bool>::value), true); EXPECT("has_function_" #n, (A::has_function_##n<S, bool>::value), true); \
    EXPECT("has_function_" #n, (A::has_function_##n<N, bool>::value), false); EXPECT("has_function_" #n, (A::has_function_##n<W, bool>::value), false); }
static void singles() {
    mc::ScopedSpace sp("single member detectors");
    HT(iterator) HT(const_iterator) HT(extension_policy) HT(curve_type) HT(field_type) HT(value_type) HT(integral_type) HT(base_field_type)
    HT(modular_type) HT(scalar_field_type) HT(g1_type) HT(g2_type) HT(gt_type) HT(group_type)
    HF(to_affine) HF(to_special) HF(is_special) HF(is_zero) HF(is_well_formed) HF(double_inplace) HF(mixed_add)
#define HS(n) { struct Dm { int n; }; mc::state(4); NAME = #n; \
    EXPECT("has_static_member_data_" #n, (A::has_static_member_data_##n<YY_##n, int>::value), true); EXPECT("has_static_member_data_" #n, (A::has_static_member_data_##n<YY_##n, long>::value), false); \
    EXPECT("has_static_member_data_" #n, (A::has_static_member_data_##n<Dm, int>::value), false); EXPECT("has_static_member_data_" #n, (A::has_static_member_data_##n<int, int>::value), false); }
    HS(value_bits) HS(modulus_bits) HS(base_field_modulus) HS(scalar_field_modulus) HS(arity) HS(p) HS(q)
}
// element templates: only named in the header, so any argument will do
template<typename P> static void elements(const char *n) {
    namespace fd = A::fields::detail;
    mc::state(8);
    NAME = n;
#define EL(t, ext) EXPECT("is_field_element", A::is_field_element<fd::t<P>>::value, true); EXPECT("is_extended_field_element", A::is_extended_field_element<fd::t<P>>::value, ext); \
    EXPECT("is_complex", A::is_complex<fd::t<P>>::value, false);
    EL(element_fp, false) EL(element_fp2, true) EL(element_fp3, true) EL(element_fp4, true) EL(element_fp6_2over3, true) EL(element_fp6_3over2, true) EL(element_fp12_2over3over2, true)
    EXPECT("is_field_element", A::is_field_element<P>::value, false);
    EXPECT("is_extended_field_element", A::is_extended_field_element<P>::value, false);
    typedef A::curves::detail::curve_element<P, int, P> CE;
    EXPECT("is_group_element", A::is_group_element<CE>::value, true);
    EXPECT("is_field_element", A::is_field_element<CE>::value, false);
}
template<typename C, typename F> struct G1t; template<typename C, typename F> struct G2t;
struct Cv { template<typename C = int, typename F = int> using g1_type = G1t<C, F>; template<typename C = int, typename F = int> using g2_type = G2t<C, F>; };
template<typename C, typename F> struct G1t { using curve_type = Cv; }; template<typename C, typename F> struct G2t { using curve_type = Cv; };
template<typename G, typename C, typename F> struct Elt { using group_type = G; using coordinates = C; using form = F; };
template<typename C, typename F, typename C2, typename F2> static void member(const char *n) {
    mc::state(2);
    NAME = n;
    constexpr bool same = std::is_same<C, C2>::value && std::is_same<F, F2>::value;
    EXPECT("is_g1_group_element", (A::is_g1_group_element<Elt<G1t<C, F>, C2, F2>>::value), same);
    EXPECT("is_g2_group_element", (A::is_g2_group_element<Elt<G2t<C, F>, C2, F2>>::value), same);
    EXPECT("is_g2_group_element", (A::is_g2_group_element<Elt<G1t<C, F>, C2, F2>>::value), false);
    EXPECT("is_g1_group_element", (A::is_g1_group_element<Elt<G2t<C, F>, C2, F2>>::value), false);
}
template<typename T> static void cx(const char *n) {
    mc::state(2);
    NAME = n;
    EXPECT("is_complex", A::is_complex<T>::value, false);
    EXPECT("is_complex_v", A::is_complex_v<T>, false);
    EXPECT("is_complex", A::is_complex<std::complex<T>>::value, true);
    EXPECT("is_complex_v", A::is_complex_v<std::complex<T>>, true);
    EXPECT("remove_complex", (std::is_same<A::remove_complex_t<T>, T>::value), true);
    EXPECT("remove_complex", (std::is_same<A::remove_complex_t<std::complex<T>>, T>::value), true);
    EXPECT("remove_complex", (std::is_same<typename A::remove_complex<std::complex<T>>::type, T>::value), true);
    EXPECT("remove_complex of a pointer", (std::is_same<A::remove_complex_t<std::complex<T> *>, std::complex<T> *>::value), true);
}
int main(int argc, char **argv) {
    mc::init(argc, argv, "traits PART2");
    curves(std::make_integer_sequence<int, 72>());
    groups(std::make_integer_sequence<int, 48>());
    fields(std::make_integer_sequence<int, 576>());
    group_elements();
    mixed();
    singles();
    { mc::ScopedSpace sp("field and group element templates"); elements<int>("int"); elements<Cv>("a class"); elements<std::complex<double>>("complex"); elements<A::fields::detail::element_fp<int> *>("a pointer to an element"); }
    {
        mc::ScopedSpace sp("is_g1_group_element, is_g2_group_element: coordinates and forms");
        member<int, int, int, int>("same"); member<int, int, long, int>("other coordinates"); member<int, int, int, long>("other form"); member<long, char, long, char>("same 2"); member<long, char, char, long>("swapped");
    }
    { mc::ScopedSpace sp("is_complex, remove_complex"); cx<float>("float"); cx<double>("double"); cx<long double>("long double"); cx<int>("int"); }
    mc::sample("is_field over 576 combinations of member kinds");
    return mc::finish();
}
#else
using namespace A::curves;
template<typename F> static void field(const char *n, bool ext) {
    mc::state();
    NAME = n;
    EXPECT("is_field", A::is_field<F>::value, true);
    EXPECT("is_extended_field", A::is_extended_field<F>::value, ext);
    EXPECT("is_curve", A::is_curve<F>::value, false);
    EXPECT("is_curve_group", A::is_curve_group<F>::value, false);
    EXPECT("is_field_element", A::is_field_element<typename F::value_type>::value, true);
    EXPECT("is_extended_field_element", A::is_extended_field_element<typename F::value_type>::value, ext);
    EXPECT("is_field_element", A::is_field_element<F>::value, false);
    EXPECT("is_group_element", A::is_group_element<typename F::value_type>::value, false);
    EXPECT("is_field", A::is_field<typename F::value_type>::value, false);
}
template<typename G> static void group(const char *n, bool mixed) {
    typedef typename G::value_type E;
    mc::state();
    NAME = n;
    EXPECT("is_curve_group", A::is_curve_group<G>::value, true);
    EXPECT("is_field", A::is_field<G>::value, false);
    EXPECT("is_extended_field", A::is_extended_field<G>::value, false);
    EXPECT("is_curve", A::is_curve<G>::value, false);
    EXPECT("is_group_element", A::is_group_element<E>::value, true);
    EXPECT("has_mixed_add", A::has_mixed_add<E>::value, mixed);
    EXPECT("is_field_element", A::is_field_element<E>::value, false);
    EXPECT("is_extended_field_element", A::is_extended_field_element<E>::value, false);
    EXPECT("is_group_element", A::is_group_element<G>::value, false);
    EXPECT("is_curve_group", A::is_curve_group<E>::value, false);
}
template<typename C> static void pairing_curve(const char *n) {
    mc::state();
    NAME = n;
    EXPECT("is_curve", A::is_curve<C>::value, true);
    EXPECT("is_field", A::is_field<C>::value, false);
    EXPECT("is_curve_group", A::is_curve_group<C>::value, false);
    if constexpr (!std::is_same<C, edwards<183>>::value) {    // its G2 element names no coordinates
    typedef typename C::template g1_type<>::value_type E1;
    typedef typename C::template g2_type<>::value_type E2;
    EXPECT("is_g1_group_element", A::is_g1_group_element<E1>::value, true);
    EXPECT("is_g2_group_element", A::is_g2_group_element<E1>::value, false);
    EXPECT("is_g1_group_element", A::is_g1_group_element<E2>::value, false);
    EXPECT("is_g2_group_element", A::is_g2_group_element<E2>::value, true);
    }
}
int main(int argc, char **argv) {
    mc::init(argc, argv, "traits PART3");
    typedef coordinates::affine aff; typedef coordinates::jacobian_with_a4_0 j0; typedef coordinates::projective pr; typedef coordinates::jacobian jc;
    typedef coordinates::jacobian_with_a4_minus_3 j3; typedef coordinates::extended_with_a_minus_1 ext; typedef coordinates::inverted inv;
    typedef coordinates::projective_with_a4_minus_3 p3;
    {
        mc::ScopedSpace sp("shipped pairing curves");
        pairing_curve<bls12<381>>("bls12<381>"); pairing_curve<bls12<377>>("bls12<377>"); pairing_curve<alt_bn128<254>>("alt_bn128<254>");
        pairing_curve<mnt4<298>>("mnt4<298>"); pairing_curve<mnt6<298>>("mnt6<298>"); pairing_curve<edwards<183>>("edwards<183>");
    }
    {
        mc::ScopedSpace sp("shipped fields");
#define PF(c) field<c::base_field_type>(#c " base", false); field<c::scalar_field_type>(#c " scalar", false)
#define XF(c) PF(c); field<c::g2_type<>::field_type>(#c " G2 field", true); field<c::gt_type>(#c " GT", true)
        XF(bls12<381>); XF(bls12<377>); XF(alt_bn128<254>); XF(mnt4<298>); XF(mnt6<298>); XF(edwards<183>);
        PF(jubjub); PF(babyjubjub); PF(pallas); PF(vesta); PF(ed25519); PF(curve25519); PF(secp_k1<256>); PF(secp_r1<256>);
    }
    {
        mc::ScopedSpace sp("shipped groups and coordinates");
#define GR(c, x, m) group<c::g1_type<x>>(#c " G1 " #x, m)
#define GR2(c, x, m) GR(c, x, m); group<c::g2_type<x>>(#c " G2 " #x, m)
        GR2(bls12<381>, j0, true); GR2(bls12<381>, aff, false); GR2(bls12<381>, pr, true); GR2(bls12<377>, j0, true); GR2(alt_bn128<254>, j0, true);
        GR2(mnt4<298>, pr, true); GR2(mnt6<298>, pr, true); GR(mnt4<298>, aff, false); GR(edwards<183>, inv, true); GR(edwards<183>, aff, false); group<edwards<183>::g2_type<>>("edwards<183> G2", true);
        GR(jubjub, aff, false); GR(jubjub, inv, true); GR(babyjubjub, aff, false); GR(pallas, j0, true); GR(pallas, pr, true); GR(pallas, aff, false); GR(vesta, j0, true);
        GR(ed25519, ext, true); GR(ed25519, aff, false); GR(secp_k1<256>, aff, false); GR(secp_k1<256>, jc, true); GR(secp_r1<256>, aff, false); GR(secp_r1<256>, j3, true);
        GR(secp_r1<256>, p3, true);
    }
    mc::sample("bls12<381>: is_curve, groups, fields and elements of G1, G2, GT");
    return mc::finish();
}
#endif
#endif
