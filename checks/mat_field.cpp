// C32: vectors and matrices whose scalars are the library's own field elements, against the same operations on coefficient vectors
#include <nil/crypto3/algebra/vector/vector.hpp>
#include <nil/crypto3/algebra/vector/utility.hpp>
#include <nil/crypto3/algebra/vector/operators.hpp>
#include <nil/crypto3/algebra/vector/math.hpp>
#include <nil/crypto3/algebra/matrix/matrix.hpp>
#include <nil/crypto3/algebra/matrix/utility.hpp>
#include <nil/crypto3/algebra/matrix/operators.hpp>
#include <nil/crypto3/algebra/matrix/math.hpp>
#include "tiny.hpp"
#include "mc.hpp"
using namespace nil::crypto3::algebra;
typedef std::vector<u64> C;    // coefficients of one field element

template<typename E>
struct Lin {
    static constexpr bool I = std::is_constructible<E, int>::value;    // sums, products and identities start from an integer
    std::string nm;
    model::Tower<u64> t = conv::tower<u64, E>::get();
    std::vector<C> all;
    std::vector<E> im;
    explicit Lin(std::string n) : nm(std::move(n)) {
        u64 q = 1; for (std::size_t i = 0; i < t.dim(); ++i) q *= t.p;
        for (u64 k = 0; k < q; ++k) { C c; u64 x = k; for (std::size_t i = 0; i < t.dim(); ++i, x /= t.p) c.push_back(x % t.p); all.push_back(c); im.push_back(conv::from<E>(c)); }
    }
    typedef std::vector<unsigned> Ix;    // a vector or a matrix in row order, by element index
    unsigned idx(const C &c) const { unsigned k = 0; for (std::size_t i = c.size(); i-- > 0;) k = k * unsigned(t.p) + unsigned(c[i]); return k; }
    unsigned idx(const E &e) const { return idx(conv::to<u64>(e)); }
    std::vector<unsigned> at, mt;    // addition and multiplication tables of the model
    void tables() { const unsigned q = unsigned(all.size()); at.resize(q * q); mt.resize(q * q); for (unsigned a = 0; a < q; ++a) for (unsigned b = 0; b < q; ++b) { at[a * q + b] = idx(t.add(all[a], all[b])); mt[a * q + b] = idx(t.mul(all[a], all[b])); } }
    unsigned s(unsigned a, unsigned b) const { return at[a * all.size() + b]; }
    unsigned m(unsigned a, unsigned b) const { return mt[a * all.size() + b]; }
    template<std::size_t N> vector<E, N> vec(const Ix &v) const { vector<E, N> r {}; for (std::size_t i = 0; i < N; ++i) r[i] = im[v[i]]; return r; }
    template<std::size_t M, std::size_t N> matrix<E, M, N> mat(const Ix &v) const { matrix<E, M, N> r {}; for (std::size_t i = 0; i < M; ++i) for (std::size_t j = 0; j < N; ++j) r[i][j] = im[v[i * N + j]]; return r; }
    template<std::size_t N> Ix back(const vector<E, N> &v) const { Ix r; for (std::size_t i = 0; i < N; ++i) r.push_back(idx(v[i])); return r; }
    template<std::size_t M, std::size_t N> Ix back(const matrix<E, M, N> &v) const { Ix r; for (std::size_t i = 0; i < M; ++i) for (std::size_t j = 0; j < N; ++j) r.push_back(idx(v[i][j])); return r; }
    std::string show(const Ix &v) const { std::ostringstream o; for (unsigned x : v) { o << "("; for (u64 c : all[x]) o << c << " "; o << ")"; } return o.str(); }
    void eq(const char *op, const Ix &got, const Ix &want, const Ix &a, const Ix &b) const { if (got != want) mc::violation(mc::str("field:", op), mc::str(nm, " ", op, " a=", show(a), " b=", show(b), " got ", show(got), " want ", show(want))); }
    std::vector<Ix> tuples(std::size_t n, std::size_t cap) const {
        // every tuple, or with a cap every tuple over the elements 0, 1, -1 and the last generator of the basis
        std::vector<unsigned> dom;
        double total = 1; for (std::size_t i = 0; i < n; ++i) total *= double(all.size());
        if (total <= double(cap)) for (unsigned i = 0; i < all.size(); ++i) dom.push_back(i);
        else for (unsigned d : {0u, 1u, unsigned(t.p - 1), unsigned(all.size() / t.p)}) { bool have = false; for (unsigned x : dom) have |= x == d; if (!have) dom.push_back(d); }
        std::vector<Ix> r; Ix c(n, 0);
        for (;;) {
            Ix v; for (auto k : c) v.push_back(dom[k]);
            r.push_back(v);
            std::size_t i = 0; while (i < n && ++c[i] == dom.size()) c[i++] = 0;
            if (i == n) return r;
        }
    }
    template<std::size_t N> void vectors(std::size_t cap) {
        mc::ScopedSpace sp(mc::str("vectors of ", N, " elements of ", nm));
        auto vs = tuples(N, cap);
        for (auto &a : vs) {
            if (!mc::mine()) continue;
            mc::cur_args = show(a);
            auto va = vec<N>(a);
            mc::state();
            if constexpr (I) { mc::step("sum");  unsigned w = 0; for (unsigned x : a) w = s(w, x); eq("sum", {idx(sum(va))}, {w}, a, {}); }
            for (unsigned k = 0; k < all.size(); ++k) {
                Ix p, q, l; for (unsigned x : a) { p.push_back(s(x, k)); q.push_back(m(x, k)); }
                mc::step("vector,scalar");
                eq("v+k", back(va + im[k]), p, a, {k}); eq("k+v", back(im[k] + va), p, a, {k}); eq("v*k", back(va * im[k]), q, a, {k}); eq("k*v", back(im[k] * va), q, a, {k});
                eq("fill", back(fill<N>(im[k])), Ix(N, k), {k}, {});
            }
            for (int n = -int(N); n <= int(N); ++n) { Ix w; for (std::size_t i = 0; i < N; ++i) w.push_back(a[(i + std::size_t(n + 2 * int(N))) % N]); mc::step("rotate"); eq("rotate", back(rotate(va, n)), w, a, {}); }
            { Ix w(a); w.insert(w.end(), a.begin(), a.end()); mc::step("concat"); eq("concat", back(concat(va, va)), w, a, {}); }
            mc::step("slice");
            eq("slice", back(slice<1>(va, N - 1)), {a[N - 1]}, a, {});
            if constexpr (N > 2) for (std::size_t k = 0; k + 2 <= N; ++k) eq("slice", back(slice<2>(va, k)), {a[k], a[k + 1]}, a, {unsigned(k)});
            eq("as_row", back(as_row(va)), a, a, {}); eq("as_column", back(as_column(va)), a, a, {});
            for (auto &b : vs) {
                auto vb = vec<N>(b);
                Ix p, q; unsigned d = 0;
                for (std::size_t i = 0; i < N; ++i) { p.push_back(s(a[i], b[i])); q.push_back(m(a[i], b[i])); d = s(d, q[i]); }
                mc::trace(); mc::step("vector,vector");
                eq("v+w", back(va + vb), p, a, b); eq("v*w", back(va * vb), q, a, b); if constexpr (I) eq("dot", {idx(dot(va, vb))}, {d}, a, b);
                if ((va == vb) != (a == b) || (va != vb) != (a != b)) mc::violation("field:v==w", mc::str(nm, " == of ", show(a), " and ", show(b)));
                eq("left operand afterwards", back(va), a, a, b); eq("right operand afterwards", back(vb), b, a, b);
            }
        }
        mc::sample(mc::str(nm, ": ", vs.size(), " vectors of ", N, " pairwise"));
    }
    Ix mm(const Ix &a, const Ix &b, std::size_t M, std::size_t N, std::size_t P) const {
        Ix r(M * P, 0);
        for (std::size_t i = 0; i < M; ++i) for (std::size_t j = 0; j < P; ++j) for (std::size_t k = 0; k < N; ++k) r[i * P + j] = s(r[i * P + j], m(a[i * N + k], b[k * P + j]));
        return r;
    }
    template<std::size_t M, std::size_t N, std::size_t P> void matrices(std::size_t cap) {
        mc::ScopedSpace sp(mc::str("products of ", M, "x", N, " and ", N, "x", P, " matrices over ", nm));
        auto as = tuples(M * N, cap), bs = tuples(N * P, cap);
        for (auto &a : as) {
            if (!mc::mine()) continue;
            mc::cur_args = show(a);
            auto A = mat<M, N>(a);
            mc::state();
            Ix tr; for (std::size_t j = 0; j < N; ++j) for (std::size_t i = 0; i < M; ++i) tr.push_back(a[i * N + j]);
            if constexpr (M > 1) { mc::step("submat"); for (std::size_t i = 0; i < M; ++i) for (std::size_t j = 0; j < N; ++j) eq("submat", back(submat<1, 1>(A, i, j)), {a[i * N + j]}, a, {unsigned(i), unsigned(j)}); }
            mc::step("transpose"); eq("transpose", back(transpose(A)), tr, a, {}); eq("hermitian", back(hermitian(A)), tr, a, {});
            if constexpr (M == N && I) {
                unsigned d = 0; Ix id(N * N, 0); for (std::size_t i = 0; i < N; ++i) { d = s(d, a[i * N + i]); id[i * N + i] = 1; }
                mc::step("trace"); eq("trace", {idx(trace(A))}, {d}, a, {});
                eq("identity", back(get_identity<E, N>()), id, a, {}); eq("A*I", back(matmul(A, get_identity<E, N>())), a, a, {});
            }
            for (unsigned k = 0; k < all.size(); ++k) {
                Ix p, q; for (unsigned x : a) { p.push_back(s(x, k)); q.push_back(m(x, k)); }
                mc::step("matrix,scalar");
                eq("A+k", back(A + im[k]), p, a, {k}); eq("k+A", back(im[k] + A), p, a, {k}); eq("A*k", back(A * im[k]), q, a, {k}); eq("k*A", back(im[k] * A), q, a, {k});
            }
            for (auto &b : bs) {
                auto B = mat<N, P>(b);
                mc::trace(); mc::step("matmul");
                if constexpr (I) eq("matmul", back(matmul(A, B)), mm(a, b, M, N, P), a, b);
                if constexpr (M == 1 && I) eq("vectmatmul", back(vectmatmul(vec<N>(a), B)), mm(a, b, M, N, P), a, b);
                if constexpr (P == 1 && I) eq("matvectmul", back(matvectmul(A, vec<N>(b))), mm(a, b, M, N, P), a, b);
                if constexpr (M <= N) { Ix w(b); w.insert(w.end(), b.begin(), b.end()); mc::step("vertcat"); eq("vertcat", back(vertcat(B, B)), w, b, {}); }
                Ix kr; for (std::size_t i = 0; i < M; ++i) for (std::size_t k = 0; k < N; ++k) for (std::size_t j = 0; j < N; ++j) for (std::size_t l = 0; l < P; ++l) kr.push_back(m(a[i * N + j], b[k * P + l]));
                mc::step("kron"); eq("kron", back(kron(A, B)), kr, a, b);
                if constexpr (M == N && N == P) {
                    Ix p, q; for (std::size_t i = 0; i < N * N; ++i) { p.push_back(s(a[i], b[i])); q.push_back(m(a[i], b[i])); }
                    mc::step("matrix,matrix"); eq("A+B", back(A + B), p, a, b); eq("A*B elementwise", back(A * B), q, a, b);
                    if ((A == B) != (a == b) || (A != B) != (a != b)) mc::violation("field:A==B", mc::str(nm, " == of ", show(a), " and ", show(b)));
                }
                eq("left operand afterwards", back(A), a, a, b); eq("right operand afterwards", back(B), b, a, b);
            }
        }
        mc::sample(mc::str(nm, ": ", as.size(), " x ", bs.size(), " matrices"));
    }
    void run() {
        tables();
        const std::size_t c = mc::thorough ? 4096 : 300, d = mc::thorough ? 700 : 90;
        vectors<1>(c); vectors<2>(c); vectors<3>(c); vectors<4>(c);
        matrices<1, 1, 1>(c); matrices<1, 2, 1>(c); matrices<2, 1, 2>(c); matrices<2, 2, 2>(d); matrices<1, 3, 2>(d); matrices<2, 3, 1>(d);
    }
};
template<typename F> void go(const char *n) { Lin<typename F::value_type> l(n); l.run(); }
int main(int argc, char **argv) {
    mc::init(argc, argv, "linear algebra over field elements");
    typedef tiny::tf<3, 2, 0, 0> F3; typedef tiny::tf<5, 2, 0, 0> F5; typedef tiny::tf<13, 2, 0, 0> F13;
    go<F3>("GF(3)"); go<F5>("GF(5)"); go<F13>("GF(13)");
    go<fields::fp2<F3>>("GF(9)"); go<fields::fp2<F5>>("GF(25)"); go<fields::fp3<tiny::tf<7, 2, 0, 0>>>("GF(343)");
    return mc::finish();
}
