// C04: matrix element access and restructuring against a row-major table model.
#include "blas.hpp"
#include <deque>
#include <map>

#ifndef PART
#define PART 0
#endif

template<typename T>
MM<T> tags(std::size_t r, std::size_t c, std::size_t off = 0) {
    MM<T> m(r, c);
    for (std::size_t i = 0; i < r * c; ++i) m.e[i] = tag<T>(i + off);
    return m;
}
template<typename T, std::size_t N, std::size_t M>
void expect(const char *op, const matrix<T, N, M> &got, const MM<T> &want, const std::string &ctx) {
    mc::step(op);
    if (!(mod(got) == want)) mc::violation(std::string("mat:") + op, mc::str(op, " ", ctx, " got ", mod(got), " want ", want));
}
template<typename F>
bool throws(F f) {
    try { f(); } catch (...) { return true; }
    return false;
}

template<typename T, std::size_t R, std::size_t C>
void access(const MM<T> &a) {
    mc::state();
    mc::trace();
    auto m = impl<R, C>(a);
    const auto &cm = m;
    static_assert(matrix<T, R, C>::column_size == R && matrix<T, R, C>::row_size == C);
    static_assert(std::is_same_v<decltype(m.row(0)), vector<T, C>> && std::is_same_v<decltype(m.column(0)), vector<T, R>>);
    for (std::size_t i = 0; i < R; ++i) {
        mc::step("row");
        MV<T> w(C);
        for (std::size_t j = 0; j < C; ++j) w[j] = a.at(i, j);
        MC_CHECK(mod(cm.row(i)) == w, "mat:row", R, "x", C, " i=", i, " got ", mod(cm.row(i)), " want ", w);
    }
    for (std::size_t j = 0; j < C; ++j) {
        mc::step("column");
        MV<T> w(R);
        for (std::size_t i = 0; i < R; ++i) w[i] = a.at(i, j);
        MC_CHECK(mod(cm.column(j)) == w, "mat:column", R, "x", C, " j=", j, " got ", mod(cm.column(j)), " want ", w);
    }
    const std::size_t far[] = {0, 1, 2, R, C, R + C, 1000, std::size_t(-1), std::size_t(-2), std::size_t(1) << 63, std::size_t(1) << 32};
    for (std::size_t d : far) {
        mc::step("row out of range");
        MC_CHECK(throws([&] { cm.row(R + d < R ? d : R + d); }) || (R + d < R && d < R), "mat:row-range", R, "x", C, " row(", R + d < R ? d : R + d, ") did not throw");
        mc::step("column out of range");
        MC_CHECK(throws([&] { cm.column(C + d < C ? d : C + d); }) || (C + d < C && d < C), "mat:column-range", R, "x", C, " column(", C + d < C ? d : C + d, ") did not throw");
    }
    for (std::size_t i = 0; i < R; ++i)
        for (std::size_t j = 0; j < C; ++j) {
            mc::step("operator[]");
            MC_CHECK(m[i][j] == a.at(i, j) && cm[i][j] == a.at(i, j), "mat:index", R, "x", C, " [", i, "][", j, "]");
            auto w = m;
            w[i][j] = tag<T>(900);
            MM<T> b = a;
            b.at(i, j) = tag<T>(900);
            MC_CHECK(mod(w) == b, "mat:index-write", R, "x", C, " [", i, "][", j, "]");
        }
}

template<typename T, std::size_t R, std::size_t C>
void restructure(const MM<T> &a) {
    mc::state();
    mc::trace();
    auto m = impl<R, C>(a);
    std::string ctx = mc::str(R, "x", C, " ", a);
    {
        MM<T> w(C, R);
        for (std::size_t i = 0; i < R; ++i) for (std::size_t j = 0; j < C; ++j) w.at(j, i) = a.at(i, j);
        auto t = transpose(m);
        static_assert(std::is_same_v<decltype(t), matrix<T, C, R>>);
        expect("transpose", t, w, ctx);
        expect("transpose-twice", transpose(t), a, ctx);
    }
    for (std::size_t x = 0; x < R; ++x)
        for (std::size_t y = 0; y < R; ++y) {
            MM<T> w = a;
            for (std::size_t j = 0; j < C; ++j) std::swap(w.at(x, j), w.at(y, j));
            expect("swaprow", swaprow(m, x, y), w, mc::str(ctx, " rows ", x, ",", y));
        }
    for (std::size_t x = 0; x < C; ++x)
        for (std::size_t y = 0; y < C; ++y) {
            MM<T> w = a;
            for (std::size_t i = 0; i < R; ++i) std::swap(w.at(i, x), w.at(i, y));
            expect("swapcol", swapcol(m, x, y), w, mc::str(ctx, " cols ", x, ",", y));
        }
    MC_CHECK(mod(m) == a, "mat:operand-modified", ctx);
}

template<typename T, std::size_t R, std::size_t C, std::size_t P, std::size_t Q>
void sub() {
    MM<T> a = tags<T>(R, C);
    auto m = impl<R, C>(a);
    const std::size_t big = std::size_t(0) - 1;
    std::vector<std::size_t> as, bs;
    for (std::size_t i = 0; i <= R + 2; ++i) as.push_back(i);
    for (std::size_t i = 0; i <= C + 2; ++i) bs.push_back(i);
    for (std::size_t d = 0; d < P + 2; ++d) as.push_back(big - d);
    for (std::size_t d = 0; d < Q + 2; ++d) bs.push_back(big - d);
    for (std::size_t x : as)
        for (std::size_t y : bs) {
            mc::state();
            mc::step("submat");
            bool ok = P <= R && Q <= C && x <= R - P && y <= C - Q;
            try {
                auto s = submat<P, Q>(m, x, y);
                MC_CHECK(ok, "mat:submat-range", R, "x", C, " submat<", P, ",", Q, ">(", x, ",", y, ") did not throw");
                if (ok) {
                    MM<T> w(P, Q);
                    for (std::size_t i = 0; i < P; ++i) for (std::size_t j = 0; j < Q; ++j) w.at(i, j) = a.at(x + i, y + j);
                    MC_CHECK(mod(s) == w, "mat:submat", R, "x", C, " submat<", P, ",", Q, ">(", x, ",", y, ") got ", mod(s), " want ", w);
                }
            } catch (...) {
                MC_CHECK(!ok, "mat:submat-throws", R, "x", C, " submat<", P, ",", Q, ">(", x, ",", y, ") threw");
            }
        }
}

template<typename T, std::size_t R, std::size_t C, std::size_t K>
void cats() {
    mc::state();
    MM<T> a = tags<T>(R, C), b = tags<T>(R, K, 200), c = tags<T>(K, C, 300);
    MM<T> h(R, C + K), v(R + K, C);
    for (std::size_t i = 0; i < R; ++i) {
        for (std::size_t j = 0; j < C; ++j) h.at(i, j) = a.at(i, j);
        for (std::size_t j = 0; j < K; ++j) h.at(i, C + j) = b.at(i, j);
    }
    for (std::size_t j = 0; j < C; ++j) {
        for (std::size_t i = 0; i < R; ++i) v.at(i, j) = a.at(i, j);
        for (std::size_t i = 0; i < K; ++i) v.at(R + i, j) = c.at(i, j);
    }
    auto hm = horzcat(impl<R, C>(a), impl<R, K>(b));
    static_assert(std::is_same_v<decltype(hm), matrix<T, R, C + K>>);
    expect("horzcat", hm, h, mc::str(R, "x", C, "|", K));
    auto vm = vertcat(impl<R, C>(a), impl<K, C>(c));
    static_assert(std::is_same_v<decltype(vm), matrix<T, R + K, C>>);
    expect("vertcat", vm, v, mc::str(R, "x", C, "/", K));
    // cutting the pieces out again gives the operands back
    expect("horzcat+submat", submat<R, K>(hm, 0, C), b, mc::str(R, "x", C, "|", K));
    expect("vertcat+submat", submat<K, C>(vm, R, 0), c, mc::str(R, "x", C, "/", K));
}

template<typename T, std::size_t R, std::size_t C, std::size_t A, std::size_t B>
void rep() {
    mc::state();
    MM<T> a = tags<T>(R, C), w(R * A, C * B);
    for (std::size_t i = 0; i < R * A; ++i) for (std::size_t j = 0; j < C * B; ++j) w.at(i, j) = a.at(i % R, j % C);
    auto m = repmat<A, B>(impl<R, C>(a));
    static_assert(std::is_same_v<decltype(m), matrix<T, R * A, C * B>>);
    expect("repmat", m, w, mc::str(R, "x", C, " by ", A, ",", B));
}

template<typename T, std::size_t R, std::size_t C, std::size_t P>
void shape_to() {
    if constexpr (R * C % P == 0) {
        constexpr std::size_t Q = R * C / P;
        mc::state();
        MM<T> a = tags<T>(R, C), w(P, Q);
        w.e = a.e;
        auto m = reshape<P, Q>(impl<R, C>(a));
        static_assert(std::is_same_v<decltype(m), matrix<T, P, Q>>);
        expect("reshape", m, w, mc::str(R, "x", C, " to ", P, "x", Q));
        expect("reshape-back", reshape<R, C>(m), a, mc::str(R, "x", C, " via ", P, "x", Q));
    }
}

template<typename T, std::size_t R, std::size_t C>
void make() {
    mc::state();
    for (int k : {0, 1, 5}) {
        MM<T> w(R, C);
        for (auto &x : w.e) x = T(k);
        expect("fill", alg::fill<R, C>(T(k)), w, mc::str(R, "x", C));
    }
    MM<T> w(R, C);
    for (std::size_t i = 0; i < R; ++i) for (std::size_t j = 0; j < C; ++j) w.at(i, j) = tag<T>(100 * i + j);
    expect("generate", alg::generate<R, C>([](std::size_t i, std::size_t j) { return tag<T>(100 * i + j); }), w, mc::str(R, "x", C));
}
template<typename T, std::size_t N>
void square() {
    mc::state();
    MM<T> w(N, N);
    for (std::size_t i = 0; i < N; ++i) for (std::size_t j = 0; j < N; ++j) w.at(i, j) = T(i == j ? 1 : 0);
    expect("get_identity", get_identity<T, N>(), w, mc::str("N=", N));
    expect("identity", alg::identity<T, N>, w, mc::str("N=", N));
    MV<T> v(N);
    for (std::size_t i = 0; i < N; ++i) v[i] = tag<T>(i);
    MM<T> col(N, 1), row(1, N);
    col.e = row.e = v.e;
    expect("as_column", as_column(impl<N>(v)), col, mc::str("N=", N));
    expect("as_row", as_row(impl<N>(v)), row, mc::str("N=", N));
}

using Sh = Shapes<Shape<1, 1>, Shape<1, 2>, Shape<2, 1>, Shape<2, 2>, Shape<1, 3>, Shape<3, 1>, Shape<2, 3>, Shape<3, 2>, Shape<3, 3>, Shape<1, 4>, Shape<4, 1>, Shape<2, 4>,
                  Shape<4, 2>, Shape<3, 4>, Shape<4, 3>, Shape<4, 4>, Shape<1, 5>, Shape<5, 1>, Shape<2, 5>, Shape<5, 2>, Shape<3, 5>, Shape<5, 3>, Shape<4, 5>, Shape<5, 4>, Shape<5, 5>,
                  Shape<6, 6>, Shape<2, 7>, Shape<7, 2>, Shape<8, 8>, Shape<1, 9>, Shape<9, 1>, Shape<3, 16>, Shape<16, 3>, Shape<16, 16>, Shape<17, 17>, Shape<1, 33>, Shape<33, 1>, Shape<2, 64>, Shape<64, 2>, Shape<9, 33>>;
using Small = Shapes<Shape<1, 1>, Shape<1, 2>, Shape<2, 1>, Shape<2, 2>, Shape<1, 3>, Shape<3, 1>, Shape<2, 3>, Shape<3, 2>, Shape<3, 3>, Shape<2, 4>, Shape<4, 3>, Shape<4, 4>, Shape<3, 5>, Shape<5, 2>>;

// breadth-first search over every arrangement of six tagged cells in every shape reachable by the operations
void arrangements() {
    struct St {
        std::size_t r, c;
        std::vector<int> e;
        bool operator<(const St &o) const { return std::tie(r, c, e) < std::tie(o.r, o.c, o.e); }
    };
    std::set<St> seen;
    std::deque<St> q;
    St s0 {2, 3, {1, 2, 3, 4, 5, 6}};
    seen.insert(s0);
    q.push_back(s0);
    auto go = [&](auto sh) {
        using S = decltype(sh);
        constexpr std::size_t R = S::r, C = S::c;
        St s = q.front();
        if (s.r != R || s.c != C) return;
        q.pop_front();
        mc::state();
        mc::trace();
        MM<int> a(R, C);
        a.e = s.e;
        auto m = impl<R, C>(a);
        auto push = [&](const char *op, const auto &got, const MM<int> &w) {
            mc::step(op);
            if (!(mod(got) == w)) { mc::violation(std::string("mat:seq:") + op, mc::str(op, " on ", a, " got ", mod(got), " want ", w)); return; }
            St n {w.r, w.c, w.e};
            if (seen.insert(n).second) q.push_back(n);
        };
        MM<int> t(C, R);
        for (std::size_t i = 0; i < R; ++i) for (std::size_t j = 0; j < C; ++j) t.at(j, i) = a.at(i, j);
        push("transpose", transpose(m), t);
        for (std::size_t x = 0; x + 1 < R; ++x) {
            MM<int> w = a;
            for (std::size_t j = 0; j < C; ++j) std::swap(w.at(x, j), w.at(x + 1, j));
            push("swaprow", swaprow(m, x, x + 1), w);
        }
        for (std::size_t x = 0; x + 1 < C; ++x) {
            MM<int> w = a;
            for (std::size_t i = 0; i < R; ++i) std::swap(w.at(i, x), w.at(i, x + 1));
            push("swapcol", swapcol(m, x + 1, x), w);
        }
        MM<int> w = a;
        w.r = 2; w.c = 3; push("reshape<2,3>", reshape<2, 3>(m), w);
        w.r = 3; w.c = 2; push("reshape<3,2>", reshape<3, 2>(m), w);
        w.r = 1; w.c = 6; push("reshape<1,6>", reshape<1, 6>(m), w);
        w.r = 6; w.c = 1; push("reshape<6,1>", reshape<6, 1>(m), w);
        if constexpr (C > 1) {    // move the first column to the end
            MM<int> x(R, C);
            for (std::size_t i = 0; i < R; ++i) for (std::size_t j = 0; j < C; ++j) x.at(i, j) = a.at(i, (j + 1) % C);
            push("submat+horzcat", horzcat(submat<R, C - 1>(m, 0, 1), submat<R, 1>(m, 0, 0)), x);
            push("column+as_column+horzcat", horzcat(submat<R, C - 1>(m, 0, 1), as_column(m.column(0))), x);
        }
        if constexpr (R > 1) {
            MM<int> x(R, C);
            for (std::size_t i = 0; i < R; ++i) for (std::size_t j = 0; j < C; ++j) x.at(i, j) = a.at((i + 1) % R, j);
            push("submat+vertcat", vertcat(submat<R - 1, C>(m, 1, 0), submat<1, C>(m, 0, 0)), x);
            push("row+as_row+vertcat", vertcat(submat<R - 1, C>(m, 1, 0), as_row(m.row(0))), x);
        }
        push("repmat+submat", submat<R, C>(repmat<2, 2>(m), 0, 0), a);
    };
    while (!q.empty()) {
        std::size_t before = q.size();
        St s = q.front();
        go(Shape<2, 3> {});
        if (q.empty()) break;
        go(Shape<3, 2> {});
        if (q.empty()) break;
        go(Shape<1, 6> {});
        if (q.empty()) break;
        go(Shape<6, 1> {});
        (void)before;
        if (!q.empty() && !(q.front().r * q.front().c == 6)) std::abort();
    }
    MC_CHECK(seen.size() == 4 * 720, "mat:reachable", "reached ", seen.size(), " arrangements instead of 2880");
}

int main(int argc, char **argv) {
    mc::init(argc, argv, "mat_struct");
    mc::hang_limit_s = 30;
#if PART == 0
    {
        mc::ScopedSpace s("row, column, element access incl. out-of-range indices, all listed shapes");
        for_shapes(Sh {}, [](auto sh) { using S = decltype(sh); access<int, S::r, S::c>(tags<int>(S::r, S::c)); });
        for_shapes(Small {}, [](auto sh) {
            using S = decltype(sh);
            access<double, S::r, S::c>(tags<double>(S::r, S::c));
            access<Rat, S::r, S::c>(tags<Rat>(S::r, S::c));
        });
    }
    {
        mc::ScopedSpace s("fill, generate, identity, as_row, as_column");
        for_shapes(Sh {}, [](auto sh) { using S = decltype(sh); make<int, S::r, S::c>(); });
        for_shapes(Small {}, [](auto sh) { using S = decltype(sh); make<double, S::r, S::c>(); make<Rat, S::r, S::c>(); });
        for_sizes(std::index_sequence<1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 15, 16, 17, 18, 33, 65> {}, [](auto n) { square<int, decltype(n)::value>(); square<double, decltype(n)::value>(); });
        for_sizes(std::index_sequence<1, 2, 3, 4> {}, [](auto n) { square<unsigned, decltype(n)::value>(); square<std::complex<double>, decltype(n)::value>(); });
    }
    mc::sample("2x3 [1 2 3; 4 5 6]: row(1), column(2), row(2) throws, column(2^64-1) throws");
#elif PART == 1
    {
        mc::ScopedSpace s("transpose, swaprow, swapcol on every shape and index pair");
        for_shapes(Sh {}, [](auto sh) { using S = decltype(sh); restructure<int, S::r, S::c>(tags<int>(S::r, S::c)); });
        for_shapes(Small {}, [](auto sh) {
            using S = decltype(sh);
            restructure<double, S::r, S::c>(tags<double>(S::r, S::c));
            restructure<std::complex<double>, S::r, S::c>(tags<std::complex<double>>(S::r, S::c));
        });
    }
    {
        mc::ScopedSpace s("the same operations on every 0/1/2 content");
        auto every = [](auto sh, std::vector<int> al) {
            using S = decltype(sh);
            all_assignments<int>(S::r * S::c, al, [&](const std::vector<int> &v) { MM<int> a(S::r, S::c); a.e = v; restructure<int, S::r, S::c>(a); });
        };
        every(Shape<2, 2> {}, {0, 1, 2});
        every(Shape<2, 3> {}, {0, 1});
        every(Shape<3, 2> {}, {0, 1});
        every(Shape<3, 3> {}, {0, 1});
    }
    {
        mc::ScopedSpace s("arrangements of six tagged cells over shapes 2x3, 3x2, 1x6, 6x1 (breadth-first, complete)");
        arrangements();
    }
    mc::sample("[1 2 3; 4 5 6] -transpose-> [1 4; 2 5; 3 6] -reshape-> ... all 2880 arrangements");
#elif PART == 2
    {
        mc::ScopedSpace s("submat for every size and offset, in and out of range");
        for_shapes(Shapes<Shape<1, 1>, Shape<2, 3>, Shape<3, 2>, Shape<3, 3>, Shape<4, 4>, Shape<2, 5>, Shape<5, 4>> {}, [](auto sh) {
            using S = decltype(sh);
            for_sizes(std::index_sequence<1, 2, 3, 4> {}, [](auto p) {
                for_sizes(std::index_sequence<1, 2, 3, 5> {}, [](auto q) { sub<int, S::r, S::c, decltype(p)::value, decltype(q)::value>(); });
            });
        });
        sub<int, 17, 18, 16, 9>();
        sub<int, 33, 3, 32, 2>();
        sub<double, 5, 5, 3, 2>();
    }
    {
        mc::ScopedSpace s("repmat");
        for_shapes(Shapes<Shape<1, 1>, Shape<1, 3>, Shape<3, 1>, Shape<2, 2>, Shape<2, 3>, Shape<3, 2>, Shape<4, 3>, Shape<5, 5>> {}, [](auto sh) {
            using S = decltype(sh);
            for_sizes(std::index_sequence<1, 2, 3, 4> {}, [](auto p) {
                for_sizes(std::index_sequence<1, 2, 3, 5> {}, [](auto q) { rep<int, S::r, S::c, decltype(p)::value, decltype(q)::value>(); });
            });
        });
        rep<int, 3, 2, 8, 16>();
        rep<double, 2, 3, 2, 2>();
    }
    mc::sample("submat<2,2> of 3x3 at (2^64-1, 0) throws; at (1,1) is the lower right block");
#elif PART == 3
    {
        mc::ScopedSpace s("horzcat and vertcat for every shape triple");
        for_shapes(Shapes<Shape<1, 1>, Shape<1, 2>, Shape<2, 1>, Shape<2, 2>, Shape<2, 3>, Shape<3, 2>, Shape<3, 3>, Shape<4, 3>, Shape<3, 5>, Shape<5, 4>, Shape<1, 16>, Shape<16, 1>, Shape<8, 9>> {}, [](auto sh) {
            using S = decltype(sh);
            for_sizes(std::index_sequence<1, 2, 3, 4, 5, 8, 17> {}, [](auto k) { cats<int, S::r, S::c, decltype(k)::value>(); });
        });
        cats<double, 3, 2, 4>();
        cats<Rat, 2, 3, 1>();
    }
    {
        mc::ScopedSpace s("reshape to every factorisation");
        for_shapes(Sh {}, [](auto sh) {
            using S = decltype(sh);
            for_sizes(std::index_sequence<1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 20, 25, 33, 64> {}, [](auto p) { shape_to<int, S::r, S::c, decltype(p)::value>(); });
        });
        shape_to<double, 4, 6, 3>();
        shape_to<Rat, 4, 6, 8>();
    }
    mc::sample("reshape 2x3 -> 3x2 keeps row-major order; horzcat/vertcat then submat returns the operands");
#endif
    return mc::finish();
}
