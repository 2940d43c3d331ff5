// Matrix arithmetic and matrix functions against element by element references (C30, C31).
#include "../harness/near.hpp"
#include <algorithm>
#include <array>
#include <cstdint>
#include <type_traits>
#include <utility>
#include <xme/math/math.hpp>
#ifndef PART
#define PART 30
#endif
#ifndef TYPE
#define TYPE 0
#endif

using namespace mon;
using xme::math::Matrix;
using xme::math::Vector;
namespace xm = xme::math;

// what the elements should be, column by column
template<typename T, size_t C, size_t R>
using Ref = std::array<std::array<T, R>, C>;

template<typename T>
T element(Rng& r, int mode) {
    switch(mode) {
    case 0: return T(r.range(-9, 9));
    case 1: return r.chance(50) ? T(0) : T(r.range(-3, 3));
    case 2: return number<T>(r, 6);
    case 3: return r.chance(70) ? T(r.range(-20, 20)) / T(4) : -T(0);
    default: return T(r.real() * 2 - 1);
    }
}
template<typename T, size_t C, size_t R>
Ref<T, C, R> random_ref(Rng& r) {
    Ref<T, C, R> ref;
    const int mode = (int)r.below(6);
    for(auto& c: ref)
        for(auto& e: c) e = element<T>(r, mode);
    return ref;
}
template<typename T, size_t R>
Vector<T, R> vec(const std::array<T, R>& a) {
    Vector<T, R> v(T(0));
    for(size_t i = 0; i < R; ++i) v[i] = a[i];
    return v;
}
template<typename T, size_t C, size_t R>
Matrix<T, C, R> make(const Ref<T, C, R>& ref) {
    return [&]<size_t... I>(std::index_sequence<I...>) { return Matrix<T, C, R>(vec(ref[I])...); }(std::make_index_sequence<C>());
}
template<typename T, size_t C, size_t R>
void show(const char* what, const Ref<T, C, R>& ref) {
    note("%s %zux%zu:", what, C, R);
    for(auto& c: ref) {
        for(auto& e: c) note(" %.9Lg", (real)e);
        note(";");
    }
    note("\n");
}
// the same number, with the sign of a zero
template<typename T>
bool same(T a, T b) {
    return a == b || (a != a && b != b);
}
template<typename T, size_t C, size_t R>
void expect(const Matrix<T, C, R>& m, const Ref<T, C, R>& ref, const char* key, const char* what) {
    judged();
    for(size_t c = 0; c < C; ++c)
        for(size_t r = 0; r < R; ++r) MON_CHECK(same(m[c][r], ref[c][r]), key, "%s (%zux%zu): element %zu of column %zu is %.12Lg instead of %.12Lg", what, C, R, r, c, (real)m[c][r], (real)ref[c][r]);
}
// ref: values in long double, scale: the magnitudes they were summed from
template<typename T, size_t C, size_t R>
void close(const Matrix<T, C, R>& m, const Ref<real, C, R>& ref, const Ref<real, C, R>& scale, real k, const char* key, const char* what) {
    judged();
    for(size_t c = 0; c < C; ++c)
        for(size_t r = 0; r < R; ++r)
            MON_CHECK(near<T>(m[c][r], ref[c][r], scale[c][r], k), key, "%s (%zux%zu): element %zu of column %zu is %.15Lg instead of %.15Lg", what, C, R, r, c, (real)m[c][r], ref[c][r]);
}
template<typename T, size_t C, size_t R, typename F>
Ref<T, C, R> map(const Ref<T, C, R>& a, F f) {
    Ref<T, C, R> x;
    for(size_t c = 0; c < C; ++c)
        for(size_t r = 0; r < R; ++r) x[c][r] = f(a[c][r], c, r);
    return x;
}
template<typename T, size_t C, size_t R>
void fingerprint(const Ref<T, C, R>& a, u64 salt) {
    u64 h = C * 8 + R + salt * 64;
    for(auto& c: a)
        for(auto& e: c) h = hash2(h, coarse(e));
    seen(h);
}

#if PART == 30
#define P "C30:"
template<typename T, typename U, size_t C, size_t R>
void mixed(Rng& r) {
    const auto a = random_ref<T, C, R>(r);
    const auto b = random_ref<U, C, R>(r);
    show("mixed", a);
    show("with", b);
    const auto m = make(a);
    const auto o = make(b);
    auto conv = map(a, [&](T, size_t c, size_t q) { return (T)b[c][q]; });
    Matrix<T, C, R> built(o), assigned(T(7));
    expect(built, conv, P "convert", "construction from a matrix of another type");
    Matrix<T, C, R>& back = (assigned = o);
    MON_CHECK(&back == &assigned, P "convert", "assignment from another type returns something else");
    expect(assigned, conv, P "convert", "assignment from a matrix of another type");
    Ref<real, C, R> sum, dif, scale;
    for(size_t c = 0; c < C; ++c)
        for(size_t q = 0; q < R; ++q) {
            sum[c][q]   = (real)a[c][q] + (real)b[c][q];
            dif[c][q]   = (real)a[c][q] - (real)b[c][q];
            scale[c][q] = std::fabs((real)a[c][q]) + std::fabs((real)b[c][q]);
        }
    auto plus  = m + o;
    auto minus = m - o;
    static_assert(std::is_same_v<decltype(plus), Matrix<T, C, R>> && std::is_same_v<decltype(minus), Matrix<T, C, R>>);
    close(plus, sum, scale, 2, P "mixed-sum", "sum with another type");
    close(minus, dif, scale, 2, P "mixed-difference", "difference with another type");
    auto x = m, y = m;
    x += o;
    y -= o;
    close(x, sum, scale, 2, P "mixed-sum", "+= another type");
    close(y, dif, scale, 2, P "mixed-difference", "-= another type");
    fingerprint(a, sizeof(U));
}
template<typename T, typename U, size_t C, size_t R>
void products(Rng& r) {
    const auto a = random_ref<T, C, R>(r);
    const auto m = make(a);
    show("left", a);
    constexpr real K = C + 4;
    {
        std::array<U, C> v;
        const int mode = (int)r.below(6);
        for(auto& e: v) e = element<U>(r, mode);
        auto p = m * vec(v);
        static_assert(std::is_same_v<decltype(p), Vector<T, R>>);
        judged();
        for(size_t q = 0; q < R; ++q) {
            real w = 0, s = 0;
            for(size_t c = 0; c < C; ++c) {
                w += (real)a[c][q] * (real)v[c];
                s += std::fabs((real)a[c][q] * (real)v[c]);
            }
            MON_CHECK(near<T>(p[q], w, s, K), P "matrix-vector", "product of a %zux%zu matrix and a vector: component %zu is %.15Lg instead of %.15Lg", C, R, q, (real)p[q], w);
        }
    }
    auto by = [&]<size_t C2>(std::integral_constant<size_t, C2>) {
        const auto b = random_ref<U, C2, C>(r);
        show("right", b);
        const auto o = make(b);
        auto p       = m * o;
        static_assert(std::is_same_v<decltype(p), Matrix<T, C2, R>>);
        Ref<real, C2, R> want, scale;
        for(size_t c = 0; c < C2; ++c)
            for(size_t q = 0; q < R; ++q) {
                want[c][q] = scale[c][q] = 0;
                for(size_t k = 0; k < C; ++k) {
                    want[c][q] += (real)a[k][q] * (real)b[c][k];
                    scale[c][q] += std::fabs((real)a[k][q] * (real)b[c][k]);
                }
            }
        close(p, want, scale, K, P "matrix-matrix", "product of matrices");
        // (A B) v against A (B v)
        if constexpr(std::is_same_v<T, U>) {
            std::array<T, C2> v;
            for(auto& e: v) e = element<T>(r, 4);
            auto x = p * vec(v);
            auto y = m * (o * vec(v));
            judged();
            for(size_t q = 0; q < R; ++q) {
                real s = 0;
                for(size_t c = 0; c < C2; ++c) s += scale[c][q] * std::fabs((real)v[c]);
                MON_CHECK(near<T>(x[q], (real)y[q], s, 2 * K + C2), P "associativity", "(A B) v and A (B v) differ in component %zu: %.15Lg and %.15Lg", q, (real)x[q], (real)y[q]);
            }
        }
        seen(hash2(coarse(want[0][0]), C * 64 + R * 8 + C2));
    };
    by(std::integral_constant<size_t, 2>());
    by(std::integral_constant<size_t, 3>());
    by(std::integral_constant<size_t, 4>());
    if constexpr(C + R < 7) by(std::integral_constant<size_t, 5>());
}
template<typename T, typename S, size_t C, size_t R>
void scalars(Rng& r, const Ref<T, C, R>& a, S s) {
    const auto m = make(a);
    const T t    = static_cast<T>(s);
    note("scalar %.9Lg\n", (real)s);
    auto add = map(a, [&](T e, size_t, size_t) { return (T)(e + t); }), sub = map(a, [&](T e, size_t, size_t) { return (T)(e - t); });
    auto mul = map(a, [&](T e, size_t, size_t) { return (T)(e * t); });
    expect(m + s, add, P "scalar", "matrix + scalar");
    expect(m - s, sub, P "scalar", "matrix - scalar");
    expect(m * s, mul, P "scalar", "matrix * scalar");
    auto x = m;
    MON_CHECK(&(x += s) == &x, P "scalar", "+= returns something else");
    expect(x, add, P "scalar", "matrix += scalar");
    x = m;
    MON_CHECK(&(x -= s) == &x, P "scalar", "-= returns something else");
    expect(x, sub, P "scalar", "matrix -= scalar");
    x = m;
    MON_CHECK(&(x *= s) == &x, P "scalar", "*= returns something else");
    expect(x, mul, P "scalar", "matrix *= scalar");
    if(t != 0) {
        Ref<real, C, R> div, scale;
        for(size_t c = 0; c < C; ++c)
            for(size_t q = 0; q < R; ++q) {
                div[c][q]   = (real)a[c][q] / (real)t;
                scale[c][q] = std::fabs(div[c][q]);
            }
        close(m / s, div, scale, 2, P "scalar", "matrix / scalar");
        x = m;
        MON_CHECK(&(x /= s) == &x, P "scalar", "/= returns something else");
        close(x, div, scale, 2, P "scalar", "matrix /= scalar");
    }
}
template<typename T, size_t C, size_t R>
void shape(Rng& r) {
    using M = Matrix<T, C, R>;
    static_assert(M::columns == C && M::rows == R && std::is_same_v<typename M::column_type, Vector<T, R>> && std::is_same_v<typename M::row_type, Vector<T, C>>);
    const auto a = random_ref<T, C, R>(r);
    const auto b = random_ref<T, C, R>(r);
    show("a", a);
    show("b", b);
    const M m = make(a), o = make(b);
    expect(m, a, P "columns", "construction from columns");
    {  // the three ways to address elements
        for(size_t c = 0; c < C; ++c) {
            auto col = m.column(c);
            static_assert(std::is_same_v<decltype(col), Vector<T, R>> && std::is_same_v<decltype(m[c]), const Vector<T, R>&>);
            for(size_t q = 0; q < R; ++q) MON_CHECK(same(col[q], a[c][q]), P "column", "column(%zu)[%zu] of a %zux%zu matrix is %.9Lg instead of %.9Lg", c, q, C, R, (real)col[q], (real)a[c][q]);
        }
        for(size_t q = 0; q < R; ++q) {
            auto row = m.row(q);
            static_assert(std::is_same_v<decltype(row), Vector<T, C>>);
            for(size_t c = 0; c < C; ++c) MON_CHECK(same(row[c], a[c][q]), P "row", "row(%zu)[%zu] of a %zux%zu matrix is %.9Lg instead of %.9Lg", q, c, C, R, (real)row[c], (real)a[c][q]);
        }
        M w(T(0));
        auto ref       = map(a, [](T, size_t, size_t) { return T(0); });
        const size_t c = r.below(C), q = r.below(R);
        w[c][q] = ref[c][q] = a[c][q];
        expect(w, ref, P "write", "writing one element");
        const size_t c2 = r.below(C);
        w[c2]           = vec(b[c2]);
        ref[c2]         = b[c2];
        expect(w, ref, P "write", "writing one column");
        judged(2);
    }
    {  // element by element
        expect(-m, map(a, [](T e, size_t, size_t) { return -e; }), P "negate", "negation");
        auto sum = map(a, [&](T e, size_t c, size_t q) { return (T)(e + b[c][q]); }), dif = map(a, [&](T e, size_t c, size_t q) { return (T)(e - b[c][q]); });
        expect(m + o, sum, P "sum", "sum");
        expect(m - o, dif, P "difference", "difference");
        M x = m;
        MON_CHECK(&(x += o) == &x, P "sum", "+= returns something else");
        expect(x, sum, P "sum", "+=");
        expect(o, b, P "sum", "right operand of +=");
        x = m;
        MON_CHECK(&(x -= o) == &x, P "difference", "-= returns something else");
        expect(x, dif, P "difference", "-=");
        x = m;
        x += x;
        expect(x, map(a, [](T e, size_t, size_t) { return (T)(e + e); }), P "sum", "+= itself");
        x = m;
        x -= x;
        expect(x, map(a, [](T, size_t, size_t) { return T(0); }), P "difference", "-= itself");
    }
    scalars<T>(r, a, element<T>(r, (int)r.below(5)));
    scalars<T>(r, a, (int)r.range(-50, 50));
    scalars<T>(r, a, (unsigned char)r.below(256));
    scalars<T>(r, a, element<double>(r, 4));
    scalars<T>(r, a, element<float>(r, 3));
    {  // an element of the matrix itself as the scalar
        const size_t c = r.below(C), q = r.below(R);
        const T e = a[c][q];
        M x       = m;
        x *= x[c][q];
        expect(x, map(a, [&](T v, size_t, size_t) { return (T)(v * e); }), P "alias", "*= one of its elements");
        x = m;
        x += x[c][q];
        expect(x, map(a, [&](T v, size_t, size_t) { return (T)(v + e); }), P "alias", "+= one of its elements");
        x = m;
        x -= x[c][q];
        expect(x, map(a, [&](T v, size_t, size_t) { return (T)(v - e); }), P "alias", "-= one of its elements");
        if(e != 0) {
            x = m;
            x /= x[c][q];
            MON_CHECK(same(x[c][q], T(1)), P "alias", "an element divided by itself is %.9Lg", (real)x[c][q]);
            expect(x, [&] { auto y = m / e; Ref<T, C, R> z; for(size_t i = 0; i < C; ++i) for(size_t j = 0; j < R; ++j) z[i][j] = y[i][j]; return z; }(), P "alias", "/= one of its elements");
        }
    }
    {  // diagonal matrices and the identity
        auto diagonal = [&](T s) { return map(a, [&](T, size_t c, size_t q) { return c == q ? s : T(0); }); };
        expect(M(), diagonal(T(1)), P "identity", "default construction");
        const T s = element<T>(r, (int)r.below(5));
        expect(M(s), diagonal(s), P "diagonal", "construction from a scalar");
        const int i = (int)r.range(-100, 100);
        expect(M(i), diagonal(T(i)), P "diagonal", "construction from an integer");
        const unsigned short u = (unsigned short)r.below(2000);
        expect(M(u), diagonal(T(u)), P "diagonal", "construction from an unsigned integer");
        const double d = r.real() - 0.5;
        expect(M(d), diagonal(T(d)), P "diagonal", "construction from a double");
        const bool f = r.chance(50);
        expect(M(f), diagonal(T(f)), P "diagonal", "construction from a bool");
        expect(m * Matrix<T, C, C>(), a, P "neutral", "product with the identity");
        expect(Matrix<T, R, R>() * m, a, P "neutral", "product of the identity");
    }
    {  // copies and comparison
        M copy(m), assigned(T(3));
        assigned = m;
        expect(copy, a, P "copy", "copy");
        expect(assigned, a, P "copy", "copy assigned");
        MON_CHECK(copy == m && !(copy != m), P "equality", "a copy isn't equal");
        const size_t c = r.below(C), q = r.below(R);
        copy[c][q] += std::fabs(copy[c][q]) + T(1);
        MON_CHECK(!(copy == m) && copy != m, P "equality", "equal, although element %zu of column %zu differs", q, c);
        expect(m, a, P "copy", "a copied matrix, when the copy changes");
        copy[c][q] = T(NAN);
        const M same_nan = copy;
        MON_CHECK(!(copy == same_nan), P "equality", "equal, although element %zu of column %zu isn't a number", q, c);
        const M& self = copy;
        MON_CHECK(!(copy == self) && copy != self, P "equality", "equal to itself, although element %zu of column %zu isn't a number", q, c);
        bool equal = true;
        for(size_t i = 0; i < C; ++i)
            for(size_t j = 0; j < R; ++j) equal &= a[i][j] == b[i][j];
        MON_CHECK((m == o) == equal, P "equality", "comparison with another matrix");
        judged(4);
    }
    if constexpr(C == 3 && R == 3) {
        auto four = [&]<typename U>(U) {
            Matrix<U, 4, 4> big(m);
            Ref<U, 4, 4> ref;
            for(size_t c = 0; c < 4; ++c)
                for(size_t q = 0; q < 4; ++q) ref[c][q] = c < 3 && q < 3 ? (U)a[c][q] : U(c == q);
            expect(big, ref, P "from-3x3", "4x4 matrix from a 3x3 one");
        };
        four(float());
        four(double());
        four((long double)0);
    }
    fingerprint(a, 0);
}
// deduced from columns of different types
template<typename T, typename U>
void deduced(Rng& r) {
    using W = std::common_type_t<T, U>;
    Vector<T, 3> a(element<T>(r, 4), element<T>(r, 4), element<T>(r, 4));
    Vector<U, 3> b(element<U>(r, 4), element<U>(r, 4), element<U>(r, 4));
    Matrix m(a, b);
    static_assert(std::is_same_v<decltype(m), Matrix<W, 2, 3>>);
    Ref<W, 2, 3> ref;
    for(size_t i = 0; i < 3; ++i) {
        ref[0][i] = a[i];
        ref[1][i] = b[i];
    }
    expect(m, ref, P "deduced", "matrix deduced from columns");
}
template<typename T, size_t C>
void shapes(Rng& r) {
    shape<T, C, 2>(r);
    shape<T, C, 3>(r);
    shape<T, C, 4>(r);
    shape<T, C, 5>(r);
}
template<typename T, typename U, size_t C>
void product_shapes(Rng& r) {
    products<T, U, C, 2>(r);
    products<T, U, C, 3>(r);
    products<T, U, C, 4>(r);
}
template<typename T, typename U>
void mixed_shapes(Rng& r) {
    mixed<T, U, 2, 2>(r);
    mixed<T, U, 3, 3>(r);
    mixed<T, U, 4, 4>(r);
    mixed<T, U, 2, 3>(r);
    mixed<T, U, 4, 3>(r);
    mixed<T, U, 3, 4>(r);
    mixed<T, U, 5, 4>(r);
    product_shapes<T, U, 2>(r);
    product_shapes<T, U, 3>(r);
    product_shapes<T, U, 4>(r);
    deduced<T, U>(r);
    deduced<U, T>(r);
}
int main(int argc, char** argv) {
    init(argc, argv);
    const long n = st().cases;
#if TYPE == 3
    cases("float with double", n, [](Rng& r, long) { mixed_shapes<float, double>(r); });
    cases("double with float", n, [](Rng& r, long) { mixed_shapes<double, float>(r); });
    cases("double with long double", n / 2, [](Rng& r, long) { mixed_shapes<double, long double>(r); });
#else
    using T = std::tuple_element_t<TYPE, std::tuple<float, double, long double>>;
    cases("elements", n, [](Rng& r, long) {
        shapes<T, 2>(r);
        shapes<T, 3>(r);
        shapes<T, 4>(r);
        shapes<T, 5>(r);
    });
    cases("products", n, [](Rng& r, long) {
        product_shapes<T, T, 2>(r);
        product_shapes<T, T, 3>(r);
        product_shapes<T, T, 4>(r);
    });
#endif
    return finish();
}

#else
#define P "C31:"
template<typename T, size_t N>
void leibniz(const Ref<T, N, N>& a, real& sum, real& permanent) {
    std::array<size_t, N> p;
    for(size_t i = 0; i < N; ++i) p[i] = i;
    sum = permanent = 0;
    do {
        int inversions = 0;
        real t         = 1;
        for(size_t i = 0; i < N; ++i) {
            for(size_t j = i + 1; j < N; ++j) inversions += p[i] > p[j];
            t *= (real)a[i][p[i]];
        }
        sum += inversions % 2 ? -t : t;
        permanent += std::fabs(t);
    } while(std::next_permutation(p.begin(), p.end()));
}
template<typename T, size_t N>
Ref<T, N, N> square(Rng& r) {
    Ref<T, N, N> a = random_ref<T, N, N>(r);
    switch(r.below(10)) {
    case 0:  // singular: two columns alike
        a[r.below(N)] = a[r.below(N)];
        break;
    case 1: {  // a permutation with signs
        std::array<size_t, N> p;
        for(size_t i = 0; i < N; ++i) p[i] = i;
        for(size_t i = N; i > 1; --i) std::swap(p[i - 1], p[r.below(i)]);
        for(size_t c = 0; c < N; ++c)
            for(size_t q = 0; q < N; ++q) a[c][q] = p[c] == q ? T(r.range(1, 5)) * (r.chance(50) ? T(1) : T(-1)) : T(0);
        break;
    }
    case 2:  // triangular
        for(size_t c = 0; c < N; ++c)
            for(size_t q = c + 1; q < N; ++q) a[c][q] = 0;
        break;
    case 3:  // small integers: no rounding at all
        for(auto& c: a)
            for(auto& e: c) e = T(r.range(-7, 7));
        break;
    default: break;
    }
    return a;
}
template<typename T, size_t N>
void determinants(Rng& r) {
    const auto a = square<T, N>(r);
    show("determinant of", a);
    const auto m = make(a);
    real want, scale;
    leibniz(a, want, scale);
    const real K = 4 * N;
    const T d    = xm::determinant(m);
    static_assert(std::is_same_v<decltype(xm::determinant(m)), T>);
    judged(4);
    MON_CHECK(near<T>(d, want, scale, K), P "determinant", "%zux%zu: %.15Lg instead of %.15Lg", N, N, (real)d, want);
    bool small = true;
    for(auto& c: a)
        for(auto& e: c) small &= e == std::floor(e) && std::fabs(e) < 8;
    if(small) MON_CHECK((real)d == want, P "determinant", "%zux%zu with small integers: %.15Lg instead of %.15Lg", N, N, (real)d, want);
    const T dt = xm::determinant(xm::transpose(m));
    MON_CHECK(near<T>(dt, want, scale, K), P "determinant-transposed", "%zux%zu: %.15Lg instead of %.15Lg", N, N, (real)dt, want);
    {
        auto b         = a;
        const size_t i = r.below(N), j = (i + 1 + r.below(N - 1)) % N;
        std::swap(b[i], b[j]);
        const T ds = xm::determinant(make(b));
        MON_CHECK(near<T>(ds, -want, scale, K), P "determinant-swapped", "%zux%zu: %.15Lg instead of %.15Lg", N, N, (real)ds, -want);
    }
    {
        const auto b = square<T, N>(r);
        real wb, sb;
        leibniz(b, wb, sb);
        const auto prod = m * make(b);
        Ref<T, N, N> p;
        for(size_t c = 0; c < N; ++c)
            for(size_t q = 0; q < N; ++q) p[c][q] = prod[c][q];
        // bounded by the permanent of the products of the magnitudes
        Ref<T, N, N> mag;
        for(size_t c = 0; c < N; ++c)
            for(size_t q = 0; q < N; ++q) {
                real s = 0;
                for(size_t k = 0; k < N; ++k) s += std::fabs((real)a[k][q] * (real)b[c][k]);
                mag[c][q] = (T)s;
            }
        real unused, bound;
        leibniz(mag, unused, bound);
        MON_CHECK(near<T>(xm::determinant(prod), want * wb, bound, 8 * K), P "determinant-product", "%zux%zu: the determinant of the product is %.15Lg, the product of the determinants %.15Lg", N, N, (real)xm::determinant(prod), want * wb);
    }
    if constexpr(N == 4) {
        MON_CHECK(same(m.determinant(), d), P "member", "member determinant %.15Lg, free function %.15Lg", (real)m.determinant(), (real)d);
        MON_CHECK(m.transpose() == xm::transpose(m), P "member", "member transpose differs from the free function");
    }
    fingerprint(a, 1);
}
template<typename T, size_t C, size_t R>
void transposed(Rng& r) {
    const auto a = random_ref<T, C, R>(r);
    show("transpose of", a);
    const auto m = make(a);
    auto t       = xm::transpose(m);
    static_assert(std::is_same_v<decltype(t), Matrix<T, R, C>>);
    Ref<T, R, C> want;
    for(size_t c = 0; c < C; ++c)
        for(size_t q = 0; q < R; ++q) want[q][c] = a[c][q];
    expect(t, want, P "transpose", "transposed matrix");
    expect(xm::transpose(t), a, P "transpose", "matrix transposed twice");
    const auto b = random_ref<T, C, R>(r);
    show("hadamard with", b);
    auto h = xm::hadamard_product(m, make(b));
    static_assert(std::is_same_v<decltype(h), Matrix<T, C, R>>);
    expect(h, map(a, [&](T e, size_t c, size_t q) { return (T)(e * b[c][q]); }), P "hadamard", "Hadamard product");
    expect(xm::hadamard_product(m, m), map(a, [&](T e, size_t, size_t) { return (T)(e * e); }), P "hadamard", "Hadamard product with itself");
    {
        const auto x = random_ref<T, 1, R>(r)[0];
        const auto y = random_ref<T, 1, C>(r)[0];
        auto o       = xm::outer_product(vec(x), vec(y));
        static_assert(std::is_same_v<decltype(o), Matrix<T, C, R>>);
        Ref<T, C, R> ref;
        for(size_t c = 0; c < C; ++c)
            for(size_t q = 0; q < R; ++q) ref[c][q] = (T)(x[q] * y[c]);
        expect(o, ref, P "outer", "outer product");
        if constexpr(C == R) {
            auto s = xm::outer_product(vec(x), vec(x));
            MON_CHECK(s == xm::transpose(s), P "outer", "the outer product of a vector with itself isn't symmetric");
        }
    }
    fingerprint(a, 2);
}
template<typename T>
void everything(const char* name, long n) {
    std::string g = std::string("determinants of ") + name;
    cases(g.c_str(), n * 2, [](Rng& r, long) {
        determinants<T, 2>(r);
        determinants<T, 3>(r);
        determinants<T, 4>(r);
    });
    g = std::string("transpose of ") + name;
    cases(g.c_str(), n, [](Rng& r, long) {
        [&]<size_t... I>(std::index_sequence<I...>) { (transposed<T, 2 + I / 4, 2 + I % 4>(r), ...); }(std::make_index_sequence<16>());
    });
}
int main(int argc, char** argv) {
    init(argc, argv);
    const long n = st().cases;
    everything<float>("float", n);
    everything<double>("double", n);
    everything<long double>("long double", n / 2);
    // the determinants of all 2x2 and 3x3 matrices of -1, 0 and 1
    cases("signs", 1, [](Rng&, long) {
        for(int k = 0; k < 19683; ++k) {
            Ref<double, 3, 3> a;
            int x = k;
            for(auto& c: a)
                for(auto& e: c) {
                    e = x % 3 - 1;
                    x /= 3;
                }
            real want, scale;
            leibniz(a, want, scale);
            judged();
            MON_CHECK((real)xm::determinant(make(a)) == want, P "determinant", "3x3 matrix %d of signs", k);
            if(k < 81) {
                Ref<float, 2, 2> b{{{(float)a[0][0], (float)a[0][1]}, {(float)a[0][2], (float)a[1][0]}}};
                leibniz(b, want, scale);
                MON_CHECK((real)xm::determinant(make(b)) == want, P "determinant", "2x2 matrix %d of signs", k);
            }
        }
        seen(19683);
    });
    return finish();
}
#endif
