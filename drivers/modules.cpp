// Named modules: every exported name, used by a program that imports instead of including, against
// plain models (C42). PART: 0 imports xme, 1-5 import one module each.
#include "../harness/mon.hpp"
#include <algorithm>
#include <array>
#include <cmath>
#include <compare>
#include <concepts>
#include <functional>
#include <initializer_list>
#include <iterator>
#include <memory>
#include <numeric>
#include <tuple>
#include <type_traits>
#include <utility>
#if PART == 0
import xme;
#elif PART == 1
import xme.container;
#elif PART == 2
import xme.functional;
#elif PART == 3
import xme.iterators;
#elif PART == 4
import xme.math;
#elif PART == 5
import xme.utility;
#endif

#define P "C42:"
using namespace mon;

#if PART == 0 || PART == 1
static_assert(xme::CAllocator<std::allocator<int>> && !xme::CAllocator<int>);
static_assert(xme::CTupleLike<xme::Tuple<int>> && xme::CPairLike<xme::Pair<int, int>> && !xme::CPairLike<xme::Tuple<int>>);
static_assert(std::tuple_size_v<xme::Tuple<int, char>> == 2 && std::tuple_size_v<xme::Pair<int, char>> == 2);
static_assert(std::is_same_v<std::tuple_element_t<1, xme::Tuple<int, char>>, char>);
static void arrays(Rng& r) {
    std::vector<std::string> want;
    xme::Array<std::string> a;
    int steps = (int)r.below(40);
    for(int i = 0; i < steps; ++i) {
        std::string s = std::to_string(r.below(1000)) + std::string(r.below(30), 'x');
        size_t at     = want.empty() ? 0 : r.below(want.size() + 1);
        switch(r.below(6)) {
        case 0: a.push_back(s); want.push_back(s); break;
        case 1: a.emplace_back(s.c_str()); want.push_back(s); break;
        case 2: a.insert(a.begin() + (long)at, s); want.insert(want.begin() + (long)at, s); break;
        case 3:
            if(at < want.size()) {
                a.erase(a.begin() + (long)at);
                want.erase(want.begin() + (long)at);
            }
            break;
        case 4: {
            std::vector<std::string> more(r.below(5), s);
            a.insert(a.begin() + (long)at, more.begin(), more.end());
            want.insert(want.begin() + (long)at, more.begin(), more.end());
            break;
        }
        case 5:
            if(want.size()) {
                a.pop_back();
                want.pop_back();
            }
        }
        judged();
        seen(hash2(want.size(), (uint64_t)at));
        MON_CHECK(a.size() == want.size() && std::equal(a.begin(), a.end(), want.begin()), P "array", "%zu elements instead of %zu, or others", (size_t)a.size(), want.size());
    }
    const xme::Array<std::string> copy(a);
    xme::Array<std::string> moved(std::move(a));
    MON_CHECK(std::equal(copy.begin(), copy.end(), want.begin(), want.end()) && std::equal(moved.begin(), moved.end(), want.begin(), want.end()), P "array", "copied or moved");
    MON_CHECK(copy.empty() == want.empty() && (want.empty() || (copy[0] == want[0] && copy.front() == want.front() && copy.back() == want.back() && copy.data()->size() == want[0].size())), P "array", "element access");
}
static void views(Rng& r) {
    std::vector<int> v(r.below(50) + 4);
    for(auto& x : v) x = (int)r.below(1000);
    xme::ArrayView<int> w(v);
    xme::ArrayView d(v.data(), v.size());
    static_assert(std::is_same_v<decltype(d), xme::ArrayView<int>>);
    size_t off = r.below(v.size()), n = r.below(v.size() - off + 1);
    auto s = w.subview(off, n);
    judged(4);
    seen(hash2(off, n));
    MON_CHECK(w.data() == v.data() && w.size() == v.size() && w.size_bytes() == v.size() * sizeof(int), P "view", "of a vector");
    MON_CHECK(s.data() == v.data() + off && s.size() == n, P "view", "subview");
    MON_CHECK(w.first(n).data() == v.data() && w.last(n).data() == v.data() + v.size() - n, P "view", "first and last");
    auto b = xme::as_bytes(s);
    auto wb = xme::as_writable_bytes(w);
    MON_CHECK((const void*)b.data() == (const void*)s.data() && b.size() == n * sizeof(int) && (void*)wb.data() == v.data(), P "view", "bytes");
    std::array<int, 3> arr{1, 2, 3};
    xme::ArrayView fixed(arr);
    static_assert(std::is_same_v<decltype(fixed), xme::ArrayView<int, 3>>);
    auto part = fixed.subview<1, 2>();
    MON_CHECK(part[1] == 3, P "view", "of an array");
}
static void lists(Rng& r) {
    std::vector<int> want;
    xme::LinkedList<int> l;
    int n = (int)r.below(20);
    for(int i = 0; i < n; ++i) {
        int x = (int)r.below(100);
        if(r.below(2)) {
            l.push_front(x);
            want.insert(want.begin(), x);
        }
        else {
            size_t at = r.below(want.size() + 1);
            auto it   = l.before_begin();
            for(size_t k = 0; k < at; ++k) ++it;
            l.insert_after(it, x);
            want.insert(want.begin() + (long)at, x);
        }
    }
    if(r.below(2)) {
        l.reverse();
        std::reverse(want.begin(), want.end());
    }
    judged();
    seen(hash2((uint64_t)n, 7));
    std::vector<int> got;
    for(int x : l) got.push_back(x);
    MON_CHECK(got == want, P "list", "%zu elements instead of %zu, or others", got.size(), want.size());
}
static void tuples(Rng& r) {
    int a         = (int)r.below(100);
    std::string s = std::to_string(r.below(1000000)) + "0123456789012345678901234567";
    xme::Tuple<int, std::string, std::unique_ptr<int>> t{a, s, std::make_unique<int>(a)};
    judged(6);
    seen(hash2((uint64_t)a, 3));
    auto& [x, y, z] = t;
    MON_CHECK(x == a && y == s && *z == a && &x == &xme::get<0>(t) && &y == &get<1>(t), P "tuple", "structured binding");
    auto u = xme::tuple_cat(std::move(t), xme::make_tuple('c', 2.5), xme::Pair<int, char>{7, 'd'}, std::make_tuple(8L));
    static_assert(std::is_same_v<decltype(u), xme::Tuple<int, std::string, std::unique_ptr<int>, char, double, int, char, long>>);
    MON_CHECK(get<0>(u) == a && get<1>(u) == s && *get<2>(u) == a && get<3>(u) == 'c' && get<4>(u) == 2.5 && get<5>(u) == 7 && get<6>(u) == 'd' && get<7>(u) == 8, P "tuple", "tuple_cat");
    int b = 0;
    std::string c;
    xme::tie(b, c) = xme::make_tuple(a + 1, s + "!");
    MON_CHECK(b == a + 1 && c == s + "!", P "tuple", "tie");
    auto f = xme::forward_as_tuple(b, std::move(c));
    static_assert(std::is_same_v<decltype(f), xme::Tuple<int&, std::string&&>>);
    MON_CHECK(&get<0>(f) == &b, P "tuple", "forward_as_tuple");
    int sum = xme::apply([](int p, int q, int w) { return p * 10000 + q * 100 + w; }, xme::Tuple<int, int, int>{a, 2, 3});
    MON_CHECK(sum == a * 10000 + 203, P "tuple", "apply");
    xme::Tuple<int, int> t1{1, a}, t2{2, a + 1};
    MON_CHECK(t1 < t2 && t1 != t2 && t1 == t1 && t2 >= t1, P "tuple", "comparison");
    using xme::swap;
    swap(t1, t2);
    MON_CHECK(get<0>(t1) == 2 && get<1>(t2) == a, P "tuple", "swap");
    auto p = xme::make_pair(a, s);
    static_assert(std::is_same_v<decltype(p), xme::Pair<int, std::string>>);
    auto [k, v] = p;
    MON_CHECK(k == a && v == s && get<0>(p) == a && xme::get<1>(p) == s && p.first == a && p.second == s, P "pair", "elements");
    p = std::make_pair(a + 1, std::string("other"));
    MON_CHECK(p.first == a + 1 && p.second == "other", P "pair", "assignment of another pair");
    xme::AlignedData<std::string, 64> data(s);
    MON_CHECK(*data.data() == s && (uintptr_t)data.address() % 64 == 0, P "aligned", "address or value");
    std::destroy_at(data.data());
}
#endif
#if PART == 0 || PART == 2
static int digits(int a, int b, int c) { return a * 100 + b * 10 + c; }
static void functional(Rng& r) {
    int a = (int)r.below(10), b = (int)r.below(10), c = (int)r.below(10);
    judged(4);
    seen((uint64_t)digits(a, b, c));
    MON_CHECK(xme::bind_front(digits, a, b)(c) == digits(a, b, c) && xme::bind_back(digits, b, c)(a) == digits(a, b, c) && xme::bind_front(xme::bind_back(digits, c), a)(b) == digits(a, b, c), P "bind", "order of the arguments");
    std::string big(100, 'x');
    xme::Delegate<int(int)> d = [=](int v) { return v * 10 + a + (int)big.size(); };
    xme::Delegate<int(int)> e(d), f;
    MON_CHECK(d(b) == b * 10 + a + 100 && e(b) == d(b) && !f, P "delegate", "result");
    f = std::move(d);
    MON_CHECK(f(c) == c * 10 + a + 100 && !d, P "delegate", "moved");
    xme::Delegate g(digits);
    static_assert(std::is_same_v<decltype(g), xme::Delegate<int(int, int, int)>>);
    MON_CHECK(g(a, b, c) == digits(a, b, c), P "delegate", "function");
    bool thrown = false;
    try {
        d(1);
    } catch(const std::bad_function_call&) {
        thrown = true;
    }
    MON_CHECK(thrown, P "delegate", "no exception from an empty one");
}
#endif
#if PART == 0 || PART == 3
static void iterators(Rng& r) {
    std::vector<int> v(r.below(40) + 1);
    for(auto& x : v) x = (int)r.below(1000);
    judged(3);
    seen(v.size());
    using I = xme::ReverseIterator<std::vector<int>::iterator>;
    std::vector<int> got(I(v.end()), I(v.begin()));
    std::vector<int> want(v.rbegin(), v.rend());
    MON_CHECK(got == want, P "reverse", "order");
    I b(v.end()), e(v.begin());
    MON_CHECK(e - b == (long)v.size() && b < e && b + (long)v.size() == e && b[0] == v.back() && *(e - 1) == v.front(), P "reverse", "arithmetic");
    std::sort(b, e);
    MON_CHECK(std::is_sorted(v.rbegin(), v.rend()), P "reverse", "sort");
}
#endif
// The assertions of what is imported stop the misuse they stop in what is included
template<typename Fn>
static void misuse(const char* what, bool fits, Fn&& fn) {
    const bool stopped = traps([&] { fn(); });
    judged();
    MON_CHECK(fits || stopped, P "not-stopped", "%s of what isn't there goes on", what);
    MON_CHECK(!fits || !stopped, P "stopped", "%s of what is there stops the program", what);
    seen(hash2(hash_str(what), stopped));
}
#if PART == 0 || PART == 1
static void container_misuse(Rng& r) {
    static int data[8];
    const size_t n = r.below(6), k = r.below(9);
    static volatile size_t sink;
    xme::ArrayView<int> v(data, n);
    switch(r.below(6)) {
    case 0: return misuse("first", k <= n, [&] { sink = v.first(k).size(); });
    case 1: return misuse("last", k <= n, [&] { sink = v.last(k).size(); });
    case 2: {
        const size_t o = r.below(9);
        return misuse("subview", o <= n && k <= n - o, [&] { sink = v.subview(o, k).size(); });
    }
    case 3: return misuse("fixed subview", n >= 3, [&] { sink = v.subview<1, 2>().size(); });
    case 4: return misuse("fixed view", n == 4, [&] { sink = xme::ArrayView<int, 4>(data, n).size(); });
    default:
        xme::Array<int> a;
        for(size_t i = 0; i < n; ++i) a.push_back((int)i);
        return misuse("pop_back", n > 0, [&] { a.pop_back(); });
    }
}
#endif
#if PART == 0 || PART == 4
static void math_misuse(Rng& r) {
    const size_t k = r.below(7);
    static volatile float sink;
    xme::math::vec2 a(1.f);
    xme::math::vec3 b(1.f);
    const xme::math::vec4 c(1.f);
    switch(r.below(3)) {
    case 0: return misuse("component of a vec2", k < 2, [&] { a[k] = 3; });
    case 1: return misuse("component of a vec3", k < 3, [&] { b[k] = 3; });
    default: return misuse("component of a vec4", k < 4, [&] { sink = c[k]; });
    }
}
#endif
#if PART == 0 || PART == 4
template<typename T>
static bool close(T a, double b) {
    return std::fabs(a - b) <= 1e-5 * (1 + std::fabs(b));
}
template<typename V, typename T, size_t N>
static void vector_type(Rng& r, const char* name) {
    static_assert(std::is_same_v<V, xme::math::Vector<T, N>>);
    V v(T(0)), w(T(0));
    for(size_t i = 0; i < N; ++i) {
        v[i] = T(r.below(100));
        w[i] = T(r.below(100));
    }
    auto s = v + w;
    judged();
    for(size_t i = 0; i < N; ++i) MON_CHECK(s[i] == T(v[i] + w[i]), P "vector", "%s: sum", name);
    MON_CHECK(v == v && V(v) == v, P "vector", "%s: equality", name);
}
template<typename M, typename T, size_t N>
static void matrix_type(Rng& r, const char* name) {
    static_assert(std::is_same_v<M, xme::math::Matrix<T, N, N>>);
    M m(T(0)), one;
    for(size_t i = 0; i < N; ++i)
        for(size_t j = 0; j < N; ++j) m[i][j] = T(r.below(100));
    judged();
    MON_CHECK(m * one == m && one * m == m && m * T(2) == m + m, P "matrix", "%s", name);
}
static void mathematics(Rng& r) {
    using namespace xme::math;
    vector_type<bvec2, bool, 2>(r, "bvec2");
    vector_type<bvec3, bool, 3>(r, "bvec3");
    vector_type<bvec4, bool, 4>(r, "bvec4");
    vector_type<ivec2, std::int32_t, 2>(r, "ivec2");
    vector_type<ivec3, std::int32_t, 3>(r, "ivec3");
    vector_type<ivec4, std::int32_t, 4>(r, "ivec4");
    vector_type<uvec2, std::uint32_t, 2>(r, "uvec2");
    vector_type<uvec3, std::uint32_t, 3>(r, "uvec3");
    vector_type<uvec4, std::uint32_t, 4>(r, "uvec4");
    vector_type<vec2, float, 2>(r, "vec2");
    vector_type<vec3, float, 3>(r, "vec3");
    vector_type<vec4, float, 4>(r, "vec4");
    vector_type<dvec2, double, 2>(r, "dvec2");
    vector_type<dvec3, double, 3>(r, "dvec3");
    vector_type<dvec4, double, 4>(r, "dvec4");
    vector_type<Vector<double, 7>, double, 7>(r, "Vector<double, 7>");
    matrix_type<mat2, float, 2>(r, "mat2");
    matrix_type<mat3, float, 3>(r, "mat3");
    matrix_type<mat4, float, 4>(r, "mat4");
    matrix_type<dmat2, double, 2>(r, "dmat2");
    matrix_type<dmat3, double, 3>(r, "dmat3");
    matrix_type<dmat4, double, 4>(r, "dmat4");
    judged(5);
    double a = r.real() * 1.4 + 0.05;
    seen((uint64_t)(a * 1000));
    MON_CHECK(close(double(pi), M_PI) && close(double(e), M_E) && close(double(phi), (1 + std::sqrt(5.)) / 2) && close(double(ln_ten), std::log(10.)) && close(double(ln_two), std::log(2.)) && close(double(sqrt_two), std::sqrt(2.)) && close(double(sqrt_three), std::sqrt(3.)), P "constants", "value");
    MON_CHECK(close(radians(degrees(a)), a) && close(radians(180.), M_PI), P "angles", "degrees and radians");
    MON_CHECK(close(sec(a), 1 / std::cos(a)) && close(csc(a), 1 / std::sin(a)) && close(cot(a), 1 / std::tan(a)) && close(xme::math::sin(a), std::sin(a)) && close(xme::math::cos(a), std::cos(a)) && close(xme::math::tan(a), std::tan(a)), P "trigonometry", "value");
    MON_CHECK(close(arcsin(a / 2), std::asin(a / 2)) && close(arccos(a / 2), std::acos(a / 2)) && close(arctan(a), std::atan(a)), P "trigonometry", "inverse");
    auto near = 1 + r.real(), far = 10 + r.real() * 100;
    auto m = perspective(a, 1.5, near, far), m2 = perspective_rh(a, 1.5, near, far);
    auto p = m * dvec4(0, 0, -near, 1), q = m2 * dvec4(0, 0, -far, 1);
    MON_CHECK(m == m2 && close(p[2] / p[3], -1) && close(q[2] / q[3], 1), P "perspective", "depth of the planes");
    Quaternion<double> i(0, 1, 0, 0), j(0, 0, 1, 0), k(0, 0, 0, 1);
    MON_CHECK(i * j == k && j * k == i && k * i == j, P "quaternion", "product");
}
#endif
#if PART == 0 || PART == 5
static void utility(Rng&) {
    int x       = 1;
    const int c = 2;
    judged();
    seen(1);
    static_assert(std::is_same_v<decltype(xme::forward_like<std::string&>(x)), int&> && std::is_same_v<decltype(xme::forward_like<std::string>(x)), int&&>);
    static_assert(std::is_same_v<decltype(xme::forward_like<const std::string&>(x)), const int&> && std::is_same_v<decltype(xme::forward_like<const std::string>(x)), const int&&>);
    auto&& y = xme::forward_like<char&>(x);
    auto&& z = xme::forward_like<const char>(c);
    MON_CHECK(&y == &x && &z == &c, P "forward_like", "another object");
}
#endif

int main(int argc, char** argv) {
    init(argc, argv);
    long n = st().cases;
#if PART == 0 || PART == 1
    cases("arrays", n, [](Rng& r, long) { arrays(r); });
    cases("views", n, [](Rng& r, long) { views(r); });
    cases("lists", n, [](Rng& r, long) { lists(r); });
    cases("tuples", n, [](Rng& r, long) { tuples(r); });
    cases("misuse of containers", 60, [](Rng& r, long) { container_misuse(r); });
#endif
#if PART == 0 || PART == 2
    cases("functional", n, [](Rng& r, long) { functional(r); });
#endif
#if PART == 0 || PART == 3
    cases("iterators", n, [](Rng& r, long) { iterators(r); });
#endif
#if PART == 0 || PART == 4
    cases("mathematics", n, [](Rng& r, long) { mathematics(r); });
    cases("misuse of vectors", 60, [](Rng& r, long) { math_misuse(r); });
#endif
#if PART == 0 || PART == 5
    cases("utility", n, [](Rng& r, long) { utility(r); });
#endif
    return finish();
}
