// Runs the same programs over the library twice: while compiling, in the compiler's interpreter of
// constant expressions, which refuses undefined behaviour, leaks and reads of what isn't alive, and
// while executing, under sanitizers or optimised. Both must be possible, and agree (C47).
#include "../harness/mon.hpp"
#include <algorithm>
#include <array>
#include <numbers>
#include <vector>
#include <xme/container/array.hpp>
#include <xme/container/array_view.hpp>
#include <xme/container/heap.hpp>
#include <xme/container/pair.hpp>
#include <xme/container/tuple.hpp>
#include <xme/core/algorithm/find.hpp>
#include <xme/core/algorithm/reverse.hpp>
#include <xme/core/bit/has_single_bit.hpp>
#include <xme/core/functional/bind.hpp>
#include <xme/core/functional/scoped_delegate.hpp>
#include <xme/core/iterators/const_iterator.hpp>
#include <xme/core/iterators/reverse_iterator.hpp>
#include <xme/core/utility/forward_like.hpp>
#include <xme/core/utility/to_unsigned.hpp>
#include <xme/hal/simd_detection.hpp>
#include <xme/math/constants.hpp>
#include <xme/math/matrices/functions.hpp>
#include <xme/math/matrices/perspective.hpp>
#include <xme/math/matrices/transformation.hpp>
#include <xme/math/matrix.hpp>
#include <xme/math/quaternion.hpp>
#include <xme/math/scalars/functions.hpp>
#include <xme/math/scalars/trigonometry.hpp>
#include <xme/math/vector.hpp>
#include <xme/math/vectors/functions.hpp>
#include <xme/math/vectors/geometry.hpp>
#include <xme/ranges/destroy.hpp>
#include <xme/ranges/uninitialized.hpp>

using namespace mon;
namespace xm = xme::math;

// --- What a program leaves -------------------------------------------------------------------
struct Out {
    static constexpr int most = 400;
    double v[most]            = {};
    int n                     = 0;
    int wrong                 = 0;  // what differed from the model first
    int checks                = 0;

    constexpr void operator()(auto x) {
        if(n < most) v[n++] = (double)x;
    }
    constexpr void check(bool good) {
        ++checks;
        if(!good && !wrong) wrong = checks;
    }
    constexpr void all(const auto& a) {
        for(const auto& x : a) (*this)(x);
    }
};

struct Dice {
    u64 s;
    constexpr explicit Dice(u64 seed) : s(seed * 0x9E3779B97F4A7C15ull + 77) {}
    constexpr u64 next() {
        s += 0x9E3779B97F4A7C15ull;
        u64 z = s;
        z     = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z     = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    constexpr int below(int n) { return (int)(next() % (u64)n); }
    constexpr double real() { return (double)below(2001) / 100 - 10; }
};

// Owns an int on the heap: the interpreter refuses to leak it, to free it twice, or to read it then
struct Own {
    int* p;
    constexpr Own(int x = 0) : p(new int(x)) {}
    constexpr Own(const Own& o) : p(new int(*o.p)) {}
    constexpr Own(Own&& o) noexcept : p(o.p) { o.p = nullptr; }
    constexpr Own& operator=(const Own& o) {
        if(this == &o) return *this;
        if(!p) p = new int(*o.p);
        else *p = *o.p;
        return *this;
    }
    constexpr Own& operator=(Own&& o) noexcept {
        int* q = o.p;
        o.p    = nullptr;
        delete p;
        p = q;
        return *this;
    }
    constexpr ~Own() { delete p; }
    constexpr operator int() const { return *p; }
    friend constexpr bool operator==(const Own& a, const Own& b) { return *a.p == *b.p; }
    friend constexpr auto operator<=>(const Own& a, const Own& b) { return *a.p <=> *b.p; }
};

// --- Programs ----------------------------------------------------------------------------------
#define PROGRAM(name) \
    struct name {     \
        static constexpr const char* what = #name; \
        static constexpr void run(Out& o, Dice d)

#define END }

template<typename T>
constexpr void array_program(Out& o, Dice& d) {
    using A = xme::Array<T>;
    A a;
    std::vector<int> m;
    auto same = [&](const A& x) {
        bool good = x.size() == m.size() && x.empty() == m.empty() && x.capacity() >= m.size();
        std::size_t k = 0;
        for(auto it = x.begin(); it != x.end() && good; ++it, ++k) good = k < m.size() && int(*it) == m[k];
        for(k = 0; k < m.size() && good; ++k) good = int(x[(long)k]) == m[k];
        if(good && !m.empty()) good = int(x.front()) == m.front() && int(x.back()) == m.back();
        o.check(good);
    };
    for(int step = 0; step < 14; ++step) {
        int x = d.below(1000), n = (int)m.size(), p = d.below(n + 1);
        switch(d.below(12)) {
        case 0:
            a.push_back(T(x));
            m.push_back(x);
            break;
        case 1:
            a.emplace_back(x);
            m.push_back(x);
            break;
        case 2: {
            auto it = a.insert(a.begin() + p, T(x));
            m.insert(m.begin() + p, x);
            o.check(int(*it) == x && it - a.begin() == p);
            break;
        }
        case 3: {
            int more[3] = {x, x + 1, x + 2};
            auto it     = a.insert(a.begin() + p, more + 0, more + d.below(4));
            auto count  = (long)a.size() - n;
            m.insert(m.begin() + p, more + 0, more + count);
            o.check(it - a.begin() == p);
            break;
        }
        case 4:
            if(n) {
                p = d.below(n);
                a.erase(a.begin() + p);
                m.erase(m.begin() + p);
            }
            break;
        case 5: {
            int q = p + d.below(n - p + 1);
            a.erase(a.begin() + p, a.begin() + q);
            m.erase(m.begin() + p, m.begin() + q);
            break;
        }
        case 6:
            a.reserve((std::size_t)(n + d.below(5)));
            break;
        case 7: {
            int k = d.below(n + 4);
            a.resize((std::size_t)k);
            if(k < n) m.resize((std::size_t)k);
            break;
        }
        case 8: {
            A b(a);
            same(b);
            b.push_back(T(x));
            a = b;
            m.push_back(x);
            break;
        }
        case 9: {
            A b(std::move(a));
            a = A{T(x), T(x + 1)};
            a.swap(b);
            o.check(b.size() == 2 && int(b.back()) == x + 1);
            break;
        }
        case 10:
            if(n) {
                a.pop_back();
                m.pop_back();
            }
            break;
        default:
            if(n) {
                p = d.below(n);
                a.push_back(a[p]);
                m.push_back(m[(std::size_t)p]);
            }
        }
        same(a);
    }
    for(const T& x : a) o(int(x));
    A f(3, T(5));
    o.check(f.size() == 3 && int(f[2]) == 5);
    f.clear();
    o.check(f.empty());
}
PROGRAM(array_of_int) { array_program<int>(o, d); } END;
PROGRAM(array_of_owning) { array_program<Own>(o, d); } END;

template<typename T, typename Less>
constexpr void heap_program(Out& o, Dice& d, Less less) {
    std::vector<int> m;
    for(int k = d.below(9); k--;) m.push_back(d.below(40));
    xme::Heap<T, xme::Array<T>, Less> h(m.begin(), m.end());
    for(int k = 0; k < 8; ++k) {
        int x = d.below(40);
        h.push(T(x));
        m.push_back(x);
        if(d.below(3) == 0) {
            o(int(h.front()));
            auto top = std::max_element(m.begin(), m.end(), less);
            o.check(int(h.front()) == *top);
            m.erase(top);
            h.pop();
        }
    }
    while(h.size()) {
        o(int(h.front()));
        auto top = std::max_element(m.begin(), m.end(), less);
        o.check(!m.empty() && int(h.front()) == *top);
        if(m.empty()) break;
        m.erase(top);
        h.pop();
    }
    o.check(m.empty());
}
PROGRAM(heap_of_int) { heap_program<int>(o, d, std::less<>{}); } END;
PROGRAM(heap_of_owning) { heap_program<Own>(o, d, std::greater<>{}); } END;

PROGRAM(views) {
    int raw[9] = {};
    for(int& x : raw) x = d.below(100);
    std::array<int, 4> arr{d.below(9), 1, 2, 3};
    xme::ArrayView<int> v(raw);
    xme::ArrayView<int, 9> f(raw);
    xme::ArrayView<int> w(arr);
    xme::Array<int> owner(raw + 0, raw + 5);
    xme::ArrayView<int> u(owner);
    o.check(v.size() == 9 && f.size() == 9 && w.size() == 4 && u.size() == 5 && v.size_bytes() == 36 && u.data() == owner.data());
    int p = d.below(10), n = d.below(10 - p);
    auto s = v.subview((std::size_t)p, (std::size_t)n);
    auto a = v.first((std::size_t)p), b = v.last((std::size_t)n);
    o.check(s.begin() == raw + p && s.end() == raw + p + n && a.end() == raw + p && b.begin() == raw + 9 - n && b.size() == (std::size_t)n);
    auto t = f.subview<2, 4>();
    o.check(t.begin() == raw + 2 && t.size() == 4 && f.first<3>().end() == raw + 3 && f.last<3>().begin() == raw + 6);
    for(int& x : s) x += 1000;
    for(int x : raw) o(x);
    o.check(v.front() == raw[0] && v.back() == raw[8] && &v[p % 9] == raw + p % 9 && u[4] == owner[4]);
} END;

PROGRAM(pairs) {
    int x = d.below(50), y = d.below(50);
    xme::Pair<int, Own> p{x, Own(y)}, q{y, Own(x)};
    o.check((p <=> q) == ((x <=> y) != 0 ? x <=> y : y <=> x) && (p == q) == (x == y));
    auto r = p;
    r.swap(q);
    o.check(int(r.second) == x && r.first == y && q.first == x && int(q.second) == y);
    auto s = std::move(q);
    s      = r;
    o.check(s.first == y && int(s.second) == x);
    auto& [one, two] = s;
    one += 3;
    o(s.first), o(int(two)), o(int(p.second));
    xme::Pair<int&, Own&> t{x, p.second};
    xme::get<0>(t) = 7;
    o.check(x == 7 && &xme::get<1>(t) == &p.second && int(xme::get<1>(xme::Pair{1, Own(2)})) == 2);
} END;

PROGRAM(tuples) {
    using xme::get;
    int x = d.below(50), y = d.below(50);
    xme::Tuple<int, Own, double> a{x, Own(y), 2.5}, b{y, Own(x), 1.5};
    o.check((a < b) == (x < y || (x == y && false)) && (a == a));
    auto c = a;
    c.swap(b);
    o.check(get<0>(c) == y && int(get<1>(c)) == x && get<2>(c) == 1.5 && int(get<1>(b)) == y);
    get<0>(c) += 100;
    xme::Tuple<long, Own, double> e{1L, Own(1), 0.5};
    e = std::move(c);
    o(get<0>(e)), o(int(get<1>(e))), o(get<2>(e));
    int i = 0;
    double z = 0;
    Own w;
    xme::tie(i, w, z) = b;
    o.check(i == x && int(w) == y && z == 2.5);
    auto all = xme::tuple_cat(xme::make_tuple(i, 4L), b, xme::Tuple<>(), xme::forward_as_tuple(i));
    o.check(get<0>(all) == i && get<1>(all) == 4 && get<2>(all) == x && int(get<3>(all)) == y && &get<5>(all) == &i);
    o(xme::apply([](int p, const Own& q, double r) { return p * 3 + int(q) * 7 + r; }, b));
    auto& [l, m, n] = e;
    l = 5;
    o.check(get<0>(e) == 5 && &get<2>(e) == &n && &get<1>(e) == &m);
} END;

struct Counter {
    int base = 3;
    constexpr int sum(int x, int y) const { return base * 100 + x * 10 + y; }
    constexpr int operator()(int x, const Own& y, int z) const { return x * 10000 + int(y) * 100 + z; }
};
constexpr int three(int a, int b, int c) { return a * 10000 + b * 100 + c; }

PROGRAM(binders) {
    int x = d.below(50), y = d.below(50), z = d.below(50);
    o(xme::bind_front(three, x)(y, z)), o(xme::bind_back(three, x)(y, z));
    o.check(xme::bind_front(three, x)(y, z) == three(x, y, z) && xme::bind_back(three, x)(y, z) == three(y, z, x));
    auto f = xme::bind_front(Counter{}, x, Own(y));
    auto g = f;
    o.check(g(z) == Counter{}(x, Own(y), z) && std::move(f)(z) == g(z));
    Counter c;
    o.check(xme::bind_front(&Counter::sum, &c)(x, y) == c.sum(x, y) && xme::bind_back(&Counter::sum, x, y)(c) == c.sum(x, y));
    auto h = xme::bind_back([](int& p, int q) { return p += q; }, y);
    h(x);
    o(x);
} END;

PROGRAM(scoped_delegates) {
    int order = 0, n = d.below(5) + 1;
    {
        xme::ScopedDelegate a([&] { order = order * 10 + 1; });
        for(int k = 0; k < n; ++k) {
            xme::ScopedDelegate b([&] { order = order * 10 + 2; });
            if(k == 2) break;
        }
        xme::ScopedDelegate c([&] { order = order * 10 + 3; });
        o.check(order == (n >= 3 ? 222 : n == 2 ? 22 : 2));
    }
    o(order);
    o.check(order % 100 == 31);
} END;

PROGRAM(const_iterators) {
    int raw[8] = {};
    for(int& x : raw) x = d.below(100);
    using C = xme::ConstIterator<int*>;
    C first(raw), last(raw + 8);
    int i = d.below(8), j = d.below(8);
    C a = first + i, b = first + j;
    o.check(b - a == j - i && a + (j - i) == b && b - (j - i) == a && (a < b) == (i < j) && (a <= b) == (i <= j) && (a == b) == (i == j)
            && (a <=> b) == (i <=> j) && *a == raw[i] && first[j] == raw[j] && (j - i) + a == b);
    a += j - i;
    o.check(a == b && *a == raw[j]);
    a -= j - i;
    o.check(*a == raw[i]);
    for(; first != last; ++first) o(*first);
    --last, o(*last--), o(*last), --first, o(*first--), o(*first);
} END;

PROGRAM(reverse_iterators) {
    int raw[8] = {};
    for(int& x : raw) x = d.below(100);
    using R = xme::ReverseIterator<int*>;
    R first(raw + 8), last(raw);
    int i = d.below(8), j = d.below(8);
    R a = first + i, b = first + j;
    o.check(b - a == j - i && a + (j - i) == b && b - (j - i) == a && (a < b) == (i < j) && (a <= b) == (i <= j) && (a == b) == (i == j)
            && *a == raw[7 - i] && first[j] == raw[7 - j] && (j - i) + a == b);
    a += j - i;
    o.check(a == b && *a == raw[7 - j]);
    a -= j - i;
    o.check(*a == raw[7 - i]);
    for(auto it = first; it != last; ++it) o(*it);
    o(*first++), o(*first), o(*--last), o(*last--), o(*last);
} END;

template<typename T>
constexpr void find_program(Out& o, Dice& d, int n) {
    T raw[600] = {};
    const int far = n < 100 ? 0 : n - 40;  // what is searched is near the end of many
    for(int k = 0; k < n; ++k) raw[k] = (T)(d.below(60) + 1 + (k < far ? 0 : 60));
    for(int k = 0; k < (far ? 2 : 6); ++k) {
        T x = far ? raw[n - 1 - d.below(20)] : k < 2 || n == 0 ? (T)(d.below(70) + 1) : raw[d.below(n)];
        T* got = xme::find(raw + 0, raw + n, x);
        int at = 0;
        while(at < n && raw[at] != x) ++at;
        o.check(got == raw + at);
        o(got - raw);
        xme::ArrayView<T> v(raw + 0, (std::size_t)n);
        o.check(xme::find(v, x) == raw + at);
    }
}
PROGRAM(find_in_few) {
    find_program<int>(o, d, d.below(4));
    find_program<char>(o, d, d.below(16));
    find_program<double>(o, d, d.below(20));
    Own owns[4] = {Own(4), Own(d.below(5)), Own(2), Own(3)};
    o(xme::find(owns + 0, owns + 4, Own(2)) - owns);
} END;
PROGRAM(find_in_many) {
    find_program<int>(o, d, d.below(60));
    find_program<unsigned char>(o, d, d.below(90));
    find_program<short>(o, d, d.below(90));
    find_program<long>(o, d, d.below(40));
} END;
PROGRAM(find_in_hundreds) {
    find_program<int>(o, d, 100 + d.below(500));
    find_program<unsigned char>(o, d, 100 + d.below(500));
} END;

template<typename T>
constexpr void reverse_program(Out& o, Dice& d, int n) {
    T raw[90] = {}, was[90] = {};
    for(int k = 0; k < n; ++k) was[k] = raw[k] = (T)(d.below(60) + 1);
    auto end = xme::reverse(raw + 0, raw + n);
    o.check(end == raw + n);
    bool good = true;
    for(int k = 0; k < n; ++k) good = good && raw[k] == was[n - 1 - k];
    o.check(good);
    xme::ArrayView<T> v(raw + 0, (std::size_t)n);
    xme::reverse(v);
    for(int k = 0; k < n; ++k) good = good && raw[k] == was[k];
    o.check(good);
    for(int k = 0; k < n && k < 9; ++k) o((int)raw[k]);
}
PROGRAM(reverse_few) {
    reverse_program<char>(o, d, d.below(32));
    reverse_program<int>(o, d, d.below(32));
    reverse_program<Own>(o, d, d.below(6));
} END;
PROGRAM(reverse_many) {
    reverse_program<char>(o, d, d.below(90));
    reverse_program<unsigned char>(o, d, d.below(90));
    reverse_program<long>(o, d, d.below(90));
} END;

PROGRAM(uninitialized) {
    std::allocator<Own> a;
    int n    = d.below(5) + 1;
    Own from[6] = {1, 2, 3, d.below(9), 5, 6};
    Own* p   = a.allocate(6);
    auto [in, out] = xme::ranges::uninitialized_copy_a(from + 0, from + n, p, p + 6, a);
    o.check(in == from + n && out == p + n);
    for(int k = 0; k < n; ++k) o((int)p[k]);
    Own* q   = a.allocate(6);
    Own* end = xme::ranges::uninitialized_move_a(p, p + n, q, a);
    o.check(end == q + n && p[0].p == nullptr);
    xme::ranges::destroy_n_a(p, n, a);
    xme::ranges::destroy_a(q, q + n - 1, a);
    xme::ranges::destroy_at_a(q + n - 1, a);
    end = xme::ranges::uninitialized_fill_n_a(p, (std::size_t)n, from[3], a);
    o.check(end == p + n && p[n - 1] == from[3]);
    xme::ranges::destroy_a(p, end, a);
    a.deallocate(p, 6);
    a.deallocate(q, 6);
} END;

PROGRAM(bits) {
    u64 x = d.next() >> d.below(63);
    o.check(xme::has_single_bit(x) == (std::popcount(x) == 1) && xme::has_single_bit(u64(1) << d.below(64)) && !xme::has_single_bit(0u));
    o(xme::to_unsigned((signed char)x)), o(xme::to_unsigned((int)x));
    o.check(xme::to_unsigned((short)-1) == 65535);
    int i = 4;
    o.check(&xme::forward_like<int&>(i) == &i);
    using namespace xme::hal;
    o.check((ESimd::sse | ESimd::avx) == ESimd((u64)ESimd::sse + (u64)ESimd::avx) && (enabled_simd & supported_simd) == enabled_simd);
} END;

template<typename T, std::size_t N>
constexpr auto some(Dice& d) {
    xm::Vector<T, N> v;
    double x = d.real(), y = d.real(), z = d.real(), w = d.real();
    if constexpr(N == 2) v = {x, y};
    else if constexpr(N == 3) v = {x, y, z};
    else if constexpr(N == 4) v = {x, y, z, w};
    else
        for(std::size_t k = 0; k < N; ++k) v[k] = (T)d.real();
    return v;
}
template<typename T>
constexpr void components(Out& o, const xm::Vector<T, 2>& v) { o(v.x), o(v.y); }
template<typename T>
constexpr void components(Out& o, const xm::Vector<T, 3>& v) { o(v.x), o(v.y), o(v.z); }
template<typename T>
constexpr void components(Out& o, const xm::Vector<T, 4>& v) { o(v.x), o(v.y), o(v.z), o(v.w); }
template<typename T>
constexpr void components(Out& o, const xm::Vector<T, 5>& v) {
    for(std::size_t k = 0; k < 5; ++k) o(v[k]);
}

template<typename T, std::size_t N>
constexpr void vector_program(Out& o, Dice& d) {
    using V = xm::Vector<T, N>;
    const V a = some<T, N>(d), b = some<T, N>(d);
    T s = (T)d.below(9) + 1;
    components(o, a + b);
    components(o, a - b);
    components(o, a * b);
    components(o, a + s);
    components(o, a * s);
    components(o, a / s);
    components(o, -a);
    V c = a;
    c += b;
    o.check(c == a + b);
    c -= b;
    c *= s;
    c /= s;
    components(o, c);
    o.check((a == b) == !(a != b) && a == a);
    xm::Vector<double, N> e(a);
    c = e;
    o.check(c == a);
    o(xm::dot(a, b));
    if constexpr(std::is_floating_point_v<T>) {
        components(o, xm::lerp(a, b, (T)0.75));
        components(o, xm::lerp(a, b, true));
    }
    components(o, xm::sign(a));
    components(o, xm::faceforward(a, b, a));
    components(o, xm::reflect(a, b));
}
PROGRAM(vectors) {
    vector_program<float, 2>(o, d);
    vector_program<double, 3>(o, d);
    vector_program<int, 4>(o, d);
    vector_program<float, 5>(o, d);
    auto a = some<double, 3>(d), b = some<double, 3>(d);
    components(o, xm::cross(a, b));
} END;
template<typename T, std::size_t N>
constexpr void subscript_program(Out& o, Dice& d) {
    xm::Vector<T, N> a = some<T, N>(d);
    const auto b       = a;
    for(std::size_t k = 0; k < N; ++k) o(b[k]);
    for(std::size_t k = 0; k < N; ++k) a[k] = (T)(k * 3);
    components(o, a);
}
PROGRAM(vector_subscripts) {
    subscript_program<float, 2>(o, d);
    subscript_program<double, 3>(o, d);
    subscript_program<int, 4>(o, d);
    subscript_program<int, 5>(o, d);
} END;
PROGRAM(vector_lengths) {
    auto a = some<double, 3>(d), b = some<double, 3>(d);
    o(a.length()), o(xm::length(a)), o(xm::distance(a, b));
    components(o, xm::normalize(a + 20));
    components(o, (b + 20).normalize());
    auto c = some<float, 5>(d);
    o(xm::length(c));
} END;

template<typename T>
constexpr auto some_quaternion(Dice& d) {
    double w = d.real(), x = d.real(), y = d.real(), z = d.real();
    return xm::Quaternion<T>(w, x, y, z);
}
PROGRAM(quaternions) {
    using Q = xm::Quaternion<double>;
    const Q a = some_quaternion<double>(d), b = some_quaternion<double>(d);
    for(const Q& q : {a + b, a - b, a * b, b * a}) o(q.w), o(q.x), o(q.y), o(q.z);
    o.check(Q(0, 1, 0, 0) * Q(0, 0, 1, 0) == Q(0, 0, 0, 1) && a == a);
} END;
PROGRAM(quaternion_subscripts) {
    auto a = some_quaternion<float>(d);
    o.check(a[0] == a.w && a[1] == a.x && a[2] == a.y && a[3] == a.z);
    a[2] = 4;
    o(a.y);
} END;

template<typename T, std::size_t C, std::size_t R>
constexpr auto some_matrix(Dice& d) {
    xm::Matrix<T, C, R> m;
    for(std::size_t k = 0; k < C; ++k) m[k] = some<T, R>(d);
    return m;
}
template<typename T, std::size_t C, std::size_t R>
constexpr void elements(Out& o, const xm::Matrix<T, C, R>& m) {
    for(std::size_t k = 0; k < C; ++k) components(o, m[k]);
}
template<typename T, std::size_t C, std::size_t R>
constexpr void matrix_program(Out& o, Dice& d) {
    auto a = some_matrix<T, C, R>(d), b = some_matrix<T, C, R>(d);
    elements(o, a + b);
    elements(o, a - b);
    elements(o, a * T(3));
    auto c = a;
    c += b;
    o.check(c == a + b);
    c -= b;
    c *= T(2);
    c /= T(2);
    elements(o, c);
    o.check(a == a && (a == b) == !(a != b));
}
PROGRAM(matrices) {
    matrix_program<double, 2, 3>(o, d);
    matrix_program<float, 4, 4>(o, d);
    matrix_program<double, 3, 3>(o, d);
} END;
PROGRAM(matrix_products) {
    auto a = some_matrix<double, 4, 4>(d), b = some_matrix<double, 4, 4>(d);
    auto e = some_matrix<double, 3, 3>(d), f = some_matrix<double, 3, 3>(d);
    auto g = some_matrix<float, 2, 2>(d);
    auto v = some<double, 4>(d);
    auto w = some<float, 2>(d);
    elements(o, a * b);
    elements(o, e * f);
    components(o, a * v);
    components(o, g * w);
} END;
PROGRAM(matrix_functions) {
    auto a = some_matrix<double, 4, 4>(d);
    auto b = some_matrix<double, 3, 3>(d);
    auto c = some_matrix<double, 2, 2>(d);
    auto e = some_matrix<double, 2, 3>(d);
    elements(o, xm::transpose(a));
    elements(o, xm::transpose(e));
    elements(o, xm::hadamard_product(b, b));
    auto v = some<double, 2>(d);
    auto w = some<double, 3>(d);
    elements(o, xm::outer_product(v, w));
    o(xm::determinant(c));
} END;
PROGRAM(determinants) {
    o(xm::determinant(some_matrix<double, 4, 4>(d)));
    o(xm::determinant(some_matrix<double, 3, 3>(d)));
} END;
PROGRAM(transformations) {
    auto a = some_matrix<double, 4, 4>(d);
    auto v = some<double, 3>(d);
    elements(o, xm::translate(a, v));
    elements(o, xm::scale(a, v));
} END;
PROGRAM(rotations) {
    auto a       = some_matrix<double, 4, 4>(d);
    auto axis    = some<double, 3>(d) + 20;
    double angle = d.real();
    elements(o, xm::rotate(a, angle, axis));
} END;
PROGRAM(projections) {
    double l = d.real(), r = l + 1 + d.below(5), b = d.real(), t = b + 1 + d.below(5), n = 0.5 + d.below(5), f = n + 1 + d.below(9);
    elements(o, xm::perspective(l, r, b, t, n, f));
    elements(o, xm::perspective_lh(l, r, b, t, n, f));
    elements(o, xm::perspective_rh(l, r, b, t, n, f));
    elements(o, xm::ortho(l, r, b, t, n, f));
    elements(o, xm::ortho_lh(l, r, b, t, n, f));
    elements(o, xm::ortho_rh(l, r, b, t, n, f));
} END;
PROGRAM(fields_of_view) {
    double fov = 0.2 + d.below(20) / 10.0, n = 0.5 + d.below(5), f = n + 1 + d.below(9);
    elements(o, xm::perspective(fov, 1.5, n, f));
    elements(o, xm::perspective_lh(fov, 1.5, n, f));
    elements(o, xm::perspective_rh(fov, 1.5, n, f));
} END;
PROGRAM(scalars) {
    double x = d.real();
    o(xm::radians(x)), o(xm::degrees(x)), o(xm::sign(x)), o(xm::sign(d.below(5) - 2));
} END;
PROGRAM(trigonometry) {
    double x = 0.1 + d.below(13) / 10.0;
    o(xm::sec(x)), o(xm::csc(x)), o(xm::cot(x)), o(xm::arcsin(x / 2)), o(xm::arccos(x / 2)), o(xm::arctan(x));
} END;

// --- Running them twice ---------------------------------------------------------------------------
template<typename P, int first, int n>
constexpr auto table() {
    std::array<Out, (std::size_t)n> t;
    for(int k = 0; k < n; ++k) P::run(t[(std::size_t)k], Dice((u64)(first + k)));
    return t;
}
template<typename P, int first, int n>
concept Constant = requires { typename std::integral_constant<int, (table<P, first, n>()[0].checks)>; };
template<typename P, int first, int... k>
std::string seeds_not_constant(std::integer_sequence<int, k...>) {
    std::string all;
    ((all += Constant<P, first + k, 1> ? "" : " " + std::to_string(first + k)), ...);
    return all;
}

template<typename P, int first, int n>
void batch(bool approximate) {
    if constexpr(!(Constant<P, first, n>)) {
        violation(fmt("C47:%s-not-constant", P::what), fmt("the compiler can't evaluate %s with the seeds%s", P::what,
                                                           seeds_not_constant<P, first>(std::make_integer_sequence<int, n>()).c_str()));
    }
    else {
        static constexpr auto at_compile_time = table<P, first, n>();
        for(int k = 0; k < n; ++k) {
            volatile int seed = first + k;
            const Out& c      = at_compile_time[(std::size_t)k];
            Out r;
            note("%s %d\n", P::what, (int)seed);
            P::run(r, Dice((u64)seed));
            judged(c.n + c.checks);
            count("values computed by both", c.n);
            count("conditions held in both", c.checks);
            MON_CHECK(!c.wrong, "C47:" + std::string(P::what), "seed %d: condition %d doesn't hold at compile time", seed, c.wrong);
            MON_CHECK(!r.wrong, "C47:" + std::string(P::what), "seed %d: condition %d doesn't hold at run time", seed, r.wrong);
            MON_CHECK(c.n == r.n && c.checks == r.checks, "C47:" + std::string(P::what), "seed %d: %d values at compile time, %d at run time", seed, c.n, r.n);
            u64 h = hash_str(P::what);
            for(int i = 0; i < c.n && i < r.n; ++i) {
                double a = c.v[i], b = r.v[i];
                bool good = a == b || (approximate && std::abs(a - b) <= 1e-6 * (1 + std::abs(a))) || (a != a && b != b);
                MON_CHECK(good, "C47:" + std::string(P::what), "seed %d, value %d: %.17g at compile time, %.17g at run time", seed, i, a, b);
                h = hash2(h, (u64)(long)(a * 64));
            }
            seen(h);
        }
    }
}
template<typename P>
void program(bool approximate = false) {
    cases(P::what, 1, [&](Rng&, long) {
        batch<P, 0, 12>(approximate);
        batch<P, 12, 12>(approximate);
#ifdef MANY
        batch<P, 100, 40>(approximate);
        batch<P, 200, 40>(approximate);
        batch<P, 300, 40>(approximate);
#endif
    });
}

int main(int argc, char** argv) {
    init(argc, argv);
#if PART == 0
    program<array_of_int>();
    program<array_of_owning>();
    program<heap_of_int>();
    program<heap_of_owning>();
    program<views>();
    program<pairs>();
    program<tuples>();
    program<binders>();
    program<scoped_delegates>();
    program<const_iterators>();
    program<reverse_iterators>();
    program<uninitialized>();
    program<bits>();
#endif
#if PART == 1
    program<find_in_few>();
    program<find_in_many>();
    program<find_in_hundreds>();
    program<reverse_few>();
    program<reverse_many>();
#endif
#if PART == 2
    program<vectors>(true);
    program<vector_subscripts>();
    program<quaternions>(true);
    program<quaternion_subscripts>();
    program<matrices>(true);
    program<matrix_products>(true);
    program<matrix_functions>(true);
    program<determinants>(true);
    program<transformations>(true);
    program<projections>(true);
    program<scalars>(true);
#ifndef __clang__  // whose mathematical functions of the standard library aren't constexpr
    program<vector_lengths>(true);
    program<rotations>(true);
    program<fields_of_view>(true);
    program<trigonometry>(true);
#endif
#endif
    return finish();
}
