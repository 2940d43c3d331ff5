// Searches with xme::find in ranges of every kind, length, alignment and content, between
// inaccessible pages and in exactly sized heap blocks, and compares with an index loop (C22).
// Built once for each SIMD level (-DPART splits the element types).
#include "../harness/fancy.hpp"
#include <array>
#include <cmath>
#include <deque>
#include <forward_list>
#include <list>
#include <memory>
#include <span>
#include <sstream>
#include <string>
#include <string_view>
#include <xme/core/algorithm/find.hpp>
#include <xme/container/array.hpp>
#include <xme/container/array_view.hpp>
#ifndef PART
#define PART 0
#endif

using namespace mon;
#define P "C22:"

// Three pages, of which the last and the first are inaccessible
struct Guarded {
    static constexpr size_t page = 4096, size = 2 * page;
    char* base;
    Guarded() {
        base = (char*)mmap(nullptr, size + 2 * page, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        mprotect(base, page, PROT_NONE);
        mprotect(base + page + size, page, PROT_NONE);
    }
    char* begin() { return base + page; }
    char* end() { return base + page + size; }
};
static Guarded& guarded() {
    static Guarded g;
    return g;
}

enum class E8 : std::uint8_t {};
enum class E16 : std::int16_t {};
enum E32 : std::uint32_t {};
enum class E64 : std::int64_t {};
struct alignas(4) LowBits {  // 4 bytes, equality ignores some
    std::uint32_t v;
    friend bool operator==(const LowBits& a, const LowBits& b) { return (a.v & 0xFFFF) == (b.v & 0xFFFF); }
};
struct Padded {  // 8 bytes with padding
    std::int32_t a;
    std::int8_t b;
    friend bool operator==(const Padded&, const Padded&) = default;
};
struct CaseLess {  // 1 byte
    char c;
    friend bool operator==(CaseLess a, CaseLess b) { return (a.c | 32) == (b.c | 32); }
};
struct Pod16 {
    std::int64_t a, b;
    friend bool operator==(const Pod16&, const Pod16&) = default;
};
struct Never {  // 2 bytes, never equal
    std::int16_t v;
    friend bool operator==(const Never&, const Never&) { return false; }
};
struct Rec { int x, y; };

// Makes the value number n: small n give values that differ in a few bits
template<typename T>
T make(std::uint64_t n) {
    if constexpr(std::is_same_v<T, bool>) return n & 1;
    else if constexpr(std::is_floating_point_v<T>) {
        switch(n % 8) {
        case 0: return T(0);
        case 1: return -T(0);
        case 2: return std::nan("");
        case 3: return T(1);
        case 4: return std::nextafter(T(1), T(2));
        case 5: return T(INFINITY);
        default: return T((std::int32_t)(n >> 3)) / 4;
        }
    }
    else if constexpr(std::is_same_v<T, LowBits>) return T{(std::uint32_t)(n * 0x10001)};
    else if constexpr(std::is_same_v<T, Padded>) {
        T t;
        memset((void*)&t, (int)(n * 37), sizeof t);
        t.a = (int)(n >> 1);
        t.b = n & 1;
        return t;
    }
    else if constexpr(std::is_same_v<T, CaseLess>) return T{(char)n};
    else if constexpr(std::is_same_v<T, Never>) return T{(std::int16_t)n};
    else if constexpr(std::is_same_v<T, Pod16>) return T{(std::int64_t)(n / 2), (std::int64_t)(n & 1)};
    else if constexpr(std::is_same_v<T, std::string>) return std::string(n % 40, 'a' + n % 3);
    else if constexpr(std::is_same_v<T, int Rec::*>) return n % 3 == 0 ? nullptr : n % 3 == 1 ? &Rec::x : &Rec::y;
    else if constexpr(std::is_pointer_v<T>) return (T)(n * 8);
    else return (T)n;
}
// A value and another whose bytes differ in one place only
template<typename T>
void pick(Rng& r, T& value, T* others, int& n_others) {
    std::uint64_t n = r.next();
    if(r.chance(40)) n = r.below(4);
    if constexpr(std::is_pointer_v<T>) n >>= 8;
    value    = make<T>(n);
    n_others = 0;
    while(n_others < 4) {
        std::uint64_t m = n;
        switch(r.below(4)) {
        case 0: m ^= 1ull << r.below(8 * (sizeof(T) < 8 ? sizeof(T) : 8)); break;
        case 1: m ^= 0xFFull << (8 * r.below(sizeof(T) < 8 ? sizeof(T) : 8)); break;
        case 2: m = ~n; break;
        default: m = r.next();
        }
        others[n_others++] = make<T>(m);
    }
}

enum class Policy { none, seq, unseq, par, par_unseq };
template<typename I, typename S, typename T>
auto search(Policy p, I i, S s, const T& v) {
    switch(p) {
    case Policy::seq: return xme::find<std::execution::sequenced_policy>(i, s, v);
    case Policy::unseq: return xme::find<std::execution::unsequenced_policy>(i, s, v);
    case Policy::par: return xme::find<std::execution::parallel_policy>(i, s, v);
    case Policy::par_unseq: return xme::find<std::execution::parallel_unsequenced_policy>(i, s, v);
    default: return xme::find(i, s, v);
    }
}

template<typename T>
size_t expected(const T* p, size_t n, const T& v) {
    for(size_t k = 0; k < n; ++k)
        if(p[k] == v) return k;
    return n;
}

// A contiguous range between guard pages
template<typename T>
void contiguous(Rng& r, const char* name) {
    Guarded& g = guarded();
    constexpr size_t lane = sizeof(T) >= 32 ? 1 : 32 / sizeof(T);
    T value, others[4];
    int n_others;
    pick(r, value, others, n_others);
    const size_t n = r.chance(80) ? r.below(3 * lane + 6) : r.below(12 * lane + 9);
    // at the end, at the beginning or somewhere inside
    size_t where = r.below(3), room = Guarded::size / sizeof(T) - n;
    T* p = where == 0 ? (T*)(g.end()) - n : where == 1 ? (T*)g.begin() : (T*)g.begin() + r.below(room < 80 ? room + 1 : 80);
    // what lies around the range matches
    const size_t around = 40 < room ? 40 : room;
    T* lo = where == 1 ? p : p - ((size_t)(p - (T*)g.begin()) < around ? p - (T*)g.begin() : around);
    T* hi = where == 0 ? p + n : p + n + ((size_t)((T*)g.end() - p) - n < around ? (T*)g.end() - p - n : around);
    for(T* q = lo; q != hi; ++q) *q = value;
    bool mixed = r.chance(70);
    for(size_t k = 0; k < n; ++k) p[k] = others[mixed ? r.below(n_others) : 0];
    int matches = n ? (int)r.below(4) : 0;
    size_t last = n;
    for(int k = 0; k < matches; ++k) p[last = (k && r.chance(50)) ? (last + 1 + r.below(3)) % n : r.below(n)] = value;
    Policy pol = (Policy)r.below(5);
    if(r.chance(50)) pol = Policy::none;
    size_t want = expected(p, n, value);
    note("%s n %zu at %zu want %zu policy %d\n", name, n, where, want, (int)pol);
    // the searched value may be an element of the range
    const T& v = r.chance(10) && want < n ? p[want] : value;
    const T* cp = p;
    size_t got[5];
    int results = 0;
    got[results++] = search(pol, p, p + n, v) - p;
    switch(r.below(5)) {
    case 0: got[results++] = search(pol, cp, cp + n, v) - cp; break;
    case 1: {
        std::span<T> s(p, n);
        got[results++] = xme::find(s, v) - s.begin();
        got[results++] = search(pol, s.begin(), s.end(), v) - s.begin();
        break;
    }
    case 2: {
        std::span<const T> s(p, n);
        got[results++] = xme::find<std::execution::sequenced_policy>(s, v) - s.begin();
        got[results++] = xme::find(s.begin(), s.end(), v) - s.begin();
        break;
    }
    case 3: {
        xme::ArrayView<T> s(p, n);
        got[results++] = xme::find(s, v) - s.begin();
        break;
    }
    default: {
        // the rest, after the first match
        if(want < n) {
            size_t next = want + 1 + expected(p + want + 1, n - want - 1, value);
            got[results++] = search(pol, p + want + 1, p + n, v) - p == (std::ptrdiff_t)next ? want : n + 1000;
        }
    }
    }
    for(int k = 0; k < results; ++k) {
        judged();
        MON_CHECK(got[k] == want, P "position", "%s: found at %zd of %zu, the first match is at %zd (form %d, policy %d, address %% 64 is %zu)", name, (ssize_t)got[k], n, (ssize_t)want, k, (int)pol,
                  (size_t)p % 64);
    }
    for(T* q = lo; q != hi; ++q)
        if(q < p || q >= p + n) {
            if(memcmp((void*)q, (void*)&value, sizeof(T))) {
                if constexpr(!std::is_same_v<T, Padded> && !std::is_same_v<T, long double>) violation(P "modified", fmt("%s: memory around the range changed", name));
                break;
            }
        }
    seen(hash2(hash2(n, want), hash2((size_t)p % 64, (int)pol)));
}

// Every length and position of the match
template<typename T>
void exhaustive(const char* name) {
    Guarded& g            = guarded();
    constexpr size_t lane = sizeof(T) >= 32 ? 1 : 32 / sizeof(T);
    const T no = make<T>(6), yes = make<T>(7);
    T* const end = (T*)g.end();
    for(size_t n = 0; n <= 3 * lane + 3; ++n) {
        T* p = end - n;
        for(size_t k = 0; k < n; ++k) p[k] = no;
        judged();
        size_t got = xme::find(p, p + n, yes) - p;
        MON_CHECK(got == expected(p, n, yes), P "position", "%s: found at %zu of %zu without a match", name, got, n);
        for(size_t k = 0; k < n; ++k) {
            p[k] = yes;
            judged();
            got = xme::find(p, p + n, yes) - p;
            MON_CHECK(got == expected(p, n, yes), P "position", "%s: found at %zu of %zu, the match is at %zu", name, got, n, k);
            p[k] = no;
        }
    }
    seen(lane);
}

// Iterators between guard pages that aren't contiguous, but whose elements are
template<typename T>
struct Stride {
    using value_type        = T;
    using difference_type   = std::ptrdiff_t;
    using reference         = T&;
    using pointer           = T*;
    using iterator_category = std::random_access_iterator_tag;
    T* p                    = nullptr;
    T& operator*() const { return *p; }
    T& operator[](std::ptrdiff_t n) const { return p[2 * n]; }
    Stride& operator++() { p += 2; return *this; }
    Stride operator++(int) { auto c = *this; p += 2; return c; }
    Stride& operator--() { p -= 2; return *this; }
    Stride operator--(int) { auto c = *this; p -= 2; return c; }
    Stride& operator+=(std::ptrdiff_t n) { p += 2 * n; return *this; }
    Stride& operator-=(std::ptrdiff_t n) { p -= 2 * n; return *this; }
    friend Stride operator+(Stride a, std::ptrdiff_t n) { return {a.p + 2 * n}; }
    friend Stride operator+(std::ptrdiff_t n, Stride a) { return {a.p + 2 * n}; }
    friend Stride operator-(Stride a, std::ptrdiff_t n) { return {a.p - 2 * n}; }
    friend std::ptrdiff_t operator-(Stride a, Stride b) { return (a.p - b.p) / 2; }
    friend auto operator<=>(const Stride&, const Stride&) = default;
};

// Ranges of other kinds
template<typename T>
void ranges_of(Rng& r, const char* name) {
    T value, others[4];
    int n_others;
    pick(r, value, others, n_others);
    const size_t n = r.below(110);
    std::vector<T> v;
    v.reserve(n);
    for(size_t k = 0; k < n; ++k) v.push_back(r.chance(3) ? value : others[r.below(4)]);
    size_t want = n;
    for(size_t k = n; k-- > 0;)
        if(v[k] == value) want = k;
    int kind = (int)r.below(9);
    note("%s of kind %d, n %zu want %zu\n", name, kind, n, want);
    auto is = [&](auto got, const char* what) {
        judged();
        MON_CHECK((size_t)got == want, P "position", "%s of %s: found at %zd of %zu, the first match is at %zu", what, name, (ssize_t)got, n, want);
    };
    switch(kind) {
    case 0: {
        std::vector<T> c(v.begin(), v.end());
        is(xme::find(c, value) - c.begin(), "vector");
        const auto& cc = c;
        is(xme::find(cc, value) - cc.begin(), "const vector");
        is(xme::find(c.begin(), c.end(), value) - c.begin(), "vector iterators");
        is(xme::find<std::execution::parallel_policy>(c, value) - c.begin(), "vector");
        std::vector<T> copy(v.begin(), v.end());
        bool same = true;
        for(size_t k = 0; k < n; ++k) same &= c[k] == copy[k] || !(copy[k] == copy[k]);
        MON_CHECK(same, P "modified", "the searched vector changed");
        break;
    }
    case 1: {
        std::deque<T> c(v.begin(), v.end());
        is(xme::find(c, value) - c.begin(), "deque");
        break;
    }
    case 2: {
        std::list<T> c(v.begin(), v.end());
        is(std::distance(c.begin(), xme::find(c, value)), "list");
        is(std::distance(c.cbegin(), xme::find(std::as_const(c), value)), "const list");
        break;
    }
    case 3: {
        std::forward_list<T> c(v.begin(), v.end());
        is(std::distance(c.begin(), xme::find(c, value)), "forward list");
        break;
    }
    case 4: {
        xme::Array<T> c(v.begin(), v.end());
        is(xme::find(c, value) - c.begin(), "Array");
        is(xme::find(std::as_const(c), value) - std::as_const(c).begin(), "const Array");
        break;
    }
    case 5: {
        std::vector<T> c(v.begin(), v.end());
        if constexpr(!std::is_same_v<T, bool>) {
            auto fancy = [&]<typename Tag>(Tag) {
                Fancy<T, Tag> b{c.data(), c.data(), c.data() + n}, e{c.data() + n, c.data(), c.data() + n};
                is(xme::find(b, e, value) - b, "contiguous class iterator");
                Fancy<const T, Tag> cb{c.data(), c.data(), c.data() + n}, ce{c.data() + n, c.data(), c.data() + n};
                is(xme::find(cb, ce, value) - cb, "contiguous class iterator");
            };
            fancy(std::contiguous_iterator_tag{});
            fancy(::ranges::contiguous_iterator_tag{});
            is(std::make_reverse_iterator(c.begin() + want) - xme::find(std::make_reverse_iterator(c.begin() + want), c.rend(), value) == -(std::ptrdiff_t)want ? want : n + 1, "reversed vector");
        }
        break;
    }
    case 6: {
        std::vector<T> c(2 * n + 1, value);
        for(size_t k = 0; k < n; ++k) c[2 * k] = v[k];
        if constexpr(!std::is_same_v<T, bool>) {
            Stride<T> b{c.data()}, e{c.data() + 2 * n};
            is(xme::find(b, e, value) - b, "random access class iterator");
        }
        break;
    }
    case 7: {  // up to the end of something longer
        std::vector<T> c(v.begin(), v.end());
        if constexpr(!std::is_same_v<T, bool>) {
            auto got = xme::find(std::counted_iterator(c.begin(), (std::ptrdiff_t)n), std::default_sentinel, value);
            is((std::ptrdiff_t)n - got.count(), "counted iterator");
        }
        break;
    }
    default: {
        if(want < n) {
            std::vector<T> c(v.begin(), v.end());
            is(xme::find(c.begin(), ::ranges::unreachable, value) - c.begin(), "unbounded range");
        }
    }
    }
    seen(hash2(hash2(n, want), kind));
}

template<typename T>
void type(const char* name, long n) {
    std::string g = std::string("contiguous ") + name;
    if constexpr(std::is_trivially_copyable_v<T>) {
        cases(g.c_str(), n, [&](Rng& r, long) {
            for(int k = 0; k < 60; ++k) contiguous<T>(r, name);
        });
        g = std::string("exhaustive ") + name;
        if(st().cases > 20) cases(g.c_str(), 1, [&](Rng&, long) { exhaustive<T>(name); });
    }
#ifdef RANGES
    g = std::string("ranges ") + name;
    cases(g.c_str(), n, [&](Rng& r, long) {
        for(int k = 0; k < 10; ++k) ranges_of<T>(r, name);
    });
#endif
}
#define TYPE(...) type<__VA_ARGS__>(#__VA_ARGS__, n)

static void text(Rng& r) {
    std::string s, words[] = {"lorem ", "ipsum ", "dolor ", "sit ", "amet "};
    for(int k = (int)r.below(40); k > 0; --k) s += words[r.below(5)];
    std::string_view v(s);
    char c      = "xmerz l\0"[r.below(8)];
    size_t want = s.find(c) == s.npos ? s.size() : s.find(c);
    judged(4);
    MON_CHECK((size_t)(xme::find(s, c) - s.begin()) == want, P "position", "string");
    MON_CHECK((size_t)(xme::find(v, c) - v.begin()) == want, P "position", "string view");
    MON_CHECK((size_t)(xme::find(s.c_str(), s.c_str() + s.size() + 1, '\0') - s.c_str()) == s.size(), P "position", "terminator of a string");
    std::istringstream in(s);
    std::istreambuf_iterator<char> b(in), e;
    auto it  = xme::find(b, e, c);
    size_t k = 0;
    MON_CHECK(want == s.size() ? it == e : *it == c, P "position", "stream");
    std::string rest(it, std::istreambuf_iterator<char>());
    MON_CHECK(rest == s.substr(want), P "position", "stream: %zu characters are left instead of %zu", rest.size(), s.size() - want);
    std::vector<char> none;
    MON_CHECK(xme::find(none, c) == none.end() && xme::find((char*)nullptr, (char*)nullptr, c) == nullptr, P "position", "nothing to search");
    (void)k;
    seen(hash2(want, s.size()));
}

int main(int argc, char** argv) {
    init(argc, argv);
    fancy_prefix() = P;
    long n = st().cases;
#ifdef RANGES
    TYPE(char);
    TYPE(std::int32_t);
    TYPE(double);
    TYPE(bool);
    TYPE(std::string);
#elif PART == 0
    TYPE(char);
    TYPE(std::uint8_t);
    TYPE(std::int16_t);
    TYPE(std::uint32_t);
    TYPE(std::int64_t);
    TYPE(float);
    TYPE(int*);
    TYPE(E16);
    TYPE(LowBits);
    cases("text", n, [&](Rng& r, long) {
        for(int k = 0; k < 5; ++k) text(r);
    });
#else
    TYPE(bool);
    TYPE(std::int8_t);
    TYPE(std::byte);
    TYPE(char8_t);
    TYPE(char16_t);
    TYPE(std::int32_t);
    TYPE(wchar_t);
    TYPE(long long);
    TYPE(double);
    TYPE(E8);
    TYPE(CaseLess);
    TYPE(Never);
    TYPE(E32);
    TYPE(E64);
    TYPE(void (*)());
    TYPE(int Rec::*);
    TYPE(Padded);
    TYPE(Pod16);
    TYPE(long double);
#endif
    return finish();
}
