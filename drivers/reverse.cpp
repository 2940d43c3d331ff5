// Reverses ranges of every kind, length, alignment and content with xme::reverse, between
// inaccessible pages and in exactly sized heap blocks, and compares with a copy taken before
// (C23). Built once for each SIMD level.
#include "../harness/fancy.hpp"
#include "../harness/track.hpp"
#include <array>
#include <deque>
#include <list>
#include <memory>
#include <span>
#include <string>
#include <utility>
#include <xme/core/algorithm/reverse.hpp>
#include <xme/container/array.hpp>
#include <xme/container/array_view.hpp>

using namespace mon;
#define P "C23:"

struct Guarded {
    static constexpr size_t page = 4096, size = 2 * page;
    char* base;
    Guarded() {
        base = (char*)mmap(nullptr, size + 2 * page, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        mprotect(base, page, PROT_NONE);
        mprotect(base + page + size, page, PROT_NONE);
    }
    char* begin() { return base + page; }
    char* end() { return base + page + size; }
};
static Guarded& guarded() {
    static Guarded g;
    return g;
}
enum class E8 : std::uint8_t {};
struct One {
    char c;
    bool operator==(const One&) const = default;
};
struct Three {
    char c[3];
    bool operator==(const Three&) const = default;
};
struct Sixteen {
    std::int64_t a, b;
    bool operator==(const Sixteen&) const = default;
};
struct Swapped {  // one byte, but with a lifetime
    char c;
    Swapped(char x) : c(x) {}
    Swapped(const Swapped& o) : c(o.c) {}
    Swapped& operator=(const Swapped& o) {
        c = o.c;
        return *this;
    }
    bool operator==(const Swapped& o) const { return c == o.c; }
};
// Holds its value coded with its own address: only its copies and moves carry the value along
template<typename I>
struct Keyed {
    I coded;
    I key() const { return (I)((std::uintptr_t)this / sizeof(I) * 0x9E3779B1u + 1); }
    Keyed(I v) : coded((I)(v ^ key())) {}
    Keyed(const Keyed& o) : coded((I)(o.value() ^ key())) {}
    Keyed& operator=(const Keyed& o) {
        coded = (I)(o.value() ^ key());
        return *this;
    }
    I value() const { return (I)(coded ^ key()); }
    bool operator==(const Keyed& o) const { return value() == o.value(); }
};

template<typename T>
T make(u64 n) {
    if constexpr(std::is_same_v<T, bool>) return n & 1;
    else if constexpr(std::is_same_v<T, Three>) return T{{(char)n, (char)(n >> 8), (char)(n >> 16)}};
    else if constexpr(std::is_same_v<T, Sixteen>) return T{(std::int64_t)n, (std::int64_t)(n * 77)};
    else if constexpr(std::is_same_v<T, One>) return T{(char)n};
    else if constexpr(std::is_same_v<T, Swapped>) return T((char)n);
    else if constexpr(std::is_same_v<T, std::string>) return std::string(n % 50, (char)('a' + n % 23));
    else if constexpr(std::is_floating_point_v<T>) return T((std::int32_t)n) / 2;
    else if constexpr(std::is_pointer_v<T>) return (T)(n >> 16);
    else return (T)n;
}

// Reverses [p, p + n) in one of several forms, returns the distance from p to the result
template<typename T>
std::ptrdiff_t apply(int form, T* p, size_t n) {
    switch(form) {
    case 0: return xme::reverse(p, p + n) - p;
    case 1: {
        std::span<T> s(p, n);
        return xme::reverse(s) - s.begin();
    }
    case 2: {
        std::span<T> s(p, n);
        return xme::reverse(s.begin(), s.end()) - s.begin();
    }
    case 3: {
        Fancy<T, std::contiguous_iterator_tag> b{p, p, p + n};
        return xme::reverse(b, b + n) - b;
    }
    case 4: {
        Fancy<T, ::ranges::contiguous_iterator_tag> b{p, p, p + n};
        return xme::reverse(b, b + n) - b;
    }
    default: {
        xme::ArrayView<T> s(p, n);
        return xme::reverse(s) - s.begin();
    }
    }
}

template<typename T>
void judge(const T* p, const std::vector<T>& before, std::ptrdiff_t result, const char* name, const char* what) {
    const size_t n = before.size();
    judged();
    MON_CHECK(result == (std::ptrdiff_t)n, P "result", "%s of %s: returned position %td of %zu", what, name, result, n);
    for(size_t k = 0; k < n; ++k)
        if(!(p[k] == before[n - 1 - k])) return violation(P "content", fmt("%s of %s: element %zu of %zu isn't the one opposite (address %% 64 is %zu)", what, name, k, n, (size_t)p % 64));
}

template<typename T>
void contiguous(Rng& r, const char* name) {
    Guarded& g    = guarded();
    const size_t n = r.chance(70) ? r.below(80) : r.below(400);
    size_t where = r.below(3), room = Guarded::size / sizeof(T) - n;
    T* p     = where == 0 ? (T*)g.end() - n : where == 1 ? (T*)g.begin() : (T*)g.begin() + r.below(room < 80 ? room + 1 : 80);
    int form = (int)r.below(6);
    note("%s n %zu at %zu form %d\n", name, n, where, form);
    // what surrounds the range
    u64 salt = r.next();
    std::vector<unsigned char> image(Guarded::size);
    for(size_t k = 0; k < Guarded::size; k += 8) {
        u64 w = mix(salt + k);
        memcpy(g.begin() + k, &w, 8);
    }
    std::vector<T> before;
    before.reserve(n);
    bool few = r.chance(20);
    for(size_t k = 0; k < n; ++k) {
        before.push_back(make<T>(few ? r.below(3) : r.next()));
        new(p + k) T(before.back());
    }
    memcpy(image.data(), g.begin(), Guarded::size);
    judge<T>(p, before, apply<T>(form, p, n), name, "contiguous range");
    size_t lo = (char*)p - g.begin(), hi = lo + n * sizeof(T);
    MON_CHECK(!memcmp(image.data(), g.begin(), lo) && !memcmp(image.data() + hi, g.begin() + hi, Guarded::size - hi), P "outside", "%s: memory around the range of %zu changed", name, n);
    // twice restores
    apply<T>((form + 1) % 6, p, n);
    judged();
    bool same = true;
    for(size_t k = 0; k < n; ++k) same &= p[k] == before[k];
    MON_CHECK(same, P "involution", "%s: reversing %zu elements twice doesn't restore them", name, n);
    seen(hash2(hash2(n, where), hash2((size_t)p % 64, form)));
}

// Every length at every alignment
template<typename T>
void exhaustive(const char* name) {
    Guarded& g = guarded();
    for(size_t n = 0; n <= 140; ++n)
        for(size_t gap = 0; gap < 33; ++gap) {
            T* p = (T*)g.end() - n - gap;
            std::vector<T> before;
            before.reserve(n);
            for(size_t k = 0; k < n; ++k) {
                before.push_back(make<T>(n * 7 + k * 3 + 1));
                p[k] = before.back();
            }
            judge<T>(p, before, xme::reverse(p, p + n) - p, name, "contiguous range");
        }
    seen(1);
}

template<typename T>
void ranges_of(Rng& r, const char* name) {
    const size_t n = r.below(140);
    std::vector<T> before;
    before.reserve(n);
    for(size_t k = 0; k < n; ++k) before.push_back(make<T>(r.next()));
    int kind = (int)r.below(7);
    note("%s of kind %d, n %zu\n", name, kind, n);
    auto is = [&](auto& c, auto result, const char* what) {
        judged();
        MON_CHECK(result == c.end(), P "result", "%s of %s: the end isn't returned", what, name);
        size_t k = n;
        bool ok  = true;
        for(const auto& x : c) ok = ok && k > 0 && x == before[--k];
        MON_CHECK(ok && k == 0, P "content", "%s of %s: %zu elements aren't reversed (%zu before the end)", what, name, n, k);
    };
    switch(kind) {
    case 0: {
        std::vector<T> c(before.begin(), before.end());
        is(c, xme::reverse(c), "vector");
        break;
    }
    case 1: {
        std::deque<T> c(before.begin(), before.end());
        is(c, xme::reverse(c), "deque");
        break;
    }
    case 2: {
        std::list<T> c(before.begin(), before.end());
        std::vector<const T*> at;
        is(c, xme::reverse(c.begin(), c.end()), "list");
        break;
    }
    case 3: {
        xme::Array<T> c(before.begin(), before.end());
        is(c, xme::reverse(c), "Array");
        break;
    }
    case 4: {  // a part of a longer one
        size_t front = r.below(9), back = r.below(9);
        std::vector<T> c(front, make<T>(1));
        c.insert(c.end(), before.begin(), before.end());
        c.insert(c.end(), back, make<T>(2));
        auto res = xme::reverse(c.begin() + front, c.end() - back);
        MON_CHECK(res == c.end() - back, P "result", "part of a vector of %s", name);
        bool ok = true;
        for(size_t k = 0; k < front; ++k) ok &= c[k] == make<T>(1);
        for(size_t k = 0; k < back; ++k) ok &= c[c.size() - 1 - k] == make<T>(2);
        MON_CHECK(ok, P "outside", "part of a vector of %s: elements around it changed", name);
        std::vector<T> mid(c.begin() + front, c.end() - back);
        is(mid, mid.end(), "part of a vector");
        break;
    }
    case 5: {
        std::vector<T> c(before.begin(), before.end());
        auto res = xme::reverse(c.rbegin(), c.rend());
        MON_CHECK(res == c.rend(), P "result", "reversed vector of %s", name);
        is(c, c.end(), "reversed vector");
        break;
    }
    default: {
        std::array<T, 67> c{};
        std::vector<T> old;
        for(size_t k = 0; k < 67; ++k) {
            c[k] = make<T>(r.next());
            old.push_back(c[k]);
        }
        auto res = xme::reverse(c);
        bool ok  = res == c.end();
        for(size_t k = 0; k < 67; ++k) ok &= c[k] == old[66 - k];
        judged();
        MON_CHECK(ok, P "content", "array of %s", name);
    }
    }
    seen(hash2(n, kind));
}
template<>
void ranges_of<Swapped>(Rng& r, const char*) {
    const size_t n = r.below(140);
    std::vector<Swapped> c, before;
    for(size_t k = 0; k < n; ++k) c.push_back(Swapped((char)r.next()));
    before = c;
    auto e = xme::reverse(c) - c.begin();
    judge<Swapped>(c.data(), before, e, "Swapped", "vector");
    seen(n);
}

template<typename I>
static void keyed(Rng& r, const char* name) {
    const size_t n = r.below(140), from = r.below(40);
    std::vector<Keyed<I>> c, before;
    for(size_t k = 0; k < from + n + 3; ++k) c.push_back(Keyed<I>((I)r.next()));
    before.assign(c.begin() + from, c.begin() + from + n);
    std::ptrdiff_t e = r.chance(50) ? xme::reverse(c.begin() + from, c.begin() + from + n) - (c.begin() + from) : xme::reverse(std::span(c).subspan(from, n)) - std::span(c).subspan(from, n).begin();
    judge<Keyed<I>>(c.data() + from, before, e, name, "objects that depend on their address");
    seen(n);
}

// Elements with a lifetime: moved or swapped, never copied, created or lost
template<typename T>
void objects(Rng& r, const char* name) {
    tr().reset();
    {
        const size_t n = r.below(60);
        std::vector<T> v;
        v.reserve(n);
        std::list<T> l;
        for(size_t k = 0; k < n; ++k) {
            v.emplace_back((int)k + 1);
            l.emplace_back((int)k + 1);
        }
        size_t live = tr().live.size();
        long copies = tr().copies;
        auto e      = xme::reverse(v) - v.begin();
        auto le     = xme::reverse(l);
        judged(2);
        MON_CHECK((size_t)e == n && le == l.end(), P "result", "%s", name);
        MON_CHECK(tr().copies == copies && tr().live.size() == live, P "content", "%s: %ld copies, %zd more objects", name, tr().copies - copies, (ssize_t)(tr().live.size() - live));
        size_t k = n;
        bool ok  = true;
        for(auto& x : v) ok &= val(x) == (long)k--;
        k = n;
        for(auto& x : l) ok &= val(x) == (long)k--;
        MON_CHECK(ok, P "content", "%s: %zu elements aren't reversed", name, n);
        std::vector<std::unique_ptr<long>> u;
        for(size_t i = 0; i < n; ++i) u.push_back(std::make_unique<long>(i));
        xme::reverse(u);
        for(size_t i = 0; i < n; ++i) ok &= u[i] && *u[i] == (long)(n - 1 - i);
        judged();
        MON_CHECK(ok, P "content", "owning pointers: %zu elements aren't reversed", n);
        seen(n);
    }
}

static void text(Rng& r) {
    std::string s;
    for(size_t k = r.below(300); k > 0; --k) s += (char)r.range(1, 255);
    std::string o(s.rbegin(), s.rend());
    auto sr = xme::reverse(s);
    judged();
    MON_CHECK(sr == s.end() && s == o, P "content", "string of %zu", s.size());
    std::vector<char> none;
    MON_CHECK(xme::reverse(none) == none.end() && xme::reverse((char*)nullptr, (char*)nullptr) == nullptr, P "result", "nothing to reverse");
    seen(s.size());
}

template<typename T>
void type(const char* name, long n) {
#ifdef RANGES
    std::string g = std::string("ranges ") + name;
    cases(g.c_str(), n, [&](Rng& r, long) {
        for(int k = 0; k < 10; ++k) ranges_of<T>(r, name);
    });
#else
    std::string g = std::string("contiguous ") + name;
    if constexpr(!std::is_same_v<T, std::string>) {
        cases(g.c_str(), n, [&](Rng& r, long) {
            for(int k = 0; k < 20; ++k) contiguous<T>(r, name);
        });
        g = std::string("exhaustive ") + name;
        if(st().cases > 20) cases(g.c_str(), 1, [&](Rng&, long) { exhaustive<T>(name); });
    }
#endif
}
#define TYPE(...) type<__VA_ARGS__>(#__VA_ARGS__, n)

int main(int argc, char** argv) {
    init(argc, argv);
    fancy_prefix() = P;
    lifetime_prefix() = P;
    long n = st().cases;
#ifdef RANGES
    TYPE(char);
    TYPE(std::int32_t);
    TYPE(std::string);
    TYPE(Swapped);
    cases("objects", n, [&](Rng& r, long) { objects<Obj<k_copy>>(r, "objects"); });
    cases("move only objects", n, [&](Rng& r, long) { objects<Obj<0>>(r, "move only objects"); });
    cases("coded objects", n, [&](Rng& r, long) {
        keyed<std::uint8_t>(r, "bytes");
        keyed<std::uint16_t>(r, "shorts");
        keyed<std::uint32_t>(r, "words");
        keyed<std::uint64_t>(r, "long words");
    });
    cases("text", n, [&](Rng& r, long) { text(r); });
#else
    TYPE(char);
    TYPE(std::uint8_t);
    TYPE(std::int16_t);
    TYPE(std::int32_t);
    TYPE(One);
    TYPE(Three);
#ifdef MORE
    TYPE(bool);
    TYPE(std::int8_t);
    TYPE(std::byte);
    TYPE(E8);
    TYPE(double);
    TYPE(Swapped);
    TYPE(std::int64_t);
    TYPE(int*);
    TYPE(Sixteen);
#endif
#endif
    return finish();
}
