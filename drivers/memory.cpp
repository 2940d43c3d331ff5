// Bit and conversion utilities (C38), uninitialized and destroy algorithms (C39), AlignedData (C40).
#include "../harness/track.hpp"
#include <array>
#include <cstdint>
#include <forward_list>
#include <limits>
#include <list>
#include <memory>
#include <span>
#include <string>
#include <type_traits>
#include <utility>
#ifndef PART
#define PART 38
#endif
#if PART == 38
#include <xme/core/bit/has_single_bit.hpp>
#include <xme/core/utility/forward_like.hpp>
#include <xme/core/utility/to_unsigned.hpp>
#elif PART == 39
#include <xme/ranges/destroy.hpp>
#include <xme/ranges/uninitialized.hpp>
#else
#include <xme/container/aligned_data.hpp>
#endif
using namespace mon;

#if PART == 38
#define P "C38:"
template<typename T>
void single_bit(T n) {
    int bits = 0;
    for(size_t i = 0; i < sizeof(T) * 8; ++i) bits += (int)((n >> i) & 1);
    const bool got = xme::has_single_bit(n);
    MON_CHECK(got == (bits == 1), P "single-bit", "has_single_bit of a %zu byte value with the low half %llu is %d", sizeof(T), (unsigned long long)n, (int)got);
}
template<typename T>
void single_bits(Rng& r, long n) {
    constexpr int width = sizeof(T) * 8;
    if constexpr(sizeof(T) <= 2) {
        for(std::uint32_t v = 0; v <= (std::uint32_t)std::numeric_limits<T>::max(); ++v) single_bit<T>((T)v);
        judged(std::numeric_limits<T>::max() + 1l);
        seen(sizeof(T));
        return;
    }
    else {
        single_bit<T>(0);
        single_bit<T>((T)~T(0));
        for(int i = 0; i < width; ++i) {
            const T p = T(1) << i;
            for(int d = -2; d <= 2; ++d) single_bit<T>(T(p + (T)d));
            for(int j = 0; j < width; ++j) single_bit<T>(p | T(1) << j);
            single_bit<T>((T)~p);
            seen(hash2(sizeof(T), i));
        }
        judged(width * width);
        for(long i = 0; i < n; ++i) {
            T v = (T)r.next();
            if constexpr(sizeof(T) > 8) v = v << 64 | r.next();
            for(long k = r.range(0, 4); k > 0; --k) v &= (T)r.next();
            single_bit<T>(v);
        }
        judged(n);
    }
}
template<typename T>
void one_unsigned(T v, const char* name) {
    const auto got = xme::to_unsigned(v);
    using U        = std::remove_const_t<decltype(got)>;
    static_assert(sizeof(U) == sizeof(T) && U(-1) > U(0), "to_unsigned gives an unsigned type of the same size");
    // the value modulo 2^bits
    bool ok;
    if constexpr(std::is_enum_v<T>) ok = std::is_same_v<U, std::make_unsigned_t<T>> && got == (U)v;
    else {
        const bool negative = v < T(0);
        // two's complement: v + 2^bits
        const U magnitude = negative ? (U)(U(-(v + 1)) + U(1)) : (U)v;
        ok                = negative ? (U)(got + magnitude) == U(0) && got != U(0) : got == magnitude;
        for(size_t i = 0; i < sizeof(T) * 8; ++i) ok &= ((got >> i) & 1) == (U)((v >> i) & 1);
    }
    MON_CHECK(ok, P "to-unsigned", "to_unsigned of the %s %lld is %llu", name, (long long)v, (unsigned long long)got);
}
template<typename T>
void to_unsigneds(Rng& r, const char* name, long n) {
    static_assert(std::is_same_v<decltype(xme::to_unsigned(T())), std::make_unsigned_t<T>>);
    if constexpr(sizeof(T) <= 2) {
        for(long v = std::numeric_limits<T>::min(); v <= (long)std::numeric_limits<T>::max(); ++v) one_unsigned<T>((T)v, name);
        judged(65536);
    }
    else {
        for(int i = 0; i < (int)sizeof(T) * 8; ++i)
            for(int d = -2; d <= 2; ++d) {
                one_unsigned<T>((T)((std::uint64_t(1) << i) + (std::uint64_t)d), name);
                one_unsigned<T>((T)(-(std::uint64_t(1) << i) + (std::uint64_t)d), name);
            }
        for(T v: {std::numeric_limits<T>::min(), std::numeric_limits<T>::max(), T(0)}) one_unsigned<T>(v, name);
        for(long i = 0; i < n; ++i) one_unsigned<T>((T)(r.next() >> r.below(64)), name);
        judged(n + 600);
    }
    seen(hash_str(name));
}
enum class Small : signed char { a = -3, b = 100 };
enum Plain_enum : int { plain_a = -70000, plain_b = 5 };

struct Thing {
    int v = 0;
};
template<typename Like, typename V, typename Want>
void forwarded(V&& v, const char* like, const char* value) {
    decltype(auto) got = xme::forward_like<Like>(std::forward<V>(v));
    judged();
    MON_CHECK((std::is_same_v<decltype(xme::forward_like<Like>(std::forward<V>(v))), Want>), P "forward-type", "forward_like<%s> of a %s has a different type or category", like, value);
    MON_CHECK(std::addressof(got) == std::addressof(v), P "forward-address", "forward_like<%s> of a %s refers to a different object", like, value);
    seen(hash2(hash_str(like), hash_str(value)));
}
template<typename T>
void forward_all() {
    T v{};
    const T c{};
#define LVALUE(L, expr, want) forwarded<L, decltype((expr)), want>(expr, #L, #expr);
#define RVALUE(L, type, want) forwarded<L, type, want>(static_cast<type&&>(*(type*)&v), #L, "rvalue " #type);
    // a lvalue of T, then of const T, then rvalues
    LVALUE(int, v, T&&)
    LVALUE(int&, v, T&)
    LVALUE(int&&, v, T&&)
    LVALUE(const int, v, const T&&)
    LVALUE(const int&, v, const T&)
    LVALUE(const int&&, v, const T&&)
    LVALUE(int, c, const T&&)
    LVALUE(int&, c, const T&)
    LVALUE(int&&, c, const T&&)
    LVALUE(const int, c, const T&&)
    LVALUE(const int&, c, const T&)
    LVALUE(const int&&, c, const T&&)
    LVALUE(Thing, v, T&&)
    LVALUE(Thing&, v, T&)
    LVALUE(const Thing&, v, const T&)
    LVALUE(const Thing&&, v, const T&&)
    RVALUE(int, T, T&&)
    RVALUE(int&, T, T&)
    RVALUE(int&&, T, T&&)
    RVALUE(const int, T, const T&&)
    RVALUE(const int&&, T, const T&&)
    RVALUE(int, const T, const T&&)
    RVALUE(int&, const T, const T&)
    RVALUE(const int&&, const T, const T&&)
#undef LVALUE
#undef RVALUE
}
static_assert(xme::has_single_bit(64u) && !xme::has_single_bit(0u) && !xme::has_single_bit(96ull));
static_assert(xme::to_unsigned(-1) == 0xffffffffu && xme::to_unsigned((signed char)-1) == 255);

int main(int argc, char** argv) {
    init(argc, argv);
    const long n = st().cases;
    cases("single bit, small", 1, [n](Rng& r, long) {
        single_bits<unsigned char>(r, n);
        single_bits<unsigned short>(r, n);
        single_bits<char16_t>(r, n);
        single_bits<char8_t>(r, n);
        MON_CHECK(xme::has_single_bit(true) && !xme::has_single_bit(false), P "single-bit", "has_single_bit of a bool");
    });
    cases("single bit", 20, [n](Rng& r, long) {
        single_bits<unsigned>(r, n);
        single_bits<unsigned long>(r, n);
        single_bits<unsigned long long>(r, n);
        single_bits<char32_t>(r, n);
#if !defined(__STRICT_ANSI__)
        single_bits<unsigned __int128>(r, n);
#endif
    });
    if(n >= 100000)  // as many as the type has
        cases("single bit, every 32 bit value", 256, [](Rng&, long i) {
            for(std::uint64_t v = (std::uint64_t)i << 24, e = (std::uint64_t)(i + 1) << 24; v < e; ++v) {
                const std::uint32_t x = (std::uint32_t)v;
                if(xme::has_single_bit(x) != (__builtin_popcount(x) == 1)) {
                    single_bit(x);
                    return;
                }
            }
            judged(1 << 24);
            seen(i);
        });
    cases("to unsigned, small", 1, [n](Rng& r, long) {
        to_unsigneds<signed char>(r, "signed char", n);
        to_unsigneds<char>(r, "char", n);
        to_unsigneds<unsigned char>(r, "unsigned char", n);
        to_unsigneds<short>(r, "short", n);
        to_unsigneds<unsigned short>(r, "unsigned short", n);
        to_unsigneds<char16_t>(r, "char16_t", n);
        to_unsigneds<char8_t>(r, "char8_t", n);
        one_unsigned(Small::a, "enumeration");
        one_unsigned(Small::b, "enumeration");
        one_unsigned(plain_a, "enumeration");
        one_unsigned(plain_b, "enumeration");
    });
    cases("to unsigned", 20, [n](Rng& r, long) {
        to_unsigneds<int>(r, "int", n);
        to_unsigneds<unsigned>(r, "unsigned", n);
        to_unsigneds<long>(r, "long", n);
        to_unsigneds<unsigned long>(r, "unsigned long", n);
        to_unsigneds<long long>(r, "long long", n);
        to_unsigneds<unsigned long long>(r, "unsigned long long", n);
        to_unsigneds<wchar_t>(r, "wchar_t", n);
        to_unsigneds<char32_t>(r, "char32_t", n);
#if !defined(__STRICT_ANSI__)
        const __int128 big = (__int128)r.next() << 64 | r.next();
        one_unsigned<__int128>(big, "__int128");
        one_unsigned<unsigned __int128>((unsigned __int128)big, "unsigned __int128");
#endif
    });
    cases("forward like", 1, [](Rng&, long) {
        forward_all<int>();
        forward_all<std::string>();
        forward_all<Thing>();
        forward_all<std::unique_ptr<int>>();
    });
    return finish();
}

#elif PART == 39
#define P "C39:"
// The constructions and destructions asked of an allocator.
struct Log {
    std::vector<const void*> built, torn;
    void clear() {
        built.clear();
        torn.clear();
    }
};
static Log lg;
template<typename T, bool Hooks>
struct Recorder {
    using value_type = T;
    Recorder()       = default;
    template<typename U>
    Recorder(const Recorder<U, Hooks>&) {}
    T* allocate(size_t n) { return std::allocator<T>().allocate(n); }
    void deallocate(T* p, size_t n) { std::allocator<T>().deallocate(p, n); }
    template<typename U, typename... A>
    void construct(U* p, A&&... a)
        requires Hooks
    {
        lg.built.push_back(p);
        ::new((void*)p) U(std::forward<A>(a)...);
    }
    template<typename U>
    void destroy(U* p)
        requires Hooks
    {
        lg.torn.push_back(p);
        p->~U();
    }
    bool operator==(const Recorder&) const = default;
};
// Storage for n elements, with room before and after that must stay as it is.
template<typename T>
struct Room {
    static constexpr size_t margin = 2;
    size_t n;
    std::vector<unsigned char> bytes;
    unsigned char* base;
    explicit Room(size_t n) : n(n), bytes((n + 2 * margin) * sizeof(T) + alignof(T), 0xA5) {
        base = bytes.data();
        base += (alignof(T) - (std::uintptr_t)base % alignof(T)) % alignof(T);
    }
    T* begin() { return (T*)(base + margin * sizeof(T)); }
    T* end() { return begin() + n; }
    // elements [from, n) and the margins are as before
    bool untouched(size_t from) {
        for(unsigned char* p = bytes.data(); p < (unsigned char*)begin(); ++p)
            if(*p != 0xA5) return false;
        for(unsigned char* p = (unsigned char*)(begin() + from); p < bytes.data() + bytes.size(); ++p)
            if(*p != 0xA5) return false;
        return true;
    }
};
// A forward only iterator over storage
template<typename T>
struct Forward {
    using value_type        = T;
    using difference_type   = std::ptrdiff_t;
    using reference         = T&;
    using pointer           = T*;
    using iterator_category = std::forward_iterator_tag;
    T* p                    = nullptr;
    T& operator*() const { return *p; }
    Forward& operator++() {
        ++p;
        return *this;
    }
    Forward operator++(int) {
        Forward o = *this;
        ++p;
        return o;
    }
    bool operator==(const Forward&) const = default;
};
template<typename T>
struct Bound {  // a sentinel of a different type
    T* p = nullptr;
    friend bool operator==(const Forward<T>& i, const Bound& b) { return i.p == b.p; }
};
template<typename T>
T* at(T* p) { return p; }
template<typename T>
T* at(const Forward<T>& p) { return p.p; }

enum { throw_never = -1 };
template<typename T>
bool throws_injected(long k, auto&& f) {
    tr().arm(k, -1);
    bool thrown = false;
    try {
        f();
    } catch(const Injected&) {
        thrown = true;
    }
    const bool fired = tr().fired;
    tr().disarm();
    MON_CHECK(thrown == fired, P "exception", "an exception of a constructor %s", fired ? "doesn't reach the caller" : "appears from nowhere");
    return thrown;
}
// Which constructions the allocator saw, and what is alive afterwards.
template<typename T, bool Hooks>
void judge(Room<T>& room, const std::vector<int>& want, bool thrown, long k, const char* what) {
    Log l = lg;
    judged();
    size_t alive = 0;
    for(size_t i = 0; i < room.n; ++i) alive += tr().alive(room.begin() + i);
    if(thrown) {
        MON_CHECK(alive == 0, P "rollback", "%s: %zu of %zu elements are alive after constructor %ld threw", what, alive, want.size(), k);
        if constexpr(Hooks) {
            MON_CHECK(l.built.size() == (size_t)k + 1, P "allocator", "%s: %zu constructions through the allocator until constructor %ld threw", what, l.built.size(), k);
            MON_CHECK(l.torn.size() == (size_t)k, P "rollback-allocator", "%s: %zu destructions through the allocator after constructor %ld threw", what, l.torn.size(), k);
        }
    }
    else {
        MON_CHECK(alive == want.size(), P "count", "%s: %zu elements are alive instead of %zu", what, alive, want.size());
        for(size_t i = 0; i < want.size(); ++i) {
            if(!tr().alive(room.begin() + i)) {
                MON_CHECK(false, P "count", "%s: element %zu isn't alive", what, i);
                continue;
            }
            MON_CHECK(val(room.begin()[i]) == want[i], P "value", "%s: element %zu is %d instead of %d", what, i, room.begin()[i].v, want[i]);
        }
        if constexpr(Hooks) {
            MON_CHECK(l.built.size() == want.size() && l.torn.empty(), P "allocator", "%s: %zu constructions and %zu destructions through the allocator for %zu elements", what, l.built.size(), l.torn.size(), want.size());
        }
        MON_CHECK(room.untouched(want.size()), P "outside", "%s: memory outside of the %zu elements was written", what, want.size());
    }
    if constexpr(Hooks)
        for(size_t i = 0; i < l.built.size(); ++i) MON_CHECK(l.built[i] == room.begin() + i, P "order", "%s: construction %zu isn't at element %zu", what, i, i);
}
template<typename T, bool Hooks>
void tear(Rng& r, Room<T>& room, size_t n, const char* what) {
    // destroys [a, b) of the elements, then the rest
    if(!n && r.chance(50)) return;
    const size_t a = r.below(n + 1), b = a + r.below(n - a + 1);
    auto destroy = [&](size_t from, size_t to) {
        Recorder<T, Hooks> alloc;
        T* p = room.begin() + from;
        const size_t count = to - from;
        const char* how    = "";
        lg.clear();
        const long before = tr().dtors;
        switch(r.below(7)) {
        case 0: how = "destroy_a"; xme::ranges::destroy_a(p, p + count, alloc); break;
        case 1: how = "destroy_a of a range"; xme::ranges::destroy_a(std::span<T>(p, count), alloc); break;
        case 2: how = "destroy_a, forward"; xme::ranges::destroy_a(Forward<T>{p}, Bound<T>{p + count}, alloc); break;
        case 3: how = "destroy_n_a"; xme::ranges::destroy_n_a(p, count, alloc); break;
        case 4: how = "destroy_n_a, forward"; xme::ranges::destroy_n_a(Forward<T>{p}, count, alloc); break;
        case 5:
            how = "destroy_at_a";
            for(size_t i = 0; i < count; ++i) xme::ranges::destroy_at_a(p + i, alloc);
            break;
        default:
            how = "destroy_at_a of an array";
            if(count == 3) xme::ranges::destroy_at_a((T(*)[3])p, alloc);
            else if(count == 1) xme::ranges::destroy_at_a((T(*)[1])p, alloc);
            else xme::ranges::destroy_a(p, p + count, alloc);
        }
        judged();
        note("%s [%zu, %zu)\n", how, from, to);
        MON_CHECK(tr().dtors - before == (long)count, P "destroy", "%s of %zu elements destroys %ld", how, count, tr().dtors - before);
        if constexpr(Hooks) MON_CHECK(lg.torn.size() == count && lg.built.empty(), P "destroy-allocator", "%s of %zu elements makes %zu destructions through the allocator", how, count, lg.torn.size());
        for(size_t i = from; i < to; ++i) MON_CHECK(!tr().alive(room.begin() + i), P "destroy", "%s: element %zu is still alive", how, i);
        for(size_t i = 0; i < n; ++i)
            if(tr().alive(room.begin() + i)) val(room.begin()[i]);
        seen(hash2(hash_str(how), hash2(count, from)));
    };
    destroy(a, b);
    size_t alive = 0;
    for(size_t i = 0; i < n; ++i) alive += tr().alive(room.begin() + i);
    MON_CHECK(alive == n - (b - a), P "destroy", "%zu of %zu elements are alive after destroying %zu (%s)", alive, n, b - a, what);
    if(alive != n - (b - a)) return;
    destroy(0, a);
    destroy(b, n);
}
template<typename T, bool Hooks>
void copies(Rng& r) {
    const size_t in = r.below(9), out = r.below(9), n = std::min(in, out);
    std::vector<int> values;
    for(size_t i = 0; i < in; ++i) values.push_back((int)r.range(1, 1000));
    std::vector<int> want(values.begin(), values.begin() + n);
    Room<T> room(out);
    Recorder<T, Hooks> alloc;
    const long k = r.chance(40) ? (long)r.below(9) : throw_never;
    lg.clear();
    std::vector<T> src;
    src.reserve(in);
    for(int v: values) src.push_back(T(v));
    const char* what = "";
    const int kind   = (int)r.below(7);
    note("copy of %zu into %zu, kind %d, throw at %ld\n", in, out, kind, k);
    size_t read = 0, written = 0;
    T* b = room.begin();
    T* e = room.end();
    bool thrown = false;
    if(kind == 0) {
        what   = "uninitialized_copy_a of pointers";
        thrown = throws_injected<T>(k, [&] {
            auto res = xme::ranges::uninitialized_copy_a(src.data(), src.data() + in, b, e, alloc);
            read     = res.first - src.data();
            written  = res.second - b;
        });
    }
    else if(kind == 1) {
        what   = "uninitialized_copy_a of constant elements";
        thrown = throws_injected<T>(k, [&] {
            auto res = xme::ranges::uninitialized_copy_a(src.cbegin(), src.cend(), Forward<T>{b}, Bound<T>{e}, alloc);
            read     = res.first - src.cbegin();
            written  = at(res.second) - b;
        });
    }
    else if(kind == 2) {
        std::forward_list<T> list(src.begin(), src.end());
        what   = "uninitialized_copy_a of a forward_list";
        thrown = throws_injected<T>(k, [&] {
            auto res = xme::ranges::uninitialized_copy_a(list.begin(), list.end(), b, e, alloc);
            read     = std::distance(list.begin(), res.first);
            written  = res.second - b;
        });
        size_t i = 0;
        for(const T& t: list) MON_CHECK(val(t) == values[i++], P "source", "%s: the source changed", what);
    }
    else if(kind == 3) {
        what = "uninitialized_copy_a of ranges";
        std::span<T> target(b, out);
        thrown = throws_injected<T>(k, [&] {
            auto res = xme::ranges::uninitialized_copy_a(src, target, alloc);
            read     = res.first - src.begin();
            written  = res.second - target.begin();
        });
    }
    else if(kind == 4) {
        std::list<T> list(src.begin(), src.end());
        what   = "uninitialized_copy_a of a list";
        thrown = throws_injected<T>(k, [&] {
            auto res = xme::ranges::uninitialized_copy_a(std::as_const(list), std::span<T>(b, out), alloc);
            read     = std::distance(list.cbegin(), res.first);
            written  = std::addressof(*res.second) - b;
        });
    }
    else if(kind == 5) {  // elements made from something else
        what   = "uninitialized_copy_a of other values";
        thrown = throws_injected<T>(k, [&] {
            auto res = xme::ranges::uninitialized_copy_a(values.begin(), values.end(), b, e, alloc);
            read     = res.first - values.begin();
            written  = res.second - b;
        });
    }
    else {  // moved from a move iterator's range of pointers
        what   = "uninitialized_copy_a of a part";
        const size_t skip = in ? r.below(in) : 0;
        want.assign(values.begin() + skip, values.begin() + skip + std::min(in - skip, out));
        thrown = throws_injected<T>(k, [&] {
            auto res = xme::ranges::uninitialized_copy_a(src.begin() + skip, src.end(), b, e, alloc);
            read     = res.first - src.begin() - skip;
            written  = res.second - b;
        });
    }
    judge<T, Hooks>(room, want, thrown, k, what);
    if(!thrown) MON_CHECK(read == want.size() && written == want.size(), P "ends", "%s: the ends returned are %zu and %zu after %zu elements", what, read, written, want.size());
    for(size_t i = 0; i < in; ++i) MON_CHECK(val(src[i]) == values[i], P "source", "%s: element %zu of the source changed", what, i);
    seen(hash2(hash_str(what), hash2(in * 16 + out, k + 1)));
    if(!thrown && st().violations.empty()) tear<T, Hooks>(r, room, want.size(), what);
}
template<typename T, bool Hooks>
void moves(Rng& r) {
    const size_t n = r.below(9);
    std::vector<int> values;
    std::vector<T> src;
    src.reserve(n);
    for(size_t i = 0; i < n; ++i) {
        values.push_back((int)r.range(1, 1000));
        src.emplace_back(values.back());
    }
    Room<T> room(n + r.below(3));
    Recorder<T, Hooks> alloc;
    const long k = r.chance(40) ? (long)r.below(9) : throw_never;
    note("move of %zu, throw at %ld\n", n, k);
    lg.clear();
    const char* what  = "uninitialized_move_a";
    size_t written    = 0;
    const long copied = tr().copies;
    bool thrown;
    if(r.chance(50))
        thrown = throws_injected<T>(k, [&] { written = xme::ranges::uninitialized_move_a(src.begin(), src.end(), room.begin(), alloc) - room.begin(); });
    else {
        what   = "uninitialized_move_a, forward";
        thrown = throws_injected<T>(k, [&] { written = at(xme::ranges::uninitialized_move_a(Forward<T>{src.data()}, Bound<T>{src.data() + n}, Forward<T>{room.begin()}, alloc)) - room.begin(); });
    }
    judge<T, Hooks>(room, values, thrown, k, what);
    MON_CHECK(tr().copies == copied, P "moved", "%s: elements were copied", what);
    for(size_t i = 0; i < n; ++i) MON_CHECK(tr().alive(std::addressof(src[i])), P "moved", "%s: element %zu of the source isn't alive any more", what, i);
    if(!thrown) {
        MON_CHECK(written == n, P "ends", "%s: the end returned is %zu after %zu elements", what, written, n);
        for(size_t i = 0; i < n; ++i) MON_CHECK(src[i].v == moved_from, P "moved", "%s: element %zu wasn't moved", what, i);
        if(st().violations.empty()) tear<T, Hooks>(r, room, n, what);
    }
    seen(hash2(hash_str(what), hash2(n, k + 1)));
}
template<typename T, bool Hooks>
void fills(Rng& r) {
    const size_t n = r.below(9);
    const int v    = (int)r.range(1, 1000);
    T value(v);
    Room<T> room(n + r.below(3));
    Recorder<T, Hooks> alloc;
    const long k = r.chance(40) ? (long)r.below(9) : throw_never;
    note("fill of %zu, throw at %ld\n", n, k);
    lg.clear();
    const char* what = "uninitialized_fill_n_a";
    size_t written   = 0;
    bool thrown;
    if(r.chance(50)) thrown = throws_injected<T>(k, [&] { written = xme::ranges::uninitialized_fill_n_a(room.begin(), n, value, alloc) - room.begin(); });
    else {
        what   = "uninitialized_fill_n_a, forward";
        thrown = throws_injected<T>(k, [&] { written = at(xme::ranges::uninitialized_fill_n_a(Forward<T>{room.begin()}, n, std::as_const(value), alloc)) - room.begin(); });
    }
    judge<T, Hooks>(room, std::vector<int>(n, v), thrown, k, what);
    MON_CHECK(val(value) == v, P "source", "%s: the value changed", what);
    if(!thrown) {
        MON_CHECK(written == n, P "ends", "%s: the end returned is %zu after %zu elements", what, written, n);
        if(st().violations.empty()) tear<T, Hooks>(r, room, n, what);
    }
    seen(hash2(hash_str(what), hash2(n, k + 1)));
}
// Trivial elements: the values, and the memory around them.
template<typename T>
void trivial(Rng& r) {
    const size_t in = r.below(40), out = r.below(40), n = std::min(in, out);
    std::vector<T> src;
    for(size_t i = 0; i < in; ++i) src.push_back(T(r.range(-100, 100)));
    const auto before = src;
    Room<T> room(out);
    std::allocator<T> alloc;
    auto res = xme::ranges::uninitialized_copy_a(src.begin(), src.end(), room.begin(), room.end(), alloc);
    judged();
    MON_CHECK(res.first == src.begin() + n && res.second == room.begin() + n, P "ends", "ends of %zu trivial elements", n);
    for(size_t i = 0; i < n; ++i) MON_CHECK(room.begin()[i] == src[i], P "value", "trivial element %zu", i);
    MON_CHECK(room.untouched(n) && src == before, P "outside", "memory outside of %zu trivial elements was written", n);
    xme::ranges::destroy_a(room.begin(), room.begin() + n, alloc);
    Room<T> filled(out);
    MON_CHECK(xme::ranges::uninitialized_fill_n_a(filled.begin(), n, T(77), alloc) == filled.begin() + n, P "ends", "end of %zu trivial elements", n);
    for(size_t i = 0; i < n; ++i) MON_CHECK(filled.begin()[i] == T(77), P "value", "filled trivial element %zu", i);
    MON_CHECK(filled.untouched(n), P "outside", "memory outside of %zu trivial elements was written", n);
    Room<T> moved(in);
    MON_CHECK(xme::ranges::uninitialized_move_a(src.begin(), src.end(), moved.begin(), alloc) == moved.end(), P "ends", "end of %zu moved trivial elements", in);
    for(size_t i = 0; i < in; ++i) MON_CHECK(moved.begin()[i] == before[i], P "value", "moved trivial element %zu", i);
    MON_CHECK(moved.untouched(in), P "outside", "memory outside of %zu trivial elements was written", in);
    xme::ranges::destroy_n_a(moved.begin(), in, alloc);
    seen(hash2(in, hash2(out, sizeof(T))));
}
// arrays of arrays
template<bool Hooks>
void nested() {
    using T = Obj<k_copy>;
    Recorder<T, Hooks> alloc;
    Room<T> room(6);
    xme::ranges::uninitialized_fill_n_a(room.begin(), 6, T(5), alloc);
    const long before = tr().dtors;
    auto* grid        = (T(*)[2][3])room.begin();
    if constexpr(!Hooks) xme::ranges::destroy_at_a(grid, alloc);
    else {
        xme::ranges::destroy_at_a(&(*grid)[0], alloc);
        xme::ranges::destroy_at_a(&(*grid)[1], alloc);
    }
    judged();
    MON_CHECK(tr().dtors - before == 6, P "destroy", "destroying a 2 by 3 array destroys %ld elements", tr().dtors - before);
    for(size_t i = 0; i < 6; ++i) MON_CHECK(!tr().alive(room.begin() + i), P "destroy", "element %zu of a 2 by 3 array is still alive", i);
}
template<typename T>
void type(const char* name, long n) {
    auto run = [&]<bool Hooks>(std::bool_constant<Hooks>, const char* with) {
        const std::string g = std::string(name) + with;
        cases(g.c_str(), n, [](Rng& r, long) {
            lifetime_prefix() = P;
            tr().reset();
            if constexpr(std::is_copy_constructible_v<T>) {
                copies<T, Hooks>(r);
                fills<T, Hooks>(r);
            }
            moves<T, Hooks>(r);
            MON_CHECK(tr().live.empty(), P "leak", "%zu elements are alive at the end", tr().live.size());
        });
    };
    run(std::true_type(), ", recording allocator");
    run(std::false_type(), ", plain allocator");
}
int main(int argc, char** argv) {
    init(argc, argv);
    const long n = st().cases;
    type<Obj<k_copy | k_throw_all | k_throw_move>>("throwing", n);
    type<Obj<k_copy>>("plain", n);
    type<Obj<k_throw_move>>("move only", n);
    type<Obj<k_copy | k_throw_all | k_big | k_align>>("aligned", n);
    cases("trivial", n, [](Rng& r, long) {
        trivial<int>(r);
        trivial<char>(r);
        trivial<double>(r);
    });
    cases("arrays", 1, [](Rng&, long) {
        lifetime_prefix() = P;
        tr().reset();
        nested<true>();
        nested<false>();
        seen(6);
    });
    return finish();
}

#else
#define P "C40:"
using xme::AlignedData;
template<typename D, size_t Align, typename T>
void where(D& d, const char* place) {
    const auto a = (std::uintptr_t)d.address();
    const D& c   = d;
    judged();
    MON_CHECK((void*)d.data() == d.address() && (const void*)c.data() == c.address() && c.address() == d.address(), P "same", "%s: data() and address() differ", place);
    MON_CHECK(a % Align == 0, P "alignment", "%s: the storage of %zu bytes isn't aligned to %zu", place, sizeof(T), Align);
    const auto o = (std::uintptr_t)std::addressof(d);
    MON_CHECK(a >= o && a + sizeof(T) <= o + sizeof(D), P "inside", "%s: the storage isn't inside of the object", place);
    static_assert(std::is_same_v<decltype(d.data()), T*> && std::is_same_v<decltype(c.data()), const T*> && std::is_same_v<decltype(d.address()), void*> && std::is_same_v<decltype(c.address()), const void*>);
    static_assert(alignof(D) >= Align && sizeof(D) >= sizeof(T));
    seen(hash2(hash_str(place), hash2(Align, sizeof(T))));
}
template<typename D, typename T>
void scribble(D& d, int v) {
    memset(d.address(), v, sizeof(T));
}
template<typename D, typename T>
bool holds(const D& d, int v) {
    for(size_t i = 0; i < sizeof(T); ++i)
        if(((const unsigned char*)d.address())[i] != (unsigned char)v) return false;
    return true;
}
template<typename T, size_t Align>
void places(Rng& r) {
    using D = AlignedData<T, Align>;
    static D global;
    static thread_local D local_to_thread;
    note("%zu bytes aligned to %zu\n", sizeof(T), Align);
    volatile char shift[64];
    shift[r.below(64)] = 0;
    D automatic;
    where<D, Align, T>(automatic, "automatic");
    where<D, Align, T>(global, "static");
    where<D, Align, T>(local_to_thread, "thread local");
    auto heap = std::make_unique<D>();
    where<D, Align, T>(*heap, "heap");
    struct Member {
        char before;
        D d;
        char after;
        D e;
        char last;
    };
    Member m;
    where<D, Align, T>(m.d, "member");
    where<D, Align, T>(m.e, "second member");
    m.before = m.after = m.last = 0x11;
    scribble<D, T>(m.d, 0xEE);
    scribble<D, T>(m.e, 0x77);
    MON_CHECK(m.before == 0x11 && m.after == 0x11 && m.last == 0x11, P "neighbours", "writing the storage changes a neighbouring member");
    MON_CHECK((holds<D, T>(m.d, 0xEE) && holds<D, T>(m.e, 0x77)), P "neighbours", "two members share storage");
    struct Derived : D {
        char more = 0x22;
    } derived;
    scribble<D, T>(derived, 0xEE);
    where<D, Align, T>(static_cast<D&>(derived), "base");
    MON_CHECK(derived.more == 0x22, P "neighbours", "writing the storage changes a member of the derived class");
    const size_t n = r.range(2, 5);
    std::vector<D> many(n);
    D array[3];
    for(size_t i = 0; i < 3; ++i) {
        where<D, Align, T>(array[i], "array");
        scribble<D, T>(array[i], (int)i + 1);
    }
    for(size_t i = 0; i < n; ++i) {
        where<D, Align, T>(many[i], "vector");
        scribble<D, T>(many[i], (int)i + 1);
    }
    for(size_t i = 0; i < 3; ++i) MON_CHECK((holds<D, T>(array[i], (int)i + 1)), P "neighbours", "elements of an array share storage");
    for(size_t i = 0; i < n; ++i) MON_CHECK((holds<D, T>(many[i], (int)i + 1)), P "neighbours", "elements of a vector share storage");
    // the bytes go along when it is copied
    const D copy = std::as_const(many[1]);
    MON_CHECK((holds<D, T>(copy, 2)), P "copy", "a copy holds other bytes");
    MON_CHECK(copy.address() != many[1].address(), P "copy", "a copy shares the storage");
    judged(5);
}
template<size_t N, size_t A>
struct alignas(A) Bytes {
    unsigned char b[N];
};
struct Built {
    int kind;
    int value;
    std::string text;
    Built() : kind(0), value(0) {}
    Built(int& v) : kind(1), value(v) { v = -v; }
    Built(const int& v) : kind(2), value(v) {}
    Built(int&& v) : kind(3), value(v) { v = 0; }
    Built(int a, std::string&& s) : kind(4), value(a), text(std::move(s)) {}
    Built(int a, const std::string& s) : kind(5), value(a), text(s) {}
    Built(std::unique_ptr<int> p, std::string& s, int) : kind(6), value(*p), text(s) { s = "taken"; }
};
template<size_t Align>
void construction(Rng& r) {
    using D       = AlignedData<Built, Align>;
    const int v   = (int)r.range(1, 1000);
    int lvalue    = v;
    auto release  = [](D& d) { std::destroy_at(d.data()); };
    auto is       = [&](D& d, int kind, const char* text, const char* what) {
        judged();
        MON_CHECK(d.data()->kind == kind && d.data()->value == v && d.data()->text == text, P "construct", "from %s: constructor %d with %d and '%s'", what, d.data()->kind, d.data()->value, d.data()->text.c_str());
        where<D, Align, Built>(d, "constructed");
        release(d);
    };
    {
        D d(lvalue);
        MON_CHECK(lvalue == -v, P "forward", "the lvalue passed isn't the one given");
        is(d, 1, "", "a lvalue");
    }
    {
        D d(std::as_const(v));
        is(d, 2, "", "a constant");
    }
    {
        int moved = v;
        D d(std::move(moved));
        MON_CHECK(moved == 0, P "forward", "the rvalue passed isn't the one given");
        is(d, 3, "", "a rvalue");
    }
    {
        std::string s = "some text that is too long for the small buffer";
        D d(v, s);
        MON_CHECK(s.size() == 47, P "forward", "the string passed changed");
        is(d, 5, "some text that is too long for the small buffer", "a number and a string");
        D e(v, std::move(s));
        MON_CHECK(s.empty(), P "forward", "the string wasn't moved");
        is(e, 4, "some text that is too long for the small buffer", "a number and a moved string");
        s = "lvalue";
        D f(std::make_unique<int>(v), s, 3);
        MON_CHECK(s == "taken", P "forward", "the string isn't the one given");
        is(f, 6, "lvalue", "a pointer, a string and a number");
    }
}
template<unsigned K>
void lifetime(Rng& r) {
    using T = Obj<K>;
    using D = AlignedData<T>;
    lifetime_prefix() = P;
    tr().reset();
    const long dtors = tr().dtors;
    const long ctors = tr().element_ops();
    {
        D empty;
        D array[4];
        auto heap = std::make_unique<D>();
        judged();
        MON_CHECK(tr().element_ops() == ctors && tr().live.empty(), P "default", "default construction constructs an element");
        const D copy = std::as_const(empty);
        (void)copy, (void)array;
    }
    MON_CHECK(tr().dtors == dtors, P "default", "the destruction of empty storage destroys an element");
    const int v = (int)r.range(1, 1000);
    if constexpr(K & k_throw_all) {
        T other(v);
        for(int from = 0; from < 2; ++from) {
            bool caught        = false;
            const size_t alive = tr().live.size();
            tr().arm(0, -1);
            try {
                if(from) D d(other);
                else D d(v);
            } catch(const Injected&) {
                caught = true;
            }
            tr().disarm();
            judged();
            MON_CHECK(caught && tr().live.size() == alive, P "exception", "an exception of the constructor %s, %zu elements alive instead of %zu", caught ? "reached the caller" : "was lost", tr().live.size(), alive);
        }
        MON_CHECK(val(other) == v, P "exception", "the source changed");
    }
    tr().reset();
    const long ctors2 = tr().element_ops(), dtors2 = tr().dtors;
    {
        alignas(D) unsigned char where_it_lives[sizeof(D)];
        D* d = new(where_it_lives) D(v);
        judged();
        MON_CHECK(tr().element_ops() == ctors2 + 1 && tr().live.size() == 1 && tr().alive(d->data()), P "construct", "construction from a value constructs %ld elements", tr().element_ops() - ctors2);
        if(tr().alive(d->data())) MON_CHECK(val(*d->data()) == v && val(*std::as_const(*d).data()) == v, P "construct", "the element constructed has the value %d", d->data()->v);
        d->~D();
        MON_CHECK(tr().dtors == dtors2 && tr().live.size() == 1, P "destroy", "the destruction of the storage destroys the element");
        if(tr().alive(d->data())) std::destroy_at(d->data());
    }
    {
        D d;
        std::construct_at(d.data(), v);
        MON_CHECK(tr().alive(d.data()) && val(*d.data()) == v, P "storage", "an element constructed in the storage");
        *d.data() = T(v + 1);
        MON_CHECK(val(*d.data()) == v + 1, P "storage", "an element assigned in the storage");
        std::destroy_at(d.data());
        std::construct_at((T*)d.address(), v + 2);
        MON_CHECK(val(*d.data()) == v + 2, P "storage", "a second element constructed in the storage");
        std::destroy_at(d.data());
    }
    {
        T source(v);
        D d(std::move(source));
        MON_CHECK(source.v == moved_from && val(*d.data()) == v, P "forward", "construction from a moved element");
        std::destroy_at(d.data());
    }
    judged(4);
    MON_CHECK(tr().live.empty(), P "leak", "%zu elements are alive at the end", tr().live.size());
    seen(K);
}
template<typename T, size_t... A>
void alignments(Rng& r) {
    (places<T, A>(r), ...);
}
int main(int argc, char** argv) {
    init(argc, argv);
    const long n = st().cases;
    cases("places", n, [](Rng& r, long) {
        alignments<char, 1, 2, 4, 8, 16, 32, 64, 128, 256, 1024>(r);
        alignments<int, 4, 8, 16, 64, 4096>(r);
        alignments<double, 8, 16, 32, 128>(r);
        alignments<Bytes<3, 1>, 1, 2, 4, 16>(r);
        alignments<Bytes<17, 1>, 1, 4, 32, 64>(r);
        alignments<Bytes<64, 64>, 64, 128, 512>(r);
        alignments<Bytes<100, 1>, 1, 8, 64>(r);
        alignments<void*, 8, 64>(r);
        alignments<Bytes<4096, 1>, 1, 4096>(r);
        alignments<bool, 1, 2, 64>(r);
        places<short, alignof(short)>(r);
        places<long double, alignof(long double)>(r);
    });
    cases("less than the object's own alignment", n, [](Rng& r, long) {
        alignments<double, 1, 2, 4>(r);
        alignments<Bytes<64, 64>, 8>(r);
    });
    cases("construction", n, [](Rng& r, long) {
        construction<alignof(Built)>(r);
        construction<64>(r);
        construction<512>(r);
    });
    cases("lifetime", n, [](Rng& r, long) {
        lifetime<k_copy | k_default>(r);
        lifetime<k_copy | k_default | k_throw_all>(r);
        lifetime<k_default>(r);
        lifetime<k_copy | k_big | k_align>(r);
    });
    return finish();
}
#endif
