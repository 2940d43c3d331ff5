// Containers of every kind of element, filled from every kind of source, next to the standard
// container of the same elements: Array (C01, and with an allocator that notes what is constructed
// and destroyed C02), Heap (C05), LinkedList (C07), SPSCQueue (C12), and what the algorithms for
// uninitialized storage make of the same sources (C39).
// Bytes, booleans, floats, pointers that change when converted, empty and huge classes, classes
// that can't be assigned or moved, that overload & and the comma, that take anything, ...
#include "../harness/mon.hpp"
#include <algorithm>
#include <cmath>
#include <complex>
#include <deque>
#include <forward_list>
#include <functional>
#include <list>
#include <map>
#include <memory>
#include <numeric>
#include <optional>
#include <ranges>
#include <set>
#include <span>
#include <string>
#include <vector>
#include <xme/container/array.hpp>
#include <xme/container/array_view.hpp>
#include <xme/container/heap.hpp>
#include <xme/container/linked_list.hpp>
#include <xme/container/pair.hpp>
#include <xme/container/spsc_queue.hpp>
#include <xme/container/tuple.hpp>

using namespace mon;

// --- The elements ------------------------------------------------------------------------------
enum class Letter : unsigned char {};
enum Plain : long {};
struct Three {
    unsigned char a, b, c;
};
struct Empty {
    static inline long alive = 0;
    Empty() { ++alive; }
    Empty(const Empty&) { ++alive; }
    Empty& operator=(const Empty&) = default;
    ~Empty() { --alive; }
};
struct Huge {
    int v[1200];
};
struct NoAssign {  // can't be assigned
    const int v;
    const std::string s;
    NoAssign(int x) : v(x), s(std::to_string(x)) {}
};
struct Amp {  // & and the comma don't do what they do
    int v;
    Amp(int x) : v(x) {}
    int operator&() const { return -1; }
    template<typename X>
    int operator,(const X&) const { return -2; }
    template<typename X>
    friend int operator,(const X&, const Amp&) { return -3; }
};
struct Virtual {
    long v;
    Virtual(long x) : v(x) {}
    Virtual(const Virtual&)            = default;
    Virtual& operator=(const Virtual&) = default;
    virtual ~Virtual() {}
    virtual long twice() const { return 2 * v; }
};
struct alignas(128) Wide {
    short v;
};
struct Twice {  // trivially copyable, as large as what it is made of, but another value
    int v;
    Twice(int x) : v(2 * x + 1) {}
};
struct Anything {  // takes anything, also itself by mutable reference
    int v;
    int how = 0;
    explicit Anything(int x) : v(x) {}
    Anything(const Anything& o) : v(o.v) {}
    Anything(Anything&& o) noexcept : v(o.v) {}
    template<typename X>
        requires(!std::is_same_v<std::remove_cvref_t<X>, Anything> && !std::is_same_v<X, int>)
    explicit Anything(X&&) : v(-1), how(9) {}
    Anything& operator=(const Anything&) = default;
};
struct Explicit {  // made of two numbers, explicitly
    int a, b;
    explicit Explicit(int x, int y) : a(x), b(y) {}
};
struct Aggregate {
    int a;
    std::string b;
};
struct Assigning {  // tells whether it was assigned or constructed from another
    int v;
    Assigning(int x) : v(x) {}
    Assigning(const Assigning& o) : v(o.v) {}
    Assigning& operator=(const Assigning& o) {
        v = o.v;
        return *this;
    }
    Assigning(Assigning&& o) noexcept : v(std::exchange(o.v, -5)) {}
    Assigning& operator=(Assigning&& o) noexcept {
        const int x = std::exchange(o.v, -6);  // self moves lose the value
        v           = x;
        if(&o == this) v = -7;
        return *this;
    }
};
struct Self {  // designates itself
    int v;
    const Self* me;
    Self(int x) : v(x), me(this) {}
    Self(const Self& o) : v(o.me == &o ? o.v : -8), me(this) {}
    Self& operator=(const Self& o) {
        v = me == this && o.me == &o ? o.v : -9;
        return *this;
    }
    ~Self() { me = nullptr; }
};
struct Fixed {  // can't be copied or moved
    int v;
    Fixed(int x) : v(x) {}
    Fixed(const Fixed&)            = delete;
    Fixed& operator=(const Fixed&) = delete;
};
struct First {
    int f = 1;
};
struct Second {
    int s = 2;
};
struct Both : First, Second {};
static Both objects[64];
static int cells[64];
struct Volatile {
    volatile int v;
    Volatile(int x) : v(x) {}
    Volatile(const Volatile& o) : v(o.v) {}
    Volatile& operator=(const Volatile& o) { v = (int)o.v; return *this; }
};
union Union {
    float f;
    unsigned u;
};
using Member = int First::*;
using Text   = std::string;

static long digits(const std::string& s) {
    long n = s.empty() ? -2 : 0;
    for(char c : s) n = n * 10 + (c - '0');
    return n;
}
template<typename T>
T make(int k);
#define MAKE(T, ...) template<> T make<T>(int k) { return __VA_ARGS__; }
#define CODE(T, ...) static long code(const T& e) { return (long)(__VA_ARGS__); }
#define KIND(T, M, C) MAKE(T, M) CODE(T, C)
KIND(bool, k & 1, e)
KIND(char, (char)k, e)
KIND(unsigned short, (unsigned short)(k * 257), e)
KIND(int, k * 65537, e)
KIND(unsigned long, (unsigned long)k * 0x100000001ull, e)
KIND(float, k % 11 ? (float)k * 0.25f : -0.f, e * 4 + (std::signbit(e) ? 7000 : 0))
KIND(double, k % 11 ? (double)k * 0.25 : -0., e * 4 + (std::signbit(e) ? 7000 : 0))
KIND(long double, k % 11 ? (long double)k * 0.125L : -0.L, e * 8 + (std::signbit(e) ? 7000 : 0))
KIND(__int128, (__int128)k << 60, e >> 60)
KIND(std::byte, (std::byte)k, e)
KIND(Letter, (Letter)k, e)
KIND(Plain, (Plain)k, e)
KIND(Three, (Three{(unsigned char)k, (unsigned char)(k + 1), (unsigned char)(k / 3)}), e.a + (e.b == (unsigned char)(e.a + 1) ? 0 : 100000) + e.c * 1000)
KIND(int*, cells + k % 64, e - cells)
KIND(Second*, objects + k % 64, static_cast<const Both*>(e) - objects)
KIND(Member, k % 3 ? &First::f : nullptr, e == nullptr)
KIND(Huge, ([&] { Huge h; for(int j = 0; j < 1200; ++j) h.v[j] = k + j; return h; }()), e.v[0] * 3 + (e.v[1199] - e.v[0] - 1199) * 100000 + (e.v[600] - e.v[0] - 600) * 7000)
KIND(NoAssign, NoAssign(k), e.s == std::to_string(e.v) ? e.v : -1)
KIND(Amp, Amp(k), e.v)
KIND(Virtual, Virtual(k), e.twice() + (e.v << 20))
KIND(Wide, Wide{(short)k}, e.v + ((std::uintptr_t)std::addressof(e) % 128 ? 1000000 : 0))
KIND(Twice, Twice(k), e.v)
KIND(Anything, Anything(k), e.v + 100000 * e.how)
KIND(Explicit, Explicit(k, k + 1), e.a * 1000 + e.b)
KIND(Aggregate, (Aggregate{k, std::to_string(k)}), e.b == std::to_string(e.a) ? e.a : -1)
KIND(Assigning, Assigning(k), e.v)
KIND(Self, Self(k), e.me == &e ? e.v : -10)
KIND(Volatile, Volatile(k), e.v)
KIND(Union, (Union{.u = (unsigned)k * 77}), e.u)
KIND(Text, std::string((size_t)(k % 40), 'a' + k % 26), e.size() * 100 + (e.empty() ? 0 : e.back()))
KIND(std::unique_ptr<int>, std::make_unique<int>(k), e ? *e : -1)
KIND(std::shared_ptr<int>, std::make_shared<int>(k), e ? *e : -1)
KIND(std::vector<int>, std::vector<int>((size_t)(k % 5), k), e.size() * 1000 + (e.empty() ? 0 : e[0]))
KIND(xme::Array<int>, xme::Array<int>((size_t)(k % 5), k), e.size() * 1000 + (e.empty() ? 0 : e[0]))
KIND(std::optional<Text>, k % 3 ? std::optional<Text>(std::to_string(k)) : std::nullopt, e ? digits(*e) : -1)
KIND(std::string_view, std::string_view("abcdefghijklmnopqrstuvwxyz").substr((size_t)(k % 26)), e.size())
KIND(std::complex<float>, std::complex<float>((float)k, (float)-k), e.real() - 1000 * e.imag())
using PairII  = std::pair<const int, Text>;
using XPair   = xme::Pair<char, Text>;
using XTuple  = xme::Tuple<Text, Empty, double>;
using Func    = std::function<int()>;
KIND(PairII, PairII(k, std::to_string(k)), e.second == std::to_string(e.first) ? e.first : -1)
KIND(XPair, XPair((char)k, std::to_string(k)), digits(e.second) * 256 + (unsigned char)e.first)
KIND(XTuple, (XTuple{std::to_string(k), Empty{}, k * 0.5}), digits(get<0>(e)) * 1000 + get<2>(e) * 2)
KIND(Func, [k] { return k; }, e ? e() : -1)
KIND(Fixed, 0, e.v)
static long code(const Empty&) { return 5; }
template<>
Empty make<Empty>(int) { return {}; }

// --- Comparing ---------------------------------------------------------------------------------
template<typename X, typename Y>
bool alike(const X& x, const Y& y, const char* op, const char* kind) {
    judged();
    auto i = std::ranges::begin(x);
    auto j = std::ranges::begin(y);
    long k = 0;
    for(; i != std::ranges::end(x) && j != std::ranges::end(y); ++i, (void)++j, ++k)
        if(code(*i) != code(*j)) {
            violation("kinds:content", fmt("%s of %s: element %ld is %ld instead of %ld", op, kind, k, code(*i), code(*j)));
            return false;
        }
    if(i != std::ranges::end(x) || j != std::ranges::end(y)) {
        violation("kinds:content", fmt("%s of %s: the lengths differ after %ld elements", op, kind, k));
        return false;
    }
    seen(hash2(hash_str(op), hash2(hash_str(kind), (u64)k)));
    return true;
}

// --- The sources -------------------------------------------------------------------------------
template<typename T>
constexpr bool number = std::is_arithmetic_v<T> && !std::is_same_v<T, bool>;
// Calls f with a source of up to 9 elements, which is read twice
template<typename T, typename F>
void sources(Rng& r, F&& f) {
    const int n = (int)r.below(10);
    std::vector<int> ks;
    for(int k = 0; k < n; ++k) ks.push_back((int)r.below(120));
    auto copies = [&](auto c) {
        if constexpr(requires { c.push_back(make<T>(1)); })
            for(int k : ks) c.push_back(make<T>(k));
        else
            for(int k : ks) c.push_front(make<T>(k));
        f(c);
    };
    switch(r.below(16)) {
    case 0: copies(std::vector<T>()); break;
    case 1: copies(std::list<T>()); break;
    case 2: copies(std::forward_list<T>()); break;
    case 3: copies(std::deque<T>()); break;
    case 4: {
        xme::Array<T> c;
        for(int k : ks) c.push_back(make<T>(k));
        f(c);
        f(std::as_const(c));
        xme::ArrayView<T> v(c);
        f(v);
        f(std::as_const(v));
        break;
    }
    case 5: {
        xme::LinkedList<T> c;
        for(int k : ks) c.push_front(make<T>(k));
        f(c);
        f(std::as_const(c));
        break;
    }
    case 6: {
        if constexpr(!std::is_same_v<T, bool>) {
            std::vector<T> c;
            for(int k : ks) c.push_back(make<T>(k));
            f(std::span<T>(c));
            f(std::span<const T>(c));
            f(std::ranges::subrange((const T*)c.data(), (const T*)c.data() + c.size()));
        }
        break;
    }
    case 7: {
        std::vector<T> c;
        for(int k : ks) c.push_back(make<T>(k));
        f(std::ranges::subrange(c.rbegin(), c.rend()));
        std::deque<T> d(c.begin(), c.end());
        f(std::ranges::subrange(xme::ReverseIterator(d.end()), xme::ReverseIterator(d.begin())));
        break;
    }
    case 8: f(ks | std::views::transform([](int k) { return make<T>(k); })); break;
    case 9: f(std::as_const(ks) | std::views::filter([](int k) { return k % 3; }) | std::views::transform([](int k) { return make<T>(k); })); break;
    default:
        // of other elements, which convert
        if constexpr(number<T>) {
            auto of = [&]<typename U>(U) {
                std::vector<U> c;
                for(int k : ks) c.push_back((U)(k / (std::is_floating_point_v<U> ? 2.0 : 1)));
                f(c);
                if constexpr(!std::is_same_v<U, bool>) f(std::span<const U>(c));
                f(std::list<U>(c.begin(), c.end()));
                xme::Array<U> a(c.begin(), c.end());
                f(a);
            };
            switch(r.below(9)) {
            case 0: of((char)0); break;
            case 1: of((signed char)0); break;
            case 2: of((short)0); break;
            case 3: of(0u); break;
            case 4: of(0); break;
            case 5: of(0l); break;
            case 6: of(0.f); break;
            case 7: of(0.0); break;
            default: of(false);
            }
        }
        else if constexpr(std::is_same_v<T, bool>) {
            std::vector<int> c;
            for(int k : ks) c.push_back(k * 256);
            f(c);
            std::vector<const char*> p;
            for(int k : ks) p.push_back(k % 2 ? "x" : nullptr);
            f(p);
        }
        else if constexpr(std::is_same_v<T, Second*>) {
            std::vector<Both*> c;
            for(int k : ks) c.push_back(objects + k % 64);
            f(c);
            f(std::span<Both* const>(c));
        }
        else if constexpr(std::is_same_v<T, Twice>) {
            f(ks);
            f(std::span<const int>(ks));
        }
        else if constexpr(std::is_same_v<T, Text>) {
            std::vector<const char*> c;
            for(int k : ks) c.push_back(k % 2 ? "pointer to text" : "");
            f(c);
        }
        else if constexpr(std::is_same_v<T, std::string_view>) {
            std::vector<Text> c;
            for(int k : ks) c.emplace_back((size_t)k, 'q');
            f(c);
        }
        else if constexpr(std::is_same_v<T, Plain>) {
            std::vector<Plain> c;
            for(int k : ks) c.push_back((Plain)k);
            f(c);
        }
        else if constexpr(std::is_same_v<T, std::optional<Text>>) {
            std::vector<Text> c;
            for(int k : ks) c.push_back(std::to_string(k));
            f(c);
        }
        else if constexpr(std::is_same_v<T, std::shared_ptr<int>>) {
            std::vector<std::shared_ptr<int>> c;
            for(int k : ks) c.push_back(std::make_shared<int>(k));
            f(c);
            judged();
        }
        else copies(std::vector<T>());
    }
}
// Has an element built from whatever it can be built from, in each of the containers
template<typename T, typename... F>
void built(int k, F&&... fs) {
    if constexpr(std::is_same_v<T, std::vector<int>> || std::is_same_v<T, xme::Array<int>>)  // parentheses, not braces
        (fs([] { return 3; }, [] { return 7; }), ...);
    else if constexpr(std::is_same_v<T, Text>) (fs([] { return 'a'; }, [] { return 'b'; }), ...);  // 97 times b
    else if constexpr(std::is_same_v<T, Aggregate>) (fs([k] { return k; }, [k] { return std::to_string(k); }), ...);
    else if constexpr(std::is_same_v<T, Explicit>) (fs([k] { return k; }, [] { return 3; }), ...);
    else if constexpr(std::is_same_v<T, std::complex<float>>) (fs([k] { return (double)k; }, [] { return 2l; }), ...);  // narrows
    else if constexpr(std::is_same_v<T, std::unique_ptr<int>>) (fs([k] { return new int(k); }), ...);
    else if constexpr(number<T>) (fs([k] { return k * 3.5; }), ...);  // narrows
    else if constexpr(std::is_default_constructible_v<T> && !std::is_same_v<T, Union>) (fs(), ...);
    else (fs([k] { return make<T>(k); }), ...);
}
template<typename T>
constexpr bool copyable = std::is_copy_constructible_v<T>;
template<typename T>
constexpr bool assignable = std::is_move_assignable_v<T>;

// --- An allocator that notes what is constructed and destroyed ------------------------------------
struct Noted {
    std::set<const void*> alive;
    std::map<const char*, std::pair<size_t, const void*>> blocks;  // by their ends
    std::vector<const void*> built, torn;
    const char* wrong = nullptr;
    void reset() { *this = Noted(); }
};
static Noted noted;
template<typename T>
struct Noting {
    using value_type      = T;
    using size_type       = std::size_t;
    using difference_type = std::ptrdiff_t;
    Noting()              = default;
    template<typename U>
    Noting(const Noting<U>&) {}
    T* allocate(size_t n) {
        T* p = std::allocator<T>().allocate(n);
        noted.blocks[(const char*)(p + n)] = {n, p};
        return p;
    }
    void deallocate(T* p, size_t n) {
        auto b = noted.blocks.find((const char*)(p + n));
        if(b == noted.blocks.end() || b->second != std::pair<size_t, const void*>(n, p)) noted.wrong = "storage is returned that wasn't taken";
        else noted.blocks.erase(b);
        auto in = noted.alive.lower_bound(p);
        if(in != noted.alive.end() && *in < (const void*)(p + n)) noted.wrong = "storage is returned with elements in it";
        std::allocator<T>().deallocate(p, n);
    }
    template<typename U, typename... A>
    void construct(U* p, A&&... a) {
        if(!noted.alive.insert(p).second) noted.wrong = "an element is constructed twice";
        noted.built.push_back(p);
        ::new((void*)p) U(std::forward<A>(a)...);
    }
    template<typename U>
    void destroy(U* p) {
        if(!noted.alive.erase(p)) noted.wrong = "an element is destroyed that the allocator didn't construct";
        noted.torn.push_back(p);
        p->~U();
    }
    friend bool operator==(const Noting&, const Noting&) { return true; }
};
// Exactly these elements were constructed by the allocator
template<typename A>
void all_noted(const A& a, const char* op, const char* kind) {
    judged();
    if(noted.wrong) violation("kinds:allocator", fmt("%s of %s: %s", op, kind, noted.wrong));
    noted.wrong = nullptr;
    for(auto& e : a)
        if(!noted.alive.count(std::addressof(e))) {
            violation("kinds:allocator", fmt("%s of %s: an element wasn't constructed by the allocator", op, kind));
            return;
        }
    MON_CHECK(noted.alive.size() == a.size(), "kinds:allocator", "%s of %s: the allocator constructed %zu elements more than it destroyed, of %zu", op, kind, noted.alive.size(), a.size());
}

#if OF == 2
template<typename T>
using Alloc = Noting<T>;
#else
template<typename T>
using Alloc = std::allocator<T>;
#endif

// --- Array ---------------------------------------------------------------------------------------
template<typename T>
void arrays(const char* kind) {
    using Own = xme::Array<T, Alloc<T>>;
    cases(fmt("array of %s", kind).c_str(), st().cases, [&](Rng& r, long) {
        std::optional<Own> home(std::in_place);
        std::deque<T> m;
        auto& a = *home;
        const int steps = 6 + (int)r.below(20);
        bool fine = true;
        for(int step = 0; step < steps && fine; ++step) {
            const long n = (long)m.size();
            const long at = r.range(0, n);
            const int k = (int)r.below(120);
            const char* op = "?";
            switch(r.below(18)) {
            case 0:
            case 1: {
                op = "push_back of a temporary";
                a.push_back(make<T>(k));
                m.push_back(make<T>(k));
                break;
            }
            case 2:
                if constexpr(copyable<T>) {
                    op = "push_back";
                    const T e = make<T>(k);
                    a.push_back(e);
                    m.push_back(e);
                    T f = make<T>(k + 1);
                    a.push_back(f);
                    m.push_back(std::as_const(f));
                }
                break;
            case 3:
                op = "emplace_back";
                built<T>(k, [&](auto... args) { a.emplace_back(args()...); }, [&](auto... args) { m.emplace_back(args()...); });
                break;
            case 4:
                if constexpr(assignable<T>) {
                    op = "insert of a temporary";
                    auto it = a.insert(a.begin() + at, make<T>(k));
                    m.insert(m.begin() + at, make<T>(k));
                    judged();
                    MON_CHECK(it - a.begin() == at, "kinds:position", "insert into %s at %ld returns %ld", kind, at, (long)(it - a.begin()));
                }
                break;
            case 5:
                if constexpr(assignable<T> && copyable<T>) {
                    op = "insert";
                    const T e = make<T>(k);
                    a.insert(a.begin() + at, e);
                    m.insert(m.begin() + at, e);
                }
                break;
            case 6:
                if constexpr(copyable<T>)
                    sources<T>(r, [&](auto&& s) {
                        op = "push_back of a range";
                        for(auto&& e : s) m.push_back(e);
                        if(r.chance(50)) a.push_back(s);
                        else a.push_back(std::ranges::begin(s), std::ranges::end(s));
                    });
                break;
            case 7:
                if constexpr(assignable<T> && copyable<T>)
                    sources<T>(r, [&](auto&& s) {
                        op = "insert of a range";
                        const long p = r.range(0, (long)m.size());
                        std::vector<T> w;
                        for(auto&& e : s) w.push_back(e);
                        for(long j = 0; j < (long)w.size(); ++j) m.insert(m.begin() + p + j, w[(size_t)j]);  // the standard's moves elements to themselves
                        if(r.chance(50)) a.insert(a.begin() + p, s);
                        else a.insert(a.begin() + p, std::ranges::begin(s), std::ranges::end(s));
                    });
                break;
            case 8:
                if constexpr(copyable<T>)
                    sources<T>(r, [&](auto&& s) {
                        op = "construction from a range";
                        Own b(s);
                        Own c(std::ranges::begin(s), std::ranges::end(s));
                        std::deque<T> w;
                        for(auto&& e : s) w.push_back(e);
                        fine = alike(b, w, op, kind) && alike(c, w, op, kind);
                        if(r.chance(30)) {
                            a = std::move(b);
                            m.swap(w);
                        }
                    });
                break;
            case 9:
                if constexpr(assignable<T>)
                    if(at < n) {
                        op = "erase";
                        a.erase(a.begin() + at);
                        m.erase(m.begin() + at);
                    }
                break;
            case 10:
                if constexpr(assignable<T>) {
                    op = "erase of a range";
                    const long to = r.range(at, n);
                    a.erase(a.begin() + at, a.begin() + to);
                    m.erase(m.begin() + at, m.begin() + to);
                }
                break;
            case 11:
                if(n) {
                    op = "pop_back";
                    a.pop_back();
                    m.pop_back();
                }
                break;
            case 12:
                op = "reserve";
                a.reserve((size_t)r.range(0, 60));
                break;
            case 13: {
                op = "resize";
                const long to = r.range(0, n + 5);
                a.resize((size_t)to);
                while((long)m.size() > to) m.pop_back();
                break;
            }
            case 14:
                if constexpr(copyable<T>) {
                    op = "copy";
                    Own c(a), d;
                    d.push_back(make<T>(1));
                    d = c;
                    fine = alike(c, m, op, kind) && alike(d, m, op, kind);
                    a.swap(d);
                    Own e((size_t)(k % 9), make<T>(k));
                    std::vector<T> w((size_t)(k % 9), make<T>(k));
                    fine = fine && alike(e, w, "construction of n values", kind);
                    Own l{make<T>(k), make<T>(k + 1), make<T>(k + 2)};
                    w.clear();
                    for(int j = 0; j < 3; ++j) w.push_back(make<T>(k + j));
                    fine = fine && alike(l, w, "construction from a list of values", kind);
                }
                break;
            case 15: {
                op = "move";
                Own c(std::move(a));
                fine = alike(c, m, op, kind);
                a = std::move(c);
                break;
            }
            case 16:
                if(r.chance(30)) {
                    op = "clear";
                    a.clear();
                    m.clear();
                }
                break;
            default:
                if constexpr(copyable<T>)
                    if(n) {
                        op = "push_back of an element of itself";
                        const long own = r.range(0, n - 1);
                        T e(std::as_const(m[(size_t)own]));
                        a.push_back(std::as_const(a)[own]);
                        m.push_back(std::move(e));
                    }
            }
            note("%s, %zu\n", op, m.size());
#if OF == 2
            all_noted(a, op, kind);
#endif
            fine = fine && alike(a, m, op, kind) && alike(std::as_const(a), m, op, kind);
            if(fine && !m.empty()) {
                judged();
                MON_CHECK(code(a.front()) == code(m.front()) && code(a.back()) == code(m.back()) && code(a[(long)m.size() / 2]) == code(m[m.size() / 2]) && a.size() == m.size(),
                          "kinds:access", "%s of %s", op, kind);
            }
            if(m.size() > 80) {
                a.clear();
                m.clear();
            }
        }
        home.reset();
        m.clear();
#if OF == 2
        judged();
        MON_CHECK(noted.alive.empty() && noted.blocks.empty() && !noted.wrong, "kinds:allocator", "after arrays of %s %zu elements and %zu blocks remain", kind, noted.alive.size(), noted.blocks.size());
        noted.reset();
#endif
        if constexpr(std::is_same_v<T, Empty>) {
            judged();
            MON_CHECK(Empty::alive == 0, "kinds:lifetime", "%ld elements without members were destroyed too few or too often", Empty::alive);
            Empty::alive = 0;
        }
    });
}

// --- LinkedList ------------------------------------------------------------------------------------
template<typename T>
void lists(const char* kind) {
    cases(fmt("list of %s", kind).c_str(), st().cases, [&](Rng& r, long) {
        std::optional<xme::LinkedList<T>> home(std::in_place);
        std::forward_list<T> m;
        auto& l = *home;
        bool fine = true;
        long n = 0;
        const int steps = 6 + (int)r.below(20);
        for(int step = 0; step < steps && fine; ++step) {
            n = (long)std::distance(m.begin(), m.end());
            const long at = r.range(0, n);
            auto p = std::next(l.before_begin(), at);
            auto q = std::next(m.before_begin(), at);
            const int k = (int)r.below(120);
            const char* op = "?";
            constexpr bool movable = std::is_move_constructible_v<T>;
            switch(r.below(15)) {
            case 0:
                if constexpr(movable) {
                    op = "push_front of a temporary";
                    l.push_front(make<T>(k));
                    m.push_front(make<T>(k));
                }
                else {
                    op = "emplace_front";
                    l.emplace_front(k);
                    m.emplace_front(k);
                }
                break;
            case 1:
                if constexpr(copyable<T>) {
                    op = "push_front";
                    const T e = make<T>(k);
                    l.push_front(e);
                    m.push_front(e);
                }
                break;
            case 2:
                if constexpr(movable) {
                    op = "insert_after of a temporary";
                    auto i = l.insert_after(p, make<T>(k));
                    m.insert_after(q, make<T>(k));
                    judged();
                    MON_CHECK(i == std::next(p), "kinds:position", "insert_after into %s", kind);
                }
                else {
                    op = "emplace_after";
                    l.emplace_after(p, k);
                    m.emplace_after(q, k);
                }
                break;
            case 3:
                if constexpr(copyable<T>) {
                    op = "insert_after";
                    const T e = make<T>(k);
                    l.insert_after(p, e);
                    m.insert_after(q, e);
                }
                break;
            case 4:
                if constexpr(copyable<T>)
                    sources<T>(r, [&](auto&& s) {
                        op = "insert_after of a range";
                        std::vector<T> w;
                        for(auto&& e : s) w.push_back(e);
                        if(r.chance(50)) l.insert_after(p, s);
                        else l.insert_after(p, std::ranges::begin(s), std::ranges::end(s));
                        m.insert_after(q, w.begin(), w.end());
                    });
                break;
            case 5:
                if constexpr(copyable<T>)
                    sources<T>(r, [&](auto&& s) {
                        op = "construction from a range";
                        xme::LinkedList<T> b(s);
                        xme::LinkedList<T> c(std::ranges::begin(s), std::ranges::end(s));
                        std::vector<T> w;
                        for(auto&& e : s) w.push_back(e);
                        fine = alike(b, w, op, kind) && alike(c, w, op, kind);
                    });
                break;
            case 6:
                if constexpr(copyable<T> && std::is_copy_assignable_v<T>)
                    sources<T>(r, [&](auto&& s) {
                        op = "assign";
                        std::vector<T> w;
                        for(auto&& e : s) w.push_back(e);
                        l.assign(s);
                        m.assign(w.begin(), w.end());
                    });
                break;
            case 7:
                if(at < n) {
                    op = "erase_after";
                    l.erase_after(p);
                    m.erase_after(q);
                }
                break;
            case 8:
                if(n) {
                    op = "pop_front";
                    l.pop_front();
                    m.pop_front();
                }
                break;
            case 9: {
                op = "erase_after of a range";
                const long to = r.range(at, n);
                auto pe = std::next(p, to - at);
                auto qe = std::next(q, to - at);
                if(to < n && to > at) {
                    l.erase_after(p, pe);
                    m.erase_after(q, qe);
                }
                break;
            }
            case 10:
                op = "reverse";
                l.reverse();
                m.reverse();
                break;
            case 11:
                if constexpr(copyable<T>) {
                    op = "copy";
                    xme::LinkedList<T> c(std::as_const(l));
                    fine = alike(c, m, op, kind);
                    if constexpr(std::is_copy_assignable_v<T>) {
                        xme::LinkedList<T> d((size_t)(k % 5), make<T>(k));
                        d = c;
                        fine = fine && alike(d, m, "copy assignment", kind);
                    }
                }
                break;
            case 12: {
                op = "move";
                xme::LinkedList<T> c(std::move(l));
                fine = alike(c, m, op, kind);
                l = std::move(c);
                break;
            }
            case 13:
                if constexpr(movable) {
                    op = "emplace";
                    if(r.chance(50)) built<T>(k, [&](auto... args) { l.emplace_front(args()...); }, [&](auto... args) { m.emplace_front(args()...); });
                    else built<T>(k, [&](auto... args) { l.emplace_after(p, args()...); }, [&](auto... args) { m.emplace_after(q, args()...); });
                }
                break;
            default:
                if constexpr(std::is_default_constructible_v<T> && !std::is_same_v<T, Union>) {
                    op = "construction of n";
                    xme::LinkedList<T> c((size_t)(k % 6));
                    std::forward_list<T> w((size_t)(k % 6));
                    if constexpr(!std::is_arithmetic_v<T> && !std::is_trivially_default_constructible_v<T>) fine = alike(c, w, op, kind);
                }
            }
            note("%s, %ld\n", op, n);
            fine = fine && alike(l, m, op, kind) && alike(std::as_const(l), m, op, kind);
            if(n > 60) {
                l.clear();
                m.clear();
            }
        }
        home.reset();
        m.clear();
        if constexpr(std::is_same_v<T, Empty>) {
            judged();
            MON_CHECK(Empty::alive == 0, "kinds:lifetime", "%ld elements without members were destroyed too few or too often", Empty::alive);
            Empty::alive = 0;
        }
    });
}

// --- Heap ----------------------------------------------------------------------------------------
struct ByCode {
    template<typename T>
    bool operator()(const T& a, const T& b) const { return code(a) < code(b); }
};
template<typename T>
void heaps(const char* kind) {
    cases(fmt("heap of %s", kind).c_str(), st().cases, [&](Rng& r, long) {
        using H = xme::Heap<T, xme::Array<T>, ByCode>;
        std::optional<H> home;
        std::multiset<long> m;
        if constexpr(copyable<T>) {
            if(r.chance(50))
                sources<T>(r, [&](auto&& s) {
                    m.clear();
                    std::vector<T> w;
                    for(auto&& e : s) w.push_back(e);
                    for(const T& e : w) m.insert(code(e));
                    if(r.chance(50)) home.emplace(s);
                    else home.emplace(std::ranges::begin(s), std::ranges::end(s));
                });
        }
        if(!home) home.emplace();
        H& h = *home;
        for(int step = 0; step < 24; ++step) {
            const int k = (int)r.below(120);
            if(r.chance(55) || m.empty()) {
                if(r.chance(20)) built<T>(k, [&](auto... args) { h.emplace(args()...); }, [&](auto... args) { const T e(args()...); m.insert(code(e)); });
                else {
                m.insert(code(make<T>(k)));
                if(r.chance(50)) h.push(make<T>(k));
                else if constexpr(copyable<T>) {
                    const T e = make<T>(k);
                    h.push(e);
                }
                else h.emplace(make<T>(k));
                }
            }
            else {
                judged();
                MON_CHECK(code(h.front()) == *m.rbegin(), "kinds:front", "the front of a heap of %s is %ld instead of %ld, of %zu", kind, code(h.front()), *m.rbegin(), m.size());
                m.erase(std::prev(m.end()));
                h.pop();
            }
            judged();
            std::multiset<long> now;
            for(auto& e : h) now.insert(code(e));
            if(now != m) {
                violation("kinds:content", fmt("a heap of %s with %zu elements doesn't have what was pushed", kind, m.size()));
                break;
            }
            if(!m.empty()) MON_CHECK(code(h.front()) == *m.rbegin(), "kinds:front", "the front of a heap of %s is %ld instead of %ld, of %zu", kind, code(h.front()), *m.rbegin(), m.size());
            seen(hash2(hash_str(kind), hash2(m.size(), m.empty() ? 0 : (u64)*m.rbegin())));
        }
    });
}

// --- SPSCQueue -----------------------------------------------------------------------------------
template<typename T, typename Q>
void queue(Rng& r, Q& q, size_t room, const char* kind) {
    constexpr bool movable = std::is_move_constructible_v<T>;
    std::deque<long> m;
    for(int step = 0; step < 60; ++step) {
        const int k = (int)r.below(120);
        const bool fits = m.size() < room;
        judged();
        MON_CHECK(q.read_available() == m.size() && q.write_available() == room - m.size(), "kinds:size", "a queue of %s with %zu elements", kind, m.size());
        if(r.chance(52)) {
            bool ok;
            long c;
            if constexpr(!movable) {
                ok = q.emplace(k);
                c  = k;
            }
            else {
                c = code(make<T>(k));
                const int how = (int)r.below(4);
                if(how == 3) built<T>(k, [&](auto... args) { ok = q.emplace(args()...); }, [&](auto... args) { const T e(args()...); c = code(e); });
                else if(how == 0) ok = q.push(make<T>(k));
                else if(how == 1) ok = q.emplace(make<T>(k));
                else if constexpr(copyable<T>) {
                    const T e = make<T>(k);
                    ok = q.push(e);
                }
                else ok = q.push(make<T>(k));
            }
            MON_CHECK(ok == fits, "kinds:full", "a queue of %s with %zu of %zu elements %s another one", kind, m.size(), room, ok ? "takes" : "doesn't take");
            if(ok) m.push_back(c);
        }
        else if(!m.empty()) {
            if(r.chance(70)) {
                long got = 0;
                q.consume([&](auto&& e) { got = code(e); });
                MON_CHECK(got == m.front(), "kinds:content", "a queue of %s gives %ld instead of %ld", kind, got, m.front());
            }
            else q.pop();
            m.pop_front();
        }
        seen(hash2(hash_str(kind), hash2(m.size(), (u64)(m.empty() ? 0 : m.front()))));
    }
}
template<typename T>
void queues(const char* kind) {
    cases(fmt("queue of %s", kind).c_str(), st().cases, [&](Rng& r, long) {
        {
            const size_t cap = size_t(2) << r.below(5);
            xme::SPSCQueue<T> q(cap);
            queue<T>(r, q, cap - 1, kind);
            xme::SPSCQueue<T, xme::Capacity<8>> s;
            queue<T>(r, s, 7, kind);
        }
        if constexpr(std::is_same_v<T, Empty>) {
            judged();
            MON_CHECK(Empty::alive == 0, "kinds:lifetime", "%ld elements without members were destroyed too few or too often", Empty::alive);
            Empty::alive = 0;
        }
    });
}

// --- Uninitialized storage -------------------------------------------------------------------------
template<typename T, typename A>
void storage(const char* kind) {
    cases(fmt("storage of %s", kind).c_str(), st().cases, [&](Rng& r, long) {
        struct Raw {
            T* p = std::allocator<T>().allocate(24);
            size_t n = 0;
            A a;
            ~Raw() {
                for(size_t k = 0; k < n; ++k) std::allocator_traits<A>::destroy(a, p + k);
                std::allocator<T>().deallocate(p, 24);
            }
        };
        auto judge = [&](const T* p, const std::vector<T>& w, const char* op) {
            if constexpr(std::is_same_v<A, Noting<T>>) {
                judged();
                bool same = noted.built.size() == w.size() && noted.torn.empty() && !noted.wrong;
                for(size_t k = 0; same && k < w.size(); ++k) same = noted.built[k] == p + k;
                MON_CHECK(same, "kinds:allocator", "%s of %s: %zu elements are constructed by the allocator, instead of %zu in turn", op, kind, noted.built.size(), w.size());
            }
            if constexpr(!std::is_same_v<T, bool>) alike(std::span<const T>(p, w.size()), w, op, kind);
            else alike(std::ranges::subrange(p, p + w.size()), w, op, kind);
            noted.built.clear();
        };
        sources<T>(r, [&](auto&& s) {
            noted.reset();
            std::vector<T> w;
            if constexpr(requires { std::ranges::size(s); }) w.reserve(std::ranges::size(s));
            for(auto&& e : s) w.push_back(static_cast<T>(e));
            if constexpr(std::ranges::forward_range<decltype(s)>) {
                Raw x;
                const size_t room = (size_t)r.below(12);
                while(w.size() > room) w.pop_back();
                auto [in, out] = xme::ranges::uninitialized_copy_a(std::ranges::begin(s), std::ranges::end(s), x.p, x.p + room, x.a);
                x.n = w.size();
                MON_CHECK(out == x.p + w.size() && in == std::ranges::next(std::ranges::begin(s), (long)w.size(), std::ranges::end(s)), "kinds:position", "copy of %s", kind);
                judge(x.p, w, "copy");
                noted.torn.clear();
            }
            if constexpr(std::ranges::contiguous_range<decltype(s)>) {  // by pointers
                noted.reset();
                Raw x;
                const auto* from = std::to_address(std::ranges::begin(s));
                const size_t n   = std::min<size_t>((size_t)(std::ranges::end(s) - std::ranges::begin(s)), 20);
                w.clear();
                for(size_t k = 0; k < n; ++k) w.push_back(static_cast<T>(from[k]));
                auto [in, out] = xme::ranges::uninitialized_copy_a(from, from + n, x.p, x.p + 24, x.a);
                x.n = n;
                MON_CHECK(out == x.p + n && in == from + n, "kinds:position", "copy of %s", kind);
                judge(x.p, w, "copy by pointers");
                noted.torn.clear();
            }
            w.clear();
            for(auto&& e : s) w.push_back(static_cast<T>(e));
            noted.reset();
            {
                std::vector<std::ranges::range_value_t<decltype(s)>> own;  // what is moved from
                for(auto&& e : s) own.push_back(e);
                Raw x;
                T* out = nullptr;
                if(r.chance(50)) out = xme::ranges::uninitialized_move_a(own.begin(), own.end(), x.p, x.a);
                else if(!std::is_same_v<std::ranges::range_value_t<decltype(s)>, bool> && r.chance(50)) {
                    if constexpr(requires { own.data(); }) out = xme::ranges::uninitialized_move_a(own.data(), own.data() + own.size(), x.p, x.a);
                }
                else {
                    std::list<std::ranges::range_value_t<decltype(s)>> l(own.begin(), own.end());
                    out = xme::ranges::uninitialized_move_a(l.begin(), l.end(), x.p, x.a);
                }
                x.n = w.size();
                MON_CHECK(out == x.p + w.size(), "kinds:position", "move of %s", kind);
                judge(x.p, w, "move");
                noted.torn.clear();
            }
            noted.reset();
            auto some = std::ranges::begin(s);
            if(some != std::ranges::end(s)) {  // n of its first element, which may be of another type
                const auto& value = *some;
                Raw x;
                const size_t n = r.below(20);
                w.clear();
                for(size_t k = 0; k < n; ++k) w.push_back(static_cast<T>(value));
                T* out = xme::ranges::uninitialized_fill_n_a(x.p, n, value, x.a);
                x.n    = n;
                MON_CHECK(out == x.p + n, "kinds:position", "fill of %s", kind);
                judge(x.p, w, "fill");
                noted.torn.clear();
                // and destroys some of them
                const size_t keep = r.below(n + 1);
                if(r.chance(50)) xme::ranges::destroy_n_a(x.p + keep, (long)(n - keep), x.a);
                else xme::ranges::destroy_a(x.p + keep, x.p + n, x.a);
                x.n = keep;
                w.clear();
                for(size_t k = 0; k < keep; ++k) w.push_back(static_cast<T>(value));
                if constexpr(std::is_same_v<A, Noting<T>>) {
                    judged();
                    bool same = noted.torn.size() == n - keep && !noted.wrong;
                    for(size_t k = 0; same && k < n - keep; ++k) same = noted.torn[k] == x.p + keep + k;
                    MON_CHECK(same, "kinds:allocator", "destruction of %s: %zu elements are destroyed by the allocator, instead of %zu in turn", kind, noted.torn.size(), n - keep);
                }
                if constexpr(!std::is_same_v<T, bool>) alike(std::span<const T>(x.p, keep), w, "partial destruction", kind);
            }
            noted.reset();
        });
        noted.reset();
        if constexpr(std::is_same_v<T, Empty>) {
            judged();
            MON_CHECK(Empty::alive == 0, "kinds:lifetime", "%ld elements without members were destroyed too few or too often", Empty::alive);
            Empty::alive = 0;
        }
    });
}

template<typename T>
void kind(const char* name) {
    // one container per build (-DOF=1, 2, 5, 7, 12 or 39): there are many elements
    [[maybe_unused]] constexpr bool fixed = !std::is_move_constructible_v<T>;
#if OF == 39
    if constexpr(copyable<T>) {
        storage<T, std::allocator<T>>(name);
        storage<T, Noting<T>>(name);
    }
#elif OF == 1 || OF == 2
    if constexpr(!fixed) arrays<T>(name);
#elif OF == 7
    lists<T>(name);
#elif OF == 12
    queues<T>(name);
#else
    if constexpr(!fixed && std::is_move_assignable_v<T>) heaps<T>(name);
#endif
}

int main(int argc, char** argv) {
    init(argc, argv);
#if SET == 0
    kind<bool>("bool");
    kind<char>("char");
    kind<unsigned short>("unsigned short");
    kind<unsigned long>("unsigned long");
    kind<float>("float");
#elif SET == 1
    kind<double>("double");
    kind<long double>("long double");
    kind<__int128>("128 bit integers");
    kind<std::byte>("std::byte");
    kind<Letter>("a scoped enumeration");
    kind<Plain>("an enumeration");
    kind<Three>("three bytes");
#elif SET == 2
    kind<int*>("pointers");
    kind<Second*>("pointers to a second base");
    kind<Member>("pointers to members");
    kind<Huge>("5 kB each");
    kind<NoAssign>("elements that can't be assigned");
    kind<Amp>("elements that overload & and the comma");
    kind<Virtual>("elements with virtual functions");
#elif SET == 3
    kind<Wide>("elements aligned to 128");
    kind<Twice>("numbers that double what they are made of");
    kind<Anything>("elements made of anything");
    kind<Explicit>("elements made explicitly");
    kind<Aggregate>("aggregates");
    kind<Assigning>("elements that notice moves to themselves");
    kind<Self>("elements that designate themselves");
    kind<Volatile>("elements with volatile members");
    kind<Union>("unions");
#elif SET == 4
    kind<Empty>("elements without members");
    kind<Text>("strings");
    kind<std::unique_ptr<int>>("unique pointers");
    kind<std::shared_ptr<int>>("shared pointers");
    kind<std::vector<int>>("vectors");
    kind<xme::Array<int>>("arrays");
    kind<std::optional<Text>>("optional strings");
#else
    kind<std::string_view>("string views");
    kind<std::complex<float>>("complex numbers");
    kind<PairII>("pairs with a constant");
    kind<XPair>("xme's pairs");
    kind<XTuple>("xme's tuples");
    kind<Func>("functions");
    kind<Fixed>("elements that can't be moved");
#endif
    return finish();
}
