// Checks xme::Pair (C15), xme::Tuple (C16) and the tuple functions (C17) with elements that
// count copies and moves and notice their own lifetime, over many combinations of types.
//   -DPART=15|16|17 selects the property
#include "../harness/track.hpp"
#include <array>
#include <compare>
#include <functional>
#include <limits>
#include <tuple>
#include <xme/container/pair.hpp>
#include <xme/container/tuple.hpp>

using namespace mon;
using O = Obj<k_copy | k_default>;  // copyable, tracked
using M = Obj<k_default>;           // move only, tracked
struct E {
    bool operator==(const E&) const  = default;
    auto operator<=>(const E&) const = default;
};
struct E2 {
    bool operator==(const E2&) const  = default;
    auto operator<=>(const E2&) const = default;
};
// weakly ordered by its last digit only
struct W {
    int v;
    friend bool operator==(const W& a, const W& b) { return a.v % 3 == b.v % 3; }
    friend std::weak_ordering operator<=>(const W& a, const W& b) { return a.v % 3 <=> b.v % 3; }
};
#define PFX (PART == 15 ? "C15:" : PART == 16 ? "C16:" : "C17:")
#define KEY(k) (std::string(PFX) + (k))

template<typename T>
T mkv(int v) {
    if constexpr(std::is_empty_v<T>) return T{};
    else if constexpr(std::is_same_v<T, W>) return W{v};
    else if constexpr(std::is_same_v<T, double>) return v == 0 ? 0.0 : v == 1 ? -0.0 : v == 2 ? std::numeric_limits<double>::quiet_NaN() : (double)v;
    else return mk<T>(v);
}
// The value of an element for comparison with another (bit exact for double)
template<typename T>
long id(const T& t) {
    if constexpr(std::is_empty_v<T>) return 1;
    else if constexpr(std::is_same_v<T, W>) return t.v;
    else if constexpr(std::is_same_v<T, double>) {
        long b;
        memcpy(&b, &t, 8);
        return b;
    }
    else if constexpr(std::is_same_v<T, std::string>) return t.empty() ? -1 : atoi(t.c_str());
    else return val(t);
}
template<typename T>
long id_of(int v) {
    tr().disarm();
    return id(mkv<T>(v));
}
// The state left by moving from an element
template<typename T>
bool is_moved(const T& t, int v) {
    if constexpr(is_tracked<T>) return val(t) == moved_from;
    else if constexpr(std::is_same_v<T, std::string>) return v == 0 || t.empty() || t.size() < 16;
    else return true;
}
template<typename T>
concept copies = std::is_copy_constructible_v<T>;

struct Counts {
    long copies = tr().copies, moves = tr().moves, ca = tr().copy_assigns, ma = tr().move_assigns, ctors = tr().ctors;
    Counts since() const {
        Counts now;
        now.copies -= copies;
        now.moves -= moves;
        now.ca -= ca;
        now.ma -= ma;
        now.ctors -= ctors;
        return now;
    }
};
template<typename... T>
constexpr long tracked = (0 + ... + (is_tracked<std::remove_cvref_t<T>> ? 1 : 0));

// Small values collide often, which comparisons need
static std::vector<int> some(Rng& r, size_t n) {
    std::vector<int> v;
    int span = r.chance(40) ? 3 : r.chance(50) ? 10 : 100000;
    for(size_t i = 0; i < n; ++i) v.push_back((int)r.below(span));
    return v;
}

template<size_t I>
using at = std::integral_constant<size_t, I>;

template<typename Tup, size_t... I>
std::string show(const Tup& t, std::index_sequence<I...>) {
    std::string s;
    ((s += std::to_string(id(get<I>(t))) + " "), ...);
    return s;
}

// Every way of reaching element I of a tuple or pair; `where` is its address.
template<size_t I, typename T, typename Tup>
void access(Tup& t, const char* what) {
    using V       = std::remove_reference_t<T>;
    const Tup& ct = t;
    static_assert(std::is_same_v<decltype(get<I>(t)), T&>);
    static_assert(std::is_same_v<decltype(get<I>(ct)), std::conditional_t<std::is_reference_v<T>, T&, const T&>>);
    static_assert(std::is_same_v<decltype(get<I>(std::move(t))), T&&>);
    static_assert(std::is_same_v<decltype(t[at<I>{}]), T&>);
    static_assert(std::is_same_v<decltype(std::move(t)[at<I>{}]), T&&>);
    static_assert(std::is_same_v<std::tuple_element_t<I, Tup>, T>);
    V* p = std::addressof(get<I>(t));
    judged();
    MON_CHECK(std::addressof(get<I>(ct)) == p && std::addressof(t[at<I>{}]) == p && std::addressof(ct[at<I>{}]) == p, KEY("access"), "%s: get and [] reach different elements at %zu", what, I);
    auto&& moved = get<I>(std::move(t));
    MON_CHECK(std::addressof(moved) == p, KEY("access"), "%s: get of an rvalue reaches another element at %zu", what, I);
    auto&& moved2 = std::move(t)[at<I>{}];
    MON_CHECK(std::addressof(moved2) == p, KEY("access"), "%s: [] of an rvalue reaches another element at %zu", what, I);
    if constexpr(!std::is_reference_v<T> && !std::is_empty_v<T>)
        MON_CHECK((char*)p >= (char*)&t && (char*)p + sizeof(V) <= (char*)(&t + 1), KEY("access"), "%s: element %zu isn't inside of the tuple", what, I);
}

// Lexicographic comparison as the definition says
template<typename... T, size_t... I>
auto lexicographic(const std::vector<int>& a, const std::vector<int>& b, std::index_sequence<I...>) {
    using C = std::common_comparison_category_t<std::strong_ordering, std::compare_three_way_result_t<T>...>;
    C c     = std::strong_ordering::equal;
    auto one = [&]<typename X, size_t K>() {
        if(c == 0) c = mkv<X>(a[K]) <=> mkv<X>(b[K]);
    };
    (one.template operator()<T, I>(), ...);
    return c;
}
template<typename... T, size_t... I>
bool all_equal(const std::vector<int>& a, const std::vector<int>& b, std::index_sequence<I...>) {
    return ((mkv<T>(a[I]) == mkv<T>(b[I])) && ...);
}

template<typename Tup, typename... T>
void comparisons(Rng& r, const char* what) {
    constexpr auto seq = std::index_sequence_for<T...>{};
    constexpr size_t n = sizeof...(T);
    for(int k = 0; k < 6; ++k) {
        auto a = some(r, n), b = some(r, n);
        // a common prefix, to reach the later elements
        size_t prefix = r.below(n + 1);
        for(size_t i = 0; i < prefix; ++i) b[i] = a[i];
        [&]<size_t... I>(std::index_sequence<I...>) {
            Tup x{mkv<T>(a[I])...}, y{mkv<T>(b[I])...};
            auto c  = lexicographic<T...>(a, b, seq);
            bool eq = all_equal<T...>(a, b, seq);
            note("compare %s with %s\n", show(x, seq).c_str(), show(y, seq).c_str());
            judged();
            static_assert(std::is_same_v<decltype(x <=> y), decltype(c)>);
            MON_CHECK((x == y) == eq && (x != y) == !eq, KEY("equality"), "%s: == is wrong (expected %d)", what, eq);
            MON_CHECK((x <=> y) == c || (c != 0 && !(c < 0) && !(c > 0) && !((x <=> y) < 0) && !((x <=> y) > 0) && (x <=> y) != 0), KEY("order"), "%s: <=> is wrong", what);
            MON_CHECK((x < y) == (c < 0) && (x <= y) == (c <= 0) && (x > y) == (c > 0) && (x >= y) == (c >= 0), KEY("order"), "%s: ordering is wrong", what);
            // with itself: a value that isn't equal to itself makes it different
            const Tup& self = x;
            const auto d    = lexicographic<T...>(a, a, seq);
            const bool same = all_equal<T...>(a, a, seq);
            judged();
            MON_CHECK((x == self) == same && (x != self) == !same && ((x <=> self) == 0) == (d == 0) && (x <= self) == (d <= 0) && (x >= self) == (d >= 0) && !(x < self) && !(x > self), KEY("equality"), "%s: comparison with itself is wrong (expected %d)", what, same);
            seen(hash2(hash_str(what), hash2(prefix, (c < 0) + 2 * (c > 0) + 4 * eq)));
        }(seq);
    }
}

// Expects element I of `t` to be the value of vals[I]
template<typename... T, typename Tup, size_t... I>
void expect(const Tup& t, const std::vector<int>& vals, const char* how, const char* what, std::index_sequence<I...>) {
    judged();
    (([&] {
         long got = id(get<I>(t)), want = id_of<std::remove_cvref_t<T>>(vals[I]);
         MON_CHECK(got == want, KEY(how), "%s: element %zu is %ld instead of %ld", what, I, got, want);
     }()),
     ...);
}
template<typename... T, typename Tup, size_t... I>
void expect_moved(const Tup& t, const std::vector<int>& vals, const char* how, const char* what, std::index_sequence<I...>) {
    judged();
    ((MON_CHECK(is_moved(get<I>(t), vals[I]), KEY(how), "%s: element %zu of an rvalue was copied, not moved", what, I)), ...);
}

// Assignment of a tuple-like Src made of the same element types to a Dst
template<typename Dst, typename Src, typename... T>
void assign_from(Rng& r, const char* what) {
    constexpr auto seq = std::index_sequence_for<T...>{};
    constexpr size_t n = sizeof...(T);
    constexpr long k   = tracked<T...>;
    auto a = some(r, n), b = some(r, n);
    [&]<size_t... I>(std::index_sequence<I...>) {
        if constexpr((copies<T> && ...)) {
            Dst d{mkv<T>(a[I])...};
            Src s{mkv<T>(b[I])...};
            note("%s: assign %s to %s\n", what, show(s, seq).c_str(), show(d, seq).c_str());
            Counts c;
            Dst& res = (d = s);
            Counts x = c.since();
            MON_CHECK(&res == &d, KEY("assign"), "%s: assignment returns another object", what);
            expect<T...>(d, b, "assign", what, seq);
            expect<T...>(s, b, "source-modified", what, seq);
            MON_CHECK(x.ca == k && x.ma == 0 && x.copies == 0 && x.moves == 0, KEY("assign-cost"), "%s: assigning from an lvalue made %ld+%ld copies and %ld+%ld moves of %ld elements", what, x.ca, x.copies, x.ma, x.moves, k);
            const Src& cs = s;
            Dst d2{mkv<T>(a[I])...};
            d2 = cs;
            expect<T...>(d2, b, "assign", what, seq);
            expect<T...>(s, b, "source-modified", what, seq);
        }
        Dst d{mkv<T>(a[I])...};
        Src s{mkv<T>(b[I])...};
        Counts c;
        d        = std::move(s);
        Counts x = c.since();
        expect<T...>(d, b, "assign", what, seq);
        expect_moved<T...>(s, b, "rvalue-copied", what, seq);
        MON_CHECK(x.ca == 0 && x.ma == k && x.copies == 0 && x.moves == 0, KEY("assign-cost"), "%s: assigning from an rvalue made %ld+%ld copies and %ld+%ld moves of %ld elements", what, x.ca, x.copies, x.ma, x.moves, k);
    }(seq);
    seen(hash2(hash_str(what), hash_str("assign")));
}

template<typename Tup, typename... T>
void basics(Rng& r, const char* what) {
    constexpr auto seq = std::index_sequence_for<T...>{};
    constexpr size_t n = sizeof...(T);
    constexpr long k   = tracked<T...>;
    static_assert(std::tuple_size_v<Tup> == n);
    auto a = some(r, n), b = some(r, n);
    [&]<size_t... I>(std::index_sequence<I...>) {
        Tup t{mkv<T>(a[I])...};
        note("%s: %s\n", what, show(t, seq).c_str());
        expect<T...>(t, a, "construct", what, seq);
        (access<I, T>(t, what), ...);
        // distinct elements at distinct addresses, in order
        const void* where[] = {(const void*)std::addressof(get<I>(t))..., nullptr};
        bool empty[]        = {std::is_empty_v<T>..., false};
        for(size_t i = 0; i < n; ++i)
            for(size_t j = 0; j < i; ++j)
                MON_CHECK(empty[i] || empty[j] || where[i] != where[j], KEY("access"), "%s: elements %zu and %zu are the same object", what, i, j);
        expect<T...>(t, a, "access-modifies", what, seq);
        // writing to one element changes no other
        if constexpr(n > 0 && (std::is_move_assignable_v<T> && ...)) {
            size_t w = r.below(n);
            ((I == w ? void(get<I>(t) = mkv<T>(b[I])) : void()), ...);
            auto mixed = a;
            mixed[w]   = b[w];
            expect<T...>(t, mixed, "write", what, seq);
            ((I == w ? void(t[at<I>{}] = mkv<T>(a[I])) : void()), ...);
            expect<T...>(t, a, "write", what, seq);
        }
        // copy and move construction
        if constexpr((copies<T> && ...)) {
            Counts c;
            Tup u    = t;
            Counts x = c.since();
            expect<T...>(u, a, "copy", what, seq);
            expect<T...>(t, a, "source-modified", what, seq);
            MON_CHECK(x.copies == k && x.moves == 0, KEY("copy-cost"), "%s: %ld copies and %ld moves of %ld elements", what, x.copies, x.moves, k);
        }
        {
            Tup u{mkv<T>(a[I])...};
            Counts c;
            Tup v    = std::move(u);
            Counts x = c.since();
            expect<T...>(v, a, "move", what, seq);
            expect_moved<T...>(u, a, "rvalue-copied", what, seq);
            MON_CHECK(x.copies == 0 && x.moves == k, KEY("move-cost"), "%s: %ld copies and %ld moves of %ld elements", what, x.copies, x.moves, k);
        }
        // swap
        for(int way = 0; way < 3; ++way) {
            Tup u{mkv<T>(a[I])...}, v{mkv<T>(b[I])...};
            Counts c;
            if(way == 0) u.swap(v);
            else if(way == 1) swap(u, v);
            else std::ranges::swap(u, v);
            Counts x = c.since();
            expect<T...>(u, b, "swap", what, seq);
            expect<T...>(v, a, "swap", what, seq);
            MON_CHECK(x.copies == 0 && x.ca == 0, KEY("swap-copies"), "%s: swap copied elements", what);
            if constexpr((copies<T> && ...)) {
                u.swap(u);
                expect<T...>(u, b, "self-swap", what, seq);
            }
        }
    }(seq);
    assign_from<Tup, Tup, T...>(r, (std::string(what) + " from its own type").c_str());
    seen(hash2(hash_str(what), hash2(a.empty() ? 0 : a[0], b.size() < 2 ? 0 : b[1])));
}

// Elements that log the order in which they are assigned
static std::vector<int>& order_log() {
    static std::vector<int> v;
    return v;
}
struct Logs {
    int v;
    Logs(int x = 0) : v(x) {}
    Logs(const Logs&) = default;
    Logs& operator=(const Logs& o) {
        order_log().push_back(o.v);
        v = o.v;
        return *this;
    }
};

#if PART == 15
static int three_way_dummy(int x) { return x; }
template<typename T, typename U>
void pair_subject(const char* name, long n) {
    cases(name, n, [&](Rng& r, long) {
        tr().reset();
        {
            using P = xme::Pair<T, U>;
            basics<P, T, U>(r, name);
            auto v = some(r, 2);
            {
                P p{mkv<T>(v[0]), mkv<U>(v[1])};
                auto& [x, y] = p;
                judged();
                MON_CHECK((const void*)std::addressof(x) == std::addressof(p.first) && (const void*)std::addressof(y) == std::addressof(p.second)
                            && std::addressof(get<0>(p)) == std::addressof(p.first) && std::addressof(get<1>(p)) == std::addressof(p.second),
                          KEY("access"), "%s: bindings, members and get disagree", name);
                MON_CHECK(id(p.first) == id_of<T>(v[0]) && id(p.second) == id_of<U>(v[1]), KEY("construct"), "%s", name);
                const P& cp    = p;
                auto& [cx, cy] = cp;
                static_assert(std::is_same_v<decltype((cx)), const T&> && std::is_same_v<decltype((cy)), const U&>);
                MON_CHECK(std::addressof(cx) == std::addressof(p.first) && std::addressof(cy) == std::addressof(p.second), KEY("access"), "%s: const bindings", name);
            }
            // make_pair
            {
                T t = mkv<T>(v[0]);
                U u = mkv<U>(v[1]);
                Counts c;
                auto p   = xme::make_pair(std::move(t), std::move(u));
                Counts x = c.since();
                static_assert(std::is_same_v<decltype(p), xme::Pair<T, U>>);
                expect<T, U>(p, v, "make-pair", name, std::index_sequence<0, 1>{});
                MON_CHECK(x.copies == 0 && x.moves == (tracked<T, U>), KEY("make-pair-cost"), "%s: make_pair of rvalues made %ld copies, %ld moves", name, x.copies, x.moves);
                if constexpr(copies<T> && copies<U>) {
                    T t2 = mkv<T>(v[0]);
                    const U u2 = mkv<U>(v[1]);
                    auto q = xme::make_pair(t2, u2);
                    static_assert(std::is_same_v<decltype(q), xme::Pair<T, U>>);
                    expect<T, U>(q, v, "make-pair", name, std::index_sequence<0, 1>{});
                    MON_CHECK(id(t2) == id_of<T>(v[0]) && id(u2) == id_of<U>(v[1]), KEY("source-modified"), "%s: make_pair modified an lvalue", name);
                    auto w = xme::make_pair(std::ref(t2), std::cref(u2));
                    static_assert(std::is_same_v<decltype(w), xme::Pair<T&, const U&>>);
                    MON_CHECK(std::addressof(get<0>(w)) == std::addressof(t2) && std::addressof(get<1>(w)) == std::addressof(u2), KEY("make-pair"), "%s: make_pair of reference wrappers refers elsewhere", name);
                    auto mixed = xme::make_pair(std::ref(t2), u2);
                    static_assert(std::is_same_v<decltype(mixed), xme::Pair<T&, U>>);
                    MON_CHECK(std::addressof(mixed.first) == std::addressof(t2) && id(mixed.second) == id_of<U>(v[1]), KEY("make-pair"), "%s: mixed", name);
                }
            }
            assign_from<P, std::pair<T, U>, T, U>(r, (std::string(name) + " from std::pair").c_str());
            assign_from<P, std::tuple<T, U>, T, U>(r, (std::string(name) + " from std::tuple").c_str());
            assign_from<P, xme::Tuple<T, U>, T, U>(r, (std::string(name) + " from Tuple").c_str());
            if constexpr(std::is_same_v<T, U>) assign_from<P, std::array<T, 2>, T, U>(r, (std::string(name) + " from std::array").c_str());
            comparisons<P, T, U>(r, name);
            // pairs of references
            if constexpr(copies<T> && copies<U>) {
                auto a = some(r, 2), b = some(r, 2);
                T t1 = mkv<T>(a[0]), t2 = mkv<T>(b[0]);
                U u1 = mkv<U>(a[1]), u2 = mkv<U>(b[1]);
                xme::Pair<T&, U&> p{t1, u1}, q{t2, u2};
                access<0, T&>(p, name);
                access<1, U&>(p, name);
                MON_CHECK(std::addressof(get<0>(p)) == std::addressof(t1) && std::addressof(p[at<1>{}]) == std::addressof(u1), KEY("access"), "%s: references", name);
                p.swap(q);
                MON_CHECK(id(t1) == id_of<T>(b[0]) && id(t2) == id_of<T>(a[0]) && id(u1) == id_of<U>(b[1]) && id(u2) == id_of<U>(a[1]), KEY("swap"), "%s: swap of references", name);
                p = std::pair<T, U>(mkv<T>(a[0]), mkv<U>(a[1]));
                MON_CHECK(id(t1) == id_of<T>(a[0]) && id(u1) == id_of<U>(a[1]), KEY("assign"), "%s: assignment through references", name);
                xme::Pair<T, U> s{mkv<T>(b[0]), mkv<U>(b[1])};
                p = s;
                MON_CHECK(id(t1) == id_of<T>(b[0]) && id(u1) == id_of<U>(b[1]) && id(s.first) == id_of<T>(b[0]) && id(s.second) == id_of<U>(b[1]), KEY("assign"), "%s: assignment through references", name);
                // const pairs of rvalues don't lose their elements
                const xme::Pair<T, U> cs{mkv<T>(a[0]), mkv<U>(a[1])};
                xme::Pair<T, U> d{mkv<T>(b[0]), mkv<U>(b[1])};
                d = std::move(cs);
                expect<T, U>(d, a, "assign", name, std::index_sequence<0, 1>{});
                expect<T, U>(cs, a, "source-modified", name, std::index_sequence<0, 1>{});
                auto rv = get<0>(std::move(s));
                (void)rv;
                MON_CHECK(id(s.second) == id_of<U>(b[1]), KEY("get-disturbs"), "%s: moving one element out changed the other", name);
            }
        }
        MON_CHECK(tr().live.empty(), KEY("lifetime"), "%s: %zu elements left alive", name, tr().live.size());
    });
}
#endif

#if PART == 16
template<typename... T>
struct Aggregate;
template<typename A>
struct Aggregate<A> {
    A a;
    friend const A& nth(const Aggregate& x, at<0>) { return x.a; }
};
template<typename A, typename B>
struct Aggregate<A, B> {
    A a;
    B b;
    friend const A& nth(const Aggregate& x, at<0>) { return x.a; }
    friend const B& nth(const Aggregate& x, at<1>) { return x.b; }
};
template<typename A, typename B, typename C>
struct Aggregate<A, B, C> {
    A a;
    B b;
    C c;
    friend const A& nth(const Aggregate& x, at<0>) { return x.a; }
    friend const B& nth(const Aggregate& x, at<1>) { return x.b; }
    friend const C& nth(const Aggregate& x, at<2>) { return x.c; }
};

template<typename... T>
void tuple_subject(const char* name, long n) {
    constexpr size_t N = sizeof...(T);
    constexpr auto seq = std::index_sequence_for<T...>{};
    cases(name, n, [&](Rng& r, long) {
        tr().reset();
        [&]<size_t... I>(std::index_sequence<I...>) {
            using P = xme::Tuple<T...>;
            static_assert(P::size == N);
            basics<P, T...>(r, name);
            auto a = some(r, N), b = some(r, N);
            comparisons<P, T...>(r, name);
            assign_from<P, std::tuple<T...>, T...>(r, (std::string(name) + " from std::tuple").c_str());
            if constexpr(N == 2) {
                assign_from<P, xme::Pair<T...>, T...>(r, (std::string(name) + " from Pair").c_str());
                assign_from<P, std::pair<T...>, T...>(r, (std::string(name) + " from std::pair").c_str());
            }
            if constexpr(N == 1) {
                P t{mkv<T>(a[I])...};
                auto& [x] = t;
                MON_CHECK((const void*)std::addressof(x) == std::addressof(get<0>(t)), KEY("access"), "%s: binding", name);
            }
            if constexpr(N == 2) {
                P t{mkv<T>(a[I])...};
                auto& [x, y] = t;
                MON_CHECK((const void*)std::addressof(x) == std::addressof(get<0>(t)) && (const void*)std::addressof(y) == std::addressof(get<1>(t)), KEY("access"), "%s: binding", name);
            }
            if constexpr(N == 3) {
                P t{mkv<T>(a[I])...};
                auto& [x, y, z] = t;
                MON_CHECK((const void*)std::addressof(x) == std::addressof(get<0>(t)) && (const void*)std::addressof(y) == std::addressof(get<1>(t)) && (const void*)std::addressof(z) == std::addressof(get<2>(t)),
                          KEY("access"), "%s: binding", name);
            }
            if constexpr((copies<T> && ...)) {
                // tuples of references write through
                std::tuple<T...> home(mkv<T>(a[I])...), home2(mkv<T>(b[I])...);
                xme::Tuple<T&...> refs{get<I>(home)...}, refs2{get<I>(home2)...};
                (access<I, T&>(refs, name), ...);
                ((MON_CHECK(std::addressof(get<I>(refs)) == std::addressof(std::get<I>(home)), KEY("access"), "%s: reference element %zu", name, I)), ...);
                refs.swap(refs2);
                expect<T...>(home, b, "swap", name, seq);
                expect<T...>(home2, a, "swap", name, seq);
                if constexpr(N > 0) {
                    refs = std::tuple<T...>(mkv<T>(a[I])...);
                    expect<T...>(home, a, "assign", name, seq);
                    xme::Tuple<T...> s{mkv<T>(b[I])...};
                    refs = s;
                    expect<T...>(home, b, "assign", name, seq);
                    expect<T...>(s, b, "source-modified", name, seq);
                    refs = std::move(s);
                    expect_moved<T...>(s, b, "rvalue-copied", name, seq);
                    const xme::Tuple<T...> cs{mkv<T>(a[I])...};
                    refs = std::move(cs);
                    expect<T...>(cs, a, "source-modified", name, seq);
                    expect<T...>(home, a, "assign", name, seq);
                    // to values, from references: the referred elements stay
                    xme::Tuple<T...> d{mkv<T>(b[I])...};
                    d = std::move(refs);
                    expect<T...>(d, a, "assign", name, seq);
                    expect<T...>(home, a, "lvalue-moved", name, seq);
                }
                // conversions
                const P t{mkv<T>(a[I])...};
                if constexpr(N > 0) {
                    Counts c;
                    xme::Tuple<const T...> q = t;
                    Counts x                 = c.since();
                    expect<T...>(q, a, "convert", name, seq);
                    MON_CHECK(x.copies == (tracked<T...>) && x.moves == 0, KEY("convert-cost"), "%s: %ld copies, %ld moves of %ld elements", name, x.copies, x.moves, tracked<T...>);
                    xme::Tuple<const T&...> cr = t;
                    ((MON_CHECK(std::addressof(get<I>(cr)) == std::addressof(get<I>(t)), KEY("convert"), "%s: converted reference %zu refers elsewhere", name, I)), ...);
                }
                if constexpr(N >= 1 && N <= 3) {
                    Aggregate<T...> g = t;
                    ((MON_CHECK(id(nth(g, at<I>{})) == id_of<T>(a[I]), KEY("convert"), "%s: element %zu of an aggregate", name, I)), ...);
                }
                if constexpr(N >= 2) {
                    std::tuple<T...> q = t;
                    expect<T...>(q, a, "convert", name, seq);
                }
                if constexpr(N == 2) {
                    std::pair<T...> q = t;
                    expect<T...>(q, a, "convert", name, seq);
                    xme::Pair<T...> p = t;
                    expect<T...>(p, a, "convert", name, seq);
                }
                expect<T...>(t, a, "source-modified", name, seq);
            }
        }(seq);
        MON_CHECK(tr().live.empty(), KEY("lifetime"), "%s: %zu elements left alive", name, tr().live.size());
    });
}
#endif

#if PART == 17
using S = std::string;
// Sources of tuple_cat: kinds of tuple-like with their element types
template<typename... T>
struct Els {};
template<typename Src, typename... T>
struct Kind {
    using type = Src;
    static Src make(const std::vector<int>& v) {
        return [&]<size_t... I>(std::index_sequence<I...>) { return Src{mkv<T>(v[I])...}; }(std::index_sequence_for<T...>{});
    }
    static constexpr size_t size  = sizeof...(T);
    static constexpr long objects = tracked<T...>;
    static constexpr bool copy    = (copies<T> && ...);
    static Els<T...> els();
};
using kinds = std::tuple<Kind<xme::Tuple<>>, Kind<xme::Tuple<O>, O>, Kind<xme::Tuple<int, O>, int, O>, Kind<xme::Pair<O, S>, O, S>,
                         Kind<std::pair<S, O>, S, O>, Kind<std::tuple<O, int, S>, O, int, S>, Kind<std::array<O, 2>, O, O>,
                         Kind<xme::Tuple<E, O, S, O>, E, O, S, O>, Kind<xme::Tuple<M>, M>, Kind<std::pair<M, int>, M, int>>;
constexpr size_t n_kinds   = std::tuple_size_v<kinds>;
constexpr size_t n_choices = n_kinds * 3;  // lvalue, const lvalue, rvalue
template<size_t C>
struct Choice {
    using kind                = std::tuple_element_t<C / 3, kinds>;
    static constexpr int cat  = C % 3;
    static constexpr bool ok  = cat == 2 || kind::copy;
};
constexpr size_t legal(size_t c) {
    // move only kinds are the last two
    return c / 3 >= n_kinds - 2 ? c / 3 * 3 + 2 : c;
}

template<typename A, typename B>
struct Join;
template<typename... A, typename... B>
struct Join<Els<A...>, Els<B...>> {
    using type = Els<A..., B...>;
};
template<typename... X>
struct JoinAll {
    using type = Els<>;
};
template<typename X, typename... R>
struct JoinAll<X, R...> {
    using type = typename Join<X, typename JoinAll<R...>::type>::type;
};

template<size_t... C>
void cat_one(Rng& r) {
    constexpr size_t args = sizeof...(C);
    std::vector<std::vector<int>> vals{some(r, Choice<C>::kind::size)...};
    std::vector<int> all;
    for(auto& v : vals) all.insert(all.end(), v.begin(), v.end());
    std::string what = "tuple_cat";
    ((what += fmt(" %d%c", (int)(C / 3), "lcr"[C % 3])), ...);
    note("%s\n", what.c_str());
    [&]<size_t... A>(std::index_sequence<A...>) {
        std::tuple<typename Choice<C>::kind::type...> src{Choice<C>::kind::make(vals[A])...};
        auto pass = [&]<size_t K, size_t Ch>() -> decltype(auto) {
            auto& x = std::get<K>(src);
            if constexpr(Choice<Ch>::cat == 0) return (x);
            else if constexpr(Choice<Ch>::cat == 1) return std::as_const(x);
            else return std::move(x);
        };
        Counts c;
        auto cat = xme::tuple_cat(pass.template operator()<A, C>()...);
        Counts x = c.since();
        long copied = (0 + ... + (Choice<C>::cat != 2 ? Choice<C>::kind::objects : 0));
        long moved  = (0 + ... + (Choice<C>::cat == 2 ? Choice<C>::kind::objects : 0));
        judged();
        MON_CHECK(x.copies == copied && x.moves == moved && x.ctors == 0, KEY("cat-cost"), "%s: %ld copies, %ld moves instead of %ld, %ld", what.c_str(), x.copies, x.moves, copied, moved);
        using joined = typename JoinAll<decltype(Choice<C>::kind::els())...>::type;
        [&]<typename... T>(Els<T...>) {
            static_assert(std::is_same_v<decltype(cat), xme::Tuple<T...>>);
            expect<T...>(cat, all, "cat-order", what.c_str(), std::index_sequence_for<T...>{});
        }(joined{});
        auto after = [&]<size_t K, size_t Ch>() {
            [&]<typename... T>(Els<T...>) {
                auto& s = std::get<K>(src);
                if constexpr(Choice<Ch>::cat == 2) expect_moved<T...>(s, vals[K], "rvalue-copied", what.c_str(), std::index_sequence_for<T...>{});
                else expect<T...>(s, vals[K], "lvalue-modified", what.c_str(), std::index_sequence_for<T...>{});
            }(decltype(Choice<Ch>::kind::els()){});
        };
        (after.template operator()<A, C>(), ...);
    }(std::make_index_sequence<args>{});
    seen(hash_str(what.c_str()));
}
constexpr size_t pick(size_t n, size_t k) {
    unsigned long x = n * 0x9E3779B97F4A7C15ul + k * 0xBF58476D1CE4E5B9ul + 12345;
    x ^= x >> 31;
    x *= 0x94D049BB133111EBul;
    x ^= x >> 29;
    return legal(x % n_choices);
}
template<size_t... I>
void cat_ones(Rng& r, std::index_sequence<I...>) {
    (cat_one<legal(I)>(r), ...);
}
template<size_t... I>
void cat_twos(Rng& r, std::index_sequence<I...>) {
    (cat_one<pick(I, 1), pick(I, 2)>(r), ...);
}
template<size_t... I>
void cat_threes(Rng& r, std::index_sequence<I...>) {
    (cat_one<pick(I, 3), pick(I, 4), pick(I, 5)>(r), ...);
}
template<size_t... I>
void cat_fives(Rng& r, std::index_sequence<I...>) {
    (cat_one<pick(I, 6), pick(I, 7), pick(I, 8), pick(I, 9), pick(I, 10)>(r), ...);
}

template<size_t... I>
void cat_nines(Rng& r, std::index_sequence<I...>) {
    (cat_one<pick(I, 11), pick(I, 12), pick(I, 13), pick(I, 14), pick(I, 15), pick(I, 16), pick(I, 17), pick(I, 18), pick(I, 19)>(r), ...);
}

// The function given to apply: records how it was called
struct Recorder {
    std::vector<long>* got;
    std::vector<const void*>* where;
    int* calls;
    int* self;  // 1: called as lvalue, 2: const lvalue, 3: rvalue
    std::string* cats;
    template<typename A>
    void one(A&& a) const {
        got->push_back(id(a));
        where->push_back(std::addressof(a));
        *cats += std::is_lvalue_reference_v<A&&> ? (std::is_const_v<std::remove_reference_t<A>> ? 'c' : 'l') : 'r';
    }
    template<typename... A>
    int& record(int who, A&&... a) const {
        ++*calls;
        *self = who;
        (one(std::forward<A>(a)), ...);
        return *calls;
    }
    template<typename... A> int& operator()(A&&... a) & { return record(1, std::forward<A>(a)...); }
    template<typename... A> int& operator()(A&&... a) const& { return record(2, std::forward<A>(a)...); }
    template<typename... A> int& operator()(A&&... a) && { return record(3, std::forward<A>(a)...); }
};

template<typename K>
void apply_one(Rng& r, const char* what) {
    using Src = typename K::type;
    [&]<typename... T>(Els<T...>) {
        constexpr auto seq = std::index_sequence_for<T...>{};
        for(int form = 0; form < 9; ++form) {
            auto v = some(r, K::size);
            Src s  = K::make(v);
            std::vector<long> got;
            std::vector<const void*> where;
            int n_calls = 0, self = 0;
            std::string cats;
            Recorder f{&got, &where, &n_calls, &self, &cats};
            int tuple_as = form % 3, call_as = form / 3;
            note("apply %s, form %d\n", what, form);
            Counts c;
            auto go = [&](auto&& fn) -> int& {
                static_assert(std::is_same_v<decltype(xme::apply(std::forward<decltype(fn)>(fn), s)), int&>);
                if(tuple_as == 0) return xme::apply(std::forward<decltype(fn)>(fn), s);
                if(tuple_as == 1) return xme::apply(std::forward<decltype(fn)>(fn), std::as_const(s));
                return xme::apply(std::forward<decltype(fn)>(fn), std::move(s));
            };
            int& res = call_as == 0 ? go(f) : call_as == 1 ? go(std::as_const(f)) : go(std::move(f));
            Counts x = c.since();
            judged();
            MON_CHECK(n_calls == 1, KEY("apply-calls"), "%s: the function was called %d times", what, n_calls);
            MON_CHECK(&res == &n_calls, KEY("apply-result"), "%s: another object was returned", what);
            MON_CHECK(self == call_as + 1, KEY("apply-function-category"), "%s: the function was called as form %d instead of %d", what, self, call_as + 1);
            MON_CHECK(cats == std::string(K::size, "lcr"[tuple_as]), KEY("apply-category"), "%s: elements arrived as %s", what, cats.c_str());
            [&]<size_t... I>(std::index_sequence<I...>) {
                std::vector<long> want{id_of<T>(v[I])...};
                std::vector<const void*> there{(const void*)std::addressof(get<I>(s))...};
                MON_CHECK(got == want && where == there, KEY("apply-order"), "%s: elements arrived in another order, or as copies", what);
            }(seq);
            MON_CHECK(x.copies + x.moves + x.ctors == 0, KEY("apply-cost"), "%s: elements were copied or moved", what);
            expect<T...>(s, v, "lvalue-modified", what, seq);
            seen(hash2(hash_str(what), form));
        }
        if constexpr(K::size > 0) {  // by value: moved from rvalues, copied from lvalues
            auto v   = some(r, K::size);
            Src s    = K::make(v);
            auto f   = [](T... t) { return (0 + ... + (int)sizeof(t)); };
            if constexpr(K::copy) {
                Counts c;
                xme::apply(f, s);
                Counts x = c.since();
                MON_CHECK(x.copies == K::objects && x.moves == 0, KEY("apply-cost"), "%s: %ld copies %ld moves for parameters from an lvalue", what, x.copies, x.moves);
                expect<T...>(s, v, "lvalue-modified", what, seq);
            }
            Counts c;
            xme::apply(f, std::move(s));
            Counts x = c.since();
            MON_CHECK(x.copies == 0 && x.moves == K::objects, KEY("apply-cost"), "%s: %ld copies %ld moves for parameters from an rvalue", what, x.copies, x.moves);
            expect_moved<T...>(s, v, "rvalue-copied", what, seq);
        }
    }(decltype(K::els()){});
}

template<typename... T>
void makers(Rng& r, const char* what) {
    constexpr auto seq = std::index_sequence_for<T...>{};
    constexpr size_t N = sizeof...(T);
    constexpr long k   = tracked<T...>;
    auto a = some(r, N), b = some(r, N);
    [&]<size_t... I>(std::index_sequence<I...>) {
        note("makers %s\n", what);
        {
            std::tuple<T...> home{mkv<T>(a[I])...};
            Counts c;
            auto t   = xme::make_tuple(std::move(std::get<I>(home))...);
            Counts x = c.since();
            static_assert(std::is_same_v<decltype(t), xme::Tuple<T...>>);
            expect<T...>(t, a, "make-tuple", what, seq);
            MON_CHECK(x.copies == 0 && x.moves == k, KEY("make-tuple-cost"), "%s: %ld copies, %ld moves", what, x.copies, x.moves);
            expect_moved<T...>(home, a, "rvalue-copied", what, seq);
        }
        std::tuple<T...> home{mkv<T>(a[I])...};
        auto f = xme::forward_as_tuple(std::get<I>(home)...);
        static_assert(std::is_same_v<decltype(f), xme::Tuple<T&...>>);
        Counts c;
        auto fr = xme::forward_as_tuple(std::move(std::get<I>(home))...);
        static_assert(std::is_same_v<decltype(fr), xme::Tuple<T&&...>>);
        auto fc = xme::forward_as_tuple(std::as_const(std::get<I>(home))...);
        static_assert(std::is_same_v<decltype(fc), xme::Tuple<const T&...>>);
        Counts x = c.since();
        ((MON_CHECK(std::addressof(get<I>(f)) == std::addressof(std::get<I>(home)) && std::addressof(get<I>(fr)) == std::addressof(std::get<I>(home)) && std::addressof(get<I>(fc)) == std::addressof(std::get<I>(home)),
                    KEY("forward-as-tuple"), "%s: element %zu refers elsewhere", what, I)),
         ...);
        MON_CHECK(x.copies + x.moves == 0, KEY("forward-cost"), "%s: forward_as_tuple copied or moved", what);
        auto ti = xme::tie(std::get<I>(home)...);
        static_assert(std::is_same_v<decltype(ti), xme::Tuple<T&...>>);
        ((MON_CHECK(std::addressof(get<I>(ti)) == std::addressof(std::get<I>(home)), KEY("tie"), "%s: element %zu refers elsewhere", what, I)), ...);
        judged();
        expect<T...>(home, a, "lvalue-modified", what, seq);
        if constexpr(N > 0) {
            Counts c2;
            {
                xme::Tuple<T...> src{mkv<T>(b[I])...};
                c2 = Counts();
                xme::tie(std::get<I>(home)...) = std::move(src);
                Counts y = c2.since();
                MON_CHECK(y.ma == k && y.ca == 0 && y.copies == 0 && y.moves == 0, KEY("tie-cost"), "%s: %ld copies, %ld moves", what, y.ca + y.copies, y.ma + y.moves);
            }
            expect<T...>(home, b, "tie", what, seq);
        }
        if constexpr((copies<T> && ...)) {
            Counts c2;
            auto t   = xme::make_tuple(std::get<I>(home)...);
            auto t2  = xme::make_tuple(std::as_const(std::get<I>(home))...);
            Counts y = c2.since();
            static_assert(std::is_same_v<decltype(t), xme::Tuple<T...>> && std::is_same_v<decltype(t2), xme::Tuple<T...>>);
            const auto& want = N > 0 ? b : a;
            expect<T...>(t, want, "make-tuple", what, seq);
            expect<T...>(t2, want, "make-tuple", what, seq);
            expect<T...>(home, want, "lvalue-modified", what, seq);
            MON_CHECK(y.copies == 2 * k && y.moves == 0, KEY("make-tuple-cost"), "%s: %ld copies, %ld moves", what, y.copies, y.moves);
            auto w = xme::make_tuple(std::ref(std::get<I>(home))..., std::cref(std::get<I>(home))...);
            static_assert(std::is_same_v<decltype(w), xme::Tuple<T&..., const T&...>>);
            ((MON_CHECK(std::addressof(get<I>(w)) == std::addressof(std::get<I>(home)) && std::addressof(get<I + N>(w)) == std::addressof(std::get<I>(home)), KEY("make-tuple"), "%s: reference wrapper %zu refers elsewhere", what, I)), ...);
            // references in concatenations
            auto cat = xme::tuple_cat(xme::tie(std::get<I>(home)...), xme::make_tuple(1), xme::forward_as_tuple(std::as_const(std::get<I>(home))...));
            static_assert(std::is_same_v<decltype(cat), xme::Tuple<T&..., int, const T&...>>);
            ((MON_CHECK(std::addressof(get<I>(cat)) == std::addressof(std::get<I>(home)) && std::addressof(get<I + N + 1>(cat)) == std::addressof(std::get<I>(home)), KEY("cat-references"), "%s: %zu", what, I)), ...);
            MON_CHECK(get<N>(cat) == 1, KEY("cat-order"), "%s: value between references", what);
            // tuples of references lend lvalues also as rvalues
            xme::apply([&](auto&&... e) {
                static_assert((std::is_lvalue_reference_v<decltype(e)> && ...));
            }, xme::tie(std::get<I>(home)...));
            expect<T...>(home, want, "lvalue-modified", what, seq);
        }
    }(seq);
    seen(hash2(hash_str(what), a.size()));
}
static int three(int a, const std::string& b, double c) { return a * 100 + (int)b.size() * 10 + (int)c; }
#endif

// Exceptions of element operations reach the caller and leave no element behind
using X = Obj<k_copy | k_default | k_throw_all>;                 // copies throw
using Y = Obj<k_copy | k_default | k_throw_all | k_throw_move>;  // moves throw as well
// f fails at its every throwing operation in turn; `then` sees what is left
template<typename F, typename G>
void failing(const char* what, F&& f, G&& then) {
    for(int at = 0;; ++at) {
        const size_t live = tr().live.size();
        bool caught       = false;
        note("%s failing at %d\n", what, at);
        tr().arm(at, -1);
        try {
            f();
        } catch(const Injected&) {
            caught = true;
        }
        const bool fired = tr().fired;
        tr().disarm();
        judged();
        MON_CHECK(fired == caught, KEY("exception-lost"), "%s: an exception of an element (operation %d) didn't reach the caller", what, at);
        MON_CHECK(tr().live.size() == live, KEY("exception-leak"), "%s: %zu elements alive instead of %zu after failing at %d", what, tr().live.size(), live, at);
        then(fired ? at : -1);
        seen(hash2(hash_str(what), at));
        if(!fired) return;
    }
}
template<typename F>
void failing(const char* what, F&& f) {
    failing(what, f, [](int) {});
}

template<typename A, typename B>
concept has_common_type = requires { typename std::common_type_t<A, B>; };

// swap, in its three spellings, of what holds some elements that throw when moved
template<typename P, typename Make>
void failing_swap(const char* what, bool nothrow, Make&& make) {
    MON_CHECK(noexcept(std::declval<P&>().swap(std::declval<P&>())) == nothrow && std::is_nothrow_swappable_v<P> == nothrow, KEY("swap-noexcept"), "%s: whether swapping can throw isn't what the elements say", what);
    for(int way = 0; way < 3; ++way)
        failing(what, [&] {
            Quiet* q = new Quiet;
            P p = make(0), o = make(1);
            delete q;
            if(way == 0) p.swap(o);
            else if(way == 1) swap(p, o);
            else std::ranges::swap(p, o);
        });
}

int main(int argc, char** argv) {
    init(argc, argv);
    lifetime_prefix() = PFX;
    long n = st().cases;
    (void)n;
    using S = std::string;
#if PART == 15
#if !defined HALF || HALF == 0
    pair_subject<int, int>("Pair<int, int>", n);
    pair_subject<int, double>("Pair<int, double>", n);
    pair_subject<double, int>("Pair<double, int>", n);
    pair_subject<double, double>("Pair<double, double>", n);
    pair_subject<O, O>("Pair<object, object>", n);
    pair_subject<O, int>("Pair<object, int>", n);
    pair_subject<S, O>("Pair<string, object>", n);
#endif
#if !defined HALF || HALF == 1
    pair_subject<M, O>("Pair<move only, object>", n);
    pair_subject<O, M>("Pair<object, move only>", n);
    pair_subject<M, M>("Pair<move only, move only>", n);
    pair_subject<E, O>("Pair<empty, object>", n);
    pair_subject<O, E>("Pair<object, empty>", n);
    pair_subject<E, E>("Pair<empty, empty>", n);
#endif
#if !defined HALF || HALF == 2
    pair_subject<E, E2>("Pair<empty, empty2>", n);
    pair_subject<W, int>("Pair<weak, int>", n);
    pair_subject<int, W>("Pair<int, weak>", n);
    pair_subject<W, double>("Pair<weak, double>", n);
    cases("exceptions", n, [&](Rng& r, long) {
        auto v = some(r, 4);
        {
            using P = xme::Pair<X, Y>;
            X a(v[0]);
            Y b(v[1]);
            const P from{a, b};
            auto intact = [&](const char* what) {
                MON_CHECK(val(from.first) == v[0] && val(from.second) == v[1] && val(a) == v[0] && val(b) == v[1], "C15:exception-source", "%s changed what it copied from", what);
            };
            failing("Pair of two values", [&] { P p{a, b}; }, [&](int) { intact("construction"); });
            failing("Pair copy", [&] { P p(from); }, [&](int) { intact("copying"); });
            failing("Pair by default", [&] { P p; });
            failing("Pair move", [&] {
                Quiet* q = new Quiet;
                P t{a, b};
                delete q;
                P p(std::move(t));
            });
            failing("make_pair", [&] { auto p = xme::make_pair(a, b); (void)p; }, [&](int) { intact("make_pair"); });
            // assignments: first is assigned before second
            auto assign = [&](const char* what, auto&& f, int ops_first) {
                Quiet* q = new Quiet;
                P p{X(v[2]), Y(v[3])};
                delete q;
                failing(what, [&] { f(p); }, [&](int at) {
                    const bool one = at < 0 || at >= ops_first, two = at < 0;
                    MON_CHECK(val(p.first) == (one ? v[0] : v[2]) && val(p.second) == (two ? v[1] : v[3]), "C15:exception-assign", "%s failing at %d: %d, %d", what, at, val(p.first), val(p.second));
                    intact(what);
                    p.first  = X(v[2]);
                    p.second = Y(v[3]);
                });
            };
            assign("assignment from Pair", [&](P& p) { p = from; }, 1);
            assign("assignment from a Pair of references", [&](P& p) { p = xme::Pair<const X&, const Y&>{a, b}; }, 1);
            const std::pair<X, Y> sp(a, b);
            assign("assignment from std::pair", [&](P& p) { p = sp; }, 1);
            const std::tuple<X, Y> st(a, b);
            assign("assignment from std::tuple", [&](P& p) { p = st; }, 1);
            assign("assignment from Tuple of references", [&](P& p) { p = xme::tie(std::as_const(a), std::as_const(b)); }, 1);
            {
                // elements that throw when copied, but not when moved or swapped
                xme::Pair<X, X> p{X(v[2]), X(v[3])};
                const xme::Pair<X, X> from2{a, a};
                const std::pair<X, X> sp2(a, a);
                const std::tuple<X, X> st2(a, a);
                const std::array<X, 2> sa2{a, a};
                auto assign2 = [&](const char* what, auto&& from) {
                    failing(what, [&] { p = from; }, [&](int at) {
                        MON_CHECK(val(p.first) == (at == 0 ? v[2] : v[0]) && val(p.second) == (at < 0 ? v[0] : v[3]), "C15:exception-assign", "%s failing at %d: %d, %d", what, at, val(p.first), val(p.second));
                        p.first  = X(v[2]);
                        p.second = X(v[3]);
                    });
                };
                assign2("assignment from Pair<X, X>", from2);
                assign2("assignment from std::pair<X, X>", sp2);
                assign2("assignment from std::tuple<X, X>", st2);
                assign2("assignment from a Pair of references", xme::Pair<const X&, const X&>{a, a});
                assign2("assignment from a Tuple", xme::make_tuple(std::cref(a), std::cref(a)));
                assign2("assignment from std::array<X, 2>", sa2);
            }
            failing("Pair swap", [&] {
                Quiet* q = new Quiet;
                P p{X(v[2]), Y(v[3])}, o{a, b};
                delete q;
                std::swap(p, o);
            });
            failing_swap<xme::Pair<int, Y>>("swap of Pair<int, Y>", false, [&](int k) { return xme::Pair<int, Y>{v[k], Y(v[k])}; });
            failing_swap<xme::Pair<Y, int>>("swap of Pair<Y, int>", false, [&](int k) { return xme::Pair<Y, int>{Y(v[k]), v[k]}; });
            failing_swap<xme::Pair<X, Y>>("swap of Pair<X, Y>", false, [&](int k) { return xme::Pair<X, Y>{X(v[k]), Y(v[k])}; });
            failing_swap<xme::Pair<Y, Y>>("swap of Pair<Y, Y>", false, [&](int k) { return xme::Pair<Y, Y>{Y(v[k]), Y(v[k])}; });
            failing_swap<xme::Pair<X, X>>("swap of Pair<X, X>", true, [&](int k) { return xme::Pair<X, X>{X(v[k]), X(v[k])}; });
            failing_swap<xme::Pair<int, S>>("swap of Pair<int, string>", true, [&](int k) { return xme::Pair<int, S>{v[k], "s"}; });
        }
    });
    cases("assignment order", n, [&](Rng& r, long) {
        auto v = some(r, 2);
        xme::Pair<Logs, Logs> p{1, 2}, q{v[0], v[1]};
        auto check = [&](const char* what) {
            judged();
            MON_CHECK(order_log() == v && p.first.v == v[0] && p.second.v == v[1], "C15:assign-order", "%s: not first, then second", what);
            order_log().clear();
            p.first.v = p.second.v = -1;
        };
        order_log().clear();
        p = q;
        check("Pair");
        p = std::as_const(q);
        check("const Pair");
        p = std::make_pair(v[0], v[1]);
        check("std::pair of int");
        p = xme::make_tuple((short)v[0], (long)v[1]);
        v[0] = (short)v[0];
        order_log().clear();
        p = std::make_tuple((short)v[0], (long)v[1]);
        check("std::tuple of others");
        // from a pair of references to its own elements: first is assigned before second is read
        int before = p.second.v = v[1];
        p.first.v               = v[0];
        p = std::tuple<Logs&, Logs&>(p.second, p.first);
        MON_CHECK(p.first.v == before && p.second.v == before, "C15:assign-order", "assignment from its own elements");
        order_log().clear();
        seen(hash2(v[0], v[1]));
    });
    cases("conversions", n, [&](Rng& r, long) {
        auto v = some(r, 2);
        xme::Pair<long, S> p{0, ""};
        std::pair<int, const char*> s(v[0], "a string that is long enough for the heap");
        p = s;
        judged();
        MON_CHECK(p.first == v[0] && p.second == s.second, "C15:assign", "from std::pair of other types");
        p = std::tuple<short, S>((short)v[1], "x");
        MON_CHECK(p.first == (short)v[1] && p.second == "x", "C15:assign", "from std::tuple of other types");
        p = xme::Pair<unsigned char, S>{(unsigned char)v[0], "y"};
        MON_CHECK(p.first == (unsigned char)v[0] && p.second == "y", "C15:assign", "from Pair of other types");
        int i = v[0];
        S str = "referred";
        p     = std::tie(i, str);
        MON_CHECK(p.first == i && p.second == "referred" && str == "referred", "C15:assign", "from a tuple of references");
        p = xme::tie(i, str);
        MON_CHECK(p.first == i && p.second == "referred" && str == "referred", "C15:assign", "from a Tuple of references");
        xme::Pair q{i, str};
        static_assert(std::is_same_v<decltype(q), xme::Pair<int, S>>);
        xme::Pair w{std::ref(i), std::cref(str)};
        static_assert(std::is_same_v<decltype(w), xme::Pair<int&, const S&>>);
        MON_CHECK(&w.first == &i && &w.second == &str, "C15:construct", "reference wrappers");
        const char* lit = "literal";
        auto d          = xme::make_pair("literal", v[1]);
        static_assert(std::is_same_v<decltype(d), xme::Pair<const char*, int>>);
        MON_CHECK(S(d.first) == lit && d.second == v[1], "C15:make-pair", "array argument");
        int arr[2] = {v[0], v[1]};
        auto e     = xme::make_pair(arr, three_way_dummy);
        (void)e;
        MON_CHECK(e.first == arr && e.second == three_way_dummy, "C15:make-pair", "array and function arguments decay");
        seen(hash2(v[0], 3 + v[1]));
    });
#endif
#elif PART == 16
#if !defined HALF || HALF == 0
    tuple_subject<>("Tuple<>", n);
    tuple_subject<int>("Tuple<int>", n);
    tuple_subject<O>("Tuple<object>", n);
    tuple_subject<M>("Tuple<move only>", n);
    tuple_subject<E>("Tuple<empty>", n);
    tuple_subject<double>("Tuple<double>", n);
    tuple_subject<int, int>("Tuple<int, int>", n);
    tuple_subject<double, int>("Tuple<double, int>", n);
#endif
#if !defined HALF || HALF == 1
    tuple_subject<O, O>("Tuple<object, object>", n);
    tuple_subject<S, M>("Tuple<string, move only>", n);
    tuple_subject<E, E>("Tuple<empty, empty>", n);
    tuple_subject<W, double>("Tuple<weak, double>", n);
    tuple_subject<int, O, S>("Tuple<int, object, string>", n);
    tuple_subject<O, E, O>("Tuple<object, empty, object>", n);
#endif
#if !defined HALF || HALF == 2
    tuple_subject<double, W, int>("Tuple<double, weak, int>", n);
    tuple_subject<M, O, M>("Tuple<move only, object, move only>", n);
    tuple_subject<E, E2, E, int>("Tuple<empty, empty2, empty, int>", n);
    tuple_subject<O, int, O, double, S>("Tuple<object, int, object, double, string>", n);
    tuple_subject<int, int, int, int, int, int, int, int>("Tuple<8 x int>", n);
#endif
#if !defined HALF || HALF == 3
    tuple_subject<O, int, O, S, E, int, O, O, int, E2, S, O, int>("Tuple of 13", n / 3);
    tuple_subject<int, long, int, short, int, int, int, int, int, int, int, int, int, int, int, int, long, int, int, int, int>("Tuple of 21", n / 3);
#endif
#if !defined HALF || HALF == 2
    cases("exceptions", n, [&](Rng& r, long) {
        auto v = some(r, 6);
        {
            using T = xme::Tuple<X, int, Y, X>;
            X a(v[0]), c(v[2]);
            Y b(v[1]);
            const T from{a, 5, b, c};
            auto intact = [&](const char* what) {
                MON_CHECK(val(get<0>(from)) == v[0] && val(get<2>(from)) == v[1] && val(get<3>(from)) == v[2] && val(a) == v[0] && val(b) == v[1] && val(c) == v[2], "C16:exception-source", "%s changed what it copied from", what);
            };
            auto loud = [&](auto&& make) {
                Quiet* q = new Quiet;
                auto t   = make();
                delete q;
                return t;
            };
            (void)loud;
            failing("Tuple of values", [&] { T t{a, 5, b, c}; }, [&](int) { intact("construction"); });
            failing("Tuple copy", [&] { T t(from); }, [&](int) { intact("copying"); });
            failing("Tuple by default", [&] { T t; });
            failing("Tuple move", [&] {
                Quiet* q = new Quiet;
                T t{a, 5, b, c};
                delete q;
                T u(std::move(t));
            });
            failing("Tuple conversion", [&] { std::tuple<X, long, Y, X> u = from; }, [&](int) { intact("conversion"); });
            failing("Tuple conversion to Tuple", [&] { xme::Tuple<X, long, Y, X> u = from; }, [&](int) { intact("conversion"); });
            // assignments: the elements before the failing one are assigned, the others aren't touched
            auto assign = [&](const char* what, auto&& f) {
                Quiet* q = new Quiet;
                T t{X(v[3]), 9, Y(v[4]), X(v[5])};
                delete q;
                failing(what, [&] { f(t); }, [&](int at) {
                    const int done = at < 0 ? 3 : at;
                    MON_CHECK(val(get<0>(t)) == v[done > 0 ? 0 : 3] && get<1>(t) == (done > 0 ? 5 : 9) && val(get<2>(t)) == v[done > 1 ? 1 : 4] && val(get<3>(t)) == v[done > 2 ? 2 : 5],
                              "C16:exception-assign", "%s failing at %d: %d, %d, %d, %d", what, at, val(get<0>(t)), get<1>(t), val(get<2>(t)), val(get<3>(t)));
                    intact(what);
                    get<0>(t) = X(v[3]);
                    get<1>(t) = 9;
                    get<2>(t) = Y(v[4]);
                    get<3>(t) = X(v[5]);
                });
            };
            assign("assignment from Tuple", [&](T& t) { t = from; });
            const std::tuple<X, short, Y, X> st{a, 5, b, c};
            assign("assignment from std::tuple", [&](T& t) { t = st; });
            assign("assignment from a Tuple of references", [&](T& t) { const short five = 5; t = xme::tie(std::as_const(a), five, std::as_const(b), std::as_const(c)); });
            {
                // elements that throw when copied, but not when moved or swapped
                xme::Tuple<X, X> t{X(v[3]), X(v[4])};
                const xme::Tuple<X, X> from2{a, c};
                const std::pair<X, X> sp2(a, c);
                const std::tuple<X, X> st2(a, c);
                const std::array<X, 2> sa2{a, c};
                auto assign2 = [&](const char* what, auto&& from) {
                    failing(what, [&] { t = from; }, [&](int at) {
                        MON_CHECK(val(get<0>(t)) == (at == 0 ? v[3] : v[0]) && val(get<1>(t)) == (at < 0 ? v[2] : v[4]), "C16:exception-assign", "%s failing at %d: %d, %d", what, at, val(get<0>(t)), val(get<1>(t)));
                        get<0>(t) = X(v[3]);
                        get<1>(t) = X(v[4]);
                    });
                };
                assign2("assignment from Tuple<X, X>", from2);
                assign2("assignment from std::pair<X, X>", sp2);
                assign2("assignment from std::tuple<X, X>", st2);
                assign2("assignment from a tie", xme::tie(std::as_const(a), std::as_const(c)));
                assign2("assignment from a tuple of references", std::tie(std::as_const(a), std::as_const(c)));
                assign2("assignment from std::array<X, 2>", sa2);
            }
            failing("Tuple assigned from std::array", [&] {
                Quiet* q = new Quiet;
                xme::Tuple<X, X> t{a, c};
                const std::array<X, 2> arr{a, c};
                delete q;
                t = arr;
            });
            failing("Tuple swap", [&] {
                Quiet* q = new Quiet;
                T t{X(v[3]), 9, Y(v[4]), X(v[5])}, u{a, 5, b, c};
                delete q;
                std::swap(t, u);
            });
            failing_swap<xme::Tuple<int, Y>>("swap of Tuple<int, Y>", false, [&](int k) { return xme::Tuple<int, Y>{v[k], Y(v[k])}; });
            failing_swap<xme::Tuple<Y, int>>("swap of Tuple<Y, int>", false, [&](int k) { return xme::Tuple<Y, int>{Y(v[k]), v[k]}; });
            failing_swap<xme::Tuple<Y>>("swap of Tuple<Y>", false, [&](int k) { return xme::Tuple<Y>{Y(v[k])}; });
            failing_swap<xme::Tuple<X, Y, int>>("swap of Tuple<X, Y, int>", false, [&](int k) { return xme::Tuple<X, Y, int>{X(v[k]), Y(v[k]), 1}; });
            failing_swap<xme::Tuple<X, int, X>>("swap of Tuple<X, int, X>", true, [&](int k) { return xme::Tuple<X, int, X>{X(v[k]), 1, X(v[k])}; });
        }
    });
    cases("assignment order", n, [&](Rng& r, long) {
        auto v = some(r, 4);
        xme::Tuple<Logs, Logs, Logs, Logs> t{1, 2, 3, 4};
        order_log().clear();
        t = std::make_tuple(v[0], v[1], v[2], v[3]);
        judged();
        MON_CHECK(get<0>(t).v == v[0] && get<1>(t).v == v[1] && get<2>(t).v == v[2] && get<3>(t).v == v[3], "C16:assign", "from other element types");
        MON_CHECK(order_log() == v, "C16:assign-order", "elements weren't assigned in order");
        std::array<short, 4> arr{(short)v[3], (short)v[2], (short)v[1], (short)v[0]};
        t = arr;
        MON_CHECK(get<0>(t).v == arr[0] && get<1>(t).v == arr[1] && get<2>(t).v == arr[2] && get<3>(t).v == arr[3], "C16:assign", "from std::array");
        xme::Tuple<long, double, char, S> m{0, 0, 0, ""};
        m = std::make_tuple(v[0], v[1], (char)('a' + v[2] % 26), "text");
        MON_CHECK(get<0>(m) == v[0] && get<1>(m) == v[1] && get<2>(m) == 'a' + v[2] % 26 && get<3>(m) == "text", "C16:assign", "mixed types");
        m = xme::Tuple<short, float, int, const char*>{(short)(v[3] % 1000), 2.5f, 'z', "other"};
        MON_CHECK(get<0>(m) == v[3] % 1000 && get<1>(m) == 2.5 && get<2>(m) == 'z' && get<3>(m) == "other", "C16:assign", "mixed types from Tuple");
        int i = v[0];
        S str = "s";
        xme::Tuple q{i, str, std::ref(i), std::cref(str)};
        static_assert(std::is_same_v<decltype(q), xme::Tuple<int, S, int&, const S&>>);
        MON_CHECK(&get<2>(q) == &i && &get<3>(q) == &str && get<0>(q) == i && get<1>(q) == "s", "C16:construct", "deduced with reference wrappers");
        seen(hash2(v[0], hash2(v[1], v[2])));
    });
    cases("common types", n, [&](Rng& r, long) {
        using xme::Tuple;
        static_assert(std::is_same_v<std::common_type_t<Tuple<int, float>, Tuple<long, char>>, Tuple<long, float>>);
        static_assert(std::is_same_v<std::common_type_t<Tuple<const char*>, Tuple<S>>, Tuple<S>>);
        static_assert(std::is_same_v<std::common_type_t<Tuple<short>, Tuple<int>, Tuple<double>>, Tuple<double>>);
        static_assert(std::is_same_v<std::common_type_t<Tuple<>, Tuple<>>, Tuple<>>);
        static_assert(std::is_same_v<std::common_reference_t<Tuple<int&, S&>, Tuple<int, S>>, Tuple<int, S>>);
        static_assert(std::is_same_v<std::common_reference_t<Tuple<int&, S&>&, Tuple<int&, const S&>&>, Tuple<int&, const S&>>);
        static_assert(std::is_same_v<std::common_reference_t<Tuple<int, S>&, const Tuple<long, S>&>, Tuple<long, const S&>>);
        static_assert(!has_common_type<Tuple<int>, Tuple<S>> && !has_common_type<Tuple<S, int>, Tuple<int, int>> && has_common_type<Tuple<int>, Tuple<char>>);
        static_assert(!std::common_reference_with<Tuple<int>, Tuple<S>> && !std::common_reference_with<Tuple<int&, S>, Tuple<S&, int>>);
        static_assert(std::common_reference_with<Tuple<int&>, Tuple<int>>);
        // values reach the common type
        auto v = some(r, 2);
        const Tuple<int, const char*> a{v[0], "first"};
        const Tuple<long, S> b{v[1], "second"};
        using C = std::common_type_t<Tuple<int, const char*>, Tuple<long, S>>;
        static_assert(std::is_same_v<C, Tuple<long, S>>);
        C c = a, d = b;
        judged();
        MON_CHECK(get<0>(c) == v[0] && get<1>(c) == "first" && get<0>(d) == v[1] && get<1>(d) == "second", "C16:common-type", "values in the common type");
        seen(hash2(v[0], v[1]));
    });
    cases("conversion to other types", n, [&](Rng& r, long) {
        auto v = some(r, 3);
        const xme::Tuple<int, int, int> t{v[0], v[1], v[2]};
        std::array<int, 3> a = t;
        judged();
        MON_CHECK(a[0] == v[0] && a[1] == v[1] && a[2] == v[2], "C16:convert", "to std::array");
        xme::Tuple<long, long, long> l = t;
        MON_CHECK(get<0>(l) == v[0] && get<1>(l) == v[1] && get<2>(l) == v[2], "C16:convert", "to wider types");
        xme::Tuple<S, int&, int> u{"abc", (int&)v[0], v[1]};
        xme::Tuple<const S&, const int&, long> w = u;
        MON_CHECK(&get<0>(w) == &get<0>(u) && &get<1>(w) == &v[0] && get<2>(w) == v[1], "C16:convert", "to references");
        struct Point { int x, y, z; } p = t;
        MON_CHECK(p.x == v[0] && p.y == v[1] && p.z == v[2], "C16:convert", "to an aggregate");
        seen(hash2(v[0], hash2(v[1], v[2])));
    });
#endif
#else
    auto group = [&](const char* name, long count, auto&& f) {
        cases(name, count, [&](Rng& r, long) {
            tr().reset();
            f(r);
            MON_CHECK(tr().live.empty(), "C17:lifetime", "%zu elements left alive", tr().live.size());
        });
    };
#if !defined HALF || HALF == 0
    group("tuple_cat of one", n, [](Rng& r) { cat_ones(r, std::make_index_sequence<n_choices>{}); });
    group("tuple_cat of two", n, [](Rng& r) { cat_twos(r, std::make_index_sequence<60>{}); });
    group("tuple_cat of none", 1, [](Rng&) {
        auto t = xme::tuple_cat();
        static_assert(std::is_same_v<decltype(t), xme::Tuple<>>);
    });
#endif
#if !defined HALF || HALF == 1
    group("tuple_cat of three", n, [](Rng& r) { cat_threes(r, std::make_index_sequence<36>{}); });
    group("tuple_cat of nine", n, [](Rng& r) { cat_nines(r, std::make_index_sequence<5>{}); });
    group("tuple_cat of five", n, [](Rng& r) { cat_fives(r, std::make_index_sequence<14>{}); });
#endif
#if !defined HALF || HALF == 2
    group("apply", n * 3, [](Rng& r) {
        apply_one<Kind<xme::Tuple<>>>(r, "Tuple<>");
        apply_one<Kind<xme::Tuple<O>, O>>(r, "Tuple<object>");
        apply_one<Kind<xme::Tuple<int, O, S>, int, O, S>>(r, "Tuple<int, object, string>");
        apply_one<Kind<xme::Tuple<M, E, M>, M, E, M>>(r, "Tuple<move only, empty, move only>");
        apply_one<Kind<xme::Pair<O, M>, O, M>>(r, "Pair<object, move only>");
        apply_one<Kind<std::array<O, 3>, O, O, O>>(r, "std::array");
        apply_one<Kind<std::tuple<int, O, O, int, S>, int, O, O, int, S>>(r, "std::tuple");
        apply_one<Kind<std::pair<S, O>, S, O>>(r, "std::pair");
        apply_one<Kind<xme::Tuple<O, int, O, S, E, int, O, O, int, E2, S, O, int>, O, int, O, S, E, int, O, O, int, E2, S, O, int>>(r, "Tuple of 13");
        int i    = (int)r.below(50);
        int got  = xme::apply(three, xme::make_tuple(i, S("abc"), 4.5));
        int got2 = xme::apply(&three, std::make_tuple(i, "abcd", 7));
        MON_CHECK(got == i * 100 + 34 && got2 == i * 100 + 47, "C17:apply-result", "function: %d, %d", got, got2);
        bool thrown = false;
        try {
            xme::apply([](int x, int) -> int { throw x; }, xme::make_tuple(i, 2));
        } catch(int x) {
            thrown = x == i;
        }
        MON_CHECK(thrown, "C17:apply-exception", "an exception of the function was lost");
        auto [x, y] = xme::apply([](auto&&... e) { return xme::forward_as_tuple(std::forward<decltype(e)>(e)...); }, xme::tie(i, got));
        MON_CHECK(&x == &i && &y == &got, "C17:apply-order", "tie through apply");
    });
#endif
#if !defined HALF || HALF == 3
    group("exceptions", n, [](Rng& r) {
        auto v = some(r, 3);
        X a(v[0]);
        Y b(v[1]);
        const xme::Tuple<X, Y> t{a, b};
        const xme::Pair<Y, X> p{b, a};
        const std::array<X, 2> arr{a, a};
        const std::tuple<Y, int> s(b, 3);
        auto intact = [&](int) {
            MON_CHECK(val(a) == v[0] && val(b) == v[1] && val(get<0>(t)) == v[0] && val(get<1>(t)) == v[1] && val(p.first) == v[1] && val(p.second) == v[0] && val(arr[0]) == v[0] && val(arr[1]) == v[0] && val(std::get<0>(s)) == v[1],
                      "C17:exception-source", "an argument changed");
        };
        failing("tuple_cat of one", [&] { (void)xme::tuple_cat(t); }, intact);
        failing("tuple_cat of two", [&] { (void)xme::tuple_cat(t, p); }, intact);
        failing("tuple_cat of four", [&] { (void)xme::tuple_cat(p, arr, t, s); }, intact);
        failing("tuple_cat of temporaries", [&] {
            Quiet* q = new Quiet;
            xme::Tuple<X, Y> t2{a, b};
            xme::Pair<Y, X> p2{b, a};
            delete q;
            (void)xme::tuple_cat(std::move(t2), std::move(p2));
        }, intact);
        failing("make_tuple", [&] { (void)xme::make_tuple(a, b, 3, a); }, intact);
        failing("apply by value", [&] { xme::apply([](X, Y) {}, t); }, intact);
        failing("apply returning by value", [&] { (void)xme::apply([](const X& x, const Y& y) { return xme::make_pair(x, y); }, t); }, intact);
    });
    group("makers", n * 3, [](Rng& r) {
        makers<>(r, "nothing");
        makers<int>(r, "int");
        makers<O>(r, "object");
        makers<M>(r, "move only");
        makers<O, O>(r, "object, object");
        makers<O, E, M>(r, "object, empty, move only");
        makers<int, S, O, double, int>(r, "int, string, object, double, int");
        makers<S, S, S, O, O, O>(r, "strings and objects");
        char text[] = "text";
        auto t      = xme::make_tuple("literal", text, three);
        static_assert(std::is_same_v<decltype(t), xme::Tuple<const char*, char*, int (*)(int, const S&, double)>>);
        MON_CHECK(get<1>(t) == text && get<2>(t) == three && S(get<0>(t)) == "literal", "C17:make-tuple", "arrays and functions decay");
        // assignment of a tie with swapped variables through values
        auto v = some(r, 3);
        int a = v[0], b = v[1], c = v[2];
        xme::tie(a, b, c) = std::make_tuple(v[2], v[0], v[1]);
        MON_CHECK(a == v[2] && b == v[0] && c == v[1], "C17:tie", "rotating three variables");
        S s;
        long l;
        xme::tie(l, s) = xme::make_pair(v[0], "str");
        MON_CHECK(l == v[0] && s == "str", "C17:tie", "assigned from a pair of other types");
    });
#endif
#endif
    return finish();
}
