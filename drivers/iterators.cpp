// Walks xme::ConstIterator (C25) and xme::ReverseIterator (C26) over sequences of every iterator
// category next to a plain index, and compares every access, distance and comparison with what
// the index gives.
#include "../harness/track.hpp"
#include <deque>
#include <forward_list>
#include <iterator>
#include <list>
#include <map>
#include <ranges>
#include <set>
#include <span>
#include <xme/container/array.hpp>
#include <xme/container/array_view.hpp>
#include <xme/container/linked_list.hpp>
#include <xme/core/iterators/const_iterator.hpp>
#include <xme/core/iterators/reverse_iterator.hpp>

using namespace mon;
#ifdef REVERSE
constexpr bool constant = false;
#else
constexpr bool constant = true;
#endif

struct Box {
    int v;
    int twice() const { return 2 * v; }
    friend bool operator==(const Box& a, const Box& b) { return a.v == b.v; }
};
// A random access iterator with the classic comparisons only
template<typename T>
struct Classic {
    using value_type        = std::remove_cv_t<T>;
    using difference_type   = std::ptrdiff_t;
    using reference         = T&;
    using pointer           = T*;
    using iterator_category = std::random_access_iterator_tag;
    T* base = nullptr;
    long at = 0;
    Classic() = default;
    Classic(T* b, long i) : base(b), at(i) {}
    template<typename U>
        requires(std::is_same_v<const U, T>)
    Classic(const Classic<U>& o) : base(o.base), at(o.at) {}
    T& operator*() const { return base[at]; }
    T* operator->() const { return base + at; }
    T& operator[](std::ptrdiff_t n) const { return base[at + n]; }
    Classic& operator++() { ++at; return *this; }
    Classic& operator--() { --at; return *this; }
    Classic operator++(int) { return {base, at++}; }
    Classic operator--(int) { return {base, at--}; }
    Classic& operator+=(std::ptrdiff_t n) { at += n; return *this; }
    Classic& operator-=(std::ptrdiff_t n) { at -= n; return *this; }
    friend Classic operator+(Classic i, std::ptrdiff_t n) { return {i.base, i.at + n}; }
    friend Classic operator+(std::ptrdiff_t n, Classic i) { return {i.base, i.at + n}; }
    friend Classic operator-(Classic i, std::ptrdiff_t n) { return {i.base, i.at - n}; }
    template<typename U> friend std::ptrdiff_t operator-(const Classic& a, const Classic<U>& b) { return a.at - b.at; }
    template<typename U> friend bool operator==(const Classic& a, const Classic<U>& b) { return a.at == b.at; }
    template<typename U> friend bool operator<(const Classic& a, const Classic<U>& b) { return a.at < b.at; }
    template<typename U> friend bool operator>(const Classic& a, const Classic<U>& b) { return a.at > b.at; }
    template<typename U> friend bool operator<=(const Classic& a, const Classic<U>& b) { return a.at <= b.at; }
    template<typename U> friend bool operator>=(const Classic& a, const Classic<U>& b) { return a.at >= b.at; }
};

static int num(int v) { return v; }
static int num(const Box& b) { return b.v; }
static int num(const std::string& s) { return atoi(s.c_str()); }
template<typename A, typename B>
static int num(const std::pair<A, B>& p) { return p.second; }

template<typename T>
T make(int v) {
    if constexpr(std::is_same_v<T, Box>) return Box{v};
    else if constexpr(std::is_same_v<T, std::string>) return std::to_string(v);
    else return T(v);
}

template<typename It>
concept has_arrow = std::is_pointer_v<It> || requires(It i) { i.operator->(); };

template<typename Ref>
constexpr bool read_only = !std::is_reference_v<Ref> || std::is_const_v<std::remove_reference_t<Ref>>;

// ---------------------------------------------------------------------------------------------
// C25. `begin` .. `end` iterate over `n` elements whose values are `vals`.
template<typename It, typename End>
void walk_const(Rng& r, It begin, End end, const std::vector<int>& vals, const char* what) {
    using CI             = xme::ConstIterator<It>;
    constexpr bool refs  = std::is_lvalue_reference_v<std::iter_reference_t<It>>;
    constexpr bool fwd   = std::forward_iterator<It>;
    constexpr bool bidir = std::bidirectional_iterator<It>;
    constexpr bool ra    = std::random_access_iterator<It>;
    static_assert(read_only<decltype(*std::declval<const CI&>())>, "a const iterator gives write access");
    static_assert(std::is_same_v<typename CI::value_type, std::iter_value_t<It>>);
    if constexpr(fwd) {
        static_assert(std::forward_iterator<CI>);
        static_assert(bidir == std::bidirectional_iterator<CI>);
        static_assert(ra == std::random_access_iterator<CI>);
        static_assert(std::contiguous_iterator<It> == std::contiguous_iterator<CI>);
    }
    const long n = (long)vals.size();
    // plain iterators to every position
    std::vector<It> at;
    if constexpr(fwd) {
        It p = begin;
        for(long k = 0; k < n; ++k, ++p) at.push_back(p);
        at.push_back(p);
    }
    auto same_element = [&](const auto& access, long k, const char* how) {
        judged();
        using A = decltype(access);
        if constexpr(refs && fwd) {
            MON_CHECK(std::addressof(access) == std::addressof(*at[k]), "C25:element", "%s: %s at %ld of %ld isn't the element of the wrapped iterator", what, how, k, n);
        }
        MON_CHECK(num(access) == vals[k], "C25:element", "%s: %s at %ld of %ld reads %d instead of %d", what, how, k, n, num(access), vals[k]);
        (void)sizeof(A);
    };
    auto look = [&](const CI& c, long k, const char* how) {
        if(k < n) {
            same_element(*c, k, how);
            if constexpr(refs) {
                static_assert(std::is_const_v<std::remove_pointer_t<decltype(c.operator->())>>, "a const iterator gives write access");
                same_element(*c.operator->(), k, "->");
                if constexpr(std::is_same_v<std::iter_value_t<It>, Box>)
                    MON_CHECK(c->twice() == 2 * vals[k], "C25:element", "%s: -> at %ld", what, k);
            }
        }
        MON_CHECK((c == end) == (k == n) && (end == c) == (k == n) && (c != end) == (k != n), "C25:sentinel", "%s: %s, position %ld of %ld compares wrongly with the end", what, how, k, n);
    };
    CI c(begin);
    long k = 0;
    look(c, 0, "construction");
    if constexpr(!fwd) {
        while(k < n) {
            ++c;
            ++k;
            look(c, k, "++");
        }
        seen(hash2(hash_str(what), n));
        return;
    }
    else {
        std::vector<std::pair<CI, long>> kept;
        for(int step = 0; step < 40; ++step) {
            const long from = k;
            const char* how = "";
            switch(r.below(ra ? 12 : bidir ? 5 : 3)) {
            case 0:
                if(k < n) {
                    how    = "++it";
                    CI& x  = ++c;
                    ++k;
                    MON_CHECK(&x == &c, "C25:result-of-move", "%s: ++it returns another object", what);
                }
                break;
            case 1:
                if(k < n) {
                    how  = "it++";
                    CI x = c++;
                    look(x, k, "it++ (result)");
                    ++k;
                }
                break;
            case 2:
                if constexpr(!bidir) {
                    if(r.chance(30)) {
                        how = "restart";
                        c   = begin;
                        k   = 0;
                    }
                }
                else if(k > 0) {
                    how   = "--it";
                    if constexpr(bidir) {
                        CI& x = --c;
                        MON_CHECK(&x == &c, "C25:result-of-move", "%s: --it returns another object", what);
                    }
                    --k;
                }
                break;
            case 3:
                if(k > 0) {
                    how = "it--";
                    if constexpr(bidir) {
                        CI x = c--;
                        look(x, k, "it-- (result)");
                    }
                    --k;
                }
                break;
            case 4:
                how = "assign plain";
                k   = (long)r.below(n + 1);
                c   = at[k];
                break;
            default:
                if constexpr(ra) {
                    long to = r.range(0, n), d = to - k;
                    note("%ld of %ld, distance %ld\n", k, n, d);
                    switch(r.below(7)) {
                    case 0: {
                        how   = "+=";
                        CI& x = (c += d);
                        MON_CHECK(&x == &c, "C25:result-of-move", "%s: += returns another object", what);
                        k = to;
                        break;
                    }
                    case 1: {
                        how   = "-=";
                        CI& x = (c -= -d);
                        MON_CHECK(&x == &c, "C25:result-of-move", "%s: -= returns another object", what);
                        k = to;
                        break;
                    }
                    case 2: how = "it + n"; look(c + d, to, how); break;
                    case 3: how = "n + it"; look(d + c, to, how); break;
                    case 4: how = "it - n"; look(c - (-d), to, how); break;
                    case 5:
                        how = "it[n]";
                        if(to < n) {
                            static_assert(read_only<decltype(std::as_const(c)[d])>, "a const iterator gives write access");
                            same_element(std::as_const(c)[d], to, how);
                        }
                        break;
                    case 6:
                        how = "chain";
                        look(c + d - d, k, how);
                        look(c - (-d) + (-d), k, how);
                        break;
                    }
                }
            }
            note("%s: %ld -> %ld\n", how, from, k);
            look(c, k, how);
            // equality and, for random access, order and difference with plain and const iterators
            long o  = (long)r.below(n + 1);
            CI other(at[o]);
            auto cmp = [&](const auto& x, const auto& y, long i, long j, const char* kind) {
                judged();
                MON_CHECK((x == y) == (i == j) && (x != y) == (i != j), "C25:equality", "%s: %s at %ld and %ld", what, kind, i, j);
                if constexpr(ra && requires { x < y; }) {
                    bool ok = (x < y) == (i < j) && (x > y) == (i > j) && (x <= y) == (i <= j) && (x >= y) == (i >= j);
                    MON_CHECK(ok, "C25:order", "%s: %s at %ld and %ld are ordered wrongly", what, kind, i, j);
                    if constexpr(std::three_way_comparable<It>)
                        MON_CHECK(((x <=> y) < 0) == (i < j) && ((x <=> y) > 0) == (i > j), "C25:order", "%s: %s at %ld and %ld: <=> is wrong", what, kind, i, j);
                }
                if constexpr(std::sized_sentinel_for<It, It>)
                    MON_CHECK(x - y == i - j, "C25:difference", "%s: %s at %ld and %ld differ by %ld", what, kind, i, j, (long)(x - y));
            };
            cmp(c, other, k, o, "two const iterators");
            cmp(c, at[o], k, o, "const and plain iterators");
            cmp(at[o], c, o, k, "plain and const iterators");
            if constexpr(std::sized_sentinel_for<End, It>)
                MON_CHECK(end - c == n - k && c - end == k - n, "C25:difference", "%s: distance from %ld to the end is %ld of %ld", what, k, (long)(end - c), n - k);
            if(kept.size() < 6 && r.chance(20)) kept.push_back({c, k});
            // iterators kept from before haven't moved
            for(auto& [x, i] : kept) look(x, i, "kept copy");
            seen(hash2(hash2(hash_str(what), hash_str(how)), hash2((n << 16) ^ from, k)));
        }
    }
}

// Comparison and conversion between const iterators of the mutable and the constant iterator
template<typename M, typename C>
void mixed_const(Rng& r, M mb, C cb, long n, const char* what) {
    constexpr bool ra = std::random_access_iterator<M>;
    static_assert(std::is_convertible_v<xme::ConstIterator<M>, xme::ConstIterator<C>>);
    for(int s = 0; s < 12; ++s) {
        long i = r.below(n + 1), j = r.below(n + 1);
        xme::ConstIterator<M> a(std::ranges::next(mb, i));
        xme::ConstIterator<C> b(std::ranges::next(cb, j));
        C plain = std::ranges::next(cb, j);
        judged();
        MON_CHECK((a == plain) == (i == j), "C25:equality", "%s: mutable at %ld and constant at %ld", what, i, j);
        MON_CHECK((a == b) == (i == j) && (b == a) == (i == j), "C25:equality", "%s: const iterators of mutable at %ld and of constant at %ld", what, i, j);
        xme::ConstIterator<C> conv(a);
        MON_CHECK((conv == b) == (i == j), "C25:conversion", "%s: converted from %ld, compared with %ld", what, i, j);
        if(i < n) MON_CHECK(std::addressof(*conv) == std::addressof(*a), "C25:conversion", "%s: converted at %ld designates another element", what, i);
        if constexpr(ra) {
            MON_CHECK((a < plain) == (i < j) && (a > plain) == (i > j) && (a <= plain) == (i <= j) && (a >= plain) == (i >= j), "C25:order", "%s: mutable at %ld and constant at %ld", what, i, j);
            if constexpr(requires { plain < a; }) MON_CHECK((plain < a) == (j < i) && (plain > a) == (j > i) && (plain <= a) == (j <= i) && (plain >= a) == (j >= i), "C25:order", "%s: constant at %ld and mutable at %ld", what, j, i);
            if constexpr(std::sized_sentinel_for<C, M>) MON_CHECK(a - plain == i - j && plain - a == j - i && a - b == i - j && b - a == j - i, "C25:difference", "%s: mutable at %ld and constant at %ld", what, i, j);
        }
        seen(hash2(hash_str(what), hash2(i * 1000 + j, n)));
    }
}

template<typename It>
void factory(Rng& r, It begin, long n, const char* what) {
    long i = r.below(n + 1);
    It p   = std::ranges::next(begin, i);
    auto c = xme::make_const_iterator(p);
    auto s = xme::make_const_sentinel(p);
    judged();
    using Ref = std::iter_reference_t<It>;
    static_assert(read_only<decltype(*c)>, "make_const_iterator gives write access");
    if constexpr(std::is_lvalue_reference_v<Ref> && std::is_const_v<std::remove_reference_t<Ref>>)
        static_assert(std::is_same_v<decltype(c), It> && std::is_same_v<decltype(s), It>, "an iterator that is constant already was wrapped");
    if constexpr(std::is_lvalue_reference_v<Ref> && !std::is_const_v<std::remove_reference_t<Ref>>)
        static_assert(std::is_same_v<decltype(c), xme::ConstIterator<It>> && std::is_same_v<decltype(s), xme::ConstIterator<It>>);
    MON_CHECK(c == p, "C25:factory", "%s: make_const_iterator at %ld is elsewhere", what, i);
    MON_CHECK(c == s, "C25:factory", "%s: make_const_sentinel at %ld is elsewhere", what, i);
    // a whole loop with the two
    long k    = 0;
    auto last = xme::make_const_sentinel(std::ranges::next(begin, n));
    for(auto it = xme::make_const_iterator(begin); it != last && k <= n; ++it) ++k;
    MON_CHECK(k == n, "C25:factory", "%s: a loop between const iterators sees %ld of %ld elements", what, k, n);
}

// ---------------------------------------------------------------------------------------------
// C26
template<typename It>
void walk_reverse(Rng& r, It begin, const std::vector<int>& vals, const char* what) {
    using RI          = xme::ReverseIterator<It>;
    constexpr bool ra = std::random_access_iterator<It>;
    constexpr bool refs = std::is_lvalue_reference_v<std::iter_reference_t<It>>;
    static_assert(std::bidirectional_iterator<RI>);
    static_assert(ra == std::random_access_iterator<RI>);
    const long n = (long)vals.size();
    std::vector<It> at;
    It p = begin;
    for(long k = 0; k <= n; ++k) {
        at.push_back(p);
        if(k < n) ++p;
    }
    // position k of the reversed sequence is made from n - k
    auto rev = [&](long k) { return RI(at[n - k]); };
    auto same = [&](const auto& access, long k, const char* how) {
        judged();
        if constexpr(refs)
            MON_CHECK(std::addressof(access) == std::addressof(*at[n - 1 - k]), "C26:element", "%s: %s at %ld of %ld designates another element", what, how, k, n);
        MON_CHECK(num(access) == vals[n - 1 - k], "C26:element", "%s: %s at %ld of %ld reads %d instead of %d", what, how, k, n, num(access), vals[n - 1 - k]);
    };
    auto look = [&](const RI& c, long k, const char* how) {
        if(k < n) {
            same(*c, k, how);
            static_assert(std::is_same_v<decltype(*c), std::iter_reference_t<It>>);
            if constexpr(refs && has_arrow<It>) same(*c.operator->(), k, "->");
            if constexpr(std::is_same_v<std::iter_value_t<It>, Box>)
                MON_CHECK(c->twice() == 2 * vals[n - 1 - k], "C26:element", "%s: -> at %ld", what, k);
        }
        MON_CHECK((c == rev(n)) == (k == n) && (c != rev(n)) == (k != n), "C26:end", "%s: %s, position %ld of %ld compares wrongly with the end", what, how, k, n);
    };
    RI c(at[n]);
    long k = 0;
    look(c, 0, "construction");
    std::vector<std::pair<RI, long>> kept;
    for(int step = 0; step < 40; ++step) {
        const long from = k;
        const char* how = "";
        switch(r.below(ra ? 12 : 5)) {
        case 0:
            if(k < n) {
                how   = "++it";
                RI& x = ++c;
                MON_CHECK(&x == &c, "C26:result-of-move", "%s: ++it returns another object", what);
                ++k;
            }
            break;
        case 1:
            if(k < n) {
                how  = "it++";
                RI x = c++;
                look(x, k, "it++ (result)");
                ++k;
            }
            break;
        case 2:
            if(k > 0) {
                how   = "--it";
                RI& x = --c;
                MON_CHECK(&x == &c, "C26:result-of-move", "%s: --it returns another object", what);
                --k;
            }
            break;
        case 3:
            if(k > 0) {
                how  = "it--";
                RI x = c--;
                look(x, k, "it-- (result)");
                --k;
            }
            break;
        case 4:
            how = "assign";
            k   = (long)r.below(n + 1);
            c   = rev(k);
            break;
        default:
            if constexpr(ra) {
                long to = r.range(0, n), d = to - k;
                note("%ld of %ld, distance %ld\n", k, n, d);
                switch(r.below(7)) {
                case 0: {
                    how   = "+=";
                    RI& x = (c += d);
                    MON_CHECK(&x == &c, "C26:result-of-move", "%s: += returns another object", what);
                    k = to;
                    break;
                }
                case 1: {
                    how   = "-=";
                    RI& x = (c -= -d);
                    MON_CHECK(&x == &c, "C26:result-of-move", "%s: -= returns another object", what);
                    k = to;
                    break;
                }
                case 2: how = "it + n"; look(c + d, to, how); break;
                case 3: how = "n + it"; look(d + c, to, how); break;
                case 4: how = "it - n"; look(c - (-d), to, how); break;
                case 5:
                    how = "it[n]";
                    if(to < n) same(std::as_const(c)[d], to, how);
                    break;
                case 6:
                    how = "it - n + n";
                    look(c + d - d, k, how);
                    look(c - (-d) + (-d), k, how);
                    MON_CHECK(c + d - d == c && c - (-d) + (-d) == c, "C26:identity", "%s: it - n + n at %ld for %ld", what, k, d);
                    break;
                }
            }
        }
        note("%s: %ld -> %ld\n", how, from, k);
        look(c, k, how);
        long o   = (long)r.below(n + 1);
        RI other = rev(o);
        judged();
        MON_CHECK((c == other) == (k == o) && (c != other) == (k != o), "C26:equality", "%s: at %ld and %ld", what, k, o);
        if constexpr(ra) {
            MON_CHECK(c - other == k - o, "C26:difference", "%s: at %ld and %ld differ by %ld", what, k, o, (long)(c - other));
            MON_CHECK((c < other) == (k < o) && (c > other) == (k > o) && (c <= other) == (k <= o) && (c >= other) == (k >= o), "C26:order", "%s: %ld and %ld are ordered wrongly", what, k, o);
            if constexpr(std::three_way_comparable<It>) MON_CHECK(((c <=> other) < 0) == (k < o) && ((c <=> other) > 0) == (k > o), "C26:order", "%s: %ld and %ld: <=> is wrong", what, k, o);
        }
        if(kept.size() < 6 && r.chance(20)) kept.push_back({c, k});
        for(auto& [x, i] : kept) look(x, i, "kept copy");
        seen(hash2(hash2(hash_str(what), hash_str(how)), hash2((n << 16) ^ from, k)));
    }
    // the whole reversed sequence
    long i = 0;
    for(RI it = rev(0), e = rev(n); it != e && i <= n; ++it, ++i)
        if(i < n) same(*it, i, "loop");
    MON_CHECK(i == n, "C26:traversal", "%s: %ld of %ld elements traversed", what, i, n);
    // writes arrive
    if constexpr(refs && std::is_same_v<std::iter_reference_t<It>, int&>) {
        if(n > 0) {
            long w = r.below(n);
            *rev(w) = 424242;
            MON_CHECK(*at[n - 1 - w] == 424242, "C26:write", "%s: a write at %ld goes elsewhere", what, w);
            *at[n - 1 - w] = vals[n - 1 - w];
        }
    }
}

template<typename M, typename C>
void mixed_reverse(Rng& r, M mb, C cb, long n, const char* what) {
    constexpr bool ra = std::random_access_iterator<M>;
    using RM = xme::ReverseIterator<M>;
    using RC = xme::ReverseIterator<C>;
    static_assert(std::is_convertible_v<RM, RC>);
    auto m = [&](long k) { return RM(std::ranges::next(mb, n - k)); };
    auto c = [&](long k) { return RC(std::ranges::next(cb, n - k)); };
    for(int s = 0; s < 12; ++s) {
        long i = r.below(n + 1), j = r.below(n + 1);
        if(s < 4) {
            i = s & 1 ? n : 0;
            j = s & 2 ? n : 0;
        }
        judged();
        note("mixed: %ld and %ld of %ld\n", i, j, n);
        MON_CHECK((m(i) == c(j)) == (i == j) && (c(j) == m(i)) == (i == j) && (m(i) != c(j)) == (i != j), "C26:mixed-equality", "%s: mutable at %ld and constant at %ld of %ld", what, i, j, n);
        if constexpr(ra) {
            MON_CHECK((m(i) < c(j)) == (i < j) && (m(i) > c(j)) == (i > j) && (m(i) <= c(j)) == (i <= j) && (m(i) >= c(j)) == (i >= j), "C26:mixed-order", "%s: mutable at %ld and constant at %ld of %ld", what, i, j, n);
            MON_CHECK((c(i) < m(j)) == (i < j) && (c(i) > m(j)) == (i > j) && (c(i) <= m(j)) == (i <= j) && (c(i) >= m(j)) == (i >= j), "C26:mixed-order", "%s: constant at %ld and mutable at %ld of %ld", what, i, j, n);
        }
        RC conv = m(i);
        MON_CHECK((conv == c(j)) == (i == j), "C26:conversion", "%s: %ld converted, compared with %ld", what, i, j);
        if(i < n) MON_CHECK(std::addressof(*conv) == std::addressof(*m(i)), "C26:conversion", "%s: converted at %ld designates another element", what, i);
        conv = c(j);
        conv = m(i);
        MON_CHECK(conv == c(i), "C26:conversion", "%s: assigned from mutable at %ld", what, i);
        seen(hash2(hash_str(what), hash2(i * 1000 + j, n)));
    }
}

// ---------------------------------------------------------------------------------------------
template<typename Cont>
Cont filled(const std::vector<int>& v) {
    Cont c;
    using T = std::ranges::range_value_t<Cont>;
    if constexpr(requires { c.push_back(make<T>(1)); })
        for(int x : v) c.push_back(make<T>(x));
    else
        for(size_t i = v.size(); i-- > 0;) c.push_front(make<T>(v[i]));
    return c;
}
static long length(Rng& r) {
    switch(r.below(4)) {
    case 0: return r.range(0, 2);
    case 1: return r.range(3, 40);
    case 2: return r.range(100, 300);  // several blocks of a deque
    default: return r.range(1, 12);
    }
}
static std::vector<int> values(Rng& r, long n) {
    std::vector<int> v;
    for(long i = 0; i < n; ++i) v.push_back((int)r.range(-1000, 1000));
    return v;
}

template<typename Cont>
void subject(const char* name, long n_cases) {
    std::string g = name;
    cases(g.c_str(), n_cases, [&](Rng& r, long) {
        auto vals = values(r, length(r));
        long n    = (long)vals.size();
        Cont c    = filled<Cont>(vals);
        if constexpr(std::is_same_v<Cont, std::deque<int>>)
            if(r.chance(50)) {  // shifted within its blocks
                int drop = (int)r.below(130);
                for(int k = 0; k < drop; ++k) c.push_front(0);
                for(int k = 0; k < drop; ++k) c.pop_front();
            }
        const Cont& cc = c;
        note("%s of %ld\n", name, n);
        if constexpr(constant) {
            walk_const(r, c.begin(), c.end(), vals, name);
            walk_const(r, cc.begin(), cc.end(), vals, (g + ", const").c_str());
            if constexpr(!std::is_same_v<decltype(c.begin()), decltype(cc.begin())> && std::is_convertible_v<decltype(c.begin()), decltype(cc.begin())>
                         && std::equality_comparable_with<decltype(c.begin()), decltype(cc.begin())>)
                mixed_const(r, c.begin(), cc.begin(), n, name);
            factory(r, c.begin(), n, name);
            factory(r, cc.begin(), n, name);
        }
        else if constexpr(std::bidirectional_iterator<decltype(c.begin())>) {
            walk_reverse(r, c.begin(), vals, name);
            walk_reverse(r, cc.begin(), vals, (g + ", const").c_str());
            if constexpr(std::is_lvalue_reference_v<decltype(*c.begin())>)
                if constexpr(!std::is_same_v<decltype(c.begin()), decltype(cc.begin())> && std::is_convertible_v<decltype(c.begin()), decltype(cc.begin())>
                             && std::equality_comparable_with<decltype(c.begin()), decltype(cc.begin())>)
                    mixed_reverse(r, c.begin(), cc.begin(), n, name);
        }
    });
}

int main(int argc, char** argv) {
    init(argc, argv);
    long n = st().cases;
#if !defined PART || PART == 0
    subject<std::vector<int>>("vector<int>", n);
    subject<std::vector<std::string>>("vector<string>", n);
    subject<std::deque<int>>("deque<int>", n);
    subject<std::deque<Box>>("deque<Box>", n);
#endif
#if !defined PART || PART == 1
    subject<std::list<int>>("list<int>", n);
    subject<std::list<Box>>("list<Box>", n);
    subject<xme::Array<int>>("Array<int>", n);
    subject<xme::Array<Box>>("Array<Box>", n);
#endif
#if !defined PART || PART == 2
    if constexpr(constant) {
        subject<std::forward_list<int>>("forward_list<int>", n);
        subject<std::forward_list<Box>>("forward_list<Box>", n);
    }
    cases("pointers", n, [&](Rng& r, long) {
        auto vals = values(r, length(r));
        long len  = (long)vals.size();
        std::vector<int> store = vals;
        std::vector<Box> boxes;
        for(int x : vals) boxes.push_back({x});
        int* p   = store.data();
        Box* b   = boxes.data();
#ifndef REVERSE
        {
            walk_const(r, p, p + len, vals, "int*");
            walk_const(r, (const int*)p, (const int*)p + len, vals, "const int*");
            walk_const(r, b, b + len, vals, "Box*");
            walk_const(r, p, (const int*)p + len, vals, "int* with const int* end");
            mixed_const(r, p, (const int*)p, len, "pointers");
            factory(r, p, len, "int*");
            factory(r, (const int*)p, len, "const int*");
            walk_const(r, std::counted_iterator(p, len), std::default_sentinel, vals, "counted int*");
            walk_const(r, Classic<int>(p, 0), Classic<int>(p, len), vals, "classic");
            walk_const(r, Classic<Box>(b, 0), Classic<Box>(b, len), vals, "classic Box");
            mixed_const(r, Classic<int>(p, 0), Classic<const int>(p, 0), len, "classic");
            std::list<int> l(vals.begin(), vals.end());
            walk_const(r, std::counted_iterator(l.begin(), len), std::default_sentinel, vals, "counted list");
        }
#else
        {
            walk_reverse(r, p, vals, "int*");
            walk_reverse(r, (const int*)p, vals, "const int*");
            walk_reverse(r, b, vals, "Box*");
            mixed_reverse(r, p, (const int*)p, len, "pointers");
            mixed_reverse(r, b, (const Box*)b, len, "Box pointers");
            xme::ArrayView<int> view(p, len);
            long k = 0;
            for(xme::ArrayView<int>::reverse_iterator it(view.end()), e(view.begin()); it != e && k <= len; ++it, ++k)
                MON_CHECK(k < len && &*it == p + len - 1 - k, "C26:element", "view: element %ld of %ld", k, len);
            MON_CHECK(k == len, "C26:traversal", "view: %ld of %ld", k, len);
            // reversed twice
            using RR = xme::ReverseIterator<xme::ReverseIterator<int*>>;
            k        = 0;
            for(RR it{xme::ReverseIterator<int*>(p)}, e{xme::ReverseIterator<int*>(p + len)}; it != e && k <= len; ++it, ++k)
                MON_CHECK(k < len && &*it == p + k, "C26:element", "reversed twice: element %ld of %ld", k, len);
            MON_CHECK(k == len, "C26:traversal", "reversed twice: %ld of %ld", k, len);
        }
#endif
    });
    cases("map and set", n, [&](Rng& r, long) {
        long len = length(r);
        std::map<int, int> m;
        std::vector<int> vals;
        for(long k = 0; k < len; ++k) {
            vals.push_back((int)r.range(-99, 99));
            m[(int)k] = vals.back();
        }
        std::set<int> s(vals.begin(), vals.end());
        std::vector<int> sorted(s.begin(), s.end());
#ifndef REVERSE
        {
            walk_const(r, m.begin(), m.end(), vals, "map");
            walk_const(r, s.begin(), s.end(), sorted, "set");
            mixed_const(r, m.begin(), m.cbegin(), len, "map");
            factory(r, s.begin(), (long)sorted.size(), "set");
        }
#else
        {
            walk_reverse(r, m.begin(), vals, "map");
            walk_reverse(r, s.begin(), sorted, "set");
            mixed_reverse(r, m.begin(), m.cbegin(), len, "map");
        }
#endif
    });
#ifndef REVERSE
    cases("values", n, [&](Rng& r, long) {
        auto vals = values(r, length(r));
        long len  = (long)vals.size();
        // iterators that give elements by value
        std::vector<int> half;
        for(int x : vals) half.push_back(x * 3);
        auto third = half | std::views::transform([](int x) { return x / 3; });
        walk_const(r, third.begin(), third.end(), vals, "transform");
        std::vector<int> up;
        for(long k = 0; k < len; ++k) up.push_back((int)k + 5);
        auto io = std::views::iota(5, 5 + (int)len);
        walk_const(r, io.begin(), io.end(), up, "iota");
        std::vector<bool> bits;
        std::vector<int> bv;
        for(int x : vals) {
            bits.push_back(x & 1);
            bv.push_back(x & 1);
        }
        walk_const(r, bits.begin(), bits.end(), bv, "vector<bool>");
        std::vector<int> even, ev;
        for(int x : vals)
            if(x % 2 == 0) ev.push_back(x);
        auto fl = vals | std::views::filter([](int x) { return x % 2 == 0; });
        walk_const(r, fl.begin(), fl.end(), ev, "filter");
        size_t pos = 0;
        std::optional<int> cell;
        walk_const(r, OnePass<int>{&vals, &pos, &cell}, std::default_sentinel, vals, "single pass");
    });
#endif
#endif
    return finish();
}
