// The standard library's algorithms, views, iterator functions and adaptors over xme's containers,
// views and iterators (C49), each run at once on the equivalent standard container: results,
// contents and the positions of returned iterators have to agree.
#include "../harness/track.hpp"
#include <algorithm>
#include <deque>
#include <forward_list>
#include <functional>
#include <iterator>
#include <list>
#include <numeric>
#include <queue>
#include <random>
#include <ranges>
#include <span>
#include <stack>
#include <string_view>
#include <range/v3/action/sort.hpp>
#include <range/v3/algorithm.hpp>
#include <range/v3/numeric.hpp>
#include <range/v3/range/conversion.hpp>
#include <range/v3/view.hpp>
#include <xme/container/array.hpp>
#include <xme/container/array_view.hpp>
#include <xme/container/linked_list.hpp>
#include <xme/core/iterators/const_iterator.hpp>
#include <xme/core/iterators/reverse_iterator.hpp>

using namespace mon;

struct Generator {  // what shuffle and sample need
    using result_type = std::uint32_t;
    u64 s;
    static constexpr result_type min() { return 0; }
    static constexpr result_type max() { return 0xffffffff; }
    result_type operator()() {
        s = mix(s);
        return (result_type)s;
    }
};
// A move only element
struct Only {
    std::unique_ptr<int> p;
    Only() : Only(0) {}
    Only(int v) : p(new int(v)) {}
    Only(Only&&) noexcept            = default;
    Only& operator=(Only&&) noexcept = default;
    int get() const { return p ? *p : -1; }
    friend bool operator==(const Only& a, const Only& b) { return a.get() == b.get(); }
    friend auto operator<=>(const Only& a, const Only& b) { return a.get() <=> b.get(); }
};
struct Rec {
    int key, tag;
    Rec(int k = 0) : key(k % 7), tag(k) {}
    friend bool operator==(const Rec& a, const Rec& b) { return a.key == b.key; }
    friend bool operator<(const Rec& a, const Rec& b) { return a.key < b.key; }
    friend bool operator>(const Rec& a, const Rec& b) { return b < a; }
    friend bool operator<=(const Rec& a, const Rec& b) { return !(b < a); }
    friend bool operator>=(const Rec& a, const Rec& b) { return !(a < b); }
};
static int num(int v) { return v; }
static int num(char v) { return v; }
static int num(const Rec& r) { return r.tag; }
static int num(const Only& o) { return o.get(); }
static int num(const std::string& s) { return mon::val(s); }
static int rank_of(int v) { return v; }
static int rank_of(char v) { return v; }
static int rank_of(const Rec& r) { return r.key; }
static int rank_of(const Only& o) { return o.get(); }
static int rank_of(const std::string& s) { return mon::val(s); }
template<typename T>
T el(int v) {
    if constexpr(std::is_same_v<T, std::string>) return mk<std::string>(v);
    else if constexpr(std::is_same_v<T, char>) return (char)(v % 26 + 'a');
    else return T(v);
}

template<typename X, typename Y>
void same(X&& x, Y&& y, const char* what, const char* where) {
    judged();
    auto i = std::ranges::begin(x);
    auto j = std::ranges::begin(y);
    long k = 0;
    for(; i != std::ranges::end(x) && j != std::ranges::end(y); ++i, ++j, ++k)
        if(num(*i) != num(*j)) {
            violation("content", fmt("%s of %s: element %ld is %d instead of %d", what, where, k, num(*i), num(*j)));
            return;
        }
    if((i != std::ranges::end(x)) || (j != std::ranges::end(y))) violation("content", fmt("%s of %s: the lengths differ after %ld elements", what, where, k));
    seen(hash2(hash2(hash_str(what), hash_str(where)), (u64)k));
}
static void equal(long a, long b, const char* what, const char* where) {
    judged();
    if(a != b) violation("result", fmt("%s of %s gives %ld instead of %ld", what, where, a, b));
    seen(hash2(hash2(hash_str(what), hash_str(where)), hash2((u64)b, 3)));
}

// ---------------------------------------------------------------------------------------------
// Every operator of an iterator, at random, next to an index.
template<typename X>
void iterating(Rng& r, X&& x, const char* where) {
    using I = std::ranges::iterator_t<X>;
    using D = std::iter_difference_t<I>;
    std::vector<const void*> at;
    for(auto i = std::ranges::begin(x); i != std::ranges::end(x); ++i) at.push_back(std::addressof(*i));
    const long n = (long)at.size();
    const I first = std::ranges::begin(x);
    I it = first;
    long k = 0;
    auto designates = [&](const I& i, long want, const char* op) {
        judged();
        bool right = want == n ? i == std::ranges::end(x) : i != std::ranges::end(x) && std::addressof(*i) == at[(size_t)want];
        if constexpr(std::is_pointer_v<I> || requires { i.operator->(); }) if(right && want < n) right = std::to_address(i) == at[(size_t)want];
        if(!right) violation("iterator", fmt("%s of %s: not at element %ld of %ld", op, where, want, n));
    };
    for(int step = 0; step < 12; ++step) {
        switch(r.below(12)) {
        case 0:
            if(k < n) {
                designates(++it, k + 1, "++it");
                ++k;
            }
            break;
        case 1:
            if(k < n) designates(it++, k++, "it++");
            break;
        case 2:
            if(k < n && std::addressof(*it++) != at[(size_t)k++]) violation("iterator", fmt("*it++ of %s isn't element %ld", where, k - 1));
            break;
        case 3: {
            I copy(it), other{};
            other = copy;
            designates(copy, k, "a copy");
            std::swap(copy, other);
            designates(other, k, "a swapped copy");
            judged();
            if(!(copy == it) || (copy != other)) violation("iterator", fmt("copies of iterators of %s differ", where));
            break;
        }
        case 4:
            it = first;
            k  = 0;
            break;
        case 5:
            if constexpr(std::bidirectional_iterator<I>)
                if(k > 0) {
                    designates(--it, k - 1, "--it");
                    --k;
                }
            break;
        case 6:
            if constexpr(std::bidirectional_iterator<I>)
                if(k > 0) designates(it--, k--, "it--");
            break;
        default:
            if constexpr(std::random_access_iterator<I>) {
                const long to = r.range(0, n);
                const D d     = (D)(to - k);
                const I there = first + (D)to;
                designates(it + d, to, "it + n");
                designates(d + it, to, "n + it");
                designates(it - (-d), to, "it - n");
                judged(3);
                if(there - it != d || it - there != -d) violation("iterator", fmt("the difference of iterators of %s: %ld to %ld gives %ld", where, k, to, (long)(there - it)));
                if((it < there) != (k < to) || (it <= there) != (k <= to) || (it > there) != (k > to) || (it >= there) != (k >= to) || (it == there) != (k == to)
                   || (it <=> there) != (k <=> to) || (there <=> it) != (to <=> k))
                    violation("iterator", fmt("the order of iterators of %s: %ld and %ld", where, k, to));
                if(to < n && std::addressof(it[d]) != at[(size_t)to]) violation("iterator", fmt("it[n] of %s: not element %ld", where, to));
                if(r.chance(50)) designates(it += d, to, "it += n");
                else designates(it -= -d, to, "it -= n");
                k = to;
            }
        }
        designates(it, k, "an iterator");
    }
    seen(hash2(hash_str(where), hash2((u64)n, (u64)k)));
}

// Algorithms that don't write. x: a range of xme's; y: the same elements in a standard container.
template<typename T, typename X, typename Y>
void reading(Rng& r, X&& x, Y&& y, const char* where) {
    auto xb = std::ranges::begin(x);
    auto xe = std::ranges::end(x);
    auto yb = std::ranges::begin(y);
    auto ye = std::ranges::end(y);
    const long n = (long)std::distance(yb, ye);
    auto px = [&](auto it) { return (long)std::distance(xb, it); };
    auto py = [&](auto it) { return (long)std::distance(yb, it); };
    const T v     = el<T>((int)r.below(40));
    const int lim = (int)r.below(40);
    auto less_lim = [&](const T& e) { return rank_of(e) < lim; };
    auto odd      = [](const T& e) { return num(e) & 1; };
    auto key      = [](const T& e) { return rank_of(e); };
    equal((long)std::distance(xb, xe), n, "distance", where);
    equal((long)std::ranges::distance(x), n, "ranges::distance", where);
    equal(px(std::next(xb, n / 2)), n / 2, "next", where);
    equal(px(std::ranges::next(xb, n + 5, xe)), n, "ranges::next within", where);
    same(x, y, "iteration", where);
    iterating(r, x, where);
    static_assert(std::is_same_v<typename std::iterator_traits<decltype(xb)>::value_type, T>, "the value type of an iterator is const");
    static_assert(std::is_same_v<std::iter_value_t<decltype(xb)>, T>);
    static_assert(std::is_same_v<std::remove_cvref_t<std::iter_reference_t<decltype(xb)>>, T> && std::is_lvalue_reference_v<std::iter_reference_t<decltype(xb)>>);
    switch(r.below(15)) {
    case 14: {
        if constexpr(std::is_copy_constructible_v<T>) {
            std::vector a(xb, xe);
            static_assert(std::is_same_v<decltype(a), std::vector<T>>);
            same(a, y, "vector deduced from", where);
        }
        if constexpr(std::is_same_v<T, int>) {
            std::vector<int> a(n), b(n);
            std::partial_sum(xb, xe, a.begin());
            std::partial_sum(yb, ye, b.begin());
            same(a, b, "partial_sum", where);
            std::adjacent_difference(xb, xe, a.begin());
            std::adjacent_difference(yb, ye, b.begin());
            same(a, b, "adjacent_difference", where);
            std::inclusive_scan(xb, xe, a.begin());
            std::inclusive_scan(yb, ye, b.begin());
            same(a, b, "inclusive_scan", where);
            std::exclusive_scan(xb, xe, a.begin(), 4);
            std::exclusive_scan(yb, ye, b.begin(), 4);
            same(a, b, "exclusive_scan", where);
            equal(std::reduce(xb, xe), std::reduce(yb, ye), "reduce", where);
            equal(std::inner_product(xb, xe, yb, 0l), std::inner_product(yb, ye, yb, 0l), "inner_product", where);
        }
        break;
    }
    case 12: {  // range-v3's
        equal(px(::ranges::find(xb, xe, v)), py(std::find(yb, ye, v)), "range-v3's find", where);
        equal(px(::ranges::max_element(xb, xe, std::ranges::less(), key)), py(std::ranges::max_element(y, {}, key)), "range-v3's max_element", where);
        equal((long)::ranges::distance(x), n, "range-v3's distance", where);
        equal(::ranges::equal(x, y), true, "range-v3's equal", where);
        equal(::ranges::accumulate(xb, xe, 0l, std::plus<>(), [](const T& e) { return (long)num(e); }), std::transform_reduce(yb, ye, 0l, std::plus<>(), [](const T& e) { return (long)num(e); }), "range-v3's accumulate", where);
        auto nums = ::ranges::subrange(xb, xe) | ::ranges::views::transform([](const T& e) { return num(e); }) | ::ranges::views::drop(n / 3) | ::ranges::to<std::vector<int>>();
        std::vector<int> want;
        for(auto it = std::next(yb, n / 3); it != ye; ++it) want.push_back(num(*it));
        equal(nums == want, true, "range-v3's views", where);
        break;
    }
    case 13: {  // adaptors of iterators
        std::vector<int> a, b;
        for(auto& e : std::views::counted(xb, n / 2)) a.push_back(num(e));
        for(auto& e : std::views::counted(yb, n / 2)) b.push_back(num(e));
        equal(a == b, true, "views::counted", where);
        std::counted_iterator c(xb, n);
        equal(std::ranges::distance(c, std::default_sentinel), n, "counted_iterator", where);
        using Common = std::common_iterator<std::counted_iterator<decltype(xb)>, std::default_sentinel_t>;
        equal(std::count_if(Common(c), Common(std::default_sentinel), odd), std::count_if(yb, ye, odd), "common_iterator", where);
        std::ranges::subrange whole(xb, xe);
        equal((long)std::ranges::distance(whole), n, "subrange", where);
        if(n) equal(num(whole.front()), num(*yb), "subrange's front", where);
        break;
    }
    case 0:
        equal(px(std::find(xb, xe, v)), py(std::find(yb, ye, v)), "find", where);
        equal(px(std::ranges::find(x, v)), py(std::find(yb, ye, v)), "ranges::find", where);
        equal(px(std::find_if(xb, xe, odd)), py(std::find_if(yb, ye, odd)), "find_if", where);
        equal(px(std::find_if_not(xb, xe, odd)), py(std::find_if_not(yb, ye, odd)), "find_if_not", where);
        break;
    case 1:
        equal(std::count(xb, xe, v), std::count(yb, ye, v), "count", where);
        equal(std::ranges::count_if(x, odd), std::count_if(yb, ye, odd), "ranges::count_if", where);
        equal(std::all_of(xb, xe, odd), std::all_of(yb, ye, odd), "all_of", where);
        equal(std::ranges::any_of(x, less_lim), std::any_of(yb, ye, less_lim), "ranges::any_of", where);
        equal(std::none_of(xb, xe, less_lim), std::none_of(yb, ye, less_lim), "none_of", where);
        break;
    case 2:
        equal(px(std::adjacent_find(xb, xe)), py(std::adjacent_find(yb, ye)), "adjacent_find", where);
        equal(px(std::min_element(xb, xe)), py(std::min_element(yb, ye)), "min_element", where);
        equal(px(std::max_element(xb, xe)), py(std::max_element(yb, ye)), "max_element", where);
        equal(px(std::minmax_element(xb, xe).second), py(std::minmax_element(yb, ye).second), "minmax_element", where);
        equal(px(std::ranges::max_element(x, {}, key)), py(std::ranges::max_element(y, {}, key)), "ranges::max_element", where);
        break;
    case 3:
        equal(px(std::is_sorted_until(xb, xe)), py(std::is_sorted_until(yb, ye)), "is_sorted_until", where);
        equal(std::ranges::is_sorted(x), std::is_sorted(yb, ye), "ranges::is_sorted", where);
        equal(std::is_partitioned(xb, xe, odd), std::is_partitioned(yb, ye, odd), "is_partitioned", where);
        break;
    case 4: {
        const long a = r.range(0, n), b = r.range(a, n);
        auto sx = std::next(xb, a), tx = std::next(xb, b);
        auto sy = std::next(yb, a), ty = std::next(yb, b);
        equal(px(std::search(xb, xe, sx, tx)), py(std::search(yb, ye, sy, ty)), "search", where);
        equal(px(std::find_end(xb, xe, sy, ty)), py(std::find_end(yb, ye, sy, ty)), "find_end", where);
        equal(px(std::find_first_of(xb, xe, sy, ty)), py(std::find_first_of(yb, ye, sy, ty)), "find_first_of", where);
        equal(px(std::search_n(xb, xe, 2, v)), py(std::search_n(yb, ye, 2, v)), "search_n", where);
        equal(std::equal(sx, tx, sy), true, "equal of a part", where);
        equal(std::lexicographical_compare(xb, tx, sy, ye), std::lexicographical_compare(yb, ty, sy, ye), "lexicographical_compare", where);
        break;
    }
    case 5:
        equal(std::equal(xb, xe, yb, ye), true, "equal", where);
        equal(std::ranges::equal(x, y), true, "ranges::equal", where);
        equal(px(std::mismatch(xb, xe, yb, ye).first), n, "mismatch", where);
        equal(std::is_permutation(yb, ye, xb, xe), true, "is_permutation", where);
        break;
    case 6: {
        u64 sx = 0, sy = 0;
        std::for_each(xb, xe, [&](const T& e) { sx = sx * 31 + (u64)num(e); });
        std::for_each(yb, ye, [&](const T& e) { sy = sy * 31 + (u64)num(e); });
        equal((long)sx, (long)sy, "for_each", where);
        sx = std::accumulate(xb, xe, u64(0), [](u64 s, const T& e) { return s * 7 + (u64)num(e); });
        sy = std::accumulate(yb, ye, u64(0), [](u64 s, const T& e) { return s * 7 + (u64)num(e); });
        equal((long)sx, (long)sy, "accumulate", where);
        sx = std::transform_reduce(xb, xe, u64(0), std::plus<>(), [](const T& e) { return (u64)num(e); });
        sy = std::transform_reduce(yb, ye, u64(0), std::plus<>(), [](const T& e) { return (u64)num(e); });
        equal((long)sx, (long)sy, "transform_reduce", where);
        std::vector<long> ox(n), oy(n);
        std::transform(xb, xe, ox.begin(), [](const T& e) { return 3l * num(e); });
        std::transform(yb, ye, oy.begin(), [](const T& e) { return 3l * num(e); });
        equal(ox == oy, true, "transform", where);
        break;
    }
    case 7: {  // views
        std::vector<int> a, b;
        const long take = r.range(0, n + 1), drop = r.range(0, n + 1);
        for(int k : std::ref(x).get() | std::views::filter(odd) | std::views::transform([](const T& e) { return num(e); }) | std::views::take(take)) a.push_back(k);
        for(int k : std::ref(y).get() | std::views::filter(odd) | std::views::transform([](const T& e) { return num(e); }) | std::views::take(take)) b.push_back(k);
        equal(a == b, true, "views: filter, transform, take", where);
        a.clear(), b.clear();
        for(auto& e : std::ref(x).get() | std::views::drop(drop) | std::views::take_while(less_lim)) a.push_back(num(e));
        for(auto& e : std::ref(y).get() | std::views::drop(drop) | std::views::take_while(less_lim)) b.push_back(num(e));
        equal(a == b, true, "views: drop, take_while", where);
        auto mid = std::ranges::subrange(std::next(xb, n / 3), xe);
        equal((long)std::ranges::distance(mid), n - n / 3, "subrange", where);
        u64 c = 0;
        for(auto& e : std::views::all(x)) c = c * 5 + (u64)num(e);
        u64 d = 0;
        for(auto& e : std::views::all(y)) d = d * 5 + (u64)num(e);
        equal((long)c, (long)d, "views::all", where);
        break;
    }
    case 8:
        if constexpr(std::is_copy_constructible_v<T>) {
            std::vector<T> a(xb, xe), b;
            same(a, y, "vector from", where);
            std::copy(xb, xe, std::back_inserter(b));
            same(b, y, "copy", where);
            std::deque<T> d(n);
            std::ranges::copy(x, d.begin());
            same(d, y, "ranges::copy", where);
            std::vector<T> e, f;
            std::copy_if(xb, xe, std::back_inserter(e), odd);
            std::copy_if(yb, ye, std::back_inserter(f), odd);
            same(e, f, "copy_if", where);
            e.clear(), f.clear();
            std::unique_copy(xb, xe, std::back_inserter(e));
            std::unique_copy(yb, ye, std::back_inserter(f));
            same(e, f, "unique_copy", where);
            e.clear(), f.clear();
            std::rotate_copy(xb, std::next(xb, n / 2), xe, std::back_inserter(e));
            std::rotate_copy(yb, std::next(yb, n / 2), ye, std::back_inserter(f));
            same(e, f, "rotate_copy", where);
            e.clear(), f.clear();
            Generator g{r.next()}, h = g;
            std::sample(xb, xe, std::back_inserter(e), n / 2, g);
            std::sample(yb, ye, std::back_inserter(f), n / 2, h);
            same(e, f, "sample", where);
            e.clear(), f.clear();
            std::partial_sort_copy(xb, xe, d.begin(), d.begin() + n / 2);
            std::vector<T> s(n);
            std::partial_sort_copy(yb, ye, s.begin(), s.begin() + n / 2);
            d.resize(n / 2), s.resize(n / 2);
            same(d, s, "partial_sort_copy", where);
        }
        break;
    case 9:
        if constexpr(std::random_access_iterator<decltype(xb)>) {
            equal(xe - xb, n, "difference", where);
            for(int t = 0; t < 3 && n; ++t) {
                const long k = r.range(0, n - 1);
                equal(num(xb[k]), num(*std::next(yb, k)), "subscript of the iterator", where);
                equal(num(*(xe - (n - k))), num(*std::next(yb, k)), "iterator - n", where);
                equal((xb + k) < xe, true, "order of iterators", where);
            }
            long seen_ = 0;
            for(auto it = xe; it != xb;) {
                --it;
                ++seen_;
                if(num(*it) != num(*std::next(yb, n - seen_))) equal(num(*it), num(*std::next(yb, n - seen_)), "walking back", where);
            }
            equal(seen_, n, "walking back", where);
            std::vector<int> a, b;
            for(auto& e : std::ref(x).get() | std::views::reverse) a.push_back(num(e));
            for(auto& e : std::ref(y).get() | std::views::reverse) b.push_back(num(e));
            equal(a == b, true, "views::reverse", where);
            a.clear(), b.clear();
            std::for_each(std::make_reverse_iterator(xe), std::make_reverse_iterator(xb), [&](const T& e) { a.push_back(num(e)); });
            std::for_each(std::make_reverse_iterator(ye), std::make_reverse_iterator(yb), [&](const T& e) { b.push_back(num(e)); });
            equal(a == b, true, "make_reverse_iterator", where);
        }
        break;
    case 10:
        if constexpr(std::random_access_iterator<decltype(xb)>) {
            const bool hx = std::is_heap(xb, xe), hy = std::is_heap(yb, ye);
            equal(hx, hy, "is_heap", where);
            equal(px(std::is_heap_until(xb, xe)), py(std::is_heap_until(yb, ye)), "is_heap_until", where);
        }
        // of those that are sorted by chance or the size
        if(std::is_sorted(yb, ye)) {
            equal(px(std::lower_bound(xb, xe, v)), py(std::lower_bound(yb, ye, v)), "lower_bound", where);
            equal(px(std::ranges::upper_bound(x, v, {})), py(std::upper_bound(yb, ye, v)), "ranges::upper_bound", where);
            equal(std::binary_search(xb, xe, v), std::binary_search(yb, ye, v), "binary_search", where);
            equal(px(std::equal_range(xb, xe, v).second), py(std::equal_range(yb, ye, v).second), "equal_range", where);
            if constexpr(std::is_copy_constructible_v<T>) {
                std::vector<T> a, b;
                std::merge(xb, xe, yb, ye, std::back_inserter(a));
                std::merge(yb, ye, yb, ye, std::back_inserter(b));
                same(a, b, "merge", where);
                equal(std::includes(xb, xe, yb, ye), true, "includes", where);
                a.clear(), b.clear();
                std::set_difference(xb, xe, yb, ye, std::back_inserter(a));
                equal((long)a.size(), 0, "set_difference", where);
            }
        }
        break;
    default:
        if constexpr(std::is_copy_constructible_v<T>) {
            std::vector<T> sorted(yb, ye);
            std::stable_sort(sorted.begin(), sorted.end());
            std::vector<T> mine(xb, xe);
            std::ranges::stable_sort(mine);
            same(mine, sorted, "stable_sort of a copy", where);
        }
        equal((long)std::count_if(xb, xe, less_lim), (long)std::ranges::count_if(y, less_lim), "count_if", where);
        equal(px(std::ranges::find_if(x, [&](int k) { return k >= lim; }, key)), py(std::ranges::find_if(y, [&](int k) { return k >= lim; }, key)), "ranges::find_if by key", where);
    }
}

// Algorithms that write. Random access: x and y have the same length and content.
template<typename T, typename X, typename Y>
void writing(Rng& r, X&& x, Y&& y, const char* where) {
    auto xb = std::ranges::begin(x);
    auto xe = std::ranges::end(x);
    auto yb = std::ranges::begin(y);
    auto ye = std::ranges::end(y);
    constexpr bool ra   = std::random_access_iterator<decltype(xb)>;
    constexpr bool copy = std::is_copy_constructible_v<T>;
    const long n = (long)std::distance(yb, ye);
    auto px = [&](auto it) { return (long)std::distance(xb, it); };
    auto py = [&](auto it) { return (long)std::distance(yb, it); };
    auto odd = [](const T& e) { return num(e) & 1; };
    auto key = [](const T& e) { return rank_of(e); };
    const int pick = (int)r.below(ra ? 28 : 12);
    const char* what = "";
    const long a = r.range(0, n), b = r.range(a, n);
    Generator g{r.next()}, h = g;
    switch(pick) {
    case 0:
        what = "rotate";
        equal(px(std::rotate(xb, std::next(xb, a), xe)), py(std::rotate(yb, std::next(yb, a), ye)), what, where);
        break;
    case 1: {
        what = "remove_if";
        const long kx = px(std::remove_if(xb, xe, odd)), ky = py(std::remove_if(yb, ye, odd));
        equal(kx, ky, what, where);
        for(auto i = std::next(xb, kx); i != xe; ++i) *i = el<T>(5);
        for(auto i = std::next(yb, ky); i != ye; ++i) *i = el<T>(5);
        break;
    }
    case 2: {
        what = "unique";
        const long kx = px(std::unique(xb, xe)), ky = py(std::unique(yb, ye));
        equal(kx, ky, what, where);
        for(auto i = std::next(xb, kx); i != xe; ++i) *i = el<T>(5);
        for(auto i = std::next(yb, ky); i != ye; ++i) *i = el<T>(5);
        break;
    }
    case 3: {
        what = "generate";
        int c = 3, d = 3;
        std::generate(xb, xe, [&] { return el<T>(c = c * 5 % 37); });
        std::generate(yb, ye, [&] { return el<T>(d = d * 5 % 37); });
        break;
    }
    case 4:
        what = "partition by forward iterators";
        if constexpr(ra) {
            equal(px(std::stable_partition(xb, xe, odd)), py(std::stable_partition(yb, ye, odd)), what, where);
        }
        else {
            equal(px(std::partition(xb, xe, odd)), py(std::partition(yb, ye, odd)), what, where);
        }
        break;
    case 5:
        what = "swap_ranges";
        std::swap_ranges(xb, std::next(xb, n / 2), std::next(xb, n / 2));
        std::swap_ranges(yb, std::next(yb, n / 2), std::next(yb, n / 2));
        break;
    case 6: {
        what = "iter_swap and iter_move";
        if(n == 0) break;
        auto ix = std::next(xb, r.range(0, n - 1)), jx = std::next(xb, r.range(0, n - 1));
        auto iy = std::next(yb, px(ix)), jy = std::next(yb, px(jx));
        std::iter_swap(ix, jx);
        std::iter_swap(iy, jy);
        std::ranges::iter_swap(ix, std::ranges::next(xb, n - 1));
        std::ranges::iter_swap(iy, std::ranges::next(yb, n - 1));
        T tx = std::ranges::iter_move(jx), ty = std::ranges::iter_move(jy);
        *jx = el<T>(17), *jy = el<T>(17);
        equal(num(tx), num(ty), what, where);
        break;
    }
    case 7:
        what = "move to the front";
        std::move(std::next(xb, a), xe, xb);
        std::move(std::next(yb, a), ye, yb);
        for(long k = n - a; k < n; ++k) *std::next(xb, k) = el<T>(3), *std::next(yb, k) = el<T>(3);
        break;
    case 8:
        what = "replace_if, fill_n";
        if constexpr(copy) {
            std::replace_if(xb, xe, odd, el<T>(8));
            std::replace_if(yb, ye, odd, el<T>(8));
            std::fill_n(std::next(xb, a), b - a, el<T>(21));
            std::fill_n(std::next(yb, a), b - a, el<T>(21));
        }
        break;
    case 9:
        what = "ranges::fill, ranges::replace";
        if constexpr(copy) {
            std::ranges::replace(x, el<T>(4), el<T>(6));
            std::ranges::replace(y, el<T>(4), el<T>(6));
            std::ranges::fill(xb, std::next(xb, a), el<T>(33));
            std::ranges::fill(yb, std::next(yb, a), el<T>(33));
        }
        break;
    case 10:
        what = "copy onto the standard container";
        if constexpr(copy) {
            std::copy(yb, std::next(yb, a), std::next(xb, n - a));
            std::vector<T> t(yb, std::next(yb, a));
            std::copy(t.begin(), t.end(), std::next(yb, n - a));
            if(n - a < a) {  // x was written from y's old head: redo on the same source
                std::copy(t.begin(), t.end(), std::next(xb, n - a));
            }
        }
        break;
    case 11:
        what = "for_each";
        std::for_each(xb, xe, [k = 0](T& e) mutable { e = el<T>(num(e) % 20 + (++k) % 3); });
        std::for_each(yb, ye, [k = 0](T& e) mutable { e = el<T>(num(e) % 20 + (++k) % 3); });
        break;
    default:
        if constexpr(ra) {
            switch(pick) {
            case 12: what = "sort"; std::sort(xb, xe), std::sort(yb, ye); break;
            case 13: what = "stable_sort"; std::stable_sort(xb, xe), std::stable_sort(yb, ye); break;
            case 14: what = "ranges::sort"; std::ranges::stable_sort(x, {}, key), std::ranges::stable_sort(y, {}, key); break;
            case 15: what = "ranges::sort downwards"; std::ranges::sort(x, std::greater<>(), key), std::ranges::sort(y, std::greater<>(), key); break;
            case 16: what = "partial_sort"; std::partial_sort(xb, xb + a, xe), std::partial_sort(yb, yb + a, ye); break;
            case 17: what = "nth_element"; std::nth_element(xb, xb + a, xe), std::nth_element(yb, yb + a, ye); break;
            case 18: what = "shuffle"; std::shuffle(xb, xe, g), std::shuffle(yb, ye, h); break;
            case 19:
                what = "heap operations";
                std::make_heap(xb, xe), std::make_heap(yb, ye);
                if(n) std::pop_heap(xb, xe), std::pop_heap(yb, ye);
                if(n) std::push_heap(xb, xe), std::push_heap(yb, ye);
                same(x, y, "heap operations", where);
                std::sort_heap(xb, xe), std::sort_heap(yb, ye);
                break;
            case 20: what = "reverse"; std::reverse(xb + a, xb + b), std::reverse(yb + a, yb + b); break;
            case 21:
                what = "inplace_merge";
                std::sort(xb, xb + a), std::sort(yb, yb + a), std::sort(xb + a, xe), std::sort(yb + a, ye);
                std::inplace_merge(xb, xb + a, xe), std::inplace_merge(yb, yb + a, ye);
                break;
            case 22:
                what = "next_permutation";
                equal(std::next_permutation(xb, xe), std::next_permutation(yb, ye), what, where);
                equal(std::prev_permutation(xb + a, xb + b), std::prev_permutation(yb + a, yb + b), what, where);
                break;
            case 23:
                what = "move_backward";
                std::move_backward(xb, xb + a, xe), std::move_backward(yb, yb + a, ye);
                for(long k = 0; k < n - a; ++k) xb[k] = el<T>(2), yb[k] = el<T>(2);
                break;
            case 24:
                what = "shift";
                std::shift_left(xb, xe, b - a), std::shift_left(yb, ye, b - a);
                for(long k = std::max(0l, n - (b - a)); k < n; ++k) xb[k] = el<T>(2), yb[k] = el<T>(2);
                break;
            case 26: what = "range-v3's sort"; ::ranges::stable_sort(xb, xe, std::ranges::less(), key), std::ranges::stable_sort(y, {}, key); break;
            case 27:
                what = "move_iterator";
                {
                    std::vector<T> mx(std::make_move_iterator(xb), std::make_move_iterator(xe)), my(std::make_move_iterator(yb), std::make_move_iterator(ye));
                    std::move(mx.begin(), mx.end(), std::make_reverse_iterator(xe));
                    std::move(my.begin(), my.end(), std::make_reverse_iterator(ye));
                }
                break;
            case 25: what = "partition"; equal(px(std::partition(xb, xe, odd)), py(std::partition(yb, ye, odd)), what, where); break;
            }
        }
    }
    note("%s\n", what);
    same(x, y, what, where);
}

// ---------------------------------------------------------------------------------------------
template<typename T>
void arrays(const char* group) {
    cases(group, st().cases, [&](Rng& r, long) {
        const long n = r.chance(15) ? r.range(0, 2) : r.range(0, 70);
        xme::Array<T> x;
        std::vector<T> y;
        for(long k = 0; k < n; ++k) {
            const int v = (int)r.below(40);
            x.push_back(el<T>(v));
            y.push_back(el<T>(v));
        }
        note("%ld elements\n", n);
        const xme::Array<T>& cx = x;
        const std::vector<T>& cy = y;
        for(int step = 0; step < 6; ++step) {
            switch(r.below(9)) {
            case 0: writing<T>(r, x, y, "an array"); break;
            case 1: reading<T>(r, x, y, "an array"); break;
            case 2: reading<T>(r, cx, cy, "a constant array"); break;
            case 3: {
                const long a = r.range(0, n), b = r.range(a, n);
                auto part = std::ranges::subrange(x.begin() + a, x.begin() + b);
                auto ypart = std::ranges::subrange(y.begin() + a, y.begin() + b);
                writing<T>(r, part, ypart, "a part of an array");
                break;
            }
            case 4: {
                xme::ArrayView<T> v(x);
                std::span<T> s(y);
                if(r.chance(50)) writing<T>(r, v, s, "a view");
                else reading<T>(r, v, s, "a view");
                break;
            }
            case 5: {
                xme::ArrayView<const T> v(cx);
                std::span<const T> s(cy);
                reading<T>(r, v, s, "a constant view");
                const long a = r.range(0, n), b = r.range(a, n);
                reading<T>(r, v.subview((size_t)a, (size_t)(b - a)), s.subspan((size_t)a, (size_t)(b - a)), "a part of a constant view");
                break;
            }
            case 6: {  // backwards
                auto back = std::ranges::subrange(xme::ReverseIterator(x.end()), xme::ReverseIterator(x.begin()));
                auto yback = std::ranges::subrange(y.rbegin(), y.rend());
                if(r.chance(60)) writing<T>(r, back, yback, "the reverse of an array");
                else reading<T>(r, back, yback, "the reverse of an array");
                break;
            }
            case 7: {
                auto fixed = std::ranges::subrange(xme::ConstIterator(x.begin()), xme::ConstIterator(x.end()));
                reading<T>(r, fixed, y, "const iterators of an array");
                auto back = std::ranges::subrange(xme::ConstIterator(xme::ReverseIterator(x.end())), xme::ConstIterator(xme::ReverseIterator(x.begin())));
                auto yback = std::ranges::subrange(y.rbegin(), y.rend());
                reading<T>(r, back, yback, "const iterators of the reverse of an array");
                break;
            }
            default: {  // functions about containers
                equal((long)std::size(x), n, "std::size", "an array");
                equal(std::ssize(cx), n, "std::ssize", "an array");
                equal(std::empty(cx), n == 0, "std::empty", "an array");
                equal(std::data(x) == std::to_address(x.begin()), true, "std::data", "an array");
                equal((long)std::ranges::size(cx), n, "ranges::size", "an array");
                equal(std::ranges::empty(x), n == 0, "ranges::empty", "an array");
                equal(std::ranges::data(cx) == cx.data(), true, "ranges::data", "an array");
                equal((long)(std::end(x) - std::begin(x)), n, "std::begin", "an array");
                equal((long)(std::cend(x) - std::cbegin(x)), n, "std::cbegin", "an array");
                std::span<T> s(std::data(x), std::size(x));
                std::span<const T> c(std::data(cx), std::size(cx));
                equal((long)s.size() == n && s.data() == x.data() && c.data() == x.data(), true, "span", "an array");
                if constexpr(std::is_same_v<T, char>) {
                    std::string_view text(std::data(cx), std::size(cx));
                    equal(text == std::string(y.begin(), y.end()), true, "string_view", "an array");
                }
                xme::Array<T> other;
                std::vector<T> yother;
                other.push_back(el<T>(1)), yother.push_back(el<T>(1));
                std::swap(x, other), std::swap(y, yother);
                same(x, y, "std::swap", "an array");
                std::ranges::swap(x, other), std::ranges::swap(y, yother);
                same(x, y, "ranges::swap", "an array");
            }
            }
            if((long)x.size() != n) violation("content", "the size changed");
        }
        // erase and insert with the iterators algorithms gave
        auto odd = [](const T& e) { return num(e) & 1; };
        const long from = std::distance(y.begin(), std::remove_if(y.begin(), y.end(), odd));
        x.erase(std::remove_if(x.begin(), x.end(), odd), x.end());
        y.erase(y.begin() + from, y.end());
        same(x, y, "erase(remove_if)", "an array");
        if constexpr(std::is_copy_constructible_v<T>) {
            std::sort(x.begin(), x.end()), std::sort(y.begin(), y.end());
            const T v = el<T>((int)r.below(40));
            x.insert(std::lower_bound(x.begin(), x.end(), v), v);
            y.insert(std::lower_bound(y.begin(), y.end(), v), v);
            same(x, y, "insert(lower_bound)", "an array");
            std::copy_if(y.begin(), y.end(), std::back_inserter(x), odd);
            std::vector<T> more;
            std::copy_if(y.begin(), y.end(), std::back_inserter(more), odd);
            y.insert(y.end(), more.begin(), more.end());
            same(x, y, "back_inserter", "an array");
            const long at = r.range(0, (long)y.size());
            std::copy(more.begin(), more.end(), std::inserter(x, x.begin() + at));
            std::copy(more.begin(), more.end(), std::inserter(y, y.begin() + at));
            same(x, y, "inserter", "an array");
        }
    });
}

// what adaptors and others need of a container of the standard library
template<typename T>
void adaptors(const char* group) {
    cases(group, st().cases, [&](Rng& r, long) {
        std::stack<T, xme::Array<T>> sx;
        std::stack<T> sy;
        std::priority_queue<T, xme::Array<T>, std::less<T>> qx;
        std::priority_queue<T, std::vector<T>, std::less<T>> qy;
        for(int step = 0; step < 60; ++step) {
            const int v = (int)r.below(40);
            if(r.chance(60) || sy.empty()) sx.push(el<T>(v)), sy.push(el<T>(v)), qx.push(el<T>(v)), qy.push(el<T>(v));
            else if(r.chance(50)) sx.emplace(el<T>(v)), sy.emplace(el<T>(v)), qx.emplace(el<T>(v)), qy.emplace(el<T>(v));
            else sx.pop(), sy.pop(), qx.pop(), qy.pop();
            equal((long)sx.size(), (long)sy.size(), "size", "a stack over an array");
            equal((long)qx.size(), (long)qy.size(), "size", "a priority_queue over an array");
            if(sy.size()) equal(num(sx.top()), num(sy.top()), "top", "a stack over an array");
            if(qy.size()) equal(num(qx.top()), num(qy.top()), "top", "a priority_queue over an array");
        }
        note("%zu left\n", sy.size());
    });
}

template<typename T>
void lists(const char* group) {
    cases(group, st().cases, [&](Rng& r, long) {
        const long n = r.chance(15) ? r.range(0, 2) : r.range(0, 50);
        xme::LinkedList<T> x;
        std::forward_list<T> y;
        for(long k = 0; k < n; ++k) {
            const int v = (int)r.below(40);
            x.push_front(el<T>(v));
            y.push_front(el<T>(v));
        }
        note("%ld elements\n", n);
        const xme::LinkedList<T>& cx    = x;
        const std::forward_list<T>& cy = y;
        for(int step = 0; step < 6; ++step) {
            switch(r.below(4)) {
            case 0: reading<T>(r, x, y, "a list"); break;
            case 1: reading<T>(r, cx, cy, "a constant list"); break;
            case 2: {
                auto fixed = std::ranges::subrange(xme::ConstIterator(x.begin()), xme::ConstIterator(x.end()));
                reading<T>(r, fixed, y, "const iterators of a list");
                break;
            }
            default: writing<T>(r, x, y, "a list");
            }
            equal(std::empty(x), n == 0, "std::empty", "a list");
            equal(std::ranges::empty(cx), n == 0, "ranges::empty", "a list");
        }
        if constexpr(std::is_copy_constructible_v<T>) {
            std::vector<T> more;
            for(int k = 0; k < 4; ++k) more.push_back(el<T>((int)r.below(40)));
            std::copy(more.begin(), more.end(), std::front_inserter(x));
            std::copy(more.begin(), more.end(), std::front_inserter(y));
            same(x, y, "front_inserter", "a list");
            xme::Array<T> from(x.begin(), x.end());
            std::vector<T> yfrom(y.begin(), y.end());
            same(from, yfrom, "an array", "from a list");
            auto evens = x | std::views::filter([](const T& e) { return num(e) % 2 == 0; });
            auto yevens = y | std::views::filter([](const T& e) { return num(e) % 2 == 0; });
            xme::Array<T> some(evens.begin(), evens.end());
            std::vector<T> ysome(yevens.begin(), yevens.end());
            same(some, ysome, "an array", "from a filtered list");
            xme::LinkedList<T> again(some.begin(), some.end());
            same(again, ysome, "a list", "from an array");
        }
    });
}

int main(int argc, char** argv) {
    init(argc, argv);
#if PART == 0
    arrays<int>("arrays of int");
    adaptors<int>("adaptors of int");
    arrays<char>("arrays of char");
#elif PART == 1
    arrays<std::string>("arrays of strings");
    adaptors<std::string>("adaptors of strings");
#elif PART == 2
    arrays<Rec>("arrays of records");
    adaptors<Rec>("adaptors of records");
#elif PART == 3
    arrays<Only>("arrays of move only elements");
    lists<Only>("lists of move only elements");
    adaptors<Only>("adaptors of move only elements");
#else
    lists<int>("lists of int");
    lists<std::string>("lists of strings");
    lists<Rec>("lists of records");
#endif
    return finish();
}
