// xme::IContainer as the base of ranges of the program's own (C48): which members it offers to a
// range of which category, and what they give compared with walking the range. The ranges have
// iterators of every category and sentinels of every kind, count what is done with them, and are
// walked next to a plain vector.
#include "../harness/track.hpp"
#include <deque>
#include <forward_list>
#include <iterator>
#include <list>
#include <ranges>
#include <span>
#include <xme/container/icontainer.hpp>

using namespace mon;

// ---------------------------------------------------------------------------------------------
// range-v3's name of the category is the one its concepts know
using contiguous_tag = ::ranges::contiguous_iterator_tag;
// An iterator of category Tag over ints, which counts the steps taken, and stays in [first, last].
struct Steps {
    long single = 0, jumps = 0, reads = 0;
    void reset() { *this = {}; }
};
static Steps steps;
static bool astray;

template<typename Tag, typename T>
struct Walker {
    using iterator_category = std::conditional_t<std::is_same_v<Tag, contiguous_tag>, std::random_access_iterator_tag, Tag>;
    using iterator_concept  = Tag;
    using value_type        = std::remove_const_t<T>;
    using element_type      = T;
    using difference_type   = std::ptrdiff_t;
    using reference         = T&;
    using pointer           = T*;
    static constexpr bool bidir = std::derived_from<Tag, std::bidirectional_iterator_tag>;
    static constexpr bool ra    = std::derived_from<Tag, std::random_access_iterator_tag>;
    T* base = nullptr;
    long at = 0, n = 0;
    const Walker& inside() const {
        if(at < 0 || at > n) astray = true;
        return *this;
    }
    T& operator*() const {
        ++steps.reads;
        if(at < 0 || at >= n) {
            astray = true;
            static T none{};
            return none;
        }
        return base[at];
    }
    T* operator->() const { return base + at; }
    Walker& operator++() { ++steps.single; ++at; inside(); return *this; }
    Walker operator++(int) { Walker w = *this; ++*this; return w; }
    Walker& operator--() requires bidir { ++steps.single; --at; inside(); return *this; }
    Walker operator--(int) requires bidir { Walker w = *this; --*this; return w; }
    Walker& operator+=(difference_type k) requires ra { ++steps.jumps; at += k; inside(); return *this; }
    Walker& operator-=(difference_type k) requires ra { ++steps.jumps; at -= k; inside(); return *this; }
    T& operator[](difference_type k) const requires ra { return *(*this + k); }
    friend Walker operator+(Walker w, difference_type k) requires ra { return w += k; }
    friend Walker operator+(difference_type k, Walker w) requires ra { return w += k; }
    friend Walker operator-(Walker w, difference_type k) requires ra { return w -= k; }
    friend difference_type operator-(const Walker& a, const Walker& b) requires ra { return a.at - b.at; }
    friend bool operator==(const Walker& a, const Walker& b) { return a.at == b.at; }
    friend auto operator<=>(const Walker& a, const Walker& b) requires ra { return a.at <=> b.at; }
};
static_assert(::ranges::contiguous_iterator<Walker<contiguous_tag, int>> && !::ranges::contiguous_iterator<Walker<std::random_access_iterator_tag, int>>);
// Ends of a range of another type than its iterators
template<typename It>
struct Stop {  // compares only
    long n = 0;
    friend bool operator==(const It& i, const Stop& s) { return i.at == s.n; }
};
template<typename It>
struct Measured {  // also tells the distance
    long n = 0;
    friend bool operator==(const It& i, const Measured& s) { return i.at == s.n; }
    friend std::ptrdiff_t operator-(const Measured& s, const It& i) { return s.n - i.at; }
    friend std::ptrdiff_t operator-(const It& i, const Measured& s) { return i.at - s.n; }
};
template<typename T>
struct Proxy {
    T* p;
    operator T() const { return *p; }
    const Proxy& operator=(T v) const { *p = v; return *this; }
};

// ---------------------------------------------------------------------------------------------
// The ranges. How: begin() and end() for mutable and constant objects, or for one of them only.
enum class Access { both, mutable_only, const_only, plain_const };

template<typename Tag, template<typename> typename End, typename T, Access A>
struct Range;

template<typename Tag, template<typename> typename End, typename T>
struct Range<Tag, End, T, Access::both> : xme::IContainer<Range<Tag, End, T, Access::both>> {
    T* base;
    long n;
    Range(T* b, long k) : base(b), n(k) {}
    using I = Walker<Tag, T>;
    using C = Walker<Tag, const T>;
    I begin() { return {base, 0, n}; }
    C begin() const { return {base, 0, n}; }
    End<I> end() { return make_end<End<I>>(); }
    End<C> end() const { return make_end<End<C>>(); }
    template<typename E>
    E make_end() const {
        if constexpr(requires { E{n}.n; } && !requires(E e) { *e; }) return E{n};
        else return E{base, n, n};
    }
};
template<typename Tag, template<typename> typename End, typename T>
struct Range<Tag, End, T, Access::mutable_only> : xme::IContainer<Range<Tag, End, T, Access::mutable_only>> {
    T* base;
    long n;
    Range(T* b, long k) : base(b), n(k) {}
    using I = Walker<Tag, T>;
    I begin() { return {base, 0, n}; }
    End<I> end() {
        if constexpr(!requires(End<I> e) { *e; }) return {n};
        else return {base, n, n};
    }
};
template<typename Tag, template<typename> typename End, typename T>
struct Range<Tag, End, T, Access::plain_const> : xme::IContainer<Range<Tag, End, T, Access::plain_const>> {
    T* base;
    long n;
    Range(T* b, long k) : base(b), n(k) {}
    using I = Walker<Tag, T>;
    I begin() const { return {base, 0, n}; }
    End<I> end() const {
        if constexpr(!requires(End<I> e) { *e; }) return {n};
        else return {base, n, n};
    }
};
template<typename It>
using Same = It;

// What the members promise, judged against the elements.
template<typename D>
struct offered {
    static constexpr bool index = requires(D& d) { d[0]; };
    static constexpr bool empty = requires(D& d) { d.empty(); };
    static constexpr bool data  = requires(D& d) { d.data(); };
    static constexpr bool size  = requires(D& d) { d.size(); };
    static constexpr bool front = requires(D& d) { d.front(); };
    static constexpr bool back  = requires(D& d) { d.back(); };
};

// D: the range's type, const or not. Vals: the elements, whose addresses start at `base`.
template<typename D, typename T>
void members(Rng& r, D& d, T* base, long n, const char* what, bool counted = true) {
    using o          = offered<D>;
    constexpr bool R = std::ranges::range<D>;
    const bool expect[6] = {R && std::ranges::random_access_range<D>, R && std::ranges::forward_range<D>, R && ::ranges::contiguous_range<D>,
                            R && std::ranges::forward_range<D> && std::ranges::sized_range<D>, R && std::ranges::forward_range<D>,
                            R && std::ranges::bidirectional_range<D>};
    const bool have[6]   = {o::index, o::empty, o::data, o::size, o::front, o::back};
    const char* name[6]  = {"operator[]", "empty", "data", "size", "front", "back"};
    for(int k = 0; k < 6; ++k) {
        judged();
        MON_CHECK(have[k] == expect[k], "offered", "%s: %s is %s", what, name[k], have[k] ? "offered, but its iterators can't do it" : "not offered, although its iterators allow it");
    }
    if constexpr(R) {
        using Ref = std::ranges::range_reference_t<D>;
        auto look = [&](const char* how, long k, auto&& ref) {
            judged();
            static_assert(std::is_same_v<decltype(ref), Ref&&>, "a reference of another type than the iterators give");
            if constexpr(std::is_lvalue_reference_v<Ref>)
                MON_CHECK(std::addressof(ref) == base + k, "element", "%s: %s of %ld elements is element %ld instead of %ld", what, how, n, (long)(std::addressof(ref) - base), k);
            else
                MON_CHECK((T)ref == base[k], "element", "%s: %s of %ld elements is %ld instead of %ld", what, how, n, (long)(T)ref, (long)base[k]);
        };
        auto at_most = [&](const char* how, long single) {
            if(counted)
                MON_CHECK(steps.single <= single && steps.jumps <= 6 && steps.reads <= 1, "steps", "%s: %s of %ld elements took %ld steps, %ld jumps and %ld reads", what, how, n, steps.single, steps.jumps, steps.reads);
            MON_CHECK(!astray, "astray", "%s: %s of %ld elements moved out of the range", what, how, n);
            astray = false;
            steps.reset();
        };
        constexpr bool common = std::ranges::common_range<D>;
        steps.reset();
        if constexpr(o::empty) {
            judged();
            MON_CHECK(d.empty() == (n == 0), "empty", "%s: empty() of %ld elements", what, n);
            at_most("empty()", 0);
        }
        if constexpr(o::size) {
            judged();
            static_assert(std::is_same_v<decltype(d.size()), std::size_t>);
            MON_CHECK((long)d.size() == n, "size", "%s: size() of %ld elements is %zu", what, n, d.size());
            at_most("size()", 0);
        }
        if constexpr(o::data) {
            judged();
            static_assert(std::is_same_v<decltype(d.data()), std::add_pointer_t<Ref>>);
            MON_CHECK(d.data() == base, "data", "%s: data() of %ld elements is %ld elements off", what, n, (long)(d.data() - base));
            MON_CHECK(steps.reads == 0 || !counted, "steps", "%s: data() of %ld elements reads an element", what, n);
            at_most("data()", 0);
        }
        if(n > 0) {
            if constexpr(o::front) {
                look("front()", 0, d.front());
                at_most("front()", 0);
            }
            if constexpr(o::back) {
                look("back()", n - 1, d.back());
                at_most("back()", common || o::index ? 1 : n + 1);
            }
            if constexpr(o::index)
                for(int t = 0; t < 4; ++t) {
                    const long k = t == 0 ? n - 1 : (long)r.below((u64)n);
                    look("[]", k, d[k]);
                    at_most("[]", 0);
                }
            // writes
            if constexpr(std::is_lvalue_reference_v<Ref> && !std::is_const_v<std::remove_reference_t<Ref>> && o::front) {
                const T old = base[0], value = (T)(old + 3);
                d.front() = value;
                MON_CHECK(base[0] == value, "element", "%s: what was written to front() isn't the first element's value", what);
                base[0] = old;
                if constexpr(o::back) {
                    const T last = base[n - 1];
                    d.back()     = value;
                    MON_CHECK(base[n - 1] == value, "element", "%s: what was written to back() isn't the last element's value", what);
                    base[n - 1] = last;
                }
                judged(2);
            }
        }
        steps.reset();
        seen(hash2(hash_str(what), hash2((u64)n, std::is_const_v<D>)));
    }
}

template<typename Tag, template<typename> typename End>
void categories(const char* group, long cases_) {
    cases(group, cases_, [&](Rng& r, long) {
        const long n = r.chance(20) ? 0 : r.chance(20) ? 1 : r.range(0, 60);
        std::vector<int> v((size_t)n);
        for(int& x : v) x = (int)r.below(1000);
        note("%ld elements\n", n);
        {
            Range<Tag, End, int, Access::both> x(v.data(), n);
            members(r, x, v.data(), n, "begin() and begin() const");
            members(r, std::as_const(x), v.data(), n, "const object, begin() and begin() const");
            auto y = x;  // copies designate themselves
            y.n    = n / 2;
            members(r, y, v.data(), n / 2, "copy");
            members(r, std::as_const(y), v.data(), n / 2, "const copy");
        }
        {
            Range<Tag, End, int, Access::mutable_only> x(v.data(), n);
            members(r, x, v.data(), n, "begin() only");
            members(r, std::as_const(x), v.data(), n, "const object, begin() only");
        }
        {
            Range<Tag, End, int, Access::plain_const> x(v.data(), n);
            members(r, x, v.data(), n, "begin() const only");
            members(r, std::as_const(x), v.data(), n, "const object, begin() const only");
        }
        {
            Range<Tag, End, const int, Access::plain_const> x(v.data(), n);
            members(r, x, (const int*)v.data(), n, "constant elements");
            members(r, std::as_const(x), (const int*)v.data(), n, "const object, constant elements");
        }
    });
}

// ---------------------------------------------------------------------------------------------
// Ranges over what the standard library and plain pointers have
template<typename C>
struct Holder : xme::IContainer<Holder<C>> {
    C c;
    auto begin() { return c.begin(); }
    auto begin() const { return c.begin(); }
    auto end() { return c.end(); }
    auto end() const { return c.end(); }
};
// its own members are what its users call
struct Own : xme::IContainer<Own> {
    std::vector<int> c;
    long asked = 0;
    auto begin() const { return c.begin(); }
    auto end() const { return c.end(); }
    std::size_t size() const { ++const_cast<Own*>(this)->asked; return c.size(); }
    const int& front() const { static const int first = -5; return first; }
};
// a range made of a range, of a range
template<typename B>
struct Deeper : Holder<B> {
    using Holder<B>::Holder;
    long more = 0;
};
struct Last final : xme::IContainer<Last> {
    int first[4] = {1, 2, 3, 4};
    constexpr int* begin() { return first; }
    constexpr const int* begin() const { return first; }
    constexpr int* end() { return first + 4; }
    constexpr const int* end() const { return first + 4; }
};
struct Bits : xme::IContainer<Bits> {  // gives proxies
    std::vector<bool> c;
    auto begin() { return c.begin(); }
    auto end() { return c.end(); }
    auto begin() const { return c.begin(); }
    auto end() const { return c.end(); }
};
struct Numbers : xme::IContainer<Numbers> {  // gives values
    long n;
    Numbers(long k) : n(k) {}
    auto begin() const { return std::views::iota(0L, n).begin(); }
    auto end() const { return std::views::iota(0L, n).end(); }
};
struct Counted : xme::IContainer<Counted> {
    std::list<int> c;
    auto begin() const { return std::counted_iterator(c.begin(), (long)c.size()); }
    auto end() const { return std::default_sentinel; }
};
struct Text : xme::IContainer<Text> {  // ended by a zero
    struct Zero {
        friend bool operator==(const char* p, Zero) { return *p == 0; }
    };
    char* text;
    char* begin() const { return text; }
    Zero end() const { return {}; }
};

template<typename D, typename C>
void follows(Rng& r, D& d, C& c, const char* what) {
    const long n = (long)c.size();
    judged();
    MON_CHECK(d.empty() == c.empty() && d.empty() == (n == 0), "empty", "%s of %ld elements", what, n);
    if constexpr(requires { d.size(); }) {
        judged();
        MON_CHECK((long)d.size() == n, "size", "%s of %ld elements has %zu", what, n, (size_t)d.size());
    }
    if(n > 0) {
        judged();
        MON_CHECK(std::addressof(d.front()) == std::addressof(*c.begin()), "element", "front() of %s", what);
        if constexpr(requires { d.back(); }) {
            judged();
            MON_CHECK(std::addressof(d.back()) == std::addressof(*std::prev(c.end())), "element", "back() of %s with %ld elements", what, n);
        }
        if constexpr(requires { d[0]; }) {
            const long k = (long)r.below((u64)n);
            judged();
            MON_CHECK(std::addressof(d[k]) == std::addressof(c[(size_t)k]), "element", "[%ld] of %s with %ld elements", k, what, n);
        }
        if constexpr(requires { d.data(); }) {
            judged();
            MON_CHECK(d.data() == std::addressof(*c.begin()), "data", "data() of %s", what);
        }
    }
    seen(hash2(hash_str(what), (u64)n));
}

template<typename C, typename T, typename D = Holder<C>>
void holder(const char* what) {
    cases(what, st().cases, [&](Rng& r, long) {
        D d;
        static_assert(offered<D>::index == std::ranges::random_access_range<C>);
        static_assert(offered<D>::back == std::ranges::bidirectional_range<C>);
        static_assert(offered<D>::data == std::ranges::contiguous_range<C>);
        static_assert(offered<D>::front && offered<D>::empty && offered<const D>::front && offered<const D>::empty);
        static_assert(offered<const D>::index == offered<D>::index && offered<const D>::back == offered<D>::back && offered<const D>::data == offered<D>::data);
        for(int step = 0; step < 12; ++step) {
            if(r.chance(75) || d.c.begin() == d.c.end()) {
                if constexpr(requires { d.c.push_back(mk<T>(1)); }) d.c.push_back(mk<T>((int)r.below(99)));
                else d.c.push_front(mk<T>((int)r.below(99)));
            }
            else if constexpr(requires { d.c.pop_back(); }) d.c.pop_back();
            else d.c.pop_front();
            if constexpr(requires { d.c.size(); }) {
                follows(r, d, d.c, what);
                follows(r, std::as_const(d), std::as_const(d.c), what);
            }
            else {
                judged();
                MON_CHECK(d.empty() == d.c.empty(), "empty", "%s", what);
                if(!d.c.empty()) MON_CHECK(&d.front() == &d.c.front(), "element", "front() of %s", what);
            }
        }
    });
}

constexpr int at_compile_time() {
    Last l;
    l.front() = 7;
    l[1]      = 9;
    l.back()  = 5;
    const Last& c = l;
    return (int)c.size() * 10000 + c.front() * 1000 + c[1] * 100 + c.data()[2] * 10 + c.back() + (c.empty() ? 1000000 : 0);
}
constinit int evaluated = at_compile_time();

void others() {
    cases("others", st().cases, [&](Rng& r, long) {
        judged();
        MON_CHECK(evaluated == 40000 + 7000 + 900 + 30 + 5, "constant", "a constant expression gives %d", evaluated);
        const long n = r.range(0, 30);
        Own own;
        for(long k = 0; k < n; ++k) own.c.push_back((int)k);
        judged(3);
        MON_CHECK((long)own.size() == n, "own", "the range's own size()");
        MON_CHECK(own.front() == -5, "own", "the range's own front()");
        MON_CHECK(own.empty() == (n == 0), "own", "empty() of a range with its own size()");
        if(n) MON_CHECK(own.back() == n - 1 && own[n - 1] == n - 1 && own.data() == own.c.data(), "own", "members beside the range's own");
        Bits bits;
        for(long k = 0; k < n; ++k) bits.c.push_back(r.chance(50));
        judged(2);
        MON_CHECK(bits.empty() == bits.c.empty() && bits.size() == bits.c.size() && !offered<Bits>::data, "size", "bits");
        if(n) {
            const long k = (long)r.below((u64)n);
            judged(4);
            MON_CHECK(bits[k] == bits.c[(size_t)k] && bits.front() == bits.c.front() && bits.back() == bits.c.back(), "element", "bits");
            MON_CHECK(std::as_const(bits)[k] == bits.c[(size_t)k] && std::as_const(bits).back() == bits.c.back(), "element", "constant bits");
            bits[k] = !bits.c[(size_t)k];
            bool now = bits.c[(size_t)k];
            bits.back() = true;
            bits.front() = false;
            MON_CHECK((n > 1 && bits.c.back()) || n == 1, "element", "a proxy of back() doesn't write");
            MON_CHECK(!bits.c.front(), "element", "a proxy of front() doesn't write");
            (void)now;
        }
        Numbers num(n);
        judged(2);
        MON_CHECK((long)num.size() == n && num.empty() == (n == 0), "size", "iota");
        if(n) {
            const long k = (long)r.below((u64)n);
            MON_CHECK(num[k] == k && num.front() == 0 && num.back() == n - 1, "element", "iota: [%ld] %ld, front %ld, back %ld of %ld", k, (long)num[k], (long)num.front(), (long)num.back(), n);
        }
        static_assert(std::is_same_v<decltype(num.front()), long> && std::is_same_v<decltype(num.back()), long> && std::is_same_v<decltype(num[0]), long>);
        static_assert(std::is_same_v<decltype(std::as_const(num).front()), long> && std::is_same_v<decltype(std::as_const(num).back()), long>
                      && std::is_same_v<decltype(std::as_const(num)[0]), long>);
        // more elements than 32 bits count
        const long much = r.chance(10) ? std::numeric_limits<long>::max() : r.chance(20) ? long(r.below(1000) + 1) << r.range(8, 50) : (long)(r.next() >> r.range(1, 40));
        Numbers many(much);
        const Numbers& fixed = many;
        judged(2);
        MON_CHECK((long)many.size() == much && (long)fixed.size() == much && many.empty() == (much == 0) && fixed.empty() == (much == 0), "size",
                  "%ld elements that aren't stored: size() %zu, empty() %d", much, many.size(), (int)many.empty());
        if(much) {
            const long k = (long)(r.next() % (u64)much);
            MON_CHECK(many[k] == k && fixed[k] == k && fixed.front() == 0 && many.back() == much - 1 && fixed.back() == much - 1, "element",
                      "%ld elements that aren't stored: [%ld] is %ld, back() %ld", much, k, (long)fixed[k], (long)fixed.back());
        }
        Counted counted;
        for(long k = 0; k < n; ++k) counted.c.push_back((int)k);
        judged(2);
        MON_CHECK((long)counted.size() == n && counted.empty() == (n == 0), "size", "counted iterators");
        if(n) MON_CHECK(&counted.front() == &counted.c.front() && &counted.back() == &counted.c.back(), "element", "counted iterators");
        std::vector<char> text((size_t)n + 1, 'x');
        text.back() = 0;
        Text t;
        t.text = text.data();
        judged(2);
        MON_CHECK(t.empty() == (n == 0) && t.data() == text.data(), "empty", "text ended by a zero");
        if(n) MON_CHECK(&t.front() == text.data() && &t.back() == text.data() + n - 1 && &t[n] == text.data() + n, "element", "text ended by a zero");
        Last l;
        judged();
        MON_CHECK(l.size() == 4 && l.back() == 4 && &l[2] == l.first + 2 && l.data() == l.first && !l.empty(), "element", "a final class");
        note("%ld elements\n", n);
        seen((u64)n);
    });
}

int main(int argc, char** argv) {
    init(argc, argv);
    const long n = st().cases;
    categories<std::forward_iterator_tag, Same>("forward", n);
    categories<std::forward_iterator_tag, Stop>("forward until", n);
    categories<std::forward_iterator_tag, Measured>("forward measured", n);
    categories<std::bidirectional_iterator_tag, Same>("bidirectional", n);
    categories<std::bidirectional_iterator_tag, Stop>("bidirectional until", n);
    categories<std::bidirectional_iterator_tag, Measured>("bidirectional measured", n);
    categories<std::random_access_iterator_tag, Same>("random access", n);
    categories<std::random_access_iterator_tag, Measured>("random access measured", n);
    categories<contiguous_tag, Same>("contiguous", n);
    categories<contiguous_tag, Measured>("contiguous measured", n);
    holder<std::vector<int>, int>("vector of int");
    holder<std::vector<std::string>, std::string>("vector of string");
    holder<std::deque<int>, int>("deque");
    holder<std::list<std::string>, std::string>("list");
    holder<std::forward_list<int>, int>("forward_list");
    holder<std::vector<int>, int, Deeper<std::vector<int>>>("a class derived further");
    others();
    return finish();
}
