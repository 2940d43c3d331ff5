// Checks that xme::ArrayView and its parts alias exactly the requested elements and that parts
// that don't fit stop the program (C13), and that byte views expose exactly their bytes (C14).
#include "../harness/track.hpp"
#include <array>
#include <span>
#include <xme/container/array.hpp>
#include <xme/container/array_view.hpp>

using namespace mon;
constexpr size_t dyn = (size_t)-1;

struct Odd {
    char b[3];
    Odd() : b{} {}
    Odd(int v) : b{(char)v, (char)(v >> 8), 0} {}
};
static int val(const Odd& o) { return (unsigned char)o.b[0] + 256 * (unsigned char)o.b[1]; }
template<typename T>
static int value_of(const T& t) {
    if constexpr(std::is_same_v<T, Odd>) return val(t);
    else return mon::val(t);
}

// The view must be exactly [p, p + n)
template<typename V, typename T>
void exact(Rng& r, V view, T* p, size_t n, const char* what) {
    using E       = typename V::value_type;
    const V& cv   = view;
    judged();
    MON_CHECK(view.size() == n && cv.size() == n, "C13:size", "%s: size %zu instead of %zu", what, view.size(), n);
    MON_CHECK(view.size_bytes() == n * sizeof(T), "C13:size-bytes", "%s: %zu bytes, %zu elements of %zu", what, view.size_bytes(), n, sizeof(T));
    MON_CHECK(view.empty() == (n == 0) && cv.empty() == (n == 0), "C13:empty", "%s: %zu elements", what, n);
    if(view.size() != n) return;
    if(n == 0) {
        MON_CHECK(view.begin() == view.end() && cv.begin() == cv.end(), "C13:iteration", "%s: an empty view has elements", what);
        return;
    }
    MON_CHECK(view.data() == p && cv.data() == p && &*view.begin() == p, "C13:first-element", "%s: starts %td elements off", what, view.data() - p);
    MON_CHECK(view.end() == p + n && cv.end() == p + n && view.end() - view.begin() == (ptrdiff_t)n, "C13:last-element", "%s: ends at the wrong place", what);
    MON_CHECK(&view.front() == p && &view.back() == p + n - 1 && &cv.front() == p && &cv.back() == p + n - 1, "C13:front-back", "%s of %zu", what, n);
    size_t k = 0;
    for(auto& e : view) {
        MON_CHECK(&e == p + k, "C13:iteration", "%s: element %zu of %zu", what, k, n);
        ++k;
    }
    MON_CHECK(k == n, "C13:iteration", "%s: iterated over %zu of %zu", what, k, n);
    k = n;
    typename V::reverse_iterator rb(view.end()), re(view.begin());
    for(auto it = rb; it != re && k > 0; ++it) {
        --k;
        MON_CHECK(&*it == p + k, "C13:reverse-iteration", "%s: element %zu of %zu", what, k, n);
    }
    MON_CHECK(k == 0, "C13:reverse-iteration", "%s: %zu of %zu left", what, k, n);
    typename V::const_reverse_iterator crb(cv.end());
    MON_CHECK(&*crb == p + n - 1, "C13:reverse-iteration", "%s: const", what);
    for(k = 0; k < n; ++k) {
        MON_CHECK(&view[k] == p + k && &cv[k] == p + k, "C13:indexing", "%s: index %zu of %zu", what, k, n);
        MON_CHECK(value_of<std::remove_const_t<T>>(view[k]) == value_of<std::remove_const_t<T>>(p[k]), "C13:content", "%s: element %zu", what, k);
    }
    if constexpr(!std::is_const_v<E> && !std::is_const_v<T>) {
        k     = r.below(n);
        int x = (int)r.range(2, 60000);
        view[k] = mk<T>(x);
        MON_CHECK(value_of(p[k]) == value_of(mk<T>(x)), "C13:write-through", "%s: write to element %zu of %zu isn't seen in the source", what, k, n);
        x    = (int)r.range(2, 60000);
        p[k] = mk<T>(x);
        MON_CHECK(value_of(*(view.begin() + k)) == value_of(mk<T>(x)), "C13:write-through", "%s: write to source element %zu of %zu isn't seen in the view", what, k, n);
    }
    V copy = view;
    MON_CHECK(copy.data() == p && copy.size() == n, "C13:copy", "%s", what);
    copy = view;
    MON_CHECK(copy.data() == p && copy.size() == n, "C13:copy", "%s", what);
    seen(hash2(hash_str(what), hash2(n, sizeof(T))));
}

template<typename F, size_t... I>
void each(std::index_sequence<I...>, F&& f) {
    (f(std::integral_constant<size_t, I>{}), ...);
}

// Parts of a view, of a given depth of nesting
template<typename V, typename T>
void parts(Rng& r, V view, T* p, size_t n, int depth) {
    for(int k = 0; k < 3; ++k) {
        size_t o = r.below(n + 1), c = r.below(n - o + 1);
        note("subview(%zu, %zu) of %zu\n", o, c, n);
        auto s = view.subview(o, c);
        static_assert(std::is_same_v<decltype(s), xme::ArrayView<typename V::value_type>>);
        exact(r, s, p + o, c, "subview");
        if(depth > 0) parts(r, s, p + o, c, depth - 1);
        c = r.below(n + 1);
        note("first(%zu) of %zu\n", c, n);
        exact(r, view.first(c), p, c, "first");
        note("last(%zu) of %zu\n", c, n);
        exact(r, view.last(c), p + (n - c), c, "last");
        if(depth > 0) parts(r, view.last(c), p + (n - c), c, depth - 1);
    }
    exact(r, view.subview(0, n), p, n, "subview of everything");
    exact(r, view.subview(n, 0), p + n, 0, "empty subview at the end");
    exact(r, view.first(0), p, 0, "first(0)");
    exact(r, view.last(0), p + n, 0, "last(0)");
    exact(r, view.first(n), p, n, "first(all)");
    exact(r, view.last(n), p, n, "last(all)");
}
// Parts with fixed offset and count
template<typename V, typename T>
void fixed_parts(Rng& r, V view, T* p, size_t n) {
    constexpr size_t limit = 7;
    each(std::make_index_sequence<limit>{}, [&](auto O) {
        each(std::make_index_sequence<limit>{}, [&](auto C) {
            constexpr size_t o = O, c = C;
            constexpr size_t S = [] {
                if constexpr(requires { V::fixed; }) return V::fixed;
                else return dyn;
            }();
            (void)S;
            if(o + c <= n) {
                auto s = view.template subview<o, c>();
                static_assert(std::is_same_v<decltype(s), xme::ArrayView<typename V::value_type, c>>);
                exact(r, s, p + o, c, "fixed subview");
            }
        });
        constexpr size_t c = O;
        if(c <= n) {
            exact(r, view.template first<c>(), p, c, "fixed first");
            exact(r, view.template last<c>(), p + (n - c), c, "fixed last");
        }
    });
}
template<size_t N, typename E, typename T>
void parts_of_fixed(Rng& r, xme::ArrayView<E, N> view, T* p) {
    each(std::make_index_sequence<N + 1>{}, [&](auto O) {
        each(std::make_index_sequence<N + 1 - decltype(O)::value>{}, [&](auto C) {
            constexpr size_t o = O, c = C;
            auto s = view.template subview<o, c>();
            static_assert(std::is_same_v<decltype(s), xme::ArrayView<E, c>>);
            exact(r, s, p + o, c, "fixed subview of fixed");
        });
        constexpr size_t c = O;
        exact(r, view.template first<c>(), p, c, "fixed first of fixed");
        exact(r, view.template last<c>(), p + (N - c), c, "fixed last of fixed");
    });
}

// A view can be a temporary: what an algorithm finds through it outlives it, while temporaries which
// own their elements can't be viewed.
template<typename V, typename R>
concept can_view = std::is_constructible_v<V, R>;

template<typename T>
void temporaries(const char* name) {
    cases(fmt("%s, temporaries", name).c_str(), std::max(2l, st().cases / 4), [&](Rng& r, long) {
        judged(8);
        using V = xme::ArrayView<T>;
        using C = xme::ArrayView<const T>;
        using F = xme::ArrayView<T, 3>;
        MON_CHECK(std::ranges::borrowed_range<V> && std::ranges::borrowed_range<C> && std::ranges::borrowed_range<F>, "C13:borrowed", "iterators of a view don't outlive it");
        MON_CHECK(std::ranges::view<V> && std::ranges::view<C>, "C13:view", "a view isn't a range view");
        MON_CHECK((!can_view<V, std::vector<T>> && !can_view<C, std::vector<T>> && !can_view<V, xme::Array<T>> && !can_view<C, xme::Array<T>> && !can_view<F, std::vector<T>>), "C13:temporary-owner",
                  "a temporary container can be viewed");
        MON_CHECK((can_view<V, std::vector<T>&> && can_view<C, std::vector<T>&> && can_view<C, const std::vector<T>&> && can_view<V, xme::Array<T>&> && can_view<C, const xme::Array<T>&>), "C13:container",
                  "a container can't be viewed");
        MON_CHECK((can_view<V, std::span<T>> && can_view<C, std::span<const T>>), "C13:temporary-span", "a temporary span can't be viewed");
        std::vector<T> v;
        size_t n = 1 + r.below(20);
        for(size_t k = 0; k < n; ++k) v.push_back(mk<T>((int)r.range(2, 60000)));
        size_t want = r.below(n);
        auto key    = [](const T& x) { return value_of(x); };
        size_t first = 0;
        while(value_of(v[first]) != value_of(v[want])) ++first;
        auto found = std::ranges::find(xme::ArrayView<T>(v), value_of(v[want]), key);
        if constexpr(requires { *found; }) MON_CHECK(&*found == v.data() + first, "C13:borrowed", "an algorithm over a temporary view found another element");
        auto part = std::ranges::find(xme::ArrayView<T>(v).subview(first, n - first), value_of(v[want]), key);
        if constexpr(requires { *part; }) MON_CHECK(&*part == v.data() + first, "C13:borrowed", "an algorithm over a temporary part found another element");
        seen(hash2(n, want));
    });
}

template<typename T>
void aliasing(const char* name) {
    cases(name, st().cases, [&](Rng& r, long) {
        size_t n = r.below(r.chance(70) ? 8 : 40);
        std::vector<T> v;
        for(size_t k = 0; k < n; ++k) v.push_back(mk<T>((int)r.range(2, 60000)));
        T* p          = v.data();
        const T* cp   = p;
        const auto& c = v;
        note("%zu elements\n", n);
        exact(r, xme::ArrayView<T>(v), p, n, "view of a vector");
        exact(r, xme::ArrayView<const T>(c), cp, n, "view of a const vector");
        exact(r, xme::ArrayView<const T>(v), cp, n, "const view of a vector");
        exact(r, xme::ArrayView<T>(p, n), p, n, "view of pointer and size");
        exact(r, xme::ArrayView<T>(p, p + n), p, n, "view of pointers");
        exact(r, xme::ArrayView<T>(v.begin(), n), p, n, "view of iterator and size");
        exact(r, xme::ArrayView<T>(v.begin(), v.end()), p, n, "view of iterators");
        exact(r, xme::ArrayView<const T>(v.cbegin(), v.cend()), cp, n, "view of const iterators");
        exact(r, xme::ArrayView(v), p, n, "deduced view of a vector");
        exact(r, xme::ArrayView(c), cp, n, "deduced view of a const vector");
        exact(r, xme::ArrayView(p, n), p, n, "deduced view of pointer and size");
        exact(r, xme::ArrayView(v.begin(), v.end()), p, n, "deduced view of iterators");
        exact(r, xme::ArrayView<T>(std::span<T>(v)), p, n, "view of a span");
        xme::Array<T> xa(v.begin(), v.end());
        exact(r, xme::ArrayView<T>(xa), xa.data(), n, "view of an Array");
        exact(r, xme::ArrayView<const T>(std::as_const(xa)), std::as_const(xa).data(), n, "view of a const Array");
        xme::ArrayView<T> view(v);
        parts(r, view, p, n, 2);
        parts(r, xme::ArrayView<const T>(v), cp, n, 1);
        fixed_parts(r, view, p, n);
        // a part of what the view shows, in the middle of other elements
        if(n >= 3) {
            size_t o = 1 + r.below(n - 2), k = r.below(n - o);
            exact(r, xme::ArrayView<T>(p + o, k), p + o, k, "view of a part");
            if(k) parts(r, xme::ArrayView<T>(p + o, k), p + o, k, 1);
        }
    });
    cases(fmt("%s, arrays", name).c_str(), std::max(2l, st().cases / 4), [&](Rng& r, long) {
        T arr[5] = {mk<T>(2), mk<T>(30), mk<T>(400), mk<T>(5000), mk<T>(60000)};
        std::array<T, 4> sa{mk<T>(3), mk<T>(40), mk<T>(500), mk<T>(6000)};
        const std::array<T, 4>& csa = sa;
        T* p                        = arr;
        exact(r, xme::ArrayView<T>(arr), p, 5, "view of an array");
        exact(r, xme::ArrayView<T, 5>(arr), p, 5, "fixed view of an array");
        exact(r, xme::ArrayView(arr), p, 5, "deduced view of an array");
        static_assert(std::is_same_v<decltype(xme::ArrayView(arr)), xme::ArrayView<T, 5>>);
        exact(r, xme::ArrayView<T>(sa), sa.data(), 4, "view of a std::array");
        exact(r, xme::ArrayView<T, 4>(sa), sa.data(), 4, "fixed view of a std::array");
        exact(r, xme::ArrayView(sa), sa.data(), 4, "deduced view of a std::array");
        exact(r, xme::ArrayView<const T, 4>(csa), csa.data(), 4, "fixed view of a const std::array");
        exact(r, xme::ArrayView<const T>(csa), csa.data(), 4, "view of a const std::array");
        exact(r, xme::ArrayView(csa), csa.data(), 4, "deduced view of a const std::array");
        exact(r, xme::ArrayView<T, 3>(p + 1, 3), p + 1, 3, "fixed view of pointer and size");
        exact(r, xme::ArrayView<T, 3>(p + 1, p + 4), p + 1, 3, "fixed view of pointers");
        exact(r, xme::ArrayView<T>(), (T*)nullptr, 0, "default view");
        exact(r, xme::ArrayView<T, 0>(), (T*)nullptr, 0, "default view of size 0");
        parts_of_fixed<5>(r, xme::ArrayView<T, 5>(arr), p);
        parts_of_fixed<4>(r, xme::ArrayView<const T, 4>(csa), csa.data());
        parts(r, xme::ArrayView<T, 5>(arr), p, 5, 1);
    });
    temporaries<T>(name);
}

// Parts that don't fit must stop the program; the last argument of every choice fits.
void bounds() {
    cases("bounds", std::max(30l, st().cases), [&](Rng& r, long) {
        static int data[64];
        // inaccessible, for views of any size
        static int* const reserved = (int*)mmap(nullptr, size_t(1) << 40, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        const bool many = reserved != MAP_FAILED && r.chance(40);
        const size_t n  = !many ? r.below(10) : std::min<size_t>((size_t(1) << 38) - 1, (size_t(1) << r.below(38)) + r.below(9) - (r.chance(50) ? 1 : 0));
        xme::ArrayView<int> v(many ? reserved : data + 10, n);
        const size_t huge = (size_t)0 - (size_t)r.below(40);
        auto near         = [&] {
            size_t at[] = {0, n / 2, n, n, (size_t)(std::uint32_t)n, n & 0xffff};
            return r.chance(30) ? r.below(n + 4) : at[r.below(6)] + r.below(7) - std::min<size_t>(n, 3);
        };
        size_t o          = r.chance(60) ? (many ? near() : r.below(n + 4)) : huge;
        size_t c          = r.chance(60) ? (many ? near() : r.below(n + 4)) : r.chance(50) ? huge : (size_t)0 - o + (size_t)r.below(n + 2);
        if(many && r.chance(40)) c = n - o + r.below(3) - 1;
        int how           = (int)r.below(7);
        bool fits         = false;
        int died          = 0;
        size_t got        = 0;
        switch(how) {
        case 0:
            fits = o <= n && c <= n - o;
            died = dies([&] { got = v.subview(o, c).size(); });
            break;
        case 1:
            fits = c <= n;
            died = dies([&] { got = v.first(c).size(); });
            break;
        case 2:
            fits = c <= n;
            died = dies([&] { got = v.last(c).size(); });
            break;
        case 3: {
            xme::ArrayView<int, 6> f(data + 20, 6);
            fits = o <= 6 && c <= 6 - o;
            died = dies([&] { got = f.subview(o, c).size(); });
            break;
        }
        case 4: {
            xme::ArrayView<int, 6> f(data + 20, 6);
            fits = c <= 6;
            died = dies([&] { got = r.chance(50) ? f.first(c).size() : f.last(c).size(); });
            break;
        }
        // a fixed view of another number of elements
        case 5:
            o = 0;
            if(r.chance(50)) c = 6;
            fits = c == 6;
            died = dies([&] { got = r.chance(50) ? xme::ArrayView<int, 6>(data + 20, c).size() : xme::ArrayView<const int, 6>(data + 20, c).size(); });
            break;
        case 6: {
            o = 0;
            c = r.below(8);
            fits = c == 4;
            std::vector<int> from(c);
            died = dies([&] {
                switch(r.below(4)) {
                case 0: got = xme::ArrayView<int, 4>(from).size(); break;
                case 1: got = xme::ArrayView<int, 4>(from.begin(), from.end()).size(); break;
                case 2: got = xme::ArrayView<const int, 4>(std::as_const(from)).size(); break;
                case 3: got = xme::ArrayView<int, 4>(from.begin(), from.size()).size(); break;
                }
            });
            break;
        }
        }
        note("part %d: offset %zu count %zu of %zu -> %s\n", how, o, c, n, died ? "stopped" : "view");
        (void)got;
        MON_CHECK(fits || died, "C13:out-of-bounds-view", "part %d: offset %zu, count %zu of a view of %zu gave a view", how, o, c, n);
        MON_CHECK(!fits || !died, "C13:fitting-view-stopped", "part %d: offset %zu, count %zu of a view of %zu stopped the program", how, o, c, n);
        count(died ? "stopped" : "allowed");
        seen(hash2(hash2((u64)how, o), hash2(c, n)));
    });
    // fixed parts of dynamic views
    cases("fixed bounds", 1, [&](Rng&, long) {
        static int data[64];
        auto one = [&]<size_t O, size_t C>() {
            for(size_t n : {0, 2, 5}) {
                xme::ArrayView<int> v(data + 10, n);
                bool fits = O <= n && C <= n - O;
                int died  = dies([&] { (void)v.template subview<O, C>(); });
                MON_CHECK(fits != (bool)died, "C13:out-of-bounds-view", "subview<%zu, %zu> of %zu %s", O, C, n, died ? "stopped" : "gave a view");
                died = dies([&] { (void)v.template first<C>(); });
                MON_CHECK((C <= n) != (bool)died, "C13:out-of-bounds-view", "first<%zu> of %zu %s", C, n, died ? "stopped" : "gave a view");
                died = dies([&] { (void)v.template last<C>(); });
                MON_CHECK((C <= n) != (bool)died, "C13:out-of-bounds-view", "last<%zu> of %zu %s", C, n, died ? "stopped" : "gave a view");
                judged(3);
                seen(hash2(hash2(O, C), n + 1000));
            }
        };
        one.operator()<0, 1>();
        one.operator()<0, 3>();
        one.operator()<1, 2>();
        one.operator()<2, 0>();
        one.operator()<2, 4>();
        one.operator()<3, 3>();
        one.operator()<5, 0>();
        one.operator()<6, 0>();
        one.operator()<(size_t)-2, 3>();
        one.operator()<3, (size_t)-3>();
    });
}

// --- bytes -------------------------------------------------------------------------------------
template<typename V, typename T>
void bytes_of(Rng& r, V view, T* p, size_t n, unsigned char* all, size_t all_size) {
    judged();
    auto b = xme::as_bytes(view);
    static_assert(std::is_same_v<typename decltype(b)::value_type, const std::byte>);
    MON_CHECK(b.size() == n * sizeof(T) && b.size_bytes() == n * sizeof(T), "C14:size", "%zu bytes instead of %zu * %zu", b.size(), n, sizeof(T));
    if(n == 0 || b.size() != n * sizeof(T)) return;
    MON_CHECK((const void*)b.data() == (const void*)p, "C14:start", "as_bytes starts %td bytes off", (const char*)b.data() - (const char*)p);
    if((const void*)b.data() != (const void*)p) return;
    for(size_t k = 0; k < b.size(); ++k)
        if(b[k] != (std::byte)((const unsigned char*)p)[k]) {
            violation("C14:content", fmt("byte %zu of %zu", k, b.size()));
            break;
        }
    if constexpr(!std::is_const_v<typename V::value_type>) {
        auto w = xme::as_writable_bytes(view);
        static_assert(std::is_same_v<typename decltype(w)::value_type, std::byte>);
        MON_CHECK(w.size() == n * sizeof(T) && (void*)w.data() == (void*)p, "C14:writable", "%zu bytes instead of %zu * %zu, or another start", w.size(), n, sizeof(T));
        if(w.size() != n * sizeof(T) || (void*)w.data() != (void*)p) return;
        std::vector<unsigned char> before(all, all + all_size);
        for(int k = 0; k < 5; ++k) {
            size_t at         = r.below(w.size());
            unsigned char x   = (unsigned char)r.next();
            w[at]             = (std::byte)x;
            before[(unsigned char*)p - all + at] = x;
            MON_CHECK(b[at] == (std::byte)x, "C14:current-bytes", "a write isn't seen by the read only view");
        }
        *(w.end() - 1)                                       = std::byte{0x5A};
        before[(unsigned char*)p - all + n * sizeof(T) - 1] = 0x5A;
        MON_CHECK(memcmp(before.data(), all, all_size) == 0, "C14:wrong-bytes-written", "writing through as_writable_bytes changed other bytes");
        // and element writes are seen
        size_t e = r.below(n);
        unsigned char raw[sizeof(T)];
        for(auto& x : raw) x = (unsigned char)r.next();
        memcpy((void*)(p + e), raw, sizeof(T));
        for(size_t k = 0; k < sizeof(T); ++k)
            MON_CHECK(b[e * sizeof(T) + k] == (std::byte)raw[k], "C14:current-bytes", "byte %zu of element %zu isn't current", k, e);
    }
    seen(hash2(n, hash2(sizeof(T), ((size_t)p) % 64)));
}
struct Mixed {
    int a;
    char b;
    double c;
    short d;
};
template<typename T>
void bytes(const char* name) {
    cases(name, st().cases, [&](Rng& r, long) {
        size_t n = r.below(r.chance(80) ? 10 : 100);
        std::vector<T> v(n + 2);
        auto* all    = (unsigned char*)v.data();
        size_t total = v.size() * sizeof(T);
        for(size_t k = 0; k < total; ++k) all[k] = (unsigned char)r.next();
        T* p = v.data() + 1;
        note("%zu elements of %zu bytes\n", n, sizeof(T));
        xme::ArrayView<T> d(p, n);
        bytes_of(r, d, p, n, all, total);
        bytes_of(r, xme::ArrayView<const T>(p, n), (const T*)p, n, all, total);
        size_t o = r.below(n + 1), c = r.below(n - o + 1);
        bytes_of(r, d.subview(o, c), p + o, c, all, total);
        bytes_of(r, d.last(c), p + n - c, c, all, total);
        T arr[7];
        memset((void*)arr, (int)r.below(256), sizeof arr);
        bytes_of(r, xme::ArrayView<T, 5>(arr + 1, 5), arr + 1, 5, (unsigned char*)arr, sizeof arr);
        bytes_of(r, xme::ArrayView<const T, 1>(arr + 3, 1), (const T*)arr + 3, 1, (unsigned char*)arr, sizeof arr);
        bytes_of(r, xme::ArrayView<T, 7>(arr), arr + 0, 7, (unsigned char*)arr, sizeof arr);
        bytes_of(r, xme::ArrayView<T, 0>(), arr + 0, 0, (unsigned char*)arr, sizeof arr);
        bytes_of(r, xme::ArrayView<T, 7>(arr).template subview<2, 3>(), arr + 2, 3, (unsigned char*)arr, sizeof arr);
        bytes_of(r, xme::ArrayView<T, 7>(arr).last(2), arr + 5, 2, (unsigned char*)arr, sizeof arr);
    });
}

int main(int argc, char** argv) {
    init(argc, argv);
#ifdef BYTES
    bytes<char>("char");
    bytes<short>("short");
    bytes<int>("int");
    bytes<unsigned long long>("long long");
    bytes<Odd>("three bytes");
    bytes<Mixed>("padded");
#else
    aliasing<int>("int");
    aliasing<std::string>("string");
    aliasing<Odd>("three bytes");
    bounds();
#endif
    return finish();
}
