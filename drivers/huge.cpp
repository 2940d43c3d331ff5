// The same promises at sizes where a counter, an offset or a product of less than 64 bits, or a
// recursion, gives out: more than 2^16 elements in every container, lists longer than a stack is
// deep, and ranges, views and distances beyond 2^31 and 2^32 elements.
#include "../harness/sources.hpp"
#include <forward_list>
#include <list>
#include <thread>
#include <unordered_map>
#include <pthread.h>
#include <xme/container/array.hpp>
#include <xme/container/array_view.hpp>
#include <xme/container/heap.hpp>
#include <xme/container/linked_list.hpp>
#include <xme/container/spsc_queue.hpp>
#include <xme/core/algorithm/find.hpp>
#include <xme/core/algorithm/reverse.hpp>
#include <xme/core/iterators/const_iterator.hpp>
#include <xme/core/iterators/reverse_iterator.hpp>

using namespace mon;

//! Address space that takes memory only where it is written
template<typename T>
struct Space {
    T* at;
    size_t n, bytes;
    Space(size_t n, bool write = true) : n(n), bytes(n * sizeof(T)) {
        void* p = mmap(nullptr, bytes, write ? PROT_READ | PROT_WRITE : PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        at      = p == MAP_FAILED ? nullptr : (T*)p;
        if(!at) count("address space refused");
    }
    ~Space() {
        if(at) munmap((void*)at, bytes);
    }
    //! Regions of zeros are read in large pages
    void large() { madvise((void*)at, bytes, MADV_HUGEPAGE); }
    void forget() { madvise((void*)at, bytes, MADV_DONTNEED); }
};

//! Whether the machine has that much memory to spare
inline bool spare(size_t bytes) {
    FILE* f = fopen("/proc/meminfo", "r");
    char line[200];
    size_t kb = 0;
    while(f && fgets(line, sizeof line, f))
        if(sscanf(line, "MemAvailable: %zu", &kb) == 1) break;
    if(f) fclose(f);
    if(kb && kb * 1024 < bytes + (1ull << 30)) {
        count("skipped, too little memory");
        return false;
    }
    return true;
}

//! Runs fn on a thread with a stack of 256 KB (more if the build needs more)
template<typename Fn>
void on_small_stack(Fn&& fn) {
    pthread_attr_t a;
    pthread_attr_init(&a);
    pthread_attr_setstacksize(&a, 512 << 10);
    pthread_t t;
    auto run = [](void* p) -> void* {
        (*static_cast<std::remove_reference_t<Fn>*>(p))();
        return nullptr;
    };
    if(pthread_create(&t, &a, run, (void*)&fn) != 0) {
        perror("pthread_create");
        _exit(3);
    }
    pthread_join(t, nullptr);
    pthread_attr_destroy(&a);
}

// --- Containers of more than 2^16 elements --------------------------------------------------
#define SAME(cond, key, what)                                                       \
    do {                                                                            \
        judged();                                                                   \
        MON_CHECK(cond, key, "%s with %zu elements", what, (size_t)n);              \
        seen(hash2(hash_str(what), n));                                             \
    } while(0)

template<typename T>
T element(size_t k) {
    if constexpr(std::is_same_v<T, std::string>) return std::string(k % 40, 'a' + k % 26) + std::to_string(k);
    else return (T)(k * 2654435761u >> 7);
}

template<typename T>
void large_array(Rng& r) {
    const char* const key = "C01:large";
    using A               = xme::Array<T>;
    size_t n              = 66000 + r.below(80000);
    std::vector<T> m;
    for(size_t k = 0; k < n; ++k) m.push_back(element<T>(k + r.below(3)));
    auto same = [&](const A& a) {
        if(a.size() != m.size() || (size_t)(a.end() - a.begin()) != m.size() || a.capacity() < m.size()) return false;
        for(size_t k = 0; k < m.size(); ++k)
            if(a[k] != m[k]) return false;
        size_t at = 0;
        for(auto& x : a)
            if(x != m[at++]) return false;
        return at == m.size();
    };
    auto step = [&](const char* what, const A& a) { SAME(same(a), key, what); };
    note("%zu elements\n", n);
    A a;
    for(auto& x : m) a.push_back(x);
    step("push_back", a);
    {
        A b(m.begin(), m.end());
        step("construction from a range", b);
        A c(b);
        step("copy", c);
        A d(std::move(b));
        step("move", d);
        A e;
        e = d;
        step("assignment", e);
        e.clear();
        SAME(e.size() == 0 && e.begin() == e.end(), key, "clear");
        e.swap(d);
        step("swap", e);
        A f(n, m[0]);
        SAME(f.size() == n && f.back() == m[0] && f[n / 2] == m[0], key, "construction of equal elements");
    }
    size_t p = r.below(n);
    auto it  = a.insert(a.begin() + (long)p, m[7]);
    m.insert(m.begin() + (long)p, m[7]);
    SAME(it - a.begin() == (long)p, key, "position after insertion");
    step("insertion of an element", a);
    p = r.below(n);
    std::vector<T> more(m.begin(), m.begin() + 65600);
    it = a.insert(a.begin() + (long)p, more.begin(), more.end());
    m.insert(m.begin() + (long)p, more.begin(), more.end());
    SAME(it - a.begin() == (long)p, key, "position after insertion of a range");
    step("insertion of a range", a);
    a.reserve(m.size() + 70000);
    step("reserve", a);
    p  = r.below(60000);
    it = a.insert(a.begin() + (long)p, more.begin(), more.end());
    m.insert(m.begin() + (long)p, more.begin(), more.end());
    SAME(it - a.begin() == (long)p, key, "position after insertion of a range within the capacity");
    step("insertion of a range within the capacity", a);
    p  = r.below(n);
    it = a.erase(a.begin() + (long)p);
    m.erase(m.begin() + (long)p);
    SAME(it - a.begin() == (long)p, key, "position after erasure");
    step("erasure", a);
    p  = r.below(20000);
    it = a.erase(a.begin() + (long)p, a.begin() + (long)p + 65700);
    m.erase(m.begin() + (long)p, m.begin() + (long)p + 65700);
    SAME(it - a.begin() == (long)p, key, "position after erasure of a range");
    step("erasure of a range", a);
    a.resize(66666);
    if(m.size() > 66666) m.erase(m.begin() + 66666, m.end());
    step("resize to less", a);
    a.resize(300000);
    step("resize to more", a);
    SAME(a.capacity() >= 300000, key, "capacity after resize to more");
    long at = 0;
    for(auto b = a.end(); b != a.begin(); ++at)
        if(*--b != m[m.size() - 1 - (size_t)at]) break;
    SAME(at == (long)m.size(), key, "walk backwards");
    a.pop_back();
    m.pop_back();
    step("pop_back", a);
    // ranges whose length a short, or a few bytes, can't tell from a smaller one
    for(const size_t more_elements : {size_t(1) << 16, (size_t(1) << 16) + 1 + r.below(300), size_t(1) << 17}) {
        std::vector<T> w;
        for(size_t k = 0; k < more_elements; ++k) w.push_back(element<T>(k + 5));
        const size_t few = r.below(20);
        A b(w.begin(), w.begin() + (long)few);
        m.assign(w.begin(), w.begin() + (long)few);
        switch(r.below(4)) {
        case 0: b.push_back(w); break;
        case 1: b.push_back(w.begin(), w.end()); break;
        case 2: b.push_back(std::list<T>(w.begin(), w.end())); break;
        default: b.reserve(more_elements + 20); b.push_back(w);
        }
        m.insert(m.end(), w.begin(), w.end());
        n = m.size();
        step("push_back of a range", b);
        A c(w.begin(), w.begin() + (long)few);
        std::forward_list<T> l(w.begin(), w.end());
        auto at = c.insert(c.begin() + (long)few / 2, l);
        m.erase(m.begin() + (long)few, m.end());
        m.insert(m.begin() + (long)few / 2, w.begin(), w.end());
        n = m.size();
        SAME(at - c.begin() == (long)few / 2, key, "position after insertion of a range into few");
        step("insertion of a range into few", c);
        c.erase(c.begin() + (long)few / 2, c.begin() + (long)few / 2 + (long)more_elements);
        m.erase(m.begin() + (long)few / 2, m.begin() + (long)few / 2 + (long)more_elements);
        n = m.size();
        step("erasure of as many as a short can't count", c);
        A d(more_elements, w[1]);
        m.assign(more_elements, w[1]);
        n = m.size();
        step("construction of equal elements", d);
    }
}

//! An element that counts, and an allocator that does
struct Moved {
    static inline size_t moves = 0;
    unsigned v;
    Moved(unsigned x) : v(x) {}
    Moved(Moved&& o) noexcept : v(o.v) { ++moves; }
    Moved(const Moved& o) : v(o.v) { ++moves; }
    Moved& operator=(const Moved& o) {
        v = o.v;
        ++moves;
        return *this;
    }
};
template<typename T>
struct Asked {
    static inline size_t times = 0;
    using value_type           = T;
    using size_type            = size_t;
    using difference_type      = std::ptrdiff_t;
    T* allocate(size_t n) {
        ++times;
        return std::allocator<T>().allocate(n);
    }
    void deallocate(T* p, size_t n) { std::allocator<T>().deallocate(p, n); }
    friend bool operator==(const Asked&, const Asked&) { return true; }
};
//! Millions of pushes, one at a time
void large_growth(Rng& r) {
    const char* const key = "C04:large-growth";
    using A               = xme::Array<Moved, Asked<Moved>>;
    const size_t n        = (1u << 20) + r.below(1u << 20);
    Moved::moves = Asked<Moved>::times = 0;
    A a;
    const int how = (int)r.below(3);
    note("%zu elements, kind %d\n", n, how);
    size_t moved = 0, reserved = 0;
    for(size_t k = 0; k < n; ++k) {
        const size_t room = a.capacity() - a.size(), times = Asked<Moved>::times;
        if(how == 0) a.push_back((unsigned)k);
        else if(how == 1) a.emplace_back((unsigned)k);
        else a.insert(a.end(), (unsigned)k);
        moved += room && Asked<Moved>::times != times;
        reserved = std::max(reserved, a.capacity());
    }
    SAME(moved == 0, key, "reallocation with room left");
    SAME(Asked<Moved>::times <= 100, key, "number of allocations, which isn't logarithmic,");
    SAME(Moved::moves <= 6 * n, key, "number of moves, which isn't linear,");
    SAME(reserved <= 8 * n, key, "capacity, which isn't proportional,");
    size_t k = 0;
    while(k < n && a[(long)k].v == k) ++k;
    SAME(k == n && a.size() == n, key, "content");
    // clear and erase keep all of it
    const size_t room = a.capacity();
    const void* at    = a.data();
    a.erase(a.begin() + 10, a.end() - 10);
    SAME(a.capacity() == room && a.data() == at, key, "capacity after erasure");
    a.clear();
    SAME(a.capacity() == room && a.data() == at && a.size() == 0, key, "capacity after clear");
    Asked<Moved>::times = 0;
    for(size_t k = 0; k < room; ++k) a.emplace_back((unsigned)k);
    SAME(Asked<Moved>::times == 0 && a.capacity() == room && a.data() == at, key, "refilling");
    a.reserve(room + 1);
    SAME(a.capacity() > room && a.size() == room, key, "reserve of one more");
    const size_t odd = room / 2 + 1 - (room / 2) % 2;
    a.resize(odd);
    SAME(a.size() == odd && a.capacity() >= odd && a[(long)odd - 1].v == odd - 1, key, "resize to less");
    A b;
    b.reserve(odd);
    SAME(b.capacity() >= odd, key, "reserve of many");
    A c;
    c.resize(odd + 2);
    SAME(c.capacity() >= odd + 2, key, "resize to many");
}

//! One byte elements, more than 2^32 of them
void huge_array() {
    const char* const key = "C01:huge";
    using A               = xme::Array<unsigned char>;
    const size_t n        = (1ull << 32) + 77;
    if(!spare(n)) return;
    try {
        A a(n, (unsigned char)1);
        SAME(a.size() == n && (size_t)(a.end() - a.begin()) == n && a.capacity() >= n, key, "size");
        a[n - 1] = 9;
        a[5]     = 8;
        SAME(a.back() == 9 && a[n - 1] == 9 && a[5] == 8 && a[(unsigned)(n - 1)] == 1 && *(a.begin() + (long)(n - 1)) == 9, key, "access");
        {  // every step of more than 2^32
            const long far = (long)(n - 2);
            auto at        = [&](auto i) { return &*i - a.data(); };
            auto walk      = [&](auto first, const char* what) {
                auto i = first, j = first;
                i += far;
                SAME(at(i) == far && i - first == far && first - i == -far && i > first && first < i, key, what);
                i -= far - 3;
                SAME(at(i) == 3, key, what);
                SAME(at(j + far) == far && at(far + j) == far && at((j + far) - (far - 1)) == 1 && &j[far] == a.data() + far && &(j + far)[-far] == a.data(), key, what);
                SAME((long)std::ranges::distance(first, first + far) == far && at(std::ranges::next(first, far)) == far, key, what);
            };
            walk(a.begin(), "steps of an iterator");
            walk(std::as_const(a).begin(), "steps of a constant iterator");
        }
        {
            auto it = a.erase(a.begin() + 10, a.begin() + (long)(n - 12));  // 22 remain
            SAME(a.size() == 22 && it - a.begin() == 10 && a[5] == 8 && a.back() == 9 && a[12] == 1, key, "erasure of nearly all");
        }
        SAME(a.capacity() >= n, key, "capacity after erasure");
        std::vector<unsigned char> few{1, 2, 3};
        a.insert(a.begin() + 6, few.begin(), few.end());
        SAME(a.size() == 25 && a[6] == 1 && a[8] == 3 && a[5] == 8 && a.back() == 9, key, "insertion in a huge storage");
        a.resize(30);
        SAME(a.size() == 25 && a.capacity() >= 30 && a[6] == 1 && a.back() == 9, key, "resize to less");
    }
    catch(const std::bad_alloc&) {
        count("memory refused");
    }
    Space<unsigned char> from(n);
    if(!from.at) return;
    from.large();
    from.at[n - 1] = 9;
    from.at[n / 2] = 8;
    try {
        A a(from.at, from.at + n);
        SAME(a.size() == n && a.capacity() >= n && a[0] == 0 && a[n / 2] == 8 && a.back() == 9, key, "construction from a range");
        const auto* at = a.data();
        A b(std::move(a));
        SAME(b.size() == n && b.data() == at && b.back() == 9 && a.size() == 0, key, "move");
    }
    catch(const std::bad_alloc&) {
        count("memory refused");
    }
}

void large_heap(Rng& r, long i) {
    const char* const key = "C05:large";
    const size_t n        = i % 2 ? 300000 + r.below(400000) : 66000 + r.below(100000);
    std::vector<int> m;
    for(size_t k = 0; k < n; ++k) m.push_back((int)(r.next() & 0xFFFFF));
    note("%zu elements\n", n);
    auto drain = [&](auto& h, size_t count) {
        auto sorted = m;
        std::sort(sorted.begin(), sorted.end(), std::greater<>{});
        for(size_t k = 0; k < count; ++k) {
            if(h.front() != sorted[k]) return k;
            h.pop();
        }
        return count;
    };
    xme::Heap<int> h;
    for(int x : m) h.push(x);
    SAME(h.size() == n, key, "size after pushes");
    size_t got = drain(h, n);
    SAME(got == n && h.size() == 0, key, "order of pops");
    xme::Heap<int> g(m.begin(), m.end());
    SAME(g.size() == n, key, "size after construction");
    got = drain(g, n);
    SAME(got == n && g.size() == 0, key, "order of pops after construction");
}

template<typename T>
void long_list(Rng& r) {
    const char* const key = "C07:long";
    using L               = xme::LinkedList<T>;
    const size_t n        = 300000 + r.below(100000);
    std::vector<T> m;
    for(size_t k = 0; k < n; ++k) m.push_back(element<T>(k));
    note("%zu elements, on a small stack\n", n);
    on_small_stack([&] {
        auto same = [&](const L& l) {
            size_t k = 0;
            for(auto& x : l) {
                if(k == m.size() || x != m[k]) return false;
                ++k;
            }
            return k == m.size();
        };
        auto step = [&](const char* what, const L& l) { SAME(same(l), key, what); };
        L a;
        for(size_t k = n; k--;) a.push_front(m[k]);
        step("push_front", a);
        {
            L b(m.begin(), m.end());
            step("construction from a range", b);
            L c(b);
            step("copy", c);
            L d(std::move(b));
            step("move", d);
            L e;
            e = c;
            step("assignment", e);
            e.assign(m.begin(), m.end());
            step("assign over elements", e);
            e.reverse();
            std::reverse(m.begin(), m.end());
            step("reverse", e);
            std::reverse(m.begin(), m.end());
            e = d;
            step("assignment over elements", e);
            e.clear();
            SAME(e.begin() == e.end(), key, "clear");
            e.insert_after(e.before_begin(), m.begin(), m.end());
            step("insertion of a range", e);
            L f(n, m[1]);
            size_t k = 0;
            for(auto& x : f) k += x == m[1];
            SAME(k == n, key, "construction of equal elements");
            f = std::move(e);
            step("move assignment over elements", f);
            auto first = f.begin();
            f.erase_after(first, f.end());
            SAME(++f.begin() == f.end() && *f.begin() == m[0], key, "erasure of all but one");
        }
        step("original", a);
    });
}

void large_queue(Rng& r) {
    const char* const key = "C11:large";
    for(size_t n : {1ull << 16, 1ull << 17, 1ull << 18}) {
        xme::SPSCQueue<std::uint32_t> q(n);
        const size_t room = q.write_available();
        SAME(room + 1 == n || room == n, key, "room of an empty queue");
        std::uint32_t in = 0, out = 0;
        for(int round = 0; round < 4; ++round) {
            size_t pushed = 0;
            while(q.push(in)) ++in, ++pushed;
            SAME(in - out == room && q.read_available() == room && q.write_available() == 0, key, "full queue");
            size_t take = round == 3 ? room : r.below(room) + 1, good = 0;
            for(size_t k = 0; k < take; ++k) {
                q.consume([&](std::uint32_t x) { good += x == out; });
                ++out;
            }
            SAME(good == take && q.read_available() == room - take && q.write_available() == take, key, "after taking");
        }
    }
    static xme::SPSCQueue<std::uint16_t, xme::Capacity<1 << 17>> s;
    size_t n = 1 << 17, room = s.write_available(), in = 0;
    while(s.push((std::uint16_t)(in * 7))) ++in;
    SAME(in == room && s.read_available() == room && (room == n || room + 1 == n), key, "full static queue");
    size_t good = 0;
    for(size_t k = 0; k < in; ++k) s.consume([&](std::uint16_t x) { good += x == (std::uint16_t)(k * 7); });
    SAME(good == in && s.read_available() == 0, key, "emptied static queue");
}

// --- Beyond 2^31 and 2^32 --------------------------------------------------------------------
template<typename T, size_t S>
void huge_view(size_t n) {
    const char* const key = "C13:huge";
    Space<T> s(n);
    if(!s.at) return;
    T* const p = s.at;
    xme::ArrayView<T> v(p, n), w(p, p + n);
    const size_t places[] = {0, n / 2, n / 3, n - 1, n - S};
    SAME(v.size() == n && w.size() == n && v.size_bytes() == n * sizeof(T) && v.end() - v.begin() == (long)n && !v.empty(), key, "size");
    for(size_t k : places) {
        SAME(&v[k] == p + k && &*(v.begin() + (long)k) == p + k, key, "element");
        auto f = v.first(k), l = v.last(k);
        SAME(f.begin() == p && f.size() == k && l.begin() == p + (n - k) && l.end() == p + n && l.size() == k, key, "first and last");
        auto sub = v.subview(k, n - k), inner = v.subview(k / 2, n - k);
        SAME(sub.begin() == p + k && sub.size() == n - k && inner.begin() == p + k / 2 && inner.end() == p + k / 2 + (n - k), key, "subview");
        SAME(&v.end()[-1 - (long)k] == p + (n - 1 - k), key, "element from the end");
    }
    SAME(&v.front() == p && &v.back() == p + n - 1, key, "front and back");
    auto l = v.template last<S>();
    SAME(l.begin() == p + n - S && l.size() == S, key, "last of a fixed size");
    auto b = xme::as_bytes(v);
    auto wb = xme::as_writable_bytes(v);
    SAME(b.size() == n * sizeof(T) && (const char*)b.data() == (const char*)p && b.end() - b.begin() == (long)(n * sizeof(T)), "C14:huge", "bytes");
    SAME(wb.size() == n * sizeof(T) && (char*)wb.data() == (char*)p, "C14:huge", "writable bytes");
}

template<typename T>
void huge_distances(Rng& r, size_t n) {
    Space<T> s(n);
    if(!s.at) return;
    T* const p = s.at;
    xme::ArrayView<T> v(p, n);
    using R = xme::ReverseIterator<T*>;
    using K = xme::ConstIterator<T*>;
    for(int k = 0; k < 200; ++k) {
        const long i = (long)r.below(n - 1), j = (long)r.below(n - 1);
        K a(p + i), b(p + j);
        seen(hash2((u64)i >> 28, (u64)j >> 28));
        SAME(b - a == j - i && &*(a + (j - i)) == p + j && &*(b - (j - i)) == p + i && &a[j - i] == p + j && &*((j - i) + a) == p + j
                 && (a < b) == (i < j) && (a == b) == (i == j) && (a >= b) == (i >= j),
             "C25:huge", "distance");
        a += j - i;
        SAME(&*a == p + j, "C25:huge", "step forward");
        a -= j - i;
        SAME(&*a == p + i, "C25:huge", "step back");
        R c(p + i + 1), d(p + j + 1);
        SAME(d - c == i - j && &*(c + (i - j)) == p + j && &*(d - (i - j)) == p + i && &c[i - j] == p + j && &*((i - j) + c) == p + j
                 && (c < d) == (j < i) && (c == d) == (i == j) && (c >= d) == (j >= i),
             "C26:huge", "distance");
        c += i - j;
        SAME(&*c == p + j, "C26:huge", "step forward");
        c -= i - j;
        SAME(&*c == p + i, "C26:huge", "step back");
    }
}

template<typename T>
void huge_find(Rng& r, size_t n) {
    const char* const key = "C22:huge";
    Space<T> s(n + 3);
    if(!s.at) return;
    s.large();
    const T needle = (T)7;
    for(size_t from : {size_t(0), size_t(1)}) {
        T* const p = s.at + from;
        for(size_t at : {n - 1 - r.below(64), n - 1}) {
            p[at]  = needle;
            T* got = xme::find(p, p + at + 1 + (n - at) / 2, needle);
            SAME(got == p + at, key, "match at the end");
            got = xme::find((T*)p, p + at, needle);
            SAME(got == p + at, key, "no match");
            if(from == 0) {
                xme::ArrayView<T> v(p, n);
                T* in = xme::find(v, needle);
                SAME(in == p + at, key, "match in a view");
            }
            p[at] = 0;
        }
    }
}

template<typename T>
void huge_reverse(size_t n) {
    const char* const key = "C23:huge";
    if(!spare(n * sizeof(T))) return;
    Space<T> s(n + 2);
    if(!s.at) return;
    s.large();
    T* const p = s.at + 1;
    auto at    = [](size_t k) { return (T)(k * 0x9E3779B97F4A7C15ull >> 32); };
    s.at[0]    = (T)1;
    p[n]       = (T)2;
    for(size_t k = 0; k < n; ++k) p[k] = at(k);
    auto end = xme::reverse(p, p + n);
    size_t k = 0;
    while(k < n && p[k] == at(n - 1 - k)) ++k;
    SAME(end == p + n, key, "result");
    SAME(k == n, key, "elements");
    SAME(s.at[0] == (T)1 && p[n] == (T)2, key, "elements around");
}

//! Constructs and destroys nothing, but sees that it is asked to, for each element in turn
template<typename T>
struct Counting {
    using value_type = T;
    const T *constructed, *destroyed;
    size_t n = 0, wrong = 0;
    T* allocate(size_t) { abort(); }
    void deallocate(T*, size_t) { abort(); }
    template<typename... A>
    void construct(T* p, A&&...) {
        wrong += p != constructed++;
        ++n;
    }
    void destroy(T* p) {
        wrong += p != destroyed++;
        ++n;
    }
    friend bool operator==(const Counting&, const Counting&) = default;
};

void huge_ranges(size_t n) {
    const char* const key = "C39:huge";
    using T               = unsigned char;
    Space<T> from(n), to(n);
    if(!from.at || !to.at) return;
    from.large();
    {
        Counting<T> a{to.at, to.at};
        T* end = xme::ranges::uninitialized_fill_n_a(to.at, n, T(1), a);
        SAME(end == to.at + n && a.n == n && a.wrong == 0, key, "fill");
    }
    {
        Counting<T> a{to.at, to.at};
        auto [in, out] = xme::ranges::uninitialized_copy_a(from.at, from.at + n, to.at, to.at + n, a);
        SAME(in == from.at + n && out == to.at + n && a.n == n && a.wrong == 0, key, "copy");
    }
    {
        Counting<T> a{to.at, to.at};
        T* end = xme::ranges::uninitialized_move_a(from.at, from.at + n, to.at, a);
        SAME(end == to.at + n && a.n == n && a.wrong == 0, key, "move");
    }
    {
        Counting<T> a{to.at, to.at};
        xme::ranges::destroy_n_a(to.at, (long)n, a);
        SAME(a.n == n && a.wrong == 0, key, "destruction of n");
    }
    {
        Counting<T> a{to.at, to.at};
        xme::ranges::destroy_a(to.at, to.at + n, a);
        SAME(a.n == n && a.wrong == 0, key, "destruction of a range");
    }
}

int main(int argc, char** argv) {
    init(argc, argv);
    const long c = st().cases;
#if PART == 1
    cases("array of int", c, [](Rng& r, long) { large_array<int>(r); });
    cases("array of char", c, [](Rng& r, long) { large_array<char>(r); });
    cases("array of string", c, [](Rng& r, long) { large_array<std::string>(r); });
#elif PART == 4
    cases("growth", c, [](Rng& r, long) { large_growth(r); });
#elif PART == 2
    cases("huge array", 1, [](Rng&, long) { huge_array(); });
#elif PART == 5
    cases("heap", c, [](Rng& r, long i) { large_heap(r, i); });
#elif PART == 7
    cases("list of int", c, [](Rng& r, long) { long_list<int>(r); });
    cases("list of string", c, [](Rng& r, long) { long_list<std::string>(r); });
#elif PART == 11
    cases("queue", c, [](Rng& r, long) { large_queue(r); });
#elif PART == 13
    cases("view of char", 1, [](Rng&, long) { huge_view<char, 3>((1ull << 33) + 1234567); });
    cases("view of int", 1, [](Rng&, long) { huge_view<int, 70000>((1ull << 32) + 17); });
    cases("view of double, beyond 2^31", 1, [](Rng&, long) { huge_view<double, (1ull << 31) + 5>((1ull << 32) + 100); });
    cases("view of 24 bytes", 1, [](Rng&, long) { huge_view<std::array<double, 3>, 1>((1ull << 29) + 3); });
#elif PART == 25
    cases("distances in char", c, [](Rng& r, long) { huge_distances<char>(r, (1ull << 33) + 99); });
    cases("distances in long", c, [](Rng& r, long) { huge_distances<long>(r, (1ull << 32) + 99); });
#elif PART == 22
    cases("find char", 1, [](Rng& r, long) { huge_find<char>(r, (1ull << 32) + 200); });
    cases("find short", 1, [](Rng& r, long) { huge_find<short>(r, (1ull << 31) + 200); });
    cases("find int", 1, [](Rng& r, long) { huge_find<int>(r, (1ull << 30) + 200); });
    cases("find long", 1, [](Rng& r, long) { huge_find<long>(r, (1ull << 29) + 200); });
#elif PART == 39
    cases("ranges", 1, [](Rng&, long) { huge_ranges((1ull << 32) + 35); });
#elif PART == 23
    cases("reverse char", 1, [](Rng&, long) { huge_reverse<unsigned char>((1ull << 32) + 131); });
    cases("reverse short", 1, [](Rng&, long) { huge_reverse<std::uint16_t>((1ull << 31) + 131); });
#endif
    return finish();
}
