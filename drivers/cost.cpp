// What operations cost in element operations and allocations (C50): the elements and allocators
// count, and each operation may use no more than its documented complexity needs (with slack in
// the number of moves), copy nothing that may be moved, and allocate nothing it has room for.
#include "../harness/track.hpp"
#include <algorithm>
#include <cmath>
#include <list>
#include <vector>
#include <xme/container/array.hpp>
#include <xme/container/array_view.hpp>
#include <xme/container/heap.hpp>
#include <xme/container/linked_list.hpp>
#include <xme/container/pair.hpp>
#include <xme/container/spsc_queue.hpp>
#include <xme/container/tuple.hpp>
#include <xme/core/algorithm/find.hpp>
#include <xme/core/algorithm/reverse.hpp>
#include <xme/core/functional/bind.hpp>
#include <xme/core/functional/delegate.hpp>
#include <xme/core/functional/scoped_delegate.hpp>
#include <xme/ranges/destroy.hpp>
#include <xme/ranges/uninitialized.hpp>

using namespace mon;

struct Cost {
    long made = 0, copies = 0, moves = 0, destroyed = 0, compared = 0, blocks = 0, freed = 0;
};
static Cost now;

static void* take(std::size_t bytes) {
    ++now.blocks;
    void* p = malloc(bytes ? bytes : 1);
    if(!p) abort();
    return p;
}
void* operator new(std::size_t bytes) { return take(bytes); }
void operator delete(void* p) noexcept { if(p) ++now.freed, free(p); }
void operator delete(void* p, std::size_t) noexcept { if(p) ++now.freed, free(p); }

template<bool ThrowingMove, int Size>
struct Elem {
    int v;
    char pad[Size];
    Elem(int x = 0) : v(x) { ++now.made; }
    Elem(const Elem& o) : v(o.v) { ++now.copies; }
    Elem(Elem&& o) noexcept(!ThrowingMove) : v(o.v) { ++now.moves; }
    Elem& operator=(const Elem& o) { v = o.v; ++now.copies; return *this; }
    Elem& operator=(Elem&& o) noexcept(!ThrowingMove) { v = o.v; ++now.moves; return *this; }
    ~Elem() { ++now.destroyed; }
    friend bool operator==(const Elem& a, const Elem& b) { ++now.compared; return a.v == b.v; }
    friend bool operator<(const Elem& a, const Elem& b) { ++now.compared; return a.v < b.v; }
    friend auto operator<=>(const Elem& a, const Elem& b) { ++now.compared; return a.v <=> b.v; }
};
using Small  = Elem<false, 4>;
using Big    = Elem<false, 200>;
using Throws = Elem<true, 12>;

static volatile u64 used;
static void use(u64 v) { used = used ^ v; }

constexpr long any = 1L << 40;
struct Limit {
    long copies = 0, moves = 0, blocks = 0, made = 0, compared = any, destroyed = any;
};
static const char* subject;
// Runs an operation and judges what it cost
template<typename F>
void costs(const char* what, Limit limit, long n, F&& f) {
    const Cost before = now;
    f();
    const Cost after = now;
    judged();
    auto over = [&](const char* name, long spent, long most) {
        if(spent > most) violation(std::string("cost:") + name, fmt("%s: %s with %ld elements used %ld %s, %ld would do", subject, what, n, spent, name, most));
    };
    over("copies", after.copies - before.copies, limit.copies);
    over("moves", after.moves - before.moves, limit.moves);
    over("allocations", after.blocks - before.blocks, limit.blocks);
    over("constructions", after.made - before.made, limit.made);
    over("comparisons", after.compared - before.compared, limit.compared);
    over("destructions", after.destroyed - before.destroyed, limit.destroyed);
    seen(hash2(hash_str(what), hash2((u64)(after.copies - before.copies) * 64 + (u64)(after.blocks - before.blocks), (u64)(after.moves - before.moves))));
    note("%s (%ld)\n", what, n);
}

// ---------------------------------------------------------------------------------------------
template<typename T>
void arrays(const char* group) {
    subject = group;
    cases(group, st().cases, [&](Rng& r, long) {
        const long n = r.chance(10) ? r.range(0, 2) : r.range(0, 120);
        const long k = r.range(0, 30);
        xme::Array<T> a;
        a.reserve((std::size_t)(n + (r.chance(50) ? 0 : 40)));
        for(long j = 0; j < n; ++j) a.emplace_back((int)j);
        std::vector<T> src;
        src.reserve((std::size_t)k);
        for(long j = 0; j < k; ++j) src.emplace_back((int)j);
        std::list<T> lst(src.begin(), src.end());
        const T value(77);
        for(int step = 0; step < 8; ++step) {
            const long size = (long)a.size(), room = (long)a.capacity() - size;
            const long at = r.range(0, size), tail = size - at;
            const bool grows = room == 0;
            const long spill = grows ? size : 0;
            switch(r.below(24)) {
            case 0: costs("copy construction", {.copies = size, .blocks = 1}, size, [&] { xme::Array<T> c(a); }); break;
            case 1:
                costs("move construction and assignment", {}, size, [&] {
                    xme::Array<T> c(std::move(a));
                    a = std::move(c);
                });
                break;
            case 2: {
                xme::Array<T> c;
                c.emplace_back(5);
                const long gone = (long)c.size();
                costs("copy assignment", {.copies = size, .blocks = 1}, size + gone, [&] { c = a; });
                costs("swap", {}, size, [&] { c.swap(a); });
                break;
            }
            case 3: costs("push_back of a constant", {.copies = 1, .moves = spill + 2, .blocks = grows}, size, [&] { a.push_back(value); }); break;
            case 4: costs("push_back of a temporary", {.moves = spill + 3, .blocks = grows, .made = 1}, size, [&] { a.push_back(T(3)); }); break;
            case 5: costs("emplace_back", {.moves = spill + 2, .blocks = grows, .made = 1}, size, [&] { a.emplace_back(4); }); break;
            case 6: costs("insert of a constant", {.copies = 1, .moves = (grows ? size : tail) + 4, .blocks = grows}, size, [&] { a.insert(a.begin() + at, value); }); break;
            case 7: costs("insert of a temporary", {.moves = (grows ? size : tail) + 5, .blocks = grows, .made = 1}, size, [&] { a.insert(a.begin() + at, T(6)); }); break;
            case 8:
                costs("insert of a range", {.copies = k, .moves = k > room ? size + 4 : 3 * (tail + k) + 4, .blocks = k > room}, size, [&] { a.insert(a.begin() + at, src.begin(), src.end()); });
                break;
            case 9:
                costs("insert of a list", {.copies = k, .moves = k > room ? size + 4 : 3 * (tail + k) + 4, .blocks = k > room}, size, [&] { a.insert(a.begin() + at, lst); });
                break;
            case 10: costs("push_back of a range", {.copies = k, .moves = k > room ? size : 0, .blocks = k > room}, size, [&] { a.push_back(src); }); break;
            case 11:
                if(tail) costs("erase", {.moves = 2 * tail + 2}, size, [&] { a.erase(a.begin() + at); });
                break;
            case 12: {
                const long b = r.range(at, size);
                costs("erase of a range", {.moves = 2 * (size - b) + 2, .destroyed = b - at + 2}, size, [&] { a.erase(a.begin() + at, a.begin() + b); });
                break;
            }
            case 13:
                if(size) costs("pop_back", {.destroyed = 1}, size, [&] { a.pop_back(); });
                break;
            case 14:
                if(r.chance(30)) costs("clear", {.destroyed = size}, size, [&] { a.clear(); });
                break;
            case 15: {
                const bool more = r.chance(50);
                costs("reserve", {.moves = more ? size : 0, .blocks = more}, size, [&] { a.reserve(more ? a.capacity() + 7 : a.capacity()); });
                break;
            }
            case 16: {
                const long to = r.range(0, (long)a.capacity() + 10);
                costs("resize", {.moves = std::min(size, to), .blocks = 1}, size, [&] { a.resize((std::size_t)to); });
                break;
            }
            case 17: costs("construction from a range", {.copies = k, .blocks = 1}, k, [&] { xme::Array<T> c(src); }); break;
            case 18: costs("construction from a list", {.copies = k, .blocks = 1}, k, [&] { xme::Array<T> c(lst.begin(), lst.end()); }); break;
            case 19: costs("construction of n values", {.copies = k, .blocks = 1}, k, [&] { xme::Array<T> c((std::size_t)k, value); }); break;
            case 20:
                costs("access", {}, size, [&] {
                    long s = (long)a.size() + a.empty() + (long)a.capacity();
                    for(auto& e : a) s += e.v;
                    for(long j = 0; j < size; ++j) s += a[j].v + std::as_const(a)[j].v;
                    if(size) s += a.front().v + a.back().v + a.data()->v;
                    xme::ArrayView<T> v(a);
                    for(auto& e : v.subview(0, (std::size_t)at)) s += e.v;
                    for(auto& e : v.last((std::size_t)tail)) s += e.v;
                    use((u64)s);
                });
                break;
            case 21: costs("push_back of an element of itself", {.copies = size > 0, .moves = spill + 2, .blocks = grows && size > 0}, size, [&] { if(size) a.push_back(a[at / 2]); }); break;
            case 22:
                costs("insert of moved elements", {.moves = k + (k > room ? size + 4 : 3 * (tail + k) + 4), .blocks = k > room}, size,
                      [&] { a.insert(a.begin() + at, std::make_move_iterator(src.begin()), std::make_move_iterator(src.end())); });
                break;
            default: {  // single pushes from nothing: amortised
                const long m = r.range(1, 300);
                costs("n pushes", {.moves = 3 * m + 8, .blocks = (long)std::log2((double)m) * 3 + 6, .made = m}, m, [&] {
                    xme::Array<T> c;
                    for(long j = 0; j < m; ++j) c.emplace_back((int)j);
                });
                break;
            }
            }
            if(a.size() > 400) a.resize(50);
        }
    });
}

template<typename T>
void lists(const char* group) {
    subject = group;
    cases(group, st().cases, [&](Rng& r, long) {
        const long n = r.range(0, 60), k = r.range(0, 20);
        xme::LinkedList<T> l;
        for(long j = 0; j < n; ++j) l.emplace_front((int)j);
        std::vector<T> src;
        src.reserve((std::size_t)k);
        for(long j = 0; j < k; ++j) src.emplace_back((int)j);
        const T value(77);
        long size = n;
        for(int step = 0; step < 8; ++step) {
            const long at = r.range(0, size);
            auto pos = l.before_begin();
            for(long j = 0; j < at; ++j) ++pos;
            switch(r.below(14)) {
            case 0: costs("copy construction", {.copies = size, .blocks = size}, size, [&] { xme::LinkedList<T> c(l); }); break;
            case 1:
                costs("move construction and assignment", {}, size, [&] {
                    xme::LinkedList<T> c(std::move(l));
                    l = std::move(c);
                });
                break;
            case 2: costs("push_front of a constant", {.copies = 1, .blocks = 1}, size++, [&] { l.push_front(value); }); break;
            case 3: costs("push_front of a temporary", {.moves = 2, .blocks = 1, .made = 1}, size++, [&] { l.push_front(T(4)); }); break;
            case 4: costs("emplace_front", {.blocks = 1, .made = 1}, size++, [&] { l.emplace_front(4); }); break;
            case 5: costs("emplace_after", {.blocks = 1, .made = 1}, size++, [&] { l.emplace_after(pos, 4); }); break;
            case 6: costs("insert_after of a constant", {.copies = 1, .blocks = 1}, size++, [&] { l.insert_after(pos, value); }); break;
            case 7: costs("insert_after of a temporary", {.moves = 2, .blocks = 1, .made = 1}, size++, [&] { l.insert_after(pos, T(2)); }); break;
            case 8:
                costs("insert_after of a range", {.copies = k, .blocks = k}, size, [&] { l.insert_after(pos, src.begin(), src.end()); });
                size += k;
                break;
            case 9:
                if(at < size) costs("erase_after", {.destroyed = 1}, size--, [&] { l.erase_after(pos); });
                break;
            case 10:
                if(size) costs("pop_front", {.destroyed = 1}, size--, [&] { l.pop_front(); });
                break;
            case 11: costs("reverse", {.destroyed = 0}, size, [&] { l.reverse(); }); break;
            case 12:
                costs("assign", {.copies = k, .blocks = k}, size, [&] { l.assign(src); });
                size = k;
                break;
            default: {
                xme::LinkedList<T> c((std::size_t)k, value);
                costs("construction of n values", {.copies = k, .blocks = k}, k, [&] { xme::LinkedList<T> d((std::size_t)k, value); });
                costs("construction from a range", {.copies = k, .blocks = k}, k, [&] { xme::LinkedList<T> d(src.begin(), src.end()); });
                costs("construction of n", {.blocks = k, .made = k}, k, [&] { xme::LinkedList<T> d((std::size_t)k); });
            }
            }
        }
    });
}

template<typename T>
void heaps(const char* group) {
    subject = group;
    cases(group, st().cases, [&](Rng& r, long) {
        const long n = r.range(0, 200);
        std::vector<T> src;
        for(long j = 0; j < n; ++j) src.emplace_back((int)r.below(1000));
        const long lg = (long)std::log2((double)n + 1) + 1;
        costs("construction from a range", {.copies = n, .moves = n * (3 * lg + 3) + 8, .blocks = 2 * lg + 6, .compared = n * (lg + 2) * 2 + 8}, n, [&] { xme::Heap<T> h(src); });
        xme::Heap<T> h(src);
        for(int step = 0; step < 12; ++step) {
            const long size = (long)h.size(), depth = (long)std::log2((double)size + 1) + 1;
            if(r.chance(30) && size) costs("pop", {.moves = 3 * depth + 8, .compared = 4 * (depth + 1)}, size, [&] { h.pop(); });
            else if(r.chance(50)) costs("push of a temporary", {.moves = size + 3 * depth + 8, .blocks = 1, .made = 1, .compared = 4 * (depth + 1)}, size, [&] { h.push(T((int)r.below(1000))); });
            else costs("emplace", {.moves = size + 3 * depth + 8, .blocks = 1, .made = 1, .compared = 4 * (depth + 1)}, size, [&] { h.emplace((int)r.below(1000)); });
            costs("front, size, iteration", {.compared = 0}, (long)h.size(), [&] {
                long s = (long)h.size() + h.empty();
                if(h.size()) s += h.front().v;
                for(auto& e : h) s += e.v;
                use((u64)s);
            });
        }
    });
}

// ---------------------------------------------------------------------------------------------
template<typename T>
void queues(const char* group) {
    subject = group;
    cases(group, st().cases, [&](Rng& r, long) {
        const std::size_t cap = std::size_t(1) << r.range(1, 6);
        xme::SPSCQueue<T> q(cap);
        xme::SPSCQueue<T, xme::Capacity<16>> s;
        const T value(8);
        auto run = [&](auto& queue, const char* what) {
            for(int step = 0; step < 30; ++step) {
                const long free_ = (long)queue.write_available(), used = (long)queue.read_available();
                switch(r.below(5)) {
                case 0: costs("push of a constant", {.copies = free_ > 0, .moves = 1, .made = 0}, used, [&] { queue.push(value); }); break;
                case 1: costs("push of a temporary", {.moves = 2 * (free_ > 0), .made = 1}, used, [&] { queue.push(T(4)); }); break;
                case 2: costs("emplace", {.moves = 1, .made = 1}, used, [&] { queue.emplace(4); }); break;
                case 3:
                    if(used) costs("pop", {.moves = 1, .destroyed = 2}, used, [&] { queue.pop(); });
                    break;
                default: {
                    long s_ = 0;
                    if(used) costs("consume", {.moves = 1, .destroyed = 2}, used, [&] { queue.consume([&](auto&& e) { s_ += e.v; }); });
                }
                }
            }
            note("%s\n", what);
        };
        run(q, "dynamic");
        run(s, "static");
    });
}

template<typename T>
struct Call {  // a function object with an element
    T t;
    int operator()(int x) const { return t.v + x; }
};

void functions(const char* group) {
    subject = group;
    cases(group, st().cases, [&](Rng& r, long) {
        const int x = (int)r.below(100);
        const Small value(5);
        // pairs and tuples
        costs("construction of a pair", {.copies = 1, .moves = 2, .made = 1}, 2, [&] { xme::Pair<Small, Small> p(value, Small(2)); });
        {
            xme::Pair<Small, Big> p(Small(1), Big(2)), q(Small(3), Big(4));
            costs("copy of a pair", {.copies = 2, .moves = 2}, 2, [&] { auto c = p; });
            costs("move of a pair", {.moves = 4}, 2, [&] { auto c = std::move(p); });
            costs("move assignment of a pair", {.moves = 4}, 2, [&] { p = std::move(q); });
            costs("swap of pairs", {.moves = 8}, 2, [&] { p.swap(q); });
            costs("access of a pair", {}, 2, [&] { auto& [a, b] = p; use((u64)(a.v + b.v + get<0>(p).v)); });
            costs("comparison of pairs", {.compared = 8}, 2, [&] { use((u64)(p == q) + 2 * (u64)(p < q)); });
        }
        {
            xme::Tuple<Small, Big, int, Small> t{Small(1), Big(2), 3, Small(4)}, u{Small(x), Big(2), 3, Small(4)};
            costs("construction of a tuple", {.copies = 1, .moves = 2, .made = 1}, 2, [&] { xme::Tuple<Small, Small> p{value, Small(2)}; });
            costs("copy of a tuple", {.copies = 3, .moves = 3}, 3, [&] { auto c = t; });
            costs("move of a tuple", {.moves = 6}, 3, [&] { auto c = std::move(t); });
            costs("copy assignment of a tuple", {.copies = 3, .moves = 9}, 3, [&] { u = t; });
            costs("move assignment of a tuple", {.moves = 6}, 3, [&] { u = std::move(t); });
            costs("swap of tuples", {.moves = 12}, 3, [&] { t.swap(u); });
            costs("get", {}, 3, [&] { use((u64)(get<0>(t).v + get<1>(t).v + get<2>(std::as_const(t)) + get<3>(t).v)); });
            costs("apply", {}, 3, [&] { xme::apply([](const Small& a, Big& b, int c, Small& d) { use((u64)(a.v + b.v + c + d.v)); }, t); });
            costs("tuple_cat of temporaries", {.moves = 12}, 3, [&] { auto c = xme::tuple_cat(std::move(t), std::move(u)); use((u64)get<0>(c).v); });
            costs("tuple_cat of lvalues", {.copies = 6, .moves = 6}, 3, [&] { auto c = xme::tuple_cat(t, u); use((u64)get<0>(c).v); });
            costs("tie", {}, 3, [&] { Small a(1); auto c = xme::tie(t, a); use((u64)get<1>(c).v); now.made--; });
        }
        // binders
        {
            auto f = [](const Small& a, const Small& b, const Small& c) { return a.v + b.v + c.v; };
            costs("bind_front of a constant and a temporary", {.copies = 1, .moves = 4, .made = 1}, 2, [&] { auto b = xme::bind_front(f, value, Small(x)); });
            auto b = xme::bind_front(f, value, Small(x));
            costs("call of bind_front", {}, 3, [&] { use((u64)b(value)); });
            auto c = xme::bind_back(f, Small(x), value);
            costs("call of bind_back", {}, 3, [&] { use((u64)c(value)); });
            costs("copy of a binder", {.copies = 2, .moves = 2}, 2, [&] { auto d = b; });
            costs("move of a binder", {.moves = 4}, 2, [&] { auto d = std::move(c); });
        }
        // delegates
        {
            Call<Small> target{Small(x)};
            costs("delegate of a function object", {.copies = 1, .moves = 2, .blocks = 1}, 1, [&] { xme::Delegate<int(int)> d(target); });
            costs("delegate of a temporary", {.moves = 3, .blocks = 1, .made = 1}, 1, [&] { xme::Delegate<int(int)> d(Call<Small>{Small(x)}); });
            xme::Delegate<int(int)> d(target), e(target);
            costs("call of a delegate", {}, 1, [&] { use((u64)d(3)); });
            costs("copy of a delegate", {.copies = 1, .moves = 2, .blocks = 1}, 1, [&] { xme::Delegate<int(int)> g(d); });
            costs("move of a delegate", {.moves = 2, .blocks = 1}, 1, [&] { xme::Delegate<int(int)> g(std::move(d)); d = std::move(g); });
            costs("swap of delegates", {.moves = 6, .blocks = 1}, 1, [&] { d.swap(e); });
            costs("delegate of a small trivial function", {}, 0, [&] { xme::Delegate<int(int)> g([x](int y) { return x + y; }); use((u64)g(2)); });
            costs("delegate of a function pointer", {}, 0, [&] { xme::Delegate<int(int)> g(+[](int y) { return y; }); use((u64)g(2)); });
            int first = x, second = 3;
            costs("delegate of a functor of two references", {}, 0, [&] {
                xme::Delegate<int(int)> g([&first, &second](int y) { return first + second + y; }), h = g;
                use((u64)g(2) + (u64)h(1));
            });
            costs("delegate of a member function", {}, 0, [&] {
                xme::Delegate<int(const Call<Small>&, int)> g(&Call<Small>::operator()), h = g;
                use((u64)g(target, 1) + (u64)h(target, 1));
            });
            xme::Delegate<int(Small, const Small&, Small&&)> by([](Small a, const Small& b, Small&& c) { return a.v + b.v + c.v; });
            Small third(9);
            costs("call of a delegate with arguments", {.copies = 1, .moves = 3}, 3, [&] { use((u64)by(value, value, std::move(third))); });
            costs("call of a delegate with a temporary", {.moves = 4, .made = 1}, 3, [&] { use((u64)by(Small(1), value, std::move(third))); });
            costs("a scoped delegate", {.copies = 0, .moves = 2, .made = 1}, 1, [&] {
                Call<Small> c{Small(x)};
                xme::ScopedDelegate s([&c] { use((u64)c(1)); });
            });
        }
        // algorithms
        {
            const long n = r.range(0, 60), at = r.range(0, n);
            std::vector<Small> v;
            v.reserve((std::size_t)n);
            for(long j = 0; j < n; ++j) v.emplace_back((int)j);
            const Small wanted((int)at);
            costs("find", {.compared = std::min(at + 1, n)}, n, [&] { use((u64)(xme::find(v, wanted) - v.begin())); });
            costs("reverse", {.moves = 3 * (n / 2)}, n, [&] { xme::reverse(v); });
            std::allocator<Small> al;
            Small* raw = (Small*)malloc(sizeof(Small) * (std::size_t)(n + 1));
            costs("uninitialized_copy_a", {.copies = n}, n, [&] { xme::ranges::uninitialized_copy_a(v.begin(), v.end(), raw, raw + n, al); });
            costs("destroy_a", {.destroyed = n}, n, [&] { xme::ranges::destroy_a(raw, raw + n, al); });
            costs("uninitialized_move_a", {.moves = n}, n, [&] { xme::ranges::uninitialized_move_a(v.begin(), v.end(), raw, al); });
            costs("destroy_n_a", {.destroyed = n}, n, [&] { xme::ranges::destroy_n_a(raw, (std::size_t)n, al); });
            costs("uninitialized_fill_n_a", {.copies = n}, n, [&] { xme::ranges::uninitialized_fill_n_a(raw, (std::size_t)n, value, al); });
            xme::ranges::destroy_n_a(raw, (std::size_t)n, al);
            free(raw);
        }
    });
}

int main(int argc, char** argv) {
    init(argc, argv);
    arrays<Small>("arrays of small elements");
    arrays<Big>("arrays of big elements");
    arrays<Throws>("arrays of elements with throwing moves");
    lists<Small>("lists of small elements");
    lists<Throws>("lists of elements with throwing moves");
    lists<Big>("lists of big elements");
    heaps<Small>("heaps of small elements");
    heaps<Big>("heaps of big elements");
    queues<Small>("queues of small elements");
    queues<Throws>("queues of elements with throwing moves");
    functions("functions and algorithms");
    return finish();
}
