// Drives histories of xme::Heap against the multiset of its elements (C05) and counts what each
// push and pop costs (C06).
#include "../harness/sources.hpp"
#include <algorithm>
#include <cmath>
#include <list>
#include <ranges>
#include <set>
#include <xme/container/heap.hpp>

using namespace mon;

static long compares = 0;

// Strict weak orders; in some of them many different elements are equivalent.
enum { o_less, o_greater, o_tens, o_parity };
template<int Order>
struct Cmp {
    static bool less(int a, int b) {
        switch(Order) {
        case o_less: return a < b;
        case o_greater: return a > b;
        case o_tens: return a / 10 < b / 10;
        default: return (a & 1) < (b & 1);
        }
    }
    template<typename T>
    bool operator()(const T& a, const T& b) const {
        ++compares;
        return less(val(a), val(b));
    }
};

struct CopyCount {
    static long now() {
        auto& t = tr();
        return t.copies + t.moves + t.copy_assigns + t.move_assigns;
    }
};

template<typename T, typename Container, int Order>
void histories(const char* name, int percent = 100) {
    using H                    = xme::Heap<T, Container, Cmp<Order>>;
    constexpr bool copies      = std::is_copy_constructible_v<T>;
    constexpr bool convertible = std::is_convertible_v<int, T>;
    cases(name, std::max(4l, st().cases * percent / 100), [&](Rng& r, long) {
        size_t bad = st().violations.size();
        {
            int next          = 0;
            const int pattern = (int)r.below(5);
            // unique values: ascending, descending, random order
            auto value = [&] {
                ++next;
                if(pattern == 0) return next;
                if(pattern == 1) return 100000 - next;
                if(pattern == 2) return (int)((next * 7919ll) % 99991);
                if(pattern == 3) return next % 2 ? next : 50000 - next;
                return (int)(mix(r.s + next) % 9000) * 10 + next % 10;
            };
            std::multiset<int> model;
            std::optional<H> h;
            auto verify = [&](const char* op) {
                judged();
                std::multiset<int> now;
                const H& c = *h;
                for(auto& e : c) now.insert(val(e));
                MON_CHECK(c.size() == model.size() && h->size() == model.size() && c.empty() == model.empty(), "C05:size", "%s: size %zu, %zu elements were left in",
                          op, c.size(), model.size());
                MON_CHECK(now == model, "C05:elements-not-conserved", "%s: the elements aren't those pushed and not popped (%zu of %zu)", op, now.size(), model.size());
                if(model.empty() || now != model) return;
                int f = val(c.front());
                MON_CHECK(std::addressof(c.front()) == std::addressof(*c.begin()), "C05:front", "%s: front() isn't the first element", op);
                for(int e : model)
                    if(Cmp<Order>::less(f, e)) {
                        violation("C05:front-not-top", fmt("%s: front() is %d but %d precedes it, of %zu elements", op, f, e, model.size()));
                        break;
                    }
                seen(hash2(hash2(model.size(), (u64)f), (u64)op[0] * 8 + pattern));
            };
            // construction
            int n0 = (int)r.below(12), how = (int)r.below(6);
            const int kind = (int)r.below(s_kinds);
            if(how >= 4 && !source_ok<T>(kind)) how = 0;
            std::vector<int> init;
            for(int i = 0; i < n0; ++i) init.push_back(value());
            note("pattern %d, built by %d of %d\n", pattern, how, n0);
            if(how >= 4) {
                note("from a %s\n", source_name[kind]);
                if(how == 4) with_source<T, true>(kind, init, [&](auto&& range) {
                    if constexpr(std::is_constructible_v<H, decltype(range)>) h.emplace(std::forward<decltype(range)>(range));
                    else violation("C05:not-constructible", "from a range of convertible elements");
                });
                else with_source<T, false>(kind, init, [&](auto first, auto last) { h.emplace(std::move(first), std::move(last)); });
                if(!h) h.emplace();
            }
            else if constexpr(copies) {
                std::vector<T> src;
                for(int x : init) src.push_back(mk<T>(x));
                if(how == 0) h.emplace();
                else if(how == 1) h.emplace(src.begin(), src.end());
                else if(how == 2) h.emplace(src);
                else {
                    std::list<T> l;
                    for(auto& e : src) l.push_back(e);
                    h.emplace(l.begin(), l.end());
                }
                size_t k = 0;
                for(auto& e : src) {
                    MON_CHECK(val(e) == val(mk<T>(init[k])), "C05:source-modified", "element %zu", k);
                    ++k;
                }
            }
            else if(how == 0 || !convertible) h.emplace();
            else if constexpr(convertible) {
                if(how == 1) h.emplace(init.begin(), init.end());
                else h.emplace(init);
            }
            if(how == 0 || (!copies && !convertible)) init.clear();
            for(int x : init) model.insert(val(mk<T>(x)));
            verify("construct");
            int steps = (int)(10 + r.below(r.chance(20) ? 300 : 50));
            int grow  = 30 + (int)r.below(50);
            for(int k = 0; k < steps && st().violations.size() == bad; ++k) {
                if(r.chance(grow) || model.empty()) {
                    int x = value();
                    int w = (int)r.below(4);
                    bool fail = r.chance(10);
                    note("push %d (%d)%s\n", x, w, fail ? " failing" : "");
                    bool ok = true;
                    T item  = mk<T>(x);
                    long copied = tr().copies + tr().copy_assigns;
                    if(fail) tr().arm(r.chance(50) ? 0 : -1, 0);
                    try {
                        if(w == 0) h->push(std::move(item));
                        else if(w == 1) {
                            if constexpr(copies) h->push(item);
                            else h->push(std::move(item));
                        }
                        else if(w == 3 || !convertible) h->emplace(std::move(item));
                        else if constexpr(convertible) {
                            if(x & 1) h->emplace(x);
                            else h->push(x);
                        }
                    }
                    catch(const Injected&) { ok = false; }
                    catch(const std::bad_alloc&) { ok = false; }
                    tr().disarm();
                    copied = tr().copies + tr().copy_assigns - copied;
                    // growth copies elements whose move constructor may throw
                    if(w != 1 && std::is_nothrow_move_constructible_v<T>) MON_CHECK(copied == 0, "C05:pushed-rvalue-copied", "%ld copies, of %zu elements", copied, model.size());
                    if(!ok) count("failed_pushes");
                    if(ok) model.insert(val(mk<T>(x)));
                    verify(ok ? "push" : "failed push");
                }
                else if(r.chance(4)) {
                    note("drain\n");
                    if constexpr(copies) {
                        H other = *h;
                        note("copied, original drained\n");
                        while(!other.empty()) other.pop();
                    }
                    std::optional<int> last;
                    while(!h->empty() && st().violations.size() == bad) {
                        int f = val(h->front());
                        if(last) MON_CHECK(!Cmp<Order>::less(*last, f), "C05:drain-order", "popped %d before %d", *last, f);
                        last   = f;
                        auto it = model.find(f);
                        if(it == model.end()) break;
                        model.erase(it);
                        h->pop();
                        verify("pop");
                    }
                }
                else {
                    note("pop\n");
                    int f   = val(h->front());
                    auto it = model.find(f);
                    if(it != model.end()) model.erase(it);
                    h->pop();
                    verify("pop");
                }
            }
            if(r.chance(30)) {
                H moved = std::move(*h);
                h.reset();
                h.emplace(std::move(moved));
                verify("move");
            }
        }
        MON_CHECK(tr().live.empty() && tr().blocks.empty(), "C05:leak", "%zu elements, %zu blocks left", tr().live.size(), tr().blocks.size());
        tr().reset();
        tr().blocks.clear();
    });
}

// Costs of single operations on big heaps.
template<typename T, typename Container, int Order>
void costs(const char* name) {
    using H = xme::Heap<T, Container, Cmp<Order>>;
    cases(name, std::max(6l, st().cases / 10), [&](Rng& r, long idx) {
        {
            long n      = idx < 3 ? 4 + idx : r.range(30, 4000);
            int pattern = (int)(idx % 5);
            auto value  = [&](long k) {
                switch(pattern) {
                case 0: return (int)k;
                case 1: return (int)(1000000 - k);
                case 2: return 7;
                case 3: return (int)(k % 2 ? k : 1000000 - k);
                default: return (int)r.below(1000000);
                }
            };
            long worst_push = 0, worst_pop = 0, worst_moves = 0;
            auto bound = [](long size) { return 4 * (std::log2((double)size + 1) + 1); };
            auto judge = [&](const char* op, long size, long cmps, long moves, bool realloc) {
                judged();
                MON_CHECK(cmps <= bound(size), "C06:comparisons", "%s on %ld elements called the comparator %ld times", op, size, cmps);
                if(!realloc) MON_CHECK(moves <= 3 * bound(size) + 6, "C06:moves", "%s on %ld elements moved elements %ld times", op, size, moves);
                (op[1] == 'u' ? worst_push : worst_pop) = std::max(op[1] == 'u' ? worst_push : worst_pop, cmps);
                if(!realloc) worst_moves = std::max(worst_moves, moves);
                seen(hash2((u64)size, hash2((u64)cmps, (u64)moves)));
            };
            std::optional<H> h;
            if(r.chance(30)) {
                std::vector<int> v;
                for(long k = 0; k < n; ++k) v.push_back(value(k));
                compares = 0;
                h.emplace(v);
                MON_CHECK(compares <= n * bound(n), "C06:construction", "building of %ld elements called the comparator %ld times", n, compares);
            }
            else h.emplace();
            note("%ld operations, pattern %d\n", n, pattern);
            for(long k = 0; k < n; ++k) {
                int x    = value(k);
                compares = 0;
                long m = CopyCount::now(), al = tr().allocs;
                if(r.chance(50)) h->emplace(x);
                else h->push(x);
                judge("push", (long)h->size(), compares, CopyCount::now() - m, tr().allocs != al);
            }
            while(!h->empty() && st().violations.empty()) {
                long size = (long)h->size();
                compares  = 0;
                long m = CopyCount::now(), al = tr().allocs;
                h->pop();
                judge("pop", size, compares, CopyCount::now() - m, tr().allocs != al);
                if(r.chance(10)) {
                    int x    = value(size);
                    compares = 0;
                    m        = CopyCount::now();
                    al       = tr().allocs;
                    h->push(x);
                    judge("push", (long)h->size(), compares, CopyCount::now() - m, tr().allocs != al);
                }
            }
            note("most comparator calls: push %ld, pop %ld; most moves %ld\n", worst_push, worst_pop, worst_moves);
            auto& c = st().counters;
            c["most_comparisons_in_a_push_x_runs"] += worst_push;
            c["most_comparisons_in_a_pop_x_runs"] += worst_pop;
        }
        tr().reset();
        tr().blocks.clear();
    });
}

// Costs and order of single operations on heaps far beyond the sizes at which anything is tracked
static long light_moves = 0;
struct Light {
    int v;
    Light(int x = 0) : v(x) {}
    Light(const Light& o) : v(o.v) { ++light_moves; }
    Light(Light&& o) noexcept : v(o.v) { ++light_moves; }
    Light& operator=(const Light& o) { v = o.v; ++light_moves; return *this; }
    Light& operator=(Light&& o) noexcept { v = o.v; ++light_moves; return *this; }
};
struct LightCmp {
    bool operator()(const Light& a, const Light& b) const { return ++compares, a.v < b.v; }
};
template<typename Container>
void big_costs(const char* name) {
    cases(name, std::max(2l, st().cases / 150), [&](Rng& r, long idx) {
        const long n      = r.chance(50) ? r.range(66000, 70000) : r.range(66000, 400000);
        const int pattern = (int)((idx + st().seed) % 4);
        auto value        = [&](long k) { return (int)(pattern == 0 ? k : pattern == 1 ? n - k : pattern == 2 ? k / 1000 : (long)(mix((u64)k + r.s) % 1000000)); };
        xme::Heap<Light, Container, LightCmp> h;
        auto bound = [](long size) { return 4 * (std::log2((double)size + 1) + 1); };
        long moves, worst = 0;
        bool bad   = false;
        auto begin = [&] { compares = 0, moves = light_moves; };
        auto judge = [&](const char* op, long size, bool realloc) {
            judged();
            worst = std::max(worst, compares);
            if(compares > bound(size)) bad = true, violation("C06:comparisons", fmt("%s on %ld elements called the comparator %ld times", op, size, compares));
            if(!realloc && light_moves - moves > 3 * bound(size) + 6) bad = true, violation("C06:moves", fmt("%s on %ld elements moved elements %ld times", op, size, light_moves - moves));
        };
        note("%ld elements, pattern %d\n", n, pattern);
        for(long k = 0; k < n && !bad; ++k) {
            const void* before = k ? (const void*)std::addressof(*h.begin()) : nullptr;
            begin();
            if(k % 2) h.emplace(value(k));
            else h.push(value(k));
            judge("push", k + 1, before != (const void*)std::addressof(*h.begin()));
            if(k % 4096 == 1) seen(hash2((u64)k, hash2((u64)compares, (u64)pattern)));
        }
        for(long k = n; k > 0 && !bad; --k) {
            begin();
            h.pop();
            judge("pop", k, false);
            if(k % 4096 == 1) seen(hash2((u64)k, hash2((u64)compares, 77)));
        }
        auto& c = st().counters;
        c["elements_of_big_heaps"] += n;
        c["most_comparisons_on_big_heaps_x_runs"] += worst;
    });
}

int main(int argc, char** argv) {
    init(argc, argv);
    lifetime_prefix() = "C05:";
    using O           = Obj<k_copy | k_throw_all>;
    using M           = Obj<0>;
#if SET == 0
    histories<int, xme::Array<int>, o_less>("int less");
    histories<int, std::vector<int>, o_parity>("int parity vector");
    histories<std::string, xme::Array<std::string>, o_greater>("string greater");
#elif SET == 1
    histories<O, xme::Array<O, Alloc<O>>, o_tens>("object by tens");
    histories<O, std::vector<O, Alloc<O>>, o_greater>("object greater vector");
#elif SET == 2
    histories<M, xme::Array<M, Alloc<M>>, o_less>("move only less");
    histories<Plain, xme::Array<Plain, Alloc<Plain>>, o_tens>("plain by tens");
#elif SET == 4
    big_costs<xme::Array<Light>>("big");
    big_costs<std::vector<Light>>("big vector");
#elif SET == 3
    costs<M, xme::Array<M, Alloc<M>>, o_less>("costs less");
    costs<O, xme::Array<O, Alloc<O>>, o_tens>("costs by tens");
    costs<M, std::vector<M, Alloc<M>>, o_greater>("costs greater vector");
#endif
    return finish();
}
