// Drives histories of xme::LinkedList against a sequence model that also remembers where every
// element lives (C07), and injects failures while watching nodes and elements (C08).
#include "../harness/sources.hpp"
#include <xme/container/linked_list.hpp>

using namespace mon;

static int next_value = 1;
static int fresh() {
    if(++next_value > 1000000) next_value = 2;
    return next_value;
}

// Every default constructed one is an allocator of its own: blocks must go back to it
template<typename T>
struct OwnAlloc {
    using value_type                             = T;
    using is_always_equal                        = std::false_type;
    using propagate_on_container_move_assignment = std::true_type;
    static inline int last                       = 0;
    int tag                                      = ++last;
    OwnAlloc() noexcept                          = default;
    template<typename U>
    OwnAlloc(const OwnAlloc<U>& o) noexcept : tag(o.tag) {}
    T* allocate(size_t n) { return (T*)block_alloc(n, sizeof(T), alignof(T), tag); }
    void deallocate(T* p, size_t n) { block_free(p, n, sizeof(T), alignof(T), tag); }
    bool operator==(const OwnAlloc& o) const { return tag == o.tag; }
};
// The same, but assignments leave it where it is
template<typename T>
struct StayAlloc : OwnAlloc<T> {
    using propagate_on_container_move_assignment = std::false_type;
    template<typename U>
    struct rebind { using other = StayAlloc<U>; };
    StayAlloc() noexcept            = default;
    StayAlloc(const StayAlloc&)     = default;
    void operator=(const StayAlloc&) = delete;
    template<typename U>
    StayAlloc(const StayAlloc<U>& o) noexcept : OwnAlloc<T>(o) {}
};

template<typename T, typename A>
struct Rig {
    using L = xme::LinkedList<T, A>;
    using It                      = typename L::iterator;
    using CIt                     = typename L::const_iterator;
    static constexpr int K        = 3;
    static constexpr bool copies  = std::is_copy_constructible_v<T>;
    static constexpr bool tracked = is_tracked<T>;
    static constexpr bool stays   = std::is_same_v<A, StayAlloc<T>>;
    static constexpr bool watched = std::is_same_v<A, Alloc<T>> || std::is_same_v<A, OwnAlloc<T>> || stays;
#ifdef FAULTS
    static constexpr bool faults = true;
#else
    static constexpr bool faults = false;
#endif
    struct Entry {
        int v;
        const T* at;
        It it;
    };
    using Model = std::vector<Entry>;

    Rng& r;
    std::optional<L> a[K];
    Model m[K];

    explicit Rig(Rng& rng) : r(rng) {
        for(auto& x : a) x.emplace();
    }

    std::vector<int> values(int n) {
        std::vector<int> v;
        for(int i = 0; i < n; ++i) v.push_back(fresh());
        return v;
    }
    std::vector<int> plain(int i) {
        std::vector<int> v;
        for(auto& e : m[i]) v.push_back(e.v);
        return v;
    }
    int some_source() {
        for(;;) {
            int k = (int)r.below(s_kinds);
            if(source_ok<T>(k)) return k;
        }
    }
    // The list as it is becomes the model
    void resync(int i) {
        m[i].clear();
        for(auto it = a[i]->begin(); it != a[i]->end(); ++it) {
            m[i].push_back({val(*it), std::addressof(*it), it});
            if(m[i].size() > 100000) {
                violation("C07:cycle", "the list doesn't end");
                return;
            }
        }
    }
    // The list must have these values; where they live is learnt
    void expect(int i, const std::vector<int>& v, const char* op) {
        resync(i);
        bool same = m[i].size() == v.size();
        for(size_t k = 0; same && k < v.size(); ++k) same = m[i][k].v == val(mk<T>(v[k]));
        MON_CHECK(same, "C07:content", "%s: the list has %zu elements, the model %zu, or they differ", op, m[i].size(), v.size());
        for(size_t k = 0; k < v.size() && k < m[i].size(); ++k) m[i][k].v = v[k];
    }
    // The list must have these values, and the nodes that already existed stay where they were
    void content(int i) {
        L& x       = *a[i];
        const L& c = x;
        size_t n   = m[i].size(), k = 0;
        MON_CHECK(x.empty() == (n == 0) && c.empty() == (n == 0), "C07:empty", "empty() is wrong for %zu elements", n);
        auto it = x.begin();
        for(; it != x.end() && k < n; ++it, ++k) {
            MON_CHECK(val(*it) == val(mk<T>(m[i][k].v)), "C07:content", "list %d, element %zu of %zu is %d, the model has %d", i, k, n, val(*it), m[i][k].v);
            MON_CHECK(std::addressof(*it) == m[i][k].at, "C07:reference-invalidated", "list %d, element %zu of %zu isn't where it was", i, k, n);
            MON_CHECK(it == m[i][k].it && std::addressof(*m[i][k].it) == std::addressof(*it) && it.operator->() == std::addressof(*it), "C07:iterator-invalidated", "list %d, iterator to element %zu of %zu", i, k, n);
        }
        MON_CHECK(k == n && it == x.end(), "C07:length", "list %d has %s than the %zu elements of the model", i, k < n ? "less" : "more", n);
        if(k != n || it != x.end()) return;
        k = 0;
        for(auto& e : c) {
            if(k < n) MON_CHECK(std::addressof(e) == m[i][k].at, "C07:iteration", "const iteration, element %zu", k);
            if(++k > n) break;
        }
        MON_CHECK(k == n, "C07:iteration", "const iteration went over %zu of %zu", k, n);
        if(n) MON_CHECK(std::addressof(x.front()) == m[i][0].at && std::addressof(c.front()) == m[i][0].at, "C07:front", "front() of %zu elements", n);
        auto b = x.before_begin();
        ++b;
        MON_CHECK(b == x.begin(), "C07:before-begin", "before_begin() isn't before the first of %zu", n);
        CIt cb = c.cbefore_begin();
        CIt old = cb++;
        MON_CHECK(cb == c.begin() && old == c.before_begin() && CIt(x.begin()) == c.begin(), "C07:before-begin", "const, %zu elements", n);
    }
    void check_all() {
        size_t total = 0;
        for(int i = 0; i < K; ++i) {
            content(i);
            total += m[i].size();
        }
        if constexpr(tracked) MON_CHECK(tr().live.size() == total, "C08:leak-or-loss", "%zu elements alive, the lists hold %zu", tr().live.size(), total);
        if constexpr(watched) MON_CHECK(tr().blocks.size() == total, "C08:node-leak", "%zu nodes allocated, the lists hold %zu elements", tr().blocks.size(), total);
    }
    CIt before(int i, long p) {  // the position before element p
        CIt it = a[i]->before_begin();
        for(; p > 0; --p) ++it;
        return it;
    }
    Entry entry(int v, It it) { return {v, std::addressof(*it), it}; }

    // Runs f, perhaps with failures. Returns if it finished; otherwise list i is still as it
    // must be: unchanged if `strong`.
    template<typename F>
    bool go(int i, bool strong, bool may_fail, F&& f) {
        if constexpr(!faults) {
            f();
            return true;
        }
        bool block = may_fail && r.chance(40), elem = may_fail && !block && r.chance(80);
        long nth = (long)r.below(block ? 5 : r.chance(60) ? 3 : 12);
        note("  [fail %s %ld]\n", block ? "allocation" : elem ? "element operation" : "nothing", nth);
        tr().arm(elem ? nth : -1, block ? nth : -1);
        try {
            f();
            bool fired = tr().fired;
            tr().disarm();
            MON_CHECK(!fired, "C08:exception-swallowed", "an injected failure never reached the caller");
            return true;
        }
        catch(const Injected&) { count("element_failures_delivered"); }
        catch(const std::bad_alloc&) { count("allocation_failures_delivered"); }
        MON_CHECK(tr().fired, "C08:spurious-exception", "an exception nobody injected");
        tr().disarm();
        seen(hash2((u64)nth, hash2(block, m[i].size())));
        if(!a[i]) {
            a[i].emplace();
            m[i].clear();
        }
        else if(!strong) resync(i);
        // otherwise check_all sees if it changed
        return false;
    }

    void step() {
        int i = (int)r.below(K), j = (int)r.below(K);
        int n  = (int)m[i].size();
        int op = (int)r.below(24);
        if(n > 25 && op < 16) op = 16 + (int)r.below(8);
        long p   = r.range(0, n);
        int cnt  = (int)(r.chance(70) ? r.below(4) : r.below(12));
        int kind = some_source();
        int x    = fresh();
        seen(hash2(hash2((u64)op, (u64)n), hash2((u64)p, (u64)(kind * 100 + cnt))));
        note("l%d(%d) ", i, n);

        auto build = [&](const std::vector<int>& v, auto&& make) {
            a[i].reset();
            m[i].clear();
            if(go(i, false, true, [&] { make(a[i]); })) expect(i, v, "construction");
        };
        // one element x was inserted, before element p
        auto inserted = [&](It it) {
            MON_CHECK(it == a[i]->end() || val(*it) == val(mk<T>(x)), "C07:returned-iterator", "the returned iterator designates %d instead of %d", val(*it), x);
            m[i].insert(m[i].begin() + p, entry(x, it));
        };

        switch(op) {
        case 0:
            if constexpr(std::is_default_constructible_v<T>) {
                note("LinkedList(%d)\n", cnt);
                build(std::vector<int>(cnt, 0), [&](auto& s) { s.emplace((size_t)cnt); });
                break;
            }
            [[fallthrough]];
        case 1:
            if constexpr(copies) {
                note("LinkedList(%d, %d)\n", cnt, x);
                T v = mk<T>(x);
                build(std::vector<int>(cnt, x), [&](auto& s) { s.emplace((size_t)cnt, std::as_const(v)); });
            }
            break;
        case 2: {
            auto v = values(cnt);
            note("LinkedList(first, last) of %d, %s\n", cnt, source_name[kind]);
            build(v, [&](auto& s) { with_source<T, false>(kind, v, [&](auto f, auto l) { s.emplace(f, l); }); });
            break;
        }
        case 3: {
            auto v = values(cnt);
            note("LinkedList(range) of %d, %s\n", cnt, source_name[kind]);
            build(v, [&](auto& s) { with_source<T, true>(kind, v, [&](auto&& c) { s.emplace(c); }); });
            break;
        }
        case 4:
            if constexpr(copies) {
                int y = fresh(), z = fresh();
                note("LinkedList{%d, %d, %d}\n", x, y, z);
                build({x, y, z}, [&](auto& s) {
                    std::initializer_list<T> il{mk<T>(x), mk<T>(y), mk<T>(z)};
                    s.emplace(il);
                });
            }
            break;
        case 5:
            if constexpr(copies) {
                if(i == j) j = (i + 1) % K;
                note("copy of l%d\n", j);
                build(plain(j), [&](auto& s) { s.emplace(std::as_const(*a[j])); });
            }
            break;
        case 6: {
            if(i == j) j = (i + 1) % K;
            note("move of l%d\n", j);
            a[i].reset();
            a[i].emplace(std::move(*a[j]));
            m[i] = m[j];
            MON_CHECK(a[j]->begin() == a[j]->end(), "C07:moved-from", "a moved from list isn't empty");
            resync(j);
            break;
        }
        case 7:
            if constexpr(copies) {
                note("= l%d\n", j);
                auto v = plain(j);
                if(go(i, false, true, [&] { *a[i] = std::as_const(*a[j]); })) expect(i, v, "copy assignment");
            }
            break;
        case 8: {
            note("= move(l%d)\n", j);
            auto taken = m[j];
            if constexpr(stays) {  // the elements move to nodes of the allocator that stays
                auto v = plain(j);
                if(go(i, false, true, [&] { *a[i] = std::move(*a[j]); }) && i != j) expect(i, v, "move assignment");
                resync(j);
                break;
            }
            *a[i] = std::move(*a[j]);
            if(i != j) {
                m[i] = taken;
                resync(j);
            }
            else resync(i);
            break;
        }
        case 9:
            if constexpr(copies) {
                int y = fresh();
                note("= {%d, %d}\n", x, y);
                if(r.chance(50)) {
                    if(go(i, false, true, [&] { *a[i] = {mk<T>(x), mk<T>(y)}; })) expect(i, {x, y}, "list assignment");
                }
                else if(go(i, false, true, [&] { a[i]->assign({mk<T>(x), mk<T>(y), mk<T>(x)}); })) expect(i, {x, y, x}, "assign");
            }
            break;
        case 10: {
            auto v = values(cnt);
            note("assign(first, last) of %d, %s\n", cnt, source_name[kind]);
            if constexpr(std::is_copy_assignable_v<T> || std::is_assignable_v<T&, int>) {
                if(!copies && kind != s_ints) kind = s_ints;
                if(source_ok<T>(kind))
                    if(go(i, false, true, [&] { with_source<T, false>(kind, v, [&](auto f, auto l) {
                                                    if constexpr(std::is_assignable_v<T&, decltype(*f)>) a[i]->assign(f, l);
                                                }); })) expect(i, v, "assign");
            }
            break;
        }
        case 11: {
            auto v = values(cnt);
            note("assign(range) of %d, %s\n", cnt, source_name[kind]);
            if constexpr(copies)
                if(go(i, false, true, [&] { with_source<T, true>(kind, v, [&](auto&& c) { a[i]->assign(c); }); })) expect(i, v, "assign");
            break;
        }
        case 12: {
            p = 0;
            bool copy = copies && r.chance(50);
            note("push_front(%s %d)\n", copy ? "copy" : "move", x);
            T v     = mk<T>(x);
            bool ok = go(i, true, true, [&] {
                if constexpr(copies) {
                    if(copy) {
                        a[i]->push_front(std::as_const(v));
                        return;
                    }
                }
                a[i]->push_front(std::move(v));
            });
            if(ok) inserted(a[i]->begin());
            break;
        }
        case 13: {
            p = 0;
            note("emplace_front(%d)\n", x);
            T* ref = nullptr;
            bool ok;
            if constexpr(std::is_convertible_v<int, T>) ok = go(i, true, true, [&] { ref = std::addressof(a[i]->emplace_front(x)); });
            else ok = go(i, true, true, [&] { ref = &a[i]->emplace_front(mk<T>(x)); });
            if(ok) {
                MON_CHECK(ref == std::addressof(*a[i]->begin()), "C07:returned-reference", "emplace_front returned a reference to another element");
                inserted(a[i]->begin());
            }
            break;
        }
        case 14: {
            note("insert_after before %ld, %d\n", p, x);
            It got;
            bool ok   = false;
            bool copy = copies && r.chance(50), conv = r.chance(30);
            T v = mk<T>(x);
            if constexpr(std::is_convertible_v<int, T>) {
                if(conv) {
                    if(r.chance(50)) ok = go(i, true, true, [&] { got = a[i]->insert_after(before(i, p), x); });
                    else ok = go(i, true, true, [&] { got = a[i]->emplace_after(before(i, p), x); });
                    if(ok) inserted(got);
                    break;
                }
            }
            ok = go(i, true, true, [&] {
                if constexpr(copies) {
                    if(copy) {
                        got = a[i]->insert_after(before(i, p), v);
                        return;
                    }
                }
                got = conv ? a[i]->emplace_after(before(i, p), std::move(v)) : a[i]->insert_after(before(i, p), std::move(v));
            });
            if(ok && copy) MON_CHECK(val(v) == val(mk<T>(x)), "C07:source-modified", "inserting an lvalue changed it");
            if(ok) inserted(got);
            break;
        }
        case 15: case 23: {
            auto v = values(cnt);
            note("insert_after before %ld, %d of %s\n", p, cnt, source_name[kind]);
            It got;
            bool as_range = r.chance(50);
            if(go(i, false, true, [&] {
                   if(as_range) with_source<T, true>(kind, v, [&](auto&& c) { got = a[i]->insert_after(before(i, p), c); });
                   else with_source<T, false>(kind, v, [&](auto f, auto l) { got = a[i]->insert_after(before(i, p), f, l); });
               })) {
                It last(a[i]->before_begin());
                std::vector<Entry> e;
                CIt q = before(i, p);
                // walk over the new elements with mutable iterators
                It w = a[i]->before_begin();
                for(long s = 0; s < p; ++s) ++w;
                last = w;
                for(int s = 0; s < cnt; ++s) {
                    if(++w == a[i]->end()) break;
                    e.push_back(entry(v[s], w));
                    last = w;
                }
                (void)q;
                MON_CHECK(got == last, "C07:returned-iterator", "insert_after of %d didn't return the last inserted element", cnt);
                m[i].insert(m[i].begin() + p, e.begin(), e.end());
                MON_CHECK((int)e.size() == cnt, "C07:length", "insert_after of %d", cnt);
            }
            break;
        }
        case 16:
            if(n) {
                note("pop_front\n");
                a[i]->pop_front();
                m[i].erase(m[i].begin());
            }
            break;
        case 17: case 18:
            if(n) {
                p = r.range(0, n - 1);
                note("erase_after, element %ld\n", p);
                a[i]->erase_after(before(i, p));
                m[i].erase(m[i].begin() + p);
            }
            break;
        case 19: {
            long q = r.range(p, n);
            note("erase_after, elements [%ld, %ld)\n", p, q);
            if(q == n && r.chance(50)) a[i]->erase_after(before(i, p), a[i]->end());
            else a[i]->erase_after(before(i, p), ++before(i, q));
            m[i].erase(m[i].begin() + p, m[i].begin() + q);
            break;
        }
        case 20: case 21:
            note("reverse\n");
            a[i]->reverse();
            std::reverse(m[i].begin(), m[i].end());
            break;
        case 22:
            if(r.chance(40)) {
                note("clear\n");
                a[i]->clear();
                m[i].clear();
            }
            else if(n) {
                p = r.range(0, n - 1);
                note("element %ld = %d\n", p, x);
                It w = a[i]->begin();
                for(long s = 0; s < p; ++s) w++;
                *w        = mk<T>(x);
                m[i][p].v = x;
            }
            break;
        }
    }
    void history() {
        size_t bad = st().violations.size();
        int steps  = (int)(10 + r.below(50));
        for(int k = 0; k < steps && st().violations.size() == bad; ++k) {
            step();
            judged();
            check_all();
        }
        for(auto& x : a) x.reset();
        MON_CHECK(tr().live.empty(), "C08:leak-or-loss", "%zu elements alive after the lists are destroyed", tr().live.size());
        MON_CHECK(tr().blocks.empty(), "C08:node-leak", "%zu nodes allocated after the lists are destroyed", tr().blocks.size());
        tr().reset();
        tr().blocks.clear();
    }
};

template<typename T, typename A>
void group(const char* name) {
    cases(name, st().cases, [&](Rng& r, long) { Rig<T, A>(r).history(); });
}

int main(int argc, char** argv) {
    init(argc, argv);
    source_prefix()   = "C07:";
    lifetime_prefix() = "C08:";
#if SET == 0
    group<int, std::allocator<int>>("int");
    group<std::string, Alloc<std::string>>("string");
#elif SET == 1
    using O = Obj<k_copy | k_default | k_throw_all>;
    group<O, Alloc<O>>("object");
#elif SET == 2
    using M = Obj<k_throw_move | k_throw_all>;
    group<M, Alloc<M>>("move only");
    using Q = Obj<k_copy | k_align | k_throw_all | k_throw_move>;
    group<Q, Alloc<Q>>("over-aligned");
#elif SET == 3
    using O = Obj<k_copy | k_default | k_throw_all>;
    group<O, OwnAlloc<O>>("objects, allocators of their own");
    group<O, StayAlloc<O>>("objects, allocators that stay");
    using M = Obj<k_throw_move | k_throw_all>;
    group<M, OwnAlloc<M>>("move only, allocators of their own");
    group<M, StayAlloc<M>>("move only, allocators that stay");
#endif
    return finish();
}
