// Drives histories of xme::Array against std::vector<int> models (C01), watches every element
// and block of storage (C02), injects failures (C03) and watches storage and addresses (C04).
#include "../harness/sources.hpp"
#include <cmath>
#include <xme/container/array.hpp>

using namespace mon;
using Vec = std::vector<int>;

static int next_value = 1;
static int fresh() {
    if(++next_value > 1000000) next_value = 2;
    return next_value;
}

template<typename T, typename A, bool Faults>
struct Rig {
    using Arr = xme::Array<T, A>;
    static constexpr int K        = 3;
    static constexpr bool copies  = std::is_copy_constructible_v<T>;
    static constexpr bool tracked = is_tracked<T>;
    static constexpr bool tagged  = std::is_same_v<A, TagAlloc<T>>;
    static constexpr bool watched = tagged || std::is_same_v<A, Alloc<T>>;

    Rng& r;
    std::optional<Arr> a[K];
    Vec m[K];
    int max_size;

    explicit Rig(Rng& rng) : r(rng) {
        for(auto& x : a) x.emplace();
        max_size = (int)(r.chance(80) ? 12 : 70);
    }

    A alloc() {
        if constexpr(tagged) return A((int)r.below(3) + 1);
        else return A();
    }
    Vec values(int n) {
        Vec v;
        for(int i = 0; i < n; ++i) v.push_back(fresh());
        return v;
    }
    int some_source() {
        for(;;) {
            int k = (int)r.below(s_kinds);
            if(source_ok<T>(k)) return k;
        }
    }

    // What C04 looks at around an operation.
    struct Shot {
        const void* data;
        size_t cap, size;
        long allocs, ops;
        std::vector<u64> serial;
    };
    Shot shot(int i) {
        Shot s{std::as_const(*a[i]).data(), a[i]->capacity(), a[i]->size(), tr().allocs, tr().element_ops(), {}};
        if constexpr(tracked)
            for(size_t k = 0; k < a[i]->size(); ++k) s.serial.push_back(tr().serial_of(a[i]->data() + k));
        return s;
    }
    // The first n elements are still the same objects in the same storage, which wasn't replaced.
    void kept(int i, const Shot& s, size_t n, const char* op) {
        MON_CHECK(std::as_const(*a[i]).data() == s.data && a[i]->capacity() == s.cap, "C04:reallocated",
                  "%s within capacity %zu moved the storage or changed capacity (now %zu)", op, s.cap, a[i]->capacity());
        if constexpr(watched)
            MON_CHECK(tr().allocs == s.allocs, "C04:allocated", "%s within capacity %zu allocated", op, s.cap);
        if constexpr(tracked)
            for(size_t k = 0; k < n && k < s.serial.size() && k < a[i]->size(); ++k)
                MON_CHECK(tr().serial_of(a[i]->data() + k) == s.serial[k], "C04:reference-invalidated",
                          "%s replaced element %zu of %zu, before the change", op, k, s.serial.size());
    }
    void content(int i) {
        Arr& x        = *a[i];
        const Arr& c  = x;
        const Vec& v  = m[i];
        const size_t n = v.size();
        MON_CHECK(c.size() == n && x.size() == n, "C01:size", "array %d has size %zu, the model %zu", i, c.size(), n);
        MON_CHECK(c.empty() == (n == 0) && x.empty() == (n == 0), "C01:empty", "empty() is wrong for size %zu", n);
        MON_CHECK(c.capacity() >= c.size(), "C04:capacity-below-size", "capacity %zu < size %zu", c.capacity(), c.size());
        if(c.size() != n) return;
        size_t k = 0;
        for(auto it = x.begin(); it != x.end() && k < n; ++it, ++k)
            MON_CHECK(val(*it) == val(mk<T>(v[k])), "C01:content", "array %d, element %zu of %zu is %d, the model has %d", i, k, n, val(*it), v[k]);
        MON_CHECK(k == n, "C01:iteration", "iterated over %zu of %zu elements", k, n);
        k = 0;
        for(auto&& e : c) {
            MON_CHECK(k < n && std::addressof(e) == c.data() + k, "C01:iteration", "position %zu", k);
            ++k;
        }
        MON_CHECK(k == n, "C01:iteration", "iterated over %zu of %zu const elements", k, n);
        for(auto it = c.end(); it != c.begin();) {
            --it;
            --k;
            MON_CHECK(std::addressof(*it) == c.data() + k, "C01:iteration", "backwards, position %zu", k);
        }
        for(k = 0; k < n; ++k) {
            MON_CHECK(std::addressof(x[k]) == x.data() + k && std::addressof(c[k]) == c.data() + k && x.data() == c.data(), "C01:indexing", "index %zu", k);
        }
        if(n) {
            MON_CHECK(std::addressof(x.front()) == x.data() && std::addressof(c.front()) == x.data(), "C01:front", "size %zu", n);
            MON_CHECK(std::addressof(x.back()) == x.data() + n - 1 && std::addressof(c.back()) == x.data() + n - 1, "C01:back", "size %zu", n);
        }
        if constexpr(watched) {
            if(c.data()) {
                auto b = tr().block(c.data());
                MON_CHECK(b, "C02:storage-not-allocated", "array %d uses storage that isn't allocated", i);
                if(b) MON_CHECK(b->n >= c.capacity(), "C02:storage-too-small", "capacity %zu in a block of %zu", c.capacity(), b->n);
            }
            else MON_CHECK(n == 0 && c.capacity() == 0, "C02:storage-not-allocated", "size %zu capacity %zu without storage", n, c.capacity());
        }
    }
    void iterators(int i) {
        Arr& x       = *a[i];
        const Arr& c = x;
        long n       = (long)m[i].size();
        if((long)c.size() != n) return;
        long p = r.range(0, n), q = r.range(0, n);
        auto P = x.begin() + p, Q = x.end() - (n - q);
        typename Arr::const_iterator CP = P, CQ = c.begin() + q;
        MON_CHECK(Q - P == q - p && CQ - CP == q - p, "C01:iterator-arithmetic", "difference of %ld and %ld in %ld", p, q, n);
        MON_CHECK((P == Q) == (p == q) && (P < Q) == (p < q) && (P <= Q) == (p <= q) && (P > Q) == (p > q)
                      && (P >= Q) == (p >= q) && (P != Q) == (p != q), "C01:iterator-order", "%ld and %ld in %ld", p, q, n);
        MON_CHECK((CP < CQ) == (p < q) && (CP == CQ) == (p == q), "C01:iterator-order", "const %ld and %ld in %ld", p, q, n);
        auto R = P;
        R += q - p;
        MON_CHECK(R == Q && P + (q - p) == Q && Q - (q - p) == P, "C01:iterator-arithmetic", "%ld + %ld in %ld", p, q - p, n);
        R -= q - p;
        MON_CHECK(R == P, "C01:iterator-arithmetic", "%ld - %ld in %ld", q, q - p, n);
        if(p < n) {
            MON_CHECK(std::addressof(*P) == x.data() + p && P.operator->() == x.data() + p && std::addressof(x.begin()[p]) == x.data() + p, "C01:iterator-access", "position %ld", p);
            auto S = P;
            auto O = S++;
            MON_CHECK(O == P && S == P + 1, "C01:iterator-step", "post increment at %ld", p);
            O = S--;
            MON_CHECK(O == P + 1 && S == P, "C01:iterator-step", "post decrement at %ld", p);
            MON_CHECK(++S == P + 1 && --S == P, "C01:iterator-step", "pre increment at %ld", p);
        }
    }
    void accounting() {
        size_t total = 0, blocks = 0;
        for(auto& x : a) {
            total += x->size();
            blocks += std::as_const(*x).data() != nullptr;
        }
        if constexpr(tracked)
            MON_CHECK(tr().live.size() == total, Faults ? "C03:leak-or-loss" : "C02:leak-or-loss",
                      "%zu elements alive, the arrays hold %zu", tr().live.size(), total);
        if constexpr(watched)
            MON_CHECK(tr().blocks.size() == blocks, Faults ? "C03:storage-leak" : "C02:storage-leak",
                      "%zu blocks allocated, the arrays use %zu", tr().blocks.size(), blocks);
    }
    void check_all() {
        for(int i = 0; i < K; ++i) content(i);
        accounting();
    }
    void resync(int i) {
        m[i].clear();
        for(auto& e : *a[i]) m[i].push_back(val(e));
    }
    bool broken(size_t before) { return st().violations.size() > before; }

    std::optional<Arr> rebuilt;

    // One operation. `arm` is called right before touching the array, `done` right after.
    template<typename Arm>
    void step(Arm&& go) {
        int i = (int)r.below(K), j = (int)r.below(K);
        int n = (int)m[i].size();
        bool room = n < max_size;
        int op = (int)r.below(28);
        if(!room && (op <= 17)) op = 19 + (int)r.below(9);
        long p = r.range(0, n);
        int cnt = (int)(r.chance(70) ? r.below(5) : r.below(20));
        int kind = some_source();
        int x = fresh();
        Shot before = shot(i), other = shot(j);
        bool full = a[i]->size() == a[i]->capacity();
        note("a%d(size %d cap %zu) ", i, n, before.cap);
        u64 h = hash2(hash2((u64)op, (u64)n), hash2(before.cap, (u64)p));
        if(op == 13 || op == 14 || op == 16 || op == 17 || op == 4 || op == 5) h = hash2(h, (u64)(kind * 100 + cnt));
        seen(h);

        // replaces slot i with what `make` builds
        auto build = [&](const Vec& model, auto&& make) {
            a[i].reset();
            m[i].clear();
            bool ok = go(i, 'c', [&] { make(a[i]); });
            if(ok) m[i] = model;
            else if(!a[i]) a[i].emplace();
        };
        auto at = [&](long k) { return typename Arr::const_iterator(a[i]->begin() + k); };
        auto where = [&](auto it) { return (long)(it - a[i]->begin()); };
        auto inserted = [&](long at_, size_t count_, const char* what) {
            if(!Faults && before.size + count_ <= before.cap) kept(i, before, (size_t)at_, what);
        };

        switch(op) {
        case 0:
            note("Array()\n");
            build({}, [&](auto& s) { s.emplace(); });
            MON_CHECK(a[i]->capacity() == 0, "C01:default", "a default constructed array has capacity %zu", a[i]->capacity());
            break;
        case 1: {
            A al = alloc();
            note("Array(%d, alloc)\n", cnt);
            build({}, [&](auto& s) { s.emplace((size_t)cnt, al); });
            if(!Faults) MON_CHECK(a[i]->capacity() >= (size_t)cnt, "C04:construct-capacity", "Array(%d) has capacity %zu", cnt, a[i]->capacity());
            break;
        }
        case 2:
            if constexpr(copies) {
                A al = alloc();
                note("Array(%d, value %d)\n", cnt, x);
                T v = mk<T>(x);
                build(Vec(cnt, x), [&](auto& s) { s.emplace((size_t)cnt, v, al); });
                if(!Faults) MON_CHECK(val(v) == val(mk<T>(x)), "C01:source-modified", "Array(n, value) changed the value");
            }
            break;
        case 3:
            if constexpr(copies) {
                int y = fresh(), z = fresh();
                note("Array{%d,%d,%d}\n", x, y, z);
                if(r.chance(50)) build({x, y, z}, [&](auto& s) {
                    std::initializer_list<T> il{mk<T>(x), mk<T>(y), mk<T>(z)};
                    s.emplace(il);
                });
                else build({}, [&](auto& s) { s.emplace(std::initializer_list<T>{}); });
            }
            break;
        case 4: {
            A al  = alloc();
            Vec v = values(cnt);
            note("Array(first, last) of %d, %s\n", cnt, source_name[kind]);
            build(v, [&](auto& s) { with_source<T, false>(kind, v, [&](auto f, auto l) { s.emplace(f, l, al); }); });
            break;
        }
        case 5: {
            A al  = alloc();
            Vec v = values(cnt);
            note("Array(range) of %d, %s\n", cnt, source_name[kind]);
            build(v, [&](auto& s) { with_source<T, true>(kind, v, [&](auto&& c) { s.emplace(c, al); }); });
            break;
        }
        case 6:
            if constexpr(copies) {
                if(i == j) j = (i + 1) % K;
                note("copy of a%d\n", j);
                Vec v = m[j];
                build(v, [&](auto& s) { s.emplace(std::as_const(*a[j])); });
            }
            break;
        case 7: {
            if(i == j) j = (i + 1) % K;
            note("move of a%d\n", j);
            other = shot(j);
            Vec v = m[j];
            a[i].reset();
            long ops = tr().element_ops(), al = tr().allocs;
            build(v, [&](auto& s) { s.emplace(std::move(*a[j])); });
            MON_CHECK(std::as_const(*a[i]).data() == other.data && a[i]->capacity() == other.cap, "C04:move-storage", "move construction didn't take the storage");
            MON_CHECK(tr().element_ops() == ops && tr().allocs == al, "C04:move-elements", "move construction touched elements or allocated");
            MON_CHECK(a[j]->size() == 0, "C01:moved-from", "a moved from array still has %zu elements", a[j]->size());
            m[j].clear();
            break;
        }
        case 8:
            if constexpr(copies) {
                note("= a%d\n", j);
                if(go(i, 'a', [&] {
                       auto& res = (*a[i] = std::as_const(*a[j]));
                       MON_CHECK(&res == &*a[i], "C01:assignment-result", "copy assignment");
                   })) m[i] = m[j];
            }
            break;
        case 9: {
            note("= move(a%d)\n", j);
            long ops = tr().element_ops(), al = tr().allocs;
            bool ok = go(i, 'n', [&] { *a[i] = std::move(*a[j]); });
            (void)ok;
            MON_CHECK(tr().element_ops() == ops && tr().allocs == al, "C04:move-elements", "move assignment touched elements or allocated");
            if(i != j) {
                MON_CHECK(std::as_const(*a[i]).data() == other.data && a[i]->capacity() == other.cap, "C04:move-storage", "move assignment didn't take the storage");
                m[i] = m[j];
                resync(j);
            }
            else resync(i);
            break;
        }
        case 10:
            if constexpr(copies) {
                int y = fresh();
                note("= {%d,%d}\n", x, y);
                if(go(i, 'a', [&] { *a[i] = {mk<T>(x), mk<T>(y)}; })) m[i] = {x, y};
            }
            break;
        case 11: {
            note("swap(a%d)\n", j);
            long ops = tr().element_ops() + tr().dtors, al = tr().allocs;
            if(r.chance(70)) a[i]->swap(*a[j]);
            else if(i != j) std::ranges::swap(*a[i], *a[j]);
            MON_CHECK(tr().element_ops() + tr().dtors == ops && tr().allocs == al, "C04:move-elements", "swap touched elements or allocated");
            MON_CHECK(std::as_const(*a[i]).data() == other.data && std::as_const(*a[j]).data() == before.data && a[i]->capacity() == other.cap
                          && a[j]->capacity() == before.cap, "C04:move-storage", "swap didn't exchange the storage");
            std::swap(m[i], m[j]);
            break;
        }
        case 12: {
            long got = p;
            bool ok  = false;
            int how  = (int)r.below(4);
            if(how == 1 || !copies) {
                note("insert(%ld, move %d)\n", p, x);
                T v = mk<T>(x);
                ok  = go(i, full || p == n ? 's' : 'i', [&] { got = where(a[i]->insert(at(p), std::move(v))); });
            }
            else if constexpr(copies) {
                if(how == 0) {
                    note("insert(%ld, %d)\n", p, x);
                    T v = mk<T>(x);
                    ok  = go(i, full || p == n ? 's' : 'i', [&] { got = where(a[i]->insert(at(p), v)); });
                    MON_CHECK(val(v) == val(mk<T>(x)), "C01:source-modified", "insert of an lvalue changed it to %d", val(v));
                }
                else if(how == 2 && n > 0) {
                    long s = r.range(0, n - 1);
                    x      = m[i][s];
                    note("insert(%ld, own element %ld)\n", p, s);
                    ok = go(i, full || p == n ? 's' : 'i', [&] { got = where(a[i]->insert(at(p), (*a[i])[s])); });
                }
                else if constexpr(std::is_convertible_v<int, T>) {
                    note("insert(%ld, int %d)\n", p, x);
                    ok = go(i, full || p == n ? 's' : 'i', [&] { got = where(a[i]->insert(at(p), x)); });
                }
                else break;
            }
            if(ok) {
                m[i].insert(m[i].begin() + p, x);
                MON_CHECK(got == p, "C01:returned-iterator", "insert at %ld returned position %ld", p, got);
                inserted(p, 1, "insert");
            }
            break;
        }
        case 13: case 14: {
            Vec v    = values(cnt);
            long got = p;
            note("insert(%ld, %s of %d, %s)\n", p, op == 13 ? "iterators" : "range", cnt, source_name[kind]);
            bool fits = before.size + cnt <= before.cap;
            char g    = kind == s_onepass ? 'p' : fits ? 'i' : 's';
            bool ok   = go(i, g, [&] {
                if(op == 13) with_source<T, false>(kind, v, [&](auto f, auto l) { got = where(a[i]->insert(at(p), f, l)); });
                else with_source<T, true>(kind, v, [&](auto&& c) { got = where(a[i]->insert(at(p), c)); });
            });
            if(ok) {
                m[i].insert(m[i].begin() + p, v.begin(), v.end());
                MON_CHECK(got == p, "C01:returned-iterator", "insert of %d at %ld returned position %ld", cnt, p, got);
                inserted(p, (size_t)cnt, "insert of a range");
            }
            break;
        }
        case 15: {
            bool ok = false;
            int how = (int)r.below(4);
            if(how == 1 || !copies) {
                note("push_back(move %d)\n", x);
                T v = mk<T>(x);
                ok  = go(i, 's', [&] { a[i]->push_back(std::move(v)); });
            }
            else if constexpr(copies) {
                if(how == 0) {
                    note("push_back(%d)\n", x);
                    T v = mk<T>(x);
                    ok  = go(i, 's', [&] { a[i]->push_back(v); });
                    MON_CHECK(val(v) == val(mk<T>(x)), "C01:source-modified", "push_back of an lvalue changed it to %d", val(v));
                }
                else if(how == 2 && n > 0) {
                    long s = r.range(0, n - 1);
                    x      = m[i][s];
                    note("push_back(own element %ld)\n", s);
                    ok = go(i, 's', [&] { a[i]->push_back((*a[i])[s]); });
                }
                else if constexpr(std::is_convertible_v<int, T>) {
                    note("push_back(int %d)\n", x);
                    ok = go(i, 's', [&] { a[i]->push_back(x); });
                }
                else break;
            }
            if(ok) {
                m[i].push_back(x);
                inserted(n, 1, "push_back");
            }
            break;
        }
        case 16: case 17: {
            Vec v = values(cnt);
            note("push_back(%s of %d, %s)\n", op == 16 ? "iterators" : "range", cnt, source_name[kind]);
            bool ok = go(i, 'p', [&] {
                if(op == 16) with_source<T, false>(kind, v, [&](auto f, auto l) { a[i]->push_back(f, l); });
                else with_source<T, true>(kind, v, [&](auto&& c) { a[i]->push_back(c); });
            });
            if(ok) {
                m[i].insert(m[i].end(), v.begin(), v.end());
                inserted(n, (size_t)cnt, "push_back of a range");
            }
            break;
        }
        case 18: case 27: {
            bool ok = false;
            T* ref  = nullptr;
            if constexpr(std::is_convertible_v<int, T>) {
                note("emplace_back(%d)\n", x);
                ok = go(i, 's', [&] { ref = std::addressof(a[i]->emplace_back(x)); });
            }
            else {
                note("emplace_back(T %d)\n", x);
                ok = go(i, 's', [&] { ref = &a[i]->emplace_back(mk<T>(x)); });
            }
            if(ok) {
                m[i].push_back(x);
                MON_CHECK(ref == a[i]->data() + n, "C01:returned-reference", "emplace_back returned a reference to something else than the new element");
                inserted(n, 1, "emplace_back");
            }
            break;
        }
        case 19:
            if(n > 0) {
                note("pop_back\n");
                a[i]->pop_back();
                m[i].pop_back();
                if(!Faults) kept(i, before, n - 1, "pop_back");
            }
            break;
        case 20: case 26:
            if(n > 0) {
                p = r.range(0, n - 1);
                note("erase(%ld)\n", p);
                long got = p;
                if(go(i, 'e', [&] { got = where(a[i]->erase(at(p))); })) {
                    m[i].erase(m[i].begin() + p);
                    MON_CHECK(got == p, "C01:returned-iterator", "erase at %ld returned position %ld", p, got);
                    if(!Faults) kept(i, before, p, "erase");
                }
            }
            break;
        case 21: {
            long q = r.range(p, n);
            note("erase(%ld, %ld)\n", p, q);
            long got = p;
            if(go(i, 'e', [&] { got = where(a[i]->erase(at(p), at(q))); })) {
                m[i].erase(m[i].begin() + p, m[i].begin() + q);
                MON_CHECK(got == p, "C01:returned-iterator", "erase of [%ld, %ld) returned position %ld", p, q, got);
                if(!Faults) kept(i, before, p, "erase of a range");
            }
            break;
        }
        case 22:
            note("clear\n");
            a[i]->clear();
            m[i].clear();
            if(!Faults) kept(i, before, 0, "clear");
            break;
        case 23: {
            size_t c = (size_t)(r.chance(50) ? n + (long)r.below(8) : (long)r.below(20));
            note("reserve(%zu)\n", c);
            if(go(i, 's', [&] { a[i]->reserve(c); }) && !Faults) {
                MON_CHECK(a[i]->capacity() >= c && a[i]->capacity() >= before.cap, "C04:reserve", "reserve(%zu) of capacity %zu gave %zu", c, before.cap, a[i]->capacity());
                if(c <= before.cap) kept(i, before, n, "reserve");
                else {
                    // everything up to there fits now
                    Shot s = shot(i);
                    long limit = (long)c - n;
                    for(long k = 0; k < limit && k < 6; ++k) {
                        int y = fresh();
                        if(r.chance(50)) a[i]->push_back(mk<T>(y));
                        else a[i]->emplace_back(mk<T>(y));
                        m[i].push_back(y);
                    }
                    kept(i, s, n, "push_back after reserve");
                }
            }
            break;
        }
        case 24: {
            size_t c = (size_t)(r.chance(60) ? r.below(n + 6) : n + (long)r.below(8));
            note("resize(%zu)\n", c);
            if(go(i, 's', [&] { a[i]->resize(c); })) {
                if(m[i].size() > c) m[i].resize(c);
                if(!Faults) MON_CHECK(a[i]->capacity() == c, "C04:resize", "resize(%zu) of capacity %zu gave %zu", c, before.cap, a[i]->capacity());
            }
            break;
        }
        case 25:
            if(n > 0) {
                p = r.range(0, n - 1);
                note("[%ld] = %d\n", p, x);
                T v = mk<T>(x);
                if(go(i, 'i', [&] {
                       if(r.chance(50)) (*a[i])[p] = std::move(v);
                       else *(a[i]->begin() + p) = std::move(v);
                   })) m[i][p] = x;
            }
            break;
        }
    }

    void finish_case() {
        for(auto& x : a) x.reset();
        if constexpr(tracked)
            MON_CHECK(tr().live.empty(), Faults ? "C03:leak-or-loss" : "C02:leak-or-loss", "%zu elements alive after the arrays are destroyed", tr().live.size());
        if constexpr(watched)
            MON_CHECK(tr().blocks.empty(), Faults ? "C03:storage-leak" : "C02:storage-leak", "%zu blocks allocated after the arrays are destroyed", tr().blocks.size());
        tr().reset();
        tr().blocks.clear();
    }
    void history() {
        size_t before = st().violations.size();
        int steps     = (int)(10 + r.below(50));
        for(int k = 0; k < steps && !broken(before); ++k) {
            step([&](int, char, auto&& f) {
                f();
                return true;
            });
            judged();
            check_all();
            if(prop("C01")) iterators((int)r.below(K));
        }
        finish_case();
    }
    void faulty_history() {
        size_t before = st().violations.size();
        int steps     = (int)(10 + r.below(40));
        for(int k = 0; k < steps && !broken(before); ++k) {
            Vec saved[K];
            bool thrown = false;
            step([&](int i, char g, auto&& f) {
                for(int q = 0; q < K; ++q) saved[q] = m[q];
                bool block = r.chance(35), elem = !block && r.chance(80);
                // constructors of slots destroy the old content first
                if(g == 'n') block = elem = false;
                long nth = (long)(block ? r.below(2) : r.chance(50) ? r.below(4) : r.below(24));
                note("  [fail %s %ld]\n", block ? "allocation" : elem ? "element operation" : "nothing", nth);
                tr().arm(elem ? nth : -1, block ? nth : -1);
                bool is_alloc = false;
                try {
                    f();
                    bool fired = tr().fired;
                    tr().disarm();
                    MON_CHECK(!fired, "C03:exception-swallowed", "an injected failure never reached the caller");
                    return true;
                }
                catch(const Injected&) {}
                catch(const std::bad_alloc&) { is_alloc = true; }
                tr().disarm();
                thrown = true;
                count(is_alloc ? "allocation_failures_delivered" : "element_failures_delivered");
                seen(hash2(hash2((u64)g, is_alloc), hash2((u64)nth, m[i].size())));
                MON_CHECK(tr().fired, "C03:spurious-exception", "an exception nobody injected");
                if(!a[i]) {
                    a[i].emplace();
                    return false;
                }
                // what must be preserved
                constexpr bool safe_moves = !tracked || std::is_nothrow_move_constructible_v<T>;
                bool same   = (is_alloc && g != 'p') || (g == 's' && safe_moves);
                bool prefix = g == 'p' && (is_alloc || safe_moves);
                resync(i);
                if(same) MON_CHECK(m[i] == saved[i], "C03:strong-guarantee", "a failed operation (%c, %s) changed the array: %zu elements, before %zu", g,
                                   is_alloc ? "allocation" : "element", m[i].size(), saved[i].size());
                if(prefix)
                    MON_CHECK(m[i].size() >= saved[i].size() && std::equal(saved[i].begin(), saved[i].end(), m[i].begin()), "C03:previous-elements",
                              "a failed push of a range changed the previous elements");
                return false;
            });
            judged();
            check_all();
        }
        finish_case();
    }
};

template<typename T, typename A>
void group(const char* name, int percent = 100) {
    long n = st().cases * percent / 100;
    cases(name, n, [&](Rng& r, long) {
#ifdef FAULTS
        Rig<T, A, true> rig(r);
        rig.faulty_history();
#else
        Rig<T, A, false> rig(r);
        rig.history();
#endif
    });
}

// N pushes cost O(log N) allocations and O(N) moves
template<typename T>
void growth(const char* name) {
    using Arr = xme::Array<T, Alloc<T>>;
    cases(name, std::max(4l, st().cases / 20), [&](Rng& r, long idx) {
        long n = idx < 8 ? idx : r.range(8, 4000);
        {
            Arr a;
            int how = (int)r.below(3);
            if(r.chance(30)) a.reserve(r.below(20));
            if(r.chance(30)) a.resize(r.below(20));
            note("%ld pushes of kind %d from capacity %zu\n", n, how, a.capacity());
            long al = tr().allocs, ops = tr().copies + tr().moves + tr().copy_assigns + tr().move_assigns;
            bool in_order = true;
            for(long k = 0; k < n; ++k) {
                size_t cap = a.capacity(), size = a.size();
                const void* d = a.data();
                if(how == 0) a.push_back((int)k + 1);
                else if(how == 1) a.emplace_back((int)k + 1);
                else a.insert(a.end(), (int)k + 1);
                if(size < cap)
                    MON_CHECK(a.data() == d && a.capacity() == cap, "C04:reallocated", "push with size %zu and capacity %zu moved the storage", size, cap);
            }
            for(long k = 0; k < n; ++k) in_order &= val(a[k]) == (int)k + 1;
            MON_CHECK(in_order && (long)a.size() == n, "C01:content", "%ld pushes", n);
            double lg  = std::log2((double)n + 1);
            long got_a = tr().allocs - al, got_m = tr().copies + tr().moves + tr().copy_assigns + tr().move_assigns - ops;
            MON_CHECK(got_a <= 4 * lg + 8, "C04:allocations-not-logarithmic", "%ld pushes did %ld allocations", n, got_a);
            MON_CHECK(got_m <= 6 * n + 64, "C04:moves-not-linear", "%ld pushes did %ld element moves", n, got_m);
            count("pushes", n);
            seen(hash2((u64)n, (u64)how));
        }
        MON_CHECK(tr().live.empty() && tr().blocks.empty(), "C02:leak-or-loss", "after %ld pushes", n);
        tr().reset();
        tr().blocks.clear();
    });
}

#ifndef SET
#    define SET 0
#endif

int main(int argc, char** argv) {
    init(argc, argv);
    // what the tracker reports is about lifetime, unless failures are being injected
    source_prefix()   = "C01:";
    lifetime_prefix() = prop("C03") ? "C03:" : "C02:";
#if SET == 0
    group<int, std::allocator<int>>("int");
#elif SET == 1
    group<Plain, Alloc<Plain>>("plain");
#elif SET == 2
    group<std::string, TagAlloc<std::string>>("string");
#elif SET == 3
    group<Obj<k_copy | k_default>, Alloc<Obj<k_copy | k_default>>>("object");
#    ifndef FAULTS
    if(prop("C04")) growth<Obj<k_copy | k_default>>("growth");
#    endif
#elif SET == 4
    group<Obj<k_copy | k_throw_all>, TagAlloc<Obj<k_copy | k_throw_all>>>("object, throwing copies, stateful allocator");
#elif SET == 5
    group<Obj<0>, TagAlloc<Obj<0>>>("move only");
    group<Obj<k_throw_move | k_throw_all>, TagAlloc<Obj<k_throw_move | k_throw_all>>>("move only, throwing");
#elif SET == 6
    group<Obj<k_copy | k_align | k_throw_all>, Alloc<Obj<k_copy | k_align | k_throw_all>>>("over-aligned");
#elif SET == 7
    group<Obj<k_copy | k_throw_move | k_throw_all>, Alloc<Obj<k_copy | k_throw_move | k_throw_all>>>("throwing moves");
#endif
    return finish();
}
