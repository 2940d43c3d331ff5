// Runs xme::SPSCQueue between two threads, with delays injected through the element's constructor
// and destructor and the consumer's callback (C09; C10 in a ThreadSanitizer build; C11), and its
// sequential accounting and element lifetimes (C11, C12).
//
// What the threads record is thread local, and the only shared variables of the harness are
// accessed relaxed, so that it adds no synchronisation that would hide a race.
#include "../harness/track.hpp"
#include <atomic>
#include <deque>
#include <sched.h>
#include <thread>
#include <xme/container/spsc_queue.hpp>

using namespace mon;

// --- concurrent ------------------------------------------------------------------------------
struct Side {
    u64 rng       = 1;
    int delay     = 0;  // how often to delay inside of element operations, in 1/256
    long made     = 0, gone = 0;
    u64 last_gone = 0;  // sequence number of the last destroyed element
    long bad      = 0;
    const char* what = nullptr;
    u64 next() {
        rng ^= rng << 13;
        rng ^= rng >> 7;
        rng ^= rng << 17;
        return rng;
    }
    void pause() {
        if(delay == 0 || (int)(next() & 255) >= delay) return;
        switch(next() & 7) {
        case 0: sched_yield(); break;
        case 1: {
            timespec t{0, (long)(next() & 0x3fff)};
            nanosleep(&t, nullptr);
            break;
        }
        default:
            for(volatile int k = 0; k < (int)(delay * 4); k = k + 1) {}
        }
    }
};
static thread_local Side* me = nullptr;

struct Msg {
    u64 seq;
    u64 check;
    u64* heap;
    Msg(u64 s) {
        ++me->made;
        seq = s;
        me->pause();
        heap  = new u64(~s);
        check = mix(s);
        me->pause();  // constructed, but not published yet
    }
    Msg(Msg&& o) noexcept {
        ++me->made;
        seq    = o.seq;
        check  = o.check;
        heap   = o.heap;
        o.heap = nullptr;
    }
    ~Msg() {
        ++me->gone;
        me->last_gone = seq;
        delete heap;
        me->pause();
        seq   = 0;
        check = 0xDEAD;
        heap  = nullptr;
        me->pause();  // destroyed, but the slot isn't free yet
    }
    bool sane() const { return check == mix(seq) && heap && *heap == ~seq; }
};
static u64 seq_of(const Msg& m) { return m.seq; }
static bool sane(const Msg& m) { return m.sane(); }
static u64 seq_of(u64 v) { return v; }
static bool sane(u64) { return true; }
struct Wide {  // trivial, spans cache lines
    u64 w[20];
    Wide(u64 s) {
        for(auto& x : w) x = s;
    }
};
static u64 seq_of(const Wide& v) { return v.w[0]; }
static bool sane(const Wide& v) {
    for(u64 x : v.w)
        if(x != v.w[0]) return false;
    return true;
}

template<typename T, typename Q, typename Make>
void transfer(Rng& r, size_t N, Make make) {
    constexpr bool counts = std::is_same_v<T, Msg>;
    const long attempts   = (long)(100 + r.below(r.chance(20) ? 4000 : 600));
    const int style       = (int)r.below(6);
    Side prod, cons, here;
    prod.rng   = r.next() | 1;
    cons.rng   = r.next() | 1;
    prod.delay = style == 0 ? 0 : style == 1 ? 200 : style == 2 ? 10 : (int)r.below(256);
    cons.delay = style == 0 ? 0 : style == 1 ? 10 : style == 2 ? 200 : (int)r.below(256);
    here.rng   = 1;
    note("capacity %zu, %ld attempts, delays %d %d\n", N, attempts, prod.delay, cons.delay);
    me = &here;
    struct Out {
        long pushed = 0, refused = 0, taken = 0, empty = 0, popped = 0, batches = 0;
        std::string key, detail;
        std::vector<u64> states;
        void fail(const char* k, std::string d) {
            if(key.empty()) {
                key    = k;
                detail = std::move(d);
            }
        }
    } po, co;
    std::vector<u64> side(attempts + 1, 0);
    long left_over = 0;
    {
        auto holder = make(N);
        Q& q        = *holder;
        std::atomic<bool> done{false};
        std::atomic<int> started{0};

        std::thread producer([&] {
            me = &prod;
            started.fetch_add(1, std::memory_order_relaxed);
            while(started.load(std::memory_order_relaxed) < 2) {}
            u64 seq     = 0;
            long budget = 0;  // pushes that were promised to succeed
            for(long k = 0; k < attempts && po.key.empty(); ++k) {
                if(budget == 0 && (prod.next() & 3) == 0) {
                    size_t room = q.write_available();
                    if(room > N - 1) po.fail("C11:write-available-too-big", fmt("%zu of capacity %zu", room, N));
                    budget = (long)room;
                    po.states.push_back(hash2(room, hash2((u64)(po.pushed % (long)N), 1)));
                    ++po.batches;
                }
                ++seq;
                side[seq] = seq * 3;  // published by the push
                bool ok   = (prod.next() & 1) ? q.emplace(seq) : q.push(T(seq));
                if(ok) ++po.pushed;
                else {
                    ++po.refused;
                    if(budget > 0) po.fail("C11:promised-push-refused", fmt("write_available() promised %ld more pushes, after %ld", budget, po.pushed));
                    --seq;
                    if((prod.next() & 7) == 0) sched_yield();
                }
                if(budget > 0) --budget;
                prod.pause();
            }
            done.store(true, std::memory_order_relaxed);
        });
        std::thread consumer([&] {
            me = &cons;
            started.fetch_add(1, std::memory_order_relaxed);
            while(started.load(std::memory_order_relaxed) < 2) {}
            u64 expected = 1;
            size_t seen_ = 0, last_n = ~size_t(0);
            while(!done.load(std::memory_order_relaxed) && co.key.empty()) {
                size_t n = q.read_available();
                if(n > N - 1) co.fail("C11:read-available-too-big", fmt("%zu of capacity %zu", n, N));
                if(n < seen_) co.fail("C11:read-available-shrinks", fmt("%zu after %zu, without taking", n, seen_));
                if(n != last_n) co.states.push_back(hash2(n, hash2((u64)(co.taken % (long)N), 2)));
                last_n = n;
                if(n == 0) {
                    ++co.empty;
                    seen_ = 0;
                    if((cons.next() & 7) == 0) sched_yield();
                    continue;
                }
                size_t take = (cons.next() & 1) ? n : 1 + cons.next() % n;
                for(size_t k = 0; k < take && co.key.empty(); ++k) {
                    if((cons.next() & 3) == 0) {
                        long gone = cons.gone;
                        q.pop();
                        if(counts) {
                            if(cons.gone != gone + 1) co.fail("C09:pop-destroys", fmt("pop destroyed %ld elements", cons.gone - gone));
                            else if(cons.last_gone != expected)
                                co.fail("C09:order", fmt("pop took element %llu instead of %llu", (unsigned long long)cons.last_gone, (unsigned long long)expected));
                        }
                        ++co.popped;
                    }
                    else {
                        int calls = 0;
                        u64 got   = 0;
                        bool fine = true;
                        bool move = cons.next() & 1;
                        q.consume([&](T&& v) {
                            ++calls;
                            cons.pause();
                            if(move) {
                                T mine = std::move(v);
                                got    = seq_of(mine);
                                fine   = sane(mine);
                            }
                            else {
                                got  = seq_of(v);
                                fine = sane(v);
                            }
                            cons.pause();
                        });
                        if(calls != 1) co.fail("C09:callback-calls", fmt("consume called the callback %d times", calls));
                        if(!fine) co.fail("C09:value", fmt("element %llu arrived damaged", (unsigned long long)got));
                        if(got != expected)
                            co.fail("C09:order", fmt("consume delivered element %llu instead of %llu", (unsigned long long)got, (unsigned long long)expected));
                        else if(side[got] != got * 3) co.fail("C09:publication", fmt("what was written before the push of %llu isn't visible", (unsigned long long)got));
                    }
                    ++expected;
                    ++co.taken;
                    cons.pause();
                }
                seen_ = n - take;
            }
        });
        producer.join();
        consumer.join();
        for(auto* o : {&po, &co})
            if(!o->key.empty()) violation(o->key, o->detail);
        judged(po.pushed + po.refused + co.taken);
        count("pushes", po.pushed);
        count("pushes_refused_full", po.refused);
        count("taken_concurrently", co.taken);
        count("found_empty", co.empty);
        count("promises_by_write_available", po.batches);
        for(auto* o : {&po, &co})
            for(u64 s : o->states) seen(hash2(s, N));
        if(po.key.empty() && co.key.empty()) {
            // quiescent: exactly the rest is there
            left_over = po.pushed - co.taken;
            MON_CHECK((long)q.read_available() == left_over && (long)q.write_available() == (long)N - 1 - left_over, "C11:quiescent",
                      "%ld pushed, %ld taken: read_available %zu, write_available %zu of %zu", po.pushed, co.taken, q.read_available(), q.write_available(), N);
            u64 expected = (u64)co.taken + 1;
            long drain   = r.chance(50) ? left_over : (long)r.below(left_over + 1);
            for(long k = 0; k < drain && q.read_available() > 0; ++k) {
                u64 got = 0;
                q.consume([&](T&& v) { got = seq_of(v); });
                MON_CHECK(got == expected, "C09:rest", "the rest starts with %llu instead of %llu", (unsigned long long)got, (unsigned long long)expected);
                ++expected;
            }
            MON_CHECK((long)q.read_available() == left_over - drain, "C09:rest", "%zu left instead of %ld", q.read_available(), left_over - drain);
            // and exactly the free slots accept elements
            long room = (long)N - 1 - (left_over - drain), ok = 0;
            for(long k = 0; k < room + 2; ++k) ok += q.emplace(po.pushed + 1 + k);
            MON_CHECK(ok == room, "C11:room", "%ld pushes succeeded with room for %ld", ok, room);
        }
    }
    if(counts) {
        long made = prod.made + cons.made + here.made, gone = prod.gone + cons.gone + here.gone;
        MON_CHECK(made == gone, "C12:leak-or-loss", "%ld elements constructed, %ld destroyed", made, gone);
    }
}

template<typename T, size_t N>
void statics(const char* name, int percent) {
    cases(name, std::max(2l, st().cases * percent / 100), [&](Rng& r, long) {
        using Q = xme::SPSCQueue<T, xme::Capacity<N>>;
        transfer<T, Q>(r, N, [](size_t) { return std::make_unique<Q>(); });
    });
}
template<typename T>
void dynamics(const char* name, int percent) {
    cases(name, std::max(2l, st().cases * percent / 100), [&](Rng& r, long) {
        using Q  = xme::SPSCQueue<T>;
        size_t n = size_t(2) << r.below(7);
        transfer<T, Q>(r, n, [](size_t c) { return std::make_unique<Q>(c); });
    });
}

// --- sequential --------------------------------------------------------------------------------
// Every ring position and fill level
template<typename Make>
void accounting(const char* name, size_t N, Make make) {
    cases(name, 1, [&](Rng&, long) {
        for(size_t start = 0; start < N; ++start)
            for(size_t fill = 0; fill < N; ++fill) {
                auto q = make(N);
                for(size_t k = 0; k < start && N > 1; ++k) {
                    MON_CHECK(q->push(-1), "C11:refused", "capacity %zu: push on an empty queue at position %zu", N, k);
                    q->pop();
                }
                for(size_t k = 0; k < fill; ++k)
                    MON_CHECK(q->emplace((int)k), "C11:refused", "capacity %zu, start %zu: push with %zu elements", N, start, k);
                MON_CHECK(q->read_available() == fill && q->write_available() == N - 1 - fill, "C11:accounting", "capacity %zu, start %zu, fill %zu: %zu and %zu", N,
                          start, fill, q->read_available(), q->write_available());
                const auto& c = *q;
                MON_CHECK(c.read_available() + c.write_available() == N - 1, "C11:accounting", "capacity %zu, start %zu, fill %zu", N, start, fill);
                if(fill == N - 1) {
                    MON_CHECK(!q->push(77) && !q->emplace(78), "C11:overfull", "capacity %zu, start %zu: accepted more than %zu", N, start, N - 1);
                    MON_CHECK(q->read_available() == fill, "C11:overfull", "a refused push changed read_available");
                }
                for(size_t k = 0; k < fill; ++k) {
                    int got = -2;
                    if(q->read_available() == 0) break;
                    q->consume([&](int&& v) { got = v; });
                    MON_CHECK(got == (int)k, "C11:content", "capacity %zu, start %zu: element %zu is %d", N, start, k, got);
                }
                judged();
                seen(hash2(start, hash2(fill, N)));
            }
    });
}

// Random histories with tracked elements and injected failures
template<typename T, typename Q, typename Make>
void lifetimes(const char* name, Make make) {
    constexpr bool copies = std::is_copy_constructible_v<T>;
    cases(name, st().cases, [&](Rng& r, long) {
        {
            auto [q, N] = make(r);
            std::deque<int> model;
            int next  = 0;
            int steps = (int)(5 + r.below(60));
            size_t bad = st().violations.size();
            note("capacity %zu\n", N);
            for(int k = 0; k < steps && st().violations.size() == bad; ++k) {
                judged();
                seen(hash2(hash2(model.size(), N), hash2((u64)(next % (int)(N ? N : 1)), r.s % 8)));
                if(r.chance(55)) {
                    int x     = ++next;
                    int how   = (int)r.below(4);
                    bool fail = r.chance(15), full = model.size() == N - 1;
                    note("push %d how %d%s\n", x, how, fail ? " failing" : "");
                    T item  = mk<T>(x);
                    bool ok = false, thrown = false;
                    size_t alive = tr().live.size();
                    long ops     = tr().element_ops();
                    if(fail) tr().arm(0, -1);
                    try {
                        if(how == 0) ok = q->push(std::move(item));
                        else if(how == 1) ok = q->emplace(std::move(item));
                        else if constexpr(copies) ok = how == 2 ? q->push(item) : q->emplace(item);
                        else if constexpr(std::is_convertible_v<int, T>) ok = how == 2 ? q->push(x) : q->emplace(x);
                    }
                    catch(const Injected&) { thrown = true; }
                    bool fired = tr().fired && fail;
                    tr().disarm();
                    MON_CHECK(fired == thrown, "C12:exception-swallowed", "an injected failure never reached the caller");
                    if(thrown) {
                        count("failures_delivered");
                        MON_CHECK(!full, "C12:constructs-when-full", "a push on a full queue constructed an element");
                    }
                    else MON_CHECK(ok == !full, "C11:refused", "push returned %d with %zu of %zu elements", ok, model.size(), N - 1);
                    if(ok) model.push_back(x);
                    if constexpr(is_tracked<T>) {
                        MON_CHECK(tr().live.size() == alive + (ok ? 1 : 0), "C12:push-lifetime", "a push (%s) changed the number of elements from %zu to %zu",
                                  ok ? "accepted" : thrown ? "failed" : "refused", alive, tr().live.size());
                        if(!thrown) MON_CHECK(tr().element_ops() == ops + (ok ? 1 : 0), "C12:push-constructions", "a push (%s) did %ld element operations",
                                              ok ? "accepted" : "refused", tr().element_ops() - ops);
                        if(!ok && !thrown) MON_CHECK(val(item) == x, "C09:refused-push-took-element", "a refused push changed its argument");
                    }
                }
                else if(!model.empty()) {
                    int how      = (int)r.below(4);
                    size_t alive = tr().live.size();
                    long dead    = tr().dtors;
                    note("take how %d\n", how);
                    bool thrown = false;
                    if(how == 0) q->pop();
                    else {
                        int got = -1, calls = 0;
                        try {
                            q->consume([&](T&& v) {
                                ++calls;
                                got = val(v);
                                if(how == 1) throw Injected{2};
                                if(how == 2) { T mine(std::move(v)); }
                            });
                        }
                        catch(const Injected&) { thrown = true; }
                        if(thrown) count("callback_failures_delivered");
                        MON_CHECK(thrown == (how == 1), "C12:exception-swallowed", "the callback's exception never reached the caller");
                        MON_CHECK(calls == 1 && got == val(mk<T>(model.front())), "C12:consumed", "consume delivered %d instead of %d, in %d calls", got, model.front(), calls);
                    }
                    if(!thrown) model.pop_front();
                    if constexpr(is_tracked<T>) {
                        MON_CHECK(tr().live.size() == alive - (thrown ? 0 : 1), "C12:take-lifetime", "taking an element (%d) changed the number of elements from %zu to %zu", how,
                                  alive, tr().live.size());
                        (void)dead;
                    }
                }
                MON_CHECK(q->read_available() == model.size(), "C12:held", "read_available %zu, model %zu", q->read_available(), model.size());
                if constexpr(is_tracked<T>)
                    MON_CHECK(tr().live.size() == model.size(), "C12:leak-or-loss", "%zu elements alive, the queue holds %zu", tr().live.size(), model.size());
            }
            note("destroyed with %zu elements\n", model.size());
            seen(hash2(model.size(), hash2(N, (u64)next % N)));
        }
        MON_CHECK(tr().live.empty(), "C12:leak-or-loss", "%zu elements alive after the queue is destroyed", tr().live.size());
        MON_CHECK(tr().blocks.empty(), "C12:storage-leak", "%zu blocks left", tr().blocks.size());
        tr().reset();
        tr().blocks.clear();
    });
}

// Elements that can be neither copied nor moved live where they were pushed, from push to pop
static long fixed_alive = 0;
struct Fixed {
    const Fixed* self = this;
    std::unique_ptr<int> v;
    int twice;
    Fixed(int x) : v(new int(x)), twice(2 * x) { ++fixed_alive; }
    Fixed(int x, std::unique_ptr<int>&& more) : v(std::move(more)), twice(2 * x) { ++fixed_alive; }
    Fixed(Fixed&&) = delete;
    ~Fixed() { --fixed_alive; self = nullptr; }
};
template<typename Make>
void immovable(const char* name, Make make) {
    cases(name, st().cases, [&](Rng& r, long) {
        auto [q, N] = make(r);
        std::deque<int> model;
        int next = 0;
        note("capacity %zu\n", N);
        auto right = [](const Fixed& f, int x) { return f.self == &f && f.v && *f.v == x && f.twice == 2 * x; };
        for(long k = 0, steps = r.range(5, 60); k < steps; ++k) {
            judged();
            if(r.chance(55)) {
                const int x = ++next;
                auto more   = std::make_unique<int>(x);
                const bool one = r.chance(50);
                const bool ok  = one ? q->emplace(x) : q->emplace(x, std::move(more));
                note("emplace %d %d\n", x, ok);
                MON_CHECK(ok == (model.size() < N - 1), "C11:refused", "emplace returned %d with %zu of %zu elements", ok, model.size(), N - 1);
                MON_CHECK(one || ok == !more, "C09:refused-push-took-element", "an emplace that returned %d %s its argument", ok, more ? "left" : "took");
                if(ok) model.push_back(x);
            }
            else if(!model.empty()) {
                const int how = (int)r.below(5);
                bool thrown = false, good = false;
                note("take how %d\n", how);
                try {
                    if(how == 0) q->pop(), good = true;
                    else if(how == 1) q->consume([&](Fixed&& f) { good = right(f, model.front()); });
                    else if(how == 2) q->consume([&](const Fixed& f) { good = right(f, model.front()); });
                    else
                        q->consume([&](const Fixed& f) {  // looks at it and leaves it there
                            good = right(f, model.front());
                            throw Injected{2};
                        });
                }
                catch(const Injected&) { thrown = true; }
                MON_CHECK(good, "C09:value", "an element that can't move isn't what was pushed (how %d)", how);
                MON_CHECK(thrown == (how > 2), "C12:exception-swallowed", "the callback's exception never reached the caller");
                if(!thrown) model.pop_front();
            }
            seen(hash2(hash2(model.size(), N), (u64)next % N));
            MON_CHECK(q->read_available() == model.size() && fixed_alive == (long)model.size(), "C12:leak-or-loss", "%ld elements alive, %zu available, %zu pushed",
                      fixed_alive, q->read_available(), model.size());
        }
        q.reset();
        MON_CHECK(fixed_alive == 0, "C12:leak-or-loss", "%ld elements alive after the queue is destroyed", fixed_alive);
        fixed_alive = 0;
    });
}

int main(int argc, char** argv) {
    init(argc, argv);
    lifetime_prefix() = "C12:";
#ifdef CONCURRENT
    statics<Msg, 2>("message, static 2", 50);
    statics<Msg, 4>("message, static 4", 100);
    statics<Msg, 16>("message, static 16", 100);
    dynamics<Msg>("message, dynamic", 150);
    statics<u64, 8>("integer, static 8", 60);
    dynamics<u64>("integer, dynamic", 60);
    statics<Wide, 4>("wide, static 4", 50);
#else
    if(prop("C11")) {
        auto make = [](size_t n) { return std::make_unique<xme::SPSCQueue<int>>(n); };
        for(size_t n : {1, 2, 4, 8, 16, 32, 64}) accounting(fmt("dynamic %zu", n).c_str(), n, make);
        auto fixed = [&]<size_t N>() {
            accounting(fmt("static %zu", N).c_str(), N, [](size_t) { return std::make_unique<xme::SPSCQueue<int, xme::Capacity<N>>>(); });
        };
        fixed.template operator()<1>();
        fixed.template operator()<2>();
        fixed.template operator()<4>();
        fixed.template operator()<8>();
        fixed.template operator()<32>();
    }
    if(!prop("C10")) {
        using O = Obj<k_copy | k_throw_all>;
        using M = Obj<k_throw_move | k_throw_all>;
        using G = Obj<k_copy | k_align | k_throw_all>;
        immovable("immovable dynamic", [](Rng& r) {
            const size_t n = size_t(2) << r.below(4);
            return std::pair(std::make_unique<xme::SPSCQueue<Fixed>>(n), n);
        });
        immovable("immovable static 4", [](Rng&) { return std::pair(std::make_unique<xme::SPSCQueue<Fixed, xme::Capacity<4>>>(), size_t(4)); });
        auto dyn = [](auto* t, auto* a) {
            using Q = xme::SPSCQueue<std::remove_pointer_t<decltype(t)>, std::remove_pointer_t<decltype(a)>>;
            return [](Rng& r) {
                size_t n = size_t(2) << r.below(4);
                return std::pair(std::make_unique<Q>(n), n);
            };
        };
        lifetimes<O, xme::SPSCQueue<O, Alloc<O>>>("object dynamic", dyn((O*)0, (Alloc<O>*)0));
        lifetimes<M, xme::SPSCQueue<M, Alloc<M>>>("move only dynamic", dyn((M*)0, (Alloc<M>*)0));
        lifetimes<G, xme::SPSCQueue<G, Alloc<G>>>("over-aligned dynamic", dyn((G*)0, (Alloc<G>*)0));
        lifetimes<std::string, xme::SPSCQueue<std::string>>("string dynamic", dyn((std::string*)0, (std::allocator<std::string>*)0));
        lifetimes<O, xme::SPSCQueue<O, xme::Capacity<4>>>("object static 4", [](Rng&) { return std::pair(std::make_unique<xme::SPSCQueue<O, xme::Capacity<4>>>(), size_t(4)); });
        lifetimes<G, xme::SPSCQueue<G, xme::Capacity<8>>>("over-aligned static 8", [](Rng&) { return std::pair(std::make_unique<xme::SPSCQueue<G, xme::Capacity<8>>>(), size_t(8)); });
        lifetimes<M, xme::SPSCQueue<M, xme::Capacity<2>>>("move only static 2", [](Rng&) { return std::pair(std::make_unique<xme::SPSCQueue<M, xme::Capacity<2>>>(), size_t(2)); });
    }
#endif
    return finish();
}
