// Stops one side of xme::SPSCQueue at an arbitrary instruction, inside of an element operation or
// inside of a callback, and watches that the other side still finishes everything it starts (C44).
//
// Nothing here allocates while a thread may be stopped, as the allocator may wait for it.
#include "../harness/mon.hpp"
#include <atomic>
#include <ctime>
#include <memory>
#include <pthread.h>
#include <sys/resource.h>
#include <thread>
#include <ucontext.h>
#include <xme/container/spsc_queue.hpp>

using namespace mon;

static double now() {
    timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return (double)t.tv_sec + (double)t.tv_nsec * 1e-9;
}
static void nap(long ns) {
    timespec t{0, ns};
    nanosleep(&t, nullptr);
}
constexpr double patience = 10;  // seconds without an end of a call that takes nanoseconds

// --- stopping a thread -----------------------------------------------------------------------
static std::atomic<int> stop_here{0}, stopped{0};
static std::atomic<u64> stopped_at{0};
static thread_local volatile int inside = 0;
static std::atomic<int> stopped_inside{0};
static void handler(int, siginfo_t*, void* context) {
    int e = errno;
#if defined(__x86_64__)
    stopped_at.store((u64)((ucontext_t*)context)->uc_mcontext.gregs[REG_RIP], std::memory_order_relaxed);
#endif
    stopped_inside.store(inside);
    stopped.store(1);
    while(stop_here.load()) nap(2000);
    stopped.store(0);
    errno = e;
}

// --- elements that own nothing ---------------------------------------------------------------
struct Item {
    u64 seq, check;
    Item(u64 s) : seq(s), check(mix(s)) {}
    Item(const Item& o) : seq(o.seq), check(o.check) {}
    ~Item() {
        seq   = 0;
        check = 1;
    }
};
static u64 seq_of(const Item& i) { return i.check == mix(i.seq) ? i.seq : ~u64(0); }
static u64 seq_of(u64 v) { return v; }

struct Shared {
    std::atomic<u64> calls{0};   // finished by the side that keeps running
    std::atomic<int> busy{0};    // it is in one
    std::atomic<int> over{0}, quit{0};
    u64 pushed = 0, refused = 0, taken = 0;  // written by one side each
    std::atomic<int> failed{0};
    const char* key = nullptr;
    char detail[200];
    void fail(const char* k, const char* f, u64 a = 0, u64 b = 0) {
        int zero = 0;
        if(!failed.compare_exchange_strong(zero, 1)) return;
        snprintf(detail, sizeof detail, f, (unsigned long long)a, (unsigned long long)b);
        key = k;
        failed.store(2);
    }
};

template<typename T, typename Q>
bool push_one(Q& q, Shared& s, u64 how) {
    bool ok = how & 1 ? q.emplace(s.pushed + 1) : q.push(T(s.pushed + 1));
    if(ok) ++s.pushed;
    else ++s.refused;
    return ok;
}
template<typename T, typename Q>
void take_one(Q& q, Shared& s, u64 how) {
    if(how & 1) q.pop();
    else {
        u64 got = 0;
        q.consume([&](T&& v) { got = seq_of(v); });
        if(got != s.taken + 1) s.fail("C09:order", "element %llu instead of %llu", got, s.taken + 1);
    }
    ++s.taken;
}

// Runs `work` in a thread, and watches it. `release` lets the stopped thread go on.
template<typename Work, typename Release>
bool watched(Shared& s, Work&& work, Release&& release, const char* what) {
    s.over.store(0);
    std::thread t([&] {
        work();
        s.over.store(1);
    });
    u64 last     = s.calls.load();
    double since = now();
    bool stuck   = false;
    while(!s.over.load()) {
        nap(stuck ? 1000000 : 100000);
        u64 c = s.calls.load();
        if(c != last || !s.busy.load() || !stopped.load()) {
            last  = c;
            since = now();
            if(stuck) break;
            continue;
        }
        if(!stuck && now() - since > patience) {
            stuck = true;
            release();
            double t0 = now();
            while(!s.over.load() && s.calls.load() == last && now() - t0 < patience) nap(1000000);
            violation("waits", fmt("%s: a call didn't end in %.0f s while the other side was stopped, and %s when it went on", what, patience,
                                   s.over.load() || s.calls.load() != last ? "did" : "didn't"));
            s.quit.store(1);
            break;
        }
    }
    if(stuck) {
        release();
        double t0 = now();
        while(!s.over.load() && now() - t0 < 2 * patience) nap(1000000);
        // one is enough: every further one takes as long
        finish();
        _exit(10);
    }
    t.join();
    return !stuck;
}

// One side runs freely and is stopped again and again by the other.
template<typename T, typename Q>
void parked(Rng& r, Q& q, size_t N, int rounds) {
    const bool stop_consumer = r.chance(50);
    Shared s;
    std::atomic<int> ready{0};
    u64 vseed = r.next();
    note("capacity %zu, the %s is stopped %d times\n", N, stop_consumer ? "consumer" : "producer", rounds);
    std::thread victim([&] {
        Rng mine(vseed);
        ready.store(1);
        while(!s.quit.load(std::memory_order_relaxed)) {
            u64 how = mine.next();
            if(stop_consumer) {
                inside   = 1;
                size_t n = q.read_available();
                if(n) take_one<T>(q, s, how);
                inside = 0;
            }
            else {
                inside = 1;
                if((how & 6) == 0) (void)q.write_available();
                push_one<T>(q, s, how);
                inside = 0;
            }
        }
        ready.store(2);
    });
    while(!ready.load()) nap(1000);
    std::vector<u64> points;
    points.reserve(rounds);
    long in = 0;
    u64 wseed = r.next();
    auto release = [&] { stop_here.store(0); };
    watched(s, [&] {
        Rng mine(wseed);
        auto call = [&](auto&& f) {
            s.busy.store(1);
            f();
            s.busy.store(0);
            s.calls.fetch_add(1);
        };
        for(int k = 0; k < rounds && !s.quit.load() && !s.failed.load(); ++k) {
            // some traffic, while both run
            for(u64 n = mine.below(30); n > 0; --n) {
                if(stop_consumer) push_one<T>(q, s, mine.next());
                else if(q.read_available()) take_one<T>(q, s, mine.next());
            }
            for(volatile u64 spin = mine.below(300); spin > 0; spin = spin - 1) {}
            stop_here.store(1);
            pthread_kill(victim.native_handle(), SIGUSR1);
            while(!stopped.load()) {}
            points.push_back(stopped_at.load());
            in += stopped_inside.load();
            // the other side stands still, so what is available is known exactly
            if(stop_consumer) {
                size_t room = 0;
                call([&] { room = q.write_available(); });
                if(room > N - 1) s.fail("C11:write-available-too-big", "%llu of capacity %llu", room, N);
                bool ok = true;
                for(size_t j = 0; j < room && ok; ++j) call([&] { ok = push_one<T>(q, s, mine.next()); });
                if(!ok) s.fail("C11:promised-push-refused", "with the consumer stopped and room for %llu of capacity %llu", room, N);
                for(int j = 0; j < 3; ++j) {
                    call([&] { ok = push_one<T>(q, s, mine.next()); });
                    if(ok) s.fail("C11:overfull", "more than the room for %llu, capacity %llu", room, N);
                }
            }
            else {
                size_t n = 0;
                call([&] { n = q.read_available(); });
                if(n > N - 1) s.fail("C11:read-available-too-big", "%llu of capacity %llu", n, N);
                for(size_t j = 0; j < n && !s.failed.load(); ++j) call([&] { take_one<T>(q, s, mine.next()); });
                size_t left = 0;
                call([&] { left = q.read_available(); });
                if(left) s.fail("C11:quiescent", "%llu left of %llu, with the producer stopped", left, n);
            }
            stop_here.store(0);
            while(stopped.load()) {}
        }
        s.quit.store(1);
    }, release, stop_consumer ? "consumer stopped anywhere" : "producer stopped anywhere");
    stop_here.store(0);
    s.quit.store(1);
    victim.join();
    if(s.failed.load() == 2) violation(s.key, s.detail);
    for(u64 p : points) seen(p - (u64)&handler);
    judged((long)s.calls.load());
    count("times_stopped", (long)points.size());
    count("stopped_in_a_call", in);
    count(stop_consumer ? "calls_with_consumer_stopped" : "calls_with_producer_stopped", (long)s.calls.load());
    // everything arrives, in order
    while(!s.failed.load() && q.read_available()) take_one<T>(q, s, 0);
    if(s.failed.load() == 2 && st().violations.empty()) violation(s.key, s.detail);
    MON_CHECK(s.failed.load() || s.pushed == s.taken, "C09:rest", "%llu pushed, %llu taken", (unsigned long long)s.pushed, (unsigned long long)s.taken);
}

// --- stopped in an element operation or callback ------------------------------------------------
static thread_local std::atomic<int>* gate = nullptr;  // 1: stop at the next element operation, 2: stopped, 0: go on
static void pass() {
    int one = 1;
    if(!gate || !gate->compare_exchange_strong(one, 2)) return;
    stopped.store(1);
    while(gate->load() == 2) nap(1000);
    stopped.store(0);
}
struct Slow {
    u64 seq;
    Slow(u64 s) : seq(s) { pass(); }
    Slow(Slow&& o) : seq(o.seq) { pass(); }
    ~Slow() {
        pass();
        seq = 0;
    }
};
static u64 seq_of(const Slow& v) { return v.seq; }

template<typename Q>
void gated(Rng& r, Q& q, size_t N, int rounds) {
    const bool stop_consumer = r.chance(50);
    Shared s;
    std::atomic<int> g{0};
    std::atomic<int> go{0}, ended{0};
    u64 vseed = r.next(), wseed = r.next();
    note("capacity %zu, the %s is stopped in %d element operations\n", N, stop_consumer ? "consumer" : "producer", rounds);
    std::thread victim([&] {
        Rng mine(vseed);
        gate = &g;
        while(!s.quit.load()) {
            if(!go.load()) {
                nap(1000);
                continue;
            }
            if(stop_consumer) {
                if(mine.next() & 1) q.pop();
                else q.consume([&](Slow&& v) {
                    if(mine.next() & 1) pass();
                    if(v.seq != s.taken + 1) s.fail("C09:order", "element %llu instead of %llu", v.seq, s.taken + 1);
                });
                ++s.taken;
            }
            else {
                bool ok = mine.next() & 1 ? q.emplace(s.pushed + 1) : q.push(Slow(s.pushed + 1));
                if(ok) ++s.pushed;
                else s.fail("C11:refused", "push with room");
            }
            go.store(0);
            ended.fetch_add(1);
        }
    });
    auto release = [&] { g.store(0); };
    watched(s, [&] {
        Rng mine(wseed);
        auto call = [&](auto&& f) {
            s.busy.store(1);
            f();
            s.busy.store(0);
            s.calls.fetch_add(1);
        };
        for(int k = 0; k < rounds && !s.quit.load() && !s.failed.load(); ++k) {
            // any fill level that lets the other side work
            size_t held = q.read_available();
            size_t want = stop_consumer ? 1 + mine.below(N - 1) : mine.below(N - 1);
            if(stop_consumer) for(; held < want; ++held) push_one<Slow>(q, s, mine.next());
            else for(; held > want; --held) take_one<Slow>(q, s, mine.next());
            held = q.read_available();
            if(stop_consumer ? held == 0 : held == N - 1) continue;
            int before = ended.load();
            g.store(1);
            go.store(1);
            while(g.load() != 2 && ended.load() == before) {}
            if(g.load() == 2) {
                count("stopped_in_an_element_operation");
                seen(hash2(held, hash2(N, stop_consumer)));
                if(stop_consumer) {
                    // the slot in use isn't free yet
                    bool ok = true;
                    for(size_t j = held; j < N - 1 && ok; ++j) call([&] { ok = push_one<Slow>(q, s, mine.next()); });
                    if(!ok) s.fail("C11:promised-push-refused", "with %llu of capacity %llu held and the consumer stopped", held, N);
                    call([&] { ok = push_one<Slow>(q, s, mine.next()); });
                    if(ok) s.fail("C11:overfull", "pushed into the slot being taken, capacity %llu", N);
                }
                else {
                    size_t n = 0;
                    call([&] { n = q.read_available(); });
                    if(n != held) s.fail("C11:accounting", "%llu available instead of %llu while the producer is constructing", n, held);
                    for(size_t j = 0; j < n && !s.failed.load(); ++j) call([&] { take_one<Slow>(q, s, mine.next()); });
                }
            }
            g.store(0);
            while(ended.load() == before && !s.quit.load()) {}
        }
        s.quit.store(1);
    }, release, stop_consumer ? "consumer stopped in an element operation" : "producer stopped in an element operation");
    g.store(0);
    s.quit.store(1);
    victim.join();
    if(s.failed.load() == 2) violation(s.key, s.detail);
    judged((long)s.calls.load());
}

// A side alone never blocks in the kernel, nor does a refused push.
template<typename T, typename Q>
void alone(Q& q, size_t N) {
    constexpr long rounds = 2000;
    Shared s;
    auto blocks = [] {
        rusage u;
        getrusage(RUSAGE_THREAD, &u);
        return u.ru_nvcsw;
    };
    auto is_quiet = [&](const char* what, auto&& f) {
        long b = blocks();
        for(long k = 0; k < rounds; ++k) f(k);
        b = blocks() - b;
        judged(rounds);
        MON_CHECK(b < rounds / 10, "blocks", "%s: %ld calls blocked %ld times", what, rounds, b);
        seen(hash2(hash_str(what), N));
    };
    while(push_one<T>(q, s, 0)) {}
    is_quiet("push on a full queue", [&](long k) { push_one<T>(q, s, (u64)k); });
    is_quiet("write_available of a full queue", [&](long) { (void)q.write_available(); });
    is_quiet("take and push", [&](long k) {
        take_one<T>(q, s, (u64)k);
        push_one<T>(q, s, (u64)k);
    });
    while(q.read_available()) take_one<T>(q, s, 0);
    is_quiet("read_available of an empty queue", [&](long) { (void)q.read_available(); });
    MON_CHECK(!s.failed.load(), s.key ? s.key : "C09:order", "%s", s.detail);
}

template<typename T, typename Make>
void kind(const char* name, Make make) {
    cases(fmt("%s, stopped anywhere", name).c_str(), std::max(2l, st().cases), [&](Rng& r, long) {
        auto [q, N] = make.template operator()<T>(r);
        parked<T>(r, *q, N, (int)(20 + r.below(200)));
    });
    cases(fmt("%s, stopped in element operations", name).c_str(), std::max(2l, st().cases), [&](Rng& r, long) {
        auto [q, N] = make.template operator()<Slow>(r);
        gated(r, *q, N, (int)(10 + r.below(30)));
    });
    cases(fmt("%s, alone", name).c_str(), std::max(2l, st().cases / 4), [&](Rng& r, long) {
        auto [q, N] = make.template operator()<T>(r);
        alone<T>(*q, N);
    });
}

int main(int argc, char** argv) {
    init(argc, argv);
    struct sigaction sa {};
    sa.sa_sigaction = handler;
    sa.sa_flags     = SA_SIGINFO | SA_RESTART;
    sigaction(SIGUSR1, &sa, nullptr);
    auto dynamic = []<typename T>(Rng& r) {
        size_t n = size_t(2) << r.below(6);
        return std::pair(std::make_unique<xme::SPSCQueue<T>>(n), n);
    };
    auto fixed = []<typename T>(Rng&) { return std::pair(std::make_unique<xme::SPSCQueue<T, xme::Capacity<8>>>(), size_t(8)); };
    auto two   = []<typename T>(Rng&) { return std::pair(std::make_unique<xme::SPSCQueue<T, xme::Capacity<2>>>(), size_t(2)); };
    kind<u64>("integer, dynamic", dynamic);
    kind<Item>("object, dynamic", dynamic);
    kind<u64>("integer, static 8", fixed);
    kind<Item>("object, static 8", fixed);
    kind<Item>("object, static 2", two);
    return finish();
}
