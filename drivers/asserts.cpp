// Builds with assertions: what is outside the bounds the library asserts stops the program, what is
// inside doesn't. Every use runs in a child process, which the monitor watches (C43).
#include "../harness/mon.hpp"
#include <typeinfo>
#include <vector>
#include <xme/container/array.hpp>
#include <xme/container/heap.hpp>
#include <xme/container/spsc_queue.hpp>
#include <xme/math/math.hpp>

using namespace mon;
#define P "C43:"

static void judge(const char* what, bool fits, bool stopped, u64 a, u64 b) {
    judged();
    note("%s: %llu of %llu -> %s\n", what, (unsigned long long)a, (unsigned long long)b, stopped ? "stopped" : "went on");
    MON_CHECK(fits || stopped, P "not-stopped", "%s: %llu of %llu went on", what, (unsigned long long)a, (unsigned long long)b);
    MON_CHECK(!fits || !stopped, P "stopped", "%s: %llu of %llu stopped the program", what, (unsigned long long)a, (unsigned long long)b);
    count(stopped ? "stopped" : "went on");
    seen(hash2(hash_str(what), hash2(a, b)));
}

static size_t index_near(Rng& r, size_t n) {
    switch(r.below(6)) {
    case 0: return r.below(n);
    case 1: return n - 1;
    case 2: return n;
    case 3: return n + r.below(20);
    case 4: return (size_t)0 - 1 - r.below(8);
    default: return (size_t)1 << (3 + r.below(61));
    }
}

template<typename T, size_t N>
void vector_index(Rng& r) {
    // elements before and after the vector, so that small overruns stay inside the object
    struct Padded {
        xme::math::Vector<T, N> before, v, after;
    } padded{};
    auto& v        = padded.v;
    const auto& cv = padded.v;
    for(int k = 0; k < 3; ++k) {
        const size_t i = index_near(r, N);
        const int how  = (int)r.below(4);
        const char* what[] = {"v[i]", "const v[i]", "v[i] = x", "&v[i]"};
        const bool stopped = traps([&] {
            volatile T sink;
            switch(how) {
            case 0: sink = v[i]; break;
            case 1: sink = cv[i]; break;
            case 2: v[i] = T(1); break;
            case 3: {
                auto* volatile p = &v[i];
                (void)p;
            }
            }
            (void)sink;
        });
        judge(fmt("%s of Vector<%s, %zu>", what[how], typeid(T).name(), N).c_str(), i < N, stopped, i, N);
    }
}

template<typename Q>
void queue_use(Rng& r, const char* name, Q& q, size_t room) {
    size_t inside = 0;
    for(int k = 0; k < 12; ++k) {
        if(r.chance(50)) {
            // what comes before the misuse is a history that wraps around
            if(q.push((int)k)) ++inside;
            else MON_CHECK(inside == room, P "room", "%s: full with %zu of %zu", name, inside, room);
        }
        else if(inside) {
            if(r.chance(50)) q.pop();
            else q.consume([](int) {});
            --inside;
        }
        if(r.chance(40)) {
            const bool pop     = r.chance(50);
            bool called        = false;
            const bool stopped = traps([&] {
                if(pop) q.pop();
                else q.consume([&](int) { called = true; });
            });
            (void)called;
            judge(fmt("%s of %s", pop ? "pop" : "consume", name).c_str(), inside > 0, stopped, inside, room);
        }
    }
}

int main(int argc, char** argv) {
    init(argc, argv);
    const long n = st().cases;
    cases("index", n, [&](Rng& r, long) {
        switch(r.below(9)) {
        case 0: return vector_index<float, 2>(r);
        case 1: return vector_index<float, 3>(r);
        case 2: return vector_index<float, 4>(r);
        case 3: return vector_index<int, 2>(r);
        case 4: return vector_index<unsigned char, 3>(r);
        case 5: return vector_index<double, 4>(r);
        case 6: return vector_index<double, 5>(r);
        case 7: return vector_index<int, 1>(r);
        case 8: return vector_index<float, 16>(r);
        }
    });
    cases("array", n, [&](Rng& r, long) {
        xme::Array<int> a;
        if(r.chance(60)) a.reserve(r.below(8));
        for(int k = 0; k < 10; ++k) {
            if(a.size() && r.chance(50)) a.pop_back();
            else if(r.chance(30)) a.clear();
            else a.push_back(k);
            if(r.chance(40)) judge("pop_back", a.size() > 0, traps([&] { a.pop_back(); }), a.size(), a.capacity());
        }
    });
    cases("heap", n, [&](Rng& r, long) {
        xme::Heap<int> h;
        for(int k = 0; k < 10; ++k) {
            if(h.size() && r.chance(60)) h.pop();
            else h.push((int)r.below(100));
            if(r.chance(50)) judge("pop of Heap", h.size() > 0, traps([&] { h.pop(); }), h.size(), 0);
        }
        xme::Heap<int, std::vector<int>, std::greater<>> v;
        for(size_t k = r.below(4); k-- > 0;) v.push((int)k);
        judge("pop of Heap in std::vector", v.size() > 0, traps([&] { v.pop(); }), v.size(), 0);
    });
    cases("queue", n, [&](Rng& r, long) {
        const size_t capacity = (size_t)1 << r.below(5);
        xme::SPSCQueue<int> q(capacity);
        queue_use(r, "SPSCQueue", q, capacity - 1);
        xme::SPSCQueue<int, xme::Capacity<4>> s;
        queue_use(r, "SPSCQueue<4>", s, 3);
        const size_t any = r.chance(50) ? r.below(70) : ((size_t)1 << r.below(12)) + r.below(3) - 1;
        judge("capacity of SPSCQueue", std::has_single_bit(any), traps([&] { xme::SPSCQueue<int> made(any); }), any, 0);
    });
    return finish();
}
