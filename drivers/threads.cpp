// Uses every part of xme from several threads at once, each on objects of its own or reading shared
// constant objects, in ThreadSanitizer builds. Every result is compared with the one a single
// thread gets (C45).
#include "../harness/mon.hpp"
#include <array>
#include <atomic>
#include <list>
#include <memory>
#include <optional>
#include <string>
#include <thread>
#include <xme/container/aligned_data.hpp>
#include <xme/container/array.hpp>
#include <xme/container/array_view.hpp>
#include <xme/container/heap.hpp>
#include <xme/container/linked_list.hpp>
#include <xme/container/pair.hpp>
#include <xme/container/spsc_queue.hpp>
#include <xme/container/tuple.hpp>
#include <xme/core/algorithm/find.hpp>
#include <xme/core/algorithm/reverse.hpp>
#include <xme/core/bit/has_single_bit.hpp>
#include <xme/core/functional/bind.hpp>
#include <xme/core/functional/delegate.hpp>
#include <xme/core/functional/scoped_delegate.hpp>
#include <xme/core/iterators/const_iterator.hpp>
#include <xme/core/iterators/reverse_iterator.hpp>
#include <xme/hal/platform.hpp>
#include <xme/hal/shared_library.hpp>
#include <xme/math/math.hpp>
#include <xme/ranges/destroy.hpp>
#include <xme/ranges/uninitialized.hpp>

using namespace mon;
namespace math = xme::math;

struct Mix {
    u64 h = 1;
    Mix& operator()(u64 x) {
        h = hash2(h, x);
        return *this;
    }
    Mix& operator()(const std::string& s) {
        h = hash2(h, hash_str(s.c_str()));
        return *this;
    }
    Mix& real(double d) {
        u64 b;
        memcpy(&b, &d, 8);
        return (*this)(b);
    }
};
static std::string word(Rng& r) { return fmt("a string of its own %llu", (unsigned long long)r.below(1000)); }

// --- containers --------------------------------------------------------------------------------
template<typename T>
T value(Rng& r) {
    if constexpr(std::is_same_v<T, std::string>) return word(r);
    else return (T)r.below(1000);
}
template<typename A>
u64 read_array(const A& a) {
    Mix m;
    m(a.size())(a.empty());
    for(const auto& x : a) m(x);
    using Back = xme::ReverseIterator<typename A::const_iterator>;
    for(Back it(a.end()), e(a.begin()); it != e; ++it) m(*it);
    for(size_t k = 0; k < a.size(); ++k) m(a[k]);
    if(!a.empty()) m(a.front())(a.back())(*a.data());
    m((u64)(a.end() - a.begin()));
    return m.h;
}
template<typename T>
u64 array_work(Rng& r) {
    Mix m;
    xme::Array<T> a, b;
    for(int k = 0; k < 30; ++k) {
        switch(r.below(8)) {
        case 0: case 1: a.push_back(value<T>(r)); break;
        case 2: a.emplace_back(value<T>(r)); break;
        case 3: a.insert(a.begin() + r.below(a.size() + 1), value<T>(r)); break;
        case 4: if(!a.empty()) a.erase(a.begin() + r.below(a.size())); break;
        case 5: b = a; break;
        case 6: a.swap(b); break;
        case 7: a.reserve(r.below(40)); break;
        }
        m(read_array(a));
    }
    return m.h;
}
template<typename L>
u64 read_list(const L& l) {
    Mix m;
    for(const auto& x : l) m(x);
    for(auto it = xme::make_const_iterator(l.begin()); it != xme::make_const_iterator(l.end()); ++it) m(*it);
    if(l.begin() != l.end()) m(l.front());
    return m.h;
}
template<typename T>
u64 list_work(Rng& r) {
    Mix m;
    xme::LinkedList<T> a, b;
    for(int k = 0; k < 30; ++k) {
        switch(r.below(6)) {
        case 0: case 1: a.push_front(value<T>(r)); break;
        case 2: a.emplace_front(value<T>(r)); break;
        case 3: if(a.begin() != a.end()) a.pop_front(); break;
        case 4: b = a; break;
        case 5: a.reverse(); break;
        }
        m(read_list(a));
    }
    return m(read_list(b)).h;
}
u64 heap_work(Rng& r) {
    Mix m;
    xme::Heap<int> h;
    for(int k = 0; k < 40; ++k) {
        if(r.chance(60)) h.push((int)r.below(100));
        else if(!h.empty()) h.pop();
        m(h.size());
        if(!h.empty()) m((u64)h.front());
    }
    return m.h;
}
u64 queue_work(Rng& r) {
    Mix m;
    xme::SPSCQueue<std::string> q(8);
    xme::SPSCQueue<int, xme::Capacity<4>> s;
    for(int k = 0; k < 40; ++k) {
        if(r.chance(60)) m(q.push(word(r)))(s.push((int)r.below(9)));
        else {
            if(q.read_available()) q.consume([&](std::string&& x) { m(x); });
            if(s.read_available()) s.pop();
        }
        m(q.write_available())(s.write_available());
    }
    return m.h;
}
u64 tuple_work(Rng& r) {
    Mix m;
    xme::Tuple<int, std::string, double> t{(int)r.below(9), word(r), 1.5}, u{(int)r.below(9), word(r), 2.5};
    m(t < u)(t == u)(xme::get<1>(t));
    t.swap(u);
    auto all = xme::tuple_cat(t, xme::make_tuple(word(r), 3), xme::tie(xme::get<0>(u)));
    m(xme::get<1>(all))(xme::get<3>(all))((u64)xme::get<5>(all));
    m(xme::apply([](int a, const std::string& b, double c) { return (u64)a + b.size() + (u64)c; }, t));
    xme::Pair<int, std::string> p{1, word(r)}, q{2, word(r)};
    std::ranges::swap(p, q);
    m(p < q)(p.second)(xme::get<0>(q));
    return m.h;
}
u64 view_work(Rng& r) {
    Mix m;
    std::array<int, 9> a;
    for(int& x : a) x = (int)r.below(100);
    xme::ArrayView<int> v(a);
    v[3] = 7;
    for(int x : v.subview(r.below(4), r.below(5))) m((u64)x);
    for(auto it = v.end(); it != v.begin();) m((u64)*--it);
    for(auto b : xme::as_bytes(v.first(2))) m((u64)b);
    m((u64)v.last(3).front());
    return m.h;
}

// --- callables -----------------------------------------------------------------------------------
static int digits(int a, int b, int c) { return a * 100 + b * 10 + c; }
u64 bind_work(Rng& r) {
    Mix m;
    auto f = xme::bind_front(digits, (int)r.below(9));
    auto g = xme::bind_back([](const std::string& a, const std::string& b) { return a + b; }, word(r));
    m((u64)f(2, 3))(g(word(r)));
    auto h = g;
    m(std::move(h)(word(r)));
    return m.h;
}
u64 delegate_work(Rng& r) {
    Mix m;
    std::string s = word(r);
    std::array<u64, 12> big{};
    big[5] = r.below(50);
    xme::Delegate<int(int)> a([k = (int)r.below(9)](int x) { return x + k; });
    xme::Delegate<u64(u64)> b([big](u64 x) { return x + big[5]; });
    xme::Delegate<std::string()> c([s] { return s; });
    auto d = b;
    auto e = std::move(c);
    m((u64)a(3))(b(4))(d(5))(e());
    d = b;
    std::swap(b, d);
    m(d(9));
    int left = 0;
    {
        xme::ScopedDelegate guard([&] { ++left; });
        m((u64)left);
    }
    m((u64)left);
    return m.h;
}

// --- algorithms ----------------------------------------------------------------------------------
template<typename T>
u64 algorithm_work_of(Rng& r) {
    Mix m;
    std::vector<T> v(r.below(90));
    for(auto& x : v) x = value<T>(r);
    for(int k = 0; k < 4; ++k) m((u64)(xme::find(v, value<T>(r)) - v.begin()));
    xme::reverse(v);
    for(auto& x : v) m(x);
    return m.h;
}
u64 algorithm_work(Rng& r) {
    return Mix()(algorithm_work_of<std::uint8_t>(r))(algorithm_work_of<std::int16_t>(r))(algorithm_work_of<int>(r))(algorithm_work_of<std::uint64_t>(r))(algorithm_work_of<std::string>(r)).h;
}
u64 iterator_work(Rng& r) {
    Mix m;
    std::vector<int> v(20);
    for(int& x : v) x = (int)r.below(99);
    std::list<int> l(v.begin(), v.end());
    for(auto it = xme::make_const_iterator(v.begin()); it != xme::make_const_iterator(v.end()); ++it) m((u64)*it);
    xme::ReverseIterator<std::list<int>::iterator> b(l.end()), e(l.begin());
    for(; b != e; ++b) m((u64)*b);
    return m.h;
}
u64 memory_work(Rng& r) {
    Mix m;
    xme::AlignedData<std::string> one(word(r));
    m(*one.data());
    alignas(std::string) unsigned char raw[4 * sizeof(std::string)];
    auto* p = reinterpret_cast<std::string*>(raw);
    std::string from[4] = {word(r), word(r), word(r), word(r)};
    std::allocator<std::string> alloc;
    xme::ranges::uninitialized_copy_a(from, from + 4, p, p + 4, alloc);
    for(int k = 0; k < 4; ++k) m(p[k]);
    xme::ranges::destroy_a(p, p + 4, alloc);
    m(xme::has_single_bit(r.next() & 3));
    return m.h;
}

// --- mathematics -----------------------------------------------------------------------------------
template<typename T>
u64 math_work_of(Rng& r) {
    Mix m;
    auto x   = [&] { return (T)r.real(-3, 3); };
    auto hash = [&](const auto& v, size_t n) {
        for(size_t k = 0; k < n; ++k) m.real((double)v[k]);
    };
    math::Vector<T, 2> a2{x(), x()};
    math::Vector<T, 3> a{x(), x(), x()}, b{x(), x(), x()};
    math::Vector<T, 4> c{x(), x(), x(), x()}, d{x(), x(), x(), x()};
    hash(a + b * x(), 3);
    hash(-(c / x()), 4);
    hash(math::cross(a, b), 3);
    m.real(math::dot(c, d)).real(math::length(a2)).real(math::distance(c, d));
    hash(math::normalize(a), 3);
    hash(math::reflect(a, b), 3);
    hash(math::faceforward(a, b, a), 3);
    hash(math::lerp(c, d, x()), 4);
    hash(math::sign(c), 4);
    math::Matrix<T, 4, 4> p{c, d, c * x(), d + c}, q{d, c, c, d};
    auto prod = p * q + p;
    for(size_t k = 0; k < 4; ++k) hash(prod[k], 4);
    m.real(math::determinant(p)).real(math::determinant(q + p));
    for(size_t k = 0; k < 4; ++k) hash(math::transpose(p)[k], 4);
    for(size_t k = 0; k < 4; ++k) hash(math::hadamard_product(p, q)[k], 4);
    for(size_t k = 0; k < 4; ++k) hash(math::outer_product(c, d)[k], 4);
    auto tr = math::rotate(math::scale(math::translate(p, a), b), x(), math::normalize(a));
    for(size_t k = 0; k < 4; ++k) hash(tr[k], 4);
    auto pr = math::perspective((T)1, (T)(1 + r.real()), (T)0.1, (T)50);
    auto fr = math::perspective((T)-1, (T)(1 + r.real()), (T)-1, (T)2, (T)0.1, (T)50);
    auto o  = math::ortho((T)-1, (T)(1 + r.real()), (T)-1, (T)2, (T)0.1, (T)50);
    for(size_t k = 0; k < 4; ++k) hash(pr[k], 4), hash(fr[k], 4), hash(o[k], 4);
    math::Quaternion<T> s(x(), x(), x(), x()), t(x(), x(), x(), x());
    auto u = s * t + s;
    m.real(u.w).real(u.x).real(u.y).real(u.z);
    T angle = (T)(0.1 + r.real());
    m.real(math::radians(angle)).real(math::degrees(angle)).real(math::sec(angle)).real(math::csc(angle)).real(math::cot(angle)).real(math::sign(angle));
    return m.h;
}
u64 math_work(Rng& r) { return Mix()(math_work_of<float>(r))(math_work_of<double>(r)).h; }

// --- platform --------------------------------------------------------------------------------------
u64 environment_work(Rng& r) {
    Mix m;
    for(int k = 0; k < 20; ++k) {
        std::string name = fmt("XME_THREADS_%d", (int)r.below(20));
        const char* v    = xme::hal::get_environment_variable(name);
        m(v ? std::string(v) : std::string("none"));
        std::string longer = name + "0 and more";
        v                  = xme::hal::get_environment_variable(std::string_view(longer).substr(0, name.size()));
        m(v ? std::string(v) : std::string("none"));
    }
    return m.h;
}
u64 library_work(Rng& r) {
    Mix m;
    xme::hal::SharedLibrary a(r.chance(50) ? "libm.so.6" : "libc.so.6"), b;
    m(a.is_open())(b.is_open());
    b.open(r.chance(80) ? "libm.so.6" : "libnothing-of-xme.so");
    if(a.is_open()) m(a.proc_address<void*>("strlen") != nullptr || a.proc_address<void*>("cos") != nullptr);
    m(b.is_open());
    b = std::move(a);
    b.close();
    m(b.is_open());
    return m.h;
}

// --- shared constant objects -----------------------------------------------------------------------
struct Everything {
    xme::Array<int> ints;
    xme::Array<std::string> strings;
    xme::LinkedList<std::string> list;
    xme::Heap<int> heap;
    xme::Tuple<int, std::string> tuple;
    xme::Pair<std::string, int> pair;
    xme::SPSCQueue<int> queue;
    xme::AlignedData<std::string> data;
    std::vector<std::uint8_t> bytes;
    math::Matrix<double, 4, 4> matrix;
    math::Vector<float, 3> vector;
    math::Vector<float, 6> wide;
    math::Quaternion<float> quat;
    xme::Delegate<int(int)> small;
    xme::Delegate<u64(const std::string&)> big;
    decltype(xme::bind_front(digits, 1)) bound;
    using Column = math::Vector<double, 4>;
    explicit Everything(Rng& r)
        : tuple{(int)r.below(9), word(r)}, pair{word(r), (int)r.below(9)}, queue(16), data(word(r)), bytes(100), matrix(Column(1, 2, 3, 4), Column(r.real(), 1, 7, 1), Column(0, r.real(), 4, 3), Column(1, 1, 1, 2)),
          vector{1, (float)r.real(), 3}, quat(1, 2, (float)r.real(), 3), small([k = (int)r.below(9)](int x) { return x * k; }),
          big([s = word(r), pad = std::array<u64, 9>{}](const std::string& t) { return s.size() + t.size() + pad[1]; }), bound(xme::bind_front(digits, (int)r.below(9))) {
        for(int k = (int)r.below(20); k >= 0; --k) {
            ints.push_back((int)r.below(50));
            strings.push_back(word(r));
            list.push_front(word(r));
            heap.push((int)r.below(99));
            queue.push(k);
        }
        for(auto& b : bytes) b = (std::uint8_t)r.below(30);
        for(size_t k = 0; k < 6; ++k) wide[k] = (float)k + (float)r.real();
    }
};
u64 read_shared(const Everything& e, Rng& r) {
    Mix m;
    m(read_array(e.ints))(read_array(e.strings))(read_list(e.list));
    m(e.heap.size())((u64)e.heap.front());
    for(int x : e.heap) m((u64)x);
    m((u64)xme::get<0>(e.tuple))(xme::get<1>(e.tuple))(e.tuple == e.tuple)(xme::apply([](int a, const std::string& b) { return (u64)a + b.size(); }, e.tuple));
    m(xme::get<0>(e.pair))(e.pair < e.pair);
    m(e.queue.read_available())(e.queue.write_available());
    m(*e.data.data());
    m((u64)(xme::find(e.bytes, (std::uint8_t)r.below(40)) - e.bytes.begin()));
    m((u64)(xme::find(e.ints, (int)r.below(60)) - e.ints.begin()));
    m.real(math::determinant(e.matrix)).real(e.matrix.determinant()).real(e.matrix[1][0]);
    auto t = math::transpose(e.matrix) * e.matrix;
    m.real(t[2][1]);
    m.real(math::length(e.vector)).real(e.vector.length()).real(math::dot(e.wide, e.wide)).real((e.wide + e.wide)[4]).real((e.quat * e.quat).w);
    m((u64)e.small(3))(e.big("abc"))((u64)e.bound(1, 2));
    xme::ArrayView<const int> view(e.ints);
    m((u64)view.size())((u64)view.front())((u64)view[0]);
    // copies are objects of one's own
    auto ints = e.ints;
    ints.push_back(1);
    xme::LinkedList<std::string> list(e.list);
    list.push_front("x");
    auto tuple      = e.tuple;
    xme::get<1>(tuple) += "x";
    auto small = e.small;
    auto big   = e.big;
    auto heap  = e.heap;
    heap.pop();
    m(read_array(ints))(read_list(list))(xme::get<1>(tuple))((u64)small(7))(big("d"))(heap.size());
    return m.h;
}

// --- running -----------------------------------------------------------------------------------------
template<typename F>
void together(Rng& r, const char* what, int rounds, F&& f) {
    constexpr int threads = 4;
    std::vector<u64> seeds(threads * rounds), want(seeds.size()), got(seeds.size());
    for(auto& s : seeds) s = r.next();
    std::atomic<int> ready{0};
    std::vector<std::thread> all;
    for(int t = 0; t < threads; ++t)
        all.emplace_back([&, t] {
            ready.fetch_add(1, std::memory_order_relaxed);
            while(ready.load(std::memory_order_relaxed) < threads) {}
            for(int k = 0; k < rounds; ++k) {
                Rng mine(seeds[t * rounds + k]);
                got[t * rounds + k] = f(mine);
            }
        });
    for(auto& t : all) t.join();
    // afterwards: what is set up at first use is set up by several threads at once
    for(size_t k = 0; k < seeds.size(); ++k) {
        Rng mine(seeds[k]);
        want[k] = f(mine);
    }
    judged((long)seeds.size());
    for(size_t k = 0; k < seeds.size(); ++k) {
        MON_CHECK(got[k] == want[k], "other-result", "%s: another result than in a single thread", what);
        seen(want[k]);
    }
}

int main(int argc, char** argv) {
    init(argc, argv);
    for(int k = 0; k < 14; ++k) setenv(fmt("XME_THREADS_%d", k).c_str(), fmt("value %d", k * k).c_str(), 1);
    auto own = [](const char* what, int rounds, u64 (*f)(Rng&)) {
        cases(what, st().cases, [&](Rng& r, long) { together(r, what, rounds, f); });
    };
    own("arrays of integers", 10, array_work<int>);
    own("arrays of strings", 5, array_work<std::string>);
    own("lists", 5, list_work<std::string>);
    own("heaps", 20, heap_work);
    own("queues", 10, queue_work);
    own("tuples and pairs", 20, tuple_work);
    own("views", 20, view_work);
    own("bound calls", 20, bind_work);
    own("delegates", 20, delegate_work);
    own("algorithms", 10, algorithm_work);
    own("iterators", 20, iterator_work);
    own("memory", 20, memory_work);
    own("mathematics", 20, math_work);
    own("environment", 10, environment_work);
    own("libraries", 3, library_work);
    cases("shared constant objects", st().cases * 2, [](Rng& r, long) {
        std::optional<Everything> e;
        e.emplace(r);
        together(r, "shared constant objects", 5, [&](Rng& mine) { return read_shared(*e, mine); });
    });
    return finish();
}
