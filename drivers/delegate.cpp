// Runs histories of operations on xme::Delegate and compares what every delegate holds with a
// model (C19), and what happens to the target objects with their registered lifetime, with
// failing copies and moves (C20: -DFAULTS).
#include "../harness/track.hpp"
#include <utility>
#include <functional>
#include <memory>
#include <optional>
extern "C" size_t __sanitizer_get_current_allocated_bytes();
#include <xme/core/functional/delegate.hpp>

using namespace mon;
#ifdef FAULTS
#define P "C20:"
#else
#define P "C19:"
#endif
using D = xme::Delegate<int(int)>;

static long heap_news, heap_deletes;
struct CountsHeap {
    static void* operator new(size_t n) { ++heap_news; return ::operator new(n); }
    static void* operator new(size_t n, std::align_val_t a) { ++heap_news; return ::operator new(n, a); }
    static void* operator new(size_t, void* p) { return p; }
    static void operator delete(void* p) { ++heap_deletes; ::operator delete(p); }
    static void operator delete(void* p, std::align_val_t a) { ++heap_deletes; ::operator delete(p, a); }
    static void operator delete(void*, void*) {}
};

// Targets. Each has an identity and a state that its calls change.
static int answer(int id, int state, int x) { return id * 1000 + state * 10 + x; }
struct Small {  // trivially copyable, one word
    int id, state;
    int operator()(int x) { return answer(id, state++, x); }
};
struct Fitting {  // trivially copyable, as big as the storage of a delegate
    int id;
    int pad;
    int state;
    int pad2;
    int operator()(int x) { return answer(id, state++, x); }
};
struct Large {  // trivially copyable, bigger
    int id;
    char pad[40];
    int state;
    int operator()(int x) { return answer(id, state++, x); }
};
struct Empty {
    int operator()(int x) const { return answer(7, 0, x); }
    static constexpr int id = 7, state = 0;
};
struct alignas(32) Wide {  // trivially copyable, over-aligned
    int id, state;
    int operator()(int x) {
        MON_CHECK((std::uintptr_t)this % 32 == 0, P "misaligned-target", "called at a misaligned address");
        return answer(id, state++, x);
    }
};
// Objects with a lifetime
struct Slim : CountsHeap {  // one word, but not trivially copyable
    int id;
    int state : 24;
    unsigned good : 8;
    Slim(int i, int s) : id(i), state(s), good(77) { tr().born(this); }
    Slim(const Slim& o) : id(o.id), state(o.state), good(o.good) {
        tr().need(&o, "copy-from-dead");
        tr().maybe_throw();
        ++tr().copies;
        tr().born(this);
    }
    Slim& operator=(const Slim&) = delete;
    ~Slim() {
        tr().died(this);
        good = 0;
    }
    int operator()(int x) {
        tr().need(this, "called-dead");
        MON_CHECK(good == 77, P "called-dead", "a destroyed target was called");
        return answer(id, state++, x);
    }
};
struct Nimble : CountsHeap {  // fits in a delegate and moves without throwing, but has a lifetime
    int id;
    int state : 24;
    unsigned good : 8;
    const Nimble* self = this;
    Nimble(int i, int s) : id(i), state(s), good(77) { tr().born(this); }
    Nimble(const Nimble& o) : id(o.id), state(o.state), good(o.good) {
        tr().need(&o, "copy-from-dead");
        tr().maybe_throw();
        ++tr().copies;
        tr().born(this);
    }
    Nimble(Nimble&& o) noexcept : id(o.id), state(o.state), good(o.good) {
        tr().need(&o, "move-from-dead");
        o.id = -1;
        tr().born(this);
    }
    Nimble& operator=(const Nimble&) = delete;
    ~Nimble() {
        tr().died(this);
        good = 0;
    }
    int operator()(int x) {
        tr().need(this, "called-dead");
        MON_CHECK(good == 77 && self == this, P "called-dead", "a target was called that was destroyed or moved as bytes");
        return answer(id, state++, x);
    }
};
struct alignas(16) Narrow {  // as big as the storage, with a bigger alignment
    int id, state;
    int operator()(int x) {
        MON_CHECK((std::uintptr_t)this % 16 == 0, P "misaligned-target", "called at a misaligned address");
        return answer(id, state++, x);
    }
};
template<unsigned K>
struct Tracked : CountsHeap {
    Obj<K> life;
    int id, state;
    Tracked(int i, int s) : life(i), id(i), state(s) {}
    Tracked(const Tracked&) = default;
    Tracked(Tracked&& o) noexcept(!(K & k_throw_move)) : life(std::move(o.life)), id(o.id), state(o.state) { o.id = -1; }
    int operator()(int x) {
        tr().need(std::addressof(life), "called-dead");
        life.check();
        MON_CHECK((std::uintptr_t)this % alignof(Tracked) == 0, P "misaligned-target", "called at a misaligned address");
        return answer(id, state++, x);
    }
};
using Medium  = Tracked<k_copy | k_throw_all>;
using Huge    = Tracked<k_copy | k_big | k_throw_all>;
using Aligned = Tracked<k_copy | k_align | k_throw_all>;
using Thrower = Tracked<k_copy | k_throw_all | k_throw_move>;

static int f0(int x) { return answer(901, 0, x); }
static int f1(int x) { return answer(902, 0, x); }
using Fn = int (*)(int);
// shares its state, so that the number of holders shows how many copies exist
struct Shared {
    std::shared_ptr<int> p;
    int id;
    int operator()(int x) const { return answer(id, *p, x); }
};

enum { none = -1, k_fn, k_small, k_fitting, k_large, k_empty, k_wide, k_narrow, k_slim, k_nimble, k_medium, k_huge, k_aligned, k_thrower, k_shared, k_kinds };
static const char* kind_name[] = {"function", "small", "fitting", "large", "empty", "over-aligned trivial", "small over-aligned trivial", "slim object", "nimble object", "object", "big object", "over-aligned object", "throwing object", "shared"};

struct Model {
    int kind = none, id = 0, state = 0;
};
static std::shared_ptr<int>& shared_state() {
    static std::shared_ptr<int> p = std::make_shared<int>(3);
    return p;
}

// Calls use(target) with a new target of the kind, as lvalue, const lvalue or rvalue
template<typename F>
Model with_target(int kind, int id, int cat, F&& use) {
    Model m{kind, id, 0};
    auto pass = [&](auto t) {
        using T = decltype(t);
        const T& ct = t;
        auto same = [&] {
            if constexpr(requires { t.life; }) MON_CHECK(val(t.life) == id && t.id == id && t.state == 0, P "source-modified", "%s: the original target changed", kind_name[kind]);
            else if constexpr(requires { T::id; }) {}
            else if constexpr(requires { t.id; t.state; }) MON_CHECK(t.id == id && t.state == 0, P "source-modified", "%s: the original target changed", kind_name[kind]);
        };
        long copies = tr().copies;
        if(cat == 0) { use(t); same(); }
        else if(cat == 1) { use(ct); same(); }
        else {
            use(std::move(t));
            if constexpr(requires { t.life; }) MON_CHECK(tr().copies == copies, P "rvalue-copied", "%s: an rvalue target was copied", kind_name[kind]);
        }
    };
    auto make = [&](auto tag) {
        using T = typename decltype(tag)::type;
        Quiet* q = new Quiet;
        T t(id, 0);
        delete q;
        // the parameter of pass would be a copy: use the object itself
        const T& ct = t;
        auto same   = [&] { MON_CHECK(t.id == id && t.state == 0, P "source-modified", "%s: the original target changed", kind_name[kind]); };
        long copies = tr().copies;
        if(cat == 0) { use(t); same(); }
        else if(cat == 1) { use(ct); same(); }
        else {
            use(std::move(t));
            if constexpr(!std::is_same_v<T, Slim>) MON_CHECK(tr().copies == copies, P "rvalue-copied", "%s: an rvalue target was copied", kind_name[kind]);
        }
    };
    switch(kind) {
    case k_fn:
        m.id = id & 1 ? 902 : 901;
        if(cat == 0) use(id & 1 ? f1 : f0);
        else if(cat == 1) { Fn const f = id & 1 ? &f1 : &f0; use(f); }
        else if(id & 1) use(f1);
        else use(f0);
        break;
    case k_small: pass(Small{id, 0}); break;
    case k_fitting: pass(Fitting{id, 1, 0, 2}); break;
    case k_large: { Large l{}; l.id = id; l.state = 0; pass(l); break; }
    case k_empty: m.id = 7; pass(Empty{}); break;
    case k_wide: pass(Wide{id, 0}); break;
    case k_narrow: pass(Narrow{id, 0}); break;
    case k_nimble: make(std::type_identity<Nimble>{}); break;
    case k_slim: make(std::type_identity<Slim>{}); break;
    case k_medium: make(std::type_identity<Medium>{}); break;
    case k_huge: make(std::type_identity<Huge>{}); break;
    case k_aligned: make(std::type_identity<Aligned>{}); break;
    case k_thrower: make(std::type_identity<Thrower>{}); break;
    case k_shared: m.state = 3; pass(Shared{shared_state(), id}); break;
    }
    return m;
}

// What the delegate holds, seen through handle
template<typename T>
void held(const D& d, int kind, Model& got, int& found) {
    if(auto* t = d.handle<T>()) {
        static_assert(std::is_same_v<decltype(t), const T*>);
        ++found;
        got.kind = kind;
        if constexpr(std::is_same_v<T, Fn>) got.id = *t == f0 ? 901 : *t == f1 ? 902 : -2;
        else if constexpr(std::is_same_v<T, Shared>) {
            got.id    = t->id;
            got.state = *t->p;
        }
        else {
            if constexpr(requires { t->life; }) MON_CHECK(val(t->life) == t->id, P "target-corrupted", "%s %d", kind_name[kind], t->id);
            if constexpr(std::is_same_v<T, Slim> || std::is_same_v<T, Nimble>) tr().need(t, "dead-target");
            got.id    = t->id;
            got.state = t->state;
        }
    }
}
static void same_as_model(const D& d, const Model& m, size_t i) {
    judged();
    MON_CHECK(static_cast<bool>(d) == (m.kind != none), P "bool", "delegate %zu converts to %d, it should hold %s", i, static_cast<bool>(d), m.kind == none ? "nothing" : kind_name[m.kind]);
    Model got;
    int found = 0;
    held<Fn>(d, k_fn, got, found);
    held<Small>(d, k_small, got, found);
    held<Fitting>(d, k_fitting, got, found);
    held<Large>(d, k_large, got, found);
    held<Empty>(d, k_empty, got, found);
    held<Wide>(d, k_wide, got, found);
    held<Narrow>(d, k_narrow, got, found);
    held<Nimble>(d, k_nimble, got, found);
    held<Slim>(d, k_slim, got, found);
    held<Medium>(d, k_medium, got, found);
    held<Huge>(d, k_huge, got, found);
    held<Aligned>(d, k_aligned, got, found);
    held<Thrower>(d, k_thrower, got, found);
    held<Shared>(d, k_shared, got, found);
    MON_CHECK(found == (m.kind != none), P "handle", "delegate %zu has handles of %d types", i, found);
    MON_CHECK(got.kind == m.kind && (m.kind == none || (got.id == m.id && got.state == m.state)), P "target", "delegate %zu holds %s %d.%d instead of %s %d.%d", i, got.kind == none ? "nothing" : kind_name[got.kind],
              got.id, got.state, m.kind == none ? "nothing" : kind_name[m.kind], m.id, m.state);
    MON_CHECK(d.handle<long>() == nullptr && d.handle<void (*)()>() == nullptr, P "handle", "delegate %zu gives a handle of a type it never held", i);
}

static void history(Rng& r) {
    constexpr size_t n = 4;
    heap_news = heap_deletes = 0;
    tr().reset();
    {
        std::optional<D> d[n];
        Model m[n];
        for(auto& x : d) x.emplace();
        int kinds[3] = {(int)r.below(k_kinds), (int)r.below(k_kinds), (int)r.below(k_kinds)};
        for(int step = 0, steps = (int)r.range(8, 40); step < steps; ++step) {
            size_t i = r.below(n), j = r.chance(25) ? i : r.below(n);
            int kind = kinds[r.below(3)], id = (int)r.range(10, 500), cat = (int)r.below(3);
            int op   = (int)r.below(14);
            int was = m[i].kind, other = m[j].kind;
            bool failed = false;
#ifdef FAULTS
            if(r.chance(40)) tr().arm((long)r.below(3), -1);
#endif
            note("%d %zu %zu kind %d id %d cat %d\n", op, i, j, kind, id, cat);
            try {
                switch(op) {
                case 0:
                case 1: {  // a new delegate
                    d[i].emplace();
                    m[i]    = Model{};
                    Model x = with_target(kind, id, cat, [&](auto&& t) { d[i].emplace(std::forward<decltype(t)>(t)); });
                    m[i]    = x;
                    break;
                }
                case 2:
                case 3: {
                    Model x = with_target(kind, id, cat, [&](auto&& t) {
                        D& res = (*d[i] = std::forward<decltype(t)>(t));
                        MON_CHECK(&res == &*d[i], P "result", "assignment returns another object");
                    });
                    m[i]    = x;
                    break;
                }
                case 4: {
                    const D& from = *d[j];
                    D& res        = (*d[i] = from);
                    MON_CHECK(&res == &*d[i], P "result", "copy assignment returns another object");
                    m[i] = m[j];
                    break;
                }
                case 5: {
                    *d[i] = *d[j];  // from a non constant one
                    m[i]  = m[j];
                    break;
                }
                case 6: {
                    long copies = tr().copies;
                    if(i == j) {
                        D& alias = *d[i];
                        *d[i]    = std::move(alias);
                        if(!*d[i]) m[i] = Model{};  // unspecified, but valid
                    }
                    else {
                        *d[i] = std::move(*d[j]);
                        m[i]  = m[j];
                        m[j]  = Model{};
                    }
                    MON_CHECK(tr().copies == copies, P "move-copies", "moving a delegate copied its target");
                    break;
                }
                case 7: {
                    long copies = tr().copies;
                    d[i]->swap(*d[j]);
                    std::swap(m[i], m[j]);
                    MON_CHECK(tr().copies == copies, P "move-copies", "swapping delegates copied a target");
                    break;
                }
                case 8: {
                    D& res = (*d[i] = nullptr);
                    MON_CHECK(&res == &*d[i], P "result", "assignment returns another object");
                    m[i] = Model{};
                    break;
                }
                case 9: {
                    Fn null = nullptr;
                    if(cat == 0) *d[i] = null;
                    else {
                        d[i].emplace();
                        m[i] = Model{};
                        d[i].emplace(null);
                    }
                    m[i] = Model{};
                    break;
                }
                case 10: {
                    if(i == j) break;
                    d[i].emplace();
                    m[i] = Model{};
                    if(cat == 0) d[i].emplace(*d[j]);
                    else d[i].emplace(std::as_const(*d[j]));
                    m[i] = m[j];
                    break;
                }
                case 11: {
                    if(i == j) break;
                    long copies = tr().copies;
                    d[i].emplace(std::move(*d[j]));
                    m[i] = m[j];
                    m[j] = Model{};
                    MON_CHECK(tr().copies == copies, P "move-copies", "moving a delegate copied its target");
                    break;
                }
                default: {
                    int x = (int)r.below(10);
                    if(m[i].kind == none) {
                        bool bad = false;
                        try {
                            (*d[i])(x);
                        } catch(const std::bad_function_call&) {
                            bad = true;
                        }
                        MON_CHECK(bad, P "empty-call", "calling an empty delegate doesn't throw bad_function_call");
                    }
                    else {
                        int got = cat == 0 ? (*d[i])(x) : std::as_const(*d[i])(x);
                        MON_CHECK(got == answer(m[i].id, m[i].state, x), P "call", "delegate %zu with %s %d.%d answers %d", i, kind_name[m[i].kind], m[i].id, m[i].state, got);
                        if(m[i].kind != k_fn && m[i].kind != k_empty && m[i].kind != k_shared) ++m[i].state;
                    }
                }
                }
            } catch(const Injected&) {
                failed = true;
                count("failed operations");
            }
            bool fired = tr().fired;
            tr().disarm();
            tr().fired = false;
            MON_CHECK(failed == fired, P "exception-lost", "an exception of a target didn't reach the caller (operation %d)", op);
            if(failed) note("failed\n");
            long holders = 0, live = 0, heap = 0;
            for(size_t k = 0; k < n; ++k) {
                if(!d[k]) d[k].emplace();  // construction failed
                same_as_model(*d[k], m[k], k);
                holders += m[k].kind == k_shared;
                live += m[k].kind >= k_slim && m[k].kind <= k_thrower;
                heap += m[k].kind >= k_slim && m[k].kind <= k_thrower;
            }
            MON_CHECK(shared_state().use_count() == holders + 1, P "copies-alive", "%ld copies of a target for %ld delegates", shared_state().use_count() - 1, holders);
            MON_CHECK((long)tr().live.size() == live, P "targets-alive", "%zu target objects for %ld delegates", tr().live.size(), live);
            MON_CHECK(heap_news - heap_deletes <= live, P "storage-leaked", "%ld blocks for %ld targets", heap_news - heap_deletes, live);
            seen(hash2(hash2(op * 16 + cat, (was + 1) * 64 + other + 1), (kind << 4) + failed * 2 + (i == j)));
        }
    }
    MON_CHECK(tr().live.empty(), P "targets-alive", "%zu target objects outlive the delegates", tr().live.size());
    MON_CHECK(heap_news == heap_deletes, P "storage-leaked", "%ld blocks allocated, %ld freed", heap_news, heap_deletes);
    MON_CHECK(shared_state().use_count() == 1, P "copies-alive", "%ld copies of a target outlive the delegates", shared_state().use_count() - 1);
}

// Storage: no memory is left allocated, whatever it was allocated with
static void storage(Rng& r) {
    struct alignas(64) Block {
        char c[200];
        int operator()(int x) const { return x + c[100]; }
    };
    Block blk{};
    auto shared = std::make_shared<int>(1);
    auto lam    = [shared, pad = std::array<long, 9>{}](int x) { return x + *shared + (int)pad[3]; };
    int ops[24];
    unsigned kinds = 0;
    for(int& o : ops) o = (int)r.below(64);
    size_t before = __sanitizer_get_current_allocated_bytes();
    long sum      = 0;
    {
        D a, b, c;
        D* all[] = {&a, &b, &c};
        for(int o : ops) {
            D &x = *all[o % 3], &y = *all[(o / 3) % 3];
            switch(o % 8) {
            case 0: x = blk; break;
            case 1: x = lam; break;
            case 2: x = y; break;
            case 3: x = std::move(y); break;
            case 4: x = nullptr; break;
            case 5: x.swap(y); break;
            case 6: x = f0; break;
            case 7: { D t(y); if(t) sum += t(1); D u(std::move(t)); break; }
            }
            kinds = kinds * 3 + (unsigned)(bool)x;
        }
    }
    size_t after = __sanitizer_get_current_allocated_bytes();
    judged();
    MON_CHECK(before == after, P "storage-leaked", "%zd bytes are still allocated after the delegates are gone", (ssize_t)(after - before));
    MON_CHECK(shared.use_count() == 2, P "copies-alive", "%ld holders", shared.use_count());
    seen(hash2(kinds, sum));
}

// ---------------------------------------------------------------------------------------------
using O = Obj<k_copy | k_default>;
using M = Obj<k_default>;
struct Device {
    int base = 0;
    int add(int a, int b) { return base * 10000 + a * 100 + b; }
    int addc(int a, int b) const { return -(base * 10000 + a * 100 + b); }
    int addn(int a, int b) const noexcept { return -(base * 10000 + a * 100 + b); }
    virtual int kind() const { return 1; }
    virtual ~Device() = default;
};
struct Special : Device {
    int kind() const override { return 2; }
};
struct Callee {
    int operator()(int a, double b) { return a + (int)b; }
};
struct CalleeConst {
    int operator()(int a, double b) const noexcept { return a - (int)b; }
};
static int taking(int a, const std::string& s) { return a + (int)s.size(); }
static void bump(int& x) { ++x; }

// A copy made with braces would be a list of one
struct Listed {
    int id;
    Listed(int i) : id(i) {}
    Listed(std::initializer_list<Listed> l) : id(1000 + (int)l.size()) {}
    int operator()(int x) const { return id + x; }
};
struct ListedLarge {
    int id;
    char pad[40] = {};
    ListedLarge(int i) : id(i) {}
    ListedLarge(std::initializer_list<ListedLarge> l) : id(1000 + (int)l.size()) {}
    int operator()(int x) const { return id + x; }
};

static void signatures(Rng& r) {
    int a = (int)r.below(50), b = (int)r.below(50);
    note("%d %d\n", a, b);
    judged(12);
    Device dev;
    dev.base = (int)r.below(9);
    int want = dev.add(a, b);
    {
        xme::Delegate<int(Device&, int, int)> d(&Device::add), e = &Device::addc;
        xme::Delegate<int(Device*, int, int)> f(&Device::add);
        xme::Delegate<int(const Device&, int, int)> g(&Device::addc), gn(&Device::addn);
        xme::Delegate<int(std::shared_ptr<Device>, int, int)> h(&Device::add);
        xme::Delegate<int(Device, int, int)> v(&Device::add);
        MON_CHECK(d(dev, a, b) == want && e(dev, a, b) == -want && f(&dev, a, b) == want && g(dev, a, b) == -want && gn(dev, a, b) == -want && h(std::make_shared<Device>(dev), a, b) == want && v(dev, a, b) == want,
                  P "member", "member functions");
        auto d2 = d;
        auto d3 = std::move(d);
        MON_CHECK(d2(dev, a, b) == want && d3(dev, a, b) == want && !d, P "member", "copied and moved");
        MON_CHECK(*d2.handle<int (Device::*)(int, int)>() == &Device::add && !d2.handle<int (Device::*)(int, int) const>(), P "handle", "member functions");
        int (Device::*null)(int, int) = nullptr;
        xme::Delegate<int(Device&, int, int)> n(null);
        MON_CHECK(!n, P "bool", "a delegate of a null member function holds a target");
        d2 = null;
        MON_CHECK(!d2, P "bool", "a delegate assigned a null member function holds a target");
        int Device::*nf = nullptr;
        xme::Delegate<int&(Device&)> field(&Device::base), nfield(nf);
        static_assert(std::is_same_v<decltype(field(dev)), int&>);
        MON_CHECK(&field(dev) == &dev.base && !nfield, P "member", "member objects");
        xme::Delegate<int(const Device&)> kind(&Device::kind);
        Special sp;
        MON_CHECK(kind(dev) == 1 && kind(sp) == 2, P "member", "virtual member function");
    }
    {  // arguments arrive as they are passed
        const void* where = nullptr;
        long value        = 0;
        xme::Delegate<void(O&)> lref([&](O& o) { where = std::addressof(o); });
        xme::Delegate<void(const O&)> cref([&](const O& o) { where = std::addressof(o); });
        xme::Delegate<void(O&&)> rref([&](O&& o) { where = std::addressof(o); });
        xme::Delegate<void(O)> byval([&](O o) { value = val(o); });
        xme::Delegate<void(O)> byref([&](O&& o) { value = val(o); });
        xme::Delegate<M(M)> ident([](M m) { return m; });
        O o(a);
        long copies = tr().copies, moves = tr().moves;
        lref(o);
        MON_CHECK(where == std::addressof(o), P "arguments", "lvalue");
        cref(o);
        MON_CHECK(where == std::addressof(o), P "arguments", "const lvalue");
        rref(std::move(o));
        MON_CHECK(where == std::addressof(o) && tr().copies == copies && tr().moves == moves && val(o) == a, P "arguments", "rvalue");
        byval(o);
        MON_CHECK(value == a && tr().copies == copies + 1 && val(o) == a, P "arguments", "by value: %ld copies", tr().copies - copies);
        byref(o);
        MON_CHECK(value == a && tr().copies == copies + 2 && val(o) == a, P "arguments", "by value: %ld copies", tr().copies - copies);
        byval(O(b));
        MON_CHECK(value == b && tr().copies == copies + 2, P "arguments", "by value from an rvalue: copied");
        M m(a);
        M back = ident(std::move(m));
        MON_CHECK(val(back) == a, P "arguments", "move only");
        int x = a, y = b;
        xme::Delegate<int&(int&, int&)> pick([](int& p, int& q) -> int& { return p > q ? p : q; });
        MON_CHECK(&pick(x, y) == (a > b ? &x : &y), P "result", "reference");
        xme::Delegate<void(int&)> vb(bump);
        vb(x);
        MON_CHECK(x == a + 1, P "arguments", "function of a reference");
        xme::Delegate<std::string(int, std::string, char)> mix([](int i, const std::string& s, char c) { return std::to_string(i) + s + c; });
        MON_CHECK(mix(a, "-text-", 'x') == std::to_string(a) + "-text-x", P "arguments", "order");
        xme::Delegate<long(short)> conv([](long l) { return l + 1; });
        static_assert(std::is_same_v<decltype(conv(1)), long>);
        MON_CHECK(conv((short)a) == a + 1, P "arguments", "converted");
        // results nobody asked for are dropped
        int dropped = 0;
        xme::Delegate<void(int)> ignores([&](int v) { return O(dropped += v); });
        xme::Delegate<void(Device&, int, int)> ignores_member(&Device::add);
        xme::Delegate<void(int, const std::string&)> ignores_function(taking);
        ignores(a);
        ignores(b);
        ignores_function(a, "");
        ignores_member(dev, 1, 2);
        MON_CHECK(dropped == a + b, P "call", "a functor whose result is dropped");
        // a target that throws stays where it is
        xme::Delegate<int(int)> thrower([k = 0](int v) mutable {
            ++k;
            if(v < 0) throw Injected{v};
            return k;
        });
        bool thrown = false;
        try {
            thrower(-3);
        } catch(const Injected& i) {
            thrown = i.what == -3;
        }
        MON_CHECK(thrown && thrower(1) == 2, P "exception-lost", "a throwing target");
        // reference wrappers and other wrappers as targets
        Small sm{a, 0};
        D ref(std::ref(sm));
        ref(1);
        ref(2);
        MON_CHECK(sm.state == 2, P "call", "a reference wrapper calls a copy");
        std::function<int(int)> fun = sm;
        D wrapped(fun);
        D nested(xme::Delegate<long(long)>([](long l) { return l * 2; }));
        MON_CHECK(wrapped(5) == answer(a, 2, 5) && nested(a) == 2 * a, P "call", "wrapped functions");
        // targets that can be built from a list of themselves
        Listed listed(a);
        ListedLarge large(a);
        D l0(listed), l1(static_cast<Listed>(b)), l2(large), l3;
        l3 = listed;
        D l4 = l0, l5 = l2;
        MON_CHECK(l0(b) == a + b && l1(a) == a + b && l2(b) == a + b && l3(b) == a + b && l4(b) == a + b && l5(b) == a + b, P "call", "targets that can be built from lists");
        // deduced signatures
        xme::Delegate ded(taking);
        static_assert(std::is_same_v<decltype(ded), xme::Delegate<int(int, const std::string&)>>);
        xme::Delegate ded2(Callee{});
        static_assert(std::is_same_v<decltype(ded2), xme::Delegate<int(int, double)>>);
        xme::Delegate ded3(CalleeConst{});
        static_assert(std::is_same_v<decltype(ded3), xme::Delegate<int(int, double)>>);
        xme::Delegate ded4([&](int& q) { return q + b; });
        static_assert(std::is_same_v<decltype(ded4), xme::Delegate<int(int&)>>);
        MON_CHECK(ded(a, "four") == a + 4 && ded2(a, 2.5) == a + 2 && ded3(a, 2.5) == a - 2 && ded4(x) == x + b, P "call", "deduced");
    }
    seen(hash2(a, b));
}

int main(int argc, char** argv) {
    init(argc, argv);
    lifetime_prefix() = P;
    long n = st().cases;
    shared_state();
    cases("histories", n, [&](Rng& r, long) { history(r); });
    cases("storage", n, [&](Rng& r, long) { storage(r); });
    cases("signatures", n / 2, [&](Rng& r, long) {
        tr().reset();
        signatures(r);
        MON_CHECK(tr().live.empty(), P "targets-alive", "%zu objects left alive", tr().live.size());
    });
    return finish();
}
