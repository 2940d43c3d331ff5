// Runs random programs of nested scopes that hold xme::ScopedDelegate objects and are left in
// every way. A monitor keeps the stack of delegates that are alive, and checks that each function
// is called once, when its scope ends and in reverse order of construction (C21).
#include "../harness/track.hpp"
#include <functional>
#include <memory>
#include <optional>
#include <stdexcept>
#include <xme/core/functional/delegate.hpp>
#include <utility>
#include <concepts>
#include <xme/core/functional/scoped_delegate.hpp>

using namespace mon;
#define P "C21:"
using xme::ScopedDelegate;

// The delegates alive, in order of construction
struct Alive {
    long id;
    bool body_over = false;
};
static std::vector<Alive> alive;
static long next_id, calls;
static const char* kind_now = "";

static void called(long id) {
    ++calls;
    judged();
    if(alive.empty()) return violation(P "extra-call", fmt("function %ld was called with no delegate alive", id));
    MON_CHECK(alive.back().id == id, P "order", "function %ld was called, that of %ld should be", id, alive.back().id);
    MON_CHECK(alive.back().body_over, P "early-call", "function %ld was called before the end of its scope", id);
    alive.pop_back();
}
// Before the delegate: its end comes after the call
struct Outer {
    long id;
    size_t depth = alive.size();
    ~Outer() {
        bool there = false;
        for(auto& a : alive) there |= a.id == id;
        MON_CHECK(!there, P "not-called", "function %ld wasn't called at the end of its scope", id);
        while(alive.size() > depth) alive.pop_back();
    }
};
// After the delegate: its end comes before the call
struct Inner {
    explicit Inner(long id) { alive.push_back({id}); }
    ~Inner() {
        if(!alive.empty()) alive.back().body_over = true;
    }
};

static long fn_id;
static void plain_function() { called(fn_id); }
static int noexcept_function() noexcept { called(fn_id); return 3; }

struct Functor {
    long id;
    void operator()() const { called(id); }
};
struct Mutable {
    long id;
    int n = 0;
    Mutable(long i) : id(i) {}
    Mutable(const Mutable&) = default;
    long operator()() {
        MON_CHECK(++n == 1, P "extra-call", "the function is called %d times", n);
        called(id);
        return n;
    }
};
struct Both {  // overloaded for constant and modifiable functors
    long id;
    bool* by_const;
    void operator()() { called(id); *by_const = false; }
    void operator()() const { called(id); *by_const = true; }
};
struct alignas(64) Wide {
    long id;
    char pad[100];
    void operator()() const {
        MON_CHECK((std::uintptr_t)this % 64 == 0, P "misaligned", "the function is at a misaligned address");
        called(id);
    }
};
struct MoveOnly {
    std::unique_ptr<long> id;
    void operator()() { called(id ? *id : -2); }
};
struct Counted {
    Obj<k_copy> life;
    explicit Counted(long id) : life((int)id) {}
    void operator()() {
        life.check();
        called(val(life));
    }
};

struct Leave { long id; };

enum Way { normal, by_return, by_break, by_continue, by_throw, by_goto, ways };

// One scope: constructs a delegate of some kind, runs the body and leaves the scope
static long scope(Rng& r, int depth);

template<typename Construct>
static long scoped(Rng& r, int depth, long id, Construct&& with) {
    Way way   = (Way)r.below(ways);
    int inner = depth > 0 ? (int)r.below(3) : 0;
    note("{%ld %s way %d inner %d\n", id, kind_now, way, inner);
    seen(hash2(hash2(way, depth), hash2(inner, hash_str(kind_now))));
    count(way == by_throw ? "left by exception" : way == normal ? "left normally" : "left by a jump");
    with(way, inner);
    return id;
}

// Everything that follows the construction of the delegate in its scope
#define BODY(...)                                                             \
    Inner inner_(id);                                                         \
    __VA_ARGS__;                                                              \
    for(int k = 0; k < inner; ++k) scope(r, depth - 1);                       \
    if(way == by_throw) throw Leave{id};                                      \
    if(way == by_return) return;                                              \
    if(way == by_goto) goto out;

#define LEAVE(declare, ...)                                                   \
    return scoped(r, depth, id, [&](Way way, int inner) {                     \
        if(way == by_break || way == by_continue) {                           \
            for(int turn = 0; turn < 1; ++turn) {                             \
                Outer outer_{id};                                             \
                declare;                                                      \
                Inner inner_(id);                                             \
                __VA_ARGS__;                                                  \
                for(int k = 0; k < inner; ++k) scope(r, depth - 1);           \
                if(way == by_break) break;                                    \
                else continue;                                                \
            }                                                                 \
        }                                                                     \
        else {                                                                \
            Outer outer_{id};                                                 \
            declare;                                                          \
            BODY(__VA_ARGS__)                                                 \
        }                                                                     \
    out:;                                                                     \
    })

static long dispatch(Rng& r, int depth) {
    const long id = ++next_id;
    switch(r.below(20)) {
    case 0: kind_now = "lambda"; LEAVE(ScopedDelegate d([&] { called(id); }));
    case 1: {
        kind_now = "lambda lvalue";
        auto f   = [&] { called(id); };
        LEAVE(ScopedDelegate d(f));
    }
    case 2: {
        kind_now = "functor lvalue, changed afterwards";
        Functor f{id};
        LEAVE(ScopedDelegate d(f), f.id = -1);
    }
    case 3: {
        kind_now = "const functor lvalue";
        const Functor f{id};
        LEAVE(ScopedDelegate d(f));
    }
    case 4: {
        kind_now = "mutable functor lvalue, called and changed afterwards";
        Mutable f{id};
        LEAVE(ScopedDelegate d(f), f.id = -1; f.n = 7);
    }
    case 5: kind_now = "mutable functor rvalue"; LEAVE(ScopedDelegate d(Mutable{id}));
    case 6: {
        kind_now = "move only functor";
        MoveOnly f{std::make_unique<long>(id)};
        LEAVE(ScopedDelegate d(std::move(f)), MON_CHECK(!f.id, P "rvalue-copied", "the function wasn't moved"));
    }
    case 7: {
        kind_now = "functor with a lifetime, lvalue";
        Counted f(id);
        LEAVE(ScopedDelegate d(f), { MON_CHECK(val(f.life) == id, P "source-modified", "the function given was changed"); f = Counted(-1); });
    }
    case 8: {
        kind_now = "functor with a lifetime, lvalue that ends first";
        std::optional<Counted> f(id);
        LEAVE(ScopedDelegate d(*f), f.reset());
    }
    case 9: {
        kind_now    = "functor with a lifetime, rvalue";
        long copies = tr().copies;
        LEAVE(ScopedDelegate d(Counted{id}), MON_CHECK(tr().copies == copies, P "rvalue-copied", "an rvalue function was copied"));
    }
    case 10: {
        kind_now = "overloaded functor";
        bool c   = true;
        {
            Outer outer_{id};
            ScopedDelegate d(Both{id, &c});
            Inner inner_(id);
        }
        MON_CHECK(!c, P "const-call", "a modifiable function was called as a constant");
        return id;
    }
    case 11: {
        kind_now = "over-aligned functor";
        Wide f{id, {}};
        LEAVE(ScopedDelegate d(f), f.id = -1);
    }
    case 12: {
        kind_now = "std::function";
        std::function<void()> f([id] { called(id); });
        LEAVE(ScopedDelegate d(f), f = nullptr);
    }
    case 13: {
        kind_now = "Delegate";
        xme::Delegate<void()> f([id] { called(id); });
        LEAVE(ScopedDelegate d(f), f = nullptr);
    }
    case 14: {
        kind_now = "function pointer";
        long saved = fn_id;
        {
            Outer outer_{id};
            void (*f)() = plain_function;
            ScopedDelegate d(f);
            f = nullptr;
            Inner inner_(id);
            fn_id = id;
        }
        fn_id = saved;
        return id;
    }
    case 15: {
        kind_now = "noexcept function pointer rvalue";
        long saved = fn_id;
        {
            Outer outer_{id};
            ScopedDelegate d(&noexcept_function);
            Inner inner_(id);
            fn_id = id;
        }
        fn_id = saved;
        return id;
    }
    case 16: kind_now = "several in one scope";
        {
            Outer o1{id};
            ScopedDelegate a([&] { called(id); });
            Inner i1(id);
            long id2 = ++next_id;
            Outer o2{id2};
            Functor f{id2};
            ScopedDelegate b(f);
            Inner i2(id2);
            {
                const long id = ++next_id;
                LEAVE(ScopedDelegate c(Functor{id}));
            }
        }
    case 17: kind_now = "on the heap";
        {
            Outer outer_{id};
            auto make = [id] { called(id); };
            auto p    = std::make_unique<ScopedDelegate<decltype(make)>>(make);
            long n    = calls;
            { Inner inner_(id); }
            MON_CHECK(calls == n, P "early-call", "called before the delegate ends");
            if(r.chance(50)) p.reset();
        }
        return id;
    case 18: kind_now = "optional, emplaced again";
        {
            auto f = [](long i) { return [i] { called(i); }; };
            std::optional<ScopedDelegate<decltype(f(1))>> o;
            for(int k = 0; k < 3; ++k) {
                long i = ++next_id;
                Outer outer_{i};
                o.emplace(f(i));
                { Inner inner_(i); }
                o.reset();
            }
        }
        return id;
    default: kind_now = "member of an object";
        struct Holder {
            long id;
            Outer outer_{id};
            Functor f{id};
            ScopedDelegate<Functor> d{f};
            Inner inner_{id};
            explicit Holder(long i, bool fail) : id(i) {
                f.id = -3;
                if(fail) throw Leave{i};
            }
        };
        {
            bool fail = r.chance(50);
            note("{%ld member fail %d\n", id, fail);
            Holder h(id, fail);
        }
        return id;
    }
}

static long scope(Rng& r, int depth) {
    size_t before = alive.size();
    long first    = next_id + 1;
    if(r.chance(70)) {
        // exceptions end here
        try {
            dispatch(r, depth);
        } catch(const Leave& l) {
            MON_CHECK(l.id >= first && l.id <= next_id, P "exception-lost", "another exception arrives");
            judged();
        }
        MON_CHECK(alive.size() == before, P "not-called", "%zu functions were not called", alive.size() - before);
    }
    else dispatch(r, depth);
    return 0;
}

static void returns_value() {
    // the function runs after the result is computed
    int x  = 5;
    auto f = [&](bool early) {
        ScopedDelegate d([&] { x = 9; });
        if(early) return x + 0;
        return x * 2;
    };
    MON_CHECK(f(true) == 5 && x == 9, P "early-call", "returned value");
    x = 5;
    MON_CHECK(f(false) == 10 && x == 9, P "early-call", "returned value");
    // a temporary ends with its expression
    int order = 0, at = 0;
    auto rec  = [&] { at = ++order; };
    (void)(ScopedDelegate<decltype(rec)>(std::move(rec)), ++order);
    MON_CHECK(at == 2 && order == 2, P "order", "temporary: called at %d", at);
    judged(3);
}

constexpr int at_compile_time(int way) {
    int n = 1;
    for(int i = 0; i < 3; ++i) {
        auto f = [&] { n = n * 10 + i; };
        ScopedDelegate a(f);
        ScopedDelegate b([&] { n = n * 10 + 7; });
        if(way == 1 && i == 1) break;
        if(way == 2) return n;
    }
    return n;
}
template<typename T> concept copies = std::is_copy_constructible_v<T> || std::is_copy_assignable_v<T> || std::is_move_assignable_v<T>;
struct Any { void operator()() const {} };
static_assert(!copies<ScopedDelegate<Any>> && !copies<ScopedDelegate<void (*)()>>);

int main(int argc, char** argv) {
    init(argc, argv);
    lifetime_prefix() = P;
    cases("programs", st().cases, [&](Rng& r, long) {
        tr().reset();
        alive.clear();
        long first = next_id, was = calls;
        try {
            for(int k = 0; k < 4; ++k) scope(r, (int)r.below(5));
        } catch(const Leave& l) {
            MON_CHECK(l.id > first, P "exception-lost", "another exception arrives");
        }
        MON_CHECK(alive.empty(), P "not-called", "%zu functions were never called", alive.size());
        MON_CHECK(tr().live.empty(), P "leak", "%zu function objects outlive their delegate", tr().live.size());
        count("functions called", calls - was);
    });
    cases("values", 1, [&](Rng&, long) {
        returns_value();
        constexpr int a = at_compile_time(0), b = at_compile_time(1), c = at_compile_time(2);
        MON_CHECK(a == 1707172 && b == 17071 && c == 1, P "constant", "at compile time: %d %d %d", a, b, c);
        judged(3);
    });
    return finish();
}
