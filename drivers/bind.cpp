// Checks that calls of xme::bind_front and xme::bind_back reach the callable once, with the
// arguments in order, with their identity, constness and value category (C18).
#include "../harness/track.hpp"
#include <functional>
#include <memory>
#include <optional>
#include <tuple>
#include <xme/core/functional/bind.hpp>

using namespace mon;
using O = Obj<k_copy | k_default>;
using M = Obj<k_default>;
using T = Obj<k_copy | k_throw_all>;

// What one call of the recorder saw
struct Call {
    char self;                        // l, c, r or k (const rvalue)
    std::string cats;                 // of each argument
    std::vector<const void*> where;
    std::vector<long> vals;
};
static std::vector<Call>& calls() {
    static std::vector<Call> v;
    return v;
}
template<typename A>
long value_of(const A& a) {
    if constexpr(std::is_same_v<A, std::string>) return atol(a.c_str());
    else if constexpr(is_tracked<A>) return val(a);
    else if constexpr(requires { a.get(); *a; }) return a ? *a : -1;
    else if constexpr(requires { a.get(); }) return a.get();
    else return (long)a;
}
template<typename A>
char cat() {
    return std::is_lvalue_reference_v<A&&> ? (std::is_const_v<std::remove_reference_t<A>> ? 'c' : 'l') : (std::is_const_v<std::remove_reference_t<A>> ? 'k' : 'r');
}

static int result_cell;
struct Recorder {
    O life;
    int state = 0;
    explicit Recorder(int v) : life(v) {}
    template<typename... A>
    int& record(char self, A&&... a) const {
        calls().push_back({self, {cat<A>()...}, {(const void*)std::addressof(a)...}, {value_of<std::remove_cvref_t<A>>(a)...}});
        (void)val(life);
        return result_cell;
    }
    template<typename... A> int& operator()(A&&... a) & { ++state; return record('l', std::forward<A>(a)...); }
    template<typename... A> int& operator()(A&&... a) const& { return record('c', std::forward<A>(a)...); }
    template<typename... A> int& operator()(A&&... a) && { ++state; return record('r', std::forward<A>(a)...); }
    template<typename... A> int& operator()(A&&... a) const&& { return record('k', std::forward<A>(a)...); }
};

template<typename X>
X mkx(int v) {
    if constexpr(std::is_same_v<X, std::unique_ptr<int>>) return std::make_unique<int>(v);
    else return mk<X>(v);
}

template<bool Front, typename F, typename... A>
auto bind(F&& f, A&&... a) {
    if constexpr(Front) return xme::bind_front(std::forward<F>(f), std::forward<A>(a)...);
    else return xme::bind_back(std::forward<F>(f), std::forward<A>(a)...);
}

template<typename... X>
struct L {};

struct Counts {
    long copies = tr().copies, moves = tr().moves;
};

// Binds values of types B..., then calls with arguments of types C...
template<bool Front, typename... B, typename... C>
void one(Rng& r, const char* what, L<B...>, L<C...>) {
    constexpr size_t nb = sizeof...(B), nc = sizeof...(C);
    constexpr bool copyable = (std::is_copy_constructible_v<B> && ...);
    constexpr long tracked  = (0 + ... + (is_tracked<B> ? 1 : 0));
    std::vector<int> bv, cv;
    for(size_t k = 0; k < nb; ++k) bv.push_back((int)r.range(1, 10000));
    for(size_t k = 0; k < nc; ++k) cv.push_back((int)r.range(1, 10000));
    std::string label = fmt("bind_%s of %s", Front ? "front" : "back", what);
    note("%s\n", label.c_str());
    [&]<size_t... I, size_t... J>(std::index_sequence<I...>, std::index_sequence<J...>) {
        std::tuple<B...> bound{mkx<B>(bv[I])...};
        // 0: lvalues, 1: rvalues
        for(int way = copyable ? 0 : 1; way < 2; ++way) {
            int id = (int)r.range(1, 1000);
            Recorder rec(id);
            calls().clear();
            Counts before;
            auto run = [&](auto& wrapper, const Counts& bc) {
                using W = std::remove_reference_t<decltype(wrapper)>;
                static_assert(!std::is_reference_v<W>);
                Counts after = bc;
                (void)after;
                // the bound copies are independent of the originals
                bool first = true;
                std::vector<const void*> bound_at;
                for(int form = 0; form < 4; ++form) {
                    for(int argcat = 0; argcat < 3; ++argcat) {
                        // a wrapper that is called as rvalue may be emptied: use a fresh copy
                        auto invoke = [&](auto&& w) -> int& {
                            std::tuple<C...> args{mkx<C>(cv[J])...};
                            calls().clear();
                            Counts c0;
                            int& res = [&]() -> int& {
                                if(argcat == 0) return std::forward<decltype(w)>(w)(std::get<J>(args)...);
                                else if(argcat == 1) return std::forward<decltype(w)>(w)(std::as_const(std::get<J>(args))...);
                                else return std::forward<decltype(w)>(w)(std::move(std::get<J>(args))...);
                            }();
                            Counts c1;
                            judged();
                            MON_CHECK(c0.copies == c1.copies && c0.moves == c1.moves, "C18:call-copies", "%s: the call copied (%ld) or moved (%ld) arguments", label.c_str(), c1.copies - c0.copies, c1.moves - c0.moves);
                            MON_CHECK(calls().size() == 1, "C18:calls", "%s: %zu calls of the callable", label.c_str(), calls().size());
                            MON_CHECK(&res == &result_cell, "C18:result", "%s: the result is another object", label.c_str());
                            if(calls().size() != 1) return res;
                            Call& c = calls()[0];
                            if(c.vals.size() != nb + nc) {
                                violation("C18:arguments", fmt("%s: %zu arguments arrived instead of %zu", label.c_str(), c.vals.size(), nb + nc));
                                return res;
                            }
                            size_t b0 = Front ? 0 : nc, c0i = Front ? nb : 0;
                            std::vector<long> want(nb + nc);
                            std::vector<const void*> there{(const void*)std::addressof(std::get<J>(args))...};
                            ((want[b0 + I] = value_of(mkx<B>(bv[I]))), ...);
                            ((want[c0i + J] = value_of(mkx<C>(cv[J]))), ...);
                            MON_CHECK(c.vals == want, "C18:order", "%s: other arguments, or in another order", label.c_str());
                            for(size_t k = 0; k < nc; ++k) {
                                MON_CHECK(c.where[c0i + k] == there[k], "C18:call-argument", "%s: call argument %zu isn't the object passed", label.c_str(), k);
                                MON_CHECK(c.cats[c0i + k] == "lcr"[argcat], "C18:forwarding", "%s: call argument %zu arrived as %c instead of %c", label.c_str(), k, c.cats[c0i + k], "lcr"[argcat]);
                            }
                            MON_CHECK(c.self == "lcrk"[form], "C18:callable-category", "%s: the callable was called as %c instead of %c", label.c_str(), c.self, "lcrk"[form]);
                            for(size_t k = 0; k < nb; ++k) {
                                char got = c.cats[b0 + k];
                                bool ok  = form == 3 ? got == 'c' || got == 'k' : got == "lcr"[form];
                                MON_CHECK(ok, "C18:bound-category", "%s: bound argument %zu arrived as %c from a wrapper called as %c", label.c_str(), k, got, "lcrk"[form]);
                                const char* p = (const char*)c.where[b0 + k];
                                MON_CHECK(p >= (const char*)std::addressof(w) && p < (const char*)(std::addressof(w) + 1), "C18:bound-copies", "%s: bound argument %zu isn't the one stored in the wrapper", label.c_str(), k);
                            }
                            return res;
                        };
                        seen(hash2(hash_str(label.c_str()), form * 16 + argcat * 4 + way));
                        if(form == 0) invoke(wrapper);
                        else if(form == 1) invoke(std::as_const(wrapper));
                        else if constexpr(copyable) {
                            W fresh = wrapper;
                            if(form == 2) invoke(std::move(fresh));
                            else invoke(std::move(std::as_const(fresh)));
                        }
                    }
                }
                if constexpr(!copyable) {
                    W fresh = std::move(wrapper);
                    calls().clear();
                    std::tuple<C...> args{mkx<C>(cv[J])...};
                    std::move(fresh)(std::get<J>(args)...);
                    MON_CHECK(calls().size() == 1 && calls()[0].self == 'r', "C18:calls", "%s: call of an rvalue", label.c_str());
                }
                (void)first;
            };
            auto unchanged = [&](const char* when) {
                std::vector<long> now{value_of(std::get<I>(bound))...}, want{value_of(mkx<B>(bv[I]))...};
                MON_CHECK(now == want, "C18:lvalue-modified", "%s: the bound lvalues changed (%s)", label.c_str(), when);
            };
            if(way == 0) {
                if constexpr(copyable) {
                    Counts c0;
                    auto w = bind<Front>(rec, std::get<I>(bound)...);
                    Counts c1;
                    MON_CHECK(c1.copies - c0.copies == tracked + 1 && c1.moves == c0.moves, "C18:bind-cost", "%s: binding %ld lvalues made %ld copies and %ld moves", label.c_str(), tracked + 1, c1.copies - c0.copies, c1.moves - c0.moves);
                    unchanged("when bound");
                    run(w, c1);
                    unchanged("when called");
                    // later changes to the originals don't reach the bound copies
                    if constexpr(nb > 0 && (is_tracked<B> && ...)) {
                        (void(std::get<I>(bound) = mkx<B>(-5)), ...);
                        calls().clear();
                        std::tuple<C...> args{mkx<C>(cv[J])...};
                        w(std::get<J>(args)...);
                        for(size_t k = 0; k < nb; ++k)
                            MON_CHECK(calls()[0].vals[(Front ? 0 : nc) + k] == bv[k], "C18:not-decayed", "%s: bound argument %zu follows the original", label.c_str(), k);
                        (void(std::get<I>(bound) = mkx<B>(bv[I])), ...);
                    }
                    MON_CHECK(rec.state == 0, "C18:not-decayed", "%s: calls reached the original callable", label.c_str());
                    // const callable and const arguments
                    const Recorder crec(id);
                    auto wc = bind<Front>(crec, std::as_const(std::get<I>(bound))...);
                    static_assert(std::is_same_v<decltype(w), decltype(wc)>, "bound arguments aren't decayed");
                    run(wc, c1);
                }
            }
            else {
                Counts c0;
                auto w = bind<Front>(std::move(rec), std::move(std::get<I>(bound))...);
                Counts c1;
                MON_CHECK(c1.copies == c0.copies && c1.moves - c0.moves == tracked + 1, "C18:bind-cost", "%s: binding %ld rvalues made %ld copies and %ld moves", label.c_str(), tracked + 1, c1.copies - c0.copies, c1.moves - c0.moves);
                run(w, c1);
            }
        }
    }(std::make_index_sequence<nb>{}, std::make_index_sequence<nc>{});
}

template<bool Front, typename... B, typename... C>
void both(Rng& r, const char* what, L<B...> b, L<C...> c) {
#if !defined SIDE || SIDE == 0
    one<true>(r, what, b, c);
#endif
#if !defined SIDE || SIDE == 1
    one<false>(r, what, b, c);
#endif
}

// Member pointers and plain functions
struct Device {
    int base = 0;
    int add(int a, int b) { return base * 10000 + a * 100 + b; }
    int addc(int a, int b) const { return -(base * 10000 + a * 100 + b); }
    std::string name() const& { return "lvalue"; }
    std::string name() && { return "rvalue"; }
    virtual int kind() const { return 1; }
    virtual ~Device() = default;
};
struct Special : Device {
    int kind() const override { return 2; }
};
static int digits(int a, int b, int c, int d) { return a * 1000 + b * 100 + c * 10 + d; }
static int give(int& x) { return ++x; }
static std::unique_ptr<int> wrap(std::unique_ptr<int> p, int plus) {
    *p += plus;
    return p;
}

static int thrown_in_call(int x) {
    if(x > 5) throw Injected{x};
    return x;
}

int main(int argc, char** argv) {
    init(argc, argv);
    lifetime_prefix() = "C18:";
    long n = st().cases;
    using S = std::string;
    using U = std::unique_ptr<int>;
    auto group = [&](const char* name, long count, auto&& f) {
        cases(name, count, [&](Rng& r, long) {
            tr().reset();
            f(r);
            calls().clear();
            MON_CHECK(tr().live.empty(), "C18:lifetime", "%zu objects left alive", tr().live.size());
        });
    };
#if !defined SIDE || SIDE < 2
    group("recorded calls", n, [](Rng& r) {
        both<true>(r, "nothing, called with nothing", L<>{}, L<>{});
        both<true>(r, "nothing, called with 2", L<>{}, L<int, O>{});
        both<true>(r, "1, called with nothing", L<O>{}, L<>{});
        both<true>(r, "1, called with 1", L<int>{}, L<O>{});
        both<true>(r, "object, called with 2", L<O>{}, L<S, M>{});
        both<true>(r, "3, called with 2", L<O, int, S>{}, L<O, O>{});
        both<true>(r, "same types", L<O, O, O>{}, L<O, O, O>{});
        both<true>(r, "move only, called with move only", L<M, U>{}, L<M>{});
        both<true>(r, "5, called with 3", L<int, O, S, O, double>{}, L<O, S, int>{});
    });
#endif
#if !defined SIDE || SIDE == 2
    group("functions and member pointers", n * 3, [](Rng& r) {
        int a = (int)r.below(10), b = (int)r.below(10), c = (int)r.below(10), d = (int)r.below(10);
        judged(10);
        note("%d %d %d %d\n", a, b, c, d);
        int full = digits(a, b, c, d);
        MON_CHECK(xme::bind_front(digits, a)(b, c, d) == full && xme::bind_front(digits, a, b)(c, d) == full && xme::bind_front(&digits, a, b, c)(d) == full && xme::bind_front(digits, a, b, c, d)() == full
                    && xme::bind_front(digits)(a, b, c, d) == full,
                  "C18:order", "bind_front of a function");
        MON_CHECK(xme::bind_back(digits, d)(a, b, c) == full && xme::bind_back(digits, c, d)(a, b) == full && xme::bind_back(&digits, b, c, d)(a) == full && xme::bind_back(digits, a, b, c, d)() == full
                    && xme::bind_back(digits)(a, b, c, d) == full,
                  "C18:order", "bind_back of a function");
        MON_CHECK(xme::bind_front(xme::bind_back(digits, c, d), a)(b) == full && xme::bind_back(xme::bind_front(digits, a), d)(b, c) == full && xme::bind_front(xme::bind_front(digits, a), b)(c, d) == full
                    && xme::bind_back(xme::bind_back(digits, d), c)(a, b) == full,
                  "C18:order", "nested binds");
        Device dev;
        dev.base = a;
        int want = dev.add(b, c);
        MON_CHECK(xme::bind_front(&Device::add, dev)(b, c) == want && xme::bind_front(&Device::add, &dev)(b, c) == want && xme::bind_front(&Device::add, std::ref(dev), b)(c) == want
                    && xme::bind_back(&Device::add, c)(dev, b) == want && xme::bind_back(&Device::add, b, c)(&dev) == want && xme::bind_front(&Device::addc, std::as_const(dev))(b, c) == -want
                    && xme::bind_front(&Device::addc, std::make_unique<Device>(dev))(b, c) == -want && xme::bind_front(&Device::add, std::make_shared<Device>(dev), b)(c) == want,
                  "C18:member", "member functions");
        Special sp;
        MON_CHECK(xme::bind_front(&Device::kind, &sp)() == 2 && xme::bind_front(&Device::kind, std::ref((Device&)sp))() == 2 && xme::bind_front(&Device::kind, (Device&)sp)() == 1, "C18:member", "virtual functions");
        auto field = xme::bind_front(&Device::base, &dev);
        static_assert(std::is_same_v<decltype(field()), int&>);
        field() = d;
        MON_CHECK(dev.base == d, "C18:member", "member object through a pointer");
        auto mine = xme::bind_front(&Device::base, dev);
        static_assert(std::is_same_v<decltype(mine()), int&>);
        static_assert(std::is_same_v<decltype(std::as_const(mine)()), const int&>);
        static_assert(std::is_same_v<decltype(std::move(mine)()), int&&>);
        mine() = d + 1;
        MON_CHECK(dev.base == d && mine() == d + 1, "C18:not-decayed", "member object of a bound copy");
        auto nm = xme::bind_front(static_cast<S (Device::*)() &&>(&Device::name), dev);
        MON_CHECK(std::move(nm)() == "rvalue", "C18:callable-category", "rvalue qualified member function");
        // a bound reference wrapper refers to the original, a bound lvalue doesn't
        int x = a;
        auto ref = xme::bind_front(give, std::ref(x));
        MON_CHECK(ref() == a + 1 && x == a + 1, "C18:reference", "bound reference wrapper");
        // what is bound arrives with its own decayed type
        auto kinds = []<typename... A>(A&&...) { return std::type_identity<std::tuple<A&&...>>{}; };
        auto front = xme::bind_front(kinds, std::ref(x), std::cref(x), give, "text", std::optional<int>(1), nullptr);
        auto back  = xme::bind_back(kinds, std::ref(x), std::cref(x), give, "text", std::optional<int>(1), nullptr);
        using Ref  = std::reference_wrapper<int>;
        using Cref = std::reference_wrapper<const int>;
        using Same = std::type_identity<std::tuple<Ref&, Cref&, int (*&)(int&), const char*&, std::optional<int>&, std::nullptr_t&>>;
        using Gone = std::type_identity<std::tuple<Ref&&, Cref&&, int (*&&)(int&), const char*&&, std::optional<int>&&, std::nullptr_t&&>>;
        MON_CHECK((std::is_same_v<decltype(front()), Same> && std::is_same_v<decltype(back()), Same> && std::is_same_v<decltype(std::move(front)()), Gone> && std::is_same_v<decltype(std::move(back)()), Gone>), "C18:not-decayed", "types of what is bound");
        auto copy = xme::bind_front(give, x);
        MON_CHECK(copy() == a + 2 && copy() == a + 3 && x == a + 1, "C18:not-decayed", "bound lvalue");
        // copies of the wrapper have their own bound arguments and callable
        auto other = copy;
        MON_CHECK(other() == a + 4 && copy() == a + 4 && copy() == a + 5 && other() == a + 5, "C18:copies", "copies share state");
        other = copy;
        copy();
        MON_CHECK(other() == a + 6, "C18:copies", "assigned copies share state");
        int total    = 0;
        auto counter = xme::bind_back([k = 0](int by, int times) mutable { return k += by * times; }, b);
        auto second  = counter;
        total        = counter(2) + counter(3);
        MON_CHECK(total == 2 * b + 5 * b && second(1) == b, "C18:copies", "the callable is shared between copies");
        // move only results and arguments
        auto w = xme::bind_back(wrap, c);
        MON_CHECK(*w(std::make_unique<int>(b)) == b + c, "C18:move-only", "argument");
        auto w2 = xme::bind_front(wrap, std::make_unique<int>(a));
        auto w3 = std::move(w2);
        MON_CHECK(*std::move(w3)(d) == a + d, "C18:move-only", "bound argument");
        // references out
        int cell   = 0;
        auto ident = [](auto&& y) -> decltype(auto) { return std::forward<decltype(y)>(y); };
        auto id1   = xme::bind_front(ident);
        static_assert(std::is_same_v<decltype(id1(cell)), int&> && std::is_same_v<decltype(id1(std::move(cell))), int&&> && std::is_same_v<decltype(id1(std::as_const(cell))), const int&>);
        static_assert(std::is_same_v<decltype(xme::bind_back(ident)(cell)), int&>);
        MON_CHECK(&id1(cell) == &cell, "C18:result", "reference result");
        static_assert(std::is_void_v<decltype(xme::bind_front([](int) {}, 1)())>);
        // decay of arrays and functions
        char text[] = "abc";
        auto arr    = xme::bind_front([](const char* p, auto f, int v) { return f(p[0] + v, 0, 0, 0); }, text, digits);
        text[0]     = 'b';
        MON_CHECK(arr(c) == ('b' + c) * 1000, "C18:decay", "arrays and functions decay to pointers");
        seen(full);
    });
#if defined(__cpp_explicit_this_parameter)
    // binding arguments to a function that is part of the type
    group("constant functions", n * 3, [](Rng& r) {
        int a = (int)r.below(10), b = (int)r.below(10), c = (int)r.below(10), d = (int)r.below(10);
        judged(8);
        note("%d %d %d %d\n", a, b, c, d);
        int full = digits(a, b, c, d);
        MON_CHECK(xme::bindFront<digits>(a)(b, c, d) == full && xme::bindFront<digits>(a, b)(c, d) == full && xme::bindFront<&digits>(a, b, c)(d) == full && xme::bindFront<digits>(a, b, c, d)() == full
                    && xme::bindFront<digits>()(a, b, c, d) == full,
                  "C18:order", "bindFront of a function");
        MON_CHECK(xme::bindBack<digits>(d)(a, b, c) == full && xme::bindBack<digits>(c, d)(a, b) == full && xme::bindBack<&digits>(b, c, d)(a) == full && xme::bindBack<digits>(a, b, c, d)() == full
                    && xme::bindBack<digits>()(a, b, c, d) == full,
                  "C18:order", "bindBack of a function");
        Device dev;
        dev.base = a;
        int want = dev.add(b, c);
        MON_CHECK(xme::bindFront<&Device::add>(&dev)(b, c) == want && xme::bindFront<&Device::add>(std::ref(dev), b)(c) == want && xme::bindBack<&Device::add>(c)(dev, b) == want
                    && xme::bindFront<&Device::addc>(dev)(b, c) == -want,
                  "C18:member", "constant member functions");
        static constexpr auto cats = [](auto&&... x) { return std::string{cat<decltype(x)>()...}; };
        O bound(a), arg(b);
        auto f = xme::bindFront<cats>(bound);
        auto g = xme::bindBack<cats>(bound);
        MON_CHECK(f(arg) == "ll" && std::as_const(f)(std::as_const(arg)) == "cc" && f(std::move(arg)) == "lr" && std::move(f)(arg) == "rl", "C18:forwarding", "bindFront");
        MON_CHECK(g(arg) == "ll" && std::as_const(g)(arg) == "lc" && g(std::as_const(arg)) == "cl" && std::move(g)(arg) == "lr", "C18:forwarding", "bindBack");
        static constexpr auto self = [](auto&& x, auto&& y) { return std::pair((const void*)std::addressof(x), (const void*)std::addressof(y)); };
        auto where = xme::bindFront<self>(bound);
        auto [p, q] = where(arg);
        MON_CHECK(p >= (const void*)&where && p < (const void*)(&where + 1) && q == (const void*)std::addressof(arg), "C18:bound-copies", "bindFront of a constant function");
        MON_CHECK(where(arg).first == p, "C18:bound-copies", "bindFront of a constant function");
        auto w = xme::bindBack<wrap>(c);
        MON_CHECK(*w(std::make_unique<int>(b)) == b + c, "C18:move-only", "argument");
        auto w2 = xme::bindFront<wrap>(std::make_unique<int>(a));
        MON_CHECK(*std::move(w2)(d) == a + d, "C18:move-only", "bound argument");
        int x    = a;
        auto ref = xme::bindFront<give>(std::ref(x));
        MON_CHECK(ref() == a + 1 && x == a + 1, "C18:reference", "bound reference wrapper");
        count("constant functions");
        seen(full + 100000);
    });
#endif
    group("exceptions", n * 3, [](Rng& r) {
        // failing copies when binding and when copying, failing calls
        T a(1), b(2), c(3);
        auto fn     = [](const T& x, const T& y, const T& z) { return x.v * 100 + y.v * 10 + z.v; };
        long at     = (long)r.below(4), at2 = (long)r.below(4);
        if(r.below(2)) at = 9;  // binding succeeds, copying the bound call may fail
        bool thrown = false;
        size_t alive = tr().live.size();
        tr().arm(at, -1);
        try {
            auto w = xme::bind_front(fn, a, b);
            tr().disarm();
            MON_CHECK(w(c) == 123, "C18:order", "throwing objects");
            tr().arm(at2, -1);
            auto w2 = w;
            tr().disarm();
            MON_CHECK(w2(c) == 123, "C18:copies", "throwing objects");
            tr().arm(at2 == 3 ? 0 : at2, -1);
            w2 = w;
            tr().disarm();
            MON_CHECK(w2(c) == 123, "C18:copies", "assigned throwing objects");
        } catch(const Injected&) {
            thrown = true;
        }
        bool fired = tr().fired;
        tr().disarm();
        judged(2);
        MON_CHECK(thrown == fired, "C18:exception", "a failing copy at %ld wasn't reported", at);
        MON_CHECK(tr().live.size() == alive, "C18:lifetime", "%zu objects instead of %zu after binding failed", tr().live.size(), alive);
        thrown = false;
        tr().arm(at, -1);
        try {
            auto w = xme::bind_back(fn, b, c);
            tr().disarm();
            MON_CHECK(w(a) == 123, "C18:order", "throwing objects");
            tr().arm(at2, -1);
            auto w2 = w;
            tr().disarm();
            MON_CHECK(std::as_const(w2)(a) == 123, "C18:copies", "throwing objects");
            tr().arm(at2 == 3 ? 0 : at2, -1);
            w2 = w;
            tr().disarm();
            MON_CHECK(w2(a) == 123, "C18:copies", "assigned throwing objects");
        } catch(const Injected&) {
            thrown = true;
        }
        MON_CHECK(thrown == tr().fired, "C18:exception", "a failing copy at %ld wasn't reported", at);
        tr().disarm();
        MON_CHECK(tr().live.size() == alive, "C18:lifetime", "%zu objects instead of %zu after binding failed", tr().live.size(), alive);
        int x = (int)r.range(0, 10);
        auto calls_it = [&](auto&& w, const char* what, auto... args) {
            int got = -1;
            try {
                int v = w(args...);
                MON_CHECK(v == x && x <= 5, "C18:exception", "%s: no exception for %d", what, x);
            } catch(const Injected& i) {
                got = i.what;
                MON_CHECK(got == x && x > 5, "C18:exception", "%s: wrong exception", what);
            }
        };
        calls_it(xme::bind_front(thrown_in_call, x), "bind_front");
        calls_it(xme::bind_back(thrown_in_call, x), "bind_back");
        auto w = xme::bind_front(thrown_in_call);
        calls_it(w, "lvalue bind_front", x);
        calls_it(std::as_const(w), "const bind_front", x);
        auto w2 = xme::bind_back(thrown_in_call);
        calls_it(w2, "lvalue bind_back", x);
        calls_it(std::as_const(w2), "const bind_back", x);
        seen(hash2(at * 16 + at2, x));
    });
#endif
    return finish();
}
