// Runs the operators, constructors, assignments and comparisons of xme::math::Vector on random
// values and aliased operands, and compares every component with scalar arithmetic (C27).
// -DPART splits the component types.
#include "../harness/mon.hpp"
#include <cmath>
#include <compare>
#include <cstdint>
#include <limits>
#include <type_traits>
#include <utility>
#include <xme/math/math.hpp>
#include <xme/math/glsl_mapping.hpp>
#ifndef PART
#define PART 0
#endif

using namespace mon;
#define P "C27:"
using xme::math::Vector;

template<typename T>
constexpr const char* tn() {
    if constexpr(std::is_same_v<T, float>) return "float";
    else if constexpr(std::is_same_v<T, double>) return "double";
    else if constexpr(std::is_same_v<T, long double>) return "long double";
    else if constexpr(std::is_same_v<T, bool>) return "bool";
    else if constexpr(std::is_same_v<T, std::int8_t>) return "int8";
    else if constexpr(std::is_same_v<T, std::uint8_t>) return "uint8";
    else if constexpr(std::is_same_v<T, std::int16_t>) return "int16";
    else if constexpr(std::is_same_v<T, std::uint16_t>) return "uint16";
    else if constexpr(std::is_same_v<T, std::int32_t>) return "int32";
    else if constexpr(std::is_same_v<T, std::uint32_t>) return "uint32";
    else if constexpr(std::is_same_v<T, std::int64_t>) return "int64";
    else if constexpr(std::is_same_v<T, std::uint64_t>) return "uint64";
    else return "another";
}

// The component type of an operation must not overflow for signed types
template<typename T>
bool safe(T t) {
    if constexpr(std::is_floating_point_v<T> || sizeof(T) == 1) return true;
    else if constexpr(sizeof(T) == 2) return t < 40000;
    else if constexpr(std::is_unsigned_v<T>) return true;
    else {
        const T limit = T(1) << (4 * sizeof(T) - 2);
        return t > -limit && t < limit;
    }
}
template<typename T>
T any(Rng& r) {
    u64 n = r.next();
    if constexpr(std::is_same_v<T, bool>) return n & 1;
    else if constexpr(std::is_floating_point_v<T>) {
        switch(n % 12) {
        case 0: return T((int)(n >> 20) % 4);
        case 1: return -T(0);
        case 2: return n & 4096 ? T(INFINITY) : T(NAN);
        case 3: return T((std::int32_t)(n >> 24));
        case 4: return T(std::ldexp(1.0, (int)((n >> 20) % 240) - 120));
        default: return T((r.real() - 0.5) * std::pow(10.0, (int)((n >> 20) % 13) - 6));
        }
    }
    else if(n & 1) return (T)(n >> 32);
    else return (T)((int)((n >> 8) % 21) - 10);
}
// A value of U that is meaningful as a T
template<typename T, typename U>
U value(Rng& r) {
    for(int k = 0; k < 4; ++k) {
        U u = any<U>(r);
        if constexpr(std::is_floating_point_v<U> && std::is_integral_v<T>) {
            if(!(u > U(-1) || std::is_signed_v<T>) || !(std::fabs(u) < 120)) continue;
            if(std::is_unsigned_v<T> && !(u > U(-1))) continue;
        }
        if(safe<T>(static_cast<T>(u))) return u;
    }
    return U(1 + r.below(9));
}
template<typename T>
bool same(T a, T b) {
    if constexpr(std::is_floating_point_v<T>) return (a == b && std::signbit(a) == std::signbit(b)) || (a != a && b != b);
    else return a == b;
}
template<typename T, size_t N>
T at(const Vector<T, N>& v, size_t i) {
    if constexpr(N >= 2 && N <= 4) {
        if(i == 0) return v.x;
        if(i == 1) return v.y;
        if constexpr(N > 2)
            if(i == 2) return v.z;
        if constexpr(N > 3)
            if(i == 3) return v.w;
        __builtin_trap();
    }
    else return v[i];
}
template<typename T, size_t N>
void put(Vector<T, N>& v, const T* a) {
    for(size_t i = 0; i < N; ++i) v[i] = a[i];
}

static std::string now;
template<typename T, size_t N>
void is(const Vector<T, N>& v, const T* want, const char* what, const T* a = nullptr, const T* b = nullptr) {
    judged();
    for(size_t i = 0; i < N; ++i) {
        if(!same(at(v, i), want[i]))
            return violation(P "component", fmt("%s of %s: component %zu is %Lg instead of %Lg (operands %Lg, %Lg)", what, now.c_str(), i, (long double)at(v, i), (long double)want[i], (long double)(a ? a[i] : T()), (long double)(b ? b[i] : T())));
        MON_CHECK(same(v[i], at(v, i)), P "index", "%s: [%zu] isn't the component of that position", now.c_str(), i);
    }
}

#define APPLY(name, op, opeq)                                                                                              \
    {                                                                                                                      \
        T want[N];                                                                                                         \
        for(size_t i = 0; i < N; ++i) want[i] = static_cast<T>(a[i] op static_cast<T>(b[i]));                              \
        const V before = v;                                                                                                \
        auto sum       = v op w;                                                                                           \
        static_assert(std::is_same_v<decltype(sum), V>);                                                                   \
        is(sum, want, name " vector", a, cb);                                                                              \
        V self   = before;                                                                                                 \
        auto& rf = (self opeq w);                                                                                          \
        static_assert(std::is_same_v<decltype(rf), V&>);                                                                   \
        MON_CHECK(&rf == &self, P "result", name "= of %s returns something else", now.c_str());                           \
        is(self, want, name "= vector", a, cb);                                                                            \
        is(v, a, name ": left operand");                                                                                   \
        for(size_t i = 0; i < N; ++i) want[i] = static_cast<T>(a[i] op static_cast<T>(s));                                 \
        auto scaled = v op s;                                                                                              \
        static_assert(std::is_same_v<decltype(scaled), V>);                                                                \
        is(scaled, want, name " scalar", a);                                                                               \
        self = before;                                                                                                     \
        MON_CHECK(&(self opeq s) == &self, P "result", name "= of %s returns something else", now.c_str());                \
        is(self, want, name "= scalar", a);                                                                                \
        /* aliased operands */                                                                                             \
        if(!(divides && (std::is_integral_v<T>) && zero_in_a)) {                                                           \
            for(size_t i = 0; i < N; ++i) want[i] = static_cast<T>(a[i] op a[i]);                                          \
            is(v op v, want, name " itself", a);                                                                           \
            self = before;                                                                                                 \
            self opeq self;                                                                                                \
            is(self, want, name "= itself", a);                                                                            \
            for(size_t j = 0; j < N; ++j) {                                                                                \
                for(size_t i = 0; i < N; ++i) want[i] = static_cast<T>(a[i] op a[j]);                                      \
                is(v op v[j], want, name " own component", a);                                                             \
                self = before;                                                                                             \
                self opeq self[j];                                                                                         \
                is(self, want, name "= own component", a);                                                                 \
            }                                                                                                              \
        }                                                                                                                  \
    }

template<typename T, typename U, size_t N>
void arithmetic(Rng& r) {
    using V = Vector<T, N>;
    now     = fmt("Vector<%s, %zu> and %s", tn<T>(), N, tn<U>());
    T a[N], cb[N];
    U b[N];
    bool zero_in_a = false, zero_in_b = false;
    for(size_t i = 0; i < N; ++i) {
        a[i] = value<T, T>(r);
        b[i] = value<T, U>(r);
        cb[i] = static_cast<T>(b[i]);
        zero_in_a |= a[i] == 0;
        zero_in_b |= cb[i] == 0;
        note("%Lg|%Lg ", (long double)a[i], (long double)b[i]);
    }
    U s = value<T, U>(r);
    note("s %Lg %s\n", (long double)s, now.c_str());
    V v(T(0));
    put(v, a);
    Vector<U, N> w(U(0));
    put(w, b);
    seen(hash2(hash2((u64)(std::int64_t)(a[0] == a[0] && std::fabs((long double)a[0]) < 1e9L ? (std::int64_t)a[0] : 77), (u64)(cb[N - 1] == cb[N - 1] && std::fabs((long double)cb[N - 1]) < 1e9L ? (std::int64_t)cb[N - 1] : 77)), hash_str(now.c_str())));
    constexpr bool divides_no = false;
    {
        constexpr bool divides = divides_no;
        APPLY("+", +, +=)
        APPLY("-", -, -=)
        APPLY("*", *, *=)
    }
    if(std::is_floating_point_v<T> || (!zero_in_b && static_cast<T>(s) != 0)) {
        constexpr bool divides = true;
        APPLY("/", /, /=)
    }
    {
        T want[N];
        for(size_t i = 0; i < N; ++i) want[i] = static_cast<T>(-a[i]);
        auto neg = -v;
        static_assert(std::is_same_v<decltype(neg), V>);
        is(neg, want, "unary -", a);
    }
    // conversion and assignment from another component type
    {
        V c(w);
        is(c, cb, "conversion");
        V d(T(3));
        auto& rf = (d = w);
        MON_CHECK(&rf == &d, P "result", "assignment of %s returns something else", now.c_str());
        is(d, cb, "assignment");
        for(size_t i = 0; i < N; ++i) MON_CHECK(same(w[i], b[i]), P "component", "%s: the source of an assignment changed", now.c_str());
        V e = v;
        is(e, a, "copy");
        e = e;
        is(e, a, "self assignment");
        e = d;
        is(e, cb, "copy assignment");
    }
    // one component written
    {
        V c = v;
        size_t k = r.below(N);
        T want[N];
        for(size_t i = 0; i < N; ++i) want[i] = i == k ? cb[i] : a[i];
        c[k] = cb[k];
        is(c, want, "component assignment");
        MON_CHECK(&c[k] == &std::as_const(c)[k], P "index", "%s: [] of a constant is another object", now.c_str());
    }
}

template<typename T, size_t N>
void comparisons(Rng& r) {
    using V = Vector<T, N>;
    now     = fmt("Vector<%s, %zu>", tn<T>(), N);
    T a[N], b[N];
    for(size_t i = 0; i < N; ++i) {
        a[i] = any<T>(r);
        b[i] = r.chance(75) ? a[i] : any<T>(r);
        note("%Lg|%Lg ", (long double)a[i], (long double)b[i]);
    }
    note("%s\n", now.c_str());
    V v(T(0)), w(T(0));
    put(v, a);
    put(w, b);
    bool eq = true;
    for(size_t i = 0; i < N; ++i) eq &= a[i] == b[i];
    judged(3);
    MON_CHECK((v == w) == eq && (v != w) == !eq, P "equality", "%s: equality is %d", now.c_str(), v == w);
    // to itself: equal unless a component isn't a number
    bool self = true;
    for(size_t i = 0; i < N; ++i) self &= a[i] == a[i];
    const V& alias = v;
    MON_CHECK((v == alias) == self && (v != alias) == !self && ((v <=> alias) == 0) == self && (v <= alias) == self && !(v < alias), P "equality", "%s: equality to itself is %d", now.c_str(), v == alias);
    auto want = [&] {
        std::partial_ordering o = std::partial_ordering::equivalent;
        for(size_t i = 0; i < N; ++i) {
            o = a[i] <=> b[i];
            if(o != 0) break;
        }
        return o;
    }();
    std::partial_ordering got = v <=> w;
    MON_CHECK(got == want, P "order", "%s: the order isn't lexicographic", now.c_str());
    MON_CHECK((v < w) == (want < 0) && (v > w) == (want > 0) && (v <= w) == (want <= 0) && (v >= w) == (want >= 0), P "order", "%s: relational operators differ from the order", now.c_str());
    if constexpr(std::is_integral_v<T>) static_assert(std::is_same_v<decltype(v <=> w), std::strong_ordering>);
    seen(hash2(eq, want == std::partial_ordering::unordered ? 3 : want < 0));
}

// U1, U2: component types of the parts
template<typename T, typename U1, typename U2>
void constructors(Rng& r) {
    now = fmt("Vector<%s> from %s and %s", tn<T>(), tn<U1>(), tn<U2>());
    U1 p[4];
    U2 q[4];
    for(int i = 0; i < 4; ++i) {
        p[i] = value<T, U1>(r);
        q[i] = value<T, U2>(r);
        note("%Lg|%Lg ", (long double)p[i], (long double)q[i]);
    }
    note("%s\n", now.c_str());
    T P_[4], Q[4];
    for(int i = 0; i < 4; ++i) {
        P_[i] = static_cast<T>(p[i]);
        Q[i]  = static_cast<T>(q[i]);
    }
    auto is2 = [&](Vector<T, 2> v, T a, T b, const char* what) { T w[] = {a, b}; is(v, w, what); };
    auto is3 = [&](Vector<T, 3> v, T a, T b, T c, const char* what) { T w[] = {a, b, c}; is(v, w, what); };
    auto is4 = [&](Vector<T, 4> v, T a, T b, T c, T d, const char* what) { T w[] = {a, b, c, d}; is(v, w, what); };
    Vector<U1, 2> p2(p[0], p[1]);
    Vector<U1, 3> p3(p[0], p[1], p[2]);
    Vector<U1, 4> p4(p[0], p[1], p[2], p[3]);
    Vector<U2, 2> q2(q[0], q[1]);
    is2(Vector<T, 2>(p[0]), P_[0], P_[0], "one scalar");
    is2(Vector<T, 2>(p[0], q[1]), P_[0], Q[1], "scalars");
    is2(Vector<T, 2>(p2), P_[0], P_[1], "vector");
    is3(Vector<T, 3>(p[0]), P_[0], P_[0], P_[0], "one scalar");
    is3(Vector<T, 3>(p[0], q[1], p[2]), P_[0], Q[1], P_[2], "scalars");
    is3(Vector<T, 3>(q[0], p2), Q[0], P_[0], P_[1], "scalar, vector 2");
    is3(Vector<T, 3>(p2, q[0]), P_[0], P_[1], Q[0], "vector 2, scalar");
    is3(Vector<T, 3>(p3), P_[0], P_[1], P_[2], "vector");
    is4(Vector<T, 4>(p[0]), P_[0], P_[0], P_[0], P_[0], "one scalar");
    is4(Vector<T, 4>(p[0], q[1], p[2], q[3]), P_[0], Q[1], P_[2], Q[3], "scalars");
    is4(Vector<T, 4>(q[0], q[1], p2), Q[0], Q[1], P_[0], P_[1], "scalar, scalar, vector 2");
    is4(Vector<T, 4>(q[0], p2, q[1]), Q[0], P_[0], P_[1], Q[1], "scalar, vector 2, scalar");
    is4(Vector<T, 4>(p2, q[0], q[1]), P_[0], P_[1], Q[0], Q[1], "vector 2, scalar, scalar");
    is4(Vector<T, 4>(p2, q2), P_[0], P_[1], Q[0], Q[1], "vector 2, vector 2");
    is4(Vector<T, 4>(q2, p2), Q[0], Q[1], P_[0], P_[1], "vector 2, vector 2");
    is4(Vector<T, 4>(q[0], p3), Q[0], P_[0], P_[1], P_[2], "scalar, vector 3");
    is4(Vector<T, 4>(p3, q[0]), P_[0], P_[1], P_[2], Q[0], "vector 3, scalar");
    is4(Vector<T, 4>(p4), P_[0], P_[1], P_[2], P_[3], "vector");
    {
        T w[] = {P_[0], Q[1], P_[2], Q[3], P_[1], Q[0]};
        is(Vector<T, 6>(p[0], q[1], p[2], q[3], p[1], q[0]), w, "scalars");
        Vector<U1, 6> p6(p[0], p[1], p[2], p[3], p[1], p[0]);
        T x[] = {P_[0], P_[1], P_[2], P_[3], P_[1], P_[0]};
        is(Vector<T, 6>(p6), x, "vector");
        T y[] = {P_[0], P_[0], P_[0], P_[0], P_[0]};
        is(Vector<T, 5>(p[0]), y, "one scalar");
        is(Vector<T, 1>(p[0]), y, "one scalar");
    }
    {  // deduced
        Vector v(p[0], q[0]);
        Vector w(p[0], q[1], p[2]);
        Vector x(p[0], q[1], p[2], q[3], p[1]);
        using C = std::common_type_t<U1, U2>;
        static_assert(std::is_same_v<decltype(v), Vector<C, 2>> && std::is_same_v<decltype(w), Vector<C, 3>> && std::is_same_v<decltype(x), Vector<C, 5>>);
        MON_CHECK(same(w.z, static_cast<C>(p[2])) && same(v.y, static_cast<C>(q[0])) && same(x[4], static_cast<C>(p[1])), P "component", "deduced vectors of %s", now.c_str());
        judged();
    }
    static_assert(Vector<T, 2>::size == 2 && Vector<T, 3>::size == 3 && Vector<T, 4>::size == 4 && Vector<T, 7>::size == 7);
    seen(hash2((u64)(std::int64_t)(p[0] == p[0] && std::fabs((long double)p[0]) < 1e9L ? (std::int64_t)p[0] : 77), hash_str(now.c_str())));
}

template<typename T, typename U>
void pair(long n) {
    std::string g = std::string("arithmetic ") + tn<T>() + " " + tn<U>();
    cases(g.c_str(), n, [&](Rng& r, long) {
        arithmetic<T, U, 2>(r);
        arithmetic<T, U, 3>(r);
        arithmetic<T, U, 4>(r);
        arithmetic<T, U, 5>(r);
        arithmetic<T, U, 1>(r);
    });
}
template<typename T, typename U1, typename U2>
void build(long n) {
    std::string g = std::string("construction ") + tn<T>() + " " + tn<U1>() + " " + tn<U2>();
    cases(g.c_str(), n, [&](Rng& r, long) { constructors<T, U1, U2>(r); });
}
template<typename T>
void compare(long n) {
    std::string g = std::string("comparison ") + tn<T>();
    cases(g.c_str(), n, [&](Rng& r, long) {
        comparisons<T, 2>(r);
        comparisons<T, 3>(r);
        comparisons<T, 4>(r);
        comparisons<T, 5>(r);
    });
}

using namespace xme::math;
static_assert(std::is_same_v<vec2, Vector<float, 2>> && std::is_same_v<vec3, Vector<float, 3>> && std::is_same_v<vec4, Vector<float, 4>>);
static_assert(std::is_same_v<dvec2, Vector<double, 2>> && std::is_same_v<dvec3, Vector<double, 3>> && std::is_same_v<dvec4, Vector<double, 4>>);
static_assert(std::is_same_v<ivec2, Vector<std::int32_t, 2>> && std::is_same_v<ivec3, Vector<std::int32_t, 3>> && std::is_same_v<ivec4, Vector<std::int32_t, 4>>);
static_assert(std::is_same_v<uvec2, Vector<std::uint32_t, 2>> && std::is_same_v<uvec3, Vector<std::uint32_t, 3>> && std::is_same_v<uvec4, Vector<std::uint32_t, 4>>);
static_assert(std::is_same_v<bvec2, Vector<bool, 2>> && std::is_same_v<bvec3, Vector<bool, 3>> && std::is_same_v<bvec4, Vector<bool, 4>>);

int main(int argc, char** argv) {
    init(argc, argv);
    long n = st().cases;
#if PART == 0
    pair<float, float>(n);
    pair<double, double>(n);
    pair<std::int32_t, std::int32_t>(n);
    pair<std::uint32_t, std::uint32_t>(n);
    pair<float, std::int32_t>(n);
#elif PART == 1
    pair<std::int32_t, float>(n);
    pair<float, double>(n);
    pair<double, std::uint8_t>(n);
    pair<std::int8_t, std::int8_t>(n);
    pair<std::uint32_t, std::int32_t>(n);
#elif PART == 2
    pair<std::uint16_t, std::uint16_t>(n);
    pair<std::int64_t, std::int64_t>(n);
    pair<std::int64_t, std::uint8_t>(n);
    pair<long double, float>(n);
    pair<std::uint8_t, double>(n);
#else
    compare<float>(n);
    compare<double>(n);
    compare<std::int32_t>(n);
    compare<std::uint8_t>(n);
    compare<bool>(n);
    build<float, float, float>(n);
    build<double, float, std::int32_t>(n);
    build<std::int32_t, double, std::int32_t>(n);
    build<std::uint8_t, std::int32_t, float>(n);
    build<float, std::uint32_t, double>(n);
    build<std::int64_t, std::int64_t, std::int16_t>(n);
#endif
    return finish();
}
