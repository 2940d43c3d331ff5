// Geometry, interpolation and sign of vectors against long double evaluation (C28, C29).
#include "../harness/near.hpp"
#include <cstdint>
#include <type_traits>
#include <utility>
#include <xme/math/math.hpp>
#include <xme/math/glsl_mapping.hpp>
#ifndef PART
#define PART 28
#endif

using namespace mon;
using xme::math::Vector;
namespace xm = xme::math;

#if PART == 28
#define P "C28:"
template<typename T, size_t N>
void fill(Vector<T, N>& v, Rng& r, int decades) {
    int mode = (int)r.below(6);
    T common = T(std::pow(10.0, (double)r.range(-decades, decades)));
    for(size_t i = 0; i < N; ++i) {
        if(mode == 0) v[i] = T(r.range(-9, 9));
        else if(mode == 1) v[i] = r.chance(60) ? T(0) : T(r.range(-3, 3));
        else if(mode == 2) v[i] = number<T>(r, decades);
        else v[i] = T(r.real() * 2 - 1) * common;
    }
}
template<typename T, size_t N>
real ldot(const Vector<T, N>& a, const Vector<T, N>& b) {
    real s = 0;
    for(size_t i = 0; i < N; ++i) s += (real)a[i] * (real)b[i];
    return s;
}
template<typename T, size_t N>
real labs(const Vector<T, N>& a, const Vector<T, N>& b) {
    real s = 0;
    for(size_t i = 0; i < N; ++i) s += std::fabs((real)a[i] * (real)b[i]);
    return s;
}

template<typename T, size_t N>
void geometry(Rng& r, const char* name) {
    constexpr int decades = sizeof(T) == 4 ? 6 : 12;
    Vector<T, N> a(T(0)), b(T(0)), n(T(0));
    fill(a, r, decades);
    fill(b, r, decades);
    fill(n, r, decades / 2);
    note("%s %zu:", name, N);
    for(size_t i = 0; i < N; ++i) note(" %.9Lg|%.9Lg|%.9Lg", (real)a[i], (real)b[i], (real)n[i]);
    note("\n");
    const real K = N + 8;
    auto dot = xm::dot(a, b);
    static_assert(std::is_same_v<decltype(dot), T>);
    judged(6);
    MON_CHECK(near<T>(dot, ldot(a, b), labs(a, b), K), P "dot", "%s: dot is %.20Lg instead of %.20Lg", name, (real)dot, ldot(a, b));
    const real la = std::sqrt(ldot(a, a)), lb = std::sqrt(ldot(b, b));
    T len = xm::length(a), mlen = a.length();
    MON_CHECK(near<T>(len, la, la, K), P "length", "%s: length is %.20Lg instead of %.20Lg", name, (real)len, la);
    MON_CHECK(near<T>(mlen, la, la, K), P "length", "%s: member length is %.20Lg instead of %.20Lg", name, (real)mlen, la);
    real ld = 0;
    for(size_t i = 0; i < N; ++i) ld += ((real)b[i] - (real)a[i]) * ((real)b[i] - (real)a[i]);
    ld = std::sqrt(ld);
    MON_CHECK(near<T>(xm::distance(a, b), ld, ld, K), P "distance", "%s: distance is %.20Lg instead of %.20Lg", name, (real)xm::distance(a, b), ld);
    MON_CHECK(near<T>(xm::distance(b, a), ld, ld, K), P "distance", "%s: distance isn't symmetric", name);
    MON_CHECK(xm::distance(a, a) == 0, P "distance", "%s: distance to itself", name);
    if(la > 0) {
        auto u = xm::normalize(a);
        auto v = a.normalize();
        static_assert(std::is_same_v<decltype(u), Vector<T, N>> && std::is_same_v<decltype(v), Vector<T, N>>);
        for(size_t i = 0; i < N; ++i) {
            real want = (real)a[i] / la;
            MON_CHECK(near<T>(u[i], want, std::fabs(want), K + 4), P "normalize", "%s: component %zu of the normalized vector is %.20Lg instead of %.20Lg", name, i, (real)u[i], want);
            MON_CHECK(near<T>(v[i], want, std::fabs(want), K + 4), P "normalize", "%s: component %zu of the normalized vector (member) is %.20Lg instead of %.20Lg", name, i, (real)v[i], want);
        }
        MON_CHECK(near<T>(u.length(), 1, 1, 2 * K) && near<T>(xm::length(v), 1, 1, 2 * K), P "normalize", "%s: the length of a normalized vector isn't 1", name);
        judged(2 * N);
    }
    {  // faceforward(v, i, n)
        real d = ldot(n, b), s = labs(n, b);
        if(std::fabs(d) > 4 * K * (real)std::numeric_limits<T>::epsilon() * s && std::fabs(d) > (real)std::numeric_limits<T>::min() * 16) {
            auto f = xm::faceforward(a, b, n);
            judged();
            for(size_t i = 0; i < N; ++i) MON_CHECK(f[i] == (d < 0 ? a[i] : -a[i]), P "faceforward", "%s: component %zu is %Lg, the vector has %Lg, dot(n, i) is %Lg", name, i, (real)f[i], (real)a[i], d);
        }
    }
    if(ldot(n, n) > 0) {
        auto u = xm::normalize(n);
        auto f = xm::reflect(a, u);
        real d = ldot(a, u), s = labs(a, u);
        judged(3);
        for(size_t i = 0; i < N; ++i) {
            real want = (real)a[i] - 2 * d * (real)u[i];
            MON_CHECK(near<T>(f[i], want, std::fabs((real)a[i]) + 2 * s * std::fabs((real)u[i]), K), P "reflect", "%s: component %zu is %.20Lg instead of %.20Lg", name, i, (real)f[i], want);
        }
        real lf = std::sqrt(ldot(f, f));
        MON_CHECK(near<T>((T)lf, la, la * N, 4 * K), P "reflect", "%s: the reflected vector has length %.20Lg instead of %.20Lg", name, lf, la);
        MON_CHECK(near<T>((T)ldot(f, u), -d, (s + la) * N, 8 * K), P "reflect", "%s: the normal component of the reflected vector is %.20Lg instead of %.20Lg", name, ldot(f, u), -d);
    }
    if constexpr(N == 3) {
        auto c = xm::cross(a, b);
        auto e = xm::cross(b, a);
        static_assert(std::is_same_v<decltype(c), Vector<T, 3>>);
        judged(3);
        for(size_t i = 0; i < 3; ++i) {
            size_t j = (i + 1) % 3, k = (i + 2) % 3;
            real want = (real)a[j] * b[k] - (real)a[k] * b[j], s = std::fabs((real)a[j] * b[k]) + std::fabs((real)a[k] * b[j]);
            MON_CHECK(near<T>(c[i], want, s, 4), P "cross", "%s: component %zu is %.20Lg instead of %.20Lg", name, i, (real)c[i], want);
            MON_CHECK(near<T>(e[i], -want, s, 4), P "cross", "%s: component %zu of the opposite product is %.20Lg instead of %.20Lg", name, i, (real)e[i], -want);
        }
        real t = 32 * (real)std::numeric_limits<T>::epsilon();
        MON_CHECK(std::fabs(ldot(c, a)) <= t * la * la * lb + 1e-300L && std::fabs(ldot(c, b)) <= t * la * lb * lb + 1e-300L, P "cross", "%s: the product isn't orthogonal to the arguments", name);
    }
    seen(hash2(hash2(coarse(dot), coarse(la)), hash2(coarse(lb), hash_str(name) + N)));
}
template<typename T, size_t N>
void integers(Rng& r, const char* name) {
    Vector<T, N> a(T(0)), b(T(0)), n(T(0));
    std::int64_t d = 0, av = 0;
    // as big as the products allow
    const int limit = r.chance(50) ? 200 : !std::is_integral_v<T> ? 1000 : sizeof(T) > 4 ? 600'000'000 : sizeof(T) == 4 ? 12'000 : 40;
    for(size_t i = 0; i < N; ++i) {
        a[i] = (T)r.range(-limit, limit);
        b[i] = (T)r.range(-limit, limit);
        note("%ld|%ld ", (long)a[i], (long)b[i]);
        d += (std::int64_t)a[i] * b[i];
    }
    n[r.below(N)] = 1;
    note("%s\n", name);
    judged(3);
    MON_CHECK(xm::dot(a, b) == (T)d, P "dot", "%s: dot is %Lg instead of %Lg", name, (real)xm::dot(a, b), (real)d);
    for(size_t i = 0; i < N; ++i) av += (std::int64_t)a[i] * n[i];
    auto f = xm::reflect(a, n);
    auto g = xm::faceforward(a, b, b);  // dot(b, b) is positive
    for(size_t i = 0; i < N; ++i) {
        MON_CHECK(f[i] == (T)(a[i] - 2 * av * n[i]), P "reflect", "%s: component %zu is %Lg", name, i, (real)f[i]);
        if(xm::dot(b, b) > 0) MON_CHECK(g[i] == (T)-a[i], P "faceforward", "%s: component %zu is %Lg", name, i, (real)g[i]);
    }
    if constexpr(N == 3) {
        auto c = xm::cross(a, b);
        for(size_t i = 0; i < 3; ++i) {
            size_t j = (i + 1) % 3, k = (i + 2) % 3;
            MON_CHECK(c[i] == (T)((std::int64_t)a[j] * b[k] - (std::int64_t)a[k] * b[j]), P "cross", "%s: component %zu", name, i);
        }
    }
    seen(hash2((u64)d, N));
}
template<typename T>
void type(const char* name, long n) {
    std::string g = std::string("geometry of ") + name;
    cases(g.c_str(), n, [&](Rng& r, long) {
        geometry<T, 2>(r, name);
        geometry<T, 3>(r, name);
        geometry<T, 4>(r, name);
        geometry<T, 5>(r, name);
        geometry<T, 1>(r, name);
        if(r.chance(20)) geometry<T, 9>(r, name);
    });
    g = std::string("axes of ") + name;
    cases(g.c_str(), 1, [&](Rng&, long) {
        for(size_t i = 0; i < 3; ++i)
            for(size_t j = 0; j < 3; ++j) {
                Vector<T, 3> x(T(0)), y(T(0)), z(T(0));
                x[i] = 1;
                y[j] = 1;
                if(i != j) z[3 - i - j] = (j == (i + 1) % 3) ? T(1) : T(-1);
                judged();
                MON_CHECK(xm::cross(x, y) == z, P "cross", "%s: axis %zu with axis %zu", name, i, j);
                MON_CHECK(xm::dot(x, y) == T(i == j), P "dot", "%s: axis %zu with axis %zu", name, i, j);
            }
        seen(3);
    });
}
int main(int argc, char** argv) {
    init(argc, argv);
    long n = st().cases;
    type<float>("float", n);
    type<double>("double", n);
    type<long double>("long double", n / 2);
    cases("integers", n, [&](Rng& r, long) {
        integers<std::int32_t, 2>(r, "int32");
        integers<std::int32_t, 3>(r, "int32");
        integers<std::int32_t, 4>(r, "int32");
        integers<std::int64_t, 3>(r, "int64");
        integers<std::int32_t, 6>(r, "int32");
    });
    return finish();
}

#else
#define P "C29:"
template<typename T>
T finite(Rng& r) {
    return r.chance(10) ? (r.chance(50) ? T(0) : std::numeric_limits<T>::denorm_min()) : number<T>(r, 8);
}
template<typename U>
U percent(Rng& r) {
    if constexpr(std::is_same_v<U, bool>) return r.chance(50);
    else if constexpr(std::is_floating_point_v<U>) {
        switch(r.below(6)) {
        case 0: return U(0);
        case 1: return U(1);
        case 2: return U(0.5);
        case 3: return number<U>(r, 2);
        default: return U(r.real());
        }
    }
    else if(r.chance(40)) return (U)r.below(2);
    else return std::is_signed_v<U> ? (U)r.range(-100, 100) : (U)r.below(200);
}
template<typename T, typename U, size_t N>
void judge(const Vector<T, N>& got, const Vector<T, N>& a, const Vector<T, N>& b, const U* t, const char* what) {
    for(size_t i = 0; i < N; ++i) {
        judged();
        const real A = a[i], B = b[i], t_ = t[i];
        if(t[i] == U(0)) MON_CHECK(got[i] == a[i], P "lerp-start", "%s: component %zu is %.12Lg instead of %.12Lg at 0", what, i, (real)got[i], A);
        else if(t[i] == U(1)) MON_CHECK(got[i] == b[i], P "lerp-end", "%s: component %zu is %.12Lg instead of %.12Lg at 1", what, i, (real)got[i], B);
        else
            MON_CHECK(near<T>(got[i], A * (1 - t_) + B * t_, std::fabs(A) * (1 + std::fabs(t_)) + std::fabs(B) * std::fabs(t_), 8), P "lerp", "%s: component %zu from %.12Lg to %.12Lg at %.12Lg is %.12Lg", what, i, A, B, t_, (real)got[i]);
    }
}
template<typename T, typename U, size_t N>
void interpolate(Rng& r, const char* name) {
    Vector<T, N> a(T(0)), b(T(0));
    for(size_t i = 0; i < N; ++i) {
        a[i] = finite<T>(r);
        b[i] = r.chance(10) ? a[i] : finite<T>(r);
    }
    U t[N], each[N];
    t[0] = percent<U>(r);
    Vector<U, N> tv(U(0));
    for(size_t i = 0; i < N; ++i) {
        t[i]  = t[0];
        tv[i] = each[i] = percent<U>(r);
    }
    note("%s %zu: a0 %.9Lg b0 %.9Lg t %.9Lg\n", name, N, (real)a[0], (real)b[0], (real)t[0]);
    auto res = xm::lerp(a, b, t[0]);
    static_assert(std::is_same_v<decltype(res), Vector<T, N>>);
    judge<T, U, N>(res, a, b, t, name);
    auto m = xm::mix(a, b, t[0]);
    static_assert(std::is_same_v<decltype(m), Vector<T, N>>);
    judge<T, U, N>(m, a, b, t, name);
    auto each_res = xm::lerp(a, b, tv);
    judge<T, U, N>(each_res, a, b, each, name);
    auto each_m = xm::mix(a, b, tv);
    judge<T, U, N>(each_m, a, b, each, name);
    MON_CHECK(m == res && each_m == each_res, P "mix", "%s: mix differs from lerp", name);
    // the same vector at both ends, given twice
    if constexpr(std::is_same_v<U, bool>) {
        const Vector<T, N> inf = Vector<T, N>(T(INFINITY)), nan = Vector<T, N>(T(NAN));
        MON_CHECK(xm::lerp(a, inf, false) == a && xm::lerp(inf, a, true) == a && xm::lerp(a, nan, false) == a && xm::lerp(nan, a, true) == a, P "select", "%s: selection uses the other vector", name);
        auto sel = xm::lerp(a, nan, tv);
        for(size_t i = 0; i < N; ++i) MON_CHECK(each[i] ? sel[i] != sel[i] : sel[i] == a[i], P "select", "%s: selection of component %zu", name, i);
    }
    seen(hash2(hash2(coarse(a[0]), coarse(b[0])), hash2(coarse(t[0]), hash_str(name) + N)));
}
template<typename T, typename U>
void pair(const char* name, long n) {
    std::string g = std::string("lerp ") + name;
    cases(g.c_str(), n, [&](Rng& r, long) {
        interpolate<T, U, 2>(r, name);
        interpolate<T, U, 3>(r, name);
        interpolate<T, U, 4>(r, name);
        interpolate<T, U, 5>(r, name);
    });
}
template<typename T>
void sign_of(T v, const char* name) {
    judged();
    T s = xm::sign(v);
    T w = v > T(0) ? T(1) : v < T(0) ? T(-1) : T(0);
    MON_CHECK(s == w, P "sign", "%s: sign of %Lg is %Lg", name, (real)v, (real)s);
    static_assert(std::is_same_v<decltype(xm::sign(v)), T>);
}
template<typename T>
T any(Rng& r) {
    if constexpr(std::is_floating_point_v<T>) {
        T specials[] = {T(0), -T(0), std::numeric_limits<T>::denorm_min(), -std::numeric_limits<T>::denorm_min(), T(INFINITY), -T(INFINITY), std::numeric_limits<T>::max(), std::numeric_limits<T>::lowest(), T(0.5), T(-0.25), std::numeric_limits<T>::min()};
        return r.chance(50) ? specials[r.below(11)] : number<T>(r, 12);
    }
    else {
        T specials[] = {0, 1, -1, std::numeric_limits<T>::max(), std::numeric_limits<T>::min(), T(std::numeric_limits<T>::min() + 1)};
        return r.chance(30) ? specials[r.below(6)] : (T)r.next();
    }
}
template<typename T>
void signs(const char* name, long n) {
    std::string g = std::string("sign ") + name;
    cases(g.c_str(), n, [&](Rng& r, long) {
        auto vec = [&](auto size) {
            constexpr size_t N = decltype(size)::value;
            Vector<T, N> v(T(0));
            for(size_t i = 0; i < N; ++i) v[i] = any<T>(r);
            auto s = xm::sign(v);
            static_assert(std::is_same_v<decltype(s), Vector<T, N>>);
            judged();
            for(size_t i = 0; i < N; ++i) {
                T w = v[i] > T(0) ? T(1) : v[i] < T(0) ? T(-1) : T(0);
                MON_CHECK(s[i] == w, P "sign", "vector of %s: sign of component %zu, %Lg, is %Lg", name, i, (real)v[i], (real)s[i]);
                sign_of<T>(v[i], name);
            }
            seen(hash2(coarse(v[0]), coarse(v[N - 1])));
        };
        vec(std::integral_constant<size_t, 2>());
        vec(std::integral_constant<size_t, 3>());
        vec(std::integral_constant<size_t, 4>());
        vec(std::integral_constant<size_t, 7>());
    });
}
int main(int argc, char** argv) {
    init(argc, argv);
    long n = st().cases;
#define PAIR(T, U) pair<T, U>(#T " at " #U, n)
    PAIR(float, float);
    PAIR(float, double);
    PAIR(float, std::int32_t);
    PAIR(float, std::uint32_t);
    PAIR(float, std::uint8_t);
    PAIR(float, bool);
    PAIR(double, double);
    PAIR(double, float);
    PAIR(double, std::uint64_t);
    PAIR(double, std::int8_t);
    PAIR(double, bool);
    PAIR(double, std::uint16_t);
    PAIR(long double, float);
    PAIR(long double, std::uint32_t);
    signs<float>("float", n);
    signs<double>("double", n);
    signs<long double>("long double", n);
    signs<std::int8_t>("int8", n);
    signs<std::int16_t>("int16", n);
    signs<std::int32_t>("int32", n);
    signs<std::int64_t>("int64", n);
    cases("sign of every small integer", 1, [&](Rng&, long) {
        for(int k = -32768; k < 32768; ++k) sign_of<std::int16_t>((std::int16_t)k, "int16");
        for(int k = -128; k < 128; ++k) sign_of<std::int8_t>((std::int8_t)k, "int8");
        seen(1);
    });
    return finish();
}
#endif
