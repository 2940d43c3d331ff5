// Quaternions (C34), constants and trigonometric helpers (C35).
#include "../harness/near.hpp"
#include <array>
#include <cstdint>
#include <cstdlib>
#include <string>
#include <type_traits>
#include <xme/math/math.hpp>
#include <xme/math/quaternion.hpp>
#ifndef PART
#define PART 34
#endif

using namespace mon;
namespace xm = xme::math;

#if PART == 34
#define P "C34:"
using xm::Quaternion;
using Ref = std::array<real, 4>;  // w, x, y, z

template<typename T>
Ref ref_of(const Quaternion<T>& q) {
    return {(real)q.w, (real)q.x, (real)q.y, (real)q.z};
}
// The product of the units a and b, 1 i j k as 0 1 2 3: their unit, and the sign
inline int unit_product(int a, int b, int& sign) {
    sign = 1;
    if(a == 0) return b;
    if(b == 0) return a;
    if(a == b) {
        sign = -1;
        return 0;
    }
    sign = b == a % 3 + 1 ? 1 : -1;
    return 6 - a - b;
}
inline Ref product(const Ref& a, const Ref& b, real& scale) {
    Ref p{0, 0, 0, 0};
    scale = 0;
    for(int i = 0; i < 4; ++i)
        for(int j = 0; j < 4; ++j) {
            int sign;
            const int unit = unit_product(i, j, sign);
            p[unit] += sign * a[i] * b[j];
        }
    real s = 0;
    for(int i = 0; i < 4; ++i)
        for(int j = 0; j < 4; ++j) s = std::max(s, std::fabs(a[i] * b[j]));
    scale = s * 4;
    return p;
}
template<typename T>
Quaternion<T> random(Rng& r) {
    T v[4];
    const int mode = (int)r.below(5);
    for(auto& e: v) e = mode == 0 ? T(r.range(-9, 9)) : mode == 1 ? (r.chance(60) ? T(0) : T(r.range(-2, 2))) : mode == 2 ? number<T>(r, 6) : T(r.real() * 2 - 1);
    Quaternion<T> q(v[0], v[1], v[2], v[3]);
    note(" (%.9Lg %.9Lg %.9Lg %.9Lg)", (real)v[0], (real)v[1], (real)v[2], (real)v[3]);
    judged();
    MON_CHECK(q.w == v[0] && q.x == v[1] && q.y == v[2] && q.z == v[3], P "construct", "construction from w, x, y, z");
    const Quaternion<T>& c = q;
    for(size_t i = 0; i < 4; ++i) MON_CHECK(q[i] == v[i] && c[i] == v[i], P "index", "[%zu] is %.9Lg instead of %.9Lg", i, (real)q[i], (real)v[i]);
    return q;
}
template<typename T>
void close(const Quaternion<T>& q, const Ref& want, const Ref& scale, real k, const char* key, const char* what) {
    judged();
    for(size_t i = 0; i < 4; ++i) MON_CHECK(near<T>(q[i], want[i], scale[i], k), key, "%s: component %zu is %.15Lg instead of %.15Lg", what, i, (real)q[i], want[i]);
}
inline Ref all(real s) { return {s, s, s, s}; }

template<typename T, typename U>
void algebra(Rng& r) {
    const auto a = random<T>(r);
    const auto b = random<U>(r);
    const Ref ra = ref_of(a), rb = ref_of(b);
    Ref sum, dif, mag;
    for(size_t i = 0; i < 4; ++i) {
        sum[i] = ra[i] + rb[i];
        dif[i] = ra[i] - rb[i];
        mag[i] = std::fabs(ra[i]) + std::fabs(rb[i]);
    }
    auto s = a + b;
    auto d = a - b;
    auto p = a * b;
    static_assert(std::is_same_v<decltype(s), Quaternion<T>> && std::is_same_v<decltype(d), Quaternion<T>> && std::is_same_v<decltype(p), Quaternion<T>>);
    const real k = std::is_same_v<T, U> ? 0.5L : 2;
    close(s, sum, mag, k, P "sum", "sum");
    close(d, dif, mag, k, P "difference", "difference");
    real scale;
    const Ref want = product(ra, rb, scale);
    close(p, want, all(scale), 3, P "product", "product");
    MON_CHECK(ref_of(a) == ra && ref_of(b) == rb, P "operand", "an operand changed");
    // the norm of the product
    real na = 0, nb = 0, np = 0;
    for(size_t i = 0; i < 4; ++i) {
        na += ra[i] * ra[i];
        nb += rb[i] * rb[i];
        np += (real)p[i] * (real)p[i];
    }
    judged();
    MON_CHECK(near<T>((T)std::sqrt(np), std::sqrt(na) * std::sqrt(nb), std::sqrt(na) * std::sqrt(nb), 24), P "norm", "the norm of the product is %.12Lg, of the factors %.12Lg and %.12Lg", std::sqrt(np), std::sqrt(na), std::sqrt(nb));
    seen(hash2(hash2(coarse(ra[0]), coarse(rb[1])), hash2(coarse(want[2]), sizeof(T) * 32 + sizeof(U))));
}
template<typename T>
void laws(Rng& r) {
    const auto a = random<T>(r), b = random<T>(r), c = random<T>(r);
    const auto m1 = (a * b) * c, m2 = a * (b * c);
    Ref mag_a, mag_b, mag_c;
    for(size_t i = 0; i < 4; ++i) {
        mag_a[i] = std::fabs((real)a[i]);
        mag_b[i] = std::fabs((real)b[i]);
        mag_c[i] = std::fabs((real)c[i]);
    }
    real na = 0, nb = 0, nc = 0;
    for(size_t i = 0; i < 4; ++i) {
        na += mag_a[i];
        nb += mag_b[i];
        nc += mag_c[i];
    }
    close(m1, ref_of(m2), all(na * nb * nc), 8, P "associative", "(a b) c against a (b c)");
    close(a * (b + c), ref_of(a * b + a * c), all(na * (nb + nc)), 8, P "distributive", "a (b + c) against a b + a c");
    close((a + b) * c, ref_of(a * c + b * c), all((na + nb) * nc), 8, P "distributive", "(a + b) c against a c + b c");
    const Quaternion<T> one(1, 0, 0, 0), zero(0, 0, 0, 0);
    judged(4);
    MON_CHECK(one * a == a && a * one == a, P "neutral", "product with 1");
    MON_CHECK(a + zero == a && a - zero == a && a - a == zero, P "neutral", "sum with 0");
    // the same quaternion on both sides
    real scale;
    const Ref sq = product(ref_of(a), ref_of(a), scale);
    close(a * a, sq, all(scale), 3, P "product", "square");
    // a times its conjugate is its norm
    const Quaternion<T> conj(a.w, -a.x, -a.y, -a.z);
    real n2 = 0;
    for(size_t i = 0; i < 4; ++i) n2 += (real)a[i] * (real)a[i];
    close(a * conj, Ref{n2, 0, 0, 0}, all(n2), 6, P "conjugate", "product with the conjugate");
    // equality, and copies
    Quaternion<T> copy = a, assigned(1, 2, 3, 4);
    assigned = a;
    MON_CHECK(copy == a && !(copy != a) && assigned == a, P "equality", "a copy isn't equal");
    const size_t i = r.below(4);
    copy[i] += std::fabs(copy[i]) + 1;
    MON_CHECK(!(copy == a) && copy != a, P "equality", "equal, although component %zu differs", i);
    MON_CHECK(assigned == a, P "equality", "assigned copy");
    copy[i] = T(NAN);
    const auto nan = copy;
    MON_CHECK(!(copy == nan), P "equality", "equal, although component %zu isn't a number", i);
    const Quaternion<T>& itself = nan;
    MON_CHECK(!(nan == itself) && nan != itself, P "equality", "equal to itself, although component %zu isn't a number", i);
    const T* fields[] = {&copy.w, &copy.x, &copy.y, &copy.z};
    MON_CHECK(&copy[i] == fields[i], P "index", "[%zu] is a different component", i);
    seen(hash2(coarse(a[0]), hash2(coarse(b[1]), coarse(c[2]))));
}
template<typename T>
void units() {
    for(int i = 0; i < 4; ++i)
        for(int j = 0; j < 4; ++j)
            for(int signs = 0; signs < 4; ++signs) {
                Quaternion<T> a(0, 0, 0, 0), b(0, 0, 0, 0), want(0, 0, 0, 0);
                a[i]   = signs & 1 ? -1 : 1;
                b[j]   = signs & 2 ? -1 : 1;
                int sign, k = unit_product(i, j, sign);
                want[k] = sign * a[i] * b[j];
                judged();
                MON_CHECK(a * b == want, P "units", "product of the units %d and %d", i, j);
            }
    const Quaternion<T> i(0, 1, 0, 0), j(0, 0, 1, 0), k(0, 0, 0, 1), minus(-1, 0, 0, 0);
    MON_CHECK(i * i == minus && j * j == minus && k * k == minus && i * j * k == minus && i * j == k && j * k == i && k * i == j, P "units", "Hamilton's identities");
    seen(sizeof(T));
}
static_assert(std::is_same_v<decltype(Quaternion(1, 2, 3, 4)), Quaternion<float>> && std::is_same_v<decltype(Quaternion(1.0, 2, 3, 4)), Quaternion<double>> && std::is_same_v<decltype(Quaternion(1.0f, 2.0L, 3, 4)), Quaternion<long double>>);
static_assert((Quaternion<double>(1, 2, 3, 4) * Quaternion<double>(5, 6, 7, 8)).w == 5 - 12 - 21 - 32 && (Quaternion<float>(1, 2, 3, 4) + Quaternion<float>(1, 1, 1, 1)).z == 5);

int main(int argc, char** argv) {
    init(argc, argv);
    const long n = st().cases;
    cases("units", 1, [](Rng&, long) {
        units<float>();
        units<double>();
        units<long double>();
    });
    cases("float", n, [](Rng& r, long) { algebra<float, float>(r); });
    cases("double", n, [](Rng& r, long) { algebra<double, double>(r); });
    cases("long double", n / 2, [](Rng& r, long) { algebra<long double, long double>(r); });
    cases("float with double", n, [](Rng& r, long) { algebra<float, double>(r); });
    cases("double with float", n, [](Rng& r, long) { algebra<double, float>(r); });
    cases("laws of float", n, [](Rng& r, long) { laws<float>(r); });
    cases("laws of double", n, [](Rng& r, long) { laws<double>(r); });
    cases("laws of long double", n / 2, [](Rng& r, long) { laws<long double>(r); });
    return finish();
}

#else
#define P "C35:"
template<typename T>
T parsed(const char* digits) {
    if constexpr(std::is_same_v<T, float>) return std::strtof(digits, nullptr);
    else if constexpr(std::is_same_v<T, double>) return std::strtod(digits, nullptr);
    else return std::strtold(digits, nullptr);
}
template<typename T>
void constant(const char* name, T got, const char* digits) {
    const T want = parsed<T>(digits);
    judged();
    MON_CHECK(got == want || got == std::nextafter(want, T(0)) || got == std::nextafter(want, T(100)), P "constant", "%s is %.25Lg instead of %s", name, (real)got, digits);
    seen(hash2(hash_str(name), sizeof(T)));
}
template<typename T>
real pi_of() {
    return std::strtold("3.14159265358979323846264338327950288419716939937510582", nullptr);
}
template<typename T>
void angles(Rng& r) {
    const real pi = pi_of<T>();
    T x;
    switch(r.below(4)) {
    case 0: x = T(r.range(-720, 720)); break;
    case 1: x = T(r.range(-24, 24) * 15); break;
    case 2: x = number<T>(r, 8); break;
    default: x = T((r.real() * 2 - 1) * 360);
    }
    note("%.20Lg\n", (real)x);
    const T rad = xm::radians(x), deg = xm::degrees(x);
    static_assert(std::is_same_v<decltype(xm::radians(x)), T> && std::is_same_v<decltype(xm::degrees(x)), T>);
    judged(4);
    MON_CHECK(near<T>(rad, (real)x / 180 * pi, std::fabs((real)x) / 180 * pi, 4), P "radians", "%.15Lg degrees are %.15Lg instead of %.15Lg", (real)x, (real)rad, (real)x / 180 * pi);
    MON_CHECK(near<T>(deg, (real)x / pi * 180, std::fabs((real)x) / pi * 180, 4), P "degrees", "%.15Lg radians are %.15Lg instead of %.15Lg", (real)x, (real)deg, (real)x / pi * 180);
    MON_CHECK(near<T>(xm::degrees(rad), (real)x, std::fabs((real)x), 8), P "inverse", "%.15Lg degrees are %.15Lg after both conversions", (real)x, (real)xm::degrees(rad));
    MON_CHECK(near<T>(xm::radians(deg), (real)x, std::fabs((real)x), 8), P "inverse", "%.15Lg radians are %.15Lg after both conversions", (real)x, (real)xm::radians(deg));
    seen(hash2(coarse(x), sizeof(T)));
}
template<typename T>
void reciprocals(Rng& r) {
    T x = r.chance(20) ? T(r.range(1, 40)) : T((r.real() * 2 - 1) * (r.chance(80) ? 7 : 1000));
    if(x == 0) x = T(0.25);
    note("%.20Lg\n", (real)x);
    // the nearest long double evaluation of the same argument
    const real c = std::cos((real)x), s = std::sin((real)x), t = std::tan((real)x);
    judged(3);
    MON_CHECK(near<T>(xm::sec(x), 1 / c, std::fabs(1 / c), 6), P "sec", "sec(%.15Lg) is %.15Lg instead of %.15Lg", (real)x, (real)xm::sec(x), 1 / c);
    MON_CHECK(near<T>(xm::csc(x), 1 / s, std::fabs(1 / s), 6), P "csc", "csc(%.15Lg) is %.15Lg instead of %.15Lg", (real)x, (real)xm::csc(x), 1 / s);
    MON_CHECK(near<T>(xm::cot(x), 1 / t, std::fabs(1 / t), 6), P "cot", "cot(%.15Lg) is %.15Lg instead of %.15Lg", (real)x, (real)xm::cot(x), 1 / t);
    static_assert(std::is_same_v<decltype(xm::sec(x)), T> && std::is_same_v<decltype(xm::csc(x)), T> && std::is_same_v<decltype(xm::cot(x)), T>);
    seen(hash2(coarse(x), sizeof(T) + 1000));
}
template<typename T>
void inverses(Rng& r) {
    const real pi = pi_of<T>();
    T v;
    switch(r.below(5)) {
    case 0: v = T(r.range(-1, 1)); break;
    case 1: v = T(r.real() * 2 - 1) * T(1e-3); break;
    case 2: v = std::nextafter(T(r.chance(50) ? 1 : -1), T(0)); break;
    default: v = T(r.real() * 2 - 1);
    }
    note("%.20Lg\n", (real)v);
    if(const T beyond = r.chance(50) ? std::nextafter(T(1), T(2)) : T(1 + r.real() * (r.chance(50) ? 1e-3 : 100)); beyond > 1) {
        const T x = r.chance(50) ? beyond : -beyond;
        MON_CHECK(std::isnan(xm::arcsin(x)) && std::isnan(xm::arccos(x)), P "domain", "arcsin and arccos of %.20Lg are %.15Lg and %.15Lg", (real)x, (real)xm::arcsin(x), (real)xm::arccos(x));
    }
    const T as = xm::arcsin(v), ac = xm::arccos(v);
    static_assert(std::is_same_v<decltype(xm::arcsin(v)), T> && std::is_same_v<decltype(xm::arccos(v)), T> && std::is_same_v<decltype(xm::arctan(v)), T>);
    const real eps = std::numeric_limits<T>::epsilon();
    judged(6);
    MON_CHECK(std::fabs((real)as) <= pi / 2 * (1 + eps) && near<T>(as, std::asin((real)v), std::fabs(std::asin((real)v)), 4), P "arcsin", "arcsin(%.15Lg) is %.15Lg", (real)v, (real)as);
    MON_CHECK((real)ac >= 0 && (real)ac <= pi * (1 + eps) && near<T>(ac, std::acos((real)v), std::fabs(std::acos((real)v)), 4), P "arccos", "arccos(%.15Lg) is %.15Lg", (real)v, (real)ac);
    MON_CHECK(std::fabs(std::sin((real)as) - (real)v) <= 4 * eps && std::fabs(std::cos((real)ac) - (real)v) <= 8 * eps, P "inverse", "sin(arcsin) or cos(arccos) of %.15Lg", (real)v);
    T w = r.chance(30) ? v : number<T>(r, 8);
    const T at = xm::arctan(w);
    MON_CHECK(std::fabs((real)at) <= pi / 2 * (1 + eps) && near<T>(at, std::atan((real)w), std::fabs(std::atan((real)w)), 4), P "arctan", "arctan(%.15Lg) is %.15Lg", (real)w, (real)at);
    // angles in the principal range come back
    const T x = T((r.real() * 2 - 1) * 1.5);
    MON_CHECK(std::fabs((real)xm::arctan(std::tan(x)) - (real)x) <= 8 * eps * 2, P "inverse", "arctan(tan(%.15Lg)) is %.15Lg", (real)x, (real)xm::arctan(std::tan(x)));
    const T y = T((r.real() * 2 - 1) * 1.2);
    MON_CHECK(std::fabs((real)xm::arcsin(std::sin(y)) - (real)y) <= 16 * eps, P "inverse", "arcsin(sin(%.15Lg)) is %.15Lg", (real)y, (real)xm::arcsin(std::sin(y)));
    const T z = T(0.3 + r.real() * 2.5);
    MON_CHECK(std::fabs((real)xm::arccos(std::cos(z)) - (real)z) <= 32 * eps, P "inverse", "arccos(cos(%.15Lg)) is %.15Lg", (real)z, (real)xm::arccos(std::cos(z)));
    seen(hash2(coarse(v), hash2(coarse(w), sizeof(T))));
}
template<typename T>
void type(const char* name, long n) {
    std::string g = std::string("constants of ") + name;
    cases(g.c_str(), 1, [](Rng&, long) {
#define C(name, digits) constant<T>(#name, xm::name##_v<T>, digits);
#include "../harness/constants.inc"
#undef C
    });
    g = std::string("angles of ") + name;
    cases(g.c_str(), n, [](Rng& r, long) { angles<T>(r); });
    g = std::string("reciprocals of ") + name;
    cases(g.c_str(), n, [](Rng& r, long) { reciprocals<T>(r); });
    g = std::string("inverses of ") + name;
    cases(g.c_str(), n, [](Rng& r, long) { inverses<T>(r); });
}
int main(int argc, char** argv) {
    init(argc, argv);
    const long n = st().cases;
    type<float>("float", n);
    type<double>("double", n);
    type<long double>("long double", n);
    cases("unsuffixed constants", 1, [](Rng&, long) {
#define C(name, digits)                                                                          \
    {                                                                                            \
        static_assert(std::is_same_v<decltype(xm::name), const double>);                         \
        constant<double>(#name, xm::name, digits);                                               \
        MON_CHECK(xm::name == xm::name##_v<double>, P "constant", #name " differs from " #name "_v<double>"); \
    }
#include "../harness/constants.inc"
#undef C
    });
    cases("whole angles", 1, [](Rng&, long) {
        judged(4);
        MON_CHECK(near<double>(xm::radians(180.0), pi_of<double>(), 4, 1) && near<float>(xm::radians(180.0f), pi_of<float>(), 4, 1), P "radians", "180 degrees");
        MON_CHECK(near<double>(xm::degrees(xm::pi), 180, 180, 1), P "degrees", "pi radians");
        // integers are taken as double, as the standard functions do
        MON_CHECK(near<double>(xm::sec(1), 1 / std::cos(1.0L), 2, 4) && near<double>(xm::csc(1), 1 / std::sin(1.0L), 2, 4) && near<double>(xm::cot(1), 1 / std::tan(1.0L), 2, 4), P "integers", "sec, csc and cot of 1");
        MON_CHECK(near<double>(xm::arcsin(1), pi_of<double>() / 2, 2, 2) && near<double>(xm::arctan(1), pi_of<double>() / 4, 1, 2) && near<double>(xm::arccos(0), pi_of<double>() / 2, 2, 2), P "integers", "arcsin, arctan and arccos of integers");
        seen(1);
    });
    return finish();
}
#endif
