// Transformations and projections against the matrices of their definition (C32, C33).
#include "../harness/near.hpp"
#include <algorithm>
#include <array>
#include <cstdint>
#include <string>
#include <type_traits>
#include <xme/math/math.hpp>
#ifndef PART
#define PART 32
#endif

using namespace mon;
using xme::math::Matrix;
using xme::math::Vector;
namespace xm = xme::math;
using Ref = std::array<std::array<real, 4>, 4>;  // [column][row]

template<typename T>
Ref ref_of(const Matrix<T, 4, 4>& m) {
    Ref a;
    for(size_t c = 0; c < 4; ++c)
        for(size_t r = 0; r < 4; ++r) a[c][r] = m[c][r];
    return a;
}
inline Ref identity() {
    Ref a{};
    for(size_t i = 0; i < 4; ++i) a[i][i] = 1;
    return a;
}
// product, and the magnitudes it was summed from
inline Ref multiply(const Ref& a, const Ref& b, Ref& scale) {
    Ref p;
    for(size_t c = 0; c < 4; ++c)
        for(size_t r = 0; r < 4; ++r) {
            p[c][r] = scale[c][r] = 0;
            for(size_t k = 0; k < 4; ++k) {
                p[c][r] += a[k][r] * b[c][k];
                scale[c][r] += std::fabs(a[k][r] * b[c][k]);
            }
        }
    return p;
}

#if PART == 32
#define P "C32:"
template<typename T>
Matrix<T, 4, 4> random_matrix(Rng& r) {
    Matrix<T, 4, 4> m;
    switch(r.below(5)) {
    case 0: break;
    case 1:
        for(size_t c = 0; c < 4; ++c)
            for(size_t q = 0; q < 4; ++q) m[c][q] = T(r.range(-9, 9));
        break;
    case 2: {  // the bottom row of an affine transformation
        for(size_t c = 0; c < 4; ++c)
            for(size_t q = 0; q < 3; ++q) m[c][q] = number<T>(r, 3);
        break;
    }
    default:
        for(size_t c = 0; c < 4; ++c)
            for(size_t q = 0; q < 4; ++q) m[c][q] = number<T>(r, 4);
    }
    return m;
}
template<typename U>
U coordinate(Rng& r, int mode) {
    if(mode == 0) return U(r.range(-9, 9));
    if(mode == 1) return r.chance(60) ? U(0) : U(r.range(0, 5));
    if constexpr(std::is_integral_v<U>) return U(r.range(-100000, 100000));
    else return number<U>(r, 4);
}
template<typename T, typename V>
void close(const Matrix<T, 4, 4>& m, const Ref& want, const Ref& scale, real k, const char* key, const char* what, const V&) {
    judged();
    // U rounds what it holds when it is narrower
    for(size_t c = 0; c < 4; ++c)
        for(size_t q = 0; q < 4; ++q) MON_CHECK(near<T>(m[c][q], want[c][q], scale[c][q], k), key, "%s: element %zu of column %zu is %.15Lg instead of %.15Lg", what, q, c, (real)m[c][q], want[c][q]);
}
template<typename T>
void show(const Matrix<T, 4, 4>& m) {
    note("matrix");
    for(size_t c = 0; c < 4; ++c) {
        for(size_t q = 0; q < 4; ++q) note(" %.9Lg", (real)m[c][q]);
        note(";");
    }
    note("\n");
}
template<typename T, typename U>
void moves(Rng& r) {
    const auto m = random_matrix<T>(r);
    const auto before = m;
    const int mode = (int)r.below(4);
    Vector<U, 3> v(coordinate<U>(r, mode), coordinate<U>(r, mode), coordinate<U>(r, mode));
    show(m);
    note("vector %.9Lg %.9Lg %.9Lg\n", (real)v[0], (real)v[1], (real)v[2]);
    Ref scale;
    {
        Ref t = identity();
        for(size_t i = 0; i < 3; ++i) t[3][i] = (real)v[i];
        const Ref want = multiply(ref_of(m), t, scale);
        auto got       = xm::translate(m, v);
        static_assert(std::is_same_v<decltype(got), Matrix<T, 4, 4>>);
        close(got, want, scale, 8, P "translate", "translate", v);
        for(size_t c = 0; c < 3; ++c) MON_CHECK(got[c] == m[c], P "translate", "translate changes column %zu", c);
    }
    {
        Ref t = identity();
        for(size_t i = 0; i < 3; ++i) t[i][i] = (real)v[i];
        const Ref want = multiply(ref_of(m), t, scale);
        auto got       = xm::scale(m, v);
        static_assert(std::is_same_v<decltype(got), Matrix<T, 4, 4>>);
        close(got, want, scale, 4, P "scale", "scale", v);
        MON_CHECK(got[3] == m[3], P "scale", "scale changes the last column");
        // the transformed point is the transformation of the scaled and moved point
        std::array<real, 4> p{number<float>(r, 1), number<float>(r, 1), number<float>(r, 1), 1};
        const Ref a = ref_of(xm::translate(m, v));
        for(size_t q = 0; q < 4; ++q) {
            real x = 0, y = 0, s = 0;
            for(size_t c = 0; c < 4; ++c) x += a[c][q] * p[c];
            for(size_t c = 0; c < 4; ++c) {
                const real moved = c < 3 ? p[c] + (real)v[c] : 1;
                y += (real)m[c][q] * moved;
                s += std::fabs((real)m[c][q]) * (std::fabs(p[c]) + (c < 3 ? std::fabs((real)v[c]) : 0));
            }
            MON_CHECK(near<T>((T)x, y, s, 10), P "translate", "row %zu of a translated point is %.12Lg instead of %.12Lg", q, x, y);
        }
        judged();
    }
    MON_CHECK(m == before, P "operand", "the matrix passed changed");
    seen(hash2(hash2(coarse(m[0][0]), coarse(m[3][1])), hash2(coarse((real)v[0]), sizeof(T) * 64 + sizeof(U) * 2 + std::is_integral_v<U>)));
}
template<typename U>
Vector<U, 3> unit(Rng& r) {
    Vector<U, 3> n(U(0), U(0), U(0));
    if(std::is_integral_v<U> || r.chance(30)) {
        n[r.below(3)] = r.chance(50) ? U(1) : U(-1);
        return n;
    }
    real x[3], l = 0;
    do {
        l = 0;
        for(auto& e: x) {
            e = r.chance(10) ? 0 : (real)(r.real() * 2 - 1);
            l += e * e;
        }
    } while(l < 0.01L);
    for(size_t i = 0; i < 3; ++i) n[i] = (U)(x[i] / std::sqrt(l));
    return n;
}
template<typename A>
A an_angle(Rng& r) {
    if constexpr(std::is_integral_v<A>) return A(r.range(-7, 7));
    else {
        const real pi = 3.14159265358979323846264338327950288L;
        switch(r.below(6)) {
        case 0: return A(pi * r.range(-8, 8) / 4);
        case 1: return A((r.real() - 0.5) * 1e-3);
        case 2: return A((r.real() - 0.5) * 200);
        default: return A((r.real() * 2 - 1) * pi);
        }
    }
}
// the rotation by an angle around a unit axis, by the vector formula applied to the unit vectors
template<typename V>
Ref rotation(real angle, const V& n) {
    Ref m        = identity();
    const real c = std::cos(angle), s = std::sin(angle);
    for(size_t k = 0; k < 3; ++k) {
        real e[3] = {0, 0, 0};
        e[k]      = 1;
        real d    = (real)n[k];
        for(size_t i = 0; i < 3; ++i) {
            const size_t j = (i + 1) % 3, l = (i + 2) % 3;
            const real cross = (real)n[j] * e[l] - (real)n[l] * e[j];
            m[k][i]          = e[i] * c + cross * s + (real)n[i] * d * (1 - c);
        }
    }
    return m;
}
template<typename T, typename U, typename A>
void rotates(Rng& r) {
    const auto m = random_matrix<T>(r);
    const auto n = unit<U>(r);
    const A angle = an_angle<A>(r);
    show(m);
    note("angle %.15Lg axis %.12Lg %.12Lg %.12Lg\n", (real)angle, (real)n[0], (real)n[1], (real)n[2]);
    const real eps = std::max({(real)std::numeric_limits<T>::epsilon(), std::is_integral_v<U> ? real(0) : (real)std::numeric_limits<U>::epsilon(), std::is_integral_v<A> ? real(0) : (real)std::numeric_limits<A>::epsilon()});
    // units of rounding of T
    const real units = eps / (real)std::numeric_limits<T>::epsilon() * (12 + 2 * std::fabs((real)angle));
    const Ref rot    = rotation((real)angle, n);
    Ref scale;
    const Ref want = multiply(ref_of(m), rot, scale);
    auto got       = xm::rotate(m, angle, n);
    static_assert(std::is_same_v<decltype(got), Matrix<T, 4, 4>>);
    Ref sum;  // every element of the rotation has an error of about one rounding
    for(size_t c = 0; c < 4; ++c)
        for(size_t q = 0; q < 4; ++q) sum[c][q] = std::fabs((real)m[0][q]) + std::fabs((real)m[1][q]) + std::fabs((real)m[2][q]);
    close(got, want, sum, units, P "rotate", "rotate", n);
    MON_CHECK(got[3] == m[3], P "rotate", "rotate changes the last column");
    // a rotation of the identity
    const Matrix<T, 4, 4> i;
    const auto o = xm::rotate(i, angle, n);
    const Ref a  = ref_of(o);
    for(size_t c = 0; c < 3; ++c) {
        MON_CHECK(o[c][3] == 0 && o[3][c] == 0, P "rotation", "the rotation moves or projects");
        for(size_t d = 0; d < 3; ++d) {
            real dot = 0;
            for(size_t q = 0; q < 3; ++q) dot += a[c][q] * a[d][q];
            MON_CHECK(near<T>((T)dot, c == d, 3, units), P "rotation", "columns %zu and %zu have the dot product %.12Lg", c, d, dot);
        }
        real along = 0;
        for(size_t k = 0; k < 3; ++k) along += a[k][c] * (real)n[k];
        MON_CHECK(near<T>((T)along, (real)n[c], 3, units), P "rotation", "the axis doesn't stay in place: component %zu becomes %.12Lg instead of %.12Lg", c, along, (real)n[c]);
    }
    MON_CHECK(near<T>(o.determinant(), 1, 6, 2 * units), P "rotation", "the determinant of a rotation is %.12Lg", (real)o.determinant());
    {  // a second turn around the same axis
        const A more = std::is_integral_v<A> ? A(2) : A(0.75);
        const auto both = ref_of(xm::rotate(o, more, n));
        const Ref w     = rotation((real)angle + (real)more, n);
        for(size_t c = 0; c < 4; ++c)
            for(size_t q = 0; q < 4; ++q) MON_CHECK(near<T>((T)both[c][q], w[c][q], 3, 2 * units + 12 * eps / (real)std::numeric_limits<T>::epsilon()), P "rotation", "two rotations don't add up: %.12Lg instead of %.12Lg", both[c][q], w[c][q]);
    }
    judged(5);
    seen(hash2(hash2(coarse((real)angle), coarse((real)n[0])), hash2(coarse(m[0][0]), sizeof(T) * 256 + sizeof(U) * 16 + sizeof(A))));
}
template<typename T, typename U>
void types(const char* name, long n) {
    std::string g = std::string("translate and scale ") + name;
    cases(g.c_str(), 2 * n, [](Rng& r, long) { moves<T, U>(r); });
    g = std::string("rotate ") + name;
    cases(g.c_str(), n, [](Rng& r, long) {
        rotates<T, U, T>(r);
        rotates<T, U, float>(r);
        rotates<T, U, double>(r);
        rotates<T, U, int>(r);
    });
}
int main(int argc, char** argv) {
    init(argc, argv);
    const long n = st().cases;
    types<float, float>("float by float", n);
    types<double, double>("double by double", n);
    types<long double, long double>("long double", n);
    types<float, double>("float by double", n);
    types<double, float>("double by float", n);
    types<float, int>("float by int", n);
    types<double, int>("double by int", n);
    types<double, std::int8_t>("double by int8", n);
    // the axes, a quarter turn: x to y to z to x
    cases("quarter turns", 1, [](Rng&, long) {
        for(size_t axis = 0; axis < 3; ++axis)
            for(int sign = -1; sign <= 1; sign += 2) {
                Vector<double, 3> n(0., 0., 0.);
                n[axis] = sign;
                const auto q = xm::rotate(Matrix<double, 4, 4>(), 1.57079632679489661923, n);
                for(size_t from = 0; from < 3; ++from)
                    for(size_t to = 0; to < 3; ++to) {
                        const int want = from == axis ? from == to : to == axis ? 0 : from == to ? 0 : to == (from + 1) % 3 ? ((from + 2) % 3 == axis ? sign : -sign) : ((from + 1) % 3 == axis ? -sign : sign);
                        judged();
                        MON_CHECK(near<double>(q[from][to], want, 1, 8), P "quarter", "a quarter turn around axis %zu (%d) takes %zu to %zu by %.12g instead of %d", axis, sign, from, to, q[from][to], want);
                    }
            }
        seen(6);
    });
    return finish();
}

#else
#define P "C33:"
// one volume of view, in the space of the eye
struct Volume {
    real l, r, b, t, n, f;
    bool perspective;
    real forward;  // the direction of sight along z: -1 or 1
    real k;        // units of rounding
    const char* name;
};
template<typename T>
void show(const Volume& v) {
    note("%s l %.9Lg r %.9Lg b %.9Lg t %.9Lg n %.9Lg f %.9Lg\n", v.name, v.l, v.r, v.b, v.t, v.n, v.f);
}
// the point at (x, y) of the near plane's coordinates and the given distance from the eye
template<typename T>
std::array<real, 3> project(const Matrix<T, 4, 4>& m, const std::array<real, 3>& p, real& w) {
    real v[4];
    for(size_t q = 0; q < 4; ++q) v[q] = (real)m[0][q] * p[0] + (real)m[1][q] * p[1] + (real)m[2][q] * p[2] + (real)m[3][q];
    w = v[3];
    return {v[0] / w, v[1] / w, v[2] / w};
}
template<typename T>
void judge(Rng& rng, const Matrix<T, 4, 4>& m, const Volume& v) {
    show<T>(v);
    const real eps = std::numeric_limits<T>::epsilon();
    // how much the differences of the planes amplify rounding
    const real ax = (std::fabs(v.l) + std::fabs(v.r)) / std::fabs(v.r - v.l) + 1, ay = (std::fabs(v.b) + std::fabs(v.t)) / std::fabs(v.t - v.b) + 1;
    const real az = (std::fabs(v.n) + std::fabs(v.f)) / std::fabs(v.f - v.n) + 1;
    auto point    = [&](real x, real y, real d, real wx, real wy, real wz, bool exact) {
        const real s = v.perspective ? d / v.n : 1;
        real w;
        auto c = project(m, {x * s, y * s, v.forward * d}, w);
        judged();
        MON_CHECK(w > 0, P "w", "%s: w is %.9Lg at the distance %.9Lg", v.name, w, d);
        if(v.perspective) MON_CHECK(near<T>((T)w, d, d, v.k), P "w", "%s: w is %.12Lg at the distance %.12Lg", v.name, w, d);
        else MON_CHECK(near<T>((T)w, 1, 1, v.k), P "w", "%s: w is %.12Lg", v.name, w);
        (void)exact;
        MON_CHECK(std::fabs(c[0] - wx) <= v.k * eps * ax * (1 + std::fabs(wx)), P "x", "%s: x %.12Lg is shown at %.12Lg instead of %.12Lg", v.name, x, c[0], wx);
        MON_CHECK(std::fabs(c[1] - wy) <= v.k * eps * ay * (1 + std::fabs(wy)), P "y", "%s: y %.12Lg is shown at %.12Lg instead of %.12Lg", v.name, y, c[1], wy);
        MON_CHECK(std::fabs(c[2] - wz) <= v.k * eps * az * (1 + std::fabs(wz)) * (v.perspective ? 1 + v.n / std::fabs(d) : 1), P "z", "%s: the distance %.12Lg is shown at %.12Lg instead of %.12Lg", v.name, d, c[2], wz);
        return c[2];
    };
    for(int corner = 0; corner < 8; ++corner) {
        const real x = corner & 1 ? v.r : v.l, y = corner & 2 ? v.t : v.b, d = corner & 4 ? v.f : v.n;
        point(x, y, d, corner & 1 ? 1 : -1, corner & 2 ? 1 : -1, corner & 4 ? 1 : -1, true);
    }
    real last = -2, last_d = v.n;
    for(int i = 0; i <= 8; ++i) {  // within the volume
        const real u = (real)rng.real(), w = (real)rng.real(), d = v.n + (v.f - v.n) * i / 8;
        const real x = v.l + (v.r - v.l) * u, y = v.b + (v.t - v.b) * w;
        const real depth = v.perspective ? ((v.f + v.n) - 2 * v.f * v.n / d) / (v.f - v.n) : (2 * d - v.f - v.n) / (v.f - v.n);
        const real z     = point(x, y, d, 2 * u - 1, 2 * w - 1, depth, false);
        MON_CHECK(z > last || v.k * eps * az * 8 > 0.01L, P "monotonic", "%s: the distance %.12Lg is shown at %.12Lg, %.12Lg at %.12Lg", v.name, last_d, last, d, z);
        last   = z;
        last_d = d;
    }
    seen(hash2(hash2(coarse(v.r), coarse(v.n)), hash2(coarse(v.f), hash_str(v.name) + sizeof(T))));
}
template<typename T>
void equal(const Matrix<T, 4, 4>& a, const Matrix<T, 4, 4>& b, const char* key, const char* what) {
    judged();
    for(size_t c = 0; c < 4; ++c)
        for(size_t q = 0; q < 4; ++q) MON_CHECK(near<T>(a[c][q], b[c][q], std::fabs((real)b[c][q]), 4), key, "%s: element %zu of column %zu is %.12Lg instead of %.12Lg", what, q, c, (real)a[c][q], (real)b[c][q]);
}
template<typename T>
void projections(Rng& r) {
    // the planes of the two sides
    auto sides = [&](real& lo, real& hi) {
        T a, b;
        const real size = std::pow(10.0L, (real)r.range(-3, 3));
        switch(r.below(5)) {
        case 0:  // in the middle
            b = T(size * (0.1L + (real)r.real()));
            a = -b;
            break;
        case 1:
            a = T(r.range(-5, 4));
            b = T(r.range((long)a + 1, 6));
            break;
        case 2:  // the window of a screen, at the origin
            a = 0;
            b = T(size * r.range(1, 2000));
            break;
        default:
            a = T(size * ((real)r.real() * 2 - 1));
            b = T(a + size * (0.05L + (real)r.real()));
        }
        if(r.chance(15)) std::swap(a, b);  // the first side may be on the right, or at the top
        lo = a;
        hi = b;
    };
    Volume v;
    sides(v.l, v.r);
    sides(v.b, v.t);
    v.k   = 24;
    T n   = T(std::pow(10.0L, (real)r.range(-3, 2)) * (0.1L + (real)r.real()));
    T f   = T(n * (r.chance(50) ? 1.1L + 10 * (real)r.real() : 2 + 1000 * (real)r.real()));
    if(r.chance(10)) std::swap(n, f);  // depth may be reversed
    v.n   = n;
    v.f   = f;
    const T L = (T)v.l, R = (T)v.r, B = (T)v.b, U = (T)v.t;
    v.perspective = true;
    v.forward     = -1;
    v.name        = "perspective_rh of six planes";
    const auto prh = xm::perspective_rh(L, R, B, U, n, f);
    static_assert(std::is_same_v<decltype(prh), const Matrix<T, 4, 4>>);
    judge(r, prh, v);
    v.forward = 1;
    v.name    = "perspective_lh of six planes";
    const auto plh = xm::perspective_lh(L, R, B, U, n, f);
    judge(r, plh, v);
    // the eye may be inside of an orthographic volume
    T on = n, of = f;
    if(r.chance(40)) on = T(r.chance(50) ? -n : r.range(-3, 0)), of = T(on + std::fabs(f));
    v.perspective = false;
    v.n           = on;
    v.f           = of;
    v.name        = "ortho_lh";
    const auto olh = xm::ortho_lh(L, R, B, U, on, of);
    judge(r, olh, v);
    v.forward = -1;
    v.name    = "ortho_rh";
    const auto orh = xm::ortho_rh(L, R, B, U, on, of);
    judge(r, orh, v);
    // by the field of view
    const T fov = T(0.05L + 3.0L * (real)r.real()), aspect = T(r.chance(30) ? 1 : 0.2L + 3 * (real)r.real());
    const real half = std::tan((real)fov / 2);
    // tan is this sensitive to the rounding of its argument
    v.k           = 24 + 4 * ((real)fov / 2) * (1 + half * half) / half;
    v.perspective = true;
    v.n           = n;
    v.f           = f;
    v.t           = half * n;
    v.b           = -v.t;
    v.r           = v.t * (real)aspect;
    v.l           = -v.r;
    v.name        = "perspective_rh by field of view";
    note("fov %.12Lg aspect %.12Lg\n", (real)fov, (real)aspect);
    const auto frh = xm::perspective_rh(fov, aspect, n, f);
    judge(r, frh, v);
    v.forward = 1;
    v.name    = "perspective_lh by field of view";
    const auto flh = xm::perspective_lh(fov, aspect, n, f);
    judge(r, flh, v);
#if defined(XME_MATH_CLIP_LH)
    equal(xm::ortho(L, R, B, U, on, of), olh, P "default", "ortho against ortho_lh");
    equal(xm::perspective(L, R, B, U, n, f), plh, P "default", "perspective of six planes against perspective_lh");
    equal(xm::perspective(fov, aspect, n, f), flh, P "default", "perspective by field of view against perspective_lh");
#else
    equal(xm::ortho(L, R, B, U, on, of), orh, P "default", "ortho against ortho_rh");
    equal(xm::perspective(L, R, B, U, n, f), prh, P "default", "perspective of six planes against perspective_rh");
    equal(xm::perspective(fov, aspect, n, f), frh, P "default", "perspective by field of view against perspective_rh");
#endif
}
int main(int argc, char** argv) {
    init(argc, argv);
    const long n = st().cases;
    cases("float", n, [](Rng& r, long) { projections<float>(r); });
    cases("double", n, [](Rng& r, long) { projections<double>(r); });
    cases("long double", n / 2, [](Rng& r, long) { projections<long double>(r); });
    return finish();
}
#endif
