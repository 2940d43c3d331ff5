// Comparison with a reference evaluated in long double, within rounding.
#pragma once
#include "mon.hpp"
#include <cmath>
#include <limits>

namespace mon {
using real = long double;
// |got - want| is at most k units of rounding of the magnitudes that were added up
template<typename T>
bool near(T got, real want, real scale, real k) {
    if(std::isnan(want) || std::isnan((real)got)) return false;
    return std::fabs((real)got - want) <= k * (real)std::numeric_limits<T>::epsilon() * scale + (real)std::numeric_limits<T>::min() * 4;
}
// A number of one of many magnitudes, within 10^-decades .. 10^decades
template<typename T>
T number(Rng& r, int decades = 4) {
    switch(r.below(8)) {
    case 0: return T(r.range(-9, 9));
    case 1: return T((r.real() - 0.5) * 2);
    default: return T((r.real() - 0.5) * std::pow(10.0, (double)r.range(-decades, decades)));
    }
}
inline u64 coarse(real x) {
    if(x == 0) return 0;
    if(std::isnan(x) || std::isinf(x)) return 1;
    int e;
    real m = std::frexp(x, &e);
    return (u64)(std::int64_t)(e * 64 + (int)(m * 16));
}
}  // namespace mon
