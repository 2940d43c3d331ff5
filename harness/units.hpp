// What the translation units of a program report to each other: for each header of xme operations
// on an object of one of its types, behind untyped pointers.
#pragma once
#include <array>
#include <cstdint>
#include <cstring>
#include <memory>
#include <string>
#include <string_view>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>

namespace units {
using u64 = unsigned long long;
inline u64 scramble(u64 x) {
    x ^= x >> 30, x *= 0xBF58476D1CE4E5B9ull, x ^= x >> 27, x *= 0x94D049BB133111EBull;
    return x ^ (x >> 31);
}
struct Mix {
    u64 h = 1;
    template<typename T>
    Mix& operator()(const T& x) {
        if constexpr(std::is_floating_point_v<T>) {
            double d = x;
            u64 b;
            std::memcpy(&b, &d, 8);
            h = scramble(h * 31 + b);
        }
        else if constexpr(std::is_integral_v<T>) h = scramble(h * 31 + (u64)x);
        else
            for(char c : x) h = scramble(h * 31 + (unsigned char)c);
        return *this;
    }
};
struct Rng {
    u64 s;
    u64 below(u64 n) { return scramble(s += 0x9E3779B97F4A7C15ull) % n; }
    std::string word() { return "a string of some length " + std::to_string(below(1000)); }
};
struct Entry {
    const char *name, *unit;
    std::size_t size, alignment;
    void* (*make)(u64);
    u64 (*read)(void*);
    void (*drop)(void*);
    // results before the static objects of the program were initialised
    std::array<u64, 4> early = {};

    std::array<u64, 4> uses(u64 seed) const {
        std::array<u64, 4> results;
        void* p = make(seed);
        for(auto& r : results) r = read(p);
        drop(p);
        return results;
    }
};
struct Name {
    const char *unit, *is, *should;
};
// In the main unit; usable before static objects are initialised.
std::vector<Entry>& entries();
std::vector<Name>& names();
constexpr u64 early_seed = 4711;
#ifdef UNIT
template<typename U>
Entry entry(const char* name) {
    using T = typename U::T;
    Entry e{name, UNIT, sizeof(T), alignof(T), nullptr, nullptr, nullptr, {}};
    e.make = [](u64 seed) -> void* {
        Rng r{seed};
        return U::make(r);
    };
    e.read = [](void* p) -> u64 { return U::read(*static_cast<T*>(p)); };
    e.drop = [](void* p) {
        if constexpr(requires { U::drop(static_cast<T*>(p)); }) U::drop(static_cast<T*>(p));
        else delete static_cast<T*>(p);
    };
    e.early = e.uses(early_seed);
    return e;
}
#endif
}  // namespace units
