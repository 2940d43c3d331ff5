// A contiguous class iterator that watches its bounds.
#pragma once
#include "mon.hpp"
#include <compare>
#include <iterator>
#include <string>
#include <type_traits>

namespace mon {
inline std::string& fancy_prefix() {
    static std::string s;
    return s;
}
// A contiguous iterator that isn't a pointer. It reports positions outside the range it was
// made for, and reading its end.
template<typename T, typename Tag>
struct Fancy {
    using value_type        = T;
    using difference_type   = std::ptrdiff_t;
    using reference         = T&;
    using pointer           = T*;
    using element_type      = T;
    using iterator_category = std::random_access_iterator_tag;
    using iterator_concept  = Tag;
    T* p                    = nullptr;
    T* b                    = nullptr;
    T* e                    = nullptr;
    Fancy at(std::ptrdiff_t n) const {
        const bool in = n >= b - p && n <= e - p;
        MON_CHECK(in, fancy_prefix() + "outside", "an iterator %zd positions beyond a range of %zd was formed", n > 0 ? n - (e - p) : (b - p) - n, e - b);
        return {in ? p + n : e, b, e};
    }
    T& get(std::ptrdiff_t n) const {
        const bool in = n >= b - p && n < e - p;
        MON_CHECK(in, fancy_prefix() + "outside", "an element outside a range of %zd was accessed", e - b);
        alignas(T) static char none[sizeof(T)];
        return in ? p[n] : *reinterpret_cast<T*>(none);
    }
    T& operator*() const { return get(0); }
    T* operator->() const { return p; }
    T& operator[](std::ptrdiff_t n) const { return get(n); }
    Fancy& operator++() { return *this = at(1); }
    Fancy operator++(int) { Fancy c = *this; *this = at(1); return c; }
    Fancy& operator--() { return *this = at(-1); }
    Fancy operator--(int) { Fancy c = *this; *this = at(-1); return c; }
    Fancy& operator+=(std::ptrdiff_t n) { return *this = at(n); }
    Fancy& operator-=(std::ptrdiff_t n) { return *this = at(-n); }
    friend Fancy operator+(Fancy a, std::ptrdiff_t n) { return a.at(n); }
    friend Fancy operator+(std::ptrdiff_t n, Fancy a) { return a.at(n); }
    friend Fancy operator-(Fancy a, std::ptrdiff_t n) { return a.at(-n); }
    friend std::ptrdiff_t operator-(Fancy a, Fancy b) { return a.p - b.p; }
    friend bool operator==(Fancy a, Fancy b) { return a.p == b.p; }
    friend auto operator<=>(Fancy a, Fancy b) { return a.p <=> b.p; }
};
}  // namespace mon
