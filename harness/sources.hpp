// Ranges of every iterator category to build containers from.
#pragma once
#include "track.hpp"
#include <forward_list>
#include <list>
#include <ranges>
#include <utility>

namespace mon {
inline std::string& source_prefix() {
    static std::string s;
    return s;
}
// Sources of elements, by kind.
enum { s_vector, s_list, s_forward, s_onepass, s_ints, s_move, s_const, s_kinds };
inline const char* source_name[] = {"vector", "list", "forward_list", "single-pass", "convertible",
                                    "move_iterator", "const vector"};

template<typename T>
constexpr bool source_ok(int kind) {
    constexpr bool copies = std::is_copy_constructible_v<T>;
    if(kind == s_ints) return std::is_convertible_v<int&, T>;
    if(kind == s_move) return true;
    return copies;
}

// Calls f(first, last) or g(range)
template<typename T, bool AsRange, typename F>
void with_source(int kind, const std::vector<int>& v, F&& f) {
    auto call = [&](auto&& c) {
        if constexpr(AsRange) f(c);
        else f(c.begin(), c.end());
    };
    auto fill = [&](auto& c) {
        Quiet q;
        for(int x : v) c.push_back(mk<T>(x));
    };
    auto same = [&](const auto& c) {
        tr().disarm();
        size_t i = 0;
        for(auto& x : c) {
            MON_CHECK(i < v.size() && val(x) == val(mk<T>(v[i])), source_prefix() + "source-modified",
                      "element %zu of the source range changed", i);
            ++i;
        }
    };
    if constexpr(std::is_copy_constructible_v<T>) {
        if(kind == s_vector || kind == s_const) {
            std::vector<T> c;
            c.reserve(v.size());
            fill(c);
            if(kind == s_vector) call(c);
            else call(std::as_const(c));
            same(c);
            return;
        }
        if(kind == s_list) {
            std::list<T> c;
            fill(c);
            call(c);
            same(c);
            return;
        }
        if(kind == s_forward) {
            std::forward_list<T> c;
            for(size_t i = v.size(); i-- > 0;) {
                Quiet q;
                c.push_front(mk<T>(v[i]));
            }
            call(c);
            same(c);
            return;
        }
        if(kind == s_onepass) {
            size_t pos = 0;
            std::optional<T> cell;
            OnePass<T> it{&v, &pos, &cell};
            if constexpr(AsRange) f(std::ranges::subrange(it, std::default_sentinel));
            else f(it, std::default_sentinel);
            MON_CHECK(pos == v.size(), source_prefix() + "single-pass-not-consumed", "consumed %zu of %zu", pos, v.size());
            return;
        }
    }
    if constexpr(std::is_convertible_v<int&, T>) {
        if(kind == s_ints) {
            std::vector<int> c = v;
            call(c);
            MON_CHECK(c == v, source_prefix() + "source-modified", "the source range changed");
            return;
        }
    }
    if(kind == s_move) {
        std::vector<T> c;
        c.reserve(v.size());
        fill(c);
        auto b = std::make_move_iterator(c.begin()), e = std::make_move_iterator(c.end());
        if constexpr(AsRange) f(std::ranges::subrange(b, e));
        else f(b, e);
        return;
    }
}

}  // namespace mon
