// Element types and allocators that report every lifetime event to a monitor.
#pragma once
#include "mon.hpp"
#include <iterator>
#include <memory>
#include <new>
#include <optional>
#include <stdexcept>
#include <string>
#include <unordered_map>
#include <vector>

namespace mon {
struct Injected {
    int what;
};

// The property the reports of the tracker belong to ("C02:").
inline std::string& lifetime_prefix() {
    static std::string s;
    return s;
}
inline void lifetime_violation(const std::string& key, const std::string& detail) {
    violation(lifetime_prefix() + key, detail);
}

struct Life {
    u64 serial;   // identity of the object living here
    long writes;  // assignments it received
};

struct Tracker {
    std::unordered_map<const void*, Life> live;
    u64 serial    = 0;
    long ctors    = 0, copies = 0, moves = 0, copy_assigns = 0, move_assigns = 0, dtors = 0;
    long countdown = -1;  // throw at the n-th throwing element operation from now, -1 never
    long ops       = 0;   // throwing element operations seen
    bool fired     = false;
    long block_countdown = -1;  // fail the n-th allocation from now
    long allocs = 0, deallocs = 0;
    struct Block {
        size_t n, size;
        int tag;
    };
    std::map<const char*, Block> blocks;

    long element_ops() const { return ctors + copies + moves + copy_assigns + move_assigns; }
    void arm(long elem, long block) {
        countdown       = elem;
        block_countdown = block;
        fired           = false;
    }
    void disarm() { countdown = block_countdown = -1; }

    void maybe_throw() {
        ++ops;
        if(countdown >= 0 && countdown-- == 0) {
            fired = true;
            throw Injected{1};
        }
    }
    void born(const void* p) {
        auto [it, ok] = live.emplace(p, Life{++serial, 0});
        if(!ok) {
            lifetime_violation("construct-over-live", "an element was constructed where one is still alive");
            it->second = Life{serial, 0};
        }
    }
    void need(const void* p, const char* key) {
        if(!live.count(p))
            lifetime_violation(key, fmt("%s: no element is alive there", key));
    }
    void died(const void* p) {
        ++dtors;
        if(!live.erase(p))
            lifetime_violation("destroy-dead", "an element was destroyed that isn't alive (never constructed, or destroyed before)");
    }
    bool alive(const void* p) const { return live.count(p) != 0; }
    u64 serial_of(const void* p) const {
        auto it = live.find(p);
        return it == live.end() ? 0 : it->second.serial;
    }
    long writes_of(const void* p) const {
        auto it = live.find(p);
        return it == live.end() ? -1 : it->second.writes;
    }
    void wrote(const void* p) {
        auto it = live.find(p);
        if(it != live.end()) ++it->second.writes;
    }
    const Block* block(const void* p) const {
        auto it = blocks.find((const char*)p);
        return it == blocks.end() ? nullptr : &it->second;
    }
    void reset() {
        disarm();
        live.clear();
    }
};
inline Tracker& tr() {
    static Tracker t;
    return t;
}

// No failures are injected while one of these exists.
struct Quiet {
    long elem = tr().countdown, block = tr().block_countdown;
    Quiet() { tr().disarm(); }
    ~Quiet() {
        tr().countdown       = elem;
        tr().block_countdown = block;
    }
};

inline constexpr int moved_from = -7777777;

enum : unsigned {
    k_copy       = 1,   // copyable
    k_default    = 2,   // default constructible
    k_throw_move = 4,   // moves may throw
    k_throw_all  = 8,   // copies and value construction may throw
    k_big        = 16,  // larger than two words of payload
    k_align      = 32,  // over-aligned
};

// A tracked element. It owns heap memory, remembers where it was constructed, and may throw
// when the tracker says so.
template<unsigned K>
struct alignas((K & k_align) ? 64 : 8) Obj {
    static constexpr bool nothrow_move = !(K & k_throw_move);
    int v;
    int* heap;
    const Obj* self;
    char pad[(K & k_big) ? 88 : 8];

    void make(int value) {
        v    = value;
        heap = new int(value);
        self = this;
        for(char& c : pad) c = (char)value;
        tr().born(this);
    }
    static void hook(bool can) {
        if(can) tr().maybe_throw();
    }

    Obj() requires((K & k_default) != 0) {
        hook(K & k_throw_all);
        ++tr().ctors;
        make(0);
    }
    Obj(int value) {
        hook(K & k_throw_all);
        ++tr().ctors;
        make(value);
    }
    Obj(const Obj& o) requires((K & k_copy) != 0) {
        tr().need(std::addressof(o), "copy-from-dead");
        o.check();
        hook(K & k_throw_all);
        ++tr().copies;
        make(o.v);
    }
    Obj(Obj&& o) noexcept(nothrow_move) {
        tr().need(std::addressof(o), "move-from-dead");
        o.check();
        if constexpr(!nothrow_move) hook(true);
        ++tr().moves;
        make(o.v);
        o.v = moved_from;
    }
    Obj& operator=(const Obj& o) requires((K & k_copy) != 0) {
        tr().need(this, "assign-to-dead");
        tr().need(std::addressof(o), "copy-from-dead");
        check();
        o.check();
        hook(K & k_throw_all);
        ++tr().copy_assigns;
        tr().wrote(this);
        set(o.v);
        return *this;
    }
    Obj& operator=(Obj&& o) noexcept(nothrow_move) {
        tr().need(this, "assign-to-dead");
        tr().need(std::addressof(o), "move-from-dead");
        check();
        o.check();
        if constexpr(!nothrow_move) hook(true);
        ++tr().move_assigns;
        tr().wrote(this);
        if(tr().alive(this) && tr().alive(std::addressof(o))) {
            int value = o.v;
            o.v       = moved_from;
            set(value);
            if(std::addressof(o) == this) v = moved_from;
        }
        return *this;
    }
    ~Obj() {
        if(tr().alive(this)) {
            check();
            delete heap;
            heap = nullptr;
        }
        tr().died(this);
        v    = moved_from - 1;
        self = nullptr;
    }
    struct NoAddress {};
    NoAddress operator&() { return {}; }
    NoAddress operator&() const { return {}; }
    void set(int value) {
        v = value;
        if(tr().alive(this)) *heap = value;
        for(char& c : pad) c = (char)value;
    }
    // The bytes of a live element were changed or moved behind its back?
    void check() const {
        if(!tr().alive(this)) return;
        if(self != this)
            lifetime_violation("relocated-bitwise", "a live element's bytes were moved to another address");
        else if(v != moved_from && (*heap != v || pad[0] != (char)v || pad[sizeof pad - 1] != (char)v))
            lifetime_violation("element-corrupted", fmt("a live element's bytes were overwritten (%d)", v));
    }
    friend bool operator==(const Obj& a, const Obj& b) { return a.v == b.v; }
    friend auto operator<=>(const Obj& a, const Obj& b) { return a.v <=> b.v; }
};

template<unsigned K>
int val(const Obj<K>& o) {
    if(!tr().alive(std::addressof(o))) {
        lifetime_violation("dead-element-in-container", "a position of the container holds no live element");
        return moved_from - 2;
    }
    o.check();
    return o.v;
}
inline int val(int v) { return v; }
inline int val(long v) { return (int)v; }
inline int val(double v) { return (int)v; }
inline int val(char v) { return v; }
inline int val(const std::string& s) {
    if(s.empty()) return 0;
    return atoi(s.c_str());
}
template<typename T>
T mk(int v) {
    return T(v);
}
template<>
inline std::string mk<std::string>(int v) {
    // long enough to live in the heap
    return v == 0 ? std::string() : std::to_string(v) + (v & 1 ? " this one is too long for the small buffer" : "");
}
struct Plain {  // trivially copyable, bigger than a word
    int v;
    int tail[5];
};
inline int val(const Plain& p) { return p.tail[4] == p.v ? p.v : moved_from - 3; }
template<>
inline Plain mk<Plain>(int v) {
    return Plain{v, {v, v, v, v, v}};
}

template<typename T>
inline constexpr bool is_tracked = false;
template<unsigned K>
inline constexpr bool is_tracked<Obj<K>> = true;

// Allocator that checks that every block is returned once, to an equal allocator, with the
// size it was requested with, and without live elements in it. Fresh memory is filled with
// garbage, and the tracker can make an allocation fail.
inline void* block_alloc(size_t n, size_t size, size_t align, int tag) {
    Tracker& t = tr();
    if(t.block_countdown >= 0 && t.block_countdown-- == 0) {
        t.fired = true;
        throw std::bad_alloc();
    }
    if(n > (size_t(1) << 40) / size) {
        lifetime_violation("absurd-allocation", fmt("%zu elements requested", n));
        throw std::bad_alloc();
    }
    ++t.allocs;
    size_t bytes = n * size ? n * size : 1;
    char* p      = (char*)::operator new(bytes, std::align_val_t(align));
    memset(p, 0xCD, bytes);
    t.blocks[p] = {n, size, tag};
    return p;
}
inline void block_free(void* p, size_t n, size_t size, size_t align, int tag) {
    Tracker& t = tr();
    ++t.deallocs;
    auto it = t.blocks.find((const char*)p);
    if(it == t.blocks.end()) {
        lifetime_violation("deallocate-unknown", "storage was deallocated that isn't allocated (double free, or never allocated)");
        return;
    }
    if(it->second.n != n || it->second.size != size)
        lifetime_violation("deallocate-size", fmt("storage for %zu elements was deallocated as %zu", it->second.n, n));
    if(it->second.tag != tag)
        lifetime_violation("deallocate-allocator", "storage was returned to an allocator it doesn't come from");
    for(size_t i = 0; i < it->second.n * it->second.size; i += 8)
        if(t.alive((char*)p + i)) {
            lifetime_violation("storage-freed-with-live-element", "storage was deallocated while elements in it are alive");
            break;
        }
    // forget the elements, they are reported already
    for(size_t i = 0; i < it->second.n * it->second.size; i += 8) t.live.erase((char*)p + i);
    t.blocks.erase(it);
    ::operator delete(p, std::align_val_t(align));
}

template<typename T>
struct Alloc {
    using value_type      = T;
    using size_type       = std::size_t;
    using difference_type = std::ptrdiff_t;
    using is_always_equal = std::true_type;
    Alloc() noexcept      = default;
    template<typename U>
    Alloc(const Alloc<U>&) noexcept {}
    T* allocate(size_t n) { return (T*)block_alloc(n, sizeof(T), alignof(T), 0); }
    void deallocate(T* p, size_t n) { block_free(p, n, sizeof(T), alignof(T), 0); }
    bool operator==(const Alloc&) const = default;
};

// Stateful: blocks must go back to an allocator with the same tag.
template<typename T>
struct TagAlloc {
    using value_type      = T;
    using size_type       = std::size_t;
    using difference_type = std::ptrdiff_t;
    using is_always_equal = std::false_type;
    using propagate_on_container_swap            = std::true_type;
    using propagate_on_container_copy_assignment = std::true_type;
    using propagate_on_container_move_assignment = std::true_type;
    int tag = 1;
    TagAlloc() noexcept = default;
    TagAlloc(int t) noexcept : tag(t) {}
    T* allocate(size_t n) { return (T*)block_alloc(n, sizeof(T), alignof(T), tag); }
    void deallocate(T* p, size_t n) { block_free(p, n, sizeof(T), alignof(T), tag); }
    bool operator==(const TagAlloc&) const = default;
};

// A single pass range over values: reading it twice loses elements.
template<typename T>
struct OnePass {
    const std::vector<int>* src;
    size_t* pos;
    mutable std::optional<T>* cell;
    using value_type        = T;
    using difference_type   = std::ptrdiff_t;
    using reference         = const T&;
    using pointer           = const T*;
    using iterator_category = std::input_iterator_tag;
    using iterator_concept  = std::input_iterator_tag;
    const T& operator*() const {
        cell->reset();
        cell->emplace(mk<T>((*src)[*pos]));
        return **cell;
    }
    OnePass& operator++() {
        ++*pos;
        return *this;
    }
    void operator++(int) { ++*pos; }
    friend bool operator==(const OnePass& a, std::default_sentinel_t) { return *a.pos >= a.src->size(); }
};
}  // namespace mon
