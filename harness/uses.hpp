// For each header of xme a type, how to make an object of it from a seed, and what a use of the
// object gives. Included after the header(s), which are named by U_<name> macros.
#pragma once
#include "units.hpp"

// The headers below vectors/ and matrices/ are parts of vector.hpp and matrix.hpp
#if defined(U_vector) || defined(U_vectors_functions) || defined(U_geometry) || defined(U_vector2) || defined(U_vector3) || defined(U_vector4) || defined(U_glsl_mapping) || defined(U_math)
#    include <xme/math/vector.hpp>
#endif
#if defined(U_matrix) || defined(U_matrices_functions) || defined(U_matrix4x4) || defined(U_perspective) || defined(U_transformation) || defined(U_math)
#    include <xme/math/matrix.hpp>
#endif

namespace {

template<typename T>
unsigned long long all(const T& range) {
    units::Mix m;
    for(const auto& x : range) m(x);
    return m.h;
}

// --- containers --------------------------------------------------------------------------------
#ifdef U_aligned_data
struct aligned_data {
    using T = xme::AlignedData<std::string>;
    static T* make(units::Rng& r) { return new T(r.word()); }
    static auto read(T& t) { return units::Mix()(*t.data())(t.address() == t.data()).h; }
    static void drop(T* t) {
        std::destroy_at(t->data());
        delete t;
    }
};
#endif
#ifdef U_array
struct array {
    using T = xme::Array<std::string>;
    static T* make(units::Rng& r) {
        auto* t = new T;
        for(int k = (int)r.below(20); k > 0; --k) t->push_back(r.word());
        return t;
    }
    static auto read(T& t) {
        t.insert(t.begin() + (std::ptrdiff_t)(t.size() / 2), std::string("one more"));
        if(t.size() > 9) t.erase(t.begin());
        return units::Mix()(all(t))(t.size())(t.capacity() >= t.size()).h;
    }
};
#endif
#ifdef U_array_view
struct array_view {
    struct T {
        std::array<int, 12> data;
        xme::ArrayView<int> dynamic;
        xme::ArrayView<const int, 12> fixed;
        explicit T(units::Rng& r) : data(fill(r)), dynamic(data), fixed(data) {}
        static std::array<int, 12> fill(units::Rng& r) {
            std::array<int, 12> a;
            for(int& x : a) x = (int)r.below(99);
            return a;
        }
    };
    static T* make(units::Rng& r) { return new T(r); }
    static auto read(T& t) {
        t.dynamic[3] += 1;
        return units::Mix()(all(t.dynamic.subview(1, 5)))(all(t.fixed))((unsigned)t.dynamic.size())((unsigned)xme::as_bytes(t.dynamic).size()).h;
    }
};
#endif
#ifdef U_container_concepts
template<bool A, bool B, bool C>
struct Three {
    bool a = A, b = B, c = C;
};
struct container_concepts {
    using T = Three<xme::CAllocator<std::allocator<int>>, xme::CTupleLike<std::tuple<int, int>>, xme::CPairLike<std::array<int, 3>>>;
    static T* make(units::Rng&) { return new T; }
    static auto read(T& t) { return units::Mix()(t.a)(t.b)(t.c).h; }
};
#endif
#ifdef U_container
struct container {
    struct T {
        xme::Array<int> a;
        xme::LinkedList<int> l;
        xme::Tuple<int, std::string> t;
        xme::Pair<int, int> p;
        xme::SPSCQueue<int> q{8};
    };
    static T* make(units::Rng& r) {
        auto* t = new T{{}, {}, {(int)r.below(9), r.word()}, {1, (int)r.below(9)}};
        t->a.push_back((int)r.below(99));
        t->l.push_front((int)r.below(99));
        t->q.push((int)r.below(99));
        return t;
    }
    static auto read(T& t) {
        xme::ArrayView<int> v(t.a);
        units::Mix m;
        m(all(t.a))(all(t.l))(xme::get<1>(t.t))(xme::get<1>(t.p))((unsigned)v.size())((unsigned)t.q.read_available());
        t.q.consume([&](int x) { m(x); });
        t.q.push(77);
        return m.h;
    }
};
#endif
#ifdef U_container_policy
struct container_policy {
    using T = xme::Capacity<8>;
    static T* make(units::Rng&) { return new T; }
    static auto read(T&) { return units::Mix()((unsigned)T::capacity).h; }
};
#endif
#ifdef U_heap
struct heap {
    using T = xme::Heap<std::string>;
    static T* make(units::Rng& r) {
        auto* t = new T;
        for(int k = (int)r.below(20); k >= 0; --k) t->push(r.word());
        return t;
    }
    static auto read(T& t) {
        if(t.size() > 4) t.pop();
        t.push("one more");
        return units::Mix()(t.front())((unsigned)t.size()).h;
    }
};
#endif
#ifdef U_icontainer
struct icontainer {
    struct T : xme::IContainer<T> {
        std::array<int, 5> data_;
        int* begin() { return data_.data(); }
        int* end() { return data_.data() + 5; }
        const int* begin() const { return data_.data(); }
        const int* end() const { return data_.data() + 5; }
    };
    static T* make(units::Rng& r) {
        auto* t = new T;
        for(int& x : t->data_) x = (int)r.below(50);
        return t;
    }
    static auto read(T& t) { return units::Mix()(t.front())(t.back())(t[2])((unsigned)t.size())(t.empty()).h; }
};
#endif
#ifdef U_linked_list
struct linked_list {
    using T = xme::LinkedList<std::string>;
    static T* make(units::Rng& r) {
        auto* t = new T;
        for(int k = (int)r.below(20); k >= 0; --k) t->push_front(r.word());
        return t;
    }
    static auto read(T& t) {
        t.reverse();
        t.emplace_after(t.begin(), "one more");
        t.pop_front();
        return all(t);
    }
};
#endif
#ifdef U_pair
struct pair {
    using T = xme::Pair<std::string, int>;
    static T* make(units::Rng& r) { return new T{r.word(), (int)r.below(9)}; }
    static auto read(T& t) {
        t.second += 1;
        return units::Mix()(t.first)(xme::get<1>(t))(t == t).h;
    }
};
#endif
#ifdef U_spsc_queue
struct spsc_queue {
    struct T {
        xme::SPSCQueue<std::string> d{16};
        xme::SPSCQueue<std::string, xme::Capacity<8>> s;
    };
    static T* make(units::Rng& r) {
        auto* t = new T;
        for(int k = (int)r.below(7); k >= 0; --k) t->d.push(r.word()), t->s.push(r.word());
        return t;
    }
    static auto read(T& t) {
        units::Mix m;
        auto take = [&](std::string&& s) { m(s); };
        t.d.push("one more");
        t.s.emplace("one more");
        t.d.consume(take);
        t.s.consume(take);
        return m((unsigned)t.d.read_available())((unsigned)t.s.write_available()).h;
    }
};
#endif
#ifdef U_tuple
struct tuple {
    using T = xme::Tuple<int, std::string, double>;
    static T* make(units::Rng& r) { return new T{(int)r.below(9), r.word(), 1.5}; }
    static auto read(T& t) {
        xme::get<1>(t) += "x";
        auto u = xme::tuple_cat(t, xme::make_tuple(3));
        return units::Mix()(xme::get<0>(u))(xme::get<1>(u))(xme::get<3>(u))(t < t).h;
    }
};
#endif

// --- core ----------------------------------------------------------------------------------------
#if defined(U_find) || defined(U_reverse)
template<typename F>
struct sequences {
    struct T {
        std::vector<std::uint8_t> bytes;
        std::vector<int> ints;
        std::vector<std::string> strings;
    };
    static T* make(units::Rng& r) {
        auto* t = new T;
        for(int k = (int)r.below(120); k >= 0; --k) t->bytes.push_back((std::uint8_t)r.below(50)), t->ints.push_back((int)r.below(50)), t->strings.push_back(r.word());
        return t;
    }
    static auto read(T& t) { return F()(t); }
};
#endif
#ifdef U_find
struct do_find {
    unsigned long long operator()(auto& t) const {
        units::Mix m;
        for(int k = 0; k < 9; ++k)
            m((int)(xme::find(t.bytes, (std::uint8_t)k) - t.bytes.begin()))((int)(xme::find(t.ints, k) - t.ints.begin()));
        return m((int)(xme::find(t.strings.begin(), t.strings.end(), std::string("none")) - t.strings.begin())).h;
    }
};
struct find : sequences<do_find> {};
#endif
#ifdef U_reverse
struct do_reverse {
    unsigned long long operator()(auto& t) const {
        xme::reverse(t.bytes);
        xme::reverse(t.ints.begin(), t.ints.end());
        xme::reverse(t.strings);
        return units::Mix()(all(t.bytes))(all(t.ints))(all(t.strings)).h;
    }
};
struct reverse : sequences<do_reverse> {};
#endif
#ifdef U_has_single_bit
struct has_single_bit {
    using T = unsigned;
    static T* make(units::Rng& r) { return new T((unsigned)r.below(9)); }
    static auto read(T& t) { return units::Mix()(xme::has_single_bit(t)).h; }
};
#endif
#ifdef U_arithmetic
struct arithmetic {
    struct T {
        bool a = xme::CFloatingPoint<float>, b = xme::CIntegral<float>, c = xme::CSignedIntegral<int>, d = xme::CUnsignedIntegral<int>, e = xme::CArithmetic<char>;
    };
    static T* make(units::Rng&) { return new T; }
    static auto read(T& t) { return units::Mix()(t.a)(t.b)(t.c)(t.d)(t.e)(xme::CArithmetic<T>).h; }
};
#endif
#ifdef U_concepts
struct concepts {
    struct T {
        bool a = xme::CArithmetic<char>, b = xme::CDifferentFrom<int, char>;
    };
    static T* make(units::Rng&) { return new T; }
    static auto read(T& t) { return units::Mix()(t.a)(t.b)(xme::CArithmetic<T>).h; }
};
#endif
#ifdef U_constant_iterator
struct constant_iterator {
    struct T {
        bool a = xme::CConstantIterator<int*>, b = xme::CConstantIterator<const int*>;
    };
    static T* make(units::Rng&) { return new T; }
    static auto read(T& t) { return units::Mix()(t.a)(t.b)(xme::CConstantIterator<std::vector<int>::const_iterator>).h; }
};
#endif
#ifdef U_different_from
struct different_from {
    struct T {
        bool a = xme::CDifferentFrom<int, char>, b = xme::CDifferentFromSelf<const int&, int>;
    };
    static T* make(units::Rng&) { return new T; }
    static auto read(T& t) { return units::Mix()(t.a)(t.b).h; }
};
#endif
#ifdef U_bind
struct add {
    std::string s;
    std::string operator()(const std::string& a, const std::string& b) const { return a + s + b; }
};
struct bind {
    struct T {
        decltype(xme::bind_front(std::declval<add>(), std::string())) front;
        decltype(xme::bind_back(std::declval<add>(), std::string())) back;
    };
    static T* make(units::Rng& r) { return new T{xme::bind_front(add{r.word()}, r.word()), xme::bind_back(add{r.word()}, r.word())}; }
    static auto read(T& t) { return units::Mix()(t.front("x"))(t.back("y")).h; }
};
#endif
#ifdef U_delegate
struct delegate {
    struct T {
        xme::Delegate<int(int)> small;
        xme::Delegate<std::string(std::string)> large;
    };
    static T* make(units::Rng& r) {
        return new T{[k = (int)r.below(9)](int x) { return x + k; }, [s = r.word(), t = r.word()](std::string x) { return s + x + t; }};
    }
    static auto read(T& t) {
        auto a = t.small;
        auto b = t.large;
        b.swap(t.large);
        return units::Mix()(a(3))(t.small(4))(b("x"))(t.large("y"))(!!a).h;
    }
};
#endif
#ifdef U_scoped_delegate
struct scoped_delegate {
    struct T {
        int count;
    };
    static T* make(units::Rng& r) { return new T{(int)r.below(9)}; }
    static auto read(T& t) {
        { xme::ScopedDelegate guard([&] { ++t.count; }); }
        return units::Mix()(t.count).h;
    }
};
#endif
#ifdef U_const_iterator
struct const_iterator {
    using T = std::vector<int>;
    static T* make(units::Rng& r) {
        auto* t = new T;
        for(int k = (int)r.below(20); k >= 0; --k) t->push_back((int)r.below(99));
        return t;
    }
    static auto read(T& t) {
        units::Mix m;
        for(auto it = xme::make_const_iterator(t.begin()); it != xme::make_const_sentinel(t.end()); ++it) m(*it);
        return m.h;
    }
};
#endif
#ifdef U_iterator_traits
struct iterator_traits {
    using T = int;
    static T* make(units::Rng& r) { return new T((int)r.below(9)); }
    static auto read(T& t) { return units::Mix()(t)(std::is_same_v<xme::iter_const_reference_t<int*>, const int&>).h; }
};
#endif
#ifdef U_reverse_iterator
struct reverse_iterator {
    using T = std::vector<int>;
    static T* make(units::Rng& r) {
        auto* t = new T;
        for(int k = (int)r.below(20); k >= 0; --k) t->push_back((int)r.below(99));
        return t;
    }
    static auto read(T& t) {
        units::Mix m;
        xme::ReverseIterator<T::iterator> it(t.end()), end(t.begin());
        for(; it != end; ++it) m(*it);
        return m.h;
    }
};
#endif
#ifdef U_is_initializer_list
struct is_initializer_list {
    using T = int;
    static T* make(units::Rng& r) { return new T((int)r.below(9)); }
    static auto read(T& t) { return units::Mix()(t)(xme::is_initializer_list<std::initializer_list<int>>)(xme::is_initializer_list<int>).h; }
};
#endif
#ifdef U_is_scoped_enum
struct is_scoped_enum {
    enum class A { x };
    enum B { y };
    using T = int;
    static T* make(units::Rng& r) { return new T((int)r.below(9)); }
    static auto read(T& t) { return units::Mix()(t)(xme::is_scoped_enum<A>)(xme::is_scoped_enum<B>)(xme::is_scoped_enum<int>).h; }
};
#endif
#ifdef U_forward_like
struct forward_like {
    using T = std::string;
    static T* make(units::Rng& r) { return new T(r.word()); }
    static auto read(T& t) {
        std::string moved = xme::forward_like<int>(t);
        std::string copy  = xme::forward_like<int&>(moved);
        t                 = copy;
        return units::Mix()(moved)(copy).h;
    }
};
#endif
#ifdef U_to_unsigned
struct to_unsigned {
    using T = int;
    static T* make(units::Rng& r) { return new T((int)r.below(9) - 5); }
    static auto read(T& t) { return units::Mix()((int)(xme::to_unsigned(t) >> 3))(xme::to_unsigned((signed char)t)).h; }
};
#endif

// --- platform --------------------------------------------------------------------------------------
#if defined(U_platform) || defined(U_linux_platform)
struct environment {
    using T = std::string;
    static T* make(units::Rng& r) { return new T(r.word()); }
    static auto read(T& t) {
        xme::hal::set_environment_variable("XME_UNITS", t);
        const char* v = xme::hal::get_environment_variable(std::string_view("XME_UNITS="));
        const char* w = xme::hal::get_environment_variable(std::string_view("XME_UNITS"));
        return units::Mix()(v != nullptr)(std::string(w ? w : "none")).h;
    }
};
#endif
#ifdef U_platform
struct platform : environment {};
#endif
#ifdef U_linux_platform
struct linux_platform : environment {};
#endif
#ifdef U_shared_library
struct shared_library {
    using T = xme::hal::SharedLibrary;
    static T* make(units::Rng&) { return new T("libm.so.6"); }
    static auto read(T& t) {
        T other = std::move(t);
        bool a = other.is_open(), b = t.is_open(), c = other.proc_address<double (*)(double)>("cos") != nullptr;
        t = std::move(other);
        return units::Mix()(a)(b)(c)(t.is_open()).h;
    }
};
#endif
#define MACRO(...) MACRO_(__VA_ARGS__)
#define MACRO_(...) #__VA_ARGS__
struct macros {
    using T = int;
    static T* make(units::Rng&) { return new T(1); }
};
#ifdef U_setup
XME_INLINE int twice(int x) { return 2 * x; }
XME_CONSTEXPR20 int once(int x) { return x; }
struct setup : macros {
    static auto read(T& t) { return units::Mix()(twice(t))(once(t)).h; }
};
#endif
#ifdef U_architecture_detection
struct architecture_detection : macros {
    static auto read(T& t) { return units::Mix()(t)(std::string(MACRO(XME_ARCH_X86)))(std::string(MACRO(XME_ARCH_ARM))).h; }
};
#endif
#ifdef U_compiler_detection
struct compiler_detection : macros {
#    ifdef XME_COMPILER_CLANG
    static constexpr int clang = 1;
#    else
    static constexpr int clang = 0;
#    endif
    static auto read(T& t) { return units::Mix()(t)(clang).h; }
};
#endif
#if defined(U_platform_macros) || defined(U_linux_platform_macros)
struct exported : macros {
    DLLEXPORT static auto read(T& t) { return units::Mix()(t).h; }
};
#endif
#ifdef U_platform_macros
struct platform_macros : exported {
    DLLEXPORT static auto read(T& t) { return units::Mix()(t)(std::string(MACRO(XME_PLATFORM_LINUX)))(std::string(MACRO(XME_PLATFORM_WINDOWS))).h; }
};
#endif
#ifdef U_linux_platform_macros
struct linux_platform_macros : exported {};
#endif
#ifdef U_simd_detection
struct simd_detection : macros {
    static auto read(T& t) {
        return units::Mix()(t)(std::string(MACRO(XME_SIMD_HAS_SSE2)))(std::string(MACRO(XME_SIMD_USE_SSE2)))(std::string(MACRO(XME_SIMD_HAS_AVX2)))(std::string(MACRO(XME_SIMD_USE_AVX2))).h;
    }
};
#endif

// --- mathematics -------------------------------------------------------------------------------------
#ifdef U_constants
struct constants {
    using T = double;
    static T* make(units::Rng&) { return new T(xme::math::pi_v<double>); }
    static auto read(T& t) { return units::Mix()(t)(xme::math::e_v<float>)(xme::math::tau_v<double>).h; }
};
#endif
#if defined(U_vector) || defined(U_vectors_functions) || defined(U_geometry) || defined(U_vector2) || defined(U_vector3) || defined(U_vector4) || defined(U_glsl_mapping) || defined(U_math)
struct vectors_of {
    struct T {
        xme::math::Vector<float, 2> a;
        xme::math::Vector<double, 3> b;
        xme::math::Vector<int, 4> c;
        xme::math::Vector<float, 6> d;
    };
    static T* make(units::Rng& r) {
        auto* t = new T;
        t->a    = xme::math::Vector<float, 2>(r.below(9), r.below(9));
        t->b    = xme::math::Vector<double, 3>(r.below(9), 1 + r.below(9), r.below(9));
        t->c    = xme::math::Vector<int, 4>(r.below(9), r.below(9), 1, 2);
        for(std::size_t k = 0; k < 6; ++k) t->d[k] = (float)r.below(20);
        return t;
    }
    static auto read(T& t) {
        units::Mix m;
        auto show = [&](const auto& v, std::size_t n) {
            for(std::size_t k = 0; k < n; ++k) m((double)v[k]);
        };
        t.a += t.a * 2.0f;
        show(t.a, 2);
        show(-t.b, 3);
        show(t.c + t.c, 4);
        show(t.d * t.d, 6);
        show(xme::math::cross(t.b, t.b + t.b * 2), 3);
        show(xme::math::normalize(t.b), 3);
        show(xme::math::lerp(t.a, t.a * 2.0f, 0.25f), 2);
        show(xme::math::sign(t.c), 4);
        return m(xme::math::dot(t.d, t.d))(xme::math::length(t.b))(t.a == t.a).h;
    }
};
#endif
#ifdef U_vector
struct vector : vectors_of {};
#endif
#ifdef U_vectors_functions
struct vectors_functions : vectors_of {};
#endif
#ifdef U_geometry
struct geometry : vectors_of {};
#endif
#ifdef U_vector2
struct vector2 : vectors_of {};
#endif
#ifdef U_vector3
struct vector3 : vectors_of {};
#endif
#ifdef U_vector4
struct vector4 : vectors_of {};
#endif
#if defined(U_matrix) || defined(U_matrices_functions) || defined(U_matrix4x4) || defined(U_perspective) || defined(U_transformation) || defined(U_math)
struct matrices_of {
    struct T {
        xme::math::Matrix<double, 4, 4> a;
        xme::math::Matrix<float, 3, 2> b;
        xme::math::Matrix<float, 2, 2> c;
    };
    static T* make(units::Rng& r) {
        auto* t = new T;
        auto fill = [&](auto& m, std::size_t cols, std::size_t rows) {
            for(std::size_t c = 0; c < cols; ++c)
                for(std::size_t k = 0; k < rows; ++k) m[c][k] = (int)r.below(9);
        };
        fill(t->a, 4, 4);
        fill(t->b, 3, 2);
        fill(t->c, 2, 2);
        return t;
    }
    static auto read(T& t) {
        units::Mix m;
        auto show = [&](const auto& v, std::size_t cols, std::size_t rows) {
            for(std::size_t c = 0; c < cols; ++c)
                for(std::size_t k = 0; k < rows; ++k) m((double)v[c][k]);
        };
        t.a[0][0] += 1;
        show(t.a * t.a, 4, 4);
        show(xme::math::transpose(t.b), 2, 3);
        show(t.b + t.b * 2.0f, 3, 2);
        show(xme::math::translate(t.a, xme::math::Vector<double, 3>(1, 2, 3)), 4, 4);
        show(xme::math::perspective(1.0, 1.5, 0.1, 10.0), 4, 4);
        return m(xme::math::determinant(t.a))(xme::math::determinant(t.c)).h;
    }
};
#endif
#ifdef U_matrix
struct matrix : matrices_of {};
#endif
#ifdef U_matrices_functions
struct matrices_functions : matrices_of {};
#endif
#ifdef U_matrix4x4
struct matrix4x4 : matrices_of {};
#endif
#ifdef U_perspective
struct perspective : matrices_of {};
#endif
#ifdef U_transformation
struct transformation : matrices_of {};
#endif
#if defined(U_quaternion) || defined(U_math)
struct quaternion_of {
    using T = xme::math::Quaternion<float>;
    static T* make(units::Rng& r) { return new T(r.below(9), r.below(9), 1, 2); }
    static auto read(T& t) {
        auto q = t * t + t;
        t.w += 1;
        return units::Mix()(q.w)(q.x)(q.y)(q.z)(t.w).h;
    }
};
#endif
#ifdef U_quaternion
struct quaternion : quaternion_of {};
#endif
#ifdef U_glsl_mapping
struct glsl_mapping {
    struct T {
        xme::math::vec3 a;
        xme::math::dmat4 b;
        xme::math::mat2x3 c;
    };
    static T* make(units::Rng& r) {
        auto* t = new T{};
        t->a[1] = (float)r.below(9);
        return t;
    }
    static auto read(T& t) { return units::Mix()(t.a[1])(t.b[1][1])((unsigned)sizeof(t.c))((unsigned)sizeof(xme::math::dmat3x4)).h; }
};
#endif
#ifdef U_math
struct math {
    struct T {
        vectors_of::T* v;
        matrices_of::T* m;
        quaternion_of::T* q;
    };
    static T* make(units::Rng& r) { return new T{vectors_of::make(r), matrices_of::make(r), quaternion_of::make(r)}; }
    static auto read(T& t) {
        return units::Mix()(vectors_of::read(*t.v))(matrices_of::read(*t.m))(quaternion_of::read(*t.q))(xme::math::sign(-3))(xme::math::radians(90.0))(xme::math::pi_v<float>).h;
    }
    static void drop(T* t) {
        delete t->v;
        delete t->m;
        delete t->q;
        delete t;
    }
};
#endif
#ifdef U_scalar_functions
struct scalar_functions {
    using T = double;
    static T* make(units::Rng& r) { return new T((double)r.below(9) - 4); }
    static auto read(T& t) { return units::Mix()(xme::math::sign(t))(xme::math::sign((int)t)).h; }
};
#endif
#ifdef U_trigonometry
struct trigonometry {
    using T = double;
    static T* make(units::Rng& r) { return new T(1 + (double)r.below(9)); }
    static auto read(T& t) { return units::Mix()(xme::math::radians(t))(xme::math::degrees((float)t))(xme::math::sec(t))(xme::math::arctan(t)).h; }
};
#endif

// --- ranges --------------------------------------------------------------------------------------
#if defined(U_destroy) || defined(U_uninitialized)
struct raw_strings {
    struct T {
        std::string* p;
        std::size_t n;
    };
    static T* make(units::Rng& r) {
        std::size_t n = 1 + r.below(9);
        auto* t       = new T{std::allocator<std::string>().allocate(n), n};
        for(std::size_t k = 0; k < n; ++k) std::construct_at(t->p + k, r.word());
        return t;
    }
};
#endif
#ifdef U_destroy
struct destroy : raw_strings {
    static auto read(T& t) {
        std::allocator<std::string> a;
        std::string last = t.p[t.n - 1];
        xme::ranges::destroy_at_a(t.p, a);
        std::construct_at(t.p, last + "x");
        return units::Mix()(last)((unsigned)t.n).h;
    }
    static void drop(T* t) {
        std::allocator<std::string> a;
        xme::ranges::destroy_a(t->p, t->p + t->n, a);
        a.deallocate(t->p, t->n);
        delete t;
    }
};
#endif
#ifdef U_uninitialized
struct uninitialized : raw_strings {
    static auto read(T& t) {
        std::allocator<std::string> a;
        std::string* q = a.allocate(t.n);
        xme::ranges::uninitialized_copy_a(t.p, t.p + t.n, q, q + t.n, a);
        units::Mix m;
        for(std::size_t k = 0; k < t.n; ++k) m(q[k]);
        std::destroy(q, q + t.n);
        a.deallocate(q, t.n);
        return m.h;
    }
    static void drop(T* t) {
        std::destroy(t->p, t->p + t->n);
        std::allocator<std::string>().deallocate(t->p, t->n);
        delete t;
    }
};
#endif

// Runs before the constructors of static objects.
__attribute__((constructor(200))) void report_unit() {
#define ENTRY(name) units::entries().push_back(units::entry<name>(#name));
#include "uses.inc"
#define NAME(x) units::names().push_back({UNIT, MACRO(x), #x});
    NAME(SEQ) NAME(MAT_OP) NAME(MAT_OP1) NAME(MAT_OP2) NAME(MAT_SELF_OP) NAME(MAT_SELF_OP1) NAME(MAT_SELF_OP2) NAME(VEC_OP) NAME(VEC_SELF_OP) NAME(OP) NAME(T) NAME(N) NAME(U) NAME(I)
    NAME(SIZE) NAME(COUNT) NAME(MIN) NAME(MAX) NAME(CHECK) NAME(ASSERT) NAME(INLINE) NAME(FORCE_INLINE) NAME(CONSTEXPR) NAME(LIKELY) NAME(UNLIKELY) NAME(ROWS) NAME(COLS) NAME(PI)
    NAME(EPSILON) NAME(TYPE) NAME(DATA) NAME(CAPACITY) NAME(SIMD) NAME(SSE) NAME(SSE2) NAME(AVX) NAME(AVX2) NAME(LOAD) NAME(STORE) NAME(CAST) NAME(FWD) NAME(MOVE) NAME(REQUIRES)
    NAME(RETURN) NAME(DEFINE) NAME(IMPL) NAME(DETAIL) NAME(GET) NAME(BEGIN) NAME(END) NAME(near) NAME(far) NAME(min) NAME(max) NAME(shuffle) NAME(find) NAME(reverse) NAME(size) NAME(data)
}
}  // namespace
