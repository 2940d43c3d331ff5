// Concepts, traits, GLSL names and detection macros: what the library says about types and the
// platform, reported by the compiled program and compared with the definitions (C41).
#include "../harness/mon.hpp"
#include <array>
#include <cstdint>
#include <deque>
#include <forward_list>
#include <initializer_list>
#include <iterator>
#include <list>
#include <map>
#include <memory>
#include <memory_resource>
#include <ranges>
#include <set>
#include <sstream>
#include <string>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>
#include <xme/container/concepts.hpp>
#include <xme/container/container.hpp>
#include <xme/core/concepts/arithmetic.hpp>
#include <xme/core/concepts/constant_iterator.hpp>
#include <xme/core/concepts/different_from.hpp>
#include <xme/core/iterators/iterator_traits.hpp>
#include <xme/core/type_traits/is_initializer_list.hpp>
#include <xme/core/type_traits/is_scoped_enum.hpp>
#include <xme/hal/architecture_detection.hpp>
#include <xme/hal/compiler_detection.hpp>
#include <xme/hal/platform_macros.hpp>
#include <xme/math/glsl_mapping.hpp>
#include <xme/math/math.hpp>
#include <xme/setup.hpp>

#define P "C41:"
using namespace mon;
#define SAYS(expr, want)                                                                                     \
    {                                                                                                        \
        judged();                                                                                            \
        seen(hash_str(#expr));                                                                               \
        const bool says = (expr);                                                                            \
        MON_CHECK(says == (want), P "classify", "%s is %s", #expr, says ? "true" : "false");                 \
    }
#define IS(a, b)                                                                                             \
    {                                                                                                        \
        judged();                                                                                            \
        seen(hash_str(#a));                                                                                  \
        const bool same = std::is_same_v<a, b>;                                                              \
        MON_CHECK(same, P "name", "%s isn't %s", #a, #b);                                                    \
    }
#define COMMA ,

enum Unscoped { u0 };
enum Unscoped_fixed : unsigned char { f0 };
enum class Scoped { s0 };
enum struct Scoped_struct { s1 };
enum class Scoped_bool : bool { s2 };
enum class Scoped_byte : unsigned char { s3 };
enum class Scoped_big : long long { s4 };
class Class {};
struct Convertible {
    operator int() const { return 1; }
};
union Union {
    int a;
    float b;
};
struct Derived_list : std::initializer_list<int> {};
// a tuple-like of its own
struct Point {
    int x, y;
};
template<std::size_t I>
int get(const Point& p) {
    return I ? p.y : p.x;
}
template<>
struct std::tuple_size<Point> : std::integral_constant<std::size_t, 2> {};
template<std::size_t I>
struct std::tuple_element<I, Point> {
    using type = int;
};
// one that has a size and no get
struct Sized_only {};
template<>
struct std::tuple_size<Sized_only> : std::integral_constant<std::size_t, 2> {};
template<std::size_t I>
struct std::tuple_element<I, Sized_only> {
    using type = int;
};
template<typename T>
struct Minimal {
    using value_type      = T;
    using size_type       = std::size_t;
    using difference_type = std::ptrdiff_t;
    T* allocate(std::size_t) { return nullptr; }
    void deallocate(T*, std::size_t) {}
};
struct No_deallocate {
    using value_type      = int;
    using size_type       = std::size_t;
    using difference_type = std::ptrdiff_t;
    int* allocate(std::size_t) { return nullptr; }
};
struct Wrong_pointer {
    using value_type      = int;
    using size_type       = std::size_t;
    using difference_type = std::ptrdiff_t;
    void* allocate(std::size_t) { return nullptr; }
    void deallocate(int*, std::size_t) {}
};

template<typename T, bool Floating, bool Integral, bool Signed>
void arithmetic(const char* name) {
    judged(5);
    seen(hash_str(name));
    MON_CHECK(xme::CFloatingPoint<T> == Floating, P "arithmetic", "CFloatingPoint of %s", name);
    MON_CHECK(xme::CIntegral<T> == Integral, P "arithmetic", "CIntegral of %s", name);
    MON_CHECK(xme::CSignedIntegral<T> == (Integral && Signed), P "arithmetic", "CSignedIntegral of %s", name);
    MON_CHECK(xme::CUnsignedIntegral<T> == (Integral && !Signed), P "arithmetic", "CUnsignedIntegral of %s", name);
    MON_CHECK(xme::CArithmetic<T> == (Floating || Integral), P "arithmetic", "CArithmetic of %s", name);
}
template<typename T>
void iterator(bool constant, const char* name) {
    judged();
    seen(hash_str(name));
    MON_CHECK(xme::CConstantIterator<T> == constant, P "iterator", "CConstantIterator of %s is %s", name, constant ? "false" : "true");
}
// every tuple size and category
template<typename T, bool Tuple, bool Pair>
void tuple_like(const char* name) {
    judged(4);
    seen(hash_str(name));
    MON_CHECK(xme::CTupleLike<T> == Tuple, P "tuple-like", "CTupleLike of %s is %s", name, Tuple ? "false" : "true");
    MON_CHECK(xme::CPairLike<T> == Pair, P "tuple-like", "CPairLike of %s is %s", name, Pair ? "false" : "true");
    if constexpr(!std::is_reference_v<T>) {
        MON_CHECK(xme::CTupleLike<T&> == Tuple && xme::CTupleLike<T&&> == Tuple && xme::CTupleLike<const T> == Tuple && xme::CTupleLike<const T&> == Tuple, P "tuple-like", "CTupleLike of a reference to, or a constant %s", name);
        MON_CHECK(xme::CPairLike<T&> == Pair && xme::CPairLike<T&&> == Pair && xme::CPairLike<const T> == Pair && xme::CPairLike<const T&> == Pair, P "tuple-like", "CPairLike of a reference to, or a constant %s", name);
    }
}
template<typename V, typename T, size_t N>
void vector_name(const char* name) {
    judged();
    seen(hash_str(name));
    MON_CHECK((std::is_same_v<V, xme::math::Vector<T, N>> && V::size == N), P "name", "%s is a different type", name);
}
template<typename M, typename T, size_t C, size_t R>
void matrix_name(const char* name) {
    judged();
    seen(hash_str(name));
    MON_CHECK((std::is_same_v<M, xme::math::Matrix<T, C, R>> && M::columns == C && M::rows == R), P "name", "%s is a different type", name);
}
int main(int argc, char** argv) {
    init(argc, argv);
    cases("arithmetic", 1, [](Rng&, long) {
#define A(T, f, i, s) arithmetic<T, f, i, s>(#T);
        A(float, true, false, true)
        A(double, true, false, true)
        A(long double, true, false, true)
        A(const double, true, false, true)
        A(bool, false, true, false)
        A(char, false, true, std::is_signed_v<char>)
        A(signed char, false, true, true)
        A(unsigned char, false, true, false)
        A(wchar_t, false, true, std::is_signed_v<wchar_t>)
        A(char8_t, false, true, false)
        A(char16_t, false, true, false)
        A(char32_t, false, true, false)
        A(short, false, true, true)
        A(unsigned short, false, true, false)
        A(int, false, true, true)
        A(unsigned, false, true, false)
        A(long, false, true, true)
        A(unsigned long, false, true, false)
        A(long long, false, true, true)
        A(unsigned long long, false, true, false)
        A(const int, false, true, true)
        A(volatile unsigned, false, true, false)
        A(int*, false, false, false)
        A(void, false, false, false)
        A(int&, false, false, false)
        A(float&, false, false, false)
        A(std::nullptr_t, false, false, false)
        A(Unscoped, false, false, false)
        A(Scoped, false, false, false)
        A(Class, false, false, false)
        A(Convertible, false, false, false)
        A(int[3], false, false, false)
        A(std::byte, false, false, false)
#undef A
    });
    cases("enumerations", 1, [](Rng&, long) {
        SAYS(xme::is_scoped_enum<Scoped>, true)
        SAYS(xme::is_scoped_enum<Scoped_struct>, true)
        SAYS(xme::is_scoped_enum<Scoped_bool>, true)
        SAYS(xme::is_scoped_enum<Scoped_byte>, true)
        SAYS(xme::is_scoped_enum<Scoped_big>, true)
        SAYS(xme::is_scoped_enum<const Scoped>, true)
        SAYS(xme::is_scoped_enum<std::byte>, true)
        SAYS(xme::is_scoped_enum<Unscoped>, false)
        SAYS(xme::is_scoped_enum<Unscoped_fixed>, false)
        SAYS(xme::is_scoped_enum<const Unscoped>, false)
        SAYS(xme::is_scoped_enum<int>, false)
        SAYS(xme::is_scoped_enum<bool>, false)
        SAYS(xme::is_scoped_enum<double>, false)
        SAYS(xme::is_scoped_enum<void>, false)
        SAYS(xme::is_scoped_enum<Class>, false)
        SAYS(xme::is_scoped_enum<Convertible>, false)
        SAYS(xme::is_scoped_enum<Union>, false)
        SAYS(xme::is_scoped_enum<Scoped*>, false)
        SAYS(xme::is_scoped_enum<Scoped&>, false)
        SAYS(xme::is_scoped_enum<Scoped()>, false)
    });
    cases("initializer lists", 1, [](Rng&, long) {
        SAYS(xme::is_initializer_list<std::initializer_list<int>>, true)
        SAYS(xme::is_initializer_list<std::initializer_list<std::string>>, true)
        SAYS(xme::is_initializer_list<std::initializer_list<std::initializer_list<int>>>, true)
        SAYS(xme::is_initializer_list<std::vector<int>>, false)
        SAYS((xme::is_initializer_list<std::array<int COMMA 3>>), false)
        SAYS(xme::is_initializer_list<Derived_list>, false)
        SAYS(xme::is_initializer_list<int>, false)
        SAYS(xme::is_initializer_list<int[3]>, false)
    });
    cases("different types", 1, [](Rng&, long) {
        SAYS((xme::CDifferentFrom<int COMMA long>), true)
        SAYS((xme::CDifferentFrom<int COMMA int>), false)
        SAYS((xme::CDifferentFrom<int COMMA const int>), true)
        SAYS((xme::CDifferentFrom<int COMMA int&>), true)
        SAYS((xme::CDifferentFromSelf<int COMMA int>), false)
        SAYS((xme::CDifferentFromSelf<int& COMMA int>), false)
        SAYS((xme::CDifferentFromSelf<const int& COMMA int>), false)
        SAYS((xme::CDifferentFromSelf<volatile int&& COMMA int>), false)
        SAYS((xme::CDifferentFromSelf<int* COMMA int>), true)
        SAYS((xme::CDifferentFromSelf<long& COMMA int>), true)
        SAYS((xme::CDifferentFromSelf<Derived_list& COMMA std::initializer_list<int>>), true)
    });
    cases("iterators", 1, [](Rng&, long) {
        using S  = std::string;
        using VB = std::vector<bool>;
#define I(T, c) iterator<T>(c, #T);
        I(const int*, true)
        I(int*, false)
        I(int* const, false)
        I(const S*, true)
        I(S*, false)
        I(std::vector<int>::iterator, false)
        I(std::vector<int>::const_iterator, true)
        I(std::list<S>::iterator, false)
        I(std::list<S>::const_iterator, true)
        I(std::forward_list<S>::iterator, false)
        I(std::forward_list<S>::const_iterator, true)
        I(std::deque<int>::iterator, false)
        I(std::deque<int>::const_iterator, true)
        I(std::set<int>::iterator, true)
        I(VB::iterator, false)
        I(VB::const_iterator, true)
        I(std::istream_iterator<int>, true)
        I(std::istreambuf_iterator<char>, true)
        I(std::move_iterator<int*>, false)
        I(std::reverse_iterator<const int*>, true)
        I(std::reverse_iterator<int*>, false)
        I(std::ranges::iterator_t<std::ranges::iota_view<int COMMA int>>, true)
        I(int, false)
        I(void*, false)
        I(std::back_insert_iterator<std::vector<int>>, false)
        I(xme::Array<int>::iterator, false)
        I(xme::Array<int>::const_iterator, true)
#undef I
        IS(xme::iter_const_reference_t<int*>, const int&)
        IS(xme::iter_const_reference_t<const int*>, const int&)
        IS(xme::iter_const_reference_t<std::list<S>::iterator>, const S&)
        IS(xme::iter_const_reference_t<std::move_iterator<S*>>, const S&&)
        IS(xme::iter_const_reference_t<VB::iterator>, bool)
        IS(xme::iter_const_reference_t<std::ranges::iterator_t<std::ranges::iota_view<int COMMA int>>>, int)
    });
    cases("allocators", 1, [](Rng&, long) {
        SAYS(xme::CAllocator<std::allocator<int>>, true)
        SAYS(xme::CAllocator<std::allocator<std::string>>, true)
        SAYS(xme::CAllocator<std::pmr::polymorphic_allocator<int>>, false)  // no size_type or difference_type of its own
        SAYS(xme::CAllocator<Minimal<char>>, true)
        SAYS(xme::CAllocator<No_deallocate>, false)
        SAYS(xme::CAllocator<Wrong_pointer>, false)
        SAYS(xme::CAllocator<int>, false)
        SAYS(xme::CAllocator<std::vector<int>>, false)
    });
    cases("tuple-likes", 1, [](Rng&, long) {
#define T(t, tu, pa) tuple_like<t, tu, pa>(#t);
        T(xme::Pair<int COMMA long>, true, true)
        T(xme::Pair<std::string COMMA std::unique_ptr<int>>, true, true)
        T(xme::Tuple<>, true, false)
        T(xme::Tuple<int>, true, false)
        T(xme::Tuple<int COMMA char>, true, true)
        T(xme::Tuple<int COMMA char COMMA std::string>, true, false)
        T(xme::Tuple<int& COMMA const char&>, true, true)
        T(std::tuple<>, true, false)
        T(std::tuple<int>, true, false)
        T(std::tuple<int COMMA char>, true, true)
        T(std::tuple<int COMMA char COMMA long>, true, false)
        T(std::pair<int COMMA char>, true, true)
        T(std::array<int COMMA 2>, true, true)
        T(std::array<int COMMA 3>, true, false)
        T(Point, true, true)
        T(Sized_only, false, false)
        T(int, false, false)
        T(std::vector<int>, false, false)
        T(std::string, false, false)
        T(int[2], false, false)
        T(Class, false, false)
        T(int*, false, false)
#undef T
    });
    cases("names", 1, [](Rng&, long) {
        using namespace xme::math;
#define V(name, T)                    \
    vector_name<name##2, T, 2>(#name "2"); \
    vector_name<name##3, T, 3>(#name "3"); \
    vector_name<name##4, T, 4>(#name "4");
        V(bvec, bool)
        V(ivec, std::int32_t)
        V(uvec, std::uint32_t)
        V(vec, float)
        V(dvec, double)
#undef V
#define M(name, T)                          \
    matrix_name<name##2, T, 2, 2>(#name "2");    \
    matrix_name<name##3, T, 3, 3>(#name "3");    \
    matrix_name<name##4, T, 4, 4>(#name "4");    \
    matrix_name<name##2x2, T, 2, 2>(#name "2x2"); \
    matrix_name<name##2x3, T, 2, 3>(#name "2x3"); \
    matrix_name<name##2x4, T, 2, 4>(#name "2x4"); \
    matrix_name<name##3x2, T, 3, 2>(#name "3x2"); \
    matrix_name<name##3x3, T, 3, 3>(#name "3x3"); \
    matrix_name<name##3x4, T, 3, 4>(#name "3x4"); \
    matrix_name<name##4x2, T, 4, 2>(#name "4x2"); \
    matrix_name<name##4x3, T, 4, 3>(#name "4x3"); \
    matrix_name<name##4x4, T, 4, 4>(#name "4x4");
        M(mat, float)
        M(dmat, double)
#undef M
    });
    cases("platform", 1, [](Rng&, long) {
        judged(3);
        seen(1);
#if defined(__x86_64__) || defined(__i386__)
        MON_CHECK(XME_ARCH_X86 && !XME_ARCH_ARM, P "platform", "a x86 processor isn't recognised");
#elif defined(__arm__)
        MON_CHECK(!XME_ARCH_X86 && XME_ARCH_ARM, P "platform", "an ARM processor isn't recognised");
#endif
#if defined(__linux__)
        MON_CHECK(XME_PLATFORM_LINUX && !XME_PLATFORM_WINDOWS && !XME_PLATFORM_APPLE, P "platform", "Linux isn't recognised");
#endif
#if defined(__clang__)
#if defined(XME_COMPILER_CLANG) && !defined(XME_COMPILER_GCC)
        const bool compiler = true;
#else
        const bool compiler = false;
#endif
#else
#if defined(XME_COMPILER_GCC) && !defined(XME_COMPILER_CLANG)
        const bool compiler = true;
#else
        const bool compiler = false;
#endif
#endif
        MON_CHECK(compiler, P "platform", "the compiler isn't recognised");
#if __cplusplus >= 202302L
#if defined(XME_CPP23) && !defined(XME_CPP20)
        const bool standard = true;
#else
        const bool standard = false;
#endif
#elif defined(XME_CPP20) && !defined(XME_CPP23)
        const bool standard = true;
#else
        const bool standard = false;
#endif
        MON_CHECK(standard, P "platform", "the language standard isn't recognised");
    });
    return finish();
}
