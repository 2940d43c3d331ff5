// What the library reports as enabled and supported SIMD in a program built with one
// configuration (-DENABLED and -DSUPPORTED: the levels there should be), and the set operations
// (C24).
#include "../harness/mon.hpp"
#include <xme/hal/simd_detection.hpp>

using namespace mon;
#define P "C24:"
using xme::hal::ESimd;

struct Level {
    const char* name;
    ESimd set;
    bool has, use;
    const char* cpu;
};
static const Level levels[] = {
    {"mmx", ESimd::mmx, XME_SIMD_HAS_MMX, XME_SIMD_USE_MMX, "mmx"},
    {"sse", ESimd::sse, XME_SIMD_HAS_SSE, XME_SIMD_USE_SSE, "sse"},
    {"sse2", ESimd::sse2, XME_SIMD_HAS_SSE2, XME_SIMD_USE_SSE2, "sse2"},
    {"sse3", ESimd::sse3, XME_SIMD_HAS_SSE3, XME_SIMD_USE_SSE3, "sse3"},
    {"ssse3", ESimd::ssse3, XME_SIMD_HAS_SSSE3, XME_SIMD_USE_SSSE3, "ssse3"},
    {"sse41", ESimd::sse41, XME_SIMD_HAS_SSE41, XME_SIMD_USE_SSE41, "sse4.1"},
    {"sse42", ESimd::sse42, XME_SIMD_HAS_SSE42, XME_SIMD_USE_SSE42, "sse4.2"},
    {"avx", ESimd::avx, XME_SIMD_HAS_AVX, XME_SIMD_USE_AVX, "avx"},
    {"avx2", ESimd::avx2, XME_SIMD_HAS_AVX2, XME_SIMD_USE_AVX2, "avx2"},
    {"avx512f", ESimd::avx512f, XME_SIMD_HAS_AVX512F, XME_SIMD_USE_AVX512F, "avx512f"},
};
constexpr int n_levels = 10;
static bool cpu_has(int k) {
    __builtin_cpu_init();
    switch(k) {
    case 0: return __builtin_cpu_supports("mmx");
    case 1: return __builtin_cpu_supports("sse");
    case 2: return __builtin_cpu_supports("sse2");
    case 3: return __builtin_cpu_supports("sse3");
    case 4: return __builtin_cpu_supports("ssse3");
    case 5: return __builtin_cpu_supports("sse4.1");
    case 6: return __builtin_cpu_supports("sse4.2");
    case 7: return __builtin_cpu_supports("avx");
    case 8: return __builtin_cpu_supports("avx2");
    default: return __builtin_cpu_supports("avx512f");
    }
}
static bool in(ESimd set, ESimd level) { return (set & level) == level; }
// The named enumerators in the set, as a number that doesn't depend on their values
static unsigned members(ESimd set) {
    unsigned m = 0;
    for(int k = 0; k < n_levels; ++k) m |= (unsigned)in(set, levels[k].set) << k;
    return m;
}
static ESimd of(unsigned m) {
    ESimd set{};
    for(int k = 0; k < n_levels; ++k)
        if(m >> k & 1) set = set | levels[k].set;
    return set;
}

int main(int argc, char** argv) {
    init(argc, argv);
    const unsigned want_enabled = ENABLED < 0 ? 0 : (2u << ENABLED) - 1, want_supported = SUPPORTED;
    cases("levels", 1, [&](Rng&, long) {
        const unsigned enabled = members(xme::hal::enabled_simd), supported = members(xme::hal::supported_simd);
        judged(2);
        MON_CHECK(enabled == want_enabled, P "enabled", "the enabled set is %#x instead of %#x", enabled, want_enabled);
        MON_CHECK(supported == want_supported, P "supported", "the supported set is %#x instead of %#x", supported, want_supported);
        MON_CHECK(xme::hal::enabled_simd == of(want_enabled), P "enabled", "the enabled set has something that isn't a level");
        MON_CHECK(xme::hal::supported_simd == of(want_supported), P "supported", "the supported set has something that isn't a level");
        MON_CHECK(XME_ENABLED_SIMD == (std::uint32_t)of(want_enabled) && XME_SUPPORTED_SIMD == (std::uint32_t)of(want_supported), P "macros", "the macros differ from the constants");
        for(int k = 0; k < n_levels; ++k) {
            judged(2);
            MON_CHECK(levels[k].use == (want_enabled >> k & 1), P "enabled", "XME_SIMD_USE for %s is %d", levels[k].name, levels[k].use);
            MON_CHECK(levels[k].has == (want_supported >> k & 1), P "supported", "XME_SIMD_HAS for %s is %d", levels[k].name, levels[k].has);
            MON_CHECK(!in(xme::hal::supported_simd, levels[k].set) || cpu_has(k), P "supported", "%s is reported as supported, and the processor that runs this doesn't have it", levels[k].name);
            MON_CHECK((std::uint32_t)levels[k].set != 0, P "levels", "%s is the empty set", levels[k].name);
            for(int j = 0; j < k; ++j)
                MON_CHECK((levels[j].set & levels[k].set) == ESimd{}, P "levels", "%s and %s overlap", levels[j].name, levels[k].name);
        }
        seen(hash2(enabled, supported));
    });
    cases("sets", ENABLED < 0 || st().cases < 100 ? st().cases : 100, [&](Rng& r, long k) {
        // every pair of sets, over the cases
        for(int i = 0; i < 256; ++i) {
            unsigned a = st().cases >= 4096 ? (unsigned)(k * 256 + i) >> 10 & 1023 : (unsigned)r.below(1024), b = st().cases >= 4096 ? (unsigned)(k * 256 + i) & 1023 : (unsigned)r.below(1024);
            ESimd x = of(a), y = of(b);
            judged(2);
            MON_CHECK((x | y) == of(a | b) && members(x | y) == (a | b), P "union", "%#x | %#x is %#x", a, b, members(x | y));
            MON_CHECK((x & y) == of(a & b) && members(x & y) == (a & b), P "intersection", "%#x & %#x is %#x", a, b, members(x & y));
            seen(hash2(a, b));
        }
    });
    static_assert((ESimd::sse | ESimd::avx) == (ESimd::avx | ESimd::sse) && (ESimd::sse & ESimd::avx) == ESimd{});
    return finish();
}
