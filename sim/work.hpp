// Interface between the thread simulator and the instrumented workload.
#pragma once
#include <cstdint>
enum WorkOp : int
{
    WArith, WCompare, WRounding, WConvert, WSqrt, WTrig, WInverse, WRoots, WLog, WExp, WPow, WAngle, WHypot, WCordic, WLut, WConstants, WHash,
    WPrint, WExtract, WCString, WIoParse, WLiteral, WFormat, WFormatWide, WFormatShared, WFormatTo, WEngine, WEngine64, WSeedSeq, WAdapter, WAdapterDefault, WDistInt, WDistFixed,
    WEngineText, WSharedEngine, WSharedDist, WSharedValues, WErrors, WSimd, WCpu, WLimits, WMap, WHead, WSharedFormatter, WFormatter, WDistAdapter, WMoreArith, WWide, WHostile, WEnd
};
inline const char* const work_names[] = {
    "arith", "compare", "rounding", "convert", "sqrt", "trig", "inverse", "roots", "log", "exp", "pow", "angle", "hypot", "cordic", "lut", "constants", "hash",
    "print", "extract", "cstring", "ioparse", "literal", "format", "formatwide", "formatshared", "formatto", "engine", "engine64", "seedseq", "adapter", "adapterdefault", "distint", "distfixed",
    "enginetext", "sharedengine", "shareddist", "sharedvalues", "errors", "simd", "cpu", "limits", "map", "head", "sharedformatter", "formatter", "distadapter", "morearith", "wide", "hostile"};
static_assert(sizeof work_names / sizeof *work_names == WEnd);
struct WorkRes
{
    uint64_t hash;     // of everything the operation returned
    uint64_t value;    // WCpu: the features reported, one bit per query made; mask in value2
    uint64_t value2;
    int64_t out[8];    // WSimd: the four results, by each instruction set
};
using work_new_fn = void* (*)();                 // a thread's own objects
using work_op_fn = void (*)(void* own, int op, uint64_t seed, WorkRes*);
// an argument for the SIMD angle reduction: ordinary, full range, extreme, or next to a multiple of two pi
template <class Next> inline long long simd_arg(Next&& next)
{
    const unsigned long long a = next(), b = next(), c = next();
    constexpr unsigned long long two_pi = 26986075409ull; // 2 pi * 2^32, truncated
    switch(c % 8)
    {
    case 0: return (long long)a;
    case 1:
    {
        static constexpr unsigned long long x[] = {0, 1, ~0ull, 1ull << 63, ~0ull >> 1, (1ull << 63) + 1, 1ull << 32, 0ull - (1ull << 32), ~0ull >> 32, 1ull << 62, two_pi, 0ull - two_pi};
        return (long long)x[b % 12];
    }
    case 2: return (long long)(two_pi * (a >> (30 + b % 30)) + (b >> 60) - 8) * (b >> 32 & 1 ? 1 : -1);
    case 3: return (long long)(a >> 33 << 32) * (b & 1 ? 1 : -1);
    default: return (long long)(a >> 8) * (b & 1 ? 1 : -1) >> (c / 8 % 24);
    }
}
