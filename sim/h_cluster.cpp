// C08: a cluster of replicas, each the real library built by another compiler or in another mode, applying one log.
// Real: every arithmetic, math, conversion, comparison and text operation of the library, inside each replica.
// Simulated: the sequencer, the network (loss, duplication, reordering, delay, partition), replica crash and restart from
// snapshots, each replica's floating-point environment, stack contents and local (unlogged) queries.
#include "common.hpp"
#include "node.hpp"
#include "ref.hpp"
#include <array>
#include <cfenv>
#include <cmath>
#include <deque>
#include <dlfcn.h>
#include <libgen.h>
#include <set>
#include <xmmintrin.h>

using namespace sim;

// ------------------------------------------------------------------------------------------------ other platforms' math library
// The standard promises no accuracy for sin, exp and the like, and platforms differ. A replica may run with a library that is
// a little off wherever the result is not a short exact number.
unsigned g_libm_skew;
template <class F> static F libm_skew(F v, double salt)
{
    if(!g_libm_skew || v == 0 || !(v - v == 0)) return v;
    int e;
    const F m = std::frexp(v, &e);
    const F top = std::ldexp(m, sizeof(F) == 4 ? 16 : 34);
    if(top == std::floor(top)) return v;
    u64 h;
    memcpy(&h, &salt, 8);
    h = (h ^ g_libm_skew) * 0x9E3779B97F4A7C15ull;
    const F d = std::ldexp(m, sizeof(F) == 4 ? e - 20 : e - 38);
    return (h >> 63) ? v + d : v - d;
}
#define LIBM1T(T, name) extern "C" __attribute__((visibility("default"))) T name(T x) noexcept { static auto f = reinterpret_cast<T (*)(T)>(dlsym(RTLD_NEXT, #name)); return libm_skew<T>(f(x), (double)x); }
#define LIBM2T(T, name) extern "C" __attribute__((visibility("default"))) T name(T x, T y) noexcept { static auto f = reinterpret_cast<T (*)(T, T)>(dlsym(RTLD_NEXT, #name)); return libm_skew<T>(f(x, y), (double)x + (double)y); }
#define LIBM1(name) LIBM1T(double, name) LIBM1T(float, name##f) LIBM1T(long double, name##l)
#define LIBM2(name) LIBM2T(double, name) LIBM2T(float, name##f) LIBM2T(long double, name##l)
LIBM1(sin) LIBM1(cos) LIBM1(tan) LIBM1(asin) LIBM1(acos) LIBM1(atan) LIBM1(sinh) LIBM1(cosh) LIBM1(tanh) LIBM1(exp) LIBM1(exp2) LIBM1(exp10) LIBM1(expm1)
LIBM1(log) LIBM1(log2) LIBM1(log10) LIBM1(log1p) LIBM1(cbrt) LIBM2(atan2) LIBM2(pow) LIBM2(hypot)
extern "C" __attribute__((visibility("default"))) void sincos(double x, double* s, double* c) noexcept { *s = sin(x); *c = cos(x); }
extern "C" __attribute__((visibility("default"))) void sincosf(float x, float* s, float* c) noexcept { *s = sinf(x); *c = cosf(x); }

namespace
{
constexpr int REGS = 4;
constexpr int CTYPES = 12; // registers are signed 64-bit: the unsigned 64-bit type is left out
struct State
{
    std::array<std::array<i64, REGS>, CTYPES> r{};
    bool operator==(const State&) const = default;
};
i128 widen(const TypeInfo& t, i64 raw) { return t.is_signed ? (i128)raw : (i128)(u64)(uint32_t)raw; }
bool fits(const TypeInfo& t, i128 v) { return v >= t.min() && v <= t.max(); }
i128 fdiv(i128 a, i128 b) // floor
{
    i128 q = a / b;
    return (a % b != 0 && ((a < 0) != (b < 0))) ? q - 1 : q;
}
i128 rdiv(i128 a, i128 b) // nearest, halves away from zero
{
    bool neg = (a < 0) != (b < 0);
    u128 x = a < 0 ? (u128)0 - (u128)a : (u128)a, y = b < 0 ? (u128)0 - (u128)b : (u128)b;
    u128 q = x / y, m = x % y;
    if(m >= y - m) ++q;
    return neg ? -(i128)q : (i128)q;
}
i64 dbits(double d) { i64 r; memcpy(&r, &d, 8); return r; }
i64 fbits(float d) { int32_t r; memcpy(&r, &d, 4); return r; }
double bitsd(i64 v) { double d; memcpy(&d, &v, 8); return d; }

enum Kind { Skip, Exact, Agree, Reject };
struct Expect
{
    Kind kind = Skip;
    std::vector<i64> v;
    std::string text;
};

i128 mul(const TypeInfo& t, i128 a, i128 b) // what the type's multiplication stores, without narrowing
{
    if(t.rounding)
    {
        // two steps as specified by the type: halves of a unit in the last place, then away from zero
        i128 h = (a * b) / ((i128)1 << (t.f - 1));
        return h / 2 + h % 2;
    }
    return fdiv(a * b, (i128)1 << t.f);
}
i128 div(const TypeInfo& t, i128 a, i128 b)
{
    i128 n = a * ((i128)1 << t.f);
    if(t.rounding)
    {
        i128 h = n * 2 / b;
        return h / 2 + h % 2;
    }
    return n / b;
}

// what must come out of a command, given the operands: exact arithmetic on the stored integers
Expect model(const NodeCmd& c)
{
    Expect e;
    const TypeInfo& t = TYPES[c.type];
    const i128 a = widen(t, c.a), b = widen(t, c.b), n = c.n, one = (i128)1 << t.f;
    const bool c31 = !strcmp(t.name, "c31");
    auto exact = [&](std::initializer_list<i128> vs) {
        e.kind = Exact;
        for(i128 v : vs) e.v.push_back((i64)v);
    };
    auto value = [&](i128 v) { if(fits(t, v)) exact({v}); };
    auto assign = [&](i128 v) { if(fits(t, v)) exact({1, v}); };
    auto agree = [&](bool ok) { if(ok) e.kind = Agree; };
    const bool f_int = fits(t, n * one) && (t.is_signed || n >= 0); // n is representable
    const bool i_ok = t.is_signed || n >= 0;
    const i128 d = (c.arg & 15) == 15 ? (i128)(u64)c.n : n; // a divisor may be any 64-bit unsigned integer
    const bool d_ok = t.is_signed || d >= 0;
    auto mag = [](i128 x) { return x < 0 ? -x : x; };
    i128 product;
    const bool product_ok = !__builtin_mul_overflow(a, b, &product);
    auto within = [&](double lim) { return (double)mag(a) <= lim * (double)one; };
    switch(c.op)
    {
    case OpSet: value(a); break;
    case OpAdd: value(a + b); break;
    case OpAddEq: assign(a + b); break;
    case OpSub: value(a - b); break;
    case OpSubEq: assign(a - b); break;
    case OpMul: if(product_ok) value(mul(t, a, b)); break;
    case OpMulEq: if(product_ok) assign(mul(t, a, b)); break;
    case OpDiv: case OpDivEq: case OpDivide: case OpDivideBy:
        if(b == 0)
        {
            if(c.op == OpDivide) e.kind = Reject;
            if(c.op == OpDivideBy) { e.kind = Reject; e.v = {1}; }
            break;
        }
        if(t.rounding && mag(a) >= ((i128)1 << (t.bits * 2 - t.f - 2))) break; // rounding needs one more bit of the wide type
        if(c.op == OpDiv || c.op == OpDivide) value(div(t, a, b));
        else assign(div(t, a, b));
        break;
    case OpMod: if(b != 0) value(a % b); break;
    case OpModEq: if(b != 0) assign(a % b); break;
    case OpNeg: value(-a); break;
    case OpPreInc: if(!c31 && fits(t, one) && fits(t, a + one)) exact({a + one, a + one}); break;
    case OpPostInc: if(!c31 && fits(t, one) && fits(t, a + one)) exact({a, a + one}); break;
    case OpPreDec: if(!c31 && fits(t, one) && fits(t, a - one)) exact({a - one, a - one}); break;
    case OpPostDec: if(!c31 && fits(t, one) && fits(t, a - one)) exact({a, a - one}); break;
    case OpAddInt: case OpIntAdd: case OpAddEqInt: if(f_int) value(a + n * one); break;
    case OpSubInt: case OpSubEqInt: if(f_int) value(a - n * one); break;
    case OpIntSub: if(f_int) value(n * one - a); break;
    case OpMulInt: case OpIntMul: case OpMulEqInt: if(i_ok) value(a * n); break;
    case OpDivInt: case OpDivEqInt: if(d_ok && n != 0) value(a / d); break;
    case OpDivideInt: case OpDivideByInt:
        if(n == 0)
        {
            e.kind = Reject;
            if(c.op == OpDivideByInt) e.v = {1};
        }
        else if(d_ok) value(a / d);
        break;
    case OpIntDiv: if(f_int && a != 0 && !(t.rounding && mag(n) >= ((i128)1 << (t.bits * 2 - 2 * t.f - 2)))) value(div(t, n * one, a)); break;
    case OpIntMod: if(f_int && a != 0) value(n * one % a); break;
    case OpCompare: exact({(a == b) | (a != b) << 1 | (a < b) << 2 | (a > b) << 3 | (a <= b) << 4 | (a >= b) << 5 | (a < b) << 6 | (a > b) << 7 | (a == b) << 8}); break;
    case OpNearly:
    {
        if(!t.is_signed) break;
        // 0x5000000000000 / 2^64, at the precision of the type
        const i128 k = (i128)1 << (64 - t.f), E = 0x5000000000000ll;
        const i128 eps = t.rounding ? E / k + (E / (k / 2)) % 2 : E / k;
        const i128 d = a - b;
        exact({(mag(d) <= eps) | (mag(d) > eps) << 1 | (d > eps) << 2 | (d < -eps) << 3 | (d >= -eps) << 4 | (d <= eps) << 5});
        break;
    }
    case OpCeil:
    {
        if(c31) break;
        i128 v = -fdiv(-a, one) * one;
        if(fits(t, v)) value(v);
        else e.kind = Agree;
        break;
    }
    case OpFloor: if(!c31) value(fdiv(a, one) * one); break;
    case OpTrunc: if(!c31) value(a / one * one); break;
    case OpRound: if(!c31) value(rdiv(a, one) * one); break;
    case OpAbs: value(mag(a)); break;
    case OpMin: value(a < b ? a : b); break;
    case OpMax: value(a > b ? a : b); break;
    case OpConvert:
    {
        const TypeInfo& u = TYPES[c.type2];
        i128 v;
        if(u.f >= t.f) v = a * ((i128)1 << (u.f - t.f));
        else v = u.rounding ? rdiv(a, (i128)1 << (t.f - u.f)) : a / ((i128)1 << (t.f - u.f));
        if(t.f - u.f >= t.bits - 1 && u.f < t.f) break; // the scale itself does not fit the source type
        if(fits(u, v)) exact({v});
        break;
    }
    case OpToInt:
    {
        i128 q = fdiv(a, one);
        exact({q, (i128)(int)q, (i128)(short)q, q, (i128)(unsigned)q, (i128)(unsigned char)q});
        break;
    }
    case OpFromInt: if(f_int) value(n * one); break;
    case OpToFloat:
    {
        const double d = (double)(i64)a;
        const float f = (float)(i64)a;
        exact({dbits(d / (double)(i64)one), fbits(f / (float)(i64)one), a / one, a / 2});
        break;
    }
    case OpFromFloat:
    {
        // scaling by a power of two is exact, and so is the part behind the point of the result
        const double d = bitsd(c.n);
        if(!(std::fabs(d) < 1e18)) break;
        const double scaled = d * std::ldexp(1.0, (int)t.f);
        if(!(std::fabs(scaled) < 9.2e18)) break;
        if((c.arg & 3) == 1 && (double)(float)d != d) break;
        const double whole = std::trunc(scaled), rest = scaled - whole;
        const i128 v = (i128)whole + (t.rounding ? (rest >= 0.5) - (rest <= -0.5) : 0);
        if(!t.is_signed && d < 0) break;
        value(v);
        break;
    }
    case OpHash: e.kind = Agree; break;
    case OpParts:
        if(c31 && a == t.min()) break;
        exact({a < 0, mag(a) / one});
        if(!c31) e.v.push_back((i64)(a % one));
        break;
    case OpConst: e.kind = Agree; break;
    case OpFmod:
    {
        if(c31 || b == 0 || t.rounding) break;
        i128 q = div(t, a, b);
        if(!fits(t, q)) break;
        i128 fl = fdiv(q, one) * one;
        if(!fits(t, fl)) break;
        i128 m = mul(t, b, fl);
        if(!fits(t, m)) break;
        value(a - m);
        break;
    }
    case OpModf:
    {
        if(c31) break;
        i128 fl = fdiv(a, one) * one;
        if(fits(t, fl) && fits(t, a - fl)) exact({a - fl, fl});
        break;
    }
    case OpPrint: e.kind = Exact; e.text = ref_print(t, a, 10, false); break;
    case OpParse: exact({1, a}); break;
    case OpFormat:
    {
        if(c.type != 0 && c.type != 1 && c.type != 8) break;
        e.kind = Exact;
        u128 m = (u128)mag(a), fr = m & (u128)(one - 1);
        e.text = std::string(a < 0 ? "-" : "+") + i128s((i128)(m >> t.f)) + ".";
        for(int i = 0; i < 9; ++i) { fr *= 10; e.text += (char)('0' + (int)(fr >> t.f)); fr &= (u128)(one - 1); }
        break;
    }
    case OpLimits: exact({t.min(), t.max(), t.min(), t.max(), t.min()}); break;
    case OpSimd:
    {
        if(c.type != 1) break;
        auto sm = [](i64 x, i64 y) {
            u128 p = (u128)(x < 0 ? 0 - (u64)x : (u64)x) * (u128)(y < 0 ? 0 - (u64)y : (u64)y);
            i64 q = (i64)(u64)(p >> 32);
            return (x < 0) != (y < 0) ? -q : q;
        };
        const i64 pi = (i64)(0x6487ED5110B4611All >> 29);
        const i64 two_pi = (i64)(((i128)pi * ((i128)2 << 32)) >> 32), inv = (i64)((((i128)1 << 64)) / two_pi);
        for(i64 x : {c.a, c.b, c.n, c.m}) if(x > ((i64)1 << 60) || x < -((i64)1 << 60)) return e;
        e.kind = Exact;
        for(i64 x : {c.a, c.b, c.n, c.m, c.b, c.a})
        {
            i64 q = sm(x, inv);
            q = (q < 0 ? -1 : 1) * ((q < 0 ? -q : q) >> 32 << 32);
            e.v.push_back(x - sm(q, two_pi));
        }
        break;
    }
    default: break;
    }
    // functions whose value is an approximation: every replica must give the same bits
    const bool math = c.type == 0 || c.type == 1 || c.type == 2 || c.type == 8 || c.type == 9;
    if(c.op >= OpSqrt && c.op <= OpCordic && math)
        switch(c.op)
        {
        case OpSqrt: agree(t.bits == 32 || (double)a <= 1.9e9 * (double)one); break;
        case OpSin: case OpCos: case OpTan: agree(a != t.min()); break;
        case OpCordic: agree((c.type == 0 || c.type == 1) && mag(a) <= t.max() / 2); break;
        case OpAtan: agree(within(t.bits == 64 ? 80000 : c.type == 2 ? 4 : 9)); break;
        case OpAsin: case OpAcos:
            if(mag(a) > one) e.kind = Reject;
            else agree(c.type != 2 || within(0.25) || mag(a) == one);
            break;
        case OpCbrt: agree(a >= 0 && within(t.bits == 64 ? 140000 : c.type == 2 ? 35 : 90)); break;
        case OpLog2: case OpLog: case OpLog10:
            if(a <= 0) e.kind = Reject;
            else agree(true);
            break;
        case OpExp: agree(within(t.bits == 64 ? 20 : c.type == 2 ? 6 : 9)); break;
        case OpPowInt: agree((n >= 0 && n <= 20) || (n >= -3 && n < 0 && within(8) && mag(a) >= one / 8)); break;
        case OpPow:
            if(a < 0 && a != t.min() && (double)mag(a) <= 8.0 * (double)one && mag(b) <= 3 * one && (b >= 0 || mag(a) >= one / 8)) e.kind = Reject;
            else agree(a == 0 ? mag(b) <= 3 * one : a >= one / 8 && within(8) && mag(b) <= 3 * one);
            break;
        case OpDegrees: agree(within(t.bits == 64 ? 1e6 : c.type == 2 ? 20 : 300)); break;
        case OpRadians: agree(within(t.bits == 64 ? 1e6 : 500)); break;
        case OpHypot: case OpHypot3: agree(within(c.type == 2 ? 20 : 90) && (double)mag(b) <= (c.type == 2 ? 20.0 : 90.0) * (double)one); break;
        }
    return e;
}

// which registers the result goes to: the last value for assignments and increments, all for multi-value ones
int result_slot(int op)
{
    switch(op)
    {
    case OpAddEq: case OpSubEq: case OpMulEq: case OpDivEq: case OpModEq: case OpPreInc: case OpPostInc: case OpPreDec: case OpPostDec: case OpDivideBy: case OpParse: return 1;
    case OpCompare: case OpNearly: case OpToInt: case OpToFloat: case OpHash: case OpParts: case OpPrint: case OpFormat: case OpLimits: return -1;
    default: return 0;
    }
}

using ApplyFn = void (*)(const NodeCmd*, NodeRes*);
struct Lib
{
    std::string path;
    void* h = nullptr;
    ApplyFn fn = nullptr;
    void load()
    {
        h = dlopen(path.c_str(), RTLD_NOW | RTLD_LOCAL);
        if(!h) { fprintf(stderr, "dlopen: %s\n", dlerror()); exit(3); }
        fn = (ApplyFn)dlsym(h, "node_apply");
        if(!fn) { fprintf(stderr, "dlsym: %s\n", dlerror()); exit(3); }
    }
    void unload()
    {
        if(h) dlclose(h);
        h = nullptr;
        fn = nullptr;
    }
};
std::vector<Lib> g_libs;
void find_libs()
{
    if(!g_libs.empty()) return;
    char buf[4096];
    ssize_t n = readlink("/proc/self/exe", buf, sizeof buf - 1);
    if(n <= 0) exit(3);
    buf[n] = 0;
    std::string dir = dirname(buf);
    const bool avx2 = __builtin_cpu_supports("avx2") && __builtin_cpu_supports("fma"), avx512 = avx2 && __builtin_cpu_supports("avx512f") && __builtin_cpu_supports("avx512dq") && __builtin_cpu_supports("avx512vl");
    for(const char* f : {"node-gcc-O0.so", "node-gcc-O2.so", "node-clang-O2.so", "node-gcc-uchar.so", "node-clang-O0.so", "node-gcc-avx2.so", "node-clang-avx2.so", "node-gcc-avx512.so"})
    {
        std::string p = dir + "/" + f;
        if(access(p.c_str(), R_OK)) continue;
        if(strstr(f, "avx512") ? !avx512 : strstr(f, "avx2") ? !avx2 : false) continue;
        g_libs.push_back({p});
    }
    if(g_libs.size() < 3) { fprintf(stderr, "no replica libraries in %s\n", dir.c_str()); exit(3); }
}

struct Msg
{
    int index;
};
struct Node
{
    Lib* lib = nullptr;
    bool up = false;
    int applied = 0;
    State st;
    std::deque<Msg> in;
    unsigned env = 0;
    // durable
    int snap_index = 0;
    State snap;
    std::vector<std::string> snap_text; // text form of the snapshot, empty if raw
};

struct Cluster
{
    Ctx& ctx;
    std::vector<Node> nodes;
    std::vector<NodeCmd> log;
    std::vector<std::array<int, 4>> where; // op, d, a, b register numbers
    std::vector<State> hist;               // agreed state after each index
    std::map<std::string, std::string> memo;
    unsigned blocked = 0, dirt = 0, calls = 0;
    explicit Cluster(Ctx& c) : ctx(c) { hist.push_back(State{}); }

    NodeRes call(Node& n, const NodeCmd& c)
    {
        NodeRes r;
        memset(&r, 0, sizeof r);
        mark(node_op_names[c.op]);
        const bool fp = c.op == OpToFloat; // the only operation with an inexact floating-point result
        const unsigned csr = _mm_getcsr();
        if(n.env && !fp)
        {
            static const int modes[] = {FE_TONEAREST, FE_UPWARD, FE_DOWNWARD, FE_TOWARDZERO};
            fesetround(modes[n.env & 3]);
            if(n.env & 8) ctx.fault("other_libm");
            if(n.env & 8) g_libm_skew = 1 + (unsigned)(&n - nodes.data());
            if(n.env & 16) { unsigned short cw; __asm__ volatile("fnstcw %0" : "=m"(cw)); cw = (unsigned short)((cw & ~0x300) | 0x200); __asm__ volatile("fldcw %0" : : "m"(cw)); ctx.fault("x87_precision"); }
            if(n.env & 4) _mm_setcsr(_mm_getcsr() | 0x8040); // flush and treat denormals as zero
            ctx.fault("fp_environment");
        }
        dirty_stack((unsigned char)(dirt + 37 * ++calls));
        {
            GlobalLocale gl(n.env & 32); // only text could depend on it, and must not
            if(gl.on) ctx.fault("replica_locale");
            n.lib->fn(&c, &r);
        }
        if(n.env && !fp)
        {
            if(n.env & 16) { unsigned short cw; __asm__ volatile("fnstcw %0" : "=m"(cw)); cw |= 0x300; __asm__ volatile("fldcw %0" : : "m"(cw)); }
            g_libm_skew = 0;
            fesetround(FE_TONEAREST);
            _mm_setcsr(csr);
        }
        return r;
    }
    static std::string key(const NodeCmd& c) { return fmt("%d %d %d %d %lld %lld %lld %lld", c.op, c.type, c.type2, c.arg, (long long)c.a, (long long)c.b, (long long)c.n, (long long)c.m); }
    static std::string show(const NodeCmd& c)
    {
        return fmt("%s %s a=%lld b=%lld n=%lld m=%lld%s%s", node_op_names[c.op], TYPES[c.type].name, (long long)c.a, (long long)c.b, (long long)c.n, (long long)c.m, c.op == OpConvert ? " to " : "", c.op == OpConvert ? TYPES[c.type2].name : "");
    }
    static std::string show(const NodeRes& r)
    {
        std::string s = fmt("status %d", r.status);
        for(int i = 0; i < r.n; ++i) s += fmt(" %lld", (long long)r.v[i]);
        return s + (r.text[0] ? std::string(" \"") + r.text + "\"" : "");
    }
    // judge one evaluation: against exact arithmetic, and against every other evaluation of the same operands
    bool judge(Node& n, const NodeCmd& c, const Expect& e, const NodeRes& r)
    {
        const std::string who = fmt("replica %d (%s) ", (int)(&n - nodes.data()), strrchr(n.lib->path.c_str(), '/') + 1);
        if(r.status == 2) return true;
        if(e.kind == Exact)
        {
            bool same = r.status == 0 && e.v.size() == (size_t)r.n && e.text == r.text;
            for(int i = 0; same && i < r.n; ++i) same = e.v[(size_t)i] == r.v[i];
            if(!same)
            {
                std::string w = "expected";
                for(i64 v : e.v) w += fmt(" %lld", (long long)v);
                if(!e.text.empty()) w += " \"" + e.text + "\"";
                ctx.violate("wrong_result", who + show(c) + ": " + show(r) + ", " + w);
                return false;
            }
        }
        if(e.kind == Reject)
        {
            bool same = r.status == 1 && e.v.size() == (size_t)r.n;
            for(int i = 0; same && i < r.n; ++i) same = e.v[(size_t)i] == r.v[i];
            ctx.probe("rejected");
            if(!same) { ctx.violate("not_rejected", who + show(c) + ": " + show(r)); return false; }
        }
        auto [it, fresh] = memo.emplace(key(c), show(r));
        if(!fresh) ctx.probe("cross_checked");
        if(it->second != show(r)) { ctx.violate("replicas_diverged", who + show(c) + ": " + show(r) + ", earlier " + it->second); return false; }
        return true;
    }
    NodeCmd operands(int i, const State& s)
    {
        NodeCmd c = log[(size_t)i];
        auto& w = where[(size_t)i];
        if(c.op != OpSet) { c.a = s.r[(size_t)c.type][(size_t)w[2]]; c.b = s.r[(size_t)c.type][(size_t)w[3]]; }
        return c;
    }
    void apply(Node& n)
    {
        const int i = n.applied;
        NodeCmd c = operands(i, n.st);
        Expect e = model(c);
        State next = n.st;
        if(e.kind != Skip)
        {
            NodeRes r = call(n, c);
            if(!judge(n, c, e, r)) return;
            int slot = result_slot(c.op);
            if(r.status == 2)
            {
                // this build does not offer the command (no SIMD): the state comes from the reference
                if(slot >= 0 && e.kind == Exact && (size_t)slot < e.v.size()) next.r[(size_t)c.type][(size_t)where[(size_t)i][1]] = e.v[(size_t)slot];
            }
            else if(r.status == 0 && slot >= 0 && slot < r.n)
                next.r[(size_t)(c.op == OpConvert ? c.type2 : c.type)][(size_t)where[(size_t)i][1]] = r.v[slot];
            ctx.probe(e.kind == Exact ? "exact" : e.kind == Agree ? "agreement" : "reject");
        }
        if((int)hist.size() == i + 1) hist.push_back(next);
        else if(!(hist[(size_t)i + 1] == next)) { ctx.violate("replicas_diverged", fmt("state after command %d differs on replica %d", i, (int)(&n - nodes.data()))); return; }
        n.st = next;
        ++n.applied;
        ctx.ev("node %d applied %d %s", (int)(&n - nodes.data()), i, node_op_names[c.op]);
    }
    void receive(Node& n, Msg m)
    {
        if(!n.up) return;
        if(m.index < n.applied) { ctx.probe("duplicate_ignored"); return; }
        if(m.index > n.applied) { ctx.probe("gap"); return; }
        apply(n);
    }
    void restart(int id)
    {
        Node& n = nodes[(size_t)id];
        if(n.up) return;
        n.lib->load();
        n.up = true;
        n.applied = n.snap_index;
        n.st = n.snap;
        n.in.clear();
        ctx.fault("restart");
        ctx.ev("restart %d at %d", id, n.applied);
        if(!(n.st == hist[(size_t)n.applied])) ctx.violate("replicas_diverged", fmt("snapshot of replica %d does not match the log", id));
    }
};
} // namespace

static i128 any_raw(Rng& r, int ty)
{
    const TypeInfo& t = TYPES[ty];
    if(r.chance(1, 30))
    {
        const i128 edge[] = {t.min(), t.max(), -1, 1, t.min() + 1};
        const i128 v = edge[r.below(5)];
        if(fits(t, v)) return v;
    }
    if(r.chance(1, 6))
    { // values whose roots, logarithms or quotients are exact: the place where an approximation tips over
        const int p = 1 + (int)r.below(3), s = (int)r.below(4);
        const int k = (int)r.range(1, 12);
        i128 v = 1;
        for(int i = 0; i < p; ++i) v *= k;
        if(p * s <= (int)t.f) v = (v << t.f) >> (p * s);
        if(r.chance(1, 4)) v = -v;
        if(fits(t, v)) return v;
    }
    if(r.chance(1, 10))
    { // around multiples of pi, of ln 2 and of log2 10: where range reduction changes branch
        static const u64 c[] = {0x6487ED5110B4611Aull, 0x162E42FEFA39EF35ull, 0x6A4D3C25E68DC57Full}; // at 61 fraction bits
        i128 v = (i128)(c[r.below(3)] >> (t.f > 61 ? 0 : 61 - t.f)) << (t.f > 61 ? 1 : 0);
        v = (v >> r.below(3)) * (i128)r.range(-12, 12) + (i128)r.range(-2, 2);
        if(fits(t, v)) return v;
    }
    if(r.chance(1, 3))
    { // ordinary magnitudes
        i128 v = (i128)r.range(-1 << 12, 1 << 12) << t.f >> r.below(12);
        v += (i128)r.below(1u << std::min(t.f, 20u)) - (1 << (std::min(t.f, 20u) - 1));
        if(fits(t, v)) return v;
    }
    return gen_raw(r, t);
}
static i64 imm(Rng& r, int op, int ty)
{
    const TypeInfo& t = TYPES[ty];
    if(op == OpSet) return (i64)any_raw(r, ty);
    if(op == OpFromFloat)
    {
        double d = (double)r.range(-4000, 4000) / (double)(1 << r.below(12));
        if(r.chance(1, 2)) d += (double)r.range(-1 << 20, 1 << 20) / std::ldexp(1.0, (int)t.f + (int)r.below(4));
        if(r.chance(1, 3)) d = std::ldexp((double)r.range(-(1ll << 53), 1ll << 53), -(int)t.f - (int)r.below(4)); // every bit of the double counts
        if(r.chance(1, 4)) d = std::ldexp((double)r.range(-(1 << 24), 1 << 24), -(int)t.f - (int)r.below(3)); // and of the float
        if(r.chance(1, 16)) d = std::nextafter(std::ldexp((double)r.range(-9, 9) + 0.5, -(int)t.f), r.chance(1, 2) ? 1e9 : -1e9); // next to a tie
        if(r.chance(1, 4)) d = (double)r.range(-9, 9) + 0.5 / std::ldexp(1.0, (int)t.f) * (double)r.range(-3, 3);
        if(r.chance(1, 3)) d = (double)(float)d;
        return dbits(d);
    }
    if(op == OpSimd) return (i64)(r.next() >> (4 + r.below(40))) * (r.chance(1, 2) ? -1 : 1);
    if(op == OpConst) return (i64)r.below(20);
    if(op == OpPowInt) return r.range(-3, 20);
    if(r.chance(1, 8)) return (i64)r.next() >> r.below(62);
    if(r.chance(1, 8)) return 0;
    if(r.chance(1, 5))
    {
        // numbers that programs are full of, and that implementations have short cuts for
        static const int usual[] = {2, 4, 5, 8, 10, 12, 16, 24, 32, 60, 64, 90, 100, 128, 180, 256, 360, 1000, 1024, 3600, 4096, 10000, 32768, 65536, 1000000};
        return (i64)usual[r.below(25)] * (r.chance(1, 3) ? -1 : 1);
    }
    return r.range(-30, 30);
}

static int op_by_name(const std::string& s)
{
    for(int i = 0; i < OpEnd; ++i)
        if(s == node_op_names[i]) return i;
    return -1;
}

void sim::execute(const std::string&, const Lines& script, Ctx& ctx)
{
    find_libs();
    Cluster cl(ctx);
    int want = 3;
    unsigned pick = 0;
    for(auto& l : script)
    {
        auto k = split(l);
        if(k.size() > 1 && k[0] == "!nodes") { want = (int)num(k, 1); pick = (unsigned)num(k, 2); }
        if(k.size() > 1 && k[0] == "!dirt") cl.dirt = (unsigned)num(k, 1);
    }
    if(want < 2) want = 2;
    want = std::min<int>(want, (int)g_libs.size());
    for(int i = 0; i < want; ++i)
    {
        Node n;
        n.lib = &g_libs[(pick + (unsigned)i) % g_libs.size()];
        cl.nodes.push_back(n);
    }
    for(auto& n : cl.nodes) { n.lib->unload(); n.lib->load(); n.up = true; }
    auto node = [&](const std::vector<std::string>& k) -> Node& { return cl.nodes[(size_t)((u64)num(k, 1) % cl.nodes.size())]; };
    for(auto& l : script)
    {
        if(ctx.bad()) break;
        auto k = split(l);
        if(k.empty() || k[0][0] == '!') continue;
        ++ctx.ticks;
        if(k[0] == "c")
        {
            // c op type d a b n m arg type2
            int op = op_by_name(tok(k, 1));
            if(op < 0) continue;
            NodeCmd c{};
            c.op = op;
            c.type = (int)((u64)num(k, 2) % CTYPES);
            c.n = snum(k, 6);
            c.m = snum(k, 7);
            c.arg = (int)num(k, 8);
            c.type2 = (int)((u64)num(k, 9) % CTYPES);
            if(op == OpSet)
            {
                const TypeInfo& t = TYPES[c.type];
                u64 m = t.bits == 64 ? ~0ull : (1ull << t.bits) - 1;
                i64 v = (i64)((u64)c.n & m);
                if(t.is_signed && t.bits < 64 && ((u64)v >> (t.bits - 1))) v -= (i64)(1ull << t.bits);
                c.a = v;
            }
            cl.log.push_back(c);
            cl.where.push_back({op, (int)((u64)num(k, 3) % REGS), (int)((u64)num(k, 4) % REGS), (int)((u64)num(k, 5) % REGS)});
            for(auto& n : cl.nodes) n.in.push_back({(int)cl.log.size() - 1});
        }
        else if(k[0] == "n")
        {
            Node& n = node(k);
            if(n.in.empty()) continue;
            if(cl.blocked >> ((u64)num(k, 1) % cl.nodes.size()) & 1) { ctx.fault("blocked_by_partition"); continue; }
            size_t i = (size_t)num(k, 2) % n.in.size();
            Msg m = n.in[i];
            if(i) ctx.fault("reordered");
            n.in.erase(n.in.begin() + (long)i);
            cl.receive(n, m);
        }
        else if(k[0] == "l")
        {
            Node& n = node(k);
            if(n.in.empty()) continue;
            n.in.erase(n.in.begin() + (long)((size_t)num(k, 2) % n.in.size()));
            ctx.fault("lost");
        }
        else if(k[0] == "u")
        {
            Node& n = node(k);
            if(n.in.empty()) continue;
            n.in.push_back(n.in[(size_t)num(k, 2) % n.in.size()]);
            ctx.fault("duplicated");
        }
        else if(k[0] == "t") // the replica asks for what it misses
        {
            Node& n = node(k);
            if(n.up && n.applied < (int)cl.log.size()) { n.in.push_front({n.applied}); ctx.probe("resend"); }
        }
        else if(k[0] == "s")
        {
            Node& n = node(k);
            if(!n.up) continue;
            n.snap_index = n.applied;
            n.snap = n.st;
            if(num(k, 2) & 1)
            {
                // the snapshot goes through the library's own text form
                for(int t = 0; t < CTYPES && !ctx.bad(); ++t)
                    for(int q = 0; q < REGS && !ctx.bad(); ++q)
                    {
                        if(!n.st.r[(size_t)t][(size_t)q]) continue;
                        NodeCmd c{};
                        c.op = OpParse;
                        c.type = t;
                        c.a = n.st.r[(size_t)t][(size_t)q];
                        c.b = 77;
                        c.arg = (int)num(k, 2) >> 1;
                        NodeRes r = cl.call(n, c);
                        if(cl.judge(n, c, model(c), r)) n.snap.r[(size_t)t][(size_t)q] = r.v[1];
                    }
                ctx.probe("text_snapshot");
            }
            ctx.probe("snapshot");
        }
        else if(k[0] == "x")
        {
            Node& n = node(k);
            if(!n.up) continue;
            n.up = false;
            n.in.clear();
            n.lib->unload(); // every static of the library dies with the process
            ctx.fault("crash");
            ctx.ev("crash");
        }
        else if(k[0] == "r") cl.restart((int)((u64)num(k, 1) % cl.nodes.size()));
        else if(k[0] == "p") { cl.blocked = (unsigned)num(k, 1); ctx.fault("partition"); }
        else if(k[0] == "h") { cl.blocked = 0; ctx.fault("heal"); }
        else if(k[0] == "e") { node(k).env = (unsigned)num(k, 2) & 63; }
        else if(k[0] == "b")
        {
            // an audit: two replicas evaluate the same series of operands. b node node op type seed count
            Node &x = node(k), &y = cl.nodes[(size_t)((u64)num(k, 2) % cl.nodes.size())];
            int op = op_by_name(tok(k, 3));
            if(!x.up || !y.up || &x == &y || op <= OpSet) continue;
            Rng g((u64)num(k, 5));
            const u64 n = std::min<u64>((u64)num(k, 6), 64);
            u64 h = 0;
            std::vector<NodeCmd> todo;
            for(u64 i = 0; i < n; ++i)
            {
                NodeCmd c{};
                c.op = op;
                c.type = (int)((u64)num(k, 4) % CTYPES);
                c.a = (i64)any_raw(g, c.type);
                c.b = (i64)any_raw(g, c.type);
                c.n = imm(g, op, c.type);
                c.m = imm(g, op, c.type);
                c.arg = (int)g.below(16);
                c.type2 = (int)g.below(CTYPES);
                if(model(c).kind != Skip) todo.push_back(c);
            }
            auto eval = [&](Node& q, const NodeCmd& c) {
                Expect e = model(c);
                if(e.kind == Skip || ctx.bad()) return;
                NodeRes r = cl.call(q, c);
                if(cl.judge(q, c, e, r)) h = h * 31 + (u64)r.v[0];
                ctx.probe("audited");
            };
            // the first goes forward, with detours to neighbouring operands and repetitions; the second goes backward
            for(auto& c : todo)
            {
                eval(x, c);
                if(g.chance(1, 3))
                {
                    const TypeInfo& t = TYPES[c.type];
                    NodeCmd d = c;
                    i128 v = widen(t, c.a);
                    switch(g.below(4))
                    {
                    case 0: v += (i128)g.range(-3, 3); break;
                    case 1: v = -v; break;
                    case 2: v ^= (i128)g.below(1 << 16); break;
                    default: d.b = (i64)any_raw(g, c.type);
                    }
                    if(fits(t, v)) d.a = (i64)v;
                    eval(x, d);
                    eval(x, c);
                }
                else if(g.chance(1, 4)) eval(x, c);
            }
            for(size_t i = todo.size(); i-- > 0;) eval(y, todo[i]);
            ctx.mix(&h, sizeof h);
        }
        else if(k[0] == "q")
        {
            // a local query: evaluated by one replica only, must not influence anything. q node op type a b n m arg type2
            Node& n = node(k);
            int op = op_by_name(tok(k, 2));
            if(!n.up || op < 0) continue;
            NodeCmd c{};
            c.op = op;
            c.type = (int)((u64)num(k, 3) % CTYPES);
            c.a = n.st.r[(size_t)c.type][(size_t)((u64)num(k, 4) % REGS)];
            c.b = n.st.r[(size_t)c.type][(size_t)((u64)num(k, 5) % REGS)];
            c.n = snum(k, 6);
            c.m = snum(k, 7);
            c.arg = (int)num(k, 8);
            c.type2 = (int)((u64)num(k, 9) % CTYPES);
            if(op == OpSet) continue;
            Expect e = model(c);
            if(e.kind == Skip) continue;
            NodeRes r = cl.call(n, c);
            cl.judge(n, c, e, r);
            ctx.probe("local_query");
        }
    }
    // faults stop: everybody must catch up within a bounded number of rounds
    if(!ctx.bad())
    {
        cl.blocked = 0;
        for(int i = 0; i < (int)cl.nodes.size() && !ctx.bad(); ++i) cl.restart(i);
        const int rounds = (int)cl.log.size() + 2;
        for(int r = 0; r < rounds && !ctx.bad(); ++r)
            for(auto& n : cl.nodes)
            {
                n.in.clear();
                if(n.applied < (int)cl.log.size()) cl.receive(n, {n.applied});
                ++ctx.ticks;
                if(ctx.bad()) break;
            }
        for(auto& n : cl.nodes)
            if(!ctx.bad() && n.applied != (int)cl.log.size()) ctx.violate("no_progress", fmt("replica stuck at %d of %zu", n.applied, cl.log.size()));
        ctx.mix(cl.hist.back().r.data(), sizeof cl.hist.back().r);
    }
    for(auto& n : cl.nodes) n.lib->unload();
}

void sim::generate(const std::string&, Rng& r, Lines& out)
{
    const int nodes = 2 + (int)r.below(4);
    out.push_back(fmt("!nodes %d %d", nodes, (int)r.below(8)));
    out.push_back(fmt("!dirt %d", (int)r.below(256)));
    for(int i = 0; i < nodes; ++i)
        if(r.chance(1, 2)) out.push_back(fmt("e %d %d", i, (int)r.below(64)));
    const int T = r.chance(1, 2) ? (int)r.below(2) : (int)r.below(CTYPES);
    const int T2 = r.chance(1, 3) ? (int)r.below(CTYPES) : T;
    auto type = [&] { return r.chance(1, 4) ? T2 : T; };
    static const int popular[] = {OpAdd, OpSub, OpMul, OpDiv, OpMulEq, OpDivEq, OpSin, OpCos, OpExp, OpLog, OpSqrt, OpPow, OpConvert, OpCbrt, OpDivideBy, OpRound, OpFromFloat, OpMod};
    auto op = [&] { return r.chance(1, 3) ? popular[r.below(18)] : (int)r.below(OpEnd); };
    std::vector<std::string> sent;
    auto command = [&](int o, int d) {
        int ty = o >= OpSqrt && o < OpSimd && r.chance(1, 2) ? (int)r.below(2) : o == OpSimd ? 1 : type();
        const int ra = (int)r.below(REGS), rb = r.chance(1, 8) ? ra : (int)r.below(REGS);
        out.push_back(fmt("c %s %d %d %d %d ", node_op_names[o], ty, d >= 0 ? d : (int)r.below(REGS), ra, rb) + fmt("%lld %lld", (long long)imm(r, o, ty), (long long)imm(r, o, ty)) + fmt(" %d %d", (int)r.below(16), o == OpConvert ? (r.chance(1, 3) ? T2 : (int)r.below(CTYPES)) : T2));
    };
    // initial contents
    for(int ty : {T, T2, 0, 1})
        for(int d = 0; d < REGS; ++d)
            if(r.chance(3, 4)) out.push_back(fmt("c set %d %d 0 0 ", ty, d) + i128s(any_raw(r, ty)) + " 0 0 0");
    const int n = 4 + (int)r.logu(60);
    const bool crashy = r.chance(1, 2);
    for(int i = 0; i < n; ++i)
    {
        const int x = (int)r.below((u64)nodes);
        switch(r.below(20))
        {
        case 0: case 1: case 2: case 3: case 4: command(op(), -1); break;
        case 5: command(OpSet, -1); break;
        case 6: case 7: case 8: case 9: case 10:
            for(u64 q = 0; q <= r.logu(8); ++q) out.push_back(fmt("n %d %d", x, r.chance(1, 6) ? (int)r.below(5) : 0));
            break;
        case 11: out.push_back(fmt("l %d %d", x, (int)r.below(5))); break;
        case 12: out.push_back(fmt("u %d %d", x, (int)r.below(5))); break;
        case 13: out.push_back(fmt("t %d", x)); break;
        case 14: out.push_back(fmt("s %d %d", x, (int)r.below(4))); break;
        case 15: if(crashy) { out.push_back(fmt("x %d", x)); if(r.chance(1, 2)) out.push_back(fmt("r %d", x)); } break;
        case 16: out.push_back(r.chance(1, 2) ? fmt("p %d", (int)r.below(1u << nodes)) : "h"); break;
        case 18:
        {
            const int o = r.chance(1, 2) ? OpSqrt + (int)r.below(OpSimd - OpSqrt) : op();
            const int ty = o >= OpSqrt ? (r.chance(2, 3) ? 1 : (int)r.below(2)) : type();
            out.push_back(fmt("b %d %d %s %d %llu %d", x, (int)r.below((u64)nodes), node_op_names[o], ty, (unsigned long long)(r.next() >> 8), 4 + (int)r.logu(40)));
            break;
        }
        case 17: out.push_back(fmt("e %d %d", x, (int)r.below(64))); break;
        default:
        {
            int o = 1 + (int)r.below(OpEnd - 1), ty = o >= OpSqrt && o < OpSimd && r.chance(1, 2) ? (int)r.below(2) : type();
            if(o == OpSimd) ty = 1;
            out.push_back(fmt("q %d %s %d %d %d ", x, node_op_names[o], ty, (int)r.below(REGS), (int)r.below(REGS)) + fmt("%lld %lld", (long long)imm(r, o, ty), (long long)imm(r, o, ty)) + fmt(" %d %d", (int)r.below(16), (int)r.below(CTYPES)));
        }
        }
    }
}

SIM_MAIN
