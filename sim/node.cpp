// One replica: applies a command with the real library. Built once per compiler and mode.
#include "node.hpp"
#include <eirin/eirin.hpp>
#include <eirin/ext/cordic.hpp>
#ifdef NODE_FORMAT
#include <eirin/io/format.hpp>
#endif
#ifdef __AVX2__
#include <eirin/ext/simd_math.hpp>
#endif
#include <cstring>
#include <sstream>

namespace
{
using F32 = eirin::fixed32;
using F64 = eirin::fixed64;
using C20 = eirin::fixed_num<int32_t, int64_t, 20>;
using C28 = eirin::fixed_num<int32_t, int64_t, 28>;
using C31 = eirin::fixed_num<int32_t, int64_t, 31>;
using D60 = eirin::fixed_num<int64_t, __int128, 60>;
using U32 = eirin::fixed_num<uint32_t, uint64_t, 16>;
using I16 = eirin::fixed_num<int16_t, int32_t, 8>;
using E01 = eirin::fixed_num<int32_t, int64_t, 1>;
using S62 = eirin::fixed_num<int64_t, __int128, 62>;
using R32 = eirin::fixed_num<int32_t, int64_t, 16, true>;
using R64 = eirin::fixed_num<int64_t, __int128, 32, true>;

// order as in ref.hpp
template <class Fn> void by_type(int t, Fn&& fn)
{
    switch(t)
    {
    case 0: fn.template operator()<F32>(); break;
    case 1: fn.template operator()<F64>(); break;
    case 2: fn.template operator()<C20>(); break;
    case 3: fn.template operator()<C28>(); break;
    case 4: fn.template operator()<C31>(); break;
    case 5: fn.template operator()<D60>(); break;
    case 6: fn.template operator()<U32>(); break;
    case 7: fn.template operator()<I16>(); break;
    case 8: fn.template operator()<R32>(); break;
    case 9: fn.template operator()<R64>(); break;
    case 10: fn.template operator()<E01>(); break;
    case 11: fn.template operator()<S62>(); break;
    }
}
template <class T> T bits(auto v)
{
    T r{};
    memcpy(&r, &v, sizeof r < sizeof v ? sizeof r : sizeof v);
    return r;
}

template <class F> void apply(const NodeCmd& c, NodeRes& r)
{
    using V = typename F::value_type;
    auto mk = [](int64_t raw) { return F::from_internal_value(static_cast<V>(raw)); };
    F a = mk(c.a);
    const F b = mk(c.b);
    const F sa = a; // the operand must not change
    const F& rhs = (c.arg & 1) && c.a == c.b ? a : b; // both operands may be one object
    auto out = [&](const auto& x) { r.v[r.n++] = static_cast<int64_t>(x.internal_value()); };
    auto num = [&](int64_t x) { r.v[r.n++] = x; };
    // the same integer in different integer types
    auto with_int = [&](auto&& fn) {
        auto in = [&](int64_t lo, int64_t hi) { return c.n >= lo && c.n <= hi; };
        switch(c.arg & 15)
        {
        case 1: case 9: if(in(-32768, 32767)) return fn(static_cast<short>(c.n)); break;
        case 2: case 10: return fn(static_cast<long long>(c.n));
        case 3: if(in(-128, 127)) return fn(static_cast<signed char>(c.n)); break;
        case 4: case 12: if(in(0, UINT32_MAX)) return fn(static_cast<unsigned>(c.n)); break;
        case 5: if(in(0, INT64_MAX)) return fn(static_cast<unsigned long long>(c.n)); break;
        case 6: if(in(0, 65535)) return fn(static_cast<unsigned short>(c.n)); break;
        case 7: if(in(0, 255)) return fn(static_cast<unsigned char>(c.n)); break;
        case 8: if(in(0, 1)) return fn(c.n == 1); break;
        case 11: if(in(0, 127)) return fn(static_cast<char>(c.n)); break;
        case 13: if(in(0, INT64_MAX)) return fn(static_cast<std::size_t>(c.n)); break;
        case 14: if(in(0, UINT32_MAX)) return fn(static_cast<char32_t>(c.n)); break;
        }
        if(c.n >= INT32_MIN && c.n <= INT32_MAX) fn(static_cast<int>(c.n));
        else fn(static_cast<long long>(c.n));
    };
    // the same, or all 64 bits of it as an unsigned integer
    auto with_divisor = [&](auto&& fn) {
        if((c.arg & 15) == 15) fn(static_cast<unsigned long long>(c.n));
        else with_int(fn);
    };
    switch(c.op)
    {
    case OpSet: out(a); return;
    case OpAdd: out(a + b); break;
    case OpAddEq: { F& q = (a += rhs); num(&q == &a); out(a); return; }
    case OpSub: out(a - b); break;
    case OpSubEq: { F& q = (a -= rhs); num(&q == &a); out(a); return; }
    case OpMul: out(a * b); break;
    case OpMulEq: { F& q = (a *= rhs); num(&q == &a); out(a); return; }
    case OpDiv: out(a / b); break;
    case OpDivEq: { F& q = (a /= rhs); num(&q == &a); out(a); return; }
    case OpMod: out(a % b); break;
    case OpModEq: { F& q = (a %= rhs); num(&q == &a); out(a); return; }
    case OpNeg: out(-a); break;
    case OpPreInc: { F q = ++a; out(q); out(a); return; }
    case OpPostInc: { F q = a++; out(q); out(a); return; }
    case OpPreDec: { F q = --a; out(q); out(a); return; }
    case OpPostDec: { F q = a--; out(q); out(a); return; }
    case OpAddInt: with_int([&](auto n) { out(a + n); }); break;
    case OpIntAdd: with_int([&](auto n) { out(n + a); }); break;
    case OpSubInt: with_int([&](auto n) { out(a - n); }); break;
    case OpIntSub: with_int([&](auto n) { out(n - a); }); break;
    case OpMulInt: with_int([&](auto n) { out(a * n); }); break;
    case OpIntMul: with_int([&](auto n) { out(n * a); }); break;
    case OpDivInt: with_divisor([&](auto n) { out(a / n); }); break;
    case OpIntDiv: with_int([&](auto n) { out(n / a); }); break;
    case OpIntMod: with_int([&](auto n) { out(n % a); }); break;
    case OpAddEqInt: with_int([&](auto n) { a += n; }); out(a); return;
    case OpSubEqInt: with_int([&](auto n) { a -= n; }); out(a); return;
    case OpMulEqInt: with_int([&](auto n) { a *= n; }); out(a); return;
    case OpDivEqInt: with_divisor([&](auto n) { a /= n; }); out(a); return;
    case OpCompare:
        num((a == b) | (a != b) << 1 | (a < b) << 2 | (a > b) << 3 | (a <= b) << 4 | (a >= b) << 5 | ((a <=> b) < 0) << 6 | ((a <=> b) > 0) << 7 | ((a <=> b) == 0) << 8);
        break;
    case OpNearly:
        num(a.nearly_eq(b) | a.nearly_ne(b) << 1 | a.nearly_gt(b) << 2 | a.nearly_lt(b) << 3 | a.nearly_gt_eq(b) << 4 | a.nearly_lt_eq(b) << 5);
        break;
    case OpCeil: out(ceil(a)); break;
    case OpFloor: out(floor(a)); break;
    case OpTrunc: out(trunc(a)); break;
    case OpRound: out(round(a)); break;
    case OpAbs: out(abs(a)); break;
    case OpMin: out(eirin::min(a, b)); break;
    case OpMax: out(eirin::max(a, b)); break;
    case OpConvert: by_type(c.type2, [&]<class G>() { out(G(a)); }); break;
    case OpToInt: num(static_cast<long long>(a)); num(static_cast<int>(a)); num(static_cast<short>(a));
        num(static_cast<int64_t>(static_cast<unsigned long long>(a))); num(static_cast<unsigned>(a)); num(static_cast<unsigned char>(a)); break;
    case OpFromInt: with_int([&](auto n) { out(F(n)); }); break;
    case OpToFloat:
    {
        num(bits<int64_t>(static_cast<double>(a)));
        num(bits<int32_t>(static_cast<float>(a)));
        long double l = static_cast<long double>(a);
        num(static_cast<int64_t>(l));
        num(static_cast<int64_t>(l * static_cast<long double>(1ull << (F::precision - 1)))); // exact
        break;
    }
    case OpFromFloat:
        switch(c.arg & 3)
        {
        case 1: out(F(static_cast<float>(bits<double>(c.n)))); break;
        case 2: out(F(static_cast<long double>(bits<double>(c.n)))); break;
        default: out(F(bits<double>(c.n)));
        }
        break;
    case OpHash: num(static_cast<int64_t>(eirin::fixed_hash<F>()(a))); num(eirin::fixed_hash<F>()(a) == eirin::fixed_hash<F>()(mk(c.a))); break;
    case OpParts: num(signbit(a)); num(static_cast<int64_t>(a.integral_part())); if constexpr(!std::is_same_v<F, C31>) num(static_cast<int64_t>(a.fractional_part())); break;
    case OpConst:
        switch((unsigned)c.n % 20u)
        {
        case 0: out(F::epsilon()); break;
        case 1: out(F::e()); break;
        case 2: out(F::pi()); break;
        case 3: out(F::pi_2()); break;
        case 4: out(F::pi_4()); break;
        case 5: out(F::double_pi()); break;
        case 6: out(F::nearly_compare_epsilon()); break;
        case 7: out(eirin::numbers::e_v<F>()); break;
        case 8: out(eirin::numbers::pi_v<F>()); break;
        case 9: out(eirin::numbers::log2e_v<F>()); break;
        case 10: out(eirin::numbers::log10e_v<F>()); break;
        case 11: out(eirin::numbers::inv_pi_v<F>()); break;
        case 12: out(eirin::numbers::inv_sqrtpi_v<F>()); break;
        case 13: out(eirin::numbers::ln2_v<F>()); break;
        case 14: out(eirin::numbers::ln10_v<F>()); break;
        case 15: out(eirin::numbers::sqrt2_v<F>()); break;
        case 16: out(eirin::numbers::sqrt3_v<F>()); break;
        case 17: out(eirin::numbers::inv_sqrt3_v<F>()); break;
        case 18: out(eirin::numbers::egamma_v<F>()); break;
        default: out(eirin::numbers::phi_v<F>());
        }
        break;
    case OpFmod: if constexpr(!std::is_same_v<F, C31>) out(fmod(a, b)); break;
    case OpModf: if constexpr(!std::is_same_v<F, C31>) { F ip = b; out(modf(a, ip)); out(ip); } break;
    case OpDivide: out(a.divide(b)); break;
    case OpDivideInt: with_divisor([&](auto n) { out(a.divide(n)); }); break;
    case OpDivideBy:
        try { F& q = a.divide_by(rhs); num(&q == &a); }
        catch(...) { num(a == sa); throw; }
        out(a);
        return;
    case OpDivideByInt:
        try { with_divisor([&](auto n) { a.divide_by(n); }); }
        catch(...) { num(a == sa); throw; }
        out(a);
        return;
    case OpPrint:
    {
        std::ostringstream o;
        o << a;
        strncpy(r.text, o.str().c_str(), sizeof r.text - 1);
        break;
    }
    case OpParse:
    {
        // reads back the text of a value, by stream or by buffer
        std::ostringstream o;
        o << a;
        std::string s = o.str();
        F x = b;
        if(c.arg & 1) num(eirin::fixed_from_cstring(s.data(), s.size(), x));
        else { std::istringstream i(s); i >> x; num(!i.fail()); }
        out(x);
        break;
    }
    case OpFormat:
#ifdef NODE_FORMAT
        if constexpr(std::is_same_v<F, F32> || std::is_same_v<F, F64> || std::is_same_v<F, R32>)
        {
            std::string s = std::vformat("{:+.9f}", std::make_format_args(a));
            strncpy(r.text, s.c_str(), sizeof r.text - 1);
            break;
        }
#endif
        r.status = 2;
        break;
    case OpLimits: out(std::numeric_limits<F>::min()); out(std::numeric_limits<F>::max()); out(std::numeric_limits<F>::lowest()); out(eirin::max_value<F>()); out(eirin::min_value<F>()); break;
    case OpSimd:
#ifdef __AVX2__
        if constexpr(std::is_same_v<F, F64>)
        {
            auto q = eirin::simd::simd_reduce_angle({a, b, mk(c.n), mk(c.m)});
            for(auto& x : q) out(x);
            for(auto& x : eirin::simd::simd_reduce_angle_2({b, a})) out(x);
            break;
        }
#endif
        r.status = 2;
        break;
    default:
        if constexpr(std::is_same_v<F, F32> || std::is_same_v<F, F64> || std::is_same_v<F, C20> || std::is_same_v<F, R32> || std::is_same_v<F, R64>)
            switch(c.op)
            {
            case OpSqrt: out(sqrt(a)); break;
            case OpSin: out(sin(a)); break;
            case OpCos: out(cos(a)); break;
            case OpTan: out(tan(a)); break;
            case OpAtan: out(atan(a)); break;
            case OpAsin: out(asin(a)); break;
            case OpAcos: out(acos(a)); break;
            case OpCbrt: out(cbrt(a)); break;
            case OpLog2: out(log2(a)); break;
            case OpLog: out(log(a)); break;
            case OpLog10: out(log10(a)); break;
            case OpExp: out(exp(a)); break;
            case OpPowInt: with_int([&](auto n) { if constexpr(!std::is_same_v<decltype(n), bool>) out(pow(a, n)); else out(pow(a, static_cast<int>(n))); }); break;
            case OpPow: out(pow(a, b)); break;
            case OpDegrees: out(degrees(a)); break;
            case OpRadians: out(radians(a)); break;
            case OpHypot: out(hypot(a, b)); break;
            case OpHypot3: out(hypot(a, b, b)); break;
            case OpCordic:
                if constexpr(std::is_same_v<F, F32> || std::is_same_v<F, F64>) { out(eirin::cordic_sine(a)); break; }
                r.status = 2;
                break;
            default: r.status = 2;
            }
        else r.status = 2;
    }
    if(!(a == sa)) r.v[0] ^= 0x5555; // an operand passed by value or const reference changed
}
} // namespace

extern "C" __attribute__((visibility("default"))) void node_apply(const NodeCmd* c, NodeRes* r)
{
    r->status = 0;
    r->n = 0;
    r->text[0] = 0;
    try
    {
        by_type(c->type, [&]<class F>() { apply<F>(*c, *r); });
    }
    catch(const std::exception&)
    {
        r->status = 1;
    }
}
