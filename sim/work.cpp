// What the simulated threads do: every public operation of the library, compiled with access instrumentation.
#include "work.hpp"
#include <eirin/eirin.hpp>
#include <eirin/random.hpp>
#include <eirin/detail/util.hpp>
#include <eirin/ext/cordic.hpp>
#include <eirin/ext/simd_math.hpp>
#include <eirin/io/format.hpp>
#include <eirin/io/parse.hpp>
#include <cerrno>
#include <cstring>
#include <sstream>
#include <unordered_map>

namespace
{
using namespace eirin;
using F32 = fixed32;
using F64 = fixed64;
using C20 = fixed_num<int32_t, int64_t, 20>;
using U32 = fixed_num<uint32_t, uint64_t, 16>;
using I16 = fixed_num<int16_t, int32_t, 8>;
using R32 = fixed_num<int32_t, int64_t, 16, true>;
using R64 = fixed_num<int64_t, __int128, 32, true>;
using C28 = fixed_num<int32_t, int64_t, 28>;
using D60 = fixed_num<int64_t, __int128, 60>;

// read by every thread, written by none
const F32 shared32[4] = {F32::from_internal_value(0x18000), F32::from_internal_value(-0x2A123), F32::from_internal_value(77), F32::from_internal_value(0x7FFFFFFF)};
const F64 shared64[4] = {F64::from_internal_value(0x18000'0000ll), F64::from_internal_value(-0x2A12345678ll), F64::from_internal_value(77), F64::from_internal_value(0x7FFFFFFFFFFFFFFFll)};
const pcg2014 shared_engine(12345u);
const fixed_int_distribution_adapter<F32, std::uniform_int_distribution<int>> shared_dist(F32(-3), F32(9));
using Fmt32 = io::fixed_num_formatter<char, int32_t, int64_t, 16, false>;
using Fmt64 = io::fixed_num_formatter<char, int64_t, F64::intermediate_type, 32, false>;
const Fmt32 shared_formatter;
const Fmt64 shared_formatter64 = [] { Fmt64 f; auto st = f.get_state(); st.type = 'f'; st.precision = 4; st.width_val = 16; st.sign_mode = '+'; f.set_state(st); return f; }();
struct Own
{
    pcg2014 e32;
    pcg2014_64 e64;
    std::mt19937 mt{42};
    fixed_random_engine_adapter<F32, pcg2014> a32;
    fixed_random_engine_adapter<F64, pcg2014_64> a64;
    fixed_int_distribution_adapter<F32, std::uniform_int_distribution<int>> d32{F32(-3), F32(9)};
    fixed_int_distribution_adapter<F64, std::uniform_int_distribution<int64_t>> d64{F64(-1000), F64(1000)};
    fixed_distribution_adapter<F32, std::uniform_int_distribution<int>> e_d32{F32(-3), F32(9)};
    fixed_random_engine_adapter<I16, std::mt19937> duck;
    std::string spoiled;
    Fmt32 fmt;
    std::wistringstream wis;
    std::ostringstream os;
    F32 r32 = F32(1);
    F64 r64 = F64(1);
};

struct Mix
{
    uint64_t h = 1469598103934665603ull;
    void b(const void* p, size_t n)
    {
        auto q = static_cast<const unsigned char*>(p);
        for(size_t i = 0; i < n; ++i) h = (h ^ q[i]) * 1099511628211ull;
    }
    void n(int64_t v) { b(&v, sizeof v); }
    template <class C> void s(const std::basic_string<C>& x) { b(x.data(), x.size() * sizeof(C)); n((int64_t)x.size()); }
    template <class F> requires requires(F f) { f.internal_value(); } void f(F x) { n((int64_t)x.internal_value()); }
};
struct R
{
    uint64_t s;
    uint64_t next()
    {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    int64_t in(int64_t a, int64_t b) { return a + (int64_t)(next() % (uint64_t)(b - a + 1)); }
};
template <class F> F val(R& r, double lim) // |x| <= lim
{
    int64_t m = (int64_t)(lim * (double)(1ll << F::precision));
    return F::from_internal_value((typename F::value_type)r.in(std::is_signed_v<typename F::value_type> ? -m : 0, m));
}
template <class F> F pos(R& r, double lo, double hi)
{
    int64_t a = (int64_t)(lo * (double)(1ll << F::precision)), b = (int64_t)(hi * (double)(1ll << F::precision));
    return F::from_internal_value((typename F::value_type)r.in(a, b));
}
template <class F> void arith(R& r, Mix& m)
{
    F a = val<F>(r, 8), b = pos<F>(r, 0.5, 8);
    m.f(a + b);
    if constexpr(std::is_signed_v<typename F::value_type>) { m.f(a - b); m.f(-a); m.f(abs(a)); }
    m.f(a * b); m.f(a / b); m.f(a % b); m.f(a * 3); m.f(a / 3); m.f(3 * b);
    F c = a;
    c += b; m.f(c); c -= b; m.f(c); c *= b; m.f(c); c /= b; m.f(c); c %= b; m.f(c); m.f(c++); m.f(++c);
    m.f(a.divide(b));
}
template <class F> void math(int op, R& r, Mix& m)
{
    switch(op)
    {
    case WSqrt: m.f(sqrt(pos<F>(r, 0, 90))); break;
    case WTrig: { F x = val<F>(r, 90); m.f(sin(x)); m.f(cos(x)); m.f(tan(val<F>(r, 1.4))); break; }
    case WInverse: { F x = val<F>(r, 0.65); m.f(atan(x)); m.f(asin(x)); m.f(acos(x)); break; }
    case WRoots: m.f(cbrt(pos<F>(r, 0.2, 50))); break;
    case WLog: { F x = pos<F>(r, 0.01, 90); m.f(log2(x)); m.f(log(x)); m.f(log10(x)); break; }
    case WExp: m.f(exp(val<F>(r, 5))); break;
    case WPow: m.f(pow(pos<F>(r, 0.5, 6), (int)r.in(0, 3))); m.f(pow(pos<F>(r, 0.5, 4), val<F>(r, 2))); break;
    case WAngle: m.f(degrees(val<F>(r, 10))); m.f(radians(val<F>(r, 90))); break;
    case WHypot: m.f(hypot(val<F>(r, 9), val<F>(r, 9))); m.f(hypot(val<F>(r, 9), val<F>(r, 9), val<F>(r, 9))); break;
    }
}
template <class F> void text(int op, R& r, Mix& m, std::ostringstream& os)
{
    F a = val<F>(r, 90);
    switch(op)
    {
    case WPrint:
        os.str("");
        os << a << ' ' << std::hex << a << ' ' << std::dec << val<F>(r, 9) << '\n';
        m.s(os.str());
        break;
    case WExtract:
    {
        std::ostringstream o;
        o << a << ' ' << val<F>(r, 9) << "x";
        std::istringstream i(o.str());
        F x, y, z = F(7);
        i >> x >> y;
        m.f(x); m.f(y); m.n(i.fail());
        i >> z;
        m.f(z); m.n(i.fail());
        break;
    }
    case WCString:
    {
        char buf[32];
        int n = snprintf(buf, sizeof buf, "%d.%03d%s", (int)r.in(0, 90), (int)r.in(0, 999), r.in(0, 4) ? "" : "z");
        F x = F(5);
        m.n(fixed_from_cstring(buf, (size_t)n, x));
        m.f(x);
        break;
    }
    }
}

void op(Own& o, int k, uint64_t seed, WorkRes& res)
{
    R r{seed};
    Mix m;
    switch(k)
    {
    case WArith:
        switch(r.next() % 7)
        {
        case 0: arith<F32>(r, m); break;
        case 1: arith<F64>(r, m); break;
        case 2: arith<C20>(r, m); break;
        case 3: arith<U32>(r, m); break;
        case 4: arith<I16>(r, m); break;
        case 5: arith<R32>(r, m); break;
        default: arith<R64>(r, m);
        }
        o.r32 = val<F32>(r, 5) + shared32[r.next() & 1];
        break;
    case WCompare:
    {
        F32 a = val<F32>(r, 3), b = val<F32>(r, 3);
        F64 c = val<F64>(r, 3), d = val<F64>(r, 3);
        m.n((a < b) | (a == b) << 1 | (a >= b) << 2 | a.nearly_eq(b) << 3 | a.nearly_gt(b) << 4 | ((a <=> b) < 0) << 5);
        m.n((c < d) | (c == d) << 1 | (c >= d) << 2 | c.nearly_eq(d) << 3 | c.nearly_lt_eq(d) << 4 | ((c <=> d) > 0) << 5);
        m.f(eirin::min(a, b)); m.f(eirin::max(c, d));
        break;
    }
    case WRounding:
    {
        F32 a = val<F32>(r, 3000);
        F64 b = val<F64>(r, 3000);
        m.f(ceil(a)); m.f(floor(a)); m.f(trunc(a)); m.f(round(a)); m.f(ceil(b)); m.f(floor(b)); m.f(trunc(b)); m.f(round(b)); m.n(signbit(a));
        F32 ip;
        m.f(modf(a, ip)); m.f(ip); m.f(fmod(a, pos<F32>(r, 1, 9)));
        break;
    }
    case WConvert:
    {
        F32 a = val<F32>(r, 3000);
        F64 b(a);
        m.f(b); m.f(F32(b)); m.f(R32(a)); m.n((int)a); m.f(F64(1.5)); m.f(F32((float)r.in(-9, 9) / 4)); m.f(F32((int)r.in(-99, 99)));
        double d = (double)a;
        m.b(&d, 8); m.n(a.integral_part()); m.n(a.fractional_part());
        break;
    }
    case WSqrt: case WTrig: case WInverse: case WRoots: case WLog: case WExp: case WPow: case WAngle: case WHypot:
        switch(r.next() % 4)
        {
        case 0: case 1: math<F32>(k, r, m); break;
        case 2: math<F64>(k, r, m); break;
        default: math<R64>(k, r, m);
        }
        break;
    case WCordic: m.f(cordic_sine(val<F32>(r, 6))); m.f(cordic_sine(val<F64>(r, 6))); break;
    case WLut: m.f(util::lut::lut_calc_sin(pos<F64>(r, 0, 6))); break;
    case WConstants:
        m.f(numbers::pi_v<F32>()); m.f(numbers::e_v<F64>()); m.f(numbers::ln2_v<F32>()); m.f(numbers::phi_v<F64>()); m.f(F32::pi()); m.f(F64::e()); m.f(F64::nearly_compare_epsilon());
        break;
    case WHash: m.n((int64_t)fixed_hash<F32>()(val<F32>(r, 9))); m.n((int64_t)fixed_hash<F64>()(val<F64>(r, 9))); break;
    case WPrint: case WExtract: case WCString:
        switch(r.next() % 4)
        {
        case 0: text<F32>(k, r, m, o.os); break;
        case 1: text<F64>(k, r, m, o.os); break;
        case 2: text<U32>(k, r, m, o.os); break;
        default: text<I16>(k, r, m, o.os);
        }
        break;
    case WIoParse:
    {
        char buf[32];
        int n = snprintf(buf, sizeof buf, "-%d.%04d;", (int)r.in(0, 900), (int)r.in(0, 9999));
        F32 x = F32(5);
        m.n(io::parse(std::string_view(buf, (size_t)n - 1), x) - buf); m.f(x);
        m.n(io::parse(buf, buf + n - 1, x) - buf); m.f(x);
        F32 y = F32(2);
        m.n(f32_from_cstring(buf + 1, (size_t)n - 2, y)); m.f(y);
        break;
    }
    case WLiteral:
    {
        char buf[32];
        snprintf(buf, sizeof buf, "%d.%02d", (int)r.in(0, 99), (int)r.in(0, 99));
        m.f(operator""_f32(buf, strlen(buf))); m.f(operator""_f64(buf, strlen(buf)));
        break;
    }
    case WFormat:
    {
        const F32 a = val<F32>(r, 90), b = val<F32>(r, 9), c = val<F32>(r, 90), d = val<F32>(r, 90);
        const F64 x = val<F64>(r, 90), y = val<F64>(r, 9);
        m.s(std::vformat("{:+.4f}|{:>12}|{:d}", std::make_format_args(a, x, b)));
        m.s(std::vformat("{:#x} {:*^20.3f} {:08.2f}", std::make_format_args(c, y, d)));
        break;
    }
    case WFormatWide:
    {
        const F32 a = val<F32>(r, 90);
        const F64 x = val<F64>(r, 90);
        m.s(std::vformat(L"{:+.4f}|{:>12}", std::make_wformat_args(a, x)));
        break;
    }
    case WFormatShared: m.s(std::vformat("{} {:.3f} {} {:x}", std::make_format_args(shared32[0], shared32[1], shared64[0], shared32[2]))); break;
    case WFormatTo:
    {
        char buf[40];
        auto q = std::format_to_n(buf, (long)r.in(0, 30), std::bit_cast<std::format_string<F64>>(std::string_view("{:^18.5f}")), val<F64>(r, 90));
        m.b(buf, (size_t)(q.out - buf)); m.n(q.size);
        break;
    }
    case WEngine: m.n(o.e32()); if(r.next() & 1) o.e32.discard(r.next() & 15); if(!(r.next() & 7)) o.e32.seed((uint32_t)r.next()); m.n(o.e32()); { pcg2014 c(o.e32); m.n(c == o.e32); m.n(c()); } break;
    case WEngine64: m.n((int64_t)o.e64()); if(r.next() & 1) o.e64.discard(r.next() & 15); m.n((int64_t)o.e64()); break;
    case WSeedSeq: { std::seed_seq q{(uint32_t)r.next(), (uint32_t)r.next()}; pcg2014 e; e.seed(q); m.n(e()); o.e32.seed(q); m.n(o.e32()); break; }
    case WAdapter: m.f(o.a32()); m.f(o.a64()); if(!(r.next() & 3)) o.a32.seed((uint32_t)r.next()); m.f(o.a32()); break;
    case WAdapterDefault: { fixed_random_engine_adapter<F32, pcg2014> a; m.f(a()); m.f(a()); fixed_random_engine_adapter<F64, pcg2014_64> b; m.f(b()); break; }
    case WDistInt: m.f(o.d32(o.e32)); m.f(o.d64(o.mt)); m.f(o.d32(o.mt)); break;
    case WDistFixed:
    {
        fixed_int_distribution_adapter<F64, std::uniform_int_distribution<int64_t>> d(F64(-(int)r.in(1, 50)), F64((int)r.in(1, 50)));
        m.f(d(o.e64)); m.f(d.a()); m.f(d.b()); d.reset(); m.f(d(o.mt));
        break;
    }
    case WEngineText: { std::ostringstream q; q << o.e32 << ' ' << o.a32; m.s(q.str()); break; }
    case WSharedEngine: { std::ostringstream q; q << shared_engine; m.s(q.str()); pcg2014 c(shared_engine); m.n(c()); m.n(c == shared_engine); break; }
    case WSharedDist: { auto d = shared_dist; m.f(d(o.mt)); m.f(shared_dist.a()); m.f(shared_dist.b()); m.f(shared_dist.min()); m.f(shared_dist.max()); break; }
    case WSharedValues:
    {
        m.f(sin(shared32[0])); m.f(sqrt(shared64[0])); m.f(shared32[0] * shared32[1]); m.f(abs(shared64[1])); m.n(shared32[0] < shared32[1]);
        std::ostringstream q;
        q << shared32[1] << ' ' << shared64[1];
        m.s(q.str()); m.f(exp(shared32[0])); m.f(floor(shared64[1]));
        break;
    }
    case WErrors:
        for(int i = 0; i < 4; ++i)
            try
            {
                switch(i)
                {
                case 0: m.f(val<F32>(r, 9).divide(F32(0))); break;
                case 1: m.f(log(F64(-3))); break;
                case 2: m.f(asin(F32(2))); break;
                case 3: m.s(std::vformat("{:q}", std::make_format_args(shared32[0]))); break;
                }
                m.n(0);
            }
            catch(const std::exception& e)
            {
                m.s(std::string(e.what()));
            }
        break;
    case WSimd:
#ifdef __AVX2__
    {
        std::array<F64, 4> a;
        for(int i = 0; i < 4; ++i) a[(size_t)i] = F64::from_internal_value(simd_arg([&] { return r.next(); }));
        auto q = simd::simd_reduce_angle(a);
        for(size_t i = 0; i < 4; ++i) { m.f(q[i]); res.out[i] = q[i].internal_value(); }
        for(size_t i = 0; i < 4; i += 2)
        {
            auto p = simd::simd_reduce_angle_2({a[i], a[i + 1]});
            for(size_t j = 0; j < 2; ++j) { m.f(p[j]); res.out[4 + i + j] = p[j].internal_value(); }
        }
    }
#endif
        break;
    case WCpu:
        // a seeded sequence of queries
        for(int i = 0, n = 1 + (int)(r.next() % 6); i < n; ++i)
        {
            unsigned q = (unsigned)(r.next() % 6);
            bool v = false;
            switch(q)
            {
            case 0: v = simd::platform_support::supports_sse2(); break;
            case 1: v = simd::platform_support::supports_sse4_2(); break;
            case 2: v = simd::platform_support::supports_avx(); break;
            case 3: v = simd::platform_support::supports_avx2(); break;
            case 4: v = simd::platform_support::supports_avx512_f(); break;
            case 5: v = simd::platform_support::supports_avx512_dq(); break;
            }
            m.n(v);
            if(res.value2 >> q & 1 && (res.value >> q & 1) != v) res.value |= 1u << 31; // changed its mind
            res.value2 |= 1u << q;
            res.value |= (uint64_t)v << q;
        }
        break;
    case WLimits: m.f(std::numeric_limits<F32>::max()); m.f(std::numeric_limits<F64>::lowest()); m.f(f32_max); m.f(f64_min); break;
    case WMap:
    {
        std::unordered_map<F64, int, fixed_hash<F64>> q;
        for(int i = 0; i < 6; ++i) q[val<F64>(r, 3)] += i;
        int64_t s = 0;
        for(auto& [a, b] : q) s += (int64_t)a.internal_value() * b;
        m.n(s);
        break;
    }
    case WHead: o.r64 = o.r64 * val<F64>(r, 1) + F64(1); m.f(o.r64); m.f(o.r32); break;
    case WSharedFormatter:
    {
        std::string a, b;
        shared_formatter.format_to(std::back_inserter(a), val<F32>(r, 900));
        shared_formatter64.format_to(std::back_inserter(b), val<F64>(r, 900));
        m.s(a); m.s(b); m.n(shared_formatter64.get_state().precision);
        break;
    }
    case WFormatter:
    {
        auto st = o.fmt.get_state();
        st.type = "gfdxob"[r.next() % 6];
        st.precision = (int)r.in(-1, 9);
        st.width_val = (int)r.in(0, 20);
        st.alt_form = r.next() & 1;
        st.zero_pad = r.next() & 1;
        o.fmt.set_state(st);
        std::string a;
        o.fmt.format_to(std::back_inserter(a), val<F32>(r, 900));
        m.s(a);
        break;
    }
    case WDistAdapter:
    {
        using D = decltype(o.e_d32);
        m.f(o.e_d32(o.duck)); m.f(o.e_d32(o.duck, D::param_type(F32(1), F32(2))));
        if(r.next() & 1) { o.e_d32.param(D::param_type(F32(-(int)r.in(1, 5)), F32((int)r.in(1, 5)))); o.e_d32.reset(); }
        m.f(o.e_d32(o.duck)); m.f(o.e_d32.a()); m.f(o.e_d32.b());
        fixed_int_distribution_adapter<I16, std::uniform_int_distribution<int>> d;
        m.f(d(o.mt)); m.f(d.param().a()); m.n(d.param() == decltype(d)::param_type());
        break;
    }
    case WMoreArith:
    {
        arith<C28>(r, m);
        D60 a = val<D60>(r, 1.5), b = pos<D60>(r, 0.7, 1.5);
        m.f(a + b); m.f(a * b); m.f(a / b); m.f(a % b); m.f(D60(a)); m.f(F32(a)); m.f(C28(F64(a))); m.f(F64(b));
        F32 x = val<F32>(r, 90);
        m.f(x.divide(7)); x.divide_by(3); m.f(x); x += 2; x -= 5; x *= 3; x /= 2; m.f(x); m.f(7 - x); m.f(x--); m.f(--x); m.f(9 % pos<F32>(r, 1, 4)); m.f(100 / pos<F32>(r, 1, 4));
        m.n(x.nearly_ne(x) | x.nearly_lt(x) << 1 | x.nearly_gt_eq(x) << 2);
        m.f(numbers::log2e_v<F64>()); m.f(numbers::log10e_v<F64>()); m.f(numbers::inv_pi_v<F32>()); m.f(numbers::inv_sqrtpi_v<F32>()); m.f(numbers::ln10_v<F64>());
        m.f(numbers::sqrt2_v<F64>()); m.f(numbers::sqrt3_v<F64>()); m.f(numbers::inv_sqrt3_v<F32>()); m.f(numbers::egamma_v<F32>()); m.f(F32::pi_2()); m.f(F64::pi_4()); m.f(F64::double_pi()); m.f(F32::epsilon());
        m.f(eirin::max_value<F32>()); m.f(eirin::min_value<F64>()); m.n(signbit(shared64[1])); m.f(1.5_f32); m.f("2.25"_f64);
        break;
    }
    case WWide:
    {
        std::wostringstream q;
        q << (int)r.in(-900, 900) << L'.' << (int)r.in(0, 99999) << L' ' << (int)r.in(0, 90) << L"x7";
        std::wstring t = q.str();
        o.wis.clear();
        o.wis.str(t);
        F32 a = F32(3);
        F64 b = F64(3);
        o.wis >> a >> b;
        m.f(a); m.f(b); m.n(o.wis.fail());
        o.wis >> a;
        m.f(a); m.n(o.wis.fail());
        break;
    }
    case WHostile:
    {
        // failures on the way: output that fails, numbers that do not fit, seeds from a sequence
        std::ostream none(nullptr);
        none << val<F32>(r, 90) << o.e32;
        m.n(none.fail());
        std::istringstream i("99999999999999999999999999 4.5.6 -");
        F32 a = F32(1);
        for(int k = 0; k < 3; ++k) { i >> a; m.f(a); m.n(i.fail()); i.clear(); }
        F64 b = F64(2);
        m.n(fixed_from_cstring("123456789012345678901234567890", 30, b)); m.f(b);
        try { o.fmt.format_to(std::back_inserter(o.spoiled), val<F32>(r, 9)); m.f(pow(F32(-2), val<F32>(r, 2))); } catch(const std::exception& e) { m.s(std::string(e.what())); }
        o.spoiled.clear();
        try { m.f(shared32[0].divide(0)); } catch(const std::exception& e) { m.s(std::string(e.what())); }
        try { F32 z = val<F32>(r, 9); z.divide_by(F32(0)); } catch(const std::exception& e) { m.s(std::string(e.what())); }
        break;
    }
    }
    res.hash = m.h;
}
} // namespace

extern "C" __attribute__((visibility("default"))) void* work_new() { return new Own; }
extern "C" __attribute__((visibility("default"))) void work_op(void* own, int k, uint64_t seed, WorkRes* r)
{
    r->hash = r->value = r->value2 = 0;
    for(auto& x : r->out) x = 0;
    errno = seed & 4 ? ERANGE : 0;
    op(*static_cast<Own*>(own), k, seed, *r);
}
