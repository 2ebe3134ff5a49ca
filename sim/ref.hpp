// Reference semantics of fixed-point text, written independently of the library: plain big-decimal arithmetic.
#pragma once
#include "common.hpp"
#include <eirin/fixed.hpp>

namespace sim
{
struct TypeInfo
{
    const char* name;
    unsigned bits;   // width of the store type
    unsigned f;      // fraction bits
    bool is_signed;
    bool rounding;
    i128 min() const { return is_signed ? -((i128)1 << (bits - 1)) : (i128)0; }
    i128 max() const { return is_signed ? ((i128)1 << (bits - 1)) - 1 : ((i128)1 << bits) - 1; }
    i128 wrap(i128 v) const // reduce to the width of the store type
    {
        const i128 m = v & (((i128)1 << bits) - 1);
        return is_signed && m > max() ? m - ((i128)1 << bits) : m;
    }
};

using F32 = eirin::fixed32;
using F64 = eirin::fixed64;
using C20 = eirin::fixed_num<int32_t, int64_t, 20>;
using C28 = eirin::fixed_num<int32_t, int64_t, 28>;
using C31 = eirin::fixed_num<int32_t, int64_t, 31>;
using D60 = eirin::fixed_num<int64_t, __int128, 60>;
using U32 = eirin::fixed_num<uint32_t, uint64_t, 16>;
using U64 = eirin::fixed_num<uint64_t, unsigned __int128, 40>;
using I16 = eirin::fixed_num<int16_t, int32_t, 8>;
using E01 = eirin::fixed_num<int32_t, int64_t, 1>;
using S62 = eirin::fixed_num<int64_t, __int128, 62>;
using R32 = eirin::fixed_num<int32_t, int64_t, 16, true>;
using R64 = eirin::fixed_num<int64_t, __int128, 32, true>;

inline constexpr TypeInfo TYPES[] = {
    {"f32", 32, 16, true, false}, {"f64", 64, 32, true, false}, {"c20", 32, 20, true, false}, {"c28", 32, 28, true, false},
    {"c31", 32, 31, true, false}, {"d60", 64, 60, true, false}, {"u32", 32, 16, false, false}, {"i16", 16, 8, true, false},
    {"r32", 32, 16, true, true},  {"r64", 64, 32, true, true},  {"e01", 32, 1, true, false}, {"s62", 64, 62, true, false},
    {"u64", 64, 40, false, false},
};
inline constexpr int NTYPES = sizeof TYPES / sizeof *TYPES;

// call fn.template operator()<FixedType>(info)
template <class Fn> void with_type(const std::string& name, Fn&& fn)
{
    if(name == "f64") return fn.template operator()<F64>(TYPES[1]);
    if(name == "c20") return fn.template operator()<C20>(TYPES[2]);
    if(name == "c28") return fn.template operator()<C28>(TYPES[3]);
    if(name == "c31") return fn.template operator()<C31>(TYPES[4]);
    if(name == "d60") return fn.template operator()<D60>(TYPES[5]);
    if(name == "u32") return fn.template operator()<U32>(TYPES[6]);
    if(name == "i16") return fn.template operator()<I16>(TYPES[7]);
    if(name == "r32") return fn.template operator()<R32>(TYPES[8]);
    if(name == "r64") return fn.template operator()<R64>(TYPES[9]);
    if(name == "u64") return fn.template operator()<U64>(TYPES[12]);
    if(name == "e01") return fn.template operator()<E01>(TYPES[10]);
    if(name == "s62") return fn.template operator()<S62>(TYPES[11]);
    return fn.template operator()<F32>(TYPES[0]);
}
inline const TypeInfo& type_info(const std::string& name)
{
    for(auto& t : TYPES)
        if(name == t.name) return t;
    return TYPES[0];
}
inline std::string gen_type(Rng& r)
{
    // the two predefined types carry half of the weight
    if(r.chance(1, 2)) return TYPES[r.below(2)].name;
    return TYPES[r.below(NTYPES)].name;
}

inline std::string i128s(i128 v)
{
    if(v == 0) return "0";
    bool neg = v < 0;
    u128 u = neg ? (u128)0 - (u128)v : (u128)v;
    std::string s;
    while(u) { s += (char)('0' + (int)(u % 10)); u /= 10; }
    if(neg) s += '-';
    std::reverse(s.begin(), s.end());
    return s;
}

// exact value of [-]int.frac, truncated toward zero to f fraction bits. false: does not fit.
inline bool ref_parse(const TypeInfo& t, bool neg, const std::string& ip, std::string fp, i128& raw)
{
    i128 v = 0;
    const i128 cap = (i128)1 << 70;
    for(char c : ip)
        if((v = v * 10 + (c - '0')) > cap) v = cap;
    if(v >= ((i128)1 << 66)) return false;
    i128 r = v;
    std::vector<int> d;
    for(char c : fp) d.push_back(c - '0');
    for(unsigned i = 0; i < t.f; ++i)
    {
        int carry = 0;
        for(size_t k = d.size(); k-- > 0;)
        {
            int x = d[k] * 2 + carry;
            d[k] = x % 10;
            carry = x / 10;
        }
        if(r > ((i128)1 << 120)) return false;
        r = r * 2 + carry;
    }
    if(neg) r = -r;
    if(r < t.min() || r > t.max()) return false;
    raw = r;
    return true;
}

// exact positional expansion in the given base (2, 8, 10, 16)
inline std::string ref_print(const TypeInfo& t, i128 raw, int base, bool upper)
{
    const char* dg = upper ? "0123456789ABCDEF" : "0123456789abcdef";
    std::string s;
    u128 u = raw < 0 ? (u128)0 - (u128)raw : (u128)raw;
    u128 ip = u >> t.f, fr = u & (((u128)1 << t.f) - 1);
    std::string is;
    do { is += dg[(int)(ip % base)]; ip /= base; } while(ip);
    std::reverse(is.begin(), is.end());
    if(raw < 0) s += '-';
    s += is;
    if(fr)
    {
        s += '.';
        while(fr)
        {
            fr *= (unsigned)base;
            s += dg[(int)(fr >> t.f)];
            fr &= ((u128)1 << t.f) - 1;
        }
    }
    return s;
}

// a stored value of the type: boundaries, powers of two, small, halves, random width
inline i128 gen_raw(Rng& r, const TypeInfo& t)
{
    const i128 one = (i128)1 << t.f;
    i128 v;
    switch(r.below(10))
    {
    case 0: v = r.chance(1, 2) ? t.min() + (i128)r.below(3) : t.max() - (i128)r.below(3); break;
    case 1: v = (i128)r.below(4) - (i128)r.below(4); break;
    case 2: v = ((i128)1 << r.below(t.bits)) * (r.chance(1, 2) ? 1 : -1) + (i128)r.range(-1, 1); break;
    case 3: v = one * (i128)r.range(-9, 9); break;
    case 4: v = one / 2 * (i128)r.range(-9, 9); break;
    case 5: v = one * (i128)r.range(-200, 200) + (i128)r.range(-1, 1); break;
    default:
        v = (i128)(r.next() >> (64 - 1 - r.below(t.bits)));
        if(r.chance(1, 2)) v = -v;
    }
    if(v < t.min() || v > t.max())
    {
        // wrap into range
        u128 m = ((u128)1 << t.bits) - 1;
        u128 w = (u128)v & m;
        v = (i128)w;
        if(t.is_signed && (w >> (t.bits - 1))) v -= (i128)1 << t.bits;
    }
    return v;
}

// decimal text of a numeral, aimed at the type's limits
inline std::string gen_numeral(Rng& r, const TypeInfo& t)
{
    auto digits = [&](size_t n) { std::string s; for(size_t i = 0; i < n; ++i) s += (char)('0' + r.below(10)); return s; };
    std::string s;
    switch(r.below(12))
    {
    case 0: case 1: case 2: // exact text of a representable value
    {
        s = ref_print(t, gen_raw(r, t), 10, false);
        if(r.chance(1, 4))
        { // nudge the last digit
            char& c = s.back();
            if(c >= '0' && c <= '9') c = (char)('0' + r.below(10));
        }
        return s;
    }
    case 3: // limits of the type, in and out of range
    {
        i128 lim = r.chance(1, 2) ? t.max() : t.min();
        s = ref_print(t, lim, 10, false);
        if(r.chance(1, 2)) s += digits(r.below(4));
        else if(r.chance(1, 2))
        {
            i128 ip = ((lim < 0 ? -lim : lim) >> t.f) + (i128)r.range(0, 2);
            s = (lim < 0 ? "-" : "") + i128s(ip);
            if(r.chance(1, 2)) s += "." + digits(1 + r.below(3));
        }
        return s;
    }
    case 4: // very long integral or fractional parts
    {
        const u64 x = r.chance(1, 12) ? 10 : 1; // some of them longer than any fixed-size buffer or one-byte counter
        if(r.chance(1, 2)) s += '-';
        if(r.chance(1, 2)) s += std::string(r.logu(60 * x), '0');
        s += digits(1 + (r.chance(1, 3) ? r.below(40 * x) : r.below(3)));
        s += '.';
        if(r.chance(1, 4)) s += std::string(r.logu(60 * x), r.chance(1, 2) ? '9' : '0');
        s += digits(r.logu(120 * x));
        return s;
    }
    case 5: // repeating 9s and tiny fractions
        if(r.chance(1, 2)) s += '-';
        s += r.chance(1, 2) ? "0" : digits(1);
        s += '.';
        s += std::string(r.logu(70), r.chance(1, 2) ? '9' : '0');
        s += digits(r.below(3));
        return s;
    case 6: // forms with missing parts
    {
        static const char* forms[] = {"5.", ".5", "-.25", "-7.", "-0", "0.0", "-0.0", "00", "-", ".", "-.", "0", "1.", "-0.00001525878906249"};
        return forms[r.below(14)];
    }
    default:
        if(r.chance(2, 5)) s += '-';
        s += digits(1 + r.below(t.bits - t.f > 17 ? 9 : 4));
        if(r.chance(3, 4)) s += "." + digits(r.logu(14));
        return s;
    }
}
} // namespace sim
