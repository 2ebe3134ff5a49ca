// C11: the buffer parsers on a reused receive buffer: short reads, damaged bytes, stale neighbours, guard pages.
// Real: f32_from_cstring, fixed_from_cstring, io::parse, run-time string literals.
// Simulated: the receive path (arrival in pieces, truncation, bit flips, reuse of the buffer) and the memory around it.
#include "common.hpp"
#include "ref.hpp"
#include <eirin/io/parse.hpp>

using namespace sim;

namespace
{
constexpr size_t PAGE = 4096;
char* g_buf;     // PAGE readable bytes between two inaccessible pages
char* g_stopbuf; // the same, for the stop character

char* guarded()
{
    char* p = static_cast<char*>(mmap(nullptr, 3 * PAGE, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
    if(p == MAP_FAILED || mprotect(p + PAGE, PAGE, PROT_READ | PROT_WRITE)) { perror("mmap"); exit(3); }
    return p + PAGE;
}

struct Scan
{
    bool neg = false, digits = false, whole = false;
    std::string ip, fp;
    size_t used = 0;
};
Scan scan(const std::string& s)
{
    Scan r;
    size_t i = 0;
    auto dig = [&] { return i < s.size() && s[i] >= '0' && s[i] <= '9'; };
    if(i < s.size() && s[i] == '-') { r.neg = true; ++i; }
    while(dig()) r.ip += s[i++];
    if(i < s.size() && s[i] == '.')
    {
        ++i;
        while(dig()) r.fp += s[i++];
    }
    r.digits = !r.ip.empty() || !r.fp.empty();
    r.used = i;
    r.whole = i == s.size();
    return r;
}

// numeric literals, evaluated at run time: the usual form (through an integer or a long double, so none of them may come
// closer to a representable number than that) and the form that takes its characters as template arguments
struct NumLit
{
    const char* text;
    long long (*eval)();
};
using namespace eirin::literals;
#define NL32(x) {#x, +[] { return (long long)(x##_f32).internal_value(); }}
#define NL64(x) {#x, +[] { return (long long)(x##_f64).internal_value(); }}
const NumLit lit32[] = {
    NL32(0), NL32(7), NL32(1.5), NL32(0.1), NL32(.75), NL32(3.), NL32(32767), NL32(32767.99999), NL32(0.0000152587890625), NL32(0.00001525), NL32(00012.250),
    NL32(123.456789012345678901234567890), NL32(9999.999969482421875), NL32(20000.0000305),
#define CH32(text, ...) {text, +[] { return (long long)operator""_f32<__VA_ARGS__>().internal_value(); }}
    CH32("12.5", '1', '2', '.', '5'), CH32("20000.0000305175781249999", '2', '0', '0', '0', '0', '.', '0', '0', '0', '0', '3', '0', '5', '1', '7', '5', '7', '8', '1', '2', '4', '9', '9', '9')
};
const NumLit lit64[] = {
    NL64(0), NL64(7), NL64(1.5), NL64(0.1), NL64(.75), NL64(3.), NL64(2147483647), NL64(2147483647.9999999999), NL64(0.00000000023283064365386962890625), NL64(0.0000000002328306),
    NL64(00012.250), NL64(123456.789012345678901234567890), NL64(99999999.0000000005), NL64(65536.5),
#define CH64(text, ...) {text, +[] { return (long long)operator""_f64<__VA_ARGS__>().internal_value(); }}
    CH64("12.5", '1', '2', '.', '5'), CH64("2147483647.99", '2', '1', '4', '7', '4', '8', '3', '6', '4', '7', '.', '9', '9')
};

template <class Fixed> void run(const Lines& script, const TypeInfo& t, Ctx& ctx)
{
    using V = typename Fixed::value_type;
    if(!g_buf) { g_buf = guarded(); g_stopbuf = guarded(); }
    unsigned dirt = 0;
    for(auto& l : script)
    {
        auto k = split(l);
        if(k.size() > 1 && k[0] == "!dirt") dirt = (unsigned)num(k, 1);
    }
    // what an earlier message may have left behind
    static const char stale[] = "90417.25-38";
    for(size_t i = 0; i < PAGE; ++i) g_buf[i] = dirt & 1 ? stale[(i * (1 + dirt % 7)) % 11] : (char)(dirt + (dirt & 2 ? i * 7 : 0));
    Fixed reg = Fixed::from_internal_value((V)(dirt * 77));
    i128 model = (i128)reg.internal_value();
    u64 opno = 0;
    for(auto& l : script)
    {
        if(ctx.bad()) return;
        auto k = split(l);
        if(k.empty() || k[0][0] == '!') continue;
        ++opno;
        ++ctx.ticks;
        const size_t off = (size_t)num(k, 1) % (PAGE + 1);
        if(k[0] == "W")
        {
            auto b = dec(tok(k, 2, "%%"));
            size_t n = 0;
            for(char32_t c : b)
                if(off + n < PAGE) g_buf[off + n++] = (char)c;
            ctx.ev("arrive %zu bytes at %zu", n, off);
            continue;
        }
        if(k[0] == "X")
        {
            if(off == PAGE) continue;
            g_buf[off] = (char)(g_buf[off] ^ (char)(1 + num(k, 2) % 255));
            ctx.fault("damaged_byte");
            continue;
        }
        if(k[0] == "N")
        {
            // a numeric literal of the program, in whatever state the receive path is
            const NumLit* tab = std::is_same_v<Fixed, F32> ? lit32 : std::is_same_v<Fixed, F64> ? lit64 : nullptr;
            if(!tab) continue;
            const NumLit& nl = tab[off % 16];
            dirty_stack((unsigned char)(dirt * 5 + opno));
            mark("numeric_literal");
            const i128 got = nl.eval();
            Scan s = scan(nl.text);
            i128 raw = 0;
            ref_parse(t, s.neg, s.ip, s.fp, raw);
            ctx.ev("literal %s raw=%s", nl.text, i128s(got).c_str());
            ctx.probe("numeric_literal");
            if(got != raw) { ctx.violate("wrong_value", fmt("op #%llu numeric literal %s of %s is %s expected %s", (unsigned long long)opno, nl.text, t.name, i128s(got).c_str(), i128s(raw).c_str())); return; }
            continue;
        }
        if(k[0] != "P") continue;
        const std::string how = tok(k, 3, "cstring");
        size_t len = (size_t)num(k, 2) % 1200;
        if(off + len > PAGE) len = PAGE - off;
        std::string text(g_buf + off, len);
        if(off + len == PAGE) ctx.fault("guard_page_after");
        else if(g_buf[off + len] >= '0' && g_buf[off + len] <= '9') ctx.fault("stale_digit_after");
        if(num(k, 4) & 2) ctx.fault("short_read");
        if(num(k, 4) & 4) ctx.fault("stale_bytes_inside");
        if(off == 0) ctx.fault("guard_page_before");
        const char* p = g_buf + off;
        Fixed before = reg;
        bool ok = false, have_pos = false;
        size_t pos = 0;
        bool strict = true; // the whole range must be a number
        bool zero_on_failure = false;
        std::string effective = text;
        dirty_stack((unsigned char)(dirt * 3 + opno));
        mark(how.c_str());
        if(how == "stop")
        {
            if constexpr(std::is_same_v<Fixed, F32>)
            {
                // the caller guarantees that the stop character occurs in its memory
                const char* stop;
                if(len == 0) continue;
                if(num(k, 4) & 1) { g_stopbuf[PAGE - 1] = p[len - 1]; stop = g_stopbuf + PAGE - 1; }
                else stop = p + len - 1;
                effective = text.substr(0, text.find(*stop));
                const char* r = eirin::io::parse(p, stop, reg);
                pos = (size_t)(r - p);
                have_pos = true;
                Scan s = scan(effective);
                ok = pos == effective.size() && (!effective.empty()) && s.whole; // decided below through the register as well
            }
            else continue;
        }
        else if(how == "view")
        {
            if constexpr(std::is_same_v<Fixed, F32>)
            {
                const char* r = eirin::io::parse(std::string_view(p, len), reg);
                pos = (size_t)(r - p);
                have_pos = true;
                ok = pos == len && len;
            }
            else continue;
        }
        else if(how == "f32")
        {
            if constexpr(std::is_same_v<Fixed, F32>) ok = eirin::f32_from_cstring(p, len, reg);
            else continue;
        }
        else if(how == "literal")
        {
            if constexpr(std::is_same_v<Fixed, F32>) reg = eirin::literals::operator""_f32(p, len);
            else if constexpr(std::is_same_v<Fixed, F64>) reg = eirin::literals::operator""_f64(p, len);
            else continue;
            zero_on_failure = true;
        }
        else
        {
            ok = eirin::fixed_from_cstring(p, len, reg);
            strict = false;
        }
        const i128 got = (i128)reg.internal_value();
        Scan s = scan(effective);
        const std::string where = fmt("op #%llu %s %s \"%s\"", (unsigned long long)opno, t.name, how.c_str(), showc(effective).c_str());
        i128 raw = 0;
        const bool fits = ref_parse(t, s.neg, s.ip, s.fp, raw);
        const bool good = s.digits && fits && (s.whole || !strict);
        ctx.ev("%s ok=%d pos=%zu raw=%s", how.c_str(), ok, pos, i128s(got).c_str());
        if(!s.digits && (s.whole || !strict))
        {
            // no digit at all: either a failure or the number zero, but nothing else
            if(got != model && got != 0) { ctx.violate("digits_from_nowhere", where + " stored " + i128s(got)); return; }
            const bool reported = have_pos ? pos == 0 && !effective.empty() : !zero_on_failure && !ok;
            if(reported && got != model) { ctx.violate("target_changed_on_failure", where + " register " + i128s(got) + " expected " + i128s(model)); return; }
            if(!reported && !effective.empty() && got != 0) { ctx.violate("failure_not_reported", where + " claimed success, register " + i128s(got)); return; }
            if(have_pos && pos != 0 && pos != effective.size()) { ctx.violate("wrong_position", where + fmt(" position %zu", pos)); return; }
            model = got;
            ctx.probe("no_digit");
            continue;
        }
        if(good)
        {
            ctx.probe("accepted");
            if(got != raw) { ctx.violate("wrong_value", where + " stored " + i128s(got) + " expected " + i128s(raw)); return; }
            if(!zero_on_failure && !ok) { ctx.violate("good_text_rejected", where + fmt(" position %zu", pos)); return; }
            model = raw;
        }
        else
        {
            ctx.probe(fits || !s.digits ? "malformed" : "out_of_range");
            const i128 want = zero_on_failure ? 0 : model;
            if(got != want) { ctx.violate(zero_on_failure ? "wrong_value" : "target_changed_on_failure", where + " register " + i128s(got) + " expected " + i128s(want)); return; }
            if(have_pos && pos != 0) { ctx.violate("failure_not_reported", where + fmt(" returned position %zu", pos)); return; }
            if(!have_pos && ok) { ctx.violate("failure_not_reported", where); return; }
            model = want;
        }
    }
}
} // namespace

void sim::generate(const std::string&, Rng& r, Lines& out)
{
    std::string type = r.chance(1, 3) ? "f32" : gen_type(r);
    const TypeInfo& t = type_info(type);
    out.push_back("!type " + type);
    out.push_back(fmt("!dirt %d", (int)r.below(256)));
    int n = 1 + (int)r.logu(10);
    for(int i = 0; i < n; ++i)
    {
        std::u32string msg;
        for(char c : gen_numeral(r, t)) msg += (char32_t)(unsigned char)c;
        if(r.chance(1, 40))
        {
            // long-winded: padded with zeros in front, or spelled out far beyond the precision
            const size_t n = r.chance(1, 2) ? 200 + r.below(120) : r.logu(500);
            const size_t dot = msg.find(U'.');
            if(r.chance(1, 2)) msg.insert(!msg.empty() && msg[0] == U'-' ? 1 : 0, n, U'0');
            else if(dot == std::u32string::npos) msg += U"." + std::u32string(n, (char32_t)('0' + r.below(10)));
            else msg += std::u32string(n, (char32_t)('0' + r.below(10)));
        }
        if(r.chance(1, 8))
        {
            static const char j[] = "abc +,:;eE\t\n/-.%";
            msg.insert(r.below(msg.size() + 1), 1, r.chance(1, 4) ? (char32_t)r.below(256) : (char32_t)j[r.below(16)]);
        }
        static const char* hows[] = {"cstring", "f32", "view", "stop", "literal"};
        std::string how = type == "f32" ? hows[r.below(5)] : type == "f64" && r.chance(1, 4) ? "literal" : "cstring";
        if(how == "stop")
        {
            static const char st[] = "a;, \n|x";
            msg += r.chance(1, 8) ? (char32_t) "0123456789.-"[r.below(12)] : r.chance(1, 6) ? 0 : (char32_t)st[r.below(7)];
        }
        size_t len = msg.size();
        const bool at_end = how != "stop" && r.chance(1, 6); // cut off by the end of the mapping
        const size_t cut = at_end ? (r.chance(1, 3) ? 0 : r.below(len + 1)) : 0;
        size_t off = at_end ? PAGE - cut : r.chance(1, 2) ? PAGE - len : r.chance(1, 4) ? 0 : r.below(PAGE - len);
        // arrival in pieces, any order
        std::vector<std::pair<size_t, std::u32string>> parts;
        size_t a = 0;
        while(a < len)
        {
            size_t m = r.chance(1, 2) ? len - a : 1 + r.below(len - a);
            parts.push_back({off + a, msg.substr(a, m)});
            a += m;
        }
        for(size_t k = parts.size(); k > 1; --k) std::swap(parts[k - 1], parts[r.below(k)]);
        for(auto& q : parts)
        {
            if(r.chance(1, 40)) continue; // lost piece: whatever was there before is parsed
            out.push_back(fmt("W %zu ", q.first) + enc(q.second));
        }
        if(r.chance(1, 10)) out.push_back(fmt("X %zu %d", off + r.below(len), (int)r.below(255)));
        size_t plen = len;
        int flags = (int)r.below(2);
        if(at_end) { plen = cut; flags |= 2; }
        else if(how != "stop")
        {
            if(r.chance(1, 6)) { plen = r.below(len + 1); flags |= 2; } // short read
            else if(r.chance(1, 12) && off + len < PAGE) { plen = len + r.below(8); flags |= 4; } // takes in stale bytes
        }
        out.push_back(fmt("P %zu %zu %s %d", off, plen, how.c_str(), flags));
        if(r.chance(1, 6)) out.push_back(fmt("P %zu %zu cstring", off, plen)); // parsed twice
        if((type == "f32" || type == "f64") && r.chance(1, 8)) out.push_back(fmt("N %d", (int)r.below(16)));
    }
}

void sim::execute(const std::string&, const Lines& script, Ctx& ctx)
{
    std::string type = "f32";
    for(auto& l : script)
    {
        auto k = split(l);
        if(k.size() > 1 && k[0] == "!type") type = k[1];
    }
    with_type(type, [&]<class Fixed>(const TypeInfo& t) { run<Fixed>(script, t, ctx); });
}

SIM_MAIN
