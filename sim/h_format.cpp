// C05: formatting under allocation failure, failing output iterators, rejected specifications and re-entrancy.
// Real: std::formatter specialisation and fixed_num_formatter of the library, std::format of libstdc++.
// Simulated: the allocator, the output iterator, the order of use of a long-lived formatter.
#include "common.hpp"
#include "alloc.hpp"
#include "ref.hpp"
#include <eirin/io/format.hpp>
#include <optional>

using namespace sim;

namespace
{
struct DeviceError
{
    int code;
};

struct Spec
{
    char32_t fill = ' ';
    char align = 0, sign = '-';
    bool alt = false, zero = false;
    int width = 0, prec = -1;
    char type = 'g';
};

// the documented grammar: [[fill]align][sign][#][0][width][.precision][type]
std::optional<Spec> parse_spec(const std::u32string& s)
{
    Spec p;
    size_t i = 0;
    auto al = [](char32_t c) { return c == '<' || c == '>' || c == '^'; };
    if(s.size() > 1 && al(s[1])) { p.fill = s[0]; p.align = (char)s[1]; i = 2; }
    else if(!s.empty() && al(s[0])) { p.align = (char)s[0]; i = 1; }
    if(i < s.size() && (s[i] == '+' || s[i] == '-' || s[i] == ' ')) p.sign = (char)s[i++];
    if(i < s.size() && s[i] == '#') { p.alt = true; ++i; }
    if(i < s.size() && s[i] == '0') { p.zero = true; ++i; }
    auto number = [&](int& v) {
        i64 w = 0;
        while(i < s.size() && s[i] >= '0' && s[i] <= '9') w = std::min<i64>(w * 10 + (int)(s[i++] - '0'), (i64)1 << 40);
        v = (int)w;
        return w <= 0x7FFFFFFF; // no room for it
    };
    if(!number(p.width)) return std::nullopt;
    if(i < s.size() && s[i] == '.')
    {
        ++i;
        if(!number(p.prec)) return std::nullopt;
    }
    if(i < s.size())
    {
        if(std::u32string(U"gGfFdxXobB?").find(s[i]) == std::u32string::npos) return std::nullopt;
        p.type = (char)s[i++];
    }
    if(i != s.size()) return std::nullopt;
    return p;
}

std::u32string ref_format(const TypeInfo& t, i128 raw, const Spec& p)
{
    auto digits = [](u128 v, int base, bool up) {
        const char* d = up ? "0123456789ABCDEF" : "0123456789abcdef";
        std::string s;
        do { s += d[(int)(v % base)]; v /= base; } while(v);
        std::reverse(s.begin(), s.end());
        return s;
    };
    const bool neg = raw < 0;
    const u128 mag = neg ? (u128)0 - (u128)raw : (u128)raw;
    std::string prefix, body;
    if(neg) prefix = "-";
    else if(p.sign != '-') prefix = std::string(1, p.sign);
    int base = 0;
    switch(p.type)
    {
    case 'x': case 'X': base = 16; break;
    case 'd': base = 10; break;
    case 'o': base = 8; break;
    case 'b': case 'B': base = 2; break;
    }
    if(p.type == '?')
    {
        if(p.alt) prefix += "0x";
        body = digits(mag, 16, false);
    }
    else if(base)
    {
        const bool up = p.type == 'X' || p.type == 'B';
        if(p.alt) prefix += base == 16 ? (up ? "0X" : "0x") : base == 2 ? (up ? "0B" : "0b") : base == 8 ? "0" : "";
        body = digits(mag >> t.f, base, up);
    }
    else
    {
        body = digits(mag >> t.f, 10, false);
        u128 fr = mag & (((u128)1 << t.f) - 1);
        const int want = p.prec < 0 ? 6 : p.prec;
        std::string fs;
        while(fr && (int)fs.size() < want)
        {
            fr *= 10;
            fs += (char)('0' + (int)(fr >> t.f));
            fr &= ((u128)1 << t.f) - 1;
        }
        if(p.type == 'f' || p.type == 'F')
            while((int)fs.size() < want) fs += '0';
        if(!fs.empty()) body += "." + fs;
    }
    if(p.zero && (int)(prefix.size() + body.size()) < p.width) body = std::string((size_t)p.width - prefix.size() - body.size(), '0') + body;
    std::string s = prefix + body;
    std::u32string r;
    for(char c : s) r += (char32_t)c;
    if((int)r.size() < p.width)
    {
        size_t pad = (size_t)p.width - r.size(), left = p.align == '<' ? 0 : p.align == '^' ? pad / 2 : pad;
        r = std::u32string(left, p.fill) + r + std::u32string(pad - left, p.fill);
    }
    return r;
}

template <class C> std::basic_string<C> conv(const std::u32string& s)
{
    std::basic_string<C> r;
    for(auto c : s) r += (C)c;
    return r;
}
template <class C> std::basic_string<C> lit(const char* s)
{
    std::basic_string<C> r;
    while(*s) r += (C)(unsigned char)*s++;
    return r;
}

template <class C> struct FaultyIter
{
    using iterator_category = std::output_iterator_tag;
    using value_type = void;
    using difference_type = std::ptrdiff_t;
    using pointer = void;
    using reference = void;
    struct Shared
    {
        C buf[65536];
        size_t n = 0;
        i64 left = -1;
        void (*nested)(void*) = nullptr;
        void* arg = nullptr;
        i64 nested_at = -1;
    };
    Shared* s = nullptr;
    FaultyIter& operator*() { return *this; }
    FaultyIter& operator++() { return *this; }
    FaultyIter operator++(int) { return *this; }
    FaultyIter& operator=(C c)
    {
        if(s->left == 0) throw DeviceError{3};
        if(s->left > 0) --s->left;
        if(s->nested && s->nested_at-- == 0) { auto n = s->nested; s->nested = nullptr; n(s->arg); }
        if(s->n < 65536) s->buf[s->n++] = c;
        return *this;
    }
    std::basic_string<C> str() const { return std::basic_string<C>(s->buf, s->n); }
};

template <class C> using ctx_of = std::conditional_t<std::is_same_v<C, char>, std::format_context, std::wformat_context>;
template <class C> auto args_of(auto&... a)
{
    if constexpr(std::is_same_v<C, char>) return std::make_format_args(a...);
    else return std::make_wformat_args(a...);
}

template <class C, class Fixed> void run(const Lines& script, const TypeInfo& t, Ctx& ctx)
{
    using Str = std::basic_string<C>;
    using View = std::basic_string_view<C>;
    using V = typename Fixed::value_type;
    static typename FaultyIter<C>::Shared sh;
    std::formatter<Fixed, C> reused; // a long-lived formatter
    Spec reused_spec;
    u64 opno = 0;
    unsigned dirt = 0;
    for(auto& l : script)
    {
        auto k = split(l);
        if(k.size() > 1 && k[0] == "!dirt") dirt = (unsigned)num(k, 1);
    }
    const bool alien = (dirt & 6) == 6; // the caller passes a locale of its own, which the grammar has no use for
    g_alloc.junk = (unsigned char)(dirt * 7 + 1);
    for(auto& l : script)
    {
        if(ctx.bad()) return;
        auto k = split(l);
        if(k.empty() || k[0][0] == '!') continue;
        ++opno;
        const i128 raw = (i128)(V)snum(k, 1);
        const Fixed v = Fixed::from_internal_value((V)raw);
        const std::u32string spec32 = dec(tok(k, 2, "%%"));
        auto parsed = parse_spec(spec32);
        const Str spec = conv<C>(spec32);
        const i64 arg = num(k, 3);
        std::string where = fmt("op #%llu {:%s} raw %s (%s)", (unsigned long long)opno, show(spec32).c_str(), i128s(raw).c_str(), t.name);
        Str want = parsed ? conv<C>(ref_format(t, raw, *parsed)) : Str();
        enum { None, Alloc, Dev, Format, Other } caught = None;
        char fmsg[100] = {};
        auto guard = [&](auto&& fn) {
            caught = None;
            try { fn(); }
            catch(const std::bad_alloc&) { caught = Alloc; }
            catch(const DeviceError&) { caught = Dev; }
            catch(const std::format_error& e) { caught = Format; strncpy(fmsg, e.what(), sizeof fmsg - 1); }
            catch(...) { caught = Other; }
        };
        auto judge = [&](const Str& got, bool faulted, const Str& expect) {
            // complete or reported, nothing in between
            if(!parsed)
            {
                if(caught != Format && caught != Dev && !(faulted && caught == Alloc)) ctx.violate("bad_spec_accepted", where + fmt(" caught=%d", caught));
                return;
            }
            if(faulted) return;
            if(caught != None) return ctx.violate("spurious_exception", where + fmt(" caught=%d %s without a fault", caught, fmsg));
            if(got != expect) ctx.violate("wrong_text", where + " gave \"" + showc(got) + "\" expected \"" + showc(expect) + "\"");
        };
        dirty_stack((unsigned char)dirt);
        if(k[0] == "V")
        {
            mark("vformat");
            Str fs = lit<C>("<{:") + spec + lit<C>("}>");
            Str out;
            long failed, live0 = g_alloc.live;
            {
                Str r;
                const long before = g_alloc.live;
                AllocArm a(arg, false);
                guard([&] { r = alien ? std::vformat(hostile_locale(), View(fs), args_of<C>(v)) : std::vformat(View(fs), args_of<C>(v)); });
                a.disarm();
                failed = g_alloc.failed;
                // a call that gives up must not lose memory; keeping some for later (a cache) is not a loss, growing every time is
                bool lost = caught != None && g_alloc.live > before;
                for(int again = 0; again < 3 && lost; ++again)
                {
                    const auto first = caught;
                    const long b2 = g_alloc.live;
                    AllocArm a2(arg, false);
                    guard([&] { r = alien ? std::vformat(hostile_locale(), View(fs), args_of<C>(v)) : std::vformat(View(fs), args_of<C>(v)); });
                    a2.disarm();
                    lost = caught != None && g_alloc.live > b2;
                    caught = first;
                }
                if(lost) { ctx.violate("leak", where + fmt(" failed calls leak, %ld blocks so far", g_alloc.live - before)); return; }
                out = r;
            }
            if(failed) ctx.fault("alloc_failure");
            ctx.ev("vformat caught=%d len=%zu failed=%ld", caught, out.size(), failed);
            if(failed && caught == None) { if(out != lit<C>("<") + want + lit<C>(">")) ctx.violate("wrong_text", where + " wrong text after a failed allocation"); }
            else if(failed && caught != Alloc && parsed) { ctx.violate("wrong_exception", where); return; }
            judge(out, failed != 0, lit<C>("<") + want + lit<C>(">"));
            if(failed && !ctx.bad())
            {
                // memory is back: the same call must now be complete
                guard([&] { out = std::vformat(View(fs), args_of<C>(v)); });
                judge(out, false, lit<C>("<") + want + lit<C>(">"));
            }
            (void)live0;
        }
        else if(k[0] == "B")
        {
            mark("vformat_to_string");
            Str fs = lit<C>("{:") + spec + lit<C>("}");
            Str out = lit<C>("pre");
            AllocArm a(arg, num(k, 4));
            guard([&] { if(alien) std::vformat_to(std::back_inserter(out), hostile_locale(), View(fs), args_of<C>(v)); else std::vformat_to(std::back_inserter(out), View(fs), args_of<C>(v)); });
            a.disarm();
            const long failed = g_alloc.failed;
            if(failed) ctx.fault(num(k, 4) ? "alloc_failure_persistent" : "alloc_failure");
            ctx.ev("vformat_to caught=%d len=%zu failed=%ld", caught, out.size(), failed);
            Str full = lit<C>("pre") + want;
            if(failed && caught != Alloc && caught != None && parsed) { ctx.violate("wrong_exception", where); return; }
            if(parsed && (out.size() > full.size() || full.compare(0, out.size(), out) != 0 || out.size() < 3)) { ctx.violate("not_a_prefix", where + " left \"" + showc(out) + "\""); return; }
            if(failed && caught == None && out != full) { ctx.violate("silent_truncation", where + " allocation failed, no exception, text \"" + showc(out) + "\""); return; }
            judge(out, failed != 0, full);
        }
        else if(k[0] == "T" || k[0] == "R")
        {
            mark("vformat_to_iterator");
            Str fs = lit<C>("{:") + spec + lit<C>("}");
            sh.n = 0;
            sh.left = k[0] == "T" ? arg : -1;
            struct Nest { Fixed v; Str want, fs; Ctx* ctx; } nest{Fixed::from_internal_value((V)snum(k, 4)), {}, lit<C>("{:+.12f}"), &ctx};
            sh.nested = nullptr;
            if(k[0] == "R")
            {
                Spec q;
                q.sign = '+';
                q.prec = 12;
                q.type = 'f';
                nest.want = conv<C>(ref_format(t, (i128)nest.v.internal_value(), q));
                sh.nested_at = arg;
                sh.arg = &nest;
                sh.nested = [](void* p) {
                    auto n = static_cast<Nest*>(p);
                    n->ctx->fault("reentrant_format");
                    Str got = std::vformat(View(n->fs), args_of<C>(n->v));
                    if(got != n->want) n->ctx->violate("wrong_text", "nested format gave " + showc(got) + " expected " + showc(n->want));
                };
            }
            FaultyIter<C> it{&sh};
            guard([&] { std::vformat_to(it, View(fs), args_of<C>(v)); });
            Str out = it.str();
            ctx.ev("vformat_to(iter) caught=%d len=%zu", caught, out.size());
            const bool must = parsed && k[0] == "T" && arg >= 0 && (u64)arg < want.size();
            if(must)
            {
                ctx.fault("iterator_throws");
                if(caught != Dev) { ctx.violate("failure_not_reported", where + fmt(" output failed at %lld but caught=%d", (long long)arg, caught)); return; }
                if(out.size() > want.size() || want.compare(0, out.size(), out) != 0) ctx.violate("not_a_prefix", where + " left \"" + showc(out) + "\"");
            }
            else judge(out, false, want);
        }
        else if(k[0] == "F")
        {
            // the stand-alone formatter class writing straight into a failing iterator
            mark("fixed_num_formatter");
            if(!parsed) continue;
            using Fmt = eirin::io::fixed_num_formatter<C, typename Fixed::value_type, typename Fixed::intermediate_type, Fixed::precision, std::is_same_v<Fixed, R32> || std::is_same_v<Fixed, R64>>;
            Fmt f;
            typename Fmt::state_type st;
            st.align_mode = parsed->align;
            st.sign_mode = parsed->sign;
            st.alt_form = parsed->alt;
            st.zero_pad = parsed->zero;
            st.width_val = parsed->width;
            st.precision = parsed->prec;
            st.type = parsed->type;
            st.fill_ch = (C)parsed->fill;
            f.set_state(st);
            for(int round = 0; round < 2; ++round)
            {
                sh.n = 0;
                sh.left = round ? -1 : arg;
                sh.nested = nullptr;
                FaultyIter<C> it{&sh};
                const long live0 = g_alloc.live;
                guard([&] { f.format_to(it, v); });
                bool lost = g_alloc.live > live0;
                Str out = it.str();
                for(int again = 0; again < 3 && lost; ++again)
                {
                    const auto first = caught;
                    const long b2 = g_alloc.live;
                    sh.n = 0;
                    sh.left = round ? -1 : arg;
                    guard([&] { f.format_to(it, v); });
                    lost = g_alloc.live > b2;
                    caught = first;
                }
                if(lost) { ctx.violate("leak", where + " formatter leaks memory"); return; }
                ctx.ev("formatter caught=%d len=%zu", caught, out.size());
                const bool must = sh.left == 0 && (u64)arg < want.size() && !round;
                if(must)
                {
                    ctx.fault("iterator_throws");
                    if(caught != Dev) { ctx.violate("failure_not_reported", where); return; }
                    if(out != want.substr(0, (size_t)arg)) { ctx.violate("not_a_prefix", where + " wrote \"" + showc(out) + "\""); return; }
                }
                else judge(out, false, want);
                if(ctx.bad()) return;
            }
            // an iterator that is nothing but a position: the caller's array, sized for the text
            std::vector<C> room(want.size() + 8, (C)'\x7e');
            C* last = nullptr;
            guard([&] { last = f.format_to(room.data() + 4, v); });
            if(caught != None || last != room.data() + 4 + want.size() || !std::equal(want.begin(), want.end(), room.begin() + 4) ||
               std::count(room.begin(), room.begin() + 4, (C)'\x7e') != 4 || std::count(room.end() - 4, room.end(), (C)'\x7e') != 4)
            {
                ctx.violate("wrong_text", where + fmt(" written through a pointer: caught=%d, %ld characters \"", caught, last ? (long)(last - room.data() - 4) : -1L) + showc(Str(room.data() + 4, want.size())) + "\" expected \"" + showc(want) + "\"");
                return;
            }
            const auto& s2 = f.get_state();
            if(s2.align_mode != st.align_mode || s2.sign_mode != st.sign_mode || s2.alt_form != st.alt_form || s2.zero_pad != st.zero_pad || s2.width_val != st.width_val || s2.precision != st.precision || s2.type != st.type || s2.fill_ch != st.fill_ch)
                ctx.violate("formatter_state_changed", where);
        }
        else if(k[0] == "G")
        {
            // stand-alone formatters, one used while another is in the middle of its output, both into iterators of one type
            mark("fixed_num_formatter_nested");
            if(!parsed) continue;
            using Fmt = eirin::io::fixed_num_formatter<C, typename Fixed::value_type, typename Fixed::intermediate_type, Fixed::precision, std::is_same_v<Fixed, R32> || std::is_same_v<Fixed, R64>>;
            static typename FaultyIter<C>::Shared sh2;
            auto setup = [](Fmt& f, const Spec& p) {
                typename Fmt::state_type st;
                st.align_mode = p.align;
                st.sign_mode = p.sign;
                st.alt_form = p.alt;
                st.zero_pad = p.zero;
                st.width_val = p.width;
                st.precision = p.prec;
                st.type = p.type;
                st.fill_ch = (C)p.fill;
                f.set_state(st);
            };
            struct Nest { Fmt f; Fixed v; Str want; Ctx* ctx; i64 left; Str got; bool failed; } nest{};
            Spec q;
            q.sign = num(k, 5) & 1 ? '+' : '-';
            q.prec = num(k, 5) & 2 ? 12 : -1;
            q.type = "gfxd"[(num(k, 5) >> 2) & 3];
            q.width = num(k, 5) & 16 ? 30 : 0;
            q.fill = '*';
            nest.v = Fixed::from_internal_value((V)snum(k, 4));
            nest.want = conv<C>(ref_format(t, (i128)nest.v.internal_value(), q));
            nest.ctx = &ctx;
            nest.left = num(k, 5) & 32 ? (i64)(nest.want.size() / 2) : -1;
            setup(nest.f, q);
            Fmt f;
            setup(f, *parsed);
            sh.n = 0;
            sh.left = -1;
            sh.nested_at = arg;
            sh.arg = &nest;
            sh.nested = [](void* p) {
                auto n = static_cast<Nest*>(p);
                n->ctx->fault("reentrant_formatter");
                sh2.n = 0;
                sh2.left = n->left;
                sh2.nested = nullptr;
                FaultyIter<C> in{&sh2};
                try { n->f.format_to(in, n->v); }
                catch(const DeviceError&) { n->failed = true; }
                n->got = in.str();
                const Str expect = n->left < 0 ? n->want : n->want.substr(0, (size_t)n->left);
                if(n->got != expect || n->failed != (n->left >= 0)) n->ctx->violate("wrong_text", "nested formatter wrote " + showc(n->got) + " expected " + showc(expect));
            };
            FaultyIter<C> it{&sh};
            guard([&] { f.format_to(it, v); });
            sh.nested = nullptr;
            Str out = it.str();
            ctx.ev("nested formatter caught=%d len=%zu", caught, out.size());
            if(!ctx.bad()) judge(out, false, want);
        }
        else if(k[0] == "L")
        {
            // long-lived std::formatter: parse (maybe rejected), then format with what was last accepted
            mark("formatter_history");
            Str text = spec + lit<C>("}");
            std::basic_format_parse_context<C> pc{View(text)};
            bool rejected = false;
            typename std::basic_format_parse_context<C>::iterator end{};
            try { end = reused.parse(pc); }
            catch(const std::format_error&) { rejected = true; ctx.fault("spec_rejected"); }
            if(!rejected && !(end != pc.end() && *end == (C)'}')) rejected = true; // std::format rejects the rest
            if(!rejected != parsed.has_value()) { ctx.violate(rejected ? "good_spec_rejected" : "bad_spec_accepted", where); return; }
            if(parsed) reused_spec = *parsed;
            else
            {
                // accepted a prefix or nothing: start over from a known specification, as callers must
                if(end != typename std::basic_format_parse_context<C>::iterator{}) { reused = {}; reused_spec = Spec{}; continue; }
            }
            Str expect = conv<C>(ref_format(t, raw, reused_spec)), out;
            sh.n = 0;
            sh.left = -1;
            sh.nested = nullptr;
            out = lit<C>("");
            {
                // std::formatter::format needs a context whose out() we own
                struct MiniCtx
                {
                    using iterator = std::back_insert_iterator<Str>;
                    Str* s;
                    iterator out() { return std::back_inserter(*s); }
                } mc{&out};
                guard([&] { reused.format(v, mc); });
            }
            ctx.ev("history rejected=%d caught=%d len=%zu", rejected, caught, out.size());
            if(caught != None) { ctx.violate("spurious_exception", where); return; }
            if(out != expect) { ctx.violate("wrong_text", where + (rejected ? " after a rejected specification" : "") + " gave \"" + showc(out) + "\" expected \"" + showc(expect) + "\""); return; }
            ctx.probe(rejected ? "format_after_rejection" : "format_history");
        }
        else if(k[0] == "M")
        {
            // two numbers in one call, one allocation may fail
            mark("vformat_two");
            const i128 raw2 = (i128)(V)snum(k, 3);
            const Fixed v2 = Fixed::from_internal_value((V)raw2);
            const std::u32string spec2 = dec(tok(k, 4, "%%"));
            auto p2 = parse_spec(spec2);
            if(!parsed || !p2) continue;
            Str fs = lit<C>("{1:") + conv<C>(spec2) + lit<C>("}|{0:") + spec + lit<C>("}|{1:") + conv<C>(spec2) + lit<C>("}");
            Str w2 = conv<C>(ref_format(t, raw2, *p2));
            Str expect = w2 + lit<C>("|") + want + lit<C>("|") + w2, out;
            AllocArm a(num(k, 5), false);
            guard([&] { out = std::vformat(View(fs), args_of<C>(v, v2)); });
            a.disarm();
            if(g_alloc.failed) ctx.fault("alloc_failure");
            ctx.ev("two caught=%d len=%zu", caught, out.size());
            if(g_alloc.failed && caught == None && out != expect) { ctx.violate("silent_truncation", where); return; }
            judge(out, g_alloc.failed != 0, expect);
        }
        else if(k[0] == "N")
        {
            mark("format_to_n");
            if(!parsed) continue;
            const size_t lim = (size_t)(arg & 63);
            C buf[65];
            for(C& c : buf) c = (C)'Z';
            size_t total = 0, fsz = 0, wrote = 0;
            Str fres, fs = lit<C>("{:") + spec + lit<C>("}");
            // a format string that is checked at run time only: a library that refuses it must fail here, not when the harness is compiled
            const auto rt = std::bit_cast<std::basic_format_string<C, const Fixed&>>(View(fs));
            guard([&] {
                auto r = std::format_to_n(buf, (std::ptrdiff_t)lim, rt, v);
                total = (size_t)r.size;
                wrote = (size_t)(r.out - buf);
                fsz = std::formatted_size(rt, v);
                fres = std::format(rt, v);
            });
            ctx.ev("n caught=%d total=%zu", caught, total);
            Str got(buf, wrote < 65 ? wrote : 65);
            bool clean = true;
            for(size_t i = lim; i < 65; ++i) clean = clean && buf[i] == (C)'Z';
            if(caught != None || total != want.size() || fsz != want.size() || fres != want || got != want.substr(0, lim) || !clean)
                ctx.violate("wrong_text", where + fmt(" format_to_n(%zu) caught=%d gave \"%s\" total %zu size %zu, expected \"%s\"", lim, caught, showc(got).c_str(), total, fsz, showc(want).c_str()));
            ctx.fault("short_buffer", lim < want.size());
        }
    }
}
} // namespace

static std::string gen_spec(Rng& r, bool bad, bool wide = false)
{
    std::u32string s;
    if(r.chance(1, 6)) return "%%";
    if(r.chance(1, 3))
    {
        static const char f[] = "*_ 0x<>^#+-.9";
        if(wide && r.chance(1, 3)) s += (char32_t)(0xA0 + r.below(0xD000));
        else if(r.chance(2, 3)) s += (char32_t)f[r.below(13)];
        s += (char32_t) "<>^"[r.below(3)];
    }
    if(r.chance(1, 3)) s += (char32_t) "+- "[r.below(3)];
    if(r.chance(1, 3)) s += '#';
    if(r.chance(1, 3)) s += '0';
    // numbers that need more than an int come out small again when they wrap
    auto huge = [&](u64 small) { return r.chance(1, 2) ? (1 + r.below(9)) * ((u64)1 << 32) + small : ((u64)1 << 31) + r.below((u64)1 << 33); };
    const int big = bad && r.chance(1, 3) ? 1 + (int)r.below(2) : 0;
    if(big == 1 || r.chance(1, 2)) for(char c : std::to_string(big == 1 ? huge(r.below(20)) : 1 + (r.chance(1, 10) ? r.below(r.chance(1, 4) ? 2000 : 300) : r.below(40)))) s += (char32_t)c;
    if(big == 2 || r.chance(1, 2)) { s += '.'; for(char c : std::to_string(big == 2 ? huge(r.below(20)) : r.chance(1, 8) ? r.below(r.chance(1, 4) ? 1000 : 200) : r.below(20))) s += (char32_t)c; }
    if(r.chance(4, 5)) s += (char32_t) "gGfFdxXobB?ff"[r.below(13)];
    if(bad && !big)
    {
        static const char b[] = "eaLsc%zq0#+.<";
        s.insert(r.below(s.size() + 1), 1, (char32_t)b[r.below(13)]);
    }
    return s.empty() ? "%%" : enc(s);
}

void sim::generate(const std::string&, Rng& r, Lines& out)
{
    std::string type = gen_type(r);
    const TypeInfo& t = type_info(type);
    out.push_back("!type " + type);
    const bool wide = r.chance(1, 4);
    out.push_back(std::string("!char ") + (wide ? "w" : "c"));
    out.push_back(fmt("!dirt %d", (int)r.below(256)));
    int n = 1 + (int)r.logu(12);
    for(int i = 0; i < n; ++i)
    {
        std::string raw = i128s(gen_raw(r, t)), sp = gen_spec(r, r.chance(1, 8), wide);
        switch(r.below(9))
        {
        case 0: case 1: out.push_back("V " + raw + " " + sp + fmt(" %d", r.chance(2, 3) ? 1 + (int)r.logu(6) : 0)); break;
        case 2: out.push_back("B " + raw + " " + sp + fmt(" %d %d", r.chance(2, 3) ? 1 + (int)r.logu(6) : 0, (int)r.below(2))); break;
        case 3: out.push_back("T " + raw + " " + sp + fmt(" %d", (int)r.logu(40))); break;
        case 4: out.push_back("R " + raw + " " + sp + fmt(" %d ", (int)r.logu(12)) + i128s(gen_raw(r, t))); break;
        case 5: out.push_back("F " + raw + " " + sp + fmt(" %d", (int)r.logu(40))); break;
        case 8: out.push_back("G " + raw + " " + sp + fmt(" %d ", (int)r.logu(12)) + i128s(gen_raw(r, t)) + fmt(" %d", (int)r.below(64))); break;
        case 6: out.push_back("L " + raw + " " + (r.chance(1, 3) ? gen_spec(r, true, wide) : sp)); break;
        default:
            if(r.chance(1, 2)) out.push_back("M " + raw + " " + sp + " " + i128s(gen_raw(r, t)) + " " + gen_spec(r, false, wide) + fmt(" %d", r.chance(1, 2) ? 1 + (int)r.logu(6) : 0));
            else out.push_back("N " + raw + " " + gen_spec(r, false, wide) + fmt(" %d", (int)r.below(64)));
        }
    }
}

void sim::execute(const std::string&, const Lines& script, Ctx& ctx)
{
    std::string type = "f32";
    bool wide = false;
    hostile_locale(); // made before allocations are counted
    for(auto& l : script)
    {
        auto k = split(l);
        if(k.size() > 1 && k[0] == "!type") type = k[1];
        if(k.size() > 1 && k[0] == "!char") wide = k[1] == "w";
    }
    with_type(type, [&]<class Fixed>(const TypeInfo& t) {
        if(wide) run<wchar_t, Fixed>(script, t, ctx);
        else run<char, Fixed>(script, t, ctx);
    });
}

SIM_MAIN
