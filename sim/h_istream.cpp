// C01, C02: stream extraction against a simulated byte source.
// Real: operator>> of the library, std::basic_istream. Simulated: the device behind the stream (chunking, delays,
// transient end-of-input, read errors) and the reader's recovery actions.
#include "common.hpp"
#include "ref.hpp"
#include <istream>
#include <iterator>
#include <locale>
#include <streambuf>

using namespace sim;

namespace
{
struct DeviceError
{
    int code;
};

struct Atom
{
    enum Kind { Chunk, Eof, Err } kind;
    std::u32string data;
    int code = 0;
};

// a stream whose character traits are not the usual ones: its own end-of-file value and integer type
struct OddTraits : std::char_traits<char>
{
    using int_type = long;
    static constexpr int_type eof() noexcept { return 7777; }
    static constexpr int_type to_int_type(char c) noexcept { return -1 - (long)(unsigned char)c; }
    static constexpr char to_char_type(int_type i) noexcept { return (char)(unsigned char)(-1 - i); }
    static constexpr bool eq_int_type(int_type a, int_type b) noexcept { return a == b; }
    static constexpr int_type not_eof(int_type i) noexcept { return i == eof() ? to_int_type('?') : i; }
};

// The simulated device. Chunked: every underflow hands out one chunk in a recycled buffer. Unbuffered: one unit at a time.
template <class CharT, class Traits> struct SourceBuf : std::basic_streambuf<CharT, Traits>
{
    using Base = std::basic_streambuf<CharT, Traits>;
    using Tr = typename Base::traits_type;
    using int_type = typename Tr::int_type;
    std::vector<Atom> atoms;
    size_t at = 0, off = 0;
    u64 delivered = 0; // units handed to the get area (or consumed, when unbuffered)
    bool unbuffered = false;
    bool healed = false;
    u64 calls = 0;
    Ctx* ctx = nullptr;
    std::vector<CharT> buf;

    u64 consumed() const { return delivered - (u64)(this->egptr() - this->gptr()); }

    // skip empty chunks; false when the source cannot give a unit now
    bool ready()
    {
        for(;;)
        {
            if(at >= atoms.size()) return false;
            Atom& a = atoms[at];
            if(a.kind == Atom::Chunk)
            {
                if(off < a.data.size()) return true;
                ++at;
                off = 0;
                continue;
            }
            if(a.kind == Atom::Eof)
            {
                ctx->fault("transient_eof");
                return false; // sticky until the reader recovers
            }
            int code = a.code;
            ++at;
            ctx->fault("read_error");
            ctx->ev("device error %d", code);
            throw DeviceError{code};
        }
    }
    void heal()
    {
        if(this->gptr() < this->egptr()) return;
        while(at < atoms.size() && atoms[at].kind == Atom::Chunk && off >= atoms[at].data.size()) { ++at; off = 0; }
        if(at < atoms.size() && atoms[at].kind == Atom::Eof) ++at;
    }
    int_type underflow() override
    {
        if(++calls > 200000) { ctx->violate("livelock", "reader keeps polling the device"); throw DeviceError{99}; }
        ++ctx->ticks;
        if(this->gptr() < this->egptr()) return Tr::to_int_type(*this->gptr());
        if(!ready()) return Tr::eof();
        Atom& a = atoms[at];
        if(unbuffered) return Tr::to_int_type((CharT)a.data[off]);
        std::fill(buf.begin(), buf.end(), (CharT)'7'); // stale bytes look like digits
        buf.assign(a.data.size() - off + 4, (CharT)'7');
        size_t n = 0;
        for(; off < a.data.size(); ++off) buf[n++] = (CharT)a.data[off];
        delivered += n;
        ctx->fault("chunk_boundary");
        ctx->ev("chunk %zu", n);
        this->setg(buf.data(), buf.data(), buf.data() + n);
        return Tr::to_int_type(buf[0]);
    }
    int_type uflow() override
    {
        int_type c = underflow();
        if(Tr::eq_int_type(c, Tr::eof())) return c;
        if(unbuffered)
        {
            ++off;
            ++delivered;
        }
        else this->gbump(1);
        return c;
    }
    int_type pbackfail(int_type) override { return Tr::eof(); }
};

// ---- model of the device and of the stream state, from the text of the property
struct Model
{
    struct U { int kind; char32_t c; }; // 0 unit, 1 eof, 2 err
    std::vector<U> u;
    size_t pos = 0;
    u64 units = 0;
    bool fail = false, bad = false, eof = false;
    bool good() const { return !fail && !bad && !eof; }
    // 0 unit available, 1 eof, 2 error (consumed)
    int peek(char32_t& c)
    {
        if(pos >= u.size()) return 1;
        if(u[pos].kind == 0) { c = u[pos].c; return 0; }
        if(u[pos].kind == 1) return 1;
        ++pos;
        return 2;
    }
    void next() { ++pos; ++units; }
    void heal() { if(pos < u.size() && u[pos].kind == 1) ++pos; }
};

struct Expect
{
    bool fail = false, bad = false, hit_eof = false, device_error = false;
    bool stored = false; // target holds raw
    i128 raw = 0;
};

// what counts as white space is up to the stream's locale: readers of separated values declare their separators white space
bool is_ws(char32_t c, bool separators)
{
    if(separators) return c == ' ' || c == '\n' || c == ',' || c == ';';
    return c == ' ' || (c >= 9 && c <= 13);
}
struct SeparatorCtype : std::ctype<char>
{
    static const mask* table()
    {
        static mask m[table_size];
        std::copy(classic_table(), classic_table() + table_size, m);
        for(size_t i = 0; i < table_size; ++i) m[i] = is_ws((char32_t)i, true) ? (mask)(m[i] | space) : (mask)(m[i] & ~space);
        return m;
    }
    SeparatorCtype() : std::ctype<char>(table()) {}
};
struct SeparatorCtypeW : std::ctype<wchar_t>
{
    bool do_is(mask m, wchar_t c) const override
    {
        if((m & space) && is_ws((char32_t)c, true)) return true;
        return std::ctype<wchar_t>::do_is((mask)(m & ~space), c);
    }
};
const std::locale& separator_locale()
{
    static const std::locale* l = new std::locale(std::locale(std::locale::classic(), new SeparatorCtype), new SeparatorCtypeW);
    return *l;
}

Expect model_read(Model& m, const TypeInfo& t, bool skipws, bool separators)
{
    Expect e;
    char32_t c = 0;
    int k;
    auto eof = [&] { m.eof = true; e.hit_eof = true; };
    auto bad = [&] { m.bad = true; e.device_error = true; };
    auto done = [&]() -> Expect { e.fail = m.fail || m.bad; e.bad = m.bad; return e; };
    if(!m.good()) { m.fail = true; return done(); }
    if(skipws)
        for(;;)
        {
            k = m.peek(c);
            if(k == 1) { eof(); m.fail = true; return done(); }
            if(k == 2) { bad(); m.fail = true; return done(); }
            if(!is_ws(c, separators)) break;
            m.next();
        }
    bool neg = false;
    std::string ip, fp;
    auto look = [&]() -> int { k = m.peek(c); if(k == 1) eof(); if(k == 2) bad(); return k; };
    if(look() == 2) return done();
    if(k == 0 && c == '-') { neg = true; m.next(); if(look() == 2) return done(); }
    while(k == 0 && c >= '0' && c <= '9') { ip += (char)c; m.next(); if(look() == 2) return done(); }
    if(k == 0 && c == '.')
    {
        m.next();
        if(look() == 2) return done();
        while(k == 0 && c >= '0' && c <= '9') { fp += (char)c; m.next(); if(look() == 2) return done(); }
    }
    if(ip.empty() && fp.empty()) { m.fail = true; return done(); }
    i128 raw;
    if(!ref_parse(t, neg, ip, fp, raw)) { m.fail = true; return done(); }
    e.stored = true;
    e.raw = raw;
    return done();
}

template <class CharT, class Fixed, class Traits = std::char_traits<CharT>>
void run(const std::string& prop, const Lines& script, const TypeInfo& t, Ctx& ctx)
{
    SourceBuf<CharT, Traits> buf;
    buf.ctx = &ctx;
    Model m;
    bool skipws = true, hostile = false, separators = false;
    unsigned mask = 0, dirt = 0, flags = 0;
    int width = 0, tie = 0;
    for(auto& l : script)
    {
        auto k = split(l);
        if(k.empty()) continue;
        if(k[0] == "!buf") buf.unbuffered = tok(k, 1) == "unbuffered";
        else if(k[0] == "!skipws") skipws = num(k, 1);
        else if(k[0] == "!mask") mask = (unsigned)num(k, 1);
        else if(k[0] == "!locale") { hostile = num(k, 1) == 1; separators = num(k, 1) == 2; }
        else if(k[0] == "!flags") { flags = (unsigned)num(k, 1); width = (int)num(k, 2); }
        else if(k[0] == "!tie") tie = (int)(num(k, 1) % 6);
        else if(k[0] == "!dirt") dirt = (unsigned)num(k, 1);
        else if(k[0] == "D")
        {
            Atom a{Atom::Chunk, dec(tok(k, 1)), 0};
            for(auto& ch : a.data) if(sizeof(CharT) == 1) ch &= 0xFF;
            for(auto ch : a.data) m.u.push_back({0, ch});
            buf.atoms.push_back(a);
        }
        else if(k[0] == "E") { buf.atoms.push_back({Atom::Eof, {}, 0}); m.u.push_back({1, 0}); }
        else if(k[0] == "X") { buf.atoms.push_back({Atom::Err, {}, (int)num(k, 1)}); m.u.push_back({2, 0}); }
    }
    std::basic_istream<CharT, Traits> is(&buf);
    if(hostile) is.imbue(hostile_locale());
    else is.imbue(separators ? separator_locale() : std::locale::classic());
    if(separators) ctx.probe("separator_locale");
    TiedStream<CharT, Traits> tied(is, tie);
    if(tie) ctx.probe("tied_stream");
    if(!skipws) is.unsetf(std::ios_base::skipws);
    // settings meant for other types must not matter
    if(flags & 1) is.setf(std::ios_base::hex, std::ios_base::basefield);
    if(flags & 2) is.setf(std::ios_base::oct, std::ios_base::basefield);
    if(flags & 4) is.setf(std::ios_base::showbase | std::ios_base::boolalpha | std::ios_base::showpos | std::ios_base::uppercase);
    if(flags & 8) is.setf(std::ios_base::scientific, std::ios_base::floatfield);
    if(flags & 16) is.unsetf(std::ios_base::basefield);
    if(flags & 32) is.precision(1);
    if(flags) is.width(width);
    std::ios_base::iostate im = std::ios_base::goodbit;
    if(mask & 1) im |= std::ios_base::failbit;
    if(mask & 2) im |= std::ios_base::badbit;
    if(mask & 4) im |= std::ios_base::eofbit;
    is.exceptions(im);

    i128 sentinel = 12345 % ((i128)1 << (t.bits - 2));
    Fixed x = Fixed::from_internal_value((typename Fixed::value_type)sentinel);
    i128 cur = sentinel;
    u64 opno = 0;

    auto one_read = [&](auto&& action, int n) {
        // n extractions in one expression
        std::vector<Expect> es;
        for(int i = 0; i < n; ++i)
        {
            es.push_back(model_read(m, t, skipws, separators));
            // an exception out of the first extraction means the second never starts
            if(((mask & 1) && m.fail) || ((mask & 2) && m.bad) || ((mask & 4) && m.eof)) break;
        }
        bool thrown = false, thrown_device = false, thrown_other = false;
        dirty_stack((unsigned char)dirt);
        try { action(); }
        catch(const DeviceError&) { thrown = thrown_device = true; }
        catch(const std::ios_base::failure&) { thrown = true; }
        catch(...) { thrown = thrown_other = true; }
        const Expect& e = es.back();
        bool eofmask_hit = false;
        for(auto& q : es) if(q.hit_eof && (mask & 4)) eofmask_hit = true;
        // which states were reported
        bool f = (is.rdstate() & (std::ios_base::failbit | std::ios_base::badbit)) != 0, b = is.bad();
        i128 got = (i128)x.internal_value();
        ctx.ev("read#%llu fail=%d bad=%d thrown=%d value=%s consumed=%llu", (unsigned long long)opno, f, b, thrown, i128s(got).c_str(), (unsigned long long)buf.consumed());
        std::string where = fmt("read #%llu type=%s", (unsigned long long)opno, t.name);
        i128 want = cur;
        bool any_store = false;
        for(auto& q : es) if(q.stored) { want = q.raw; any_store = true; }
        if(thrown_other) return ctx.violate("wrong_exception", where + " threw an exception that is neither the device's nor a stream failure");
        if(eofmask_hit)
        {
            // the stream itself throws while looking for the end of the numeral: the value may or may not have been stored
            ctx.probe("eof_mask");
            bool ok = got == cur;
            for(auto& q : es) if(q.stored && got == q.raw) ok = true;
            if(!ok) return ctx.violate("garbage_value", where + " left " + i128s(got) + ", expected old or new value " + i128s(want));
            if(!thrown) return ctx.violate("exception_missing", where + " reached end of input with eofbit in the mask and did not throw");
            cur = got;
            return;
        }
        if(e.fail != f)
            return ctx.violate(e.fail ? "failure_not_reported" : "spurious_failure", where + fmt(" expected fail=%d got %d (value %s, expected %s)", e.fail, f, i128s(got).c_str(), i128s(want).c_str()));
        if(m.eof != is.eof())
            return ctx.violate(m.eof ? "eof_not_reported" : "spurious_eof", where + fmt(" expected eof=%d got %d", m.eof, is.eof()));
        if(e.bad != b) return ctx.violate(e.bad ? "error_not_reported" : "spurious_error", where + fmt(" expected bad=%d got %d", e.bad, b));
        if(got != want)
            return ctx.violate(any_store ? "wrong_value" : "target_modified", where + " holds " + i128s(got) + " expected " + i128s(want));
        bool want_throw = (is.rdstate() & im) != 0;
        if(want_throw && !thrown) return ctx.violate("exception_missing", where + fmt(" state=%d mask=%u but no exception", (int)is.rdstate(), mask));
        if(!want_throw && thrown) return ctx.violate("spurious_exception", where + fmt(" state=%d mask=%u", (int)is.rdstate(), mask));
        if(thrown_device && !e.device_error) return ctx.violate("spurious_exception", where + " device exception without device error");
        cur = want;
        if(buf.consumed() != m.units)
            return ctx.violate("wrong_position", where + fmt(" consumed %llu units in total, expected %llu", (unsigned long long)buf.consumed(), (unsigned long long)m.units));
    };

    for(auto& l : script)
    {
        if(ctx.bad()) return;
        auto k = split(l);
        if(k.empty() || k[0][0] == '!') continue;
        if(k[0] == "R")
        {
            ++opno;
            mark("extract");
            one_read([&] { is >> x; }, 1);
        }
        else if(k[0] == "RR")
        {
            ++opno;
            mark("extract_chain");
            // both land in the same target
            one_read([&] { is >> x >> x; }, 2);
            ctx.probe("chained");
        }
        else if(k[0] == "C")
        {
            // the reader recovers: the device has more to say and the error state is cleared
            try { is.clear(); } catch(...) {}
            buf.heal();
            m.heal();
            m.fail = m.bad = m.eof = false;
            ctx.ev("recover");
        }
        else if(k[0] == "F")
        {
            // somebody else marked the stream failed before we read
            try { is.setstate(std::ios_base::failbit); } catch(const std::ios_base::failure&) {}
            m.fail = true;
            ctx.fault("stream_already_failed");
        }
        else if(k[0] == "G")
        {
            // consume one unit by other means
            char32_t c = 0;
            if(!m.good()) continue;
            int pk = m.peek(c);
            if(pk == 0) m.next();
            else if(pk == 1) { m.eof = m.fail = true; }
            else m.bad = true;
            try { is.get(); } catch(...) {}
            ctx.ev("get state=%d", (int)is.rdstate());
        }
        else if(k[0] == "W") { ctx.ticks += (u64)num(k, 1); ctx.fault("delay"); }
    }
    // drain: what is left in the device must be exactly what the model has left
    mark("drain");
    try { is.exceptions(std::ios_base::goodbit); is.clear(); } catch(...) {}
    std::u32string rest, want;
    for(size_t guard = 0; guard < 100000; ++guard)
    {
        try
        {
            auto c = buf.sgetc();
            if(Traits::eq_int_type(c, Traits::eof()))
            {
                if(buf.at >= buf.atoms.size()) break;
                buf.heal();
                continue;
            }
            rest += (char32_t)(std::make_unsigned_t<CharT>)Traits::to_char_type(c);
            buf.sbumpc();
        }
        catch(const DeviceError&) {}
    }
    for(; m.pos < m.u.size(); ++m.pos) if(m.u[m.pos].kind == 0) want += m.u[m.pos].c;
    if(rest != want) ctx.violate("wrong_rest", "left unread \"" + show(rest) + "\" expected \"" + show(want) + "\"");
    ctx.ev("rest %s", show(rest).c_str());
}
} // namespace

void sim::generate(const std::string& prop, Rng& r, Lines& out)
{
    const bool faults = prop == "C02";
    std::string type = gen_type(r);
    const TypeInfo& t = type_info(type);
    const bool wide = r.chance(1, 3);
    out.push_back("!type " + type);
    out.push_back(std::string("!char ") + (wide ? "w" : r.chance(1, 6) ? "t" : "c"));
    out.push_back(std::string("!buf ") + (r.chance(1, 3) ? "unbuffered" : "chunk"));
    const bool skipws = !r.chance(1, 6);
    out.push_back(fmt("!skipws %d", skipws));
    out.push_back(fmt("!locale %d", r.chance(1, 4) ? 1 : r.chance(1, 8) ? 2 : 0));
    out.push_back(fmt("!dirt %d", (int)r.below(256)));
    if(faults) out.push_back(fmt("!mask %d", r.chance(1, 2) ? (int)r.below(8) : (int)r.below(4) * (int)r.below(2)));
    if(r.chance(1, 4)) out.push_back(fmt("!flags %d %d", (int)r.below(64), r.chance(1, 2) ? (int)r.below(4) : 0));
    if(r.chance(1, 6)) out.push_back(fmt("!tie %d", 1 + (int)r.below(5)));
    std::u32string text;
    const int n = 1 + (int)r.logu(9);
    auto ws = [&] { static const char w[] = " \t\n\r\v\f"; std::u32string s; for(u64 i = 0, k = 1 + r.logu(5); i < k; ++i) s += (char32_t)w[r.below(6)]; return s; };
    auto junk = [&]() -> std::u32string {
        static const char j[] = ",;:+-.eExXabZ%/_\"";
        std::u32string s;
        for(u64 i = 0, k = 1 + r.below(3); i < k; ++i)
        {
            if(r.chance(1, 5)) s += wide ? (char32_t)(r.chance(1, 3) ? (r.chance(1, 2) ? 0x100 : 0x10000) + "0123456789.- "[r.below(13)] : r.chance(1, 2) ? 0x661 : 0xFF10 + r.below(10)) : (char32_t)(0x80 + r.below(0x80));
            else if(r.chance(1, 12)) s += (char32_t)0;
            else s += (char32_t)j[r.below(17)];
        }
        return s;
    };
    for(int i = 0; i < n; ++i)
    {
        if(i || r.chance(1, 3)) text += ws();
        if(r.chance(1, faults ? 5 : 12)) text += junk();
        std::string q = gen_numeral(r, t);
        for(char c : q) text += (char32_t)(unsigned char)c;
        if(r.chance(1, 5)) text += junk();
    }
    if(r.chance(1, 2)) text += ws();
    // cut into chunks and put the faults between them, biased to land inside numerals
    size_t pos = 0;
    u64 big = r.chance(1, 4) ? 200 : (r.chance(1, 3) ? 1 : 6);
    while(pos < text.size())
    {
        size_t len = 1 + r.logu(big);
        out.push_back("D " + enc(text.substr(pos, len)));
        pos += len;
        if(r.chance(1, 10)) out.push_back(fmt("W %d", (int)r.logu(1000)));
        if(r.chance(1, faults ? 8 : 10)) out.push_back("E");
        if(faults && r.chance(1, 10)) out.push_back(fmt("X %d", (int)r.below(6)));
    }
    int reads = n + (int)r.below(4);
    for(int i = 0; i < reads; ++i)
    {
        if(faults && r.chance(1, 20)) out.push_back("F");
        out.push_back(r.chance(1, 8) ? "RR" : "R");
        if(faults ? r.chance(2, 3) : r.chance(3, 5)) out.push_back("C");
        if(r.chance(1, 5)) out.push_back("G");
        if(r.chance(1, 8)) out.push_back("C");
        if(!skipws && r.chance(1, 2)) out.push_back("G");
    }
}

void sim::execute(const std::string& prop, const Lines& script, Ctx& ctx)
{
    std::string type = "f32";
    bool wide = false, odd = false;
    for(auto& l : script)
    {
        auto k = split(l);
        if(k.size() > 1 && k[0] == "!type") type = k[1];
        if(k.size() > 1 && k[0] == "!char") wide = k[1] == "w", odd = k[1] == "t";
    }
    with_type(type, [&]<class Fixed>(const TypeInfo& t) {
        if(wide) run<wchar_t, Fixed>(prop, script, t, ctx);
        else if(odd)
        {
            ctx.probe("custom_traits");
            if constexpr(std::is_same_v<Fixed, F32> || std::is_same_v<Fixed, F64> || std::is_same_v<Fixed, I16>) run<char, Fixed, OddTraits>(prop, script, t, ctx);
            else run<char, F64, OddTraits>(prop, script, type_info("f64"), ctx);
        }
        else run<char, Fixed>(prop, script, t, ctx);
    });
}

SIM_MAIN
