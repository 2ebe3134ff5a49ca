// C03: stream insertion into a failing sink.  C04: acknowledged values on a crashing disk.
// Real: operator<<, operator>>, copy_as_chars_to, the text parsers and the formatter of the library, std::ostream/istream.
// Simulated: the sink, the disk (page cache, fsync, torn tails, full disk, I/O errors, power loss) and the journaling node.
#include "common.hpp"
#include "ref.hpp"
#include <eirin/io/format.hpp>
#include <eirin/io/parse.hpp>
#include <locale>
#include <map>
#include <memory>
#include <ostream>
#include <sstream>
#include <streambuf>

using namespace sim;

namespace
{
struct DeviceError
{
    int code;
};

struct Sink : std::streambuf
{
    std::string device;
    std::vector<char> area;
    Ctx* ctx = nullptr;
    i64 fail_after = -1; // units until the device fails
    bool fail_throws = false, fail_sticky = false;
    int sync_fail = 0; // 1 returns an error, 2 throws; once
    u64 fired = 0, calls = 0;
    void (*nested)(void*) = nullptr;
    void* nested_arg = nullptr;
    i64 nested_at = -1;

    explicit Sink(size_t cap) : area(cap) { reset(); }
    void reset()
    {
        if(!area.empty()) setp(area.data(), area.data() + area.size());
        else setp(nullptr, nullptr);
    }
    std::string pending() const { return std::string(pbase() ? pbase() : "", (size_t)(pptr() - pbase())); }
    std::string all() const { return device + pending(); }

    // false or throw: the device refused the unit
    bool put(char c)
    {
        ++ctx->ticks;
        if(++calls > 500000) { ctx->violate("livelock", "writer keeps writing"); throw DeviceError{99}; }
        if(nested && nested_at >= 0 && nested_at-- == 0)
        {
            ctx->fault("reentrant_insertion");
            auto n = nested;
            nested = nullptr;
            n(nested_arg);
        }
        if(fail_after == 0)
        {
            ++fired;
            if(!fail_sticky) fail_after = -1;
            ctx->fault(fail_throws ? "sink_throws" : "sink_error");
            ctx->ev("sink fails after %zu", device.size());
            if(fail_throws) throw DeviceError{1};
            return false;
        }
        if(fail_after > 0) --fail_after;
        device += c;
        return true;
    }
    bool drain()
    {
        size_t n = (size_t)(pptr() - pbase()), i = 0;
        auto keep = [&] {
            std::memmove(area.data(), area.data() + i, n - i);
            reset();
            pbump((int)(n - i));
        };
        try
        {
            for(; i < n; ++i)
                if(!put(area[i])) { keep(); return false; }
        }
        catch(...)
        {
            keep();
            throw;
        }
        reset();
        return true;
    }
    int_type overflow(int_type c) override
    {
        if(!area.empty() && !drain()) return traits_type::eof();
        if(traits_type::eq_int_type(c, traits_type::eof())) return traits_type::not_eof(c);
        if(area.empty()) return put(traits_type::to_char_type(c)) ? c : traits_type::eof();
        *pptr() = traits_type::to_char_type(c);
        pbump(1);
        return c;
    }
    int sync() override
    {
        ++ctx->ticks;
        if(!area.empty() && !drain()) return -1;
        if(sync_fail)
        {
            int m = sync_fail;
            sync_fail = 0;
            ++fired;
            ctx->fault(m == 2 ? "sync_throws" : "sync_error");
            ctx->ev("sync fails");
            if(m == 2) throw DeviceError{2};
            return -1;
        }
        return 0;
    }
};

struct ThrowingIter
{
    using iterator_category = std::output_iterator_tag;
    using value_type = void;
    using difference_type = std::ptrdiff_t;
    using pointer = void;
    using reference = void;
    std::string* out;
    i64* left;
    ThrowingIter& operator*() { return *this; }
    ThrowingIter& operator++() { return *this; }
    ThrowingIter operator++(int) { return *this; }
    ThrowingIter& operator=(char c)
    {
        if(*left == 0) throw DeviceError{3};
        if(*left > 0) --*left;
        out->push_back(c);
        return *this;
    }
};

int base_of(int b) { return b == 16 || b == 8 || b == 2 ? b : 10; }

template <class Fixed> void run_c03(const Lines& script, const TypeInfo& t, Ctx& ctx)
{
    size_t cap = 0;
    bool hostile = false, unit = false;
    int tie = 0;
    unsigned mask = 0, dirt = 0;
    for(auto& l : script)
    {
        auto k = split(l);
        if(k.empty()) continue;
        if(k[0] == "!cap") cap = (size_t)num(k, 1) % 4096;
        else if(k[0] == "!mask") mask = (unsigned)num(k, 1);
        else if(k[0] == "!locale") hostile = num(k, 1);
        else if(k[0] == "!tie") tie = (int)(num(k, 1) % 6);
        else if(k[0] == "!unit") unit = num(k, 1);
        else if(k[0] == "!dirt") dirt = (unsigned)num(k, 1);
    }
    Sink sink(cap);
    sink.ctx = &ctx;
    std::ostream os(&sink);
    os.imbue(hostile ? hostile_locale() : std::locale::classic());
    TiedStream<char, std::char_traits<char>> tied(os, tie);
    if(tie) ctx.probe("tied_stream");
    if(unit) { os.setf(std::ios_base::unitbuf); ctx.probe("unit_buffered"); }
    std::ios_base::iostate im = std::ios_base::goodbit;
    if(mask & 1) im |= std::ios_base::failbit;
    if(mask & 2) im |= std::ios_base::badbit;
    if(mask & 4) im |= std::ios_base::eofbit;
    os.exceptions(im);
    std::string model; // everything the device and its buffer must hold
    u64 opno = 0;

    struct Nest
    {
        Fixed v;
        const TypeInfo* t;
        int base;
        Ctx* ctx;
    } nest{Fixed::from_internal_value(0), &t, 10, &ctx};

    for(auto& l : script)
    {
        if(ctx.bad()) return;
        auto k = split(l);
        if(k.empty() || k[0][0] == '!') continue;
        if(k[0] == "S")
        {
            sink.fail_after = num(k, 1);
            sink.fail_throws = num(k, 2);
            sink.fail_sticky = num(k, 3);
        }
        else if(k[0] == "Y") sink.sync_fail = 1 + (int)(num(k, 1) & 1);
        else if(k[0] == "H")
        {
            // the operator repairs the sink and the writer clears its stream
            sink.fail_after = -1;
            sink.sync_fail = 0;
            sink.reset();
            try { os.clear(); } catch(...) {}
            model = sink.all();
            ctx.ev("heal");
        }
        else if(k[0] == "N")
        {
            nest.v = Fixed::from_internal_value((typename Fixed::value_type)snum(k, 1));
            nest.base = base_of((int)num(k, 2));
            sink.nested_at = num(k, 3);
            sink.nested_arg = &nest;
            sink.nested = [](void* p) {
                auto n = static_cast<Nest*>(p);
                std::ostringstream o;
                o.setf(n->base == 16 ? std::ios_base::hex : n->base == 8 ? std::ios_base::oct : n->base == 10 ? std::ios_base::dec : std::ios_base::fmtflags(), std::ios_base::basefield);
                o << n->v;
                std::string want = ref_print(*n->t, (i128)n->v.internal_value(), n->base, false);
                if(o.str() != want) n->ctx->violate("wrong_text", "nested insertion gave " + o.str() + " expected " + want);
            };
        }
        else if(k[0] == "F")
        {
            try { os.setstate(std::ios_base::failbit); } catch(...) {}
            ctx.fault("stream_already_failed");
        }
        else if(k[0] == "T")
        {
            mark("text");
            if(!os.good()) continue;
            u64 f0 = sink.fired;
            auto txt = tok(k, 1, "x");
            try { os.write(txt.data(), (std::streamsize)txt.size()); } catch(...) {}
            if(sink.fired == f0 && os.good()) model += txt;
            else model = sink.all();
        }
        else if(k[0] == "O")
        {
            ++opno;
            mark("insert");
            i128 raw = (i128)(typename Fixed::value_type)snum(k, 1);
            int base = base_of((int)num(k, 2));
            bool upper = num(k, 3);
            os.setf(base == 16 ? std::ios_base::hex : base == 8 ? std::ios_base::oct : base == 10 ? std::ios_base::dec : std::ios_base::fmtflags(), std::ios_base::basefield);
            if(upper) os.setf(std::ios_base::uppercase);
            else os.unsetf(std::ios_base::uppercase);
            if(num(k, 4) & 1) os.setf(std::ios_base::showbase | std::ios_base::showpos);
            else os.unsetf(std::ios_base::showbase | std::ios_base::showpos);
            os.setf(num(k, 4) & 4 ? std::ios_base::scientific : num(k, 4) & 8 ? std::ios_base::floatfield : std::ios_base::fmtflags(), std::ios_base::floatfield);
            os.setf(num(k, 4) & 8 ? std::ios_base::internal : num(k, 4) & 4 ? std::ios_base::left : std::ios_base::fmtflags(), std::ios_base::adjustfield);
            if(num(k, 4) & 16) os.setf(std::ios_base::showpoint | std::ios_base::boolalpha);
            else os.unsetf(std::ios_base::showpoint | std::ios_base::boolalpha);
            os.width(0);
            os.fill('*');
            os.precision(3 + (int)(num(k, 4) & 3));
            const auto flags = os.flags();
            const auto prec = os.precision();
            const std::string text = ref_print(t, raw, base, upper);
            Fixed v = Fixed::from_internal_value((typename Fixed::value_type)raw);
            const bool was_good = os.good();
            const u64 f0 = sink.fired;
            bool thrown = false, other = false;
            dirty_stack((unsigned char)dirt);
            try { os << v; }
            catch(const DeviceError&) { thrown = true; }
            catch(const std::ios_base::failure&) { thrown = true; }
            catch(...) { thrown = other = true; }
            const bool fired = sink.fired != f0;
            std::string where = fmt("insertion #%llu of raw %s (%s) base %d", (unsigned long long)opno, i128s(raw).c_str(), t.name, base);
            std::string got = sink.all();
            ctx.ev("insert good=%d fired=%d thrown=%d len=%zu", os.good(), fired, thrown, got.size());
            if((i128)v.internal_value() != raw) { ctx.violate("operand_modified", where); return; }
            if(os.flags() != flags || os.precision() != prec || os.fill() != '*' || os.width() != 0 || os.exceptions() != im)
            {
                ctx.violate("format_state_changed", where + fmt(" flags %x -> %x", (unsigned)flags, (unsigned)os.flags()));
                return;
            }
            if(other) { ctx.violate("wrong_exception", where); return; }
            if(!was_good)
            {
                if(got != model) ctx.violate("wrote_to_failed_stream", where + " device got " + got);
                continue;
            }
            if(!fired)
            {
                if(got != model + text) { ctx.violate("wrong_text", where + " wrote \"" + got.substr(std::min(got.size(), model.size())) + "\" expected \"" + text + "\""); return; }
                if(!os.good() || thrown) { ctx.violate("spurious_failure", where + fmt(" state %d thrown %d", (int)os.rdstate(), thrown)); return; }
                model = got;
                ctx.probe("clean_insert");
            }
            else
            {
                std::string full = model + text;
                // one-shot faults: everything from the refused unit on must be missing
                if(full.compare(0, got.size(), got) != 0 || got.size() > full.size())
                {
                    ctx.violate("not_a_prefix", where + " device holds \"" + got + "\" which is no prefix of \"" + full + "\"");
                    return;
                }
                if(os.good()) { ctx.violate("failure_not_reported", where + " sink failed but the stream is good"); return; }
                bool want_throw = (os.rdstate() & im) != 0;
                if(want_throw != thrown) { ctx.violate(want_throw ? "exception_missing" : "spurious_exception", where + fmt(" state %d mask %u", (int)os.rdstate(), mask)); return; }
                model = got;
                ctx.probe("failed_insert");
            }
        }
        else if(k[0] == "K")
        {
            ++opno;
            mark("copy_as_chars_to");
            i128 raw = (i128)(typename Fixed::value_type)snum(k, 1);
            int base = base_of((int)num(k, 2));
            bool upper = num(k, 3);
            i64 left = num(k, 4) >= 0 && num(k, 5) ? num(k, 4) : -1;
            const std::string text = ref_print(t, raw, base, upper);
            const bool must_throw = left >= 0 && (u64)left < text.size();
            std::string out;
            bool thrown = false;
            Fixed v = Fixed::from_internal_value((typename Fixed::value_type)raw);
            dirty_stack((unsigned char)dirt);
            i64 lim = left;
            try { Fixed::copy_as_chars_to(v, ThrowingIter{&out, &lim}, base, upper); }
            catch(const DeviceError&) { thrown = true; ctx.fault("iterator_throws"); }
            ctx.ev("copy thrown=%d len=%zu", thrown, out.size());
            std::string want = must_throw ? text.substr(0, (size_t)left) : text;
            if(thrown != must_throw || out != want) { ctx.violate("wrong_text", fmt("copy_as_chars_to raw %s (%s) base %d gave \"%s\" thrown %d, expected \"%s\"", i128s(raw).c_str(), t.name, base, out.c_str(), thrown, want.c_str())); return; }
            if(left < 0)
            {
                // into plain memory: the returned position is the end of the text, and nothing behind it is touched
                std::vector<char> mem(text.size() + 8, '\x55');
                char* end = Fixed::copy_as_chars_to(v, mem.data(), base, upper);
                const size_t n = (size_t)(end - mem.data());
                if(n != text.size() || text.compare(0, n, mem.data(), n) != 0 || std::string(mem.data() + n, 8) != std::string(8, '\x55'))
                {
                    ctx.violate("wrong_text", fmt("copy_as_chars_to of raw %s (%s) base %d into memory ends at %zu, expected \"%s\"", i128s(raw).c_str(), t.name, base, n, text.c_str()));
                    return;
                }
            }
        }
    }
}

// ------------------------------------------------------------------------------------------------ C04
struct PowerLoss
{};

struct Disk
{
    Ctx* ctx = nullptr;
    std::string durable, cached; // of the file being appended to
    i64 space = -1;              // bytes until ENOSPC; -1 unlimited
    i64 power = -1;              // device operations until power loss; -1 never
    int sync_errors = 0;
    bool dead = false;

    void op()
    {
        ++ctx->ticks;
        if(dead) throw PowerLoss{};
        if(power == 0) { dead = true; power = -1; ctx->fault("power_loss_mid_write"); throw PowerLoss{}; }
        if(power > 0) --power;
    }
    bool write(char c)
    {
        op();
        if(space == 0) { ctx->fault("disk_full"); return false; }
        if(space > 0) --space;
        cached += c;
        return true;
    }
    bool sync()
    {
        op();
        if(sync_errors > 0) { --sync_errors; ctx->fault("fsync_error"); return false; }
        durable += cached;
        cached.clear();
        return true;
    }
};

struct FileBuf : std::streambuf
{
    Disk* d;
    std::vector<char> area;
    FileBuf(Disk* disk, size_t cap) : d(disk), area(cap)
    {
        if(cap) setp(area.data(), area.data() + cap);
    }
    bool pending() const { return pptr() != pbase(); }
    bool drain()
    {
        for(char* p = pbase(); p != pptr(); ++p)
            if(!d->write(*p)) return false;
        if(!area.empty()) setp(area.data(), area.data() + area.size());
        return true;
    }
    int_type overflow(int_type c) override
    {
        if(!area.empty() && !drain()) return traits_type::eof();
        if(traits_type::eq_int_type(c, traits_type::eof())) return traits_type::not_eof(c);
        if(area.empty()) return d->write(traits_type::to_char_type(c)) ? c : traits_type::eof();
        *pptr() = traits_type::to_char_type(c);
        pbump(1);
        return c;
    }
    int sync() override { return (area.empty() || drain()) && d->sync() ? 0 : -1; }
};

struct ReadBuf : std::streambuf
{
    const std::string& s;
    size_t at = 0, chunk;
    i64 err_at; // chunk number at which a read error strikes
    Ctx* ctx;
    std::string cur;
    ReadBuf(const std::string& str, size_t c, i64 e, Ctx* x) : s(str), chunk(c ? c : 1), err_at(e), ctx(x) {}
    int_type underflow() override
    {
        ++ctx->ticks;
        if(err_at == 0) { err_at = -1; ctx->fault("read_error"); throw DeviceError{5}; }
        if(err_at > 0) --err_at;
        if(at >= s.size()) return traits_type::eof();
        cur = s.substr(at, chunk);
        at += cur.size();
        setg(cur.data(), cur.data(), cur.data() + cur.size());
        return traits_type::to_int_type(cur[0]);
    }
};

template <class Fixed> struct Node
{
    using V = typename Fixed::value_type;
    const TypeInfo& t;
    Ctx& ctx;
    size_t cap, rchunk;
    std::string writer, reader;
    unsigned dirt;
    Disk disk;
    std::unique_ptr<FileBuf> fb;
    std::unique_ptr<std::ostream> os;
    std::map<int, Fixed> mem;    // what the node believes
    std::map<int, i128> acked;   // what clients were told
    u64 seq = 0, acked_seq = 0;
    bool up = true;
    i64 read_err = -1;
    u64 torn = 0; // how much of the cached tail survives the next unplanned crash

    Node(const TypeInfo& ti, Ctx& c) : t(ti), ctx(c) {}

    void open()
    {
        fb = std::make_unique<FileBuf>(&disk, cap);
        os = std::make_unique<std::ostream>(fb.get());
        os->imbue(std::locale::classic());
    }
    void put(std::ostream& o, int key, u64 s, const Fixed& v)
    {
        o << '\n' << key << ' ' << s << ' ';
        dirty_stack((unsigned char)dirt);
        if(writer == "format") o << std::vformat("{:.64f}", std::make_format_args(v)) << std::flush;
        else if(writer == "copy")
        {
            if(!o.good()) return;
            try
            {
                if(Fixed::copy_as_chars_to(v, std::ostreambuf_iterator<char>(o)).failed()) o.setstate(std::ios_base::badbit);
            }
            catch(const PowerLoss&) { o.setstate(std::ios_base::badbit); }
            o << std::flush;
        }
        else o << v; // nothing after it: the insertion itself hands the value to the device
    }
    void set(int key, i128 raw)
    {
        if(!up && !recover()) return;
        Fixed v = Fixed::from_internal_value((V)raw);
        const u64 s = ++seq;
        put(*os, key, s, v);
        if(os->good() && !disk.dead)
        {
            acked[key] = raw;
            acked_seq = s;
            mem.insert_or_assign(key, v);
            ctx.ev("set %d acked", key);
            ctx.probe("acked");
        }
        else
        {
            ctx.ev("set %d not acked", key);
            ctx.probe("not_acked");
            crash(torn);
        }
    }
    void crash(u64 torn)
    {
        // power comes back: durable bytes and an arbitrary prefix of the cached ones are on the platter
        size_t keep = disk.cached.empty() ? 0 : (size_t)(torn % (disk.cached.size() + 1));
        if(!disk.cached.empty()) ctx.fault(keep ? "torn_tail" : "lost_tail");
        if(fb && fb->pending()) ctx.fault("lost_buffer");
        disk.durable += disk.cached.substr(0, keep);
        disk.cached.clear();
        disk.dead = false;
        disk.power = -1;
        os.reset();
        fb.reset();
        mem.clear();
        up = false;
        ctx.fault("crash");
        ctx.ev("crash keep=%zu size=%zu", keep, disk.durable.size());
    }
    bool parse_value(std::istream& is, Fixed& v, bool& stop)
    {
        if(reader == "stream") { is >> v; return !is.fail(); }
        std::string w;
        is >> w;
        if(is.bad()) return false;
        if(reader == "cstring") return eirin::fixed_from_cstring(w.data(), w.size(), v);
        if(reader == "literal")
        {
            // the run-time form of the string literals: a failed parse gives zero
            if constexpr(std::is_same_v<Fixed, F32>) { v = eirin::literals::operator""_f32(w.data(), w.size()); return true; }
            if constexpr(std::is_same_v<Fixed, F64>) { v = eirin::literals::operator""_f64(w.data(), w.size()); return true; }
        }
        if constexpr(std::is_same_v<Fixed, F32>)
        {
            if(reader == "f32") return eirin::f32_from_cstring(w.data(), w.size(), v);
            return eirin::io::parse(std::string_view(w), v) == w.data() + w.size();
        }
        return eirin::fixed_from_cstring(w.data(), w.size(), v);
    }
    bool recover()
    {
        std::map<int, Fixed> got;
        std::map<int, u64> gotseq;
        {
            ReadBuf rb(disk.durable, rchunk, read_err, &ctx);
            read_err = -1;
            std::istream is(&rb);
            is.imbue(std::locale::classic());
            for(;;)
            {
                int key = 0;
                u64 s = 0;
                is >> key >> s;
                if(is.bad()) { ctx.ev("recovery hits a read error"); return false; }
                if(is.fail()) break; // end of file, or a torn header
                if(is.peek() != ' ')
                {
                    if(is.bad()) { ctx.ev("recovery hits a read error"); return false; }
                    ctx.probe("torn_header");
                    break;
                }
                const bool committed = s <= acked_seq;
                Fixed v = Fixed::from_internal_value((V)77);
                bool stop = false;
                bool ok = parse_value(is, v, stop);
                if(is.bad()) { ctx.ev("recovery hits a read error"); return false; }
                if(committed)
                {
                    if(!ok) { ctx.violate("unreadable_value", fmt("acknowledged record seq %llu key %d cannot be read back", (unsigned long long)s, key)); return false; }
                    got.insert_or_assign(key, v);
                    gotseq[key] = s;
                }
                else { ctx.probe("in_doubt_record"); break; }
            }
        }
        for(auto& [key, raw] : acked)
        {
            auto it = got.find(key);
            if(it == got.end()) { ctx.violate("acknowledged_value_lost", fmt("key %d acknowledged as raw %s is gone after the crash", key, i128s(raw).c_str())); return false; }
            if((i128)it->second.internal_value() != raw)
            {
                ctx.violate("acknowledged_value_changed", fmt("key %d acknowledged as raw %s came back as %s (%s)", key, i128s(raw).c_str(), i128s((i128)it->second.internal_value()).c_str(), t.name));
                return false;
            }
        }
        ctx.probe("recovered");
        ctx.ev("recovered %zu", got.size());
        mem = got;
        for(auto it = mem.begin(); it != mem.end();) it = acked.count(it->first) ? std::next(it) : mem.erase(it);
        return compact();
    }
    bool compact()
    {
        // write a new file, sync it, switch over atomically
        Disk fresh;
        fresh.ctx = &ctx;
        fresh.space = disk.space;
        fresh.power = disk.power;
        fresh.sync_errors = disk.sync_errors;
        auto nb = std::make_unique<FileBuf>(&fresh, cap);
        auto no = std::make_unique<std::ostream>(nb.get());
        no->imbue(std::locale::classic());
        for(auto& [key, v] : mem)
            if(no->good()) put(*no, key, 0, v);
        no->flush();
        const bool ok = no->good() && !fresh.dead;
        disk.power = fresh.power;
        disk.space = fresh.space;
        disk.sync_errors = fresh.sync_errors;
        if(!ok)
        {
            ctx.ev("compaction failed");
            if(fresh.dead) { disk.dead = false; }
            os.reset();
            fb.reset();
            mem.clear();
            up = false;
            return false;
        }
        disk.durable = fresh.durable;
        disk.cached.clear();
        os.reset();
        fb.reset();
        open();
        up = true;
        ctx.probe("compacted");
        return true;
    }
};

template <class Fixed> void run_c04(const Lines& script, const TypeInfo& t, Ctx& ctx)
{
    Node<Fixed> n(t, ctx);
    n.cap = 16;
    n.rchunk = 7;
    n.writer = "stream";
    n.reader = "stream";
    n.dirt = 0;
    n.disk.ctx = &ctx;
    for(auto& l : script)
    {
        auto k = split(l);
        if(k.size() < 2) continue;
        if(k[0] == "!cap") n.cap = (size_t)num(k, 1) % 5000;
        else if(k[0] == "!rchunk") n.rchunk = 1 + (size_t)num(k, 1) % 4096;
        else if(k[0] == "!writer") n.writer = k[1];
        else if(k[0] == "!reader") n.reader = k[1];
        else if(k[0] == "!dirt") n.dirt = (unsigned)num(k, 1);
    }
    n.open();
    for(auto& l : script)
    {
        if(ctx.bad()) return;
        auto k = split(l);
        if(k.empty() || k[0][0] == '!') continue;
        if(k[0] == "S") { mark("journal"); n.set((int)num(k, 1), (i128)(typename Fixed::value_type)snum(k, 2)); }
        else if(k[0] == "K") { mark("crash"); n.crash((u64)num(k, 1)); mark("recover"); n.recover(); }
        else if(k[0] == "P") { mark("compact"); if(n.up) n.compact(); }
        else if(k[0] == "N") n.disk.space = num(k, 1);
        else if(k[0] == "Y") n.disk.sync_errors = (int)num(k, 1) % 3;
        else if(k[0] == "A") { n.disk.power = num(k, 1); n.torn = (u64)num(k, 2); }
        else if(k[0] == "X") n.read_err = num(k, 1);
        else if(k[0] == "Z")
        {
            n.disk.space = -1;
            n.disk.sync_errors = 0;
            mark("recover");
            if(!n.up) n.recover();
        }
    }
    if(ctx.bad()) return;
    // faults stop: the node must come back within one recovery and serve everything it acknowledged
    n.disk.space = -1;
    n.disk.sync_errors = 0;
    n.disk.power = -1;
    n.read_err = -1;
    n.crash(0);
    mark("final_recover");
    if(!n.recover() && !ctx.bad()) ctx.violate("no_recovery", "node cannot recover although the faults have stopped");
    if(ctx.bad()) return;
    for(auto& [key, raw] : n.acked)
        if((i128)n.mem.at(key).internal_value() != raw) ctx.violate("acknowledged_value_changed", fmt("key %d", key));
}
} // namespace

void sim::generate(const std::string& prop, Rng& r, Lines& out)
{
    std::string type = gen_type(r);
    const TypeInfo& t = type_info(type);
    out.push_back("!type " + type);
    out.push_back(fmt("!dirt %d", (int)r.below(256)));
    if(prop == "C03")
    {
        out.push_back(fmt("!cap %d", r.chance(1, 3) ? 0 : (int)r.logu(64)));
        out.push_back(fmt("!locale %d", (int)r.chance(1, 4)));
        out.push_back(fmt("!mask %d", r.chance(1, 2) ? 0 : (int)r.below(8)));
        const bool faults = r.chance(3, 4);
        if(r.chance(1, 6)) out.push_back(fmt("!tie %d", 1 + (int)r.below(5)));
        if(!faults && r.chance(1, 4)) out.push_back("!unit 1");
        static const int bases[] = {10, 10, 10, 16, 16, 8, 2};
        int n = 1 + (int)r.logu(14);
        for(int i = 0; i < n; ++i)
        {
            if(faults && r.chance(1, 3)) out.push_back(fmt("S %d %d %d", (int)r.logu(60), (int)r.below(2), (int)r.chance(1, 3)));
            if(faults && r.chance(1, 8)) out.push_back(fmt("Y %d", (int)r.below(2)));
            if(faults && r.chance(1, 25)) out.push_back("F");
            if(r.chance(1, 6)) out.push_back(fmt("N %s %d %d", i128s(gen_raw(r, t)).c_str(), bases[r.below(7)], (int)r.logu(40)));
            if(r.chance(1, 3)) out.push_back("T " + std::string(1 + r.logu(20), (char)('a' + r.below(26))));
            if(r.chance(1, 6)) out.push_back(fmt("K %s %d %d %d %d", i128s(gen_raw(r, t)).c_str(), bases[r.below(7)], (int)r.below(2), (int)r.logu(40), (int)r.below(2)));
            out.push_back(fmt("O %s %d %d %d", i128s(gen_raw(r, t)).c_str(), bases[r.below(7)], (int)r.below(2), (int)r.below(32)));
            if(r.chance(faults ? 2 : 1, 4)) out.push_back("H");
        }
        return;
    }
    out.push_back(fmt("!cap %d", r.chance(1, 6) ? 0 : (r.chance(1, 3) ? 4096 : (int)r.logu(200))));
    out.push_back(fmt("!rchunk %d", (int)r.logu(100)));
    const char* writers[] = {"stream", "stream", "stream", "format", "copy"};
    const char* readers[] = {"stream", "stream", "stream", "cstring", "literal", "f32", "ioparse"};
    out.push_back(std::string("!writer ") + writers[r.below(5)]);
    out.push_back(std::string("!reader ") + readers[r.below(7)]);
    int n = 2 + (int)r.logu(30), keys = 1 + (int)r.below(5);
    unsigned fmask = (unsigned)r.below(32);
    for(int i = 0; i < n; ++i)
    {
        if((fmask & 1) && r.chance(1, 7)) out.push_back(fmt("A %d %d", (int)r.logu(120), (int)r.below(100)));
        if((fmask & 2) && r.chance(1, 12)) out.push_back(fmt("N %d", (int)r.logu(300)));
        if((fmask & 4) && r.chance(1, 12)) out.push_back(fmt("Y %d", 1 + (int)r.below(2)));
        if((fmask & 8) && r.chance(1, 10)) out.push_back(fmt("X %d", (int)r.logu(30)));
        out.push_back(fmt("S %d %s", (int)r.below((u64)keys), i128s(gen_raw(r, t)).c_str()));
        if(r.chance(1, 5)) out.push_back(fmt("K %d", (int)r.below(1000)));
        if(r.chance(1, 15)) out.push_back("P");
        if(r.chance(1, 8)) out.push_back("Z");
    }
}

void sim::execute(const std::string& prop, const Lines& script, Ctx& ctx)
{
    std::string type = "f32";
    for(auto& l : script)
    {
        auto k = split(l);
        if(k.size() > 1 && k[0] == "!type") type = k[1];
    }
    with_type(type, [&]<class Fixed>(const TypeInfo& t) {
        if(prop == "C03") run_c03<Fixed>(script, t, ctx);
        else run_c04<Fixed>(script, t, ctx);
    });
}

SIM_MAIN
