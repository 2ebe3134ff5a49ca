// Deterministic-simulation kernel shared by every harness.
//
//   generate(seed) -> script (plain text lines)      the only place the PRNG is used
//   execute(script) -> events, hash, violation       a pure function of the script and of the code under test
//
// so that one seed is one execution, and a script file replays it without the seed.
#pragma once
#include <cerrno>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <locale>
#include <ostream>
#include <streambuf>
#include <map>
#include <string>
#include <vector>
#include <algorithm>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>

namespace sim
{
using u64 = std::uint64_t;
using i64 = std::int64_t;
using i128 = __int128;
using u128 = unsigned __int128;
using Lines = std::vector<std::string>;

struct Rng
{
    u64 s;
    explicit Rng(u64 seed) : s(seed ^ 0x632BE59BD9B4E019ull)
    {
        // the increment of the generator must not relate neighbouring seeds: hash the seed first
        u64 a = next();
        s = a * 0xD1342543DE82EF95ull + (seed << 1 | 1);
        s = next() ^ (a >> 7);
        next();
    }
    u64 next()
    {
        u64 z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    u64 below(u64 n) { return n ? next() % n : 0; }
    i64 range(i64 a, i64 b) { return a + (i64)below((u64)(b - a) + 1); }
    bool chance(unsigned num, unsigned den) { return below(den) < num; }
    template <class C> auto& pick(C& c) { return c[below(c.size())]; }
    // mostly small, sometimes large
    u64 logu(u64 max)
    {
        unsigned bits = 0;
        while(bits < 63 && (1ull << bits) <= max) ++bits;
        u64 v = below(1ull << below(bits + 1));
        return v > max ? max : v;
    }
};

struct SharedState // lives in a file mapping, so that the driver can see what a dead process was doing
{
    u64 seed;
    u64 done;
    char op[112];
};
inline SharedState g_state_fallback;
inline SharedState* g_state = &g_state_fallback;
inline void mark(const char* op)
{
    std::strncpy(g_state->op, op, sizeof g_state->op - 1);
}

struct Stats
{
    std::map<std::string, u64> m;
};
inline Stats g_stats;

struct Ctx
{
    u64 hash = 1469598103934665603ull;
    bool verbose = false;
    bool nontrivial = false;
    u64 ticks = 0; // simulated time
    u64 events = 0;
    std::string vcls, vdetail;

    void mix(const void* p, size_t n)
    {
        auto b = static_cast<const unsigned char*>(p);
        for(size_t i = 0; i < n; ++i) hash = (hash ^ b[i]) * 1099511628211ull;
    }
    void ev(const char* fmt, ...) __attribute__((format(printf, 2, 3)))
    {
        char buf[1024];
        va_list ap;
        va_start(ap, fmt);
        int n = vsnprintf(buf, sizeof buf, fmt, ap);
        va_end(ap);
        if(n > (int)sizeof buf - 1) n = sizeof buf - 1;
        mix(buf, (size_t)n);
        mix("\n", 1);
        ++events;
        if(verbose) printf("  %s\n", buf);
    }
    void fault(const std::string& kind, u64 n = 1)
    {
        g_stats.m["fault." + kind] += n;
        nontrivial = true;
    }
    void probe(const std::string& what, u64 n = 1) { g_stats.m["probe." + what] += n; }
    void violate(const std::string& cls, const std::string& detail)
    {
        if(!vcls.empty()) return;
        vcls = cls;
        vdetail = detail;
        for(char& c : vdetail)
            if(c == '\n' || c == '\t') c = ' ';
        if(verbose) printf("  !! %s: %s\n", vcls.c_str(), vdetail.c_str());
    }
    bool bad() const { return !vcls.empty(); }
};

inline std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
inline std::string fmt(const char* f, ...)
{
    char buf[4096];
    va_list ap;
    va_start(ap, f);
    vsnprintf(buf, sizeof buf, f, ap);
    va_end(ap);
    return buf;
}

inline std::vector<std::string> split(const std::string& s)
{
    std::vector<std::string> r;
    size_t i = 0;
    while(i < s.size())
    {
        while(i < s.size() && s[i] == ' ') ++i;
        size_t j = i;
        while(j < s.size() && s[j] != ' ') ++j;
        if(j > i) r.push_back(s.substr(i, j - i));
        i = j;
    }
    return r;
}
inline i64 num(const std::vector<std::string>& t, size_t i, i64 dflt = 0)
{
    return i < t.size() ? (i64)strtoull(t[i].c_str(), nullptr, 0) * (1) : dflt;
}
inline i64 snum(const std::vector<std::string>& t, size_t i, i64 dflt = 0)
{
    if(i >= t.size()) return dflt;
    const char* p = t[i].c_str();
    return *p == '-' ? (i64)(0 - strtoull(p + 1, nullptr, 0)) : (i64)strtoull(p, nullptr, 0);
}
inline std::string tok(const std::vector<std::string>& t, size_t i, const char* dflt = "")
{
    return i < t.size() ? t[i] : std::string(dflt);
}

// text payloads in script lines: printable ASCII as is, anything else %XXXX (one unit of up to 16 bits); empty is %%
inline std::string enc(const std::u32string& s)
{
    if(s.empty()) return "%%";
    std::string r;
    for(char32_t c : s)
        if(c > 0x20 && c < 0x7f && c != '%') r += (char)c;
        else r += fmt("%%%04X", (unsigned)c & 0xFFFF);
    return r;
}
inline std::u32string dec(const std::string& s)
{
    std::u32string r;
    if(s == "%%") return r;
    for(size_t i = 0; i < s.size(); ++i)
        if(s[i] == '%' && i + 4 < s.size())
        {
            r += (char32_t)strtoul(s.substr(i + 1, 4).c_str(), nullptr, 16);
            i += 4;
        }
        else r += (char32_t)(unsigned char)s[i];
    return r;
}
inline std::string show(const std::u32string& s) { return enc(s); }
template <class S> std::string showc(const S& s)
{
    std::u32string r;
    for(auto c : s) r += (char32_t)(std::make_unsigned_t<typename S::value_type>)c;
    return enc(r);
}

// overwrite dead stack below us with a pattern, so that a read of an indeterminate value is decided by the script
__attribute__((noinline)) inline void dirty_stack(unsigned char pattern)
{
    volatile unsigned char buf[6000];
    for(size_t i = 0; i < sizeof buf; ++i) buf[i] = pattern;
    errno = pattern & 1 ? ERANGE : 0; // left by somebody else's last call
}

// ---- the process around the library: somebody may have installed a global locale with unusual punctuation
struct HostilePunct : std::numpunct<char>
{
    char do_decimal_point() const override { return ','; }
    char do_thousands_sep() const override { return '\''; }
    std::string do_grouping() const override { return "\1"; }
    std::string do_truename() const override { return "0"; }
};
struct HostilePunctW : std::numpunct<wchar_t>
{
    wchar_t do_decimal_point() const override { return L','; }
    wchar_t do_thousands_sep() const override { return L'\''; }
    std::string do_grouping() const override { return "\1"; }
};
inline const std::locale& hostile_locale()
{
    static const std::locale* l = nullptr; // no initialisation guard: the thread simulator replaces those
    if(!l) l = new std::locale(std::locale(std::locale::classic(), new HostilePunct), new HostilePunctW);
    return *l;
}
struct GlobalLocale
{
    bool on;
    std::locale before;
    explicit GlobalLocale(bool hostile) : on(hostile) { if(on) before = std::locale::global(hostile_locale()); }
    ~GlobalLocale() { if(on) std::locale::global(before); }
};
// a stream somebody tied to ours: the library has to flush it at most, whatever state it is in
template <class CharT, class Traits> struct TiedStream
{
    struct Buf : std::basic_streambuf<CharT, Traits>
    {
        int kind = 0;
        int sync() override
        {
            if(kind == 4) throw 17;
            return kind == 3 ? -1 : 0;
        }
    } buf;
    std::basic_ostream<CharT, Traits> os;
    // 0 not tied, 1 already failed, 2 healthy, 3 fails when flushed, 4 throws when flushed, 5 has no buffer
    explicit TiedStream(std::basic_ios<CharT, Traits>& s, int kind) : os(nullptr)
    {
        buf.kind = kind;
        if(kind != 5) os.rdbuf(&buf);
        if(kind == 1) os.setstate(std::ios_base::failbit);
        if(kind) s.tie(&os);
    }
};
inline bool wants_hostile_locale(const Lines& l)
{
    for(auto& s : l) if(s == "!glocale 1") return true;
    return false;
}

// ---- to be provided by the harness
void generate(const std::string& prop, Rng& rng, Lines& out);
void execute(const std::string& prop, const Lines& script, Ctx& ctx);

inline void arm_cpu_watchdog(unsigned seconds)
{
    itimerval tv{};
    tv.it_value.tv_sec = seconds;
    setitimer(ITIMER_PROF, &tv, nullptr); // SIGPROF kills us: CPU time, so a loaded machine changes nothing
}

inline void open_state(const char* path)
{
    int fd = open(path, O_RDWR | O_CREAT, 0600);
    if(fd < 0 || ftruncate(fd, sizeof(SharedState)) != 0) { perror("state"); exit(3); }
    void* p = mmap(nullptr, sizeof(SharedState), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    if(p == MAP_FAILED) { perror("mmap"); exit(3); }
    close(fd);
    g_state = static_cast<SharedState*>(p);
}

inline Lines make_script(const std::string& prop, u64 seed)
{
    Rng rng(seed);
    Lines l;
    generate(prop, rng, l);
    Rng more(seed ^ 0x676c6f63616c65ull); // the process-wide locale is drawn apart, whatever the harness
    if(more.chance(1, 5)) l.insert(l.begin(), "!glocale 1");
    return l;
}

// harness PROP gen SEED | exec FILE STATE [-v] | batch START COUNT OUT STATE MAXSECONDS
inline int sim_main(int argc, char** argv)
{
    if(argc < 4) { fprintf(stderr, "usage\n"); return 3; }
    const std::string prop = argv[1], mode = argv[2];
    if(mode == "gen")
    {
        for(auto& l : make_script(prop, strtoull(argv[3], nullptr, 0))) puts(l.c_str());
        return 0;
    }
    if(mode == "exec")
    {
        Lines l;
        FILE* f = fopen(argv[3], "r");
        if(!f) { perror(argv[3]); return 3; }
        char* line = nullptr;
        size_t cap = 0;
        ssize_t n;
        while((n = getline(&line, &cap, f)) > 0)
        {
            while(n > 0 && (line[n - 1] == '\n' || line[n - 1] == '\r')) line[--n] = 0;
            if(n > 0 && line[0] != '#') l.push_back(line);
        }
        fclose(f);
        if(argc > 4) open_state(argv[4]);
        Ctx c;
        c.verbose = argc > 5 && !strcmp(argv[5], "-v");
        if(c.verbose) setvbuf(stdout, nullptr, _IOLBF, 0);
        // "!!" separates runs that shared one process (only needed when the code under test leaks state between them)
        for(size_t i = 0; i <= l.size() && !c.bad();)
        {
            Lines one;
            for(; i < l.size() && l[i] != "!!"; ++i) one.push_back(l[i]);
            ++i;
            if(one.empty()) continue;
            arm_cpu_watchdog(20);
            Ctx r;
            r.verbose = c.verbose;
            {
                GlobalLocale gl(wants_hostile_locale(one));
                if(gl.on) r.probe("global_locale");
                execute(prop, one, r);
            }
            c = r;
        }
        printf("RESULT\t%016llx\t%s\t%s\n", (unsigned long long)c.hash, c.bad() ? c.vcls.c_str() : "ok", c.vdetail.c_str());
        return 0;
    }
    if(mode == "batch")
    {
        const u64 start = strtoull(argv[3], nullptr, 0), count = strtoull(argv[4], nullptr, 0);
        const std::string out = argv[5];
        open_state(argv[6]);
        const double limit = atof(argv[7]);
        FILE* fo = fopen(out.c_str(), "w");
        FILE* fh = fopen((out + ".h").c_str(), "w");
        if(!fo || !fh) { perror("out"); return 3; }
        timeval t0, t1;
        gettimeofday(&t0, nullptr);
        u64 ticks = 0, events = 0, viol = 0;
        for(u64 i = 0; i < count; ++i)
        {
            g_state->seed = start + i;
            g_state->done = i;
            arm_cpu_watchdog(20);
            auto l = make_script(prop, start + i);
            Ctx c;
            {
                GlobalLocale gl(wants_hostile_locale(l));
                if(gl.on) c.probe("global_locale");
                execute(prop, l, c);
            }
            u64 rec[2] = {c.hash, (u64)c.nontrivial};
            fwrite(rec, sizeof rec, 1, fh);
            ticks += c.ticks;
            events += c.events;
            if(c.bad())
            {
                fprintf(fo, "V\t%llu\t%s\t%s\n", (unsigned long long)(start + i), c.vcls.c_str(), c.vdetail.c_str());
                fflush(fo);
                if(++viol >= 20) { g_state->done = i + 1; break; }
            }
            if((i & 63) == 63)
            {
                gettimeofday(&t1, nullptr);
                if((t1.tv_sec - t0.tv_sec) + (t1.tv_usec - t0.tv_usec) * 1e-6 > limit) { g_state->done = i + 1; break; }
            }
            g_state->done = i + 1;
        }
        fprintf(fo, "S\tticks\t%llu\nS\tevents\t%llu\n", (unsigned long long)ticks, (unsigned long long)events);
        for(auto& [k, v] : g_stats.m) fprintf(fo, "S\t%s\t%llu\n", k.c_str(), (unsigned long long)v);
        fprintf(fo, "END\t%llu\n", (unsigned long long)g_state->done);
        fclose(fo);
        fclose(fh);
        return 0;
    }
    return 3;
}
} // namespace sim

#define SIM_MAIN \
    int main(int argc, char** argv) { return sim::sim_main(argc, argv); }
