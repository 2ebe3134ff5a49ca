// C09: random engines across histories, checkpoints, crashes and failing allocations.  C10: distributions under hostile entropy.
// Real: permuted_congruential_engine, fixed_random_engine_adapter, both distribution adapters, the standard engines and distributions.
// Simulated: the order of use of several engines, the allocator, the checkpoint stream and disk, process memory, the entropy source.
#include "common.hpp"
#include "alloc.hpp"
#include "ref.hpp"
#include <eirin/random.hpp>
#include <memory>
#include <optional>
#include <random>
#include <sstream>

using namespace sim;

namespace
{
struct DeviceError
{
    int code;
};

// ------------------------------------------------------------------------------------------------ C09
// Reference engine: parameters and formula written out here, independently of the class template.
template <class U> struct RefPcg
{
    U mul, inc, mix, xr, init;
    U seed_, state;
    U next()
    {
        const unsigned w = sizeof(U) * 8;
        U x = (U)(state * mul + seed_);
        x = (U)(x >> (unsigned)((x ^ 8) % w));
        x = (U)(x + inc);
        x = (U)((U)(x << 8) ^ x);
        x = (U)(x * xr);
        x = (U)(x >> (unsigned)((x ^ 8) % w));
        x = (U)(x * mix);
        state = (U)(state + 1);
        return (U)((x & (U)0x7FFFFFFE) ^ (U)(x >> 8));
    }
    bool operator==(const RefPcg&) const = default;
};

using Pcg32 = eirin::pcg2014;
using Pcg64 = eirin::pcg2014_64;
using PcgC = eirin::permuted_congruential_engine<uint32_t, 77u, 747796405u, 2891336453u, 277803737u, 2654435769u>;
using PcgD = eirin::permuted_congruential_engine<uint64_t, 0xFFFFFFFFFFFFFFF0ull, 6364136223846793005ull, 1442695040888963407ull, 0xD6E8FEB86659FD93ull, 0xA0761D6478BD642Full>;

using PcgE = eirin::permuted_congruential_engine<uint16_t, 0xFFF0, 0x4A4D, 0x31D5, 0x6EB9, 0x2CA3>;

template <class E> struct Model; // a trusted twin of the engine

template <class E, class U> struct PcgModel
{
    static constexpr bool is_pcg = true;
    RefPcg<U> r;
    void seed(u64 s) { r.seed_ = (U)s; r.state = r.init; }
    void seed_default() { seed(0x89ABCD); }
    void seed(std::seed_seq& q)
    {
        std::vector<uint32_t> v(2);
        q.generate(v.begin(), v.end());
        r.seed_ = v[0];
        r.state = v[1];
    }
    u64 next() { return r.next(); }
    void discard(u64 z) { r.state = (U)(r.state + z); }
    std::string text() const { return std::to_string(r.seed_) + " " + std::to_string(r.state); }
    bool operator==(const PcgModel&) const = default;
};
template <> struct Model<Pcg32> : PcgModel<Pcg32, uint32_t>
{
    Model() { r = {0xB5297A4Du, 0x68E31DA4u, 0x1B56C4E9u, 0x92D68CA2u, 0, 0x89ABCD, 0}; }
};
template <> struct Model<Pcg64> : PcgModel<Pcg64, uint64_t>
{
    Model() { r = {0x5851F42D4C957F2Dull, 0x9E3779B97F4A7C15ull, 0x94D049BB133111EBull, 0xBF58476D1CE4E5B9ull, 0, 0x89ABCD, 0}; }
};
template <> struct Model<PcgC> : PcgModel<PcgC, uint32_t>
{
    Model() { r = {747796405u, 2891336453u, 277803737u, 2654435769u, 77u, 0x89ABCD, 77u}; }
};
template <> struct Model<PcgD> : PcgModel<PcgD, uint64_t>
{
    Model() { r = {6364136223846793005ull, 1442695040888963407ull, 0xD6E8FEB86659FD93ull, 0xA0761D6478BD642Full, 0xFFFFFFFFFFFFFFF0ull, 0x89ABCD, 0xFFFFFFFFFFFFFFF0ull}; }
};
template <> struct Model<PcgE> : PcgModel<PcgE, uint16_t>
{
    Model() { r = {0x4A4D, 0x31D5, 0x6EB9, 0x2CA3, 0xFFF0, 0xABCD, 0xFFF0}; }
};
template <class E> struct Model
{
    static constexpr bool is_pcg = false;
    E e;
    void seed(u64 s) { e.seed((typename E::result_type)s); }
    void seed_default() { e.seed(); }
    void seed(std::seed_seq& q) { e.seed(q); }
    u64 next() { return e(); }
    void discard(u64 z) { e.discard(z); }
    std::string text() const { std::ostringstream o; o.imbue(std::locale::classic()); o << e; return o.str(); }
    bool operator==(const Model& o) const { return e == o.e; }
};

// uniform access to a bare engine or one inside the fixed-point adapter
template <class E> struct Bare
{
    using Engine = E;
    using Obj = E;
    static u64 draw(Obj& o) { return (u64)o(); }
    static u64 expect(u64 v) { return v; }
    static auto& under(auto& o) { return o; }
    static constexpr bool ctor_seed = true;
};
template <class F, class E> struct Adapted
{
    using Engine = E;
    using Obj = eirin::fixed_random_engine_adapter<F, E>;
    static u64 draw(Obj& o) { return (u64)(std::make_unsigned_t<typename F::value_type>)o().internal_value(); }
    static u64 expect(u64 v) { return (u64)(std::make_unsigned_t<typename F::value_type>)v; }
    static auto& under(auto& o) requires requires { o.__underlying_engine(); } { return o.__underlying_engine(); }
    static constexpr bool ctor_seed = false;
};

struct Sink // what a checkpoint device got, and when it fails
{
    std::string out;
    i64 left = -1;
    bool throws = false;
};
template <class C> struct FailBuf : std::basic_streambuf<C>
{
    using Tr = std::char_traits<C>;
    Sink& s;
    explicit FailBuf(Sink& k) : s(k) {}
    typename Tr::int_type overflow(typename Tr::int_type c) override
    {
        if(s.left == 0)
        {
            if(s.throws) throw DeviceError{1};
            return Tr::eof();
        }
        if(s.left > 0) --s.left;
        if(!Tr::eq_int_type(c, Tr::eof())) s.out += (char)c;
        return Tr::not_eof(c);
    }
};
struct Written
{
    bool good, threw;
    const char* changed; // the setting of the stream that is not as it was
};
template <class C, class Obj> Written write_state(const Obj& obj, Sink& s, unsigned fl, int width)
{
    FailBuf<C> fb(s);
    std::basic_ostream<C> os(&fb);
    os.imbue(fl & 8192 ? hostile_locale() : std::locale::classic());
    std::ios_base::fmtflags f = os.flags();
    if(fl & 1) f = (f & ~std::ios_base::basefield) | std::ios_base::hex;
    if(fl & 2) f = (f & ~std::ios_base::basefield) | std::ios_base::oct;
    if(fl & 4) f |= std::ios_base::showbase;
    if(fl & 8) f |= std::ios_base::showpos;
    if(fl & 16) f |= std::ios_base::uppercase;
    if(fl & 32) f = (f & ~std::ios_base::adjustfield) | std::ios_base::right;
    if(fl & 64) f = (f & ~std::ios_base::adjustfield) | std::ios_base::internal;
    if(fl & 128) f |= std::ios_base::boolalpha | std::ios_base::unitbuf;
    os.flags(f);
    os.fill(fl & 256 ? (C)(fl & 4096 ? '0' : '*') : (C)' ');
    os.precision(fl & 512 ? 3 : 6);
    const auto fill = os.fill();
    const auto prec = os.precision();
    const auto mask = fl & 2048 ? std::ios_base::badbit | std::ios_base::failbit : std::ios_base::goodbit;
    os.exceptions(mask);
    os.width(width);
    Written w{};
    try { os << obj; }
    catch(...) { w.threw = true; }
    w.good = os.good();
    if(os.flags() != f) w.changed = "flags changed";
    else if(os.fill() != fill) w.changed = "fill character changed";
    else if(os.precision() != prec) w.changed = "precision changed";
    else if(w.good && os.width() != 0) w.changed = "width left in force";
    else if(os.exceptions() != mask) w.changed = "exception mask changed";
    return w;
}
// the numbers in a state text, as a stream of that locale reads them; empty if there is anything else
std::vector<u64> numbers(const std::string& s, bool hostile)
{
    std::istringstream is(s);
    is.imbue(hostile ? hostile_locale() : std::locale::classic());
    std::vector<u64> v;
    for(u64 t; is >> t;) v.push_back(t);
    if(!is.eof()) v.clear();
    return v;
}

template <class A> void run_engine(const Lines& script, Ctx& ctx, const char* tname)
{
    using Obj = typename A::Obj;
    using Eng = typename A::Engine;
    using M = Model<Eng>;
    constexpr int N = 4;
    unsigned dirt = 0;
    for(auto& l : script)
    {
        auto k = split(l);
        if(k.size() > 1 && k[0] == "!dirt") dirt = (unsigned)num(k, 1);
    }
    g_alloc.junk = (unsigned char)dirt;
    alignas(Obj) static unsigned char mem[N][sizeof(Obj)];
    Obj* e[N];
    M m[N];
    std::optional<std::string> saved[N];
    std::optional<M> saved_model[N];
    bool saved_hostile[N] = {};
    auto boot = [&](int i, unsigned d) {
        memset(mem[i], (int)d, sizeof mem[i]);
        dirty_stack((unsigned char)(d + 1));
        e[i] = ::new(mem[i]) Obj; // default-initialised over junk
        m[i] = M();
        m[i].seed_default();
        if constexpr(!M::is_pcg) m[i].e = Eng();
    };
    for(int i = 0; i < N; ++i) boot(i, dirt + (unsigned)i * 31);
    u64 opno = 0;
    auto audit = [&](const std::string& what) {
        // every engine continues exactly where its model does; other engines are untouched
        for(int i = 0; i < N && !ctx.bad(); ++i)
        {
            Obj c(*e[i]);
            M mc(m[i]);
            u64 got = A::draw(c), want = A::expect(mc.next());
            if(got != want) ctx.violate("sequence_diverged", fmt("op #%llu %s (%s): engine %d would draw %llx, expected %llx", (unsigned long long)opno, what.c_str(), tname, i, (unsigned long long)got, (unsigned long long)want));
            for(int j = 0; j < N && !ctx.bad(); ++j)
            {
                const bool eq = *e[i] == *e[j], ne = *e[i] != *e[j], want_eq = m[i] == m[j];
                if(eq != want_eq || ne == eq) ctx.violate("wrong_equality", fmt("op #%llu %s (%s): engines %d and %d ==%d !=%d, expected %d", (unsigned long long)opno, what.c_str(), tname, i, j, eq, ne, want_eq));
            }
        }
    };
    for(auto& l : script)
    {
        if(ctx.bad()) break;
        auto k = split(l);
        if(k.empty() || k[0][0] == '!') continue;
        ++opno;
        ++ctx.ticks;
        const int i = (int)((u64)num(k, 1) % N), j = (int)((u64)num(k, 2) % N);
        const u64 a = (u64)num(k, 2);
        dirty_stack((unsigned char)(dirt + opno));
        if(k[0] == "n")
        {
            mark("draw");
            for(u64 q = 0; q < a % 400; ++q)
            {
                u64 got = A::draw(*e[i]), want = A::expect(m[i].next());
                ctx.mix(&got, 8);
                if(got != want) { ctx.violate("wrong_value", fmt("op #%llu (%s) draw %llu of engine %d gave %llx, expected %llx", (unsigned long long)opno, tname, (unsigned long long)q, i, (unsigned long long)got, (unsigned long long)want)); break; }
            }
        }
        else if(k[0] == "s")
        {
            mark("seed");
            e[i]->seed((typename Eng::result_type)a);
            m[i].seed(a);
            ctx.fault("reseed");
        }
        else if(k[0] == "d") { mark("seed_default"); e[i]->seed(); m[i].seed_default(); ctx.fault("reseed"); }
        else if(k[0] == "C")
        {
            mark("construct");
            memset(mem[i], (int)(dirt + opno), sizeof mem[i]);
            if constexpr(A::ctor_seed && M::is_pcg)
            {
                e[i] = ::new(mem[i]) Obj((typename Eng::result_type)a);
                m[i] = M();
                m[i].seed(a);
            }
            else boot(i, (unsigned)(dirt + opno));
        }
        else if(k[0] == "q")
        {
            mark("seed_seq");
            if constexpr(sizeof(typename Eng::result_type) < 4) continue; // a seed sequence delivers words of 32 bits
            std::vector<uint32_t> v;
            for(size_t x = 3; x < k.size(); ++x) v.push_back((uint32_t)num(k, x));
            std::seed_seq sq(v.begin(), v.end()), sq2(v.begin(), v.end());
            const u64 bound = 0;
            (void)bound;
            bool threw = false;
            long failed;
            {
                AllocArm arm((long)a, false);
                try { e[i]->seed(sq); }
                catch(const std::bad_alloc&) { threw = true; }
                arm.disarm();
                failed = g_alloc.failed;
            }
            if(failed) ctx.fault("alloc_failure");
            ctx.ev("seed_seq failed=%ld threw=%d", failed, threw);
            if(threw && !failed) ctx.violate("spurious_exception", "seed(seed_seq) threw");
            if(threw && !M::is_pcg) { /* a standard engine may be half seeded: give it a known state */ e[i]->seed(1); m[i].seed(1); }
            else if(!threw) m[i].seed(sq2);
            // threw: the engine is as before, which the audit decides
            ctx.probe("seed_seq");
        }
        else if(k[0] == "D")
        {
            mark("discard");
            u64 z = M::is_pcg ? a : a % 5000;
            e[i]->discard(z);
            m[i].discard(z);
            if(z >> 32) ctx.fault("long_skip");
        }
        else if(k[0] == "c") { mark("copy"); *e[i] = *e[j]; m[i] = m[j]; ctx.probe("copy"); }
        else if(k[0] == "x") { mark("swap"); std::swap(*e[i], *e[j]); std::swap(m[i], m[j]); ctx.probe("swap"); }
        else if(k[0] == "k")
        {
            mark("checkpoint");
            // k engine fail_after throws settings width
            const unsigned fl = (unsigned)num(k, 4);
            Sink s;
            s.left = num(k, 2) - 1;
            s.throws = num(k, 3) & 1;
            Written w = fl & 1024 ? write_state<wchar_t>(*e[i], s, fl, (int)num(k, 5)) : write_state<char>(*e[i], s, fl, (int)num(k, 5));
            const std::string want = m[i].text();
            const bool dead = s.left == 0 && !w.good, hostile = fl & 8192, plain = !hostile && !num(k, 5);
            ctx.ev("checkpoint %d %s good=%d threw=%d", i, s.out.c_str(), w.good, w.threw);
            if(w.threw && (!dead || !(fl & 2048))) ctx.violate("spurious_exception", fmt("(%s) operator<< threw (exceptions %s, device %s)", tname, fl & 2048 ? "on" : "off", dead ? "failed" : "well"));
            else if(!w.threw && dead && (fl & 2048)) ctx.violate("missing_exception", fmt("(%s) operator<< did not throw although asked to", tname));
            else if(w.good && numbers(s.out, hostile) != numbers(want, false)) ctx.violate("wrong_state_text", fmt("op #%llu (%s) wrote \"%s\", expected \"%s\"", (unsigned long long)opno, tname, s.out.c_str(), want.c_str()));
            else if(w.good && plain && s.out != want) ctx.violate("wrong_state_text", fmt("op #%llu (%s) wrote \"%s\", expected \"%s\"", (unsigned long long)opno, tname, s.out.c_str(), want.c_str()));
            else if(!w.good && plain && !(want.compare(0, s.out.size(), s.out) == 0)) ctx.violate("not_a_prefix", fmt("(%s) wrote \"%s\" of \"%s\"", tname, s.out.c_str(), want.c_str()));
            else if(!w.good && s.left != 0) ctx.violate("spurious_failure", "stream failed although the device did not");
            else if(!w.threw && w.changed) ctx.violate("format_settings_changed", fmt("op #%llu (%s) %s", (unsigned long long)opno, tname, w.changed));
            if(dead) ctx.fault(s.throws ? "sink_throws" : "sink_error");
            if(w.threw) ctx.fault("stream_exception");
            if(num(k, 5)) ctx.probe("padded_state");
            if(fl & 1024) ctx.probe("wide_state");
            if(hostile) ctx.probe("grouped_state");
            if(w.good) { saved[i] = s.out; saved_model[i] = m[i]; saved_hostile[i] = hostile; ctx.probe("checkpoint"); }
        }
        else if(k[0] == "K")
        {
            // crash: every engine is lost; each restarts from its own checkpoint, or from scratch
            mark("crash");
            ctx.fault("crash");
            for(int q = 0; q < N && !ctx.bad(); ++q)
            {
                boot(q, (unsigned)(dirt + opno + a) + (unsigned)q);
                if(!saved[q]) continue;
                std::istringstream is(*saved[q]);
                is.imbue(saved_hostile[q] ? hostile_locale() : std::locale::classic());
                if constexpr(M::is_pcg)
                {
                    typename Eng::result_type s = 0, st = 0;
                    is >> s >> st;
                    if constexpr(A::ctor_seed) *e[q] = Eng(s);
                    else e[q]->seed(s);
                    // the text is (seed, position counter); the position of a fresh engine is init_state
                    e[q]->discard((typename Eng::result_type)(st - Eng::init_state));
                }
                else if constexpr(requires { A::under(*e[q]); }) is >> A::under(*e[q]);
                else continue; // no way to reach the standard engine: restarts from scratch
                if(!is) ctx.violate("unreadable_checkpoint", *saved[q]);
                m[q] = *saved_model[q];
                ctx.probe("restored");
            }
        }
        if(!ctx.bad()) audit(l);
        for(int q = 0; q < N; ++q) { u64 h = m[q].is_pcg ? 1 : 2; ctx.mix(&h, 1); }
    }
    for(int i = 0; i < N; ++i) e[i]->~Obj();
    std::string fin;
    for(int i = 0; i < N; ++i) fin += m[i].text() + ";";
    ctx.mix(fin.data(), fin.size());
}

void exec_engine(const Lines& script, Ctx& ctx)
{
    std::string kind = "pcg32";
    for(auto& l : script)
    {
        auto k = split(l);
        if(k.size() > 1 && k[0] == "!engine") kind = k[1];
    }
    if(kind == "pcg32") run_engine<Bare<Pcg32>>(script, ctx, "pcg32");
    else if(kind == "pcg64") run_engine<Bare<Pcg64>>(script, ctx, "pcg64");
    else if(kind == "pcgc") run_engine<Bare<PcgC>>(script, ctx, "pcgc");
    else if(kind == "pcgd") run_engine<Bare<PcgD>>(script, ctx, "pcgd");
    else if(kind == "pcge") run_engine<Bare<PcgE>>(script, ctx, "pcge");
    else if(kind == "a32") run_engine<Adapted<F32, Pcg32>>(script, ctx, "a32");
    else if(kind == "a64") run_engine<Adapted<F64, Pcg64>>(script, ctx, "a64");
    else if(kind == "a3264") run_engine<Adapted<C20, PcgD>>(script, ctx, "a3264");
    else if(kind == "amt") run_engine<Adapted<F32, eirin::mt19937>>(script, ctx, "amt");
    else if(kind == "amt64") run_engine<Adapted<F64, eirin::mt19937_64>>(script, ctx, "amt64");
    else run_engine<Adapted<F32, eirin::minstd_rand>>(script, ctx, "amin");
}

void gen_engine(Rng& r, Lines& out)
{
    static const char* kinds[] = {"pcg32", "pcg32", "pcg64", "pcg64", "pcgc", "pcgd", "pcge", "a32", "a64", "a3264", "amt", "amt64", "amin"};
    // the standard engines have large states: keep them rare
    out.push_back(std::string("!engine ") + kinds[r.chance(1, 20) ? 10 + r.below(3) : r.below(10)]);
    out.push_back(fmt("!dirt %d", (int)r.below(256)));
    auto val = [&]() -> u64 {
        switch(r.below(6))
        {
        case 0: return r.below(4);
        case 1: return ~0ull - r.below(4);
        case 2: return (1ull << r.below(64)) + r.below(3) - 1;
        case 3: return 0x89ABCD;
        default: return r.next() >> r.below(64);
        }
    };
    int n = 2 + (int)r.logu(24);
    for(int i = 0; i < n; ++i)
    {
        int e = (int)r.below(4), f = (int)r.below(4);
        switch(r.below(14))
        {
        case 0: case 1: case 2: out.push_back(fmt("n %d %d", e, (int)(1 + r.logu(40)))); break;
        case 3: case 4: out.push_back(fmt("s %d %llu", e, (unsigned long long)val())); break;
        case 5: out.push_back(fmt("d %d", e)); break;
        case 6: out.push_back(fmt("C %d %llu", e, (unsigned long long)val())); break;
        case 7:
        {
            std::string s = fmt("q %d %d", e, r.chance(1, 2) ? 1 + (int)r.below(3) : 0);
            int c = (int)r.logu(6);
            for(int q = 0; q < c; ++q) s += fmt(" %llu", (unsigned long long)(val() & 0xFFFFFFFF));
            out.push_back(s);
            break;
        }
        case 8: case 9: out.push_back(fmt("D %d %llu", e, (unsigned long long)val())); break;
        case 10: out.push_back(fmt("%s %d %d", r.chance(1, 2) ? "c" : "x", e, f)); break;
        case 11: case 12: out.push_back(fmt("k %d %d %d %d %d", e, r.chance(1, 3) ? 1 + (int)r.below(24) : 0, (int)r.below(2), r.chance(1, 2) ? 0 : (int)(r.below(8192) | (r.chance(1, 8) ? 8192 : 0)), r.chance(1, 4) ? 1 + (int)r.logu(30) : 0)); break;
        default: out.push_back(fmt("K 0 %d", (int)r.below(256)));
        }
    }
}

// ------------------------------------------------------------------------------------------------ C10
struct Entropy // scripted bits, then an ordinary generator so that rejection sampling ends
{
    std::vector<u64> script;
    size_t pos = 0;
    u64 tail = 1;
    i64 fail_at = -1;
    u64 calls = 0;
    u64 take()
    {
        ++calls;
        if(fail_at >= 0 && fail_at-- == 0) throw DeviceError{7};
        if(pos < script.size()) return script[pos++];
        tail ^= tail << 13;
        tail ^= tail >> 7;
        tail ^= tail << 17;
        return tail * 0x2545F4914F6CDD1Dull;
    }
};
Entropy* g_entropy;

template <class U, U Lo, U Hi> struct Urbg
{
    using result_type = U;
    static constexpr U default_seed = 1;
    static constexpr U min() { return Lo; }
    static constexpr U max() { return Hi; }
    U operator()()
    {
        u64 v = g_entropy ? g_entropy->take() : 0;
        if(Lo == 0 && Hi == (U)~(U)0) return (U)v;
        return (U)(Lo + v % ((u64)(Hi - Lo) + 1));
    }
    // the rest of what a random number engine has: the entropy comes from outside, so nothing to do
    void seed(U = default_seed) {}
    void seed(std::seed_seq&) {}
    void discard(unsigned long long n) { while(n--) (*this)(); }
    friend bool operator==(const Urbg&, const Urbg&) { return true; }
    friend bool operator!=(const Urbg&, const Urbg&) { return false; }
    template <class C, class T> friend std::basic_ostream<C, T>& operator<<(std::basic_ostream<C, T>& os, const Urbg&) { return os; }
    template <class C, class T> friend std::basic_istream<C, T>& operator>>(std::basic_istream<C, T>& is, Urbg&) { return is; }
};
// what the second adapter draws from; the type of its own numbers plays no part
template <class G> using Duck = eirin::fixed_random_engine_adapter<I16, G>;

// the distribution under test; what depends on its types is kept thin, the simulation itself is compiled once
struct Dut
{
    virtual ~Dut() {}
    virtual void make_default(int dirt) = 0;
    virtual void make(i128 lo, i128 hi, bool from_bounds, int dirt) = 0;
    virtual void rebuild(int dirt) = 0;
    virtual i128 draw() = 0;
    virtual i128 draw(i128 lo, i128 hi) = 0;
    virtual void param(i128 lo, i128 hi) = 0;
    virtual void reset() = 0;
    virtual void read(i128 out[6]) = 0;            // a, b, min, max, param().a, param().b
    virtual int compare(i128 lo, i128 hi) = 0;     // bit 0: param() == {lo, hi}, bit 1: param() != {lo, hi}
    virtual std::unique_ptr<Dut> fresh(i128 lo, i128 hi) = 0;
};
template <class Fixed, class Dist, class G, bool UseDuck> struct DutT : Dut
{
    using V = typename Fixed::value_type;
    using P = typename Dist::param_type;
    std::conditional_t<UseDuck, Duck<G>, G> gen{};
    alignas(Dist) unsigned char mem[sizeof(Dist)];
    Dist* d = nullptr;
    static Fixed fx(i128 v) { return Fixed::from_internal_value((V)v); }
    void make_default(int dirt) override { memset(mem, dirt, sizeof mem); d = ::new(mem) Dist; }
    void make(i128 lo, i128 hi, bool from_bounds, int dirt) override
    {
        memset(mem, dirt, sizeof mem);
        d = from_bounds ? ::new(mem) Dist(fx(lo), fx(hi)) : ::new(mem) Dist(P(fx(lo), fx(hi)));
    }
    void rebuild(int dirt) override
    {
        const P saved = d->param();
        memset(mem, dirt, sizeof mem);
        d = ::new(mem) Dist(saved);
    }
    i128 draw() override { return (i128)(*d)(gen).internal_value(); }
    i128 draw(i128 lo, i128 hi) override { const P p(fx(lo), fx(hi)); return (i128)(*d)(gen, p).internal_value(); }
    void param(i128 lo, i128 hi) override { d->param(P(fx(lo), fx(hi))); }
    void reset() override { d->reset(); }
    void read(i128 o[6]) override
    {
        o[0] = (i128)d->a().internal_value(); o[1] = (i128)d->b().internal_value();
        o[2] = (i128)d->min().internal_value(); o[3] = (i128)d->max().internal_value();
        o[4] = (i128)d->param().a().internal_value(); o[5] = (i128)d->param().b().internal_value();
    }
    int compare(i128 lo, i128 hi) override { const P p(fx(lo), fx(hi)); return (d->param() == p) | (d->param() != p) << 1; }
    std::unique_ptr<Dut> fresh(i128 lo, i128 hi) override
    {
        auto f = std::make_unique<DutT>();
        f->make(lo, hi, false, 0);
        return f;
    }
};

void run_dist(const Lines& script, const TypeInfo& t, Ctx& ctx, const char* gname, std::unique_ptr<Dut> dut)
{
    unsigned dirt = 0;
    for(auto& l : script)
    {
        auto k = split(l);
        if(k.size() > 1 && k[0] == "!dirt") dirt = (unsigned)num(k, 1);
    }
    Dut* d = dut.get();
    d->make_default((int)dirt);
    i128 A = t.min(), B = t.max(), rd[6];
    d->read(rd);
    if(rd[0] != A || rd[1] != B) { ctx.violate("wrong_default_range", t.name); return; }
    Entropy ent;
    g_entropy = &ent;
    u64 opno = 0;
    auto where = [&] { return fmt("op #%llu %s %s [%s, %s]", (unsigned long long)opno, t.name, gname, i128s(A).c_str(), i128s(B).c_str()); };
    auto inspect = [&] {
        d->read(rd);
        if(rd[0] != A || rd[1] != B || rd[2] != A || rd[3] != B || rd[4] != A || rd[5] != B)
            ctx.violate("parameters_changed", where() + " reads back [" + i128s(rd[0]) + ", " + i128s(rd[1]) + "] min " + i128s(rd[2]) + " max " + i128s(rd[3]) + " param [" + i128s(rd[4]) + ", " + i128s(rd[5]) + "]");
        else if(d->compare(A, B) != 1)
            ctx.violate("parameters_changed", where() + " param() compares unequal to what was set");
        else
        {
            // parameter sets that differ in one bound only are different
            const i128 lo = A > t.min() ? A - 1 : A, hi = B < t.max() ? B + 1 : B;
            if(lo != A && d->compare(lo, B) != 2) ctx.violate("parameters_confused", where() + " param() compares equal to a set with another lower bound");
            if(hi != B && d->compare(A, hi) != 2) ctx.violate("parameters_confused", where() + " param() compares equal to a set with another upper bound");
        }
    };
    // n draws with per-call bounds [lo, hi] (or the distribution's own), same entropy to a fresh twin
    auto draws = [&](bool per_call, i128 lo, i128 hi, int n) {
        std::vector<i128> got;
        const Entropy ent0 = ent;
        bool failed = false;
        const u64 calls0 = ent.calls;
        for(int i = 0; i < n; ++i)
        {
            i128 v;
            try { v = per_call ? d->draw(lo, hi) : d->draw(); }
            catch(const DeviceError&) { failed = true; ctx.fault("entropy_failure"); break; }
            if(v < lo || v > hi) { ctx.violate("out_of_range", where() + fmt(" draw %d gave ", i) + i128s(v) + " outside [" + i128s(lo) + ", " + i128s(hi) + "]"); return; }
            got.push_back(v);
            ctx.mix(&v, 8);
        }
        if(ent.calls - calls0 > (u64)n * 4000 + ent0.script.size()) ctx.violate("no_progress", where() + " consumed unbounded entropy");
        // twin: fresh object, equal parameters, same generator state
        Entropy twin = ent0;
        g_entropy = &twin;
        auto f = d->fresh(lo, hi);
        for(size_t i = 0; i < got.size() && !ctx.bad(); ++i)
        {
            i128 v = 0;
            try { v = f->draw(); }
            catch(const DeviceError&) { break; }
            if(v != got[i]) ctx.violate("history_dependent", where() + fmt(" draw %zu gave ", i) + i128s(got[i]) + " but a fresh equal distribution gives " + i128s(v));
        }
        g_entropy = &ent;
        (void)failed;
        if(n >= 300 && !failed && !ctx.bad())
        {
            const size_t skip = std::min<size_t>(got.size(), 40); // drawn from the hostile prefix
            const i128 range = hi - lo + 1;
            if(range <= 8)
            {
                for(i128 v = lo; v <= hi; ++v)
                    if(std::find(got.begin() + (long)skip, got.end(), v) == got.end()) ctx.violate("value_never_drawn", where() + " " + i128s(v) + " of [" + i128s(lo) + ", " + i128s(hi) + "] in 300 draws");
            }
            else
            {
                // each quarter of the range, and the low bits of the offset: values confined to a subspace would mean that most can not occur
                bool quarter[4] = {};
                std::vector<u64> basis(64, 0);
                int bits = 0, rank = 0;
                while(bits < 62 && ((i128)1 << (bits + 2)) <= range) ++bits;
                for(size_t i = skip; i < got.size(); ++i)
                {
                    quarter[(int)((got[i] - lo) * 4 / range)] = true;
                    u64 v = ((u64)(got[i] - lo) ^ (u64)(got[skip] - lo)) & ((1ull << bits) - 1);
                    for(int b = bits - 1; b >= 0 && v; --b)
                    {
                        if(!(v >> b & 1)) continue;
                        if(!basis[b]) { basis[b] = v; ++rank; break; }
                        v ^= basis[b];
                    }
                }
                ctx.probe("spread_checked");
                if(rank < bits) ctx.violate("value_never_drawn", where() + fmt(" the low %d bits of 260 draws of [", bits) + i128s(lo) + ", " + i128s(hi) + fmt("] span only %d dimensions", rank));
                for(int q = 0; q < 4; ++q)
                    if(!quarter[q]) ctx.violate("value_never_drawn", where() + fmt(" none of 260 draws lies in quarter %d of [", q) + i128s(lo) + ", " + i128s(hi) + "]");
            }
        }
        ctx.ev("draws %zu", got.size());
    };
    for(auto& l : script)
    {
        if(ctx.bad()) break;
        auto k = split(l);
        if(k.empty() || k[0][0] == '!') continue;
        ++opno;
        ++ctx.ticks;
        i128 x = t.wrap(snum(k, 1)), y = t.wrap(snum(k, 2));
        if(x > y) std::swap(x, y);
        dirty_stack((unsigned char)(dirt + opno));
        if(k[0] == "E")
        {
            // hostile entropy: E pattern count tail
            ent.script.clear();
            ent.pos = 0;
            const u64 pat = (u64)num(k, 1), cnt = (u64)num(k, 2) % 64;
            ent.tail = (u64)num(k, 3) | 1;
            for(u64 i = 0; i < cnt; ++i)
                switch(pat % 6)
                {
                case 0: ent.script.push_back(0); break;
                case 1: ent.script.push_back(~0ull); break;
                case 2: ent.script.push_back(i & 1 ? ~0ull : 0); break;
                case 3: ent.script.push_back(1ull << (i & 63)); break;
                case 4: ent.script.push_back(0x8000000080000000ull); break;
                default: ent.script.push_back(0x7FFFFFFF7FFFFFFFull - i);
                }
            ctx.fault("hostile_entropy");
        }
        else if(k[0] == "f") { ent.fail_at = num(k, 1) % 20; }
        else if(k[0] == "g") { mark("draw"); draws(false, A, B, (int)(num(k, 3) % 400)); inspect(); ent.fail_at = -1; }
        else if(k[0] == "p")
        {
            mark("draw_with_param");
            ctx.probe("per_call_param");
            draws(true, x, y, (int)(num(k, 3) % 400));
            ent.fail_at = -1;
            if(!ctx.bad()) inspect();
        }
        else if(k[0] == "P") { mark("param"); d->param(x, y); A = x; B = y; ctx.fault("reparameterised"); inspect(); }
        else if(k[0] == "C")
        {
            mark("construct");
            d->make(x, y, num(k, 3) & 1, (int)(dirt + opno));
            A = x;
            B = y;
            inspect();
        }
        else if(k[0] == "r") { d->reset(); ctx.probe("reset"); inspect(); }
        else if(k[0] == "K")
        {
            // crash: the distribution is rebuilt from its saved parameters
            d->rebuild((int)(dirt ^ opno));
            ctx.fault("crash");
            inspect();
        }
    }
    g_entropy = nullptr;
}

template <class Fixed, class D> void pick_gen(const Lines& script, const TypeInfo& t, Ctx& ctx, const std::string& g, bool second)
{
    using One = eirin::fixed_int_distribution_adapter<Fixed, D>;
    using Two = eirin::fixed_distribution_adapter<Fixed, D>;
    using G32 = Urbg<uint32_t, 0u, ~0u>;
    using G64 = Urbg<uint64_t, 0ull, ~0ull>;
    using GN = Urbg<uint32_t, 5u, 104u>;
    using G1 = Urbg<uint32_t, 0u, 1u>;
    if(second)
    {
        if(g == "g64") return run_dist(script, t, ctx, "adapter/g64", std::make_unique<DutT<Fixed, Two, G64, true>>());
        if(g == "narrow") return run_dist(script, t, ctx, "adapter/narrow", std::make_unique<DutT<Fixed, Two, GN, true>>());
        return run_dist(script, t, ctx, "adapter/g32", std::make_unique<DutT<Fixed, Two, G32, true>>());
    }
    if(g == "g64") return run_dist(script, t, ctx, "g64", std::make_unique<DutT<Fixed, One, G64, false>>());
    if(g == "narrow") return run_dist(script, t, ctx, "narrow", std::make_unique<DutT<Fixed, One, GN, false>>());
    if(g == "bit") return run_dist(script, t, ctx, "bit", std::make_unique<DutT<Fixed, One, G1, false>>());
    return run_dist(script, t, ctx, "g32", std::make_unique<DutT<Fixed, One, G32, false>>());
}

void exec_dist(const Lines& script, Ctx& ctx)
{
    std::string type = "f32", g = "g32", base = "int";
    bool second = false;
    for(auto& l : script)
    {
        auto k = split(l);
        if(k.size() < 2) continue;
        if(k[0] == "!type") type = k[1];
        if(k[0] == "!gen") g = k[1];
        if(k[0] == "!base") base = k[1];
        if(k[0] == "!second") second = num(k, 1);
    }
    with_type(type, [&]<class Fixed>(const TypeInfo& t) {
        if constexpr(std::is_unsigned_v<typename Fixed::value_type>) pick_gen<Fixed, std::uniform_int_distribution<unsigned>>(script, t, ctx, g, second);
        else if(base == "short" && (std::is_same_v<Fixed, F32> || std::is_same_v<Fixed, F64> || std::is_same_v<Fixed, I16>)) pick_gen<Fixed, std::uniform_int_distribution<short>>(script, t, ctx, g, second);
        else if(base == "long") pick_gen<Fixed, std::uniform_int_distribution<long long>>(script, t, ctx, g, second);
        else pick_gen<Fixed, std::uniform_int_distribution<>>(script, t, ctx, g, second);
    });
}

void gen_dist(Rng& r, Lines& out)
{
    std::string type = gen_type(r);
    const TypeInfo& t = type_info(type);
    static const char* gens[] = {"g32", "g64", "narrow", "bit"};
    static const char* bases[] = {"int", "int", "long", "short"};
    out.push_back("!type " + type);
    out.push_back(std::string("!gen ") + gens[r.below(4)]);
    out.push_back(std::string("!base ") + bases[r.below(4)]);
    out.push_back(fmt("!second %d", (int)r.below(2)));
    out.push_back(fmt("!dirt %d", (int)r.below(256)));
    auto bounds = [&]() {
        i128 a = gen_raw(r, t), b = gen_raw(r, t);
        if(r.chance(1, 3)) { b = a + (i128)r.below(8); if(b > t.max()) b = a; }
        else if(r.chance(1, 6)) { a = t.min(); b = t.max() - (i128)r.below(2); }
        else if(r.chance(1, 8)) { i128 w = (i128)1 << r.below(t.bits - 1); b = a + w; if(b > t.max()) b = t.max(); }
        return i128s(a) + " " + i128s(b);
    };
    int n = 2 + (int)r.logu(12);
    for(int i = 0; i < n; ++i)
        switch(r.below(10))
        {
        case 0: case 1: out.push_back(fmt("E %d %d %llu", (int)r.below(6), (int)r.logu(63), (unsigned long long)r.next())); break;
        case 2: out.push_back(fmt("f %d", (int)r.below(20))); break;
        case 3: case 4: out.push_back(fmt("g 0 0 %d", r.chance(1, 16) ? 399 : (int)r.logu(30))); break;
        case 5: case 6: out.push_back("p " + bounds() + fmt(" %d", r.chance(1, 16) ? 399 : (int)r.logu(30))); break;
        case 7: out.push_back("P " + bounds()); break;
        case 8: out.push_back("C " + bounds() + fmt(" %d", (int)r.below(2))); break;
        default: out.push_back(r.chance(1, 2) ? "r" : "K");
        }
}
} // namespace

void sim::generate(const std::string& prop, Rng& r, Lines& out)
{
    if(prop == "C10") gen_dist(r, out);
    else gen_engine(r, out);
}
void sim::execute(const std::string& prop, const Lines& script, Ctx& ctx)
{
    if(prop == "C10") exec_dist(script, ctx);
    else exec_engine(script, ctx);
}

SIM_MAIN
