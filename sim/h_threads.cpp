// C06, C07: simulated threads over the real library.
// Real: the whole library and the standard library templates it uses, compiled with memory-access instrumentation; real
//       pthreads with their own stacks and thread-local storage.
// Simulated: the scheduler (one thread runs at a time, switches happen only where the script says), mutexes, once flags,
//       static-initialisation guards, atomics' happens-before, and the processor's CPUID.
// Every run is a forked child, so that it starts with every static of the library uninitialised; each thread's program is also
// run alone in a child of its own, which gives the results it must have.
#include <clocale>
#include <cmath>
#include <ctime>
#include "common.hpp"
#include "work.hpp"
#include <atomic>
#include <dlfcn.h>
#include <linux/futex.h>
#include <sys/syscall.h>
#include <libgen.h>
#include <link.h>
#include <pthread.h>
#include <semaphore.h>
#include <signal.h>
#include <sys/wait.h>

using namespace sim;

// ------------------------------------------------------------------------------------------------ shared with the children
namespace
{
constexpr int MAXT = 5, MAXOPS = 24;
struct Shared
{
    WorkRes res[MAXT][MAXOPS];
    u64 count[MAXT][MAXOPS][3]; // scheduling points passed: any access, static data, synchronisation
    char done[MAXT][MAXOPS];
    char finished, deadlock, no_progress, recursion;
    char race[400];
    u64 switches, forced, preempted, blocked, steps, sync_ops, cpuid_calls, stalled, inits;
    u64 threads_alive;
    size_t loglen;
    char log[60000];
};
Shared* sh;

struct Preempt
{
    int op;
    char kind;
    u64 k;
    int to;
};
struct Prog
{
    int n = 0;
    int id[MAXOPS], kind[MAXOPS];
    u64 seed[MAXOPS];
    int np = 0;
    Preempt p[64];
    int stall = 0;
};
Prog prog[MAXT];
int nthreads, only = -1;
bool fake_cpu;
unsigned cpu_leaf[8][4], cpu_max;
bool stray_ecx;

// ------------------------------------------------------------------------------------------------ scheduler
__thread int tid = -1;
sem_t baton[MAXT], all_done;
enum State { Ready, Blocked, Finished };
State state[MAXT];
const void* waiting[MAXT];
int cur_op[MAXT];
u64 cnt_any[MAXT], cnt_glob[MAXT], cnt_sync[MAXT];
u64 since_switch;
char* stack_lo[MAXT];
constexpr size_t STACK = 1 << 19;
char *glob_lo, *glob_hi; // writable data of the workload
char* code_base;

void say(const char* f, ...) __attribute__((format(printf, 1, 2)));
void say(const char* f, ...)
{
    if(sh->loglen + 200 > sizeof sh->log) return;
    va_list ap;
    va_start(ap, f);
    int n = vsnprintf(sh->log + sh->loglen, 190, f, ap);
    va_end(ap);
    sh->loglen += (size_t)n;
    sh->log[sh->loglen++] = '\n';
}
[[noreturn]] void end_run() { _exit(0); }
const char* opname(int t) { return cur_op[t] >= 0 && cur_op[t] < prog[t].n ? work_names[prog[t].kind[cur_op[t]]] : "start"; }

int pick(int prefer)
{
    if(prefer >= 0 && prefer < nthreads && state[prefer] == Ready) return prefer;
    for(int i = 1; i <= nthreads; ++i)
    {
        int t = (tid + i + nthreads) % nthreads;
        if(state[t] == Ready) return t;
    }
    return -1;
}
void run_next(int to) // hand the baton over; returns when we have it again
{
    since_switch = 0;
    if(to == tid) return;
    ++sh->switches;
    const int me = tid;
    sem_post(&baton[to]);
    if(state[me] == Finished) return;
    while(sem_wait(&baton[me])) {}
}
void block_on(const void* what)
{
    state[tid] = Blocked;
    waiting[tid] = what;
    ++sh->blocked;
    say("thread %d waits in %s", tid, opname(tid));
    int to = pick(-1);
    if(to < 0) { sh->deadlock = 1; end_run(); }
    run_next(to);
}
void wake(const void* what)
{
    for(int t = 0; t < nthreads; ++t)
        if(state[t] == Blocked && waiting[t] == what) state[t] = Ready;
}
void maybe_preempt(char kind, u64 k)
{
    Prog& p = prog[tid];
    for(int i = 0; i < p.np; ++i)
        if(p.p[i].op == cur_op[tid] && p.p[i].kind == kind && p.p[i].k == k)
        {
            p.p[i].op = -2; // used
            int to = pick(p.p[i].to);
            if(to >= 0 && to != tid)
            {
                ++sh->preempted;
                say("thread %d preempted in %s at %c%llu, thread %d runs %s", tid, opname(tid), kind, (unsigned long long)k, to, opname(to));
                run_next(to);
            }
            return;
        }
}
void step()
{
    ++sh->steps;
    if(sh->steps > 20000000) { sh->no_progress = 1; end_run(); }
    if(++since_switch > 400000)
    {
        int to = pick((tid + 1) % nthreads);
        since_switch = 0;
        if(to >= 0 && to != tid) { ++sh->forced; run_next(to); }
    }
}
void sync_point()
{
    ++sh->sync_ops;
    step();
    maybe_preempt('a', ++cnt_sync[tid]);
}
void yield_point() // the code gives up the processor
{
    ++sh->sync_ops;
    step();
    int to = pick((tid + 1) % nthreads);
    if(to >= 0 && to != tid) run_next(to);
}

// ------------------------------------------------------------------------------------------------ happens-before
unsigned vc[MAXT][MAXT];
unsigned fence_rel[MAXT][MAXT], pend_acq[MAXT][MAXT];
struct Sync
{
    const void* addr;
    unsigned c[MAXT];
};
constexpr int NSYNC = 4096;
Sync syncs[NSYNC];
Sync* sync_of(const void* a)
{
    size_t h = ((size_t)a >> 2) * 0x9E3779B97F4A7C15ull >> 40;
    for(int i = 0; i < NSYNC; ++i)
    {
        Sync& s = syncs[(h + (size_t)i) % NSYNC];
        if(s.addr == a) return &s;
        if(!s.addr) { s.addr = a; return &s; }
    }
    return nullptr;
}
void join(unsigned* a, const unsigned* b)
{
    for(int i = 0; i < MAXT; ++i)
        if(b[i] > a[i]) a[i] = b[i];
}
void acquire(const void* a) { if(Sync* s = sync_of(a)) join(vc[tid], s->c); }
void release(const void* a)
{
    if(Sync* s = sync_of(a)) join(s->c, vc[tid]);
    ++vc[tid][tid];
}

enum Acc { PR, PW, AR, AW, NACC };
struct Slot
{
    unsigned clk;
    unsigned char mask;
    signed char op;
    unsigned pc;
};
struct Shadow
{
    Slot s[MAXT][NACC];
};
constexpr size_t NBLOCK = 4096, GRAINS = 64; // granules of 8 bytes, 512 bytes of memory to a block
struct Block
{
    Shadow g[GRAINS];
};
uintptr_t block_key[NBLOCK];
Block* shadow;
Block* block_of(uintptr_t key, bool make)
{
    size_t h = key * 0x9E3779B97F4A7C15ull >> 52;
    for(size_t i = 0; i < 64; ++i)
    {
        size_t j = (h + i) % NBLOCK;
        if(block_key[j] == key) return &shadow[j];
        if(!block_key[j])
        {
            if(!make) return nullptr;
            block_key[j] = key;
            return &shadow[j];
        }
    }
    return nullptr; // table full here: not tracked
}
Shadow* shadow_of(uintptr_t g, bool make)
{
    Block* b = block_of(g / GRAINS, make);
    return b ? &b->g[g % GRAINS] : nullptr;
}
void forget(const void* p, size_t n) // fresh memory has no history
{
    if(!shadow || !n) return;
    uintptr_t a = (uintptr_t)p >> 3, b = ((uintptr_t)p + n - 1) >> 3;
    while(a <= b)
    {
        uintptr_t e = std::min(b, a / GRAINS * GRAINS + GRAINS - 1);
        if(Block* k = block_of(a / GRAINS, false)) memset(&k->g[a % GRAINS], 0, (e - a + 1) * sizeof(Shadow));
        a = e + 1;
    }
}
const char* accname(int k)
{
    static const char* n[] = {"read", "write", "atomic read", "atomic write"};
    return n[k];
}
void check_access(uintptr_t a, size_t n, Acc kind, void* pc)
{
    if(!shadow || n == 0) return;
    const uintptr_t end = a + n;
    while(a < end)
    {
        uintptr_t g = a >> 3, ge = (g + 1) << 3;
        uintptr_t e = end < ge ? end : ge;
        unsigned char mask = (unsigned char)(((1u << (e - a)) - 1) << (a & 7));
        if(Shadow* s = shadow_of(g, true))
        {
            for(int u = 0; u < nthreads; ++u)
            {
                if(u == tid) continue;
                for(int k = 0; k < NACC; ++k)
                {
                    const Slot& q = s->s[u][k];
                    if(!(q.mask & mask)) continue;
                    if((k == PR || k == AR) && (kind == PR || kind == AR)) continue;
                    if(k >= AR && kind >= AR) continue;
                    if(q.clk <= vc[tid][u]) continue;
                    if(!sh->race[0])
                    {
                        const bool glob = (char*)a >= glob_lo && (char*)a < glob_hi;
                        snprintf(sh->race, sizeof sh->race, "%s of %s in %s (pc +0x%zx) is not ordered with the %s in %s of another thread (pc +0x%x)",
                                 accname(kind), glob ? fmt("static data +0x%zx", (size_t)((char*)a - code_base)).c_str() : "heap memory", opname(tid), (size_t)((char*)pc - code_base), accname(k),
                                 q.op >= 0 ? work_names[(int)q.op] : "start", q.pc);
                        say("race");
                        end_run();
                    }
                }
            }
            Slot& me = s->s[tid][kind];
            const signed char o = cur_op[tid] >= 0 ? (signed char)prog[tid].kind[cur_op[tid]] : -1;
            if(me.clk == vc[tid][tid]) me.mask |= mask;
            else me.mask = mask;
            me.clk = vc[tid][tid];
            me.op = o;
            me.pc = (unsigned)((char*)pc - code_base);
        }
        a = e;
    }
}
inline bool own_stack(uintptr_t a) { return a - (uintptr_t)stack_lo[tid] < STACK; }
inline bool any_stack(uintptr_t a)
{
    for(int t = 0; t < nthreads; ++t)
        if(a - (uintptr_t)stack_lo[t] < STACK) return true;
    return false;
}
void access(const volatile void* p, size_t n, Acc kind, void* pc)
{
    if(tid < 0 || any_stack((uintptr_t)p)) return;
    step();
    const bool glob = (char*)p >= glob_lo && (char*)p < glob_hi;
    if(glob) maybe_preempt('g', ++cnt_glob[tid]);
    maybe_preempt('s', ++cnt_any[tid]);
    check_access((uintptr_t)p, n, kind, pc);
}
} // namespace

// ------------------------------------------------------------------------------------------------ instrumentation callbacks
#define PC __builtin_return_address(0)
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
#define RW(n) \
    void __tsan_read##n(void* p) { access(p, n, PR, PC); } \
    void __tsan_write##n(void* p) { access(p, n, PW, PC); } \
    void __tsan_unaligned_read##n(void* p) { access(p, n, PR, PC); } \
    void __tsan_unaligned_write##n(void* p) { access(p, n, PW, PC); } \
    void __tsan_volatile_read##n(void* p) { access(p, n, PR, PC); } \
    void __tsan_volatile_write##n(void* p) { access(p, n, PW, PC); } \
    void __tsan_read_write##n(void* p) { access(p, n, PR, PC); access(p, n, PW, PC); } \
    void __tsan_unaligned_read_write##n(void* p) { access(p, n, PR, PC); access(p, n, PW, PC); } \
    void __tsan_read##n##_pc(void* p, void* pc) { access(p, n, PR, pc); } \
    void __tsan_write##n##_pc(void* p, void* pc) { access(p, n, PW, pc); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, size_t n) { access(p, n, PR, PC); }
void __tsan_write_range(void* p, size_t n) { access(p, n, PW, PC); }
void __tsan_vptr_read(void** p) { access(p, 8, PR, PC); }
void __tsan_vptr_update(void** p, void* v) { if(*p != v) access(p, 8, PW, PC); }
void* __tsan_memcpy(void* d, const void* s, size_t n) { access(s, n, PR, PC); access(d, n, PW, PC); return memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, size_t n) { access(s, n, PR, PC); access(d, n, PW, PC); return memmove(d, s, n); }
void* __tsan_memset(void* d, int c, size_t n) { access(d, n, PW, PC); return memset(d, c, n); }
// the workload is linked with --wrap for these
void* __wrap_memcpy(void* d, const void* s, size_t n) { access(s, n, PR, PC); access(d, n, PW, PC); return memcpy(d, s, n); }
void* __wrap_memmove(void* d, const void* s, size_t n) { access(s, n, PR, PC); access(d, n, PW, PC); return memmove(d, s, n); }
void* __wrap_memset(void* d, int c, size_t n) { access(d, n, PW, PC); return memset(d, c, n); }
int __wrap_memcmp(const void* a, const void* b, size_t n) { access(a, n, PR, PC); access(b, n, PR, PC); return memcmp(a, b, n); }
int __wrap_bcmp(const void* a, const void* b, size_t n) { access(a, n, PR, PC); access(b, n, PR, PC); return memcmp(a, b, n); }
void* __wrap_memchr(const void* a, int c, size_t n) { access(a, n, PR, PC); return const_cast<void*>(memchr(a, c, n)); }
size_t __wrap_strlen(const char* a) { size_t n = strlen(a); access(a, n + 1, PR, PC); return n; }
char* __wrap_strcpy(char* d, const char* s) { size_t n = strlen(s) + 1; access(s, n, PR, PC); access(d, n, PW, PC); return static_cast<char*>(memcpy(d, s, n)); }
static int vs(char* d, size_t cap, const char* f, va_list ap, void* pc)
{
    int n = vsnprintf(d, cap, f, ap);
    if(n >= 0 && cap) access(d, (size_t)n + 1 < cap ? (size_t)n + 1 : cap, PW, pc);
    return n;
}
int __wrap_snprintf(char* d, size_t n, const char* f, ...) { va_list ap; va_start(ap, f); int r = vs(d, n, f, ap, PC); va_end(ap); return r; }
int __wrap___snprintf_chk(char* d, size_t n, int, size_t, const char* f, ...) { va_list ap; va_start(ap, f); int r = vs(d, n, f, ap, PC); va_end(ap); return r; }
int __wrap_sprintf(char* d, const char* f, ...) { va_list ap; va_start(ap, f); int r = vs(d, (size_t)1 << 30, f, ap, PC); va_end(ap); return r; }
int __wrap___sprintf_chk(char* d, int, size_t, const char* f, ...) { va_list ap; va_start(ap, f); int r = vs(d, (size_t)1 << 30, f, ap, PC); va_end(ap); return r; }
int __wrap_vsnprintf(char* d, size_t n, const char* f, va_list ap) { return vs(d, n, f, ap, PC); }
char* __wrap_strncpy(char* d, const char* s, size_t n) { access(s, strnlen(s, n), PR, PC); access(d, n, PW, PC); return strncpy(d, s, n); }
char* __wrap_strcat(char* d, const char* s) { size_t a = strlen(d), n = strlen(s) + 1; access(s, n, PR, PC); access(d, a + 1, PR, PC); access(d + a, n, PW, PC); return strcat(d, s); }
char* __wrap_stpcpy(char* d, const char* s) { size_t n = strlen(s) + 1; access(s, n, PR, PC); access(d, n, PW, PC); return stpcpy(d, s); }
int __wrap_strcmp(const char* a, const char* b) { access(a, strlen(a) + 1, PR, PC); access(b, strlen(b) + 1, PR, PC); return strcmp(a, b); }
int __wrap_strncmp(const char* a, const char* b, size_t n) { access(a, strnlen(a, n), PR, PC); access(b, strnlen(b, n), PR, PC); return strncmp(a, b, n); }
char* __wrap_strchr(const char* a, int c) { access(a, strlen(a) + 1, PR, PC); return const_cast<char*>(strchr(a, c)); }
// (newer C libraries redirect the integer ones to other names)
#define STRTO(f, type, params, args) type __wrap_##f params { access(s, strlen(s) + 1, PR, PC); return STRIP_##f args; }
#define STRIP_strtol strtol
#define STRIP___isoc23_strtol strtol
STRTO(strtol, long, (const char* s, char** e, int b), (s, e, b))
#define STRIP_strtoul strtoul
#define STRIP___isoc23_strtoul strtoul
STRTO(strtoul, unsigned long, (const char* s, char** e, int b), (s, e, b))
#define STRIP_strtoll strtoll
#define STRIP___isoc23_strtoll strtoll
STRTO(strtoll, long long, (const char* s, char** e, int b), (s, e, b))
#define STRIP_strtoull strtoull
#define STRIP___isoc23_strtoull strtoull
STRTO(strtoull, unsigned long long, (const char* s, char** e, int b), (s, e, b))
STRTO(__isoc23_strtol, long, (const char* s, char** e, int b), (s, e, b))
STRTO(__isoc23_strtoul, unsigned long, (const char* s, char** e, int b), (s, e, b))
STRTO(__isoc23_strtoll, long long, (const char* s, char** e, int b), (s, e, b))
STRTO(__isoc23_strtoull, unsigned long long, (const char* s, char** e, int b), (s, e, b))
#define STRIP_strtod strtod
STRTO(strtod, double, (const char* s, char** e), (s, e))
#define STRIP_strtof strtof
STRTO(strtof, float, (const char* s, char** e), (s, e))
#define STRIP_strtold strtold
STRTO(strtold, long double, (const char* s, char** e), (s, e))
// functions that POSIX or the C library call unsafe for threads: each has hidden state, which is a cell like any other memory
static struct Hidden { u64 locale, conv, tok, rnd48, tim, err, env, sig; } hidden;
char* __wrap_setlocale(int c, const char* l) { access(&hidden.locale, 8, l ? PW : PR, PC); return setlocale(c, l); }
struct lconv* __wrap_localeconv() { access(&hidden.conv, 8, PW, PC); return localeconv(); }
char* __wrap_strtok(char* a, const char* b) { access(&hidden.tok, 8, PW, PC); return strtok(a, b); }
double __wrap_drand48() { access(&hidden.rnd48, 8, PW, PC); return drand48(); }
long __wrap_lrand48() { access(&hidden.rnd48, 8, PW, PC); return lrand48(); }
long __wrap_mrand48() { access(&hidden.rnd48, 8, PW, PC); return mrand48(); }
void __wrap_srand48(long x) { access(&hidden.rnd48, 8, PW, PC); srand48(x); }
char* __wrap_asctime(const struct tm* t) { access(&hidden.tim, 8, PW, PC); return asctime(t); }
char* __wrap_ctime(const time_t* t) { access(&hidden.tim, 8, PW, PC); return ctime(t); }
struct tm* __wrap_gmtime(const time_t* t) { access(&hidden.tim, 8, PW, PC); return gmtime(t); }
struct tm* __wrap_localtime(const time_t* t) { access(&hidden.tim, 8, PW, PC); return localtime(t); }
char* __wrap_strerror(int e) { access(&hidden.err, 8, PW, PC); return strerror(e); }
char* __wrap_getenv(const char* n) { access(&hidden.env, 8, PR, PC); return getenv(n); }
int __wrap_setenv(const char* n, const char* v, int o) { access(&hidden.env, 8, PW, PC); return setenv(n, v, o); }
int __wrap_unsetenv(const char* n) { access(&hidden.env, 8, PW, PC); return unsetenv(n); }
double __wrap_lgamma(double x) { access(&hidden.sig, 8, PW, PC); return lgamma(x); }
// std::locale::global(const locale&), which returns a locale through the hidden first argument
void* real_locale_global(void*, const void*) asm("_ZNSt6locale6globalERKS_");
void* __wrap__ZNSt6locale6globalERKS_(void* r, const void* l) { access(&hidden.locale, 8, PW, PC); return real_locale_global(r, l); }

// atomics: executed for real, ordered by their memory order
static bool acq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static bool rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static void at_before(const volatile void* p, size_t n, bool w, void* pc)
{
    if(tid < 0) return;
    sync_point();
    if(!any_stack((uintptr_t)p)) check_access((uintptr_t)p, n, w ? AW : AR, pc);
}
static void at_load(const volatile void* p, int mo)
{
    if(tid < 0) return;
    Sync* s = sync_of((const void*)p);
    if(!s) return;
    if(acq(mo)) join(vc[tid], s->c);
    else join(pend_acq[tid], s->c);
}
static void at_store(const volatile void* p, int mo, bool rmw)
{
    if(tid < 0) return;
    Sync* s = sync_of((const void*)p);
    if(!s) return;
    if(!rmw) memset(s->c, 0, sizeof s->c); // a plain store heads no earlier release sequence
    if(rel(mo)) { join(s->c, vc[tid]); ++vc[tid][tid]; }
    else join(s->c, fence_rel[tid]);
}
#define ATOMICS(n, T) \
    T __tsan_atomic##n##_load(const volatile T* p, int mo) { at_before(p, sizeof(T), false, PC); T v; __atomic_load(const_cast<T*>(p), &v, __ATOMIC_SEQ_CST); at_load(p, mo); return v; } \
    void __tsan_atomic##n##_store(volatile T* p, T v, int mo) { at_before(p, sizeof(T), true, PC); __atomic_store(const_cast<T*>(p), &v, __ATOMIC_SEQ_CST); at_store(p, mo, false); } \
    T __tsan_atomic##n##_exchange(volatile T* p, T v, int mo) { at_before(p, sizeof(T), true, PC); T o; __atomic_exchange(const_cast<T*>(p), &v, &o, __ATOMIC_SEQ_CST); at_load(p, mo); at_store(p, mo, true); return o; } \
    static bool cas##n(volatile T* p, T* e, T v, int mo, int fmo, void* pc) { at_before(p, sizeof(T), true, pc); bool ok = *const_cast<T*>(p) == *e; if(ok) *const_cast<T*>(p) = v; else *e = *const_cast<T*>(p); at_load(p, ok ? mo : fmo); if(ok) at_store(p, mo, true); return ok; } \
    int __tsan_atomic##n##_compare_exchange_strong(volatile T* p, T* e, T v, int mo, int fmo) { return cas##n(p, e, v, mo, fmo, PC); } \
    int __tsan_atomic##n##_compare_exchange_weak(volatile T* p, T* e, T v, int mo, int fmo) { return cas##n(p, e, v, mo, fmo, PC); } \
    T __tsan_atomic##n##_compare_exchange_val(volatile T* p, T e, T v, int mo, int fmo) { cas##n(p, &e, v, mo, fmo, PC); return e; }
// one thread runs at a time, so a plain read-modify-write is atomic here
#define FETCH(n, T, name, expr) \
    T __tsan_atomic##n##_fetch_##name(volatile T* q, T v, int mo) { T* p = const_cast<T*>(q); at_before(p, sizeof(T), true, PC); T o = *p; *p = (T)(expr); at_load(p, mo); at_store(p, mo, true); return o; }
#define FETCHES(n, T) FETCH(n, T, add, o + v) FETCH(n, T, sub, o - v) FETCH(n, T, and, o & v) FETCH(n, T, or, o | v) FETCH(n, T, xor, o ^ v) FETCH(n, T, nand, ~(o & v))
ATOMICS(8, uint8_t) ATOMICS(16, uint16_t) ATOMICS(32, uint32_t) ATOMICS(64, uint64_t)
FETCHES(8, uint8_t) FETCHES(16, uint16_t) FETCHES(32, uint32_t) FETCHES(64, uint64_t)
void __tsan_atomic_thread_fence(int mo)
{
    if(tid < 0) return;
    sync_point();
    if(acq(mo)) join(vc[tid], pend_acq[tid]);
    if(rel(mo)) { memcpy(fence_rel[tid], vc[tid], sizeof vc[tid]); ++vc[tid][tid]; }
}
void __tsan_atomic_signal_fence(int) {}

// static-initialisation guards
int __cxa_guard_acquire(uint64_t* g)
{
    auto b = reinterpret_cast<volatile unsigned char*>(g);
    if(tid < 0) { if(b[0]) return 0; b[1] = 1; return 1; }
    sync_point();
    for(;;)
    {
        if(b[0]) { acquire(g); return 0; }
        if(!b[1]) break;
        if(b[2] == tid + 1) { sh->recursion = 1; end_run(); }
        block_on(g);
    }
    b[1] = 1;
    b[2] = (unsigned char)(tid + 1);
    ++sh->inits;
    acquire(g);
    return 1;
}
void __cxa_guard_release(uint64_t* g)
{
    auto b = reinterpret_cast<volatile unsigned char*>(g);
    if(tid >= 0) { sync_point(); release(g); }
    b[1] = 0;
    b[2] = 0;
    b[0] = 1;
    if(tid >= 0) wake(g);
}
void __cxa_guard_abort(uint64_t* g)
{
    auto b = reinterpret_cast<volatile unsigned char*>(g);
    b[1] = 0;
    b[2] = 0;
    if(tid >= 0) { release(g); wake(g); }
}

// mutexes, once flags
struct Lock
{
    const void* addr;
    int owner, depth, readers[MAXT];
};
static Lock locks[256];
static Lock* lock_of(const void* a)
{
    for(auto& l : locks)
    {
        if(l.addr == a) return &l;
        if(!l.addr) { l.addr = a; l.owner = -1; return &l; }
    }
    abort();
}
#define REAL(name) reinterpret_cast<decltype(&name)>(dlsym(RTLD_NEXT, #name))
int pthread_mutex_lock(pthread_mutex_t* m)
{
    if(tid < 0) { static auto f = REAL(pthread_mutex_lock); return f(m); }
    sync_point();
    Lock* l = lock_of(m);
    while(l->owner >= 0 && l->owner != tid) block_on(m);
    if(l->owner == tid && (m->__data.__kind & 3) != PTHREAD_MUTEX_RECURSIVE) { sh->deadlock = 1; end_run(); }
    l->owner = tid;
    ++l->depth;
    acquire(m);
    return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m)
{
    if(tid < 0) { static auto f = REAL(pthread_mutex_trylock); return f(m); }
    sync_point();
    Lock* l = lock_of(m);
    if(l->owner >= 0 && (l->owner != tid || (m->__data.__kind & 3) != PTHREAD_MUTEX_RECURSIVE)) return EBUSY;
    l->owner = tid;
    ++l->depth;
    acquire(m);
    return 0;
}
int pthread_mutex_unlock(pthread_mutex_t* m)
{
    if(tid < 0) { static auto f = REAL(pthread_mutex_unlock); return f(m); }
    Lock* l = lock_of(m);
    if(l->depth > 0 && --l->depth == 0)
    {
        release(m);
        l->owner = -1;
        wake(m);
        sync_point();
    }
    return 0;
}
static int rdlock(pthread_rwlock_t* m)
{
    sync_point();
    Lock* l = lock_of(m);
    while(l->owner >= 0) block_on(m);
    ++l->readers[tid];
    acquire(m);
    return 0;
}
static int wrlock(pthread_rwlock_t* m)
{
    sync_point();
    Lock* l = lock_of(m);
    for(;;)
    {
        bool busy = l->owner >= 0;
        for(int t = 0; t < nthreads; ++t) busy |= l->readers[t] > 0;
        if(!busy) break;
        block_on(m);
    }
    l->owner = tid;
    acquire(m);
    return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t* m) { if(tid < 0) { static auto f = REAL(pthread_rwlock_rdlock); return f(m); } return rdlock(m); }
int pthread_rwlock_wrlock(pthread_rwlock_t* m) { if(tid < 0) { static auto f = REAL(pthread_rwlock_wrlock); return f(m); } return wrlock(m); }
int pthread_rwlock_unlock(pthread_rwlock_t* m)
{
    if(tid < 0) { static auto f = REAL(pthread_rwlock_unlock); return f(m); }
    Lock* l = lock_of(m);
    if(l->owner == tid) l->owner = -1;
    else if(l->readers[tid] > 0) --l->readers[tid];
    release(m); // a reader's release also orders it before a later writer
    wake(m);
    sync_point();
    return 0;
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t* m)
{
    if(tid < 0) { static auto f = REAL(pthread_rwlock_tryrdlock); return f(m); }
    return lock_of(m)->owner >= 0 ? EBUSY : rdlock(m);
}
int pthread_rwlock_trywrlock(pthread_rwlock_t* m)
{
    if(tid < 0) { static auto f = REAL(pthread_rwlock_trywrlock); return f(m); }
    Lock* l = lock_of(m);
    for(int t = 0; t < nthreads; ++t)
        if(l->readers[t] > 0) return EBUSY;
    return l->owner >= 0 ? EBUSY : wrlock(m);
}
// condition variables: waking up without cause is allowed, so every signal wakes everybody
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
{
    if(tid < 0) { static auto f = REAL(pthread_cond_wait); return f(c, m); }
    sync_point();
    Lock* l = lock_of(m);
    l->depth = 0;
    l->owner = -1;
    release(m);
    wake(m);
    block_on(c);
    acquire(c);
    return pthread_mutex_lock(m);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* t)
{
    if(tid < 0) { static auto f = REAL(pthread_cond_timedwait); return f(c, m, t); }
    pthread_mutex_unlock(m);
    yield_point();
    pthread_mutex_lock(m);
    return ETIMEDOUT;
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const timespec* t)
{
    if(tid < 0) { static auto f = REAL(pthread_cond_clockwait); return f(c, m, k, t); }
    return pthread_cond_timedwait(c, m, t);
}
int pthread_cond_broadcast(pthread_cond_t* c)
{
    if(tid < 0) { static auto f = REAL(pthread_cond_broadcast); return f(c); }
    sync_point();
    release(c);
    wake(c);
    return 0;
}
int pthread_cond_signal(pthread_cond_t* c)
{
    if(tid < 0) { static auto f = REAL(pthread_cond_signal); return f(c); }
    return pthread_cond_broadcast(c);
}
// std::atomic::wait and notify come down to this
long syscall(long n, ...)
{
    long a[6];
    va_list ap;
    va_start(ap, n);
    for(long& x : a) x = va_arg(ap, long);
    va_end(ap);
    if(tid >= 0 && n == SYS_futex)
    {
        const int op = (int)a[1] & FUTEX_CMD_MASK;
        if(op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET)
        {
            sync_point();
            if(*(volatile int*)a[0] != (int)a[2]) { errno = EAGAIN; return -1; }
            if(a[3]) { yield_point(); errno = ETIMEDOUT; return -1; }
            block_on((void*)a[0]);
            return 0;
        }
        if(op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) { wake((void*)a[0]); sync_point(); return 1; }
    }
    long r;
    register long r10 __asm__("r10") = a[3];
    register long r8 __asm__("r8") = a[4];
    register long r9 __asm__("r9") = a[5];
    __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a[0]), "S"(a[1]), "d"(a[2]), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    if(r < 0 && r > -4096) { errno = (int)-r; return -1; }
    return r;
}
int pthread_once(pthread_once_t* o, void (*fn)())
{
    if(tid < 0) { if(*o != 2) { *o = 1; fn(); *o = 2; } return 0; }
    sync_point();
    for(;;)
    {
        if(*o == 2) { acquire(o); return 0; }
        if(*o != 1) break;
        block_on(o);
    }
    *o = 1;
    struct Undo { pthread_once_t* o; bool ok = false; ~Undo() { *o = ok ? 2 : 0; release(o); wake(o); } } u{o};
    ++sh->inits;
    fn();
    u.ok = true;
    return 0;
}
int sched_yield() { if(tid >= 0) yield_point(); return 0; }
int nanosleep(const timespec* a, timespec* b) { if(tid < 0) { static auto f = REAL(nanosleep); return f(a, b); } yield_point(); return 0; }
int usleep(useconds_t) { if(tid >= 0) yield_point(); return 0; }

// the allocator: fresh memory carries no history
extern void* __libc_malloc(size_t);
extern void __libc_free(void*);
extern void* __libc_calloc(size_t, size_t);
extern void* __libc_realloc(void*, size_t);
void* malloc(size_t n) { void* p = __libc_malloc(n); if(tid >= 0 && p) forget(p, n); return p; }
void* calloc(size_t a, size_t b) { void* p = __libc_calloc(a, b); if(tid >= 0 && p) forget(p, a * b); return p; }
void* realloc(void* q, size_t n) { void* p = __libc_realloc(q, n); if(tid >= 0 && p) forget(p, n); return p; }
void free(void* p) { __libc_free(p); }

// the processor
void sim_cpuid(unsigned leaf, unsigned sub, unsigned* o)
{
    if(tid >= 0) sync_point();
    if(sub == 0xFFFFFFFFu) sub = fake_cpu && tid >= 0 && stray_ecx ? 1 : 0; // not set by the code under test
    if(!fake_cpu || tid < 0)
    {
        __asm__ volatile("cpuid" : "=a"(o[0]), "=b"(o[1]), "=c"(o[2]), "=d"(o[3]) : "a"(leaf), "c"(sub));
        return;
    }
    ++sh->cpuid_calls;
    o[0] = o[1] = o[2] = o[3] = 0;
    if(leaf == 0x80000000u) { o[0] = 0x80000008u; return; }
    if(leaf > 0x80000000u) return;
    if(leaf > cpu_max) leaf = cpu_max; // the highest basic leaf answers for the missing ones
    if(leaf == 7 && sub) return;
    memcpy(o, cpu_leaf[leaf & 7], sizeof cpu_leaf[0]);
}
} // extern "C"

namespace
{
work_new_fn wnew;
work_op_fn wop;

void* body(void* arg)
{
    const int me = (int)(intptr_t)arg;
    while(sem_wait(&baton[me])) {}
    tid = me;
    cur_op[me] = -1;
    void* own = wnew();
    for(int i = 0; i < prog[me].n; ++i)
    {
        cur_op[me] = i;
        cnt_any[me] = cnt_glob[me] = cnt_sync[me] = 0;
        maybe_preempt('b', 0);
        WorkRes r{};
        try { wop(own, prog[me].kind[i], prog[me].seed[i], &r); }
        catch(...) { r.hash = 0xEEEE; }
        sh->res[me][i] = r;
        sh->done[me][i] = 1;
        sh->count[me][i][0] = cnt_any[me];
        sh->count[me][i][1] = cnt_glob[me];
        sh->count[me][i][2] = cnt_sync[me];
        if(sh->loglen + 200 < sizeof sh->log) say("thread %d did %s: %016llx", me, work_names[prog[me].kind[i]], (unsigned long long)r.hash);
    }
    state[me] = Finished;
    int to = pick(-1);
    if(to >= 0) run_next(to);
    else
    {
        bool all = true;
        for(int t = 0; t < nthreads; ++t) all &= state[t] == Finished;
        if(!all) { sh->deadlock = 1; end_run(); }
        sh->finished = 1;
        end_run();
    }
    for(;;) pause();
}

// run in a child: thread `only` alone, or all of them
int child(int alone, int first)
{
    fflush(nullptr);
    pid_t p = fork();
    if(p < 0) { perror("fork"); exit(3); }
    if(p == 0)
    {
        arm_cpu_watchdog(10);
        only = alone;
        shadow = static_cast<Block*>(mmap(nullptr, NBLOCK * sizeof(Block), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
        if(shadow == MAP_FAILED) _exit(3);
        for(int t = 0; t < nthreads; ++t)
        {
            sem_init(&baton[t], 0, 0);
            state[t] = alone < 0 || alone == t ? Ready : Finished;
            memset(vc[t], 0, sizeof vc[t]);
            vc[t][t] = 1;
            if(alone >= 0) prog[t].np = 0;
            if(state[t] != Ready) continue;
            stack_lo[t] = static_cast<char*>(mmap(nullptr, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
            pthread_attr_t at;
            pthread_attr_init(&at);
            pthread_attr_setstack(&at, stack_lo[t], STACK);
            pthread_t id;
            if(pthread_create(&id, &at, body, (void*)(intptr_t)t)) _exit(3);
        }
        int f = alone >= 0 ? alone : first;
        sem_post(&baton[f]);
        for(;;) pause();
    }
    int st = 0;
    while(waitpid(p, &st, 0) < 0) {}
    return st;
}

void load()
{
    if(wop) return;
    sh = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    char buf[4096];
    ssize_t n = readlink("/proc/self/exe", buf, sizeof buf - 8);
    if(n <= 0) exit(3);
    buf[n] = 0;
    std::string path = std::string(buf) + ".so";
    void* h = dlopen(path.c_str(), RTLD_NOW | RTLD_LOCAL);
    if(!h) { fprintf(stderr, "dlopen: %s\n", dlerror()); exit(3); }
    wnew = (work_new_fn)dlsym(h, "work_new");
    wop = (work_op_fn)dlsym(h, "work_op");
    if(!wnew || !wop) exit(3);
    link_map* lm;
    dlinfo(h, RTLD_DI_LINKMAP, &lm);
    code_base = (char*)lm->l_addr;
    dl_iterate_phdr([](dl_phdr_info* i, size_t, void*) -> int {
        if((char*)i->dlpi_addr != code_base) return 0;
        for(int k = 0; k < i->dlpi_phnum; ++k)
            if(i->dlpi_phdr[k].p_type == PT_LOAD && (i->dlpi_phdr[k].p_flags & PF_W))
            {
                glob_lo = code_base + i->dlpi_phdr[k].p_vaddr;
                glob_hi = glob_lo + i->dlpi_phdr[k].p_memsz;
            }
        return 0;
    }, nullptr);
}
int op_by_name(const std::string& s)
{
    for(int i = 0; i < WEnd; ++i)
        if(s == work_names[i]) return i;
    return -1;
}
// angle reduction by exact 64-bit arithmetic, as in the scalar specification
void simd_model(u64 seed, i64* out)
{
    u64 s = seed;
    auto next = [&] {
        u64 z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    };
    auto sm = [](i64 x, i64 y) {
        u128 p = (u128)(x < 0 ? 0 - (u64)x : (u64)x) * (u128)(y < 0 ? 0 - (u64)y : (u64)y);
        i64 q = (i64)(u64)(p >> 32);
        return (x < 0) != (y < 0) ? -q : q;
    };
    const i64 pi = (i64)(0x6487ED5110B4611All >> 29);
    const i64 two_pi = (i64)(((i128)pi * ((i128)2 << 32)) >> 32), inv = (i64)((((i128)1 << 64)) / two_pi);
    for(int i = 0; i < 4; ++i)
    {
        i64 x = simd_arg(next);
        i64 q = sm(x, inv);
        q = (q < 0 ? -1 : 1) * ((q < 0 ? -q : q) >> 32 << 32);
        out[i] = (i64)((u64)x - (u64)sm(q, two_pi));
    }
}
} // namespace

void sim::execute(const std::string& prop, const Lines& script, Ctx& ctx)
{
    load();
    nthreads = 2;
    int first = 0;
    fake_cpu = false;
    for(auto& p : prog) p = Prog{};
    for(auto& l : script)
    {
        auto k = split(l);
        if(k.empty()) continue;
        if(k[0] == "!threads") { nthreads = std::clamp((int)num(k, 1), 1, MAXT); first = (int)((u64)num(k, 2) % (u64)nthreads); }
        if(k[0] == "!cpu" && k.size() > 1)
        {
            fake_cpu = true;
            cpu_max = (unsigned)std::clamp((int)num(k, 1), 1, 7);
            Rng r((u64)num(k, 5));
            for(auto& q : cpu_leaf)
                for(auto& x : q) x = (unsigned)r.next();
            cpu_leaf[0][0] = cpu_max;
            stray_ecx = num(k, 5) & 1;
            cpu_leaf[0][1] = 0x756e6547; cpu_leaf[0][3] = 0x49656e69; cpu_leaf[0][2] = 0x6c65746e;
            cpu_leaf[1][2] = (unsigned)num(k, 2);
            cpu_leaf[1][3] = (unsigned)num(k, 3);
            cpu_leaf[7][0] = 0;
            cpu_leaf[7][1] = (unsigned)num(k, 4);
        }
    }
    for(auto& l : script)
    {
        auto k = split(l);
        if(k.size() < 2 || k[0] != "o") continue;
        int t = (int)((u64)num(k, 1) % (u64)nthreads), op = op_by_name(tok(k, 3));
        Prog& p = prog[t];
        if(op < 0 || p.n == MAXOPS) continue;
        p.id[p.n] = (int)num(k, 2);
        p.kind[p.n] = op;
        p.seed[p.n] = (u64)num(k, 4);
        ++p.n;
    }
    for(auto& l : script)
    {
        auto k = split(l);
        if(k.size() < 2 || k[0] != "P") continue;
        int t = (int)((u64)num(k, 1) % (u64)nthreads);
        Prog& p = prog[t];
        for(int i = 0; i < p.n; ++i)
            if(p.id[i] == (int)num(k, 2) && p.np < 64) p.p[p.np++] = {i, tok(k, 3, "s")[0], (u64)num(k, 4), (int)((u64)num(k, 5) % (u64)nthreads)};
    }
    mark("threads");
    auto died = [&](int st) { return WIFSIGNALED(st) ? WTERMSIG(st) : 0; };
    // what each thread gets when it runs alone
    static WorkRes alone[MAXT][MAXOPS];
    bool usable[MAXT];
    for(int t = 0; t < nthreads; ++t)
    {
        memset(sh, 0, sizeof *sh);
        int st = child(t, t);
        if(!WIFSIGNALED(st) && WEXITSTATUS(st) != 0) exit(3);
        usable[t] = !died(st) && sh->finished;
        if(!usable[t])
        {
            if(sh->recursion || sh->deadlock || sh->no_progress || died(st) == SIGPROF) { ctx.violate("blocked_forever", fmt("thread %d alone never ends", t)); return; }
            ctx.probe("fails_alone"); // not a matter of concurrency: other properties judge it
            return;
        }
        memcpy(alone[t], sh->res[t], sizeof alone[t]);
        // preemption positions are given in 1/10000 of the points the operation passes when alone
        for(int i = 0; i < prog[t].np; ++i)
        {
            Preempt& q = prog[t].p[i];
            const u64* n = sh->count[t][q.op];
            if(q.kind != 'b') q.k = 1 + q.k % 10000 * n[q.kind == 'a' ? 2 : q.kind == 'g' ? 1 : 0] / 10000;
        }
        ctx.ticks += sh->steps;
    }
    memset(sh, 0, sizeof *sh);
    int st = child(-1, first);
    if(!WIFSIGNALED(st) && WEXITSTATUS(st) != 0) exit(3);
    for(char* p = sh->log; p < sh->log + sh->loglen;)
    {
        char* e = static_cast<char*>(memchr(p, '\n', (size_t)(sh->log + sh->loglen - p)));
        if(!e) break;
        ctx.ev("%.*s", (int)(e - p), p);
        p = e + 1;
    }
    ctx.ticks += sh->steps;
    if(sh->preempted) ctx.fault("preemption", sh->preempted);
    if(sh->blocked) ctx.fault("blocked_on_first_use", sh->blocked);
    if(sh->forced) ctx.fault("forced_switch", sh->forced);
    if(sh->cpuid_calls) ctx.probe("cpuid", sh->cpuid_calls);
    if(sh->inits) ctx.probe("first_use", sh->inits);
    if(sh->sync_ops) ctx.probe("sync_ops", sh->sync_ops);
    ctx.probe("switches", sh->switches);
    ctx.probe("accesses", sh->steps);
    if(fake_cpu) ctx.fault("other_cpu");
    if(sh->race[0]) { ctx.violate("data_race", sh->race); return; }
    if(sh->deadlock || sh->recursion || sh->no_progress || died(st) == SIGPROF) { ctx.violate("blocked_forever", sh->deadlock ? "every thread waits" : sh->recursion ? "initialisation waits for itself" : "no progress"); return; }
    if(died(st)) { ctx.violate(fmt("crash:%d", died(st)), "the process died although every thread alone succeeds"); return; }
    if(!sh->finished) { ctx.violate("blocked_forever", "threads did not finish"); return; }
    for(int t = 0; t < nthreads; ++t)
        for(int i = 0; i < prog[t].n; ++i)
        {
            ctx.probe("ops");
            if(sh->res[t][i].hash != alone[t][i].hash)
            {
                ctx.violate("changed_result", fmt("%s in thread %d (operation %d) returns something else than alone", work_names[prog[t].kind[i]], t, prog[t].id[i]));
                return;
            }
        }
    // the processor's features
    unsigned want = 0;
    if(sh->cpuid_calls)
    {
        const bool has7 = cpu_max >= 7;
        want = (cpu_leaf[1][3] >> 26 & 1) | (cpu_leaf[1][2] >> 20 & 1) << 1 | (cpu_leaf[1][2] >> 28 & 1) << 2 | (has7 && cpu_leaf[7][1] >> 5 & 1) << 3 | (has7 && cpu_leaf[7][1] >> 16 & 1) << 4 | (has7 && cpu_leaf[7][1] >> 17 & 1) << 5;
    }
    else
    {
        auto q = [](unsigned leaf, int r) { unsigned o[4]; __asm__ volatile("cpuid" : "=a"(o[0]), "=b"(o[1]), "=c"(o[2]), "=d"(o[3]) : "a"(leaf), "c"(0)); return o[r]; };
        const bool has7 = q(0, 0) >= 7;
        want = (q(1, 3) >> 26 & 1) | (q(1, 2) >> 20 & 1) << 1 | (q(1, 2) >> 28 & 1) << 2 | (has7 && q(7, 1) >> 5 & 1) << 3 | (has7 && q(7, 1) >> 16 & 1) << 4 | (has7 && q(7, 1) >> 17 & 1) << 5;
    }
    if(prop == "C07")
        for(int t = 0; t < nthreads; ++t)
            for(int i = 0; i < prog[t].n; ++i)
            {
                const WorkRes& r = sh->res[t][i];
                if(prog[t].kind[i] == WCpu)
                {
                    ctx.probe("query");
                    if(r.value != (want & r.value2)) { ctx.violate("wrong_features", fmt("thread %d operation %d: queries %02llx answered %02llx, the processor reports %02x", t, prog[t].id[i], (unsigned long long)r.value2, (unsigned long long)r.value, want)); return; }
                }
                if(prog[t].kind[i] == WSimd && (r.out[0] | r.out[1] | r.out[2] | r.out[3]))
                {
                    ctx.probe("simd_checked");
                    i64 w[4];
                    simd_model(prog[t].seed[i], w);
                    for(int k = 0; k < 8; ++k)
                        if(r.out[k] != w[k % 4]) { ctx.violate("wrong_simd", fmt("%s lane %d: %lld, scalar %lld", k < 4 ? "AVX" : "SSE", k % 4, (long long)r.out[k], (long long)w[k % 4])); return; }
                }
            }
}

void sim::generate(const std::string& prop, Rng& r, Lines& out)
{
    const bool c7 = prop == "C07";
    const int nt = 2 + (int)r.below(c7 ? 4 : 3);
    out.push_back(fmt("!threads %d %d", nt, (int)r.below((u64)nt)));
    if(c7 || r.chance(1, 2))
    {
        auto bits = [&](std::initializer_list<int> bs) {
            unsigned v = (unsigned)r.next();
            unsigned all = 0;
            for(int b : bs) all |= 1u << b;
            if(r.chance(1, 4)) v |= all;
            else if(r.chance(1, 4)) v &= ~all;
            return v;
        };
        out.push_back(fmt("!cpu %d %u %u %u %llu", r.chance(1, 5) ? 1 + (int)r.below(6) : 7, bits({20, 28}), bits({26}), bits({5, 16, 17}), (unsigned long long)r.next()));
    }
    int id = 0;
    // a run draws from a few kinds, so that threads meet in the same code
    int kinds[4];
    const int nk = 1 + (int)r.below(4);
    for(int i = 0; i < nk; ++i) kinds[i] = c7 ? (r.chance(3, 4) ? (int)WCpu : (int)WSimd) : (int)r.below(WEnd);
    struct O { int t, id; };
    std::vector<O> ops;
    for(int t = 0; t < nt; ++t)
    {
        const int n = 1 + (int)r.below(c7 ? 6 : 5);
        for(int i = 0; i < n; ++i)
        {
            int k = r.chance(4, 5) ? kinds[r.below((u64)nk)] : c7 ? (int)WCpu : (int)r.below(WEnd);
            ops.push_back({t, ++id});
            // small seeds repeat, so that threads also do the same thing with the same values
            out.push_back(fmt("o %d %d %s %llu", t, id, work_names[k], (unsigned long long)(r.chance(1, 2) ? r.below(6) : r.next() >> 20)));
        }
    }
    const int np = 1 + (int)r.below(7);
    for(int i = 0; i < np; ++i)
    {
        O o = r.pick(ops);
        const char kind = "bagsssa"[r.below(7)];
        u64 k = kind == 'b' ? 0 : r.below(10000);
        out.push_back(fmt("P %d %d %c %llu %d", o.t, o.id, kind, (unsigned long long)k, (o.t + 1 + (int)r.below((u64)nt - 1)) % nt));
    }
}

SIM_MAIN
