// Stands in for the compiler's <cpuid.h>: every CPUID of the code under test asks the simulated processor.
#pragma once
extern "C" void sim_cpuid(unsigned leaf, unsigned sub, unsigned* out);
#define SIM_ANY_ECX 0xFFFFFFFFu // the instruction takes whatever the register holds
#define __cpuid(level, a, b, c, d) \
    do { unsigned sim_q[4]; sim_cpuid((unsigned)(level), SIM_ANY_ECX, sim_q); (a) = sim_q[0]; (b) = sim_q[1]; (c) = sim_q[2]; (d) = sim_q[3]; } while(0)
#define __cpuid_count(level, count, a, b, c, d) \
    do { unsigned sim_q[4]; sim_cpuid((unsigned)(level), (unsigned)(count), sim_q); (a) = sim_q[0]; (b) = sim_q[1]; (c) = sim_q[2]; (d) = sim_q[3]; } while(0)
static inline unsigned __get_cpuid_max(unsigned ext, unsigned* sig)
{
    unsigned q[4];
    sim_cpuid(ext, 0, q);
    if(sig) *sig = q[1];
    return q[0];
}
static inline int __get_cpuid(unsigned leaf, unsigned* a, unsigned* b, unsigned* c, unsigned* d)
{
    unsigned m = __get_cpuid_max(leaf & 0x80000000u, nullptr);
    if(m == 0 || m < leaf) return 0;
    unsigned q[4];
    sim_cpuid(leaf, SIM_ANY_ECX, q);
    *a = q[0]; *b = q[1]; *c = q[2]; *d = q[3];
    return 1;
}
static inline int __get_cpuid_count(unsigned leaf, unsigned sub, unsigned* a, unsigned* b, unsigned* c, unsigned* d)
{
    unsigned m = __get_cpuid_max(leaf & 0x80000000u, nullptr);
    if(m == 0 || m < leaf) return 0;
    unsigned q[4];
    sim_cpuid(leaf, sub, q);
    *a = q[0]; *b = q[1]; *c = q[2]; *d = q[3];
    return 1;
}
#define bit_SSE2 (1 << 26)
#define bit_SSE4_2 (1 << 20)
#define bit_AVX (1 << 28)
#define bit_AVX2 (1 << 5)
#define bit_AVX512F (1 << 16)
#define bit_AVX512DQ (1 << 17)
#define bit_OSXSAVE (1 << 27)
#define bit_FMA (1 << 12)
