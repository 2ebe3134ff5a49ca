// Simulated allocator: every operator new of the process goes through here; the script decides which allocation fails.
#pragma once
#include <cstddef>
#include <cstdlib>
#include <new>
namespace sim
{
struct AllocState
{
    long live = 0;        // live blocks
    long count = 0;       // allocations since arm()
    long fail_at = 0;     // 1-based; 0 never
    bool sticky = false;  // keep failing after the first failure
    long failed = 0;
    unsigned char junk = 0xCD; // fresh memory content
};
inline AllocState g_alloc;
struct AllocArm
{
    long live0;
    AllocArm(long k, bool sticky)
    {
        g_alloc.count = 0;
        g_alloc.failed = 0;
        g_alloc.sticky = sticky;
        g_alloc.fail_at = k;
        live0 = g_alloc.live;
    }
    void disarm() { g_alloc.fail_at = 0; }
    ~AllocArm() { disarm(); }
};
inline void* sim_alloc(std::size_t n)
{
    if(g_alloc.fail_at)
    {
        ++g_alloc.count;
        if(g_alloc.count == g_alloc.fail_at || (g_alloc.sticky && g_alloc.count > g_alloc.fail_at))
        {
            ++g_alloc.failed;
            throw std::bad_alloc();
        }
    }
    void* p = std::malloc(n ? n : 1);
    if(!p) throw std::bad_alloc();
    auto b = static_cast<unsigned char*>(p);
    for(std::size_t i = 0; i < n; ++i) b[i] = g_alloc.junk;
    ++g_alloc.live;
    return p;
}
inline void sim_free(void* p) noexcept
{
    if(!p) return;
    --g_alloc.live;
    std::free(p);
}
} // namespace sim
void* operator new(std::size_t n) { return sim::sim_alloc(n); }
void* operator new[](std::size_t n) { return sim::sim_alloc(n); }
void operator delete(void* p) noexcept { sim::sim_free(p); }
void operator delete[](void* p) noexcept { sim::sim_free(p); }
void operator delete(void* p, std::size_t) noexcept { sim::sim_free(p); }
void operator delete[](void* p, std::size_t) noexcept { sim::sim_free(p); }
