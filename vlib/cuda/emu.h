// A sequential execution model of CUDA thread blocks.
//
// Every thread of a block is a fiber.  Fibers run one at a time; a fiber
// runs until its next synchronisation (block barrier or warp collective) or
// its end.  Between two synchronisations the threads run in the order the
// caller chose: two opposite orders expose every pair of conflicting
// accesses that is not separated by a synchronisation, because one of the
// orders performs them the other way round.  Shared memory is poisoned at
// the start of each block.
#pragma once
#include <cmath>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <type_traits>
#include <utility>
#include <algorithm>
#include <vector>
#include <ucontext.h>
#include <setjmp.h>

#define __global__
#define __device__
#define __host__
#define __forceinline__ inline
#define __align__(n) __attribute__((aligned(n)))
#define __restrict__
#define __launch_bounds__(...)
#define __shared__ static __attribute__((section("cushared")))

struct uint3 { unsigned int x, y, z; };
typedef uint3 dim3;

#define EMU_VEC(T, N) \
    struct N##2 { T x, y; } __attribute__((aligned(2*sizeof(T)))); \
    struct N##3 { T x, y, z; }; \
    struct N##4 { T x, y, z, w; }; \
    static inline N##2 make_##N##2(T x, T y) { N##2 r = {x, y}; return r; } \
    static inline N##3 make_##N##3(T x, T y, T z) \
    { N##3 r = {x, y, z}; return r; } \
    static inline N##4 make_##N##4(T x, T y, T z, T w) \
    { N##4 r = {x, y, z, w}; return r; }
EMU_VEC(float, float)
EMU_VEC(double, double)
EMU_VEC(int, int)

template <typename T> static inline T __ldg(const T* p) { return *p; }
static inline float rsqrtf(float x) { return 1.0f/std::sqrt(x); }
static inline double rsqrt(double x) { return 1.0/std::sqrt(x); }
using std::min;
using std::max;
using std::isfinite;
using std::isnan;

namespace emu {
enum State { READY, BARRIER, WARP, DONE };
struct Thread {
    uint3 tid;
    int warp, lane;
    State state;
    unsigned mask;              // lanes the collective waits for
    bool all;                   // it waits for all live lanes
    int op;                     // sequence of collectives of the lane
    ucontext_t ctx;
    char value[16];
    size_t size;
};
extern Thread* cur;
extern uint3 block_idx, block_dim, grid_dim;
[[noreturn]] void fail(const char* what);
void barrier();
// deposit a value, wait for the lanes of the mask; true: lane took part
unsigned collect(unsigned mask, bool all, const void* v, size_t n);
bool fetch(int lane, void* v, size_t n);
const char* launch(const unsigned* grid, const unsigned* block, void** args,
                   int reversed, int rotate, long* count, char* stack_space,
                   void (*fn)(void**), char* shared, size_t size);
}
#define threadIdx (emu::cur->tid)
#define blockIdx (emu::block_idx)
#define blockDim (emu::block_dim)
#define gridDim (emu::grid_dim)
#define warpSize 32
#define __syncthreads() emu::barrier()

static inline void __syncwarp(unsigned mask = 0xffffffffu)
{ int z = 0; emu::collect(mask, false, &z, sizeof z); }

static inline unsigned __activemask()
{ int z = 0; return emu::collect(0, true, &z, sizeof z); }

static inline unsigned __ballot_sync(unsigned mask, int pred)
{
    unsigned in = emu::collect(mask, false, &pred, sizeof pred), r = 0;
    for(int l = 0; l < 32; ++l)
    {
        int p = 0;
        if((in >> l & 1) && emu::fetch(l, &p, sizeof p) && p)
            r |= 1u << l;
    }
    return r;
}

template <typename T>
static inline T __shfl_sync(unsigned mask, T v, int src, int width = 32)
{
    emu::collect(mask, false, &v, sizeof v);
    int base = emu::cur->lane/width*width;
    int from = base + (src & (width - 1));
    T r;
    if(!emu::fetch(from, &r, sizeof r))
        memset(&r, 0xff, sizeof r);      // undefined value
    return r;
}

template <typename T>
static inline T __shfl_xor_sync(unsigned mask, T v, int m, int width = 32)
{ return __shfl_sync(mask, v, (emu::cur->lane & (width - 1)) ^ m, width); }

template <typename T>
static inline T __shfl_down_sync(unsigned mask, T v, int d, int width = 32)
{
    int l = emu::cur->lane & (width - 1);
    return __shfl_sync(mask, v, l + d < width ? l + d : l, width);
}

template <typename T>
static inline T __shfl_up_sync(unsigned mask, T v, int d, int width = 32)
{
    int l = emu::cur->lane & (width - 1);
    return __shfl_sync(mask, v, l - d >= 0 ? l - d : l, width);
}
template <typename T> static inline T atomicAdd(T* p, T v)
{ T o = *p; *p += v; return o; }
