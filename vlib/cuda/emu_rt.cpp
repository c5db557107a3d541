// the scheduler of the threads of a block
#include "emu.h"
#undef threadIdx
#undef blockIdx
#undef blockDim
#undef gridDim

namespace emu {
Thread* cur;
uint3 block_idx, block_dim, grid_dim;
static std::vector<Thread> threads;
static char* stacks;
static const size_t STACK = 48*1024;
static jmp_buf bail;
static const char* error;
static ucontext_t main_ctx;
static void (*body)(void**);
static void** body_args;
static char* shared_mem;
static size_t shared_size;
static long switches;

void fail(const char* what)
{
    error = what;
    setcontext(&main_ctx);       // abandons all fibers
    abort();
}

static void yield() { swapcontext(&cur->ctx, &main_ctx); }

void barrier() { cur->state = BARRIER; yield(); }

struct Slot { unsigned in; char value[32][16]; };
static std::vector<Slot> now, taken;     // per warp

unsigned collect(unsigned mask, bool all, const void* v, size_t n)
{
    if(!all && !(mask >> cur->lane & 1))
        fail("a lane calls a warp primitive with a mask that excludes it");
    cur->mask = mask; cur->all = all; cur->size = n;
    memcpy(cur->value, v, n);
    cur->state = WARP;
    yield();
    return taken[cur->warp].in;
}

bool fetch(int lane, void* v, size_t n)
{
    Slot& s = taken[cur->warp];
    if(lane < 0 || lane >= 32 || !(s.in >> lane & 1))
        return false;
    memcpy(v, s.value[lane], n);
    return true;
}

static void entry() { body(body_args); cur->state = DONE; yield(); }

// lanes of a warp meet: all live lanes wait in a collective whose masks agree
static bool release_warp(int w, int n)
{
    unsigned live = 0, in = 0, mask = 0; bool all = false, first = true;
    for(int i = 0; i < n; ++i)
    {
        Thread& t = threads[i];
        if(t.warp != w || t.state == DONE)
            continue;
        live |= 1u << t.lane;
        if(t.state == WARP)
        {
            in |= 1u << t.lane;
            if(first) { mask = t.mask; all = t.all; first = false; }
            else if(mask != t.mask || all != t.all)
                return false;
        }
    }
    if(!in)
        return false;
    unsigned need = all ? live : (mask & live);
    if((need & ~in) != 0)
        return false;
    Slot& s = taken[w];
    s.in = in;
    for(int i = 0; i < n; ++i)
    {
        Thread& t = threads[i];
        if(t.warp == w && t.state == WARP)
        {
            memcpy(s.value[t.lane], t.value, t.size);
            t.state = READY;
        }
    }
    return true;
}

// A released warp reads the taken values when its lanes run again; they must
// all have done so before the next release, which needs all of them to wait.

static volatile bool failed;

static bool run_thread(Thread& t)
{
    cur = &t;
    ++switches;
    failed = true;
    error = 0;
    swapcontext(&main_ctx, &t.ctx);
    return !error;
}

// one warp after the other, each as far as it gets on its own
static bool run_warps(int n, const std::vector<int>& order)
{
    std::vector<std::vector<int>> lanes((n + 31)/32);
    std::vector<int> turn;
    for(int k = 0; k < n; ++k)
    {
        int w = threads[order[k]].warp;
        if(lanes[w].empty())
            turn.push_back(w);
        lanes[w].push_back(order[k]);
    }
    for(int w : turn)
        do
            for(bool ran = true; ran;)
            {
                ran = false;
                for(int i : lanes[w])
                {
                    if(threads[i].state != READY)
                        continue;
                    if(!run_thread(threads[i]))
                        return false;
                    ran = true;
                }
            }
        while(release_warp(w, n));
    return true;
}

static bool run_block(int n, const std::vector<int>& order, bool warpwise)
{
    if(shared_size)
        memset(shared_mem, 0xff, shared_size);
    int nwarp = (n + 31)/32;
    taken.assign(nwarp, Slot());
    for(int i = 0; i < n; ++i)
    {
        Thread& t = threads[i];
        t.state = READY;
        t.tid.x = i % block_dim.x;
        t.tid.y = i / block_dim.x % block_dim.y;
        t.tid.z = i / block_dim.x / block_dim.y;
        t.warp = i/32; t.lane = i%32;
        getcontext(&t.ctx);
        t.ctx.uc_stack.ss_sp = &stacks[i*STACK];
        t.ctx.uc_stack.ss_size = STACK;
        t.ctx.uc_link = 0;
        makecontext(&t.ctx, entry, 0);
    }
    for(;;)
    {
        bool ran = false;
        if(warpwise && !run_warps(n, order))
            return false;
        for(int k = 0; k < n; ++k)
        {
            Thread& t = threads[order[k]];
            if(t.state != READY)
                continue;
            if(!run_thread(t))
                return false;
            ran = true;
        }
        if(ran)
            continue;
        bool freed = false;
        for(int w = 0; w < nwarp; ++w)
            freed |= release_warp(w, n);
        if(freed)
            continue;
        // block barrier: every live thread waits in it
        bool live = false, ready = true;
        for(int i = 0; i < n; ++i)
            if(threads[i].state != DONE)
            {
                live = true;
                ready &= threads[i].state == BARRIER;
            }
        if(!live)
            return true;
        if(!ready)
        { error = "threads wait for each other for ever"; return false; }
        for(int i = 0; i < n; ++i)
            if(threads[i].state == BARRIER)
                threads[i].state = READY;
    }
}

const char* launch(const unsigned* grid, const unsigned* block, void** args,
                   int reversed, int rotate, long* count, char* stack_space,
                   void (*fn)(void**), char* shared, size_t size)
{
    int n = block[0]*block[1]*block[2];
    if(n > 1024)
        return "more than 1024 threads in a block";
    block_dim = uint3{block[0], block[1], block[2]};
    grid_dim = uint3{grid[0], grid[1], grid[2]};
    threads.resize(n);
    stacks = stack_space;
    std::vector<int> order(n);
    for(int i = 0; i < n; ++i)
        order[i] = (i + rotate) % n;
    bool warpwise = reversed & 2;
    reversed &= 1;
    if(reversed)
        std::reverse(order.begin(), order.end());
    body = fn;
    shared_mem = shared;
    shared_size = size;
    body_args = args;
    switches = 0;
    long nb = (long)grid[0]*grid[1]*grid[2];
    for(long k = 0; k < nb; ++k)
    {
        long b = reversed ? nb - 1 - k : k;
        block_idx.x = b % grid[0];
        block_idx.y = b / grid[0] % grid[1];
        block_idx.z = b / grid[0] / grid[1];
        if(!run_block(n, order, warpwise))
        {
            *count = switches;
            return error;
        }
    }
    *count = switches;
    return 0;
}
}
