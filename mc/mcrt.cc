// Model-checking runtime: controlled scheduler (fibers), virtual clock, deterministic
// arena, happens-before race detector and exhaustive explorer.
//
// This file is compiled WITHOUT instrumentation. It supplies the __tsan_* entry points that
// the compiler emits for the instrumented code under test, and interposes the pthread, clock
// and allocation functions.
#include "mc.h"

#include <cerrno>
#include <csetjmp>
#include <csignal>
#include <sys/time.h>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <algorithm>
#include <exception>
#include <new>
#include <string>
#include <unordered_map>
#include <vector>
#include <chrono>
#include <link.h>
#include <pthread.h>
#include <sched.h>
#include <sys/mman.h>
#include <sys/single_threaded.h>
#include <sys/wait.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

extern "C" {
extern char __data_start, _end;
void* __real_malloc(size_t); void __real_free(void*); void* __real_calloc(size_t, size_t);
void* __real_realloc(void*, size_t);
void* __real_memcpy(void*, const void*, size_t); void* __real_memmove(void*, const void*, size_t);
void* __real_memset(void*, int, size_t); int __real_memcmp(const void*, const void*, size_t);
size_t __real_strlen(const char*);
}

namespace {

constexpr int NF = 8;                     // max. threads per execution
constexpr size_t STACK = 128 * 1024;
constexpr size_t HEAP = 1024 * 1024;      // per thread
constexpr size_t REGION = NF * (STACK + HEAP);
constexpr size_t GRAN = REGION / 8;
constexpr int MAXSTEPS = 6000;
constexpr int FAIR_AFTER = 300;           // forced rotation if one thread hogs the processor
constexpr mc::ns_t SYS_BASE = 1000000000LL * 1000000000LL;   // virtual system clock at start
constexpr mc::ns_t MONO_BASE = 5000LL * 1000000000LL;

using u64 = uint64_t; using u32 = uint32_t; using u16 = uint16_t; using u8 = uint8_t;
using mc::ns_t;

inline u64 mix(u64 a, u64 b)
{
    u64 x = a * 0x9E3779B97F4A7C15ull ^ (b + 0x7F4A7C15F39CC060ull + (a << 6) + (a >> 2));
    x ^= x >> 32; x *= 0xD6E8FEB86659FD93ull; x ^= x >> 29; x *= 0xD6E8FEB86659FD93ull; x ^= x >> 32;
    return x;
}

struct VC
{
    u16 c[NF];
    void clear() { for (auto& x : c) x = 0; }
    void join(const VC& o) { for (int i = 0; i < NF; ++i) if (o.c[i] > c[i]) c[i] = o.c[i]; }
};

enum OpKind { OP_NONE, OP_STEP, OP_LOCK, OP_COND, OP_JOIN, OP_FUTEX, OP_SLEEP, OP_ONCE, OP_GATE, OP_QUIESCE, OP_RWR, OP_RWW };

struct Sync
{
    u64 key;          // address (0: unused)
    u64 wh;           // hash of last write
    VC vc;
    int owner;        // mutex owner or -1; rwlock writer
    int depth;        // recursion / readers
};

struct Fiber
{
    void* sp;
    bool used, done, detached, joined;
    bool fresh;
    OpKind op; u64 op_addr; ns_t deadline; int join_target;   // pending operation
    int wake;            // 0: waiting, 1: signaled, 2: timeout, 3: spurious
    u64 cond_seq;        // FIFO position
    u64 mutex_addr;      // mutex to reacquire after cond wait
    u64 h;
    VC vc, relfence, acqpend; bool has_relfence;
    void* (*start)(void*); void* arg; void* ret;
    char* stack; char* heap; size_t heap_used;
    u64 sigmask;
    int first_join;
    char* tls;
    struct { void (*fn)(void*); void* obj; } tdtor[16]; int ntdtor;
    const char* what;
    const char *prompt_cat, *prompt_what;
};

struct Cell { u16 w; u8 wt; u8 rmask; u16 r[NF]; };
struct Gran { u32 fast_r, fast_w; u8 touched; Cell c[8]; };

enum { AL_NONE = 0, AL_LIVE = 1, AL_FREED = 2, AL_NORACE = 3 };

struct Choice { u8 n, chosen; u16 cost_before; u8 cost[24]; u8 kind[24]; u64 sig; };

struct Visited
{
    // open-addressing hash map signature -> minimal cost
    std::vector<u64> keys; std::vector<u8> val; size_t n = 0;
    Visited() { keys.assign(1 << 16, 0); val.assign(1 << 16, 0); }
    void clear() { keys.assign(1 << 16, 0); val.assign(1 << 16, 0); n = 0; }
    // returns true if already visited with cost <= c
    bool check(u64 k, u8 c)
    {
        if (!k) k = 1;
        if (n * 2 > keys.size()) grow();
        size_t m = keys.size() - 1, i = k & m;
        while (keys[i] && keys[i] != k) i = (i + 1) & m;
        if (keys[i] == k) { if (val[i] <= c) return true; val[i] = c; return false; }
        keys[i] = k; val[i] = c; ++n; return false;
    }
    void grow()
    {
        std::vector<u64> k2(keys.size() * 2, 0); std::vector<u8> v2(keys.size() * 2, 0);
        size_t m = k2.size() - 1;
        for (size_t j = 0; j < keys.size(); ++j) if (keys[j]) {
            size_t i = keys[j] & m; while (k2[i]) i = (i + 1) & m; k2[i] = keys[j]; v2[i] = val[j]; }
        keys.swap(k2); val.swap(v2);
    }
};

enum EndKind { END_OK, END_PRUNED, END_VIOLATION };

struct RT
{
    bool active;          // an execution is running
    int in_rt;            // inside the runtime (hooks disabled)
    int cur;
    Fiber f[NF]; int nf;
    void* host_sp;
    EndKind end;
    char category[64]; char msg[600];
    // clock
    ns_t now; struct { int step; ns_t t; } clk[256]; int nclk; ns_t extra[64]; int nextra; u64 clock_wh;
    // sync objects
    Sync* sync; u32 sync_mask; u32* sync_used; int nsync;
    u64 cond_counter;
    u64 log_wh; VC log_vc;
    int steps, hog, spurious_used;
    u64 preempt_cost;
    // choices
    std::vector<Choice>* path; size_t prefix_len; size_t pos;
    int bound, spurious_max;
    bool use_cache; Visited* visited;
    // statistics
    u64 n_execs, n_points, n_pruned, n_complete, n_choice, max_steps, maxdepth;
    // memory
    char* region; Gran* gran; u8* astate; u32* touched; u32 ntouched;
    long nalloc; int fault_after, thread_fault_after;
    struct Alloc { char* p; size_t n; int state; } *allocs; int nallocs;
    bool race_on;
    char* tls_block; size_t tls_size; char* tls_init;
    char* data_snap; size_t data_size;
    const mc::Job* job;
    mc::ScenarioFn fn;
    bool trace; FILE* tracef;
    u64 outcome_hash;
};

RT* g = nullptr;   // constant after init; RT itself lives outside .data/.bss

struct InRt { InRt() { ++g->in_rt; } ~InRt() { --g->in_rt; } };

// ------------------------------------------------------------------ context switch
extern "C" void mc_switch(void** from, void* to);
asm(R"(
.text
.globl mc_switch
.type mc_switch,@function
mc_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  movq %rsp,(%rdi)
  movq %rsi,%rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.globl mc_tramp
.type mc_tramp,@function
mc_tramp:
  xorl %ebp,%ebp
  call mc_fiber_entry
  ud2
)");
extern "C" void mc_tramp();

inline bool usable() { return g && g->active && !g->in_rt; }

void tls_swap(int from, int to)
{
    if (from == to) return;
    if (from >= 0) __real_memcpy(g->f[from].tls, g->tls_block, g->tls_size);
    if (to >= 0) __real_memcpy(g->tls_block, g->f[to].tls, g->tls_size);
}

[[noreturn]] void leave_to_host(EndKind e)
{
    g->end = e;
    void* dummy;
    mc_switch(&dummy, g->host_sp);
    __builtin_unreachable();
}

[[noreturn]] void violation(const char* cat, const char* fmt, ...)
{
    ++g->in_rt;
    va_list ap; va_start(ap, fmt);
    vsnprintf(g->msg, sizeof g->msg, fmt, ap);
    va_end(ap);
    snprintf(g->category, sizeof g->category, "%s", cat);
    leave_to_host(END_VIOLATION);
}

// ------------------------------------------------------------------ sync objects
bool in_region(u64 a) { return a >= (u64)g->region && a < (u64)g->region + REGION; }
u32 off(u64 a) { return (u32)(a - (u64)g->region); }
bool in_heap(u64 a) { return in_region(a) && off(a) >= NF * STACK; }

const char* where_alloc(u64 a)
{
    static char buf[100];
    for (int i = 0; i < g->nallocs; ++i) {
        auto& al = g->allocs[i];
        if (a + 32 >= (u64)al.p && a < (u64)al.p + al.n + 32) {
            snprintf(buf, sizeof buf, "block #%d of %zu bytes, offset %ld", i, al.n, (long)(a - (u64)al.p));
            return buf;
        }
    }
    return "unknown block";
}

void check_alive(u64 a, size_t n, const char* what)
{
    if (!in_heap(a)) return;
    u32 o = off(a) - NF * STACK;
    for (size_t i = 0; i < n; ++i)
        if (g->astate[o + i] != AL_LIVE && g->astate[o + i] != AL_NORACE)
            violation("memory", "%s of %s memory by thread %d (%s)", what,
                g->astate[o + i] == AL_FREED ? "freed" : "unallocated", g->cur, where_alloc(a));
}

Sync& sync_at(u64 a)
{
    u32 i = (u32)(mix(a, 1) & g->sync_mask);
    while (g->sync[i].key && g->sync[i].key != a) i = (i + 1) & g->sync_mask;
    Sync& s = g->sync[i];
    if (!s.key) {
        s.key = a; s.wh = mix(a - (in_region(a) ? (u64)g->region : (u64)&__data_start), 77);
        s.vc.clear(); s.owner = -1; s.depth = 0;
        g->sync_used[g->nsync++] = i;
        if (g->nsync > 30000) violation("internal", "too many sync objects");
    }
    return s;
}

u64 rel(u64 a) { return in_region(a) ? a - (u64)g->region : a - (u64)&__data_start; }

void ev_write(Sync& s, u64 op) { Fiber& f = g->f[g->cur]; f.h = mix(mix(f.h, op ^ rel(s.key)), s.wh); s.wh = f.h; }
void ev_read(Sync& s, u64 op) { Fiber& f = g->f[g->cur]; f.h = mix(mix(f.h, op ^ rel(s.key)), s.wh); }
void ev_local(u64 op) { Fiber& f = g->f[g->cur]; f.h = mix(f.h, op); }

void tick() { Fiber& f = g->f[g->cur]; if (++f.vc.c[g->cur] == 0xFFFF) violation("internal", "clock overflow"); }

// ------------------------------------------------------------------ scheduler
bool fiber_enabled(int i)
{
    Fiber& f = g->f[i];
    if (!f.used || f.done) return false;
    switch (f.op) {
    case OP_NONE: case OP_STEP: return true;
    case OP_LOCK: return sync_at(f.op_addr).owner < 0;
    case OP_RWR: return sync_at(f.op_addr).owner < 0;
    case OP_RWW: { auto& s = sync_at(f.op_addr); return s.owner < 0 && s.depth == 0; }
    case OP_COND: case OP_FUTEX: return f.wake != 0 || (f.deadline >= 0 && f.deadline <= g->now);
    case OP_SLEEP: return f.deadline <= g->now;
    case OP_JOIN: return g->f[f.join_target].done;
    case OP_ONCE: return *(volatile int*)f.op_addr != 1;
    case OP_GATE: return *(volatile bool*)f.op_addr;
    case OP_QUIESCE: return false; // handled separately
    }
    return false;
}

ns_t next_time()
{
    ns_t best = -1;
    auto consider = [&](ns_t t) { if (t > g->now && t < (ns_t)2e18 && // (decades ahead: never)
             (best < 0 || t < best)) best = t; };
    for (int i = 0; i < g->nf; ++i) {
        Fiber& f = g->f[i];
        if (f.used && !f.done && f.deadline >= 0 && f.wake == 0
            && (f.op == OP_COND || f.op == OP_FUTEX || f.op == OP_SLEEP)) consider(f.deadline);
        if (f.used && !f.done && f.op == OP_QUIESCE) consider(f.deadline);
    }
    for (int i = 0; i < g->nextra; ++i) consider(g->extra[i]);
    return best;
}

u64 signature()
{
    u64 s = mix((u64)g->now, (u64)g->cur * 64 + g->spurious_used);
    for (int i = 0; i < g->nf; ++i) s += mix(g->f[i].h, i + 1000);
    return mix(s, g->log_wh);
}

const char* opname(OpKind k)
{
    static const char* n[] = { "run", "step", "lock", "cond-wait", "join", "futex-wait", "sleep", "once", "gate", "quiesce", "rdlock", "wrlock" };
    return n[k];
}

void describe_block(char* buf, size_t n)
{
    size_t p = 0; buf[0] = 0;
    for (int i = 0; i < g->nf && p + 60 < n; ++i) {
        Fiber& f = g->f[i];
        if (!f.used || f.done) continue;
        p += snprintf(buf + p, n - p, " thread%d:%s@%lx", i, opname(f.op), (long)(f.op_addr ? rel(f.op_addr) : 0));
        if (f.op == OP_LOCK) p += snprintf(buf + p, n - p, "(owner %d)", sync_at(f.op_addr).owner);
    }
}

enum { CK_THREAD = 0, CK_TIME = 16, CK_SPUR = 32, CK_DATA = 64 };

// Take one decision among options; returns index. Handles replay, caching, recording.
int decide(int n, const u8* kinds, const u8* costs, bool data)
{
    auto& path = *g->path;
    ++g->n_points;
    if (n == 1 && !data) return 0;
    if (g->pos < path.size()) {
        Choice& c = path[g->pos++];
        if (c.n != n || (c.cost_before != 0xFFFF && __real_memcmp(c.kind, kinds, n) != 0)) {
            violation("internal", "replay divergence at choice %zu (%d options instead of %d)", g->pos - 1, n, c.n);
        }
        g->preempt_cost += c.cost[c.chosen];
        return c.chosen;
    }
    u64 sig = 0;
    if (g->use_cache) {
        sig = signature();
        if (data) sig = mix(sig, 4242);
        u64 c = g->preempt_cost;
        if (g->visited->check(sig, (u8)c)) leave_to_host(END_PRUNED);
    }
    Choice c; c.n = (u8)n; c.chosen = 0; c.cost_before = (u16)g->preempt_cost; c.sig = sig;
    __real_memcpy(c.kind, kinds, n); __real_memcpy(c.cost, costs, n);
    path.push_back(c); ++g->pos; ++g->n_choice;
    g->preempt_cost += costs[0];
    return 0;
}

void trace_ev(const char* fmt, ...)
{
    if (!g->trace) return;
    va_list ap; va_start(ap, fmt); vfprintf(g->tracef, fmt, ap); va_end(ap); fputc('\n', g->tracef);
}

// Called by the current fiber (which has set its pending op), or by a finished fiber.
void schedule()
{
    const int me = g->cur;
    Fiber& mef = g->f[me];
    for (;;) {
        if (++g->steps > MAXSTEPS * (1 + g->job->param[7])) {
            char b[400]; describe_block(b, sizeof b);
            violation("livelock", "no termination within %d steps;%s", MAXSTEPS * (1 + g->job->param[7]), b);
        }
        u8 kinds[24], costs[24]; int n = 0;
        bool me_enabled = !mef.done && fiber_enabled(me);
        const bool force_rotate = g->hog > FAIR_AFTER;
        int order[NF]; int no = 0;
        if (me_enabled && !force_rotate) order[no++] = me;
        for (int i = 0; i < g->nf; ++i) {
            int k = force_rotate ? (me + 1 + i) % g->nf : i;
            if (k != me && fiber_enabled(k)) order[no++] = k;
        }
        for (int i = 0; i < no; ++i) { kinds[n] = (u8)(CK_THREAD + order[i]); costs[n] = (me_enabled && !force_rotate && order[i] != me) ? 1 : 0; ++n; }
        if (force_rotate && me_enabled && no == 0 ) { kinds[n] = (u8)(CK_THREAD + me); costs[n] = 0; order[no++] = me; ++n; }
        ns_t nt = next_time();
        if (force_rotate && nt >= 0) { n = 0; kinds[n] = CK_TIME; costs[n] = 0; ++n; } // let time pass
        else if (nt >= 0) { kinds[n] = CK_TIME; costs[n] = (no > 0) ? 1 : 0; ++n; }
        if (g->spurious_used < g->spurious_max)
            for (int i = 0; i < g->nf; ++i) {
                Fiber& f = g->f[i];
                if (f.used && !f.done && f.op == OP_COND && f.wake == 0 && !(f.deadline >= 0 && f.deadline <= g->now)) {
                    kinds[n] = (u8)(CK_SPUR + i); costs[n] = (no > 0) ? 1 : 0; ++n;
                }
            }
        int ripe = -1;
        if (no == 0) for (int i = 0; i < g->nf; ++i)
            if (g->f[i].used && !g->f[i].done && g->f[i].op == OP_QUIESCE && g->f[i].deadline <= g->now) { ripe = i; break; }
        if (no == 0 && (nt >= 0 || ripe >= 0))
            for (int i = 0; i < g->nf; ++i)
                if (g->f[i].used && !g->f[i].done && g->f[i].prompt_cat) violation(g->f[i].prompt_cat, "%s of thread %d waits", g->f[i].prompt_what, i);
        if (no == 0 && (nt < 0 || ripe >= 0)) {
            // Only spurious wakeups left, or nothing: not progress. Quiescence reached?
            const int q = ripe;
            if (q >= 0) { n = 0; kinds[n] = (u8)(CK_THREAD + q); costs[n] = 0; ++n; }
            else {
                bool alive = false;
                for (int i = 0; i < g->nf; ++i) if (g->f[i].used && !g->f[i].done) alive = true;
                if (!alive) leave_to_host(END_OK);
                char b[400]; describe_block(b, sizeof b);
                violation("deadlock", "no thread can run any more:%s", b);
            }
        }
        int c = decide(n, kinds, costs, false);
        u8 k = kinds[c];
        if (k == CK_TIME) {
            g->now = nt; if (g->nclk < 256) { g->clk[g->nclk].step = g->steps; g->clk[g->nclk++].t = nt; } g->clock_wh = mix(g->clock_wh, (u64)nt); g->hog = 0;
            trace_ev("  [clock -> %.6f ms]", nt / 1e6);
            continue;
        }
        if (k >= CK_SPUR && k < CK_DATA) {
            Fiber& f = g->f[k - CK_SPUR];
            f.wake = 3; ++g->spurious_used; f.h = mix(f.h, 999);
            trace_ev("  [spurious wakeup of thread %d]", k - CK_SPUR);
            continue;
        }
        int t = k - CK_THREAD;
        if (t == me) { ++g->hog; return; }
        g->hog = 0;
        g->cur = t;
        tls_swap(me, t);
        mc_switch(&mef.sp, g->f[t].sp);
        return; // resumed
    }
}

// A scheduling point with a pending operation. On return the operation may be performed.
void point(OpKind op, u64 addr, const char* what, ns_t deadline = -1)
{
    Fiber& f = g->f[g->cur];
    f.op = op; f.op_addr = addr; f.deadline = deadline; f.what = what;
    schedule();
    f.op = OP_NONE; f.op_addr = 0; f.deadline = -1;
    if (g->trace) trace_ev("%4d t%d %-12s %lx", g->steps, g->cur, what, (long)(addr ? rel(addr) : 0));
}

// ------------------------------------------------------------------ fibers
void fiber_finish();

extern "C" __attribute__((used)) void mc_fiber_entry()
{
    Fiber& f = g->f[g->cur];
    f.op = OP_NONE;
    --g->in_rt;
    f.ret = f.start(f.arg);
    ++g->in_rt;
    Fiber& f2 = g->f[g->cur];
    while (f2.ntdtor > 0) { auto d = f2.tdtor[--f2.ntdtor]; --g->in_rt; d.fn(d.obj); ++g->in_rt; }
    fiber_finish();
}

void fiber_finish()
{
    Fiber& f = g->f[g->cur];
    point(OP_STEP, 0, "thread-exit");
    ev_local(5);
    f.done = true;
    schedule();
    abort();
}

int fiber_new(void* (*fn)(void*), void* arg)
{
    if (g->nf >= NF) violation("internal", "too many threads");
    int i = g->nf++;
    Fiber& f = g->f[i];
    f.used = true; f.prompt_cat = f.prompt_what = nullptr; f.done = f.detached = f.joined = false; f.op = OP_NONE; f.op_addr = 0; f.deadline = -1; f.wake = 0;
    f.start = fn; f.arg = arg; f.ret = nullptr; f.heap_used = 0; f.sigmask = 0; f.first_join = -1; f.ntdtor = 0;
    f.vc.clear(); f.relfence.clear(); f.acqpend.clear(); f.has_relfence = false;
    f.h = mix(i, 31337);
    __real_memcpy(f.tls, g->tls_init, g->tls_size);
    u64* sp = (u64*)(f.stack + STACK);
    *--sp = 0; *--sp = 0;
    *--sp = (u64)&mc_tramp;
    for (int k = 0; k < 6; ++k) *--sp = 0;
    f.sp = sp;
    return i;
}

void* main_fiber(void*) { g->fn(g->job->param); return nullptr; }

// ------------------------------------------------------------------ race detection
void touch(u32 gi) { if (!g->gran[gi].touched) { g->gran[gi].touched = 1; g->touched[g->ntouched++] = gi; } }

[[noreturn]] void race(u64 a, const char* k1, int t2, const char* k2)
{
    char b[64]; b[0] = 0;
    violation("race", "data race: %s by thread %d and earlier %s by thread %d at %lx (%s)%s", k1, g->cur, k2, t2,
        (long)rel(a), in_heap(a) ? where_alloc(a) : "stack", b);
}

inline void mem_access(u64 a, size_t n, bool write)
{
    if (!in_region(a)) return;
    Fiber& f = g->f[g->cur];
    const int me = g->cur;
    const u16 clk = f.vc.c[me];
    const u32 key = (u32)clk << 4 | (u32)(me + 1);
    u32 o = off(a);
    // fast path
    if (n == 8 && (o & 7) == 0) {
        Gran& gr = g->gran[o >> 3];
        if (gr.fast_w == key || (!write && gr.fast_r == key)) return;
    }
    check_alive(a, n, write ? "write" : "read");
    if (!g->race_on) return;
    // exception objects: reference-counted inside libstdc++ (not instrumented)
    if (o >= NF * STACK && g->astate[o - NF * STACK] == AL_NORACE) return;
    for (size_t i = 0; i < n; ++i) {
        u32 b = o + (u32)i;
        if (b >= REGION) break;
        u32 gi = b >> 3; touch(gi);
        Gran& gr = g->gran[gi];
        Cell& c = gr.c[b & 7];
        if (c.w && c.wt != me && c.w > f.vc.c[c.wt]) race(a + i, write ? "write" : "read", c.wt, "write");
        if (write) {
            if (c.rmask & ~(1 << me))
                for (int t = 0; t < NF; ++t)
                    if (t != me && (c.rmask >> t & 1) && c.r[t] > f.vc.c[t]) race(a + i, "write", t, "read");
            c.w = clk; c.wt = (u8)me; c.rmask = 0;
            gr.fast_r = 0; gr.fast_w = 0;
        } else {
            c.rmask |= (u8)(1 << me); c.r[me] = clk;
            gr.fast_w = 0;
        }
    }
    if (n == 8 && (o & 7) == 0) { Gran& gr = g->gran[o >> 3]; if (write) gr.fast_w = key; else gr.fast_r = key; }
}

// ------------------------------------------------------------------ memory
void* arena_alloc(size_t n, int st = AL_LIVE)
{
    Fiber& f = g->f[g->cur];
    if (g->fault_after >= 0 && g->fault_after-- == 0) return nullptr;
    size_t sz = ((n ? n : 1) + 15) / 16 * 16 + 32;
    if (f.heap_used + sz > HEAP) violation("internal", "arena exhausted");
    char* p = f.heap + f.heap_used + 16;
    f.heap_used += sz;
    u32 o = off((u64)p) - NF * STACK;
    __real_memset(g->astate + o, st, n ? n : 1);
    if (g->nallocs >= 20000) violation("internal", "too many allocations");
    g->allocs[g->nallocs++] = { p, n, AL_LIVE };
    *(u32*)(p - 16) = (u32)(g->nallocs - 1);
    *(u32*)(p - 12) = 0xA110CA7E;
    ++g->nalloc;
    __real_memset(p, 0xCB, n);
    return p;
}

void arena_free(void* vp)
{
    char* p = (char*)vp;
    u64 a = (u64)p;
    if (!in_heap(a)) { violation("memory", "free of invalid pointer"); }
    if (*(u32*)(p - 12) != 0xA110CA7E) violation("memory", "free of a pointer that is not the start of a block");
    auto& al = g->allocs[*(u32*)(p - 16)];
    if (al.p != p) violation("memory", "corrupted block header");
    if (al.state != AL_LIVE) violation("memory", "double free by thread %d (%s)", g->cur, where_alloc(a));
    for (size_t i = 0; i < al.n; i += 8) mem_access(a + i, std::min<size_t>(8, al.n - i), true);
    // locked mutexes / waiters inside?
    for (int i = 0; i < g->nsync; ++i) {
        Sync& s = g->sync[g->sync_used[i]];
        if (s.key >= a && s.key < a + al.n && s.owner >= 0)
            violation("memory", "memory of a locked mutex freed by thread %d (owner %d)", g->cur, s.owner);
    }
    for (int i = 0; i < g->nf; ++i) {
        Fiber& f = g->f[i];
        if (f.used && !f.done && (f.op == OP_COND || f.op == OP_LOCK || f.op == OP_FUTEX || f.op == OP_GATE)
            && f.op_addr >= a && f.op_addr < a + al.n)
            violation("memory", "memory of a synchronization object freed by thread %d while thread %d waits on it", g->cur, i);
    }
    al.state = AL_FREED; --g->nalloc;
    u32 o = off(a) - NF * STACK;
    for (size_t i = 0; i < al.n; i += 8) { u32 gi = off(a + i) >> 3; touch(gi); g->gran[gi].fast_r = g->gran[gi].fast_w = 0; }
    __real_memset(g->astate + o, AL_FREED, al.n ? al.n : 1);
    __real_memset(p, 0xDD, al.n);
}

bool arena_active() { return g && g->active && !g->in_rt; }
bool from_arena(void* p) { return g && in_heap((u64)p); }

} // namespace

// ================================================================== allocation hooks
extern "C" void* __wrap_malloc(size_t n) { if (!arena_active()) return __real_malloc(n); InRt r; return arena_alloc(n, AL_NORACE); }
extern "C" void __wrap_free(void* p)
{
    if (!p) return;
    if (!from_arena(p)) { __real_free(p); return; }
    if (!g->active) return;
    InRt r; arena_free(p);
}
extern "C" void* __wrap_calloc(size_t a, size_t b)
{
    if (!arena_active()) return __real_calloc(a, b);
    InRt r; void* p = arena_alloc(a * b); if (p) __real_memset(p, 0, a * b); return p;
}
extern "C" void* __wrap_realloc(void* p, size_t n)
{
    if (!arena_active() || (p && !from_arena(p))) return __real_realloc(p, n);
    InRt r; void* q = arena_alloc(n);
    if (q && p) { size_t old = g->allocs[*(u32*)((char*)p - 16)].n; __real_memcpy(q, p, std::min(old, n)); arena_free(p); }
    return q;
}
void* operator new(size_t n)
{
    if (!arena_active()) { void* p = __real_malloc(n ? n : 1); if (!p) abort(); return p; }
    void* p; { InRt r; p = arena_alloc(n); }
    if (!p) throw std::bad_alloc();
    return p;
}
void* operator new[](size_t n) { return operator new(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { if (!arena_active()) return __real_malloc(n ? n : 1); InRt r; return arena_alloc(n); }
void operator delete(void* p) noexcept { __wrap_free(p); }
void operator delete(void* p, size_t) noexcept { __wrap_free(p); }
void operator delete[](void* p) noexcept { __wrap_free(p); }
void operator delete[](void* p, size_t) noexcept { __wrap_free(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { __wrap_free(p); }

// ================================================================== memory access hooks
#define ACC(n, w) do { if (usable()) { InRt r_; mem_access((u64)p, n, w); } } while (0)
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(n) \
 void __tsan_read##n(void* p) { ACC(n, false); } void __tsan_write##n(void* p) { ACC(n, true); } \
 void __tsan_unaligned_read##n(void* p) { ACC(n, false); } void __tsan_unaligned_write##n(void* p) { ACC(n, true); } \
 void __tsan_volatile_read##n(void* p) { ACC(n, false); } void __tsan_volatile_write##n(void* p) { ACC(n, true); } \
 void __tsan_unaligned_volatile_read##n(void* p) { ACC(n, false); } void __tsan_unaligned_volatile_write##n(void* p) { ACC(n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, unsigned long n) { ACC(n, false); }
void __tsan_write_range(void* p, unsigned long n) { ACC(n, true); }
void __tsan_vptr_update(void** p, void* v) { if (*p != v) ACC(8, true); else ACC(8, false); }
void __tsan_vptr_read(void** p) { ACC(8, false); }

void* __wrap_memcpy(void* d, const void* s, size_t n)
{
    if (usable() && n) { InRt r; mem_access((u64)s, n, false); mem_access((u64)d, n, true); }
    return __real_memcpy(d, s, n);
}
void* __wrap_memmove(void* d, const void* s, size_t n)
{
    if (usable() && n) { InRt r; mem_access((u64)s, n, false); mem_access((u64)d, n, true); }
    return __real_memmove(d, s, n);
}
void* __wrap_memset(void* d, int v, size_t n)
{
    if (usable() && n) { InRt r; mem_access((u64)d, n, true); }
    return __real_memset(d, v, n);
}
int __wrap_memcmp(const void* d, const void* s, size_t n)
{
    if (usable() && n) { InRt r; mem_access((u64)s, n, false); mem_access((u64)d, n, false); }
    return __real_memcmp(d, s, n);
}
size_t __wrap_strlen(const char* s)
{
    size_t n = __real_strlen(s);
    if (usable()) { InRt r; mem_access((u64)s, n + 1, false); }
    return n;
}
} // extern "C"

// ================================================================== atomics
namespace {
enum { MO_RELAXED, MO_CONSUME, MO_ACQUIRE, MO_RELEASE, MO_ACQ_REL, MO_SEQ };
bool is_acq(int m) { return m == MO_CONSUME || m == MO_ACQUIRE || m == MO_ACQ_REL || m == MO_SEQ; }
bool is_rel(int m) { return m == MO_RELEASE || m == MO_ACQ_REL || m == MO_SEQ; }

void at_load(u64 a, int mo)
{
    Sync& s = sync_at(a); Fiber& f = g->f[g->cur];
    ev_read(s, 11);
    if (is_acq(mo)) f.vc.join(s.vc); else f.acqpend.join(s.vc);
}
void at_store(u64 a, int mo)
{
    Sync& s = sync_at(a); Fiber& f = g->f[g->cur];
    ev_write(s, 12);
    if (is_rel(mo)) { s.vc = f.vc; tick(); }
    else { if (f.has_relfence) s.vc = f.relfence; else s.vc.clear(); }
}
void at_rmw(u64 a, int mo)
{
    Sync& s = sync_at(a); Fiber& f = g->f[g->cur];
    ev_write(s, 13);
    VC old = s.vc;
    if (is_rel(mo)) { s.vc.join(f.vc); } else if (f.has_relfence) s.vc.join(f.relfence);
    if (is_acq(mo)) f.vc.join(old); else f.acqpend.join(old);
    if (is_rel(mo)) tick();
}
} // namespace

#define ATOMICS(BITS, T) \
extern "C" T __tsan_atomic##BITS##_load(const volatile T* p, int mo) \
{ if (!usable()) return *p; InRt r; check_alive((u64)p, sizeof(T), "atomic load"); point(OP_STEP, (u64)p, "load"); check_alive((u64)p, sizeof(T), "atomic load"); at_load((u64)p, mo); return *p; } \
extern "C" void __tsan_atomic##BITS##_store(volatile T* p, T v, int mo) \
{ if (!usable()) { *p = v; return; } InRt r; check_alive((u64)p, sizeof(T), "atomic store"); point(OP_STEP, (u64)p, "store"); check_alive((u64)p, sizeof(T), "atomic store"); at_store((u64)p, mo); *p = v; } \
template <typename F> static T rmw##BITS(volatile T* p, int mo, F fn) \
{ if (!usable()) { T o = *p; *p = fn(o); return o; } InRt r; check_alive((u64)p, sizeof(T), "atomic rmw"); point(OP_STEP, (u64)p, "rmw"); check_alive((u64)p, sizeof(T), "atomic rmw"); at_rmw((u64)p, mo); T o = *p; *p = fn(o); return o; } \
extern "C" T __tsan_atomic##BITS##_exchange(volatile T* p, T v, int mo) { return rmw##BITS(p, mo, [v](T) { return v; }); } \
extern "C" T __tsan_atomic##BITS##_fetch_add(volatile T* p, T v, int mo) { return rmw##BITS(p, mo, [v](T o) { return (T)(o + v); }); } \
extern "C" T __tsan_atomic##BITS##_fetch_sub(volatile T* p, T v, int mo) { return rmw##BITS(p, mo, [v](T o) { return (T)(o - v); }); } \
extern "C" T __tsan_atomic##BITS##_fetch_and(volatile T* p, T v, int mo) { return rmw##BITS(p, mo, [v](T o) { return (T)(o & v); }); } \
extern "C" T __tsan_atomic##BITS##_fetch_or(volatile T* p, T v, int mo) { return rmw##BITS(p, mo, [v](T o) { return (T)(o | v); }); } \
extern "C" T __tsan_atomic##BITS##_fetch_xor(volatile T* p, T v, int mo) { return rmw##BITS(p, mo, [v](T o) { return (T)(o ^ v); }); } \
extern "C" T __tsan_atomic##BITS##_fetch_nand(volatile T* p, T v, int mo) { return rmw##BITS(p, mo, [v](T o) { return (T)~(o & v); }); } \
static bool cas##BITS(volatile T* p, T* e, T v, int mo, int fmo) \
{ if (!usable()) { if (*p == *e) { *p = v; return true; } *e = *p; return false; } \
  InRt r; check_alive((u64)p, sizeof(T), "atomic cas"); point(OP_STEP, (u64)p, "cas"); check_alive((u64)p, sizeof(T), "atomic cas"); \
  if (*p == *e) { at_rmw((u64)p, mo); *p = v; return true; } at_load((u64)p, fmo); *e = *p; return false; } \
extern "C" int __tsan_atomic##BITS##_compare_exchange_strong(volatile T* p, T* e, T v, int mo, int fmo) { return cas##BITS(p, e, v, mo, fmo); } \
extern "C" int __tsan_atomic##BITS##_compare_exchange_weak(volatile T* p, T* e, T v, int mo, int fmo) { return cas##BITS(p, e, v, mo, fmo); } \
extern "C" T __tsan_atomic##BITS##_compare_exchange_val(volatile T* p, T e, T v, int mo, int fmo) { cas##BITS(p, &e, v, mo, fmo); return e; }
ATOMICS(8, uint8_t)
ATOMICS(16, uint16_t)
ATOMICS(32, uint32_t)
ATOMICS(64, uint64_t)
extern "C" void __tsan_atomic_thread_fence(int mo)
{
    if (!usable()) return; InRt r; Fiber& f = g->f[g->cur];
    if (is_acq(mo)) f.vc.join(f.acqpend);
    if (is_rel(mo)) { f.relfence = f.vc; f.has_relfence = true; tick(); }
}
extern "C" void __tsan_atomic_signal_fence(int) {}

// ================================================================== pthread interposition
extern "C" {

static int mutex_lock(u64 m, const char* what)
{
    check_alive(m, 8, "mutex lock");
    Fiber& f = g->f[g->cur];
    {
        Sync& s = sync_at(m);
        if (s.owner == g->cur && ((pthread_mutex_t*)m)->__data.__kind == PTHREAD_MUTEX_RECURSIVE_NP) { ++s.depth; return 0; }
    }
    point(OP_LOCK, m, what);
    check_alive(m, 8, "mutex lock");
    Sync& s = sync_at(m);
    s.owner = g->cur; s.depth = 1;
    ev_write(s, 21);
    f.vc.join(s.vc);
    return 0;
}
static int mutex_unlock(u64 m)
{
    check_alive(m, 8, "mutex unlock");
    Sync& s = sync_at(m);
    Fiber& f = g->f[g->cur];
    if (s.owner != g->cur) violation("memory", "unlock of a mutex by thread %d that does not own it (owner %d)", g->cur, s.owner);
    if (--s.depth > 0) return 0;
    s.owner = -1; s.depth = 0;
    ev_write(s, 22);
    s.vc = f.vc; tick();
    return 0;
}

int pthread_mutex_lock(pthread_mutex_t* m) { if (!usable()) return 0; InRt r; return mutex_lock((u64)m, "lock"); }
int pthread_mutex_unlock(pthread_mutex_t* m) { if (!usable()) return 0; InRt r; return mutex_unlock((u64)m); }
int pthread_mutex_trylock(pthread_mutex_t* m)
{
    if (!usable()) return 0; InRt r; check_alive((u64)m, 8, "mutex trylock");
    point(OP_STEP, (u64)m, "trylock");
    Sync& s = sync_at((u64)m);
    if (s.owner == g->cur && m->__data.__kind == PTHREAD_MUTEX_RECURSIVE_NP) { ++s.depth; return 0; }
    if (s.owner >= 0) { ev_read(s, 23); return EBUSY; }
    s.owner = g->cur; s.depth = 1; ev_write(s, 21); g->f[g->cur].vc.join(s.vc);
    return 0;
}
int pthread_mutex_destroy(pthread_mutex_t* m)
{
    if (!usable()) return 0; InRt r;
    if (sync_at((u64)m).owner >= 0) violation("memory", "locked mutex destroyed");
    return 0;
}
static ns_t to_virtual(clockid_t clk, const timespec* ts)
{
    __int128 t = (__int128)ts->tv_sec * 1000000000 + ts->tv_nsec - (clk == CLOCK_MONOTONIC ? MONO_BASE : SYS_BASE);
    if (t < 0) return 0;
    if (t > (__int128)4e18) return (ns_t)4e18;
    return (ns_t)t;
}
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t clk, const timespec* ts)
{
    if (!usable()) return 0; InRt r;
    // modelled as: acquire, or time out once the deadline has passed (decided by polling points)
    ns_t d = to_virtual(clk, ts);
    for (;;) {
        point(OP_STEP, (u64)m, "timedlock");
        Sync& s = sync_at((u64)m);
        if (s.owner < 0) { s.owner = g->cur; s.depth = 1; ev_write(s, 21); g->f[g->cur].vc.join(s.vc); return 0; }
        if (d <= g->now) return ETIMEDOUT;
        point(OP_SLEEP, 0, "timedlock-wait", std::min<ns_t>(d, g->now + 1000000));
    }
}
int pthread_mutex_timedlock(pthread_mutex_t* m, const timespec* ts) { return pthread_mutex_clocklock(m, CLOCK_REALTIME, ts); }

int pthread_rwlock_rdlock(pthread_rwlock_t* m)
{
    if (!usable()) return 0; InRt r; check_alive((u64)m, 8, "rwlock");
    point(OP_RWR, (u64)m, "rdlock");
    Sync& s = sync_at((u64)m); ++s.depth; ev_write(s, 24); g->f[g->cur].vc.join(s.vc); return 0;
}
int pthread_rwlock_wrlock(pthread_rwlock_t* m)
{
    if (!usable()) return 0; InRt r; check_alive((u64)m, 8, "rwlock");
    point(OP_RWW, (u64)m, "wrlock");
    Sync& s = sync_at((u64)m); s.owner = g->cur; ev_write(s, 25); g->f[g->cur].vc.join(s.vc); return 0;
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t* m)
{
    if (!usable()) return 0; InRt r; point(OP_STEP, (u64)m, "tryrdlock");
    Sync& s = sync_at((u64)m); if (s.owner >= 0) { ev_read(s, 23); return EBUSY; }
    ++s.depth; ev_write(s, 24); g->f[g->cur].vc.join(s.vc); return 0;
}
int pthread_rwlock_trywrlock(pthread_rwlock_t* m)
{
    if (!usable()) return 0; InRt r; point(OP_STEP, (u64)m, "trywrlock");
    Sync& s = sync_at((u64)m); if (s.owner >= 0 || s.depth) { ev_read(s, 23); return EBUSY; }
    s.owner = g->cur; ev_write(s, 25); g->f[g->cur].vc.join(s.vc); return 0;
}
int pthread_rwlock_unlock(pthread_rwlock_t* m)
{
    if (!usable()) return 0; InRt r; check_alive((u64)m, 8, "rwlock");
    Sync& s = sync_at((u64)m);
    if (s.owner == g->cur) s.owner = -1; else if (s.depth > 0) --s.depth; else violation("memory", "unlock of unlocked rwlock");
    ev_write(s, 26); s.vc.join(g->f[g->cur].vc); tick(); return 0;
}

static int cond_wait(u64 cv, u64 m, ns_t deadline)
{
    check_alive(cv, 8, "condition wait");
    Fiber& f = g->f[g->cur];
    const int me = g->cur;
    point(OP_STEP, cv, deadline < 0 ? "cond-wait" : "cond-timedwait");
    check_alive(cv, 8, "condition wait");
    Sync& s = sync_at(cv);
    ev_write(s, 31);
    f.h = mix(f.h, (u64)deadline);
    mutex_unlock(m);
    f.cond_seq = ++g->cond_counter;
    f.wake = 0;
    point(OP_COND, cv, "cond-awake", deadline);
    int how = f.wake; f.wake = 0;
    int rc = 0;
    if (how == 0) { rc = ETIMEDOUT; ev_local(32); sync_at(cv).wh = mix(sync_at(cv).wh, 1000 + me); }
    else if (how == 3) { ev_local(33); sync_at(cv).wh = mix(sync_at(cv).wh, 2000 + me); }
    mutex_lock(m, "cond-relock");
    return rc;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { if (!usable()) return 0; InRt r; return cond_wait((u64)c, (u64)m, -1); }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* ts)
{ if (!usable()) return 0; InRt r; return cond_wait((u64)c, (u64)m, to_virtual(CLOCK_REALTIME, ts)); }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t clk, const timespec* ts)
{ if (!usable()) return 0; InRt r; return cond_wait((u64)c, (u64)m, to_virtual(clk, ts)); }

static void wake(int t)
{
    Fiber& w = g->f[t];
    w.wake = 1;
    w.h = mix(mix(w.h, 34), g->f[g->cur].h);
}
int pthread_cond_signal(pthread_cond_t* c)
{
    if (!usable()) return 0; InRt r;
    check_alive((u64)c, 8, "notify_one");
    point(OP_STEP, (u64)c, "notify_one");
    check_alive((u64)c, 8, "notify_one");
    Sync& s = sync_at((u64)c);
    int w[NF], n = 0;
    for (int i = 0; i < g->nf; ++i)
        if (g->f[i].used && !g->f[i].done && g->f[i].op == OP_COND && g->f[i].op_addr == (u64)c && g->f[i].wake == 0) w[n++] = i;
    if (n == 0) { ev_read(s, 35); return 0; }
    ev_write(s, 36);
    std::sort(w, w + n, [](int a, int b) { return g->f[a].cond_seq < g->f[b].cond_seq; });
    int k = 0;
    if (n > 1) { // which waiter gets it is not specified: explore all
        u8 kinds[24], costs[24];
        for (int i = 0; i < n; ++i) { kinds[i] = (u8)(CK_DATA + w[i]); costs[i] = 0; }
        k = decide(n, kinds, costs, true);
    }
    ev_local(37 + k);
    wake(w[k]);
    trace_ev("       -> wakes thread %d", w[k]);
    return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c)
{
    if (!usable()) return 0; InRt r;
    check_alive((u64)c, 8, "notify_all");
    point(OP_STEP, (u64)c, "notify_all");
    check_alive((u64)c, 8, "notify_all");
    Sync& s = sync_at((u64)c);
    bool any = false;
    for (int i = 0; i < g->nf; ++i)
        if (g->f[i].used && !g->f[i].done && g->f[i].op == OP_COND && g->f[i].op_addr == (u64)c && g->f[i].wake == 0) any = true;
    if (!any) { ev_read(s, 35); return 0; }
    ev_write(s, 38);
    for (int i = 0; i < g->nf; ++i)
        if (g->f[i].used && !g->f[i].done && g->f[i].op == OP_COND && g->f[i].op_addr == (u64)c && g->f[i].wake == 0) wake(i);
    return 0;
}
int pthread_cond_destroy(pthread_cond_t* c)
{
    if (!usable()) return 0; InRt r;
    for (int i = 0; i < g->nf; ++i)
        if (g->f[i].used && !g->f[i].done && g->f[i].op == OP_COND && g->f[i].wake == 0 && g->f[i].op_addr == (u64)c)
            violation("memory", "condition variable destroyed while thread %d waits on it", i);
    return 0;
}
int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t*) { __real_memset(c, 0, sizeof *c); return 0; }

int pthread_create(pthread_t* t, const pthread_attr_t*, void* (*fn)(void*), void* arg)
{
    if (!usable()) abort(); InRt r;
    point(OP_STEP, 0, "thread-create");
    if (g->thread_fault_after >= 0 && g->thread_fault_after-- == 0) { ev_local(44); trace_ev("       -> fails"); return EAGAIN; }
    int i = fiber_new(fn, arg);
    Fiber& f = g->f[g->cur];
    g->f[i].vc = f.vc; g->f[i].vc.c[i] = 1;
    g->f[i].sigmask = f.sigmask;
    g->f[i].h = mix(g->f[i].h, f.h);
    ev_local(41);
    tick();
    *t = (pthread_t)(0x1000 + i);
    return 0;
}
int pthread_join(pthread_t t, void** ret)
{
    if (!usable()) return 0; InRt r;
    int i = (int)((u64)t - 0x1000);
    if (i < 0 || i >= g->nf) return ESRCH;
    Fiber& f = g->f[g->cur];
    if (i == g->cur) return EDEADLK;
    if (f.first_join < 0) f.first_join = g->steps;
    Fiber& w = g->f[i];
    if (w.detached || w.joined) return EINVAL;
    f.join_target = i;
    point(OP_JOIN, 0, "join");
    w.joined = true;
    f.vc.join(w.vc);
    f.h = mix(mix(f.h, 42), w.h);
    if (ret) *ret = w.ret;
    return 0;
}
int pthread_detach(pthread_t t) { if (!usable()) return 0; int i = (int)((u64)t - 0x1000); g->f[i].detached = true; return 0; }
pthread_t pthread_self() { if (g && g->active) return (pthread_t)(0x1000 + g->cur); return (pthread_t)0x777; }
int pthread_equal(pthread_t a, pthread_t b) { return a == b; }
int sched_yield() { if (!usable()) return 0; InRt r; point(OP_STEP, 0, "yield"); ev_local(43); return 0; }
int pthread_sigmask(int how, const sigset_t* set, sigset_t* old)
{
    if (!g || !g->active) return sigprocmask(how, set, old);
    InRt r;
    u64& m = g->f[g->cur].sigmask;
    u64 bits = 0;
    if (set) for (int s = 1; s < 64; ++s) if (sigismember(set, s) == 1) bits |= 1ull << s;
    if (old) { sigemptyset(old); for (int s = 1; s < 64; ++s) if (m >> s & 1) sigaddset(old, s); }
    if (set) { if (how == SIG_BLOCK) m |= bits; else if (how == SIG_UNBLOCK) m &= ~bits; else if (how == SIG_SETMASK) m = bits; else return EINVAL; }
    return 0;
}
int pthread_once(pthread_once_t* o, void (*fn)())
{
    if (!usable()) { if (*o == 0) { *o = 2; fn(); } return 0; }
    InRt r;
    check_alive((u64)o, 4, "call_once");
    for (;;) {
        point(OP_ONCE, (u64)o, "once");
        check_alive((u64)o, 4, "call_once");
        Sync& s = sync_at((u64)o);
        Fiber& f = g->f[g->cur];
        if (*o == 2) { ev_read(s, 51); f.vc.join(s.vc); return 0; }
        if (*o == 1) continue;
        *o = 1; ev_write(s, 52); f.vc.join(s.vc);
        --g->in_rt;
        try { fn(); } catch (...) { ++g->in_rt; *o = 0; Sync& s2 = sync_at((u64)o); ev_write(s2, 53); s2.vc = g->f[g->cur].vc; tick(); throw; }
        ++g->in_rt;
        *o = 2;
        Sync& s3 = sync_at((u64)o); ev_write(s3, 54); s3.vc = g->f[g->cur].vc; tick();
        return 0;
    }
}
int clock_gettime(clockid_t clk, timespec* ts)
{
    if (!g || !g->active) return (int)syscall(SYS_clock_gettime, clk, ts);
    InRt r;
    if (g->in_rt == 1) { point(OP_STEP, 0, "clock"); }
    ev_local(mix(61, (u64)g->now));
    ns_t t = g->now + (clk == CLOCK_MONOTONIC ? MONO_BASE : SYS_BASE);
    ts->tv_sec = t / 1000000000; ts->tv_nsec = t % 1000000000;
    return 0;
}
time_t time(time_t* t) { timespec ts; clock_gettime(CLOCK_REALTIME, &ts); if (t) *t = ts.tv_sec; return ts.tv_sec; }
static int do_sleep(ns_t until) { point(OP_SLEEP, 0, "sleep", until); ev_local(mix(62, (u64)g->now)); return 0; }
int nanosleep(const timespec* ts, timespec*)
{
    if (!usable()) return (int)syscall(SYS_nanosleep, ts, nullptr);
    InRt r; return do_sleep(g->now + ts->tv_sec * 1000000000LL + ts->tv_nsec);
}
int clock_nanosleep(clockid_t clk, int flags, const timespec* ts, timespec*)
{
    if (!usable()) return (int)syscall(SYS_clock_nanosleep, clk, flags, ts, nullptr);
    InRt r;
    return do_sleep((flags & TIMER_ABSTIME) ? to_virtual(clk, ts) : g->now + ts->tv_sec * 1000000000LL + ts->tv_nsec);
}
int usleep(useconds_t us) { timespec ts{ (time_t)(us / 1000000), (long)(us % 1000000) * 1000 }; return nanosleep(&ts, nullptr); }

int __cxa_thread_atexit(void (*fn)(void*), void* obj, void*)
{
    if (!g || !g->active) return 0;
    Fiber& f = g->f[g->cur];
    if (f.ntdtor < 16) { f.tdtor[f.ntdtor].fn = fn; f.tdtor[f.ntdtor].obj = obj; ++f.ntdtor; }
    return 0;
}
// function-local statics
int __cxa_guard_acquire(u64* gd)
{
    volatile u8* b = (volatile u8*)gd;
    if (!usable()) { if (b[0]) return 0; return 1; }
    InRt r;
    for (;;) {
        point(OP_STEP, (u64)gd, "guard");
        Sync& s = sync_at((u64)gd);
        if (b[0]) { ev_read(s, 71); g->f[g->cur].vc.join(s.vc); return 0; }
        if (b[1]) { point(OP_SLEEP, 0, "guard-wait", g->now); continue; }
        b[1] = 1; ev_write(s, 72); return 1;
    }
}
void __cxa_guard_release(u64* gd)
{
    volatile u8* b = (volatile u8*)gd; b[0] = 1; b[1] = 0;
    if (!usable()) return; InRt r; Sync& s = sync_at((u64)gd); ev_write(s, 73); s.vc = g->f[g->cur].vc; tick();
}
void __cxa_guard_abort(u64* gd) { volatile u8* b = (volatile u8*)gd; b[1] = 0; }
} // extern "C"

// libstdc++'s futex layer (std::future)
#include <bits/atomic_futex.h>
namespace {
bool futex_wait(unsigned* addr, unsigned val, ns_t deadline)
{
    // true: woken or value changed, false: timeout
    check_alive((u64)addr, 4, "futex wait");
    Fiber& f = g->f[g->cur];
    point(OP_STEP, (u64)addr, "futex");
    check_alive((u64)addr, 4, "futex wait");
    Sync& s = sync_at((u64)addr);
    if (*addr != val) { ev_read(s, 81); return true; }
    ev_write(s, 82);
    f.wake = 0;
    point(OP_FUTEX, (u64)addr, "futex-awake", deadline);
    int how = f.wake; f.wake = 0;
    if (how == 0) { ev_local(83); return false; }
    return true;
}
} // namespace
namespace std {
bool __atomic_futex_unsigned_base::_M_futex_wait_until(unsigned* addr, unsigned val, bool has_timeout,
    chrono::seconds s, chrono::nanoseconds ns)
{
    InRt r; timespec ts{ (time_t)s.count(), (long)ns.count() };
    return futex_wait(addr, val, has_timeout ? to_virtual(CLOCK_REALTIME, &ts) : -1);
}
bool __atomic_futex_unsigned_base::_M_futex_wait_until_steady(unsigned* addr, unsigned val, bool has_timeout,
    chrono::seconds s, chrono::nanoseconds ns)
{
    InRt r; timespec ts{ (time_t)s.count(), (long)ns.count() };
    return futex_wait(addr, val, has_timeout ? to_virtual(CLOCK_MONOTONIC, &ts) : -1);
}
void __atomic_futex_unsigned_base::_M_futex_notify_all(unsigned* addr)
{
    InRt r;
    // Note: the address may legitimately be dead already (futex wake on a stale address is harmless)
    point(OP_STEP, (u64)addr, "futex-wake");
    Sync& s = sync_at((u64)addr);
    bool any = false;
    for (int i = 0; i < g->nf; ++i)
        if (g->f[i].used && !g->f[i].done && g->f[i].op == OP_FUTEX && g->f[i].op_addr == (u64)addr && !g->f[i].wake) { any = true; }
    if (any) ev_write(s, 84); else ev_read(s, 85);
    for (int i = 0; i < g->nf; ++i)
        if (g->f[i].used && !g->f[i].done && g->f[i].op == OP_FUTEX && g->f[i].op_addr == (u64)addr && !g->f[i].wake) wake(i);
}
} // namespace std

// ================================================================== scenario API
namespace mc {

void fail(const char* cat, const char* fmt, ...)
{
    ++g->in_rt;
    char buf[500];
    va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
    violation(cat, "%s", buf);
}
int choose(int n, const char* what)
{
    InRt r;
    u8 kinds[24], costs[24];
    for (int i = 0; i < n; ++i) { kinds[i] = (u8)(CK_DATA + i); costs[i] = 0; }
    int k = n <= 1 ? 0 : decide(n, kinds, costs, true);
    ev_local(mix(91, k));
    trace_ev("       choose %s = %d", what, k);
    return k;
}
Prompt::Prompt(const char* category, const char* what) { Fiber& f = g->f[g->cur]; f.prompt_cat = category; f.prompt_what = what; }
Prompt::~Prompt() { Fiber& f = g->f[g->cur]; f.prompt_cat = f.prompt_what = nullptr; }
int log_begin()
{
    InRt r;
    point(OP_STEP, 0, "begin");
    Fiber& f = g->f[g->cur];
    f.h = mix(mix(f.h, 92), g->log_wh);
    return g->steps;
}
int log_end()
{
    InRt r;
    point(OP_STEP, 0, "end");
    Fiber& f = g->f[g->cur];
    f.h = mix(f.h, 96);
    g->log_wh += mix(f.h, 97);
    return g->steps;
}
void note(const char* fmt, ...)
{
    if (!g->trace) return;
    ++g->in_rt;
    va_list ap; va_start(ap, fmt); fprintf(g->tracef, "       t%d: ", g->cur); vfprintf(g->tracef, fmt, ap); va_end(ap); fputc('\n', g->tracef);
    --g->in_rt;
}
ns_t now() { return g->now; }
ns_t clock_at(int step) { ns_t t = 0; for (int i = 0; i < g->nclk && g->clk[i].step <= step; ++i) t = g->clk[i].t; return t; }
int clock_events(int i, int* step, ns_t* t) { if (i >= g->nclk) return 0; *step = g->clk[i].step; *t = g->clk[i].t; return 1; }
void interesting_time(ns_t t) { if (g->nextra < 64) g->extra[g->nextra++] = t; }
void clear_interesting_times() { g->nextra = 0; }
void wait_quiescent(ns_t until)
{
    InRt r;
    point(OP_QUIESCE, 0, "quiesce", until);
    Fiber& f = g->f[g->cur];
    f.h = mix(mix(f.h, 93), g->log_wh); g->log_wh += mix(f.h, 98);
    for (int i = 0; i < g->nf; ++i) f.h = mix(f.h, g->f[i].h);
}
int self() { return g->cur; }
int live_threads() { int n = 0; for (int i = 0; i < g->nf; ++i) if (g->f[i].used && !g->f[i].done) ++n; return n; }
uint64_t blocked_signals() { return g->f[g->cur].sigmask; }
int first_join_step(int t) { return g->f[t].first_join; }
int step() { return g->steps; }
int live_allocations() { return (int)g->nalloc; }
void set_fault_after(int n) { g->fault_after = n; }
void fail_thread_creation_after(int n) { g->thread_fault_after = n; }
bool memory_alive(const void* p) { return !in_heap((u64)p) || g->astate[off((u64)p) - NF * STACK] != AL_FREED; }
void hb_release(const void* k) { InRt r; Sync& s = sync_at((u64)k); s.vc.join(g->f[g->cur].vc); tick(); }
void hb_acquire(const void* k) { InRt r; g->f[g->cur].vc.join(sync_at((u64)k).vc); }

void Gate::wait()
{
    InRt r;
    point(OP_GATE, (u64)&opened, "gate");
    Sync& s = sync_at((u64)&opened); ev_read(s, 94); g->f[g->cur].vc.join(s.vc);
}
void Gate::open()
{
    InRt r;
    point(OP_STEP, (u64)&opened, "gate-open");
    Sync& s = sync_at((u64)&opened); ev_write(s, 95); s.vc = g->f[g->cur].vc; tick(); opened = true;
}

} // namespace mc

// ================================================================== explorer
namespace {

void reset_execution()
{
    // memory
    for (u32 i = 0; i < g->ntouched; ++i) __real_memset(&g->gran[g->touched[i]], 0, sizeof(Gran));
    g->ntouched = 0;
    for (int i = 0; i < NF; ++i) {
        Fiber& f = g->f[i];
        if (f.heap_used) __real_memset(g->astate + (off((u64)f.heap) - NF * STACK), AL_NONE, f.heap_used);
        f.heap_used = 0; f.used = false; f.done = false; f.h = 0;
    }
    for (int i = 0; i < g->nsync; ++i) g->sync[g->sync_used[i]].key = 0;
    g->nsync = 0; g->nf = 0; g->nallocs = 0; g->nalloc = 0; g->fault_after = -1; g->thread_fault_after = -1;
    g->now = 0; g->nclk = 0; g->nextra = 0; g->clock_wh = 0; g->cond_counter = 0; g->log_wh = 7; g->log_vc.clear();
    g->steps = 0; g->hog = 0; g->spurious_used = 0; g->preempt_cost = 0; g->pos = 0;
    g->category[0] = g->msg[0] = 0;
    __real_memcpy(&__data_start, g->data_snap, g->data_size);
}

EndKind run_once()
{
    reset_execution();
    fiber_new(&main_fiber, nullptr);
    g->f[0].vc.c[0] = 1;
    g->cur = 0;
    __real_memcpy(g->tls_block, g->tls_init, g->tls_size);
    ++g->n_execs;
    g->in_rt = 1;
    g->active = true;
    mc_switch(&g->host_sp, g->f[0].sp);
    g->active = false;
    if ((u64)g->steps > g->max_steps) g->max_steps = g->steps;
    if (g->end == END_OK && g->nalloc != 0) {
        for (int i = 0; i < g->nallocs; ++i) if (g->allocs[i].state == AL_LIVE) {
            snprintf(g->msg, sizeof g->msg, "%ld allocation(s) leaked, first: block #%d of %zu bytes", g->nalloc, i, g->allocs[i].n);
            break;
        }
        snprintf(g->category, sizeof g->category, "leak");
        g->end = END_VIOLATION;
    }
    if (g->end == END_PRUNED) ++g->n_pruned; else ++g->n_complete;
    return g->end;
}

struct Result // in shared memory
{
    volatile int state;          // 0 open, 1 taken, 2 done
    int violation;               // 1: violation, 2: internal error
    char category[64]; char msg[600];
    u64 execs, complete, pruned, points, states, max_steps;
    int bound_done; int capped; double secs;
    int nchoices; u8 choices[3000]; u8 nopts[3000];
    int vbound, vspur;
    int current_bound; pid_t pid;
};

struct Shared { volatile int next_job; volatile int stop; volatile int nviol; Result res[1]; };

Result* g_res = nullptr;   // (in .data, restored to the value at snapshot: set before snapshot)

void record_violation(Result& r)
{
    r.violation = strcmp(g->category, "internal") == 0 ? 2 : 1;
    snprintf(r.category, sizeof r.category, "%s", g->category);
    snprintf(r.msg, sizeof r.msg, "%s", g->msg);
    auto& p = *g->path;
    r.nchoices = (int)std::min<size_t>(p.size(), 3000);
    for (int i = 0; i < r.nchoices; ++i) { r.choices[i] = p[i].chosen; r.nopts[i] = p[i].n; }
}

struct HostState { Result* res; bool replaying; } *hs;

void crash_handler(int sig)
{
    if (g && g->active) {
        Result& r = *hs->res;
        snprintf(g->category, sizeof g->category, sig == SIGALRM || sig == SIGVTALRM ? "hang" : "crash");
        snprintf(g->msg, sizeof g->msg, "signal %d (%s) in thread %d", sig, sig == SIGSEGV ? "segmentation fault" : sig == SIGABRT ? "abort/terminate" : sig == SIGALRM || sig == SIGVTALRM ? "no scheduling point reached for 20 s" : "fatal signal", g->cur);
        record_violation(r);
        _exit(hs->replaying ? 43 : 42);
    }
    _exit(44);
}
void terminate_handler()
{
    if (g && g->active) { ++g->in_rt; violation("crash", "std::terminate called in thread %d", g->cur); }
    abort();
}

bool next_path(std::vector<Choice>& p, int bound)
{
    while (!p.empty()) {
        Choice& c = p.back();
        int k = c.chosen + 1;
        while (k < c.n && c.cost_before + c.cost[k] > bound) ++k;
        if (k < c.n) { c.chosen = (u8)k; return true; }
        p.pop_back();
    }
    return false;
}

double now_s() { timespec ts; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts); return ts.tv_sec + ts.tv_nsec * 1e-9; }

mc::ScenarioFn find_fn(const char* name)
{
    for (int i = 0; i < mc::num_scenarios; ++i) if (!strcmp(mc::scenarios[i].name, name)) return mc::scenarios[i].fn;
    fprintf(stderr, "unknown scenario %s\n", name); exit(2);
}

void arm_watchdog()
{
    // CPU time for endless loops, wall time for blocking system calls
    itimerval tv; memset(&tv, 0, sizeof tv); tv.it_value.tv_sec = 20; setitimer(ITIMER_VIRTUAL, &tv, nullptr);
    alarm(150);
}

void explore_job(const mc::Job& job, Result& r, const char* prop, volatile int* stop, int from, int to, double deadline)
{
    double t0 = now_s();
    const Result old = r;
    g->job = &job; g->fn = find_fn(job.name);
    hs->res = &r;
    g->n_execs = g->n_pruned = g->n_complete = g->n_points = g->n_choice = g->max_steps = 0;
    u64 states = 0;
    if (from == 0) r.bound_done = -1;
    long ignored = 0;
    for (int b = from; b <= to; ++b) {
        g->bound = b; g->spurious_max = std::min(job.spurious, b);
        r.current_bound = b;
        g->visited->clear();
        g->path->clear();
        bool more = true;
        while (more) {
            if ((g->n_execs & 1023) == 0) { arm_watchdog(); if (now_s() > deadline) { r.capped = 1; goto out; } }
            EndKind e = run_once();
            if (e == END_VIOLATION) {
                bool matters = !strcmp(g->category, "internal") || mc::category_matters(prop, g->category);
                if (matters) { r.vbound = b; r.vspur = g->spurious_max; record_violation(r); goto out; }
                ++ignored;
            }
            more = next_path(*g->path, b);
            if (job.max_execs && (long)g->n_execs >= job.max_execs) { r.capped = 1; states += g->visited->n; goto out; }
            if ((g->n_execs & 255) == 0 && *stop) { r.capped = 1; goto out; }
        }
        states = g->visited->n;
        r.bound_done = b;
    }
out:
    alarm(0);
    { itimerval tv; memset(&tv, 0, sizeof tv); setitimer(ITIMER_VIRTUAL, &tv, nullptr); }
    r.execs = old.execs + g->n_execs; r.complete = old.complete + g->n_complete; r.pruned = old.pruned + g->n_pruned; r.points = old.points + g->n_points;
    r.states = std::max<u64>(old.states, std::max<u64>(states, g->visited->n)); r.max_steps = std::max<u64>(old.max_steps, g->max_steps); r.secs = old.secs + now_s() - t0;
}

void init_runtime()
{
    size_t sz = (sizeof(RT) + 4095) & ~4095ull;
    RT* rt = (RT*)mmap(nullptr, sz, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    rt->region = (char*)mmap((void*)0x200000000000ull, REGION, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0);
    rt->gran = (Gran*)mmap(nullptr, GRAN * sizeof(Gran), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    rt->astate = (u8*)mmap(nullptr, NF * HEAP, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    rt->touched = (u32*)mmap(nullptr, GRAN * 4, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    rt->sync_mask = 65535;
    rt->sync = (Sync*)mmap(nullptr, sizeof(Sync) * 65536, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    rt->sync_used = (u32*)__real_malloc(4 * 65536);
    rt->allocs = (RT::Alloc*)__real_malloc(sizeof(RT::Alloc) * 20001);
    rt->path = new std::vector<Choice>; rt->visited = new Visited;
    rt->race_on = true; rt->use_cache = true;
    for (int i = 0; i < NF; ++i) { rt->f[i].stack = rt->region + i * STACK; rt->f[i].heap = rt->region + NF * STACK + i * HEAP; }
    struct Ctx { char* p; size_t n; const char* init; size_t filesz; } ctx{};
    dl_iterate_phdr([](dl_phdr_info* info, size_t, void* c) {
        Ctx* x = (Ctx*)c;
        if (x->n == 0 && x->p == nullptr) {
            for (int i = 0; i < info->dlpi_phnum; ++i) if (info->dlpi_phdr[i].p_type == PT_TLS) {
                x->p = (char*)info->dlpi_tls_data; x->n = info->dlpi_phdr[i].p_memsz; }
            return 1; // main program only
        }
        return 0; }, &ctx);
    rt->tls_block = ctx.p; rt->tls_size = ctx.p ? ctx.n : 0;
    rt->tls_init = (char*)__real_malloc(rt->tls_size + 1);
    if (rt->tls_size) __real_memcpy(rt->tls_init, rt->tls_block, rt->tls_size);
    for (int i = 0; i < NF; ++i) rt->f[i].tls = (char*)__real_malloc(rt->tls_size + 1);
    hs = (HostState*)__real_malloc(sizeof(HostState)); hs->res = nullptr; hs->replaying = false;
    __libc_single_threaded = 0;
    std::set_terminate(terminate_handler);
    stack_t ss; ss.ss_sp = __real_malloc(65536); ss.ss_size = 65536; ss.ss_flags = 0; sigaltstack(&ss, nullptr);
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = crash_handler; sa.sa_flags = SA_ONSTACK;
    for (int s : { SIGSEGV, SIGABRT, SIGBUS, SIGFPE, SIGILL, SIGALRM, SIGVTALRM, SIGTRAP }) sigaction(s, &sa, nullptr);
    g = rt;
    rt->data_size = (size_t)(&_end - &__data_start);
    rt->data_snap = (char*)__real_malloc(rt->data_size);
    __real_memcpy(rt->data_snap, &__data_start, rt->data_size);
}

void json_escape(std::string& o, const char* s) { for (; *s; ++s) { if (*s == '"' || *s == '\\') o += '\\'; if ((u8)*s < 32) { o += ' '; continue; } o += *s; } }

constexpr int MAXJOBS = 6000;
void usleep_real(long us) { timespec ts{ 0, us * 1000 }; syscall(SYS_nanosleep, &ts, nullptr); }

// all of main's state is on the stack/heap since .data/.bss get restored for each execution
int real_main(int argc, char** argv)
{
    std::string prop, replay; bool thorough = false; int nproc = 8; std::string out; bool trace = false; int only = -1; double limit = 1e9;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        if (a == "--property") prop = argv[++i];
        else if (a == "--thorough") thorough = true;
        else if (a == "--procs") nproc = atoi(argv[++i]);
        else if (a == "--out") out = argv[++i];
        else if (a == "--replay") replay = argv[++i];
        else if (a == "--trace") trace = true;
        else if (a == "--deadline") limit = atof(argv[++i]);
        else if (a == "--job") only = atoi(argv[++i]);
    }
    mc::Job* jobs = (mc::Job*)__real_malloc(sizeof(mc::Job) * MAXJOBS);
    memset((void*)jobs, 0, sizeof(mc::Job) * MAXJOBS);

    if (!replay.empty()) {
        // replay file: property\ntier\njob index\nscenario name\nparams\nspurious\nn choices...
        FILE* f = fopen(replay.c_str(), "r"); if (!f) { perror("replay"); return 2; }
        char name[100], pr[16]; int p[8], spur, n; char key[64];
        mc::Job j; memset((void*)&j, 0, sizeof j);
        int ok = fscanf(f, "%63s %15s", key, pr); ok += fscanf(f, "%63s %99s", key, name);
        ok += fscanf(f, "%63s", key); for (auto& x : p) ok += fscanf(f, "%d", &x);
        ok += fscanf(f, "%63s %d", key, &spur); ok += fscanf(f, "%63s %d", key, &n);
        std::vector<Choice> path;
        for (int i = 0; i < n; ++i) { int c, m; ok += fscanf(f, "%d/%d", &c, &m); Choice ch; memset(&ch, 0, sizeof ch); ch.chosen = (u8)c; ch.n = (u8)m; path.push_back(ch); }
        fclose(f);
        j.name = strdup(name); for (int i = 0; i < 8; ++i) j.param[i] = p[i];
        mc::Job* jj = (mc::Job*)__real_malloc(sizeof j); *jj = j;
        Result* rr = (Result*)mmap(nullptr, sizeof(Result), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        char sigs[2][700]; int rcs[2];
        for (int round = 0; round < 2; ++round) {
            memset((void*)rr, 0, sizeof *rr);
            fflush(stdout);
            pid_t pid = fork();
            if (pid == 0) {
                hs->res = rr; hs->replaying = true;
                g->job = jj; g->fn = find_fn(name); g->use_cache = false; g->spurious_max = spur; g->bound = 1000;
                if (trace && round == 0) { g->trace = true; g->tracef = stdout; }
                // choices only: run with an unchecked path, matching option counts
                g->path->clear();
                for (auto& c : path) g->path->push_back(c);
                arm_watchdog();
                // option kinds are not in the file: only option counts are compared
                for (size_t k = 0; k < g->path->size(); ++k) (*g->path)[k].cost_before = 0xFFFF;
                EndKind e = run_once();
                if (e == END_VIOLATION) record_violation(*rr);
                fflush(stdout);
                _exit(e == END_VIOLATION ? 42 : 0);
            }
            int st; waitpid(pid, &st, 0);
            rcs[round] = WIFEXITED(st) ? WEXITSTATUS(st) : 128;
            snprintf(sigs[round], sizeof sigs[round], "%s: %s", rr->category, rr->msg);
        }
        printf("replay 1: rc=%d %s\nreplay 2: rc=%d %s\n", rcs[0], sigs[0], rcs[1], sigs[1]);
        bool same = !strcmp(sigs[0], sigs[1]) && sigs[0][0] != ':';
        if (!same) { printf("NOT REPRODUCED\n"); return 3; }
        printf("REPRODUCED %s\n", sigs[0]);
        return 1;
    }

    int nj = mc::make_jobs(prop.c_str(), thorough, jobs, MAXJOBS);
    if (nj <= 0) { fprintf(stderr, "no jobs for %s\n", prop.c_str()); return 2; }
    size_t shsz = sizeof(Shared) + sizeof(Result) * nj;
    Shared* sh = (Shared*)mmap(nullptr, shsz, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    sh->next_job = 0;
    double t0 = now_s();
    auto spawn = [&]() {
        pid_t pid = fork();
        if (pid == 0) {
            for (;;) {
                int k = __sync_fetch_and_add(&sh->next_job, 1);
                if (k >= 2 * nj || sh->stop) _exit(0);
                // first all jobs with small bounds, then all jobs with their full bounds
                const bool second = k >= nj;
                if (second) k -= nj;
                if (only >= 0 && k != only) continue;
                Result& r = sh->res[k];
                const int split = std::min(1, jobs[k].bound);
                if (second) {
                    while (r.state == 1 && !r.violation && kill(r.pid, 0) == 0) usleep_real(1000);
                    if (r.violation || r.capped || jobs[k].bound <= split) continue;
                }
                r.pid = getpid(); r.state = 1;
                explore_job(jobs[k], r, prop.c_str(), &sh->stop, second ? split + 1 : 0, second ? jobs[k].bound : split, t0 + limit);
                r.state = 2;
                if (sh->res[k].violation) { if (__sync_add_and_fetch(&sh->nviol, 1) >= 8) sh->stop = 1; }
            }
        }
        return pid;
    };
    int running = 0;
    for (int i = 0; i < nproc && i < nj; ++i) { spawn(); ++running; }
    while (running > 0) {
        int st; pid_t p = waitpid(-1, &st, 0); if (p < 0) break; --running;
        if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
            __sync_add_and_fetch(&sh->nviol, 1);
            if (WIFEXITED(st) && WEXITSTATUS(st) == 44) fprintf(stderr, "runtime crashed outside of an execution\n");
            if (sh->nviol < 8 && !sh->stop) { spawn(); ++running; }
        }
    }
    double wall = now_s() - t0;
    // output
    FILE* fo = out.empty() ? stdout : fopen(out.c_str(), "w");
    fprintf(fo, "{\"property\":\"%s\",\"wall\":%.3f,\"jobs\":[\n", prop.c_str(), wall);
    bool first = true;
    for (int k = 0; k < nj; ++k) {
        if (only >= 0 && k != only) continue;
        Result& r = sh->res[k];
        std::string m; json_escape(m, r.msg);
        fprintf(fo, "%s{\"job\":%d,\"scenario\":\"%s\",\"param\":[%d,%d,%d,%d,%d,%d,%d,%d],\"bound\":%d,\"bound_done\":%d,\"spurious\":%d,\"state\":%d,"
            "\"execs\":%lu,\"complete\":%lu,\"pruned\":%lu,\"points\":%lu,\"states\":%lu,\"max_steps\":%lu,\"capped\":%d,\"secs\":%.3f,"
            "\"violation\":%d,\"category\":\"%s\",\"msg\":\"%s\",\"vbound\":%d,\"vspur\":%d,\"choices\":[", first ? "" : ",\n", k, jobs[k].name,
            jobs[k].param[0], jobs[k].param[1], jobs[k].param[2], jobs[k].param[3], jobs[k].param[4], jobs[k].param[5], jobs[k].param[6], jobs[k].param[7],
            jobs[k].bound, r.bound_done, jobs[k].spurious, r.state, r.execs, r.complete, r.pruned, r.points, r.states, r.max_steps, r.capped, r.secs,
            r.violation, r.category, m.c_str(), r.current_bound, std::min(jobs[k].spurious, r.current_bound));
        first = false;
        if (r.violation) for (int i = 0; i < r.nchoices; ++i) fprintf(fo, "%s\"%d/%d\"", i ? "," : "", r.choices[i], r.nopts[i]);
        fprintf(fo, "]}");
    }
    fprintf(fo, "\n]}\n");
    if (fo != stdout) fclose(fo);
    return 0;
}

} // namespace

int main(int argc, char** argv)
{
    init_runtime();
    int rc = real_main(argc, argv);
    fflush(stdout); fflush(stderr);
    _exit(rc);
}
