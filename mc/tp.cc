// ThreadPool scenarios: an interpreter for client programs, run on the real pool.
#include "mc.h"
#include "../seq/std.h"
#include "hist.h"
#include <gul14/ThreadPool.h>
#include <algorithm>
#include <csignal>
#include <cstring>
#include <string>
#include <vector>
#include <memory>
#include <stdexcept>

using namespace gul14;
using namespace std::chrono_literals;
using namespace hist;

namespace {

constexpr mc::ns_t MS = 1000000;

// ------------------------------------------------------------------ static bookkeeping
int token_live[MAXT], token_made[MAXT];
int tasks_created;
ThreadPool* pool_raw;
bool pool_destroyed; int destroyed_step;
bool destroying;
int drop_thread;
bool probe_pool_in_dtor;
int dtor_probe_adds;

struct Boom { int id; };

// What a task shall do
enum Kind { K_INT, K_THROW, K_PTR, K_VOID, K_NEST, K_BLOCK, K_NEST_DELAY, K_CANCEL_ALL, K_POOLARG, K_QUERY, K_DTOR, K_STR, K_OWN, K_MUTABLE, K_MUTARG, K_MOVEONLY, K_REF };

/// Token captured by every callable: counts live copies; optionally uses the pool when the
/// last copy dies.
struct Token
{
    int id; bool owner;
    explicit Token(int i) : id(i), owner(true) { ++token_live[id]; ++token_made[id]; }
    Token(const Token& o) : id(o.id), owner(o.owner) { ++token_live[id]; }
    Token(Token&& o) noexcept : id(o.id), owner(o.owner) { o.owner = false; ++token_live[id]; }
    Token& operator=(const Token&) = delete;
    ~Token() { --token_live[id]; }
};

struct HandleBase
{
    int id; Kind kind; 
    virtual ~HandleBase() {}
    virtual bool cancel() = 0; virtual TaskState state() = 0; virtual bool complete() = 0;
    /// Fetch the result; checks that it belongs to the task.
    virtual void get() = 0;
};

void check_value(int id, int v) { if (v != 1000 + id) mc::fail("T01", "task %d returned %d instead of %d", id, v, 1000 + id); }
void check_value(int id, const std::unique_ptr<int>& v) { if (!v) mc::fail("T01", "null result"); check_value(id, *v); }
void check_value(int id, const std::string& v) { if (v != "result of task with number " + std::to_string(id)) mc::fail("T01", "wrong string result"); }

template <typename T> struct Getter { static void get(ThreadPool::TaskHandle<T>& h, int id) { check_value(id, h.get_result()); } };
int ref_target[MAXT];
template <> struct Getter<int&> { static void get(ThreadPool::TaskHandle<int&>& h, int id) { int& r = h.get_result(); if (&r != ref_target + id) mc::fail("T01", "result is a reference to another object"); check_value(id, r); } };
template <> struct Getter<void> { static void get(ThreadPool::TaskHandle<void>& h, int) { h.get_result(); } };

template <typename T>
struct Handle : HandleBase
{
    ThreadPool::TaskHandle<T> h;
    Handle(ThreadPool::TaskHandle<T>&& x) : h(std::move(x)) {}
    bool cancel() override { return h.cancel(); }
    TaskState state() override { return h.get_state(); }
    bool complete() override { return h.is_complete(); }
    void get() override { Getter<T>::get(h, id); }
};

bool fetched[MAXT], refused[MAXT];
HandleBase* handle[MAXT];          // owned by the main program
int* payload;                      // heap memory written by tasks, read by clients after get_result

struct Env
{
    mc::Gate gate; mc::Gate own[16]; bool opened[16] = {};
    void open_all() { gate.open(); for (auto& g : own) g.open(); }
};
Env* env;

int main_ids, second_ids, second_thread;
/// Ids depend on the history of the adding thread only (not on the interleaving).
int new_task_id(int parent)
{
    if (parent >= 0) { if (parent >= 16 || task[16 + parent].add_called) mc::fail("internal", "nested twice"); return 16 + parent; }
    int& n = (second_thread && mc::self() == second_thread) ? second_ids : main_ids;
    if (n >= 8) mc::fail("internal", "too many tasks");
    return (&n == &second_ids ? 8 : 0) + n++;
}

enum AddHow { H_PLAIN, H_NAME, H_DELAY, H_TIME, H_NEVER, H_ENDLESS, H_PAST };
constexpr mc::ns_t NEVER = 1LL << 60;

template <typename T, typename F>
HandleBase* do_add(ThreadPool& pool, int id, Kind kind, AddHow how, mc::ns_t delay, F fct)
{
    TaskRec& t = task[id];
    char name[8]; name[0] = 't'; name[1] = (char)('A' + id); name[2] = 0;
    int inv = mc::log_begin();
    t.add_called = true; t.add_inv = inv;
    const mc::ns_t t0 = mc::now();
    t.start_lo = (how == H_DELAY || how == H_TIME) ? t0 + delay : 0;
    t.start_hi = INF * 1000000000LL; // not known yet
    if (how == H_TIME) t.start_hi = t.start_lo;
    if (how == H_NEVER || how == H_ENDLESS) t.start_lo = NEVER, t.start_hi = NEVER, delay = 0;
    if (how == H_PLAIN || how == H_NAME || how == H_PAST) t.start_hi = 0;
    if (delay > 0) { mc::interesting_time(t0 + delay - 1); mc::interesting_time(t0 + delay); }
    mc::note("add task %d", id);
    Handle<T>* hb = nullptr;
    bool full = false;
    mc::Prompt prompt{ "T05", "adding a task" };
    try {
        switch (how) {
        case H_PLAIN: hb = new Handle<T>(pool.add_task(std::move(fct))); break;
        case H_NAME: hb = new Handle<T>(pool.add_task(std::move(fct), std::string(name))); break;
        case H_DELAY: hb = new Handle<T>(pool.add_task(std::move(fct), ThreadPool::Duration(std::chrono::nanoseconds(delay)), std::string(name))); break;
        case H_TIME: hb = new Handle<T>(pool.add_task(std::move(fct),
            ThreadPool::TimePoint(std::chrono::nanoseconds(1000000000LL * 1000000000LL + t0 + delay)), std::string(name))); break;
        case H_NEVER: hb = new Handle<T>(pool.add_task(std::move(fct), ThreadPool::TimePoint::max(), std::string(name))); break;
        case H_ENDLESS: hb = new Handle<T>(pool.add_task(std::move(fct), ThreadPool::Duration::max(), std::string(name))); break;
        case H_PAST: hb = new Handle<T>(pool.add_task(std::move(fct), ThreadPool::Duration::min(), std::string(name))); break;
        }
    } catch (const std::runtime_error&) { full = true; }
    catch (const std::logic_error&) { if (!destroying) throw; t.rejected = true; }
    catch (const std::bad_weak_ptr&) { if (!destroying) throw; t.rejected = true; }
    if (t.rejected) { mc::log_end(); return nullptr; } // a pool that is being destroyed may refuse new tasks
    if (how == H_DELAY) t.start_hi = mc::now() + delay;
    int res = mc::log_end();
    t.add_res = res; t.accepted = !full; t.rejected = full;
    Event& e = add_event(ADD, id, inv, res, !full);
    (void)e;
    if (hb) { hb->id = id; hb->kind = kind; }
    return hb;
}

HandleBase* add_kind(ThreadPool& pool, Kind kind, AddHow how, mc::ns_t delay, int parent = -1);

void body_common(int id)
{
    on_start(id);
    if (pool_destroyed) mc::fail("T06", "task %d started after the destruction of the pool", id);
    const uint64_t need = 1ull << SIGALRM | 1ull << SIGINT | 1ull << SIGPIPE | 1ull << SIGTERM | 1ull << SIGURG | 1ull << SIGUSR1 | 1ull << SIGUSR2;
    if ((mc::blocked_signals() & need) != need)
        mc::fail("T07", "worker thread executes a task with unblocked signals (missing mask %llx)", (unsigned long long)(need & ~mc::blocked_signals()));
    if (destroying && drop_thread >= 0 && mc::first_join_step(drop_thread) >= 0 && mc::first_join_step(drop_thread) < task[id].pick_lo)
        mc::fail("T06", "task %d was started by a worker that had finished its previous task during the destruction", id);
    payload[id] = 77 + id;
}

struct EndGuard { int id; ~EndGuard() { on_end(id); if (pool_destroyed) mc::fail("T06", "task %d ended after the destruction of the pool", id); } };

void keep(HandleBase* h) { if (h) { handle[h->id] = h; mc::hb_release(&handle[h->id]); } }

void nested_add(int parent, ThreadPool& p, Kind kind, AddHow how, mc::ns_t delay) { keep(add_kind(p, kind, how, delay, parent)); }

/// Uses the pool when destructed (last owner only)
struct DtorProbe
{
    std::weak_ptr<ThreadPool> pool; int id; bool armed = true;
    DtorProbe(std::weak_ptr<ThreadPool> p, int i) : pool(std::move(p)), id(i) {}
    DtorProbe(DtorProbe&& o) noexcept : pool(std::move(o.pool)), id(o.id), armed(o.armed) { o.armed = false; }
    DtorProbe(const DtorProbe& o) : pool(o.pool), id(o.id), armed(false) {}
    ~DtorProbe()
    {
        if (!armed) return;
        // Only use the pool if somebody else keeps it alive for the time being: a pool
        // must not be destroyed from one of its own threads (see known findings).
        auto p = pool.lock();
        if (p && !destroying) { ++dtor_probe_adds; (void)p->count_pending(); (void)p->is_idle(); }
    }
};

HandleBase* add_kind(ThreadPool& pool, Kind kind, AddHow how, mc::ns_t delay, int parent)
{
    const int id = new_task_id(parent);
    Token tok(id);
    switch (kind) {
    case K_INT: return do_add<int>(pool, id, kind, how, delay, [tok, id]() { EndGuard g{ id }; body_common(id); return 1000 + id; });
    case K_PTR: return do_add<std::unique_ptr<int>>(pool, id, kind, how, delay, [tok, id]() { EndGuard g{ id }; body_common(id); return std::make_unique<int>(1000 + id); });
    case K_STR: return do_add<std::string>(pool, id, kind, how, delay, [tok, id](ThreadPool&) { EndGuard g{ id }; body_common(id); return "result of task with number " + std::to_string(id); });
    case K_VOID: return do_add<void>(pool, id, kind, how, delay, [tok, id]() { EndGuard g{ id }; body_common(id); });
    case K_THROW: return do_add<int>(pool, id, kind, how, delay, [tok, id]() -> int { EndGuard g{ id }; body_common(id); throw Boom{ id }; });
    case K_POOLARG: return do_add<int>(pool, id, kind, how, delay, [tok, id](ThreadPool& p) { EndGuard g{ id }; body_common(id);
        if (&p != pool_raw) mc::fail("T01", "task got a reference to a wrong pool"); return 1000 + id; });
    case K_BLOCK: return do_add<int>(pool, id, kind, how, delay, [tok, id]() { EndGuard g{ id }; body_common(id); env->gate.wait(); return 1000 + id; });
    case K_OWN: return do_add<int>(pool, id, kind, how, delay, [tok, id]() { EndGuard g{ id }; body_common(id); env->own[id].wait(); return 1000 + id; });
    case K_NEST: return do_add<int>(pool, id, kind, how, delay, [tok, id](ThreadPool& p) { EndGuard g{ id }; body_common(id); nested_add(id, p, K_INT, H_NAME, 0); return 1000 + id; });
    case K_NEST_DELAY: return do_add<int>(pool, id, kind, how, delay, [tok, id](ThreadPool& p) { EndGuard g{ id }; body_common(id); nested_add(id, p, K_INT, H_DELAY, 10 * MS); return 1000 + id; });
    case K_CANCEL_ALL: return do_add<int>(pool, id, kind, how, delay, [tok, id](ThreadPool& p) { EndGuard g{ id }; body_common(id);
        int inv = mc::log_begin(); int n = (int)p.cancel_pending_tasks(); int res = mc::log_end(); add_event(CANCEL_ALL, id, inv, res, n); cancel_all_sum += n; return 1000 + id; });
    case K_QUERY: return do_add<int>(pool, id, kind, how, delay, [tok, id](ThreadPool& p) { EndGuard g{ id }; body_common(id);
        if (p.is_idle()) mc::fail("T05", "pool claims to be idle while a task is running");
        bool found = false; for (auto& s : p.get_running_task_names()) if (s.size() == 2 && s[1] == 'A' + id) found = true;
        if (!found) mc::fail("T05", "running task not listed");
        return 1000 + id; });
#ifdef PROPERTY_T01
    // callables that can be called with or without the pool, but not if they are constant or have to be copied
    case K_MUTABLE: { int n = 0; return do_add<int>(pool, id, kind, how, delay, [tok, id, n]() mutable { EndGuard g{ id }; body_common(id); n += 1000 + id; return n; }); }
    case K_MUTARG: { int n = 0; return do_add<int>(pool, id, kind, how, delay, [tok, id, n](ThreadPool& p) mutable { EndGuard g{ id }; body_common(id); if (&p != pool_raw) mc::fail("T01", "task got a reference to a wrong pool"); n += 1000 + id; return n; }); }
    case K_MOVEONLY: { auto ptr = std::make_unique<int>(1000 + id);
        struct Fn { Token tok; std::unique_ptr<int> ptr; int id; std::unique_ptr<int> operator()() { EndGuard g{ id }; body_common(id); return std::move(ptr); } };
        return do_add<std::unique_ptr<int>>(pool, id, kind, how, delay, Fn{ tok, std::move(ptr), id }); }
    case K_REF: return do_add<int&>(pool, id, kind, how, delay, [tok, id]() -> int& { EndGuard g{ id }; body_common(id); ref_target[id] = 1000 + id; return ref_target[id]; });
#endif
    case K_DTOR: {
        DtorProbe pr(pool.shared_from_this(), id);
        struct Fn { Token tok; DtorProbe pr; int id; int operator()(ThreadPool&) const { EndGuard g{ id }; body_common(id); return 1000 + id; } };
        return do_add<int>(pool, id, kind, how, delay, Fn{ tok, std::move(pr), id }); }
    }
    return nullptr;
}

// ------------------------------------------------------------------ client operations
// Letters of client programs
//  a,m,s,v,x,p: add immediate task returning int/unique_ptr/string/void, throwing, taking the pool
//  u: add unnamed   b: add blocking   n,N: add nesting (immediate/delayed)   k: task cancels all   q: task queries
//  y: add task whose callable uses the pool in its destructor
//  d: delayed 10 ms   e: start time point in 5 ms   f: delayed blocking task (10 ms)
//  i: start time in the past  j: delayed 1500 ns  h: delayed 30 days  l: start time at the end of the clock's range (never)
//  g,G: get result of oldest / newest unfetched handle    w: sleep until +12 ms (quiescent)
//  c,C: cancel oldest / newest handle   K: cancel all pending   o: open gate
//  1..6: queries count,full,idle,pending names,running names;  7,8: state of oldest/newest; 9,0: complete of oldest/newest
//  L: delayed by the longest possible duration (never)   J: delayed by the most negative duration (now)
//  r,t,A,Q: mutable callable without/with pool argument, move-only callable, reference result (T01 only)
//  B: add task that blocks until its own gate opens   O, M, P: open the own gate of the oldest, second oldest, newest such task
//  z: drop pool reference     W: wait until quiescent (no time advance)
const char LETTERS[] = "?amsvxpubnNkqydefgGwcCKo1234567890zWDijhlBOMPLJrtAQ";

// Both are called directly after a begin stamp, so that the set of visible handles is part of
// the history. Handles of nested tasks are not used before everything has settled.
int newest_handle() { for (int i = 15; i >= 0; --i) if (handle[i]) { mc::hb_acquire(&handle[i]); return i; } return -1; }
int oldest_handle() { for (int i = 0; i < 16; ++i) if (handle[i]) { mc::hb_acquire(&handle[i]); return i; } return -1; }

int name_to_id(const std::string& s)
{
    if (s.empty()) return -1;
    if (s.size() != 2 || s[0] != 't') mc::fail("T05", "unknown task name in list");
    return s[1] - 'A';
}

void do_get(int i)
{
    mc::hb_acquire(&handle[i]);
    fetched[i] = true;
    HandleBase* h = handle[i];
    TaskRec& t = task[i];
    int inv = mc::log_begin();
    bool threw_boom = false, logic = false;
    try { h->get(); }
    catch (const Boom& b) { threw_boom = true; if (b.id != i) mc::fail("T01", "exception of task %d delivered for task %d", b.id, i); }
    catch (const std::logic_error&) { logic = true; }
    int res = mc::log_end();
    mc::note("get_result(%d): %s", i, logic ? "logic_error" : threw_boom ? "exception" : "value");
    if (logic) {
        if (t.starts && !t.canceled_true) mc::fail("T01", "result of task %d is not available although it has been started", i);
        refused[i] = true; // never ran: must be canceled or dropped by destruction - checked at the end
        return;
    }
    if (t.ends != 1) mc::fail("T01", "result of task %d delivered but the task has not finished", i);
    if (threw_boom != (h->kind == K_THROW)) mc::fail("T01", "wrong kind of outcome for task %d", i);
    if (payload[i] != 77 + i) mc::fail("T01", "effect of task %d not visible", i);
    add_event(GET, i, inv, res);
}

void do_cancel(bool newest)
{
    int inv = mc::log_begin();
    const int i = newest ? newest_handle() : oldest_handle();
    if (i < 0) return;
    mc::Prompt prompt{ "T04", "canceling a task" };
    bool r = handle[i]->cancel();
    int res = mc::log_end();
    mc::note("cancel(%d) = %d", i, r);
    if (r) { task[i].canceled_true = true; task[i].cancel_true_res = res; fetched[i] = true; }
    add_event(CANCEL, i, inv, res, r);
}

void query(ThreadPool& pool, char c)
{
    int inv = mc::log_begin();
    mc::Prompt prompt{ "T05", "a query" };
    switch (c) {
    case '1': { int r = (int)pool.count_pending(); int res = mc::log_end(); add_event(Q_COUNT, 0, inv, res, r);
        if (r > (int)pool.capacity()) mc::fail("T05", "more pending tasks than capacity"); break; }
    case '2': { int r = pool.is_full(); int res = mc::log_end(); add_event(Q_FULL, 0, inv, res, r); break; }
    case '3': { int r = pool.is_idle(); int res = mc::log_end(); add_event(Q_IDLE, 0, inv, res, r); break; }
    case '4': case '5': {
        auto v = c == '4' ? pool.get_pending_task_names() : pool.get_running_task_names();
        int res = mc::log_end();
        Event& e = add_event(c == '4' ? Q_PNAMES : Q_RNAMES, 0, inv, res, (int)v.size());
        for (auto& s : v) { if (e.nlist < MAXT) e.list[e.nlist++] = name_to_id(s); }
        break; }
    case '7': case '8': {
        int i = c == '7' ? oldest_handle() : newest_handle(); if (i < 0) break;
        TaskState s = handle[i]->state(); int res = mc::log_end();
        mc::note("state(%d) = %d", i, (int)s);
        add_event(Q_STATE, i, inv, res, (int)s); break; }
    case '9': case '0': {
        int i = c == '9' ? oldest_handle() : newest_handle(); if (i < 0) break;
        bool s = handle[i]->complete(); int res = mc::log_end();
        add_event(Q_COMPLETE, i, inv, res, s); break; }
    }
}

void exec_op(std::shared_ptr<ThreadPool>& pool, char c)
{
    ThreadPool* P = pool.get();
    switch (c) {
    case 'a': keep(add_kind(*P, K_INT, H_NAME, 0)); break;
    case 'm': keep(add_kind(*P, K_PTR, H_NAME, 0)); break;
    case 's': keep(add_kind(*P, K_STR, H_NAME, 0)); break;
    case 'v': keep(add_kind(*P, K_VOID, H_NAME, 0)); break;
    case 'x': keep(add_kind(*P, K_THROW, H_NAME, 0)); break;
    case 'p': keep(add_kind(*P, K_POOLARG, H_NAME, 0)); break;
    case 'u': keep(add_kind(*P, K_INT, H_PLAIN, 0)); break;
    case 'b': keep(add_kind(*P, K_BLOCK, H_NAME, 0)); break;
    case 'B': { keep(add_kind(*P, K_OWN, H_NAME, 0)); break; }
    case 'O': case 'M': case 'P': {
        mc::log_begin();
        int c3[16], n = 0;
        for (int i = 0; i < 16; ++i) if (handle[i] && handle[i]->kind == K_OWN && !env->opened[i]) c3[n++] = i;
        if (n == 0) break;
        const int i = c3[c == 'O' ? 0 : c == 'P' ? n - 1 : n > 1 ? 1 : 0];
        env->opened[i] = true; env->own[i].open(); break; }
    case 'n': keep(add_kind(*P, K_NEST, H_NAME, 0)); break;
    case 'N': keep(add_kind(*P, K_NEST_DELAY, H_NAME, 0)); break;
    case 'k': keep(add_kind(*P, K_CANCEL_ALL, H_NAME, 0)); break;
    case 'q': keep(add_kind(*P, K_QUERY, H_NAME, 0)); break;
    case 'y': keep(add_kind(*P, K_DTOR, H_NAME, 0)); break;
    case 'd': keep(add_kind(*P, K_INT, H_DELAY, 10 * MS)); break;
    case 'D': keep(add_kind(*P, K_THROW, H_DELAY, 20 * MS)); break;
    case 'e': keep(add_kind(*P, K_INT, H_TIME, 5 * MS)); break;
    case 'i': keep(add_kind(*P, K_INT, H_TIME, -3600000LL * MS)); break;
    case 'j': keep(add_kind(*P, K_INT, H_DELAY, 1500)); break;
    case 'h': keep(add_kind(*P, K_INT, H_DELAY, 30LL * 86400000LL * MS)); break;
    case 'l': keep(add_kind(*P, K_INT, H_NEVER, NEVER)); break;
    case 'L': keep(add_kind(*P, K_INT, H_ENDLESS, NEVER)); break;
    case 'J': keep(add_kind(*P, K_INT, H_PAST, 0)); break;
    case 'r': keep(add_kind(*P, K_MUTABLE, H_NAME, 0)); break;
    case 't': keep(add_kind(*P, K_MUTARG, H_NAME, 0)); break;
    case 'A': keep(add_kind(*P, K_MOVEONLY, H_NAME, 0)); break;
    case 'Q': keep(add_kind(*P, K_REF, H_NAME, 0)); break;
    case 'f': keep(add_kind(*P, K_BLOCK, H_DELAY, 10 * MS)); break;
    case 'g': { mc::log_begin(); for (int i = 0; i < 16; ++i) if (handle[i] && !fetched[i]) { do_get(i); break; } break; }
    case 'G': { mc::log_begin(); for (int i = 15; i >= 0; --i) if (handle[i] && !fetched[i]) { do_get(i); break; } break; }
    case 'w': mc::wait_quiescent(mc::now() + 12 * MS); break;
    case 'W': mc::wait_quiescent(0); break;
    case 'c': do_cancel(false); break;
    case 'C': do_cancel(true); break;
    case 'K': { int inv = mc::log_begin(); mc::Prompt prompt{ "T04", "canceling all tasks" }; int n = (int)P->cancel_pending_tasks(); int res = mc::log_end(); mc::note("cancel_all = %d", n);
        add_event(CANCEL_ALL, 0, inv, res, n); cancel_all_sum += n; break; }
    case 'o': env->gate.open(); break;
    case 'z': { pool.reset(); break; }
    default: if (c >= '0' && c <= '9') query(*P, c); break;
    }
}

void unpack(const int* p, char* out)
{
    // 5 letters per int (6 bits each)
    int n = 0;
    for (int k = 0; k < 2; ++k) for (int j = 0; j < 5; ++j) { int c = p[k] >> (6 * j) & 63; if (c) out[n++] = LETTERS[c]; }
    out[n] = 0;
}

/// Called in a quiescent state
void check_idle_rule(ThreadPool& pool)
{
    int running = 0;
    for (int i = 0; i < ntask; ++i) if (task[i].starts && !task[i].ends) ++running;
    if (running >= threads) return;
    int waiting_due = 0, first = -1;
    std::vector<std::string> names; // needed only if it is unknown which tasks have been removed
    if (cancel_all_sum) names = pool.get_pending_task_names();
    for (int i = 0; i < ntask; ++i)
        if (task[i].accepted && !task[i].starts && !task[i].canceled_true && task[i].start_hi <= mc::now()) {
            if (cancel_all_sum && std::find(names.begin(), names.end(), std::string{ 't', (char)('A' + i) }) == names.end()) continue;
            ++waiting_due; if (first < 0) first = i;
        }
    if (waiting_due > 0)
        mc::fail("T03", "task %d is due and only %d of %d threads are busy, but it does not get started", first, running, threads);
}

/// A moment at which all tasks are due
mc::ns_t settle_time()
{
    mc::ns_t t = mc::now();
    for (int i = 0; i < ntask; ++i) if (task[i].accepted && task[i].start_hi < NEVER && task[i].start_hi > t) t = task[i].start_hi;
    return t + 40 * MS;
}

/// Lets time pass from one start time to the next: At each of them (and before the first one), no
/// task may be waiting without need
void settle(ThreadPool& pool)
{
    for (;;) {
        mc::wait_quiescent(0);
        check_idle_rule(pool);
        mc::ns_t next = NEVER;
        for (int i = 0; i < ntask; ++i) if (task[i].accepted && !task[i].starts && !task[i].canceled_true && task[i].start_hi > mc::now() && task[i].start_hi < next) next = task[i].start_hi;
        if (next == NEVER) break;
        mc::wait_quiescent(next);
    }
    mc::wait_quiescent(settle_time());
    check_idle_rule(pool);
}

/// param: 0 threads, 1 capacity, 2-3 main program, 4-5 second client's program, 6 flags
enum { FL_NOSETTLE = 1, FL_PREFIX = 16 }; // flags / 16: number of main operations before the second client starts

void program(const int* p)
{
    threads = p[0]; capacity = p[1];
    char prog[2][12]; unpack(p + 2, prog[0]); unpack(p + 4, prog[1]);
    const int flags = p[6];
    env = new Env;
    payload = new int[MAXT];
    {
        auto pool = make_thread_pool((std::size_t)threads, (std::size_t)capacity);
        pool_raw = pool.get();
        std::thread other;
        const char* mp = prog[0];
        for (int k = flags >> 4; k > 0 && *mp; --k) exec_op(pool, *mp++);
        if (prog[1][0]) {
            auto prg = prog[1];
            other = std::thread([&pool, prg]() { second_thread = mc::self(); for (const char* c = prg; *c; ++c) exec_op(pool, *c); });
        }
        for (const char* c = mp; *c; ++c) exec_op(pool, *c);
        if (other.joinable()) other.join();

        if (!(flags & FL_NOSETTLE)) {
            settle(*pool);
            env->open_all();
            settle(*pool);
            // Everything has come to rest
            int never = 0;
            for (int i = 0; i < ntask; ++i) {
                TaskRec& t = task[i];
                if (t.rejected && t.starts) mc::fail("T05", "task %d was rejected but ran", i);
                if (!t.accepted) continue;
                if (t.canceled_true && t.starts) mc::fail("T04", "canceled task %d was executed", i);
                if (refused[i] && t.starts) mc::fail("T01", "get_result of task %d failed although it was executed", i);
                if (!t.starts && !t.canceled_true) ++never;
                if (t.starts != t.ends) mc::fail("T01", "task %d has not finished", i);
            }
            if (never != cancel_all_sum)
                mc::fail(cancel_all_sum ? "T04" : "T01", "%d accepted tasks never ran, but %d were removed by canceling all", never, cancel_all_sum);
            if (pool->count_pending() != 0 || !pool->is_idle() || !pool->get_running_task_names().empty() || !pool->get_pending_task_names().empty() || pool->is_full())
                mc::fail("T05", "pool at rest does not report an idle state");
            for (int i = 0; i < ntask; ++i) if (handle[i]) {
                mc::hb_acquire(&handle[i]);
                TaskRec& t = task[i];
                TaskState s = handle[i]->state();
                bool comp = handle[i]->complete();
                TaskState expect = t.starts ? TaskState::complete : TaskState::canceled;
                if (s != expect) mc::fail(t.starts ? "T05" : "T04", "final state of task %d is %d instead of %d", i, (int)s, (int)expect);
                if (comp != (t.starts != 0)) mc::fail("T05", "task %d: is_complete() = %d", i, comp);
                bool again = handle[i]->cancel();
                if (again) mc::fail("T04", "cancel of settled task %d returned true", i);
                if (!fetched[i]) do_get(i);
                if (handle[i]->state() != expect) mc::fail("T05", "state of task %d changed to %d after fetching the result", i, (int)handle[i]->state());
                if (handle[i]->complete() != (t.starts != 0)) mc::fail("T05", "is_complete() of task %d changed after fetching the result", i);
            }
        }
        destroying = true; drop_thread = 0;
        pool.reset();
        pool_destroyed = true;
        if (mc::live_threads() != 1) mc::fail("T06", "%d threads are still alive after the destruction of the pool", mc::live_threads() - 1);
        for (int i = 0; i < ntask; ++i) if (handle[i]) {
                mc::hb_acquire(&handle[i]);
            bool threw = false;
            try { (void)handle[i]->state(); } catch (const std::logic_error&) { threw = true; }
            if (!threw) mc::fail("T06", "get_state() without pool does not throw");
            threw = false;
            try { (void)handle[i]->cancel(); } catch (const std::logic_error&) { threw = true; }
            if (!threw) mc::fail("T06", "cancel() without pool does not throw");
            TaskRec& t = task[i];
            if (t.starts != t.ends) mc::fail("T06", "task %d has been started but did not finish", i);
            if (handle[i]->complete() != (t.starts != 0)) mc::fail("T06", "is_complete() of task %d is wrong after destruction of the pool", i);
            if (!fetched[i]) do_get(i);
        }
        for (int i = 0; i < ntask; ++i) { mc::hb_acquire(&handle[i]); delete handle[i]; handle[i] = nullptr; }
    }
    for (int i = 0; i < ntask; ++i) if (token_live[i] != 0) mc::fail("T06", "%d copies of the callable of task %d have not been destroyed", token_live[i], i);
    delete[] payload;
    env->open_all();
    delete env;
    check_history();
}

// Destruction at an arbitrary moment: one client owns the last reference and drops it while
// another thread opens the gate later.
void destroy(const int* p)
{
    threads = p[0]; capacity = p[1];
    char prog[2][12]; unpack(p + 2, prog[0]); unpack(p + 4, prog[1]);
    env = new Env;
    payload = new int[MAXT];
    {
        auto pool = make_thread_pool((std::size_t)threads, (std::size_t)capacity);
        pool_raw = pool.get();
        for (const char* c = prog[0]; *c; ++c) exec_op(pool, *c);
        std::thread helper([]() { mc::wait_quiescent(mc::now() + 30 * MS); env->open_all(); });
        destroying = true; drop_thread = 0;
        mc::note("drop pool");
        const int begin = mc::log_begin();
        pool.reset();
        const int end = mc::log_end();
        mc::note("pool destroyed");
        pool_destroyed = true; destroyed_step = end; (void)begin;
        helper.join();
        for (int i = 0; i < ntask; ++i) {
            TaskRec& t = task[i];
            if (t.starts != t.ends) mc::fail("T06", "task %d was not finished when the destructor returned", i);
            if (!handle[i]) continue;
            mc::hb_acquire(&handle[i]);
            bool threw = false;
            try { (void)handle[i]->state(); } catch (const std::logic_error&) { threw = true; }
            if (!threw) mc::fail("T06", "get_state() without pool does not throw");
            if (handle[i]->complete() != (t.starts != 0)) mc::fail("T06", "is_complete() of task %d is %d after destruction of the pool", i, handle[i]->complete());
            if (!fetched[i]) do_get(i);
            delete handle[i]; handle[i] = nullptr;
        }
        if (mc::live_threads() != 1) mc::fail("T06", "%d threads are still alive after the destruction of the pool", mc::live_threads() - 1);
    }
    for (int i = 0; i < ntask; ++i) if (token_live[i] != 0) mc::fail("T06", "%d copies of the callable of task %d have not been destroyed", token_live[i], i);
    delete[] payload; delete env;
    check_history();
}

// The last reference is dropped by whichever of two client threads comes last.
void destroy_shared(const int* p)
{
    threads = p[0]; capacity = p[1];
    char prog[2][12]; unpack(p + 2, prog[0]); unpack(p + 4, prog[1]);
    env = new Env; env->open_all();
    payload = new int[MAXT];
    destroying = false;
    {
        auto pool = make_thread_pool((std::size_t)threads, (std::size_t)capacity);
        pool_raw = pool.get();
        auto prg = prog[1];
        std::thread other([pool2 = pool, prg]() mutable { second_thread = mc::self(); for (const char* c = prg; *c; ++c) exec_op(pool2, *c); pool2.reset(); });
        for (const char* c = prog[0]; *c; ++c) exec_op(pool, *c);
        destroying = true; drop_thread = -1;
        pool.reset();
        other.join();
        pool_destroyed = true;
        if (mc::live_threads() != 1) mc::fail("T06", "%d threads are still alive after the destruction of the pool", mc::live_threads() - 1);
        for (int i = 0; i < ntask; ++i) { if (task[i].starts != task[i].ends) mc::fail("T06", "task %d not finished", i); if (handle[i] && !fetched[i]) do_get(i); delete handle[i]; handle[i] = nullptr; }
    }
    for (int i = 0; i < ntask; ++i) if (token_live[i] != 0) mc::fail("T06", "callable of task %d has not been destroyed", i);
    delete[] payload; delete env;
}

// A handle is queried in one thread while the pool gets destroyed in another one.
// param 7: 0 = query from a client thread, 1 = from a task on a second pool... (see jobs)
void handle_vs_destroy(const int* p)
{
    threads = p[0]; capacity = p[1];
    env = new Env; env->open_all();
    payload = new int[MAXT];
    {
        auto pool = make_thread_pool((std::size_t)threads, (std::size_t)capacity);
        pool_raw = pool.get();
        exec_op(pool, 'a');
        if (p[2]) exec_op(pool, 'd');
        int which = p[2] ? 1 : 0;
        destroying = true; drop_thread = -1;
        std::thread other([which, p]() {
            try {
                switch (p[3]) {
                case 0: (void)handle[which]->state(); break;
                case 1: if (handle[which]->cancel()) { task[which].canceled_true = true; task[which].cancel_true_res = mc::log_end(); } break;
                case 2: (void)handle[which]->complete(); break;
                case 3: try { handle[which]->get(); } catch (const std::logic_error&) { if (task[which].starts) throw; } break;
                }
            } catch (const std::future_error&) { mc::fail("T06", "unexpected future error"); }
            catch (const std::logic_error&) {}
        });
        pool.reset();
        other.join();
        pool_destroyed = true;
        if (mc::live_threads() != 1) mc::fail("T06", "threads are still alive after the destruction of the pool");
        for (int i = 0; i < ntask; ++i) { mc::hb_acquire(&handle[i]); delete handle[i]; handle[i] = nullptr; }
    }
    delete[] payload; delete env;
}

// Known limitation: a task that uses a handle while the owner drops the pool may become the
// last owner itself.
void drop_in_worker(const int* p)
{
    threads = 1; capacity = 5;
    env = new Env; payload = new int[MAXT];
    {
        auto pool = make_thread_pool(1, 5);
        auto h0 = std::make_shared<ThreadPool::TaskHandle<int>>(pool->add_task([]() { return 1; }, 10s));
        auto t = pool->add_task([h0]() { try { h0->get_state(); } catch (const std::logic_error&) {} });
        pool.reset();
    }
    delete[] payload; delete env;
}

// Construction with all small configurations, including illegal ones
void construct(const int* p)
{
    (void)p;
    struct { std::size_t n, c; } bad[] = { { 0, 1 }, { 0, 200 }, { 10001, 10 }, { 1, 0 }, { 1, 10000001 }, { std::size_t(-1), 1 }, { 1, std::size_t(-1) }, { 0, 0 } };
    for (auto& b : bad) {
        bool threw = false;
        try { auto q = make_thread_pool(b.n, b.c); } catch (const std::invalid_argument&) { threw = true; }
        if (!threw) mc::fail("T05", "make_thread_pool(%zu, %zu) does not throw", b.n, b.c);
    }
    for (std::size_t n = 1; n <= 3; ++n) {
        const std::size_t c = n == 1 ? 10000000 : n;
        auto q = make_thread_pool(n, c);
        if (q->count_threads() != n || q->capacity() != c || !q->is_idle() || q->is_full() || q->is_shutdown_requested()) mc::fail("T05", "wrong initial state");
        if (mc::live_threads() != (int)n + 1) mc::fail("T05", "wrong number of threads");
        break;
    }
}

// Callables whose copy/move throws at the k-th operation while being added
int bomb_count;
struct Bomb
{
    Token tok; int id;
    Bomb(int i) : tok(i), id(i) {}
    static void tick() { if (bomb_count >= 0 && bomb_count-- == 0) throw Boom{ -1 }; }
    Bomb(const Bomb& o) : tok((tick(), o.tok)), id(o.id) {}
    Bomb(Bomb&& o) : tok((tick(), std::move(o.tok))), id(o.id) {}
    int operator()() const { on_start(id); on_end(id); return 1000 + id; }
};
void bomb(const int* p)
{
    threads = p[0]; capacity = 2;
    payload = new int[MAXT]; env = new Env;
    {
        auto pool = make_thread_pool((std::size_t)threads, 2);
        pool_raw = pool.get();
        const int id = new_task_id(-1);
        const bool delayed = p[1];
        bool threw = false;
        {
            Bomb b(id);
            bomb_count = mc::choose(12, "throwing operation");
            try {
                if (delayed) { auto h = pool->add_task(b, ThreadPool::Duration(5ms)); bomb_count = -1; if (h.get_result() != 1000 + id) mc::fail("T01", "wrong result"); }
                else { auto h = pool->add_task(b); bomb_count = -1; if (h.get_result() != 1000 + id) mc::fail("T01", "wrong result"); }
            } catch (const Boom&) { threw = true; }
            bomb_count = -1;
        }
        if (threw && task[id].starts) mc::fail("T07", "adding the task failed but it was executed");
        if (!threw && !task[id].starts) mc::fail("T07", "exception was swallowed");
        if (threw && (pool->count_pending() != 0 || !pool->is_idle())) mc::fail("T07", "failed addition left traces in the pool");
        auto h2 = pool->add_task([]() { return 5; });
        if (h2.get_result() != 5) mc::fail("T07", "pool not usable after a failed addition");
    }
    if (token_live[0] != 0) mc::fail("T07", "callable leaked");
    delete[] payload; delete env;
}

// Starting the k-th thread (or the k-th memory allocation) fails while a pool is being made
void construct_fault(const int* p)
{
    {
        const int n = p[0];
        const int k = mc::choose(p[1] ? 4 + 3 * n : n + 1, "failing step");
        if (p[1]) mc::set_fault_after(k); else mc::fail_thread_creation_after(k);
        bool threw = false;
        std::shared_ptr<ThreadPool> q;
        try { q = make_thread_pool((std::size_t)n, 2); } catch (const std::exception&) { threw = true; }
        mc::set_fault_after(-1); mc::fail_thread_creation_after(-1);
        if (threw) {
            if (mc::live_threads() != 1) mc::fail("T06", "%d threads are alive although the pool could not be created", mc::live_threads() - 1);
            q = make_thread_pool((std::size_t)n, 2);
        }
        else if (!p[1] && k < n) mc::fail("T06", "a pool is created although a thread could not be started");
        if (q->count_threads() != (std::size_t)n || mc::live_threads() != n + 1) mc::fail("T06", "wrong number of threads");
        q.reset();
        if (mc::live_threads() != 1) mc::fail("T06", "threads are alive after the destruction of the pool");
    }
}

// The k-th memory allocation fails while a task is added
void add_fault(const int* p)
{
    {
        auto pool = make_thread_pool(1, 4);
        std::vector<ThreadPool::TaskHandle<int>> h; h.reserve(4);
        auto add = [&](int r) { std::string name = "a name that is too long for being stored in place";
            if (p[1] == 2) h.push_back(pool->add_task([r](ThreadPool&) { return r; }, ThreadPool::Duration(3600s), std::move(name)));
            else if (p[1] == 1) h.push_back(pool->add_task([r]() { return r; }, ThreadPool::Duration(3600s), std::move(name)));
            else h.push_back(pool->add_task([r]() { return r; }, ThreadPool::TimePoint(std::chrono::nanoseconds(1000000000LL * 1000000000LL) + std::chrono::hours(1)), std::move(name))); };
        const int before = mc::choose(3, "tasks before the fault");
        for (int i = 0; i < before; ++i) add(100 + i);
        mc::set_fault_after(mc::choose(16, "failing allocation"));
        bool threw = false;
        try { add(200); } catch (const std::bad_alloc&) { threw = true; }
        mc::set_fault_after(-1);
        if (pool->count_pending() != (std::size_t)(before + !threw)) mc::fail("T07", "a failed addition left traces in the pool");
        add(201);
        mc::wait_quiescent(mc::now() + 2LL * 3600000 * MS);
        for (int i = 0; i < before; ++i) if (h[i].get_result() != 100 + i) mc::fail("T07", "wrong result");
        if (!threw && h[before].get_result() != 200) mc::fail("T07", "wrong result");
        if (h.back().get_result() != 201) mc::fail("T07", "wrong result");
        mc::wait_quiescent();
        if (!pool->is_idle()) mc::fail("T07", "pool is not idle");
    }
}

// A long history: handles of tasks that finished or were canceled long ago must not be
// confused with any later task, no matter how many tasks came in between.
void long_run(const int* p)
{
    const int cap = p[1];
    {
        auto pool = make_thread_pool((std::size_t)p[0], (std::size_t)cap);
        auto done = pool->add_task([]() { return 7; }, "done");
        mc::wait_quiescent();
        auto gone = pool->add_task([]() { return 8; }, ThreadPool::Duration(3600s), "gone");
        if (!gone.cancel()) mc::fail("T04", "pending task cannot be canceled");
        auto check = [&](int i, const char* when) {
            if (p[3]) {
                if (done.cancel()) mc::fail("T04", "cancel() of the completed task returns true after %d additions, %s", i, when);
                if (gone.cancel()) mc::fail("T04", "cancel() of the canceled task returns true after %d additions, %s", i, when);
            }
            if (done.get_state() != TaskState::complete) mc::fail("T05", "state of the completed task is %d after %d additions, %s", (int)done.get_state(), i, when);
            if (gone.get_state() != TaskState::canceled) mc::fail("T04", "state of the canceled task is %d after %d additions, %s", (int)gone.get_state(), i, when);
            if (done.cancel()) mc::fail("T04", "cancel() of the completed task returns true after %d additions, %s", i, when);
            if (gone.cancel()) mc::fail("T04", "cancel() of the canceled task returns true after %d additions, %s", i, when);
        };
        int value = 0;
        for (int i = 0; i < p[2]; ++i) {
            auto h = pool->add_task([&value, i]() { value = i; return i; }, ThreadPool::Duration(3600s), "later");
            check(i, "with a pending task");
            if (h.get_state() != TaskState::pending) mc::fail("T04", "pending task no. %d was removed", i);
            if (pool->count_pending() != 1) mc::fail("T05", "wrong number of pending tasks");
            if (i % 3 == 0) { if (!h.cancel()) mc::fail("T04", "pending task no. %d cannot be canceled", i); }
            else if (i % 3 == 1) { if (pool->cancel_pending_tasks() != 1) mc::fail("T04", "pending task no. %d has not been removed", i); }
            else { // replace it by one that runs and blocks until released
                if (!h.cancel()) mc::fail("T04", "pending task no. %d cannot be canceled", i);
                mc::Gate g; 
                auto r = pool->add_task([&g, i]() { g.wait(); return i; }, "now");
                mc::wait_quiescent();
                check(i, "with a running task");
                if (r.get_state() != TaskState::running) mc::fail("T05", "running task no. %d has a wrong state", i);
                if (r.cancel()) mc::fail("T04", "running task no. %d could be canceled", i);
                g.open();
                if (r.get_result() != i) mc::fail("T01", "wrong result of task no. %d", i);
                mc::wait_quiescent();
            }
            if (h.get_state() != TaskState::canceled) mc::fail("T04", "task no. %d is not canceled", i);
        }
        if (done.get_result() != 7) mc::fail("T01", "wrong result");
        if (value) mc::fail("T04", "canceled task was executed");
    }
}

// Many tasks: full queues, cancellation at every place of a long queue, many start times, many
// running tasks. Variant 3 needs bound 0 (the clock only advances if nothing can run). param: workers, capacity (0: default), tasks, variant
void mass(const int* p)
{
    const int W = p[0], n = p[2], variant = p[3];
    static int order[512], starts[512], norder; static mc::ns_t when[512];
    memset(starts, 0, sizeof starts); norder = 0;
    mc::Gate gate;
    struct T1 { T1() { ++token_live[0]; } T1(const T1&) { ++token_live[0]; } ~T1() { --token_live[0]; } };
    std::vector<ThreadPool::TaskHandle<int>> h;
    auto name = [](int i) { return i % 3 == 0 ? std::string() : "task number " + std::to_string(i); };
    {
        auto pool = p[1] ? make_thread_pool((std::size_t)W, (std::size_t)p[1]) : make_thread_pool((std::size_t)W);
        const std::size_t cap = p[1] ? (std::size_t)p[1] : 200;
        if (pool->capacity() != cap || pool->count_threads() != (std::size_t)W) mc::fail("T05", "wrong capacity or number of threads");
        h.reserve((std::size_t)n);
        std::vector<ThreadPool::TaskHandle<int>> blockers;
        std::vector<std::string> running;
        auto body = [&](int i) { return [i, t = T1(), &pool]() { (void)t; order[norder++] = i; ++starts[i]; when[i] = mc::now(); return 5000 + i; }; };
        if (variant != 3) {
            // occupy all workers
            for (int i = 0; i < W; ++i) { blockers.push_back(pool->add_task([&gate, i]() { gate.wait(); return i; }, "blocker " + std::to_string(i))); running.push_back("blocker " + std::to_string(i)); mc::wait_quiescent(); }
            auto names = pool->get_running_task_names(); std::sort(names.begin(), names.end()); std::sort(running.begin(), running.end());
            if (names != running) mc::fail("T05", "wrong names of running tasks (%zu instead of %d)", names.size(), W);
            for (auto& b : blockers) if (b.get_state() != TaskState::running) mc::fail("T03", "task does not run although there is an idle worker");
        }
        std::vector<int> queue; // ids of the pending tasks
        const mc::ns_t t0 = mc::now();
        auto start_ms = [&](int i) { return (mc::ns_t)((i * 7) % n + 1) * MS; };
        for (int i = 0; i < n; ++i) {
            bool full = false;
            if (variant != 3 && pool->is_full() != (queue.size() >= cap)) mc::fail("T05", "is_full() is wrong with %zu tasks", queue.size());
            try {
                if (variant == 3) h.push_back(pool->add_task(body(i), ThreadPool::TimePoint(std::chrono::nanoseconds(1000000000LL * 1000000000LL + t0 + start_ms(i))), name(i)));
                else h.push_back(pool->add_task(body(i), name(i)));
            } catch (const std::runtime_error&) { full = true; }
            if (full != (queue.size() >= cap)) mc::fail("T05", "addition of task no. %d to a queue of capacity %zu with %zu tasks %s", i, cap, queue.size(), full ? "failed" : "succeeded");
            if (full) { h.emplace_back(); continue; }
            queue.push_back(i);
        }
        if (norder) mc::fail("T02", "a task started too early");
        auto look = [&](const char* at) {
            if (pool->count_pending() != queue.size()) mc::fail("T05", "%zu pending tasks instead of %zu %s", pool->count_pending(), queue.size(), at);
            const auto names = pool->get_pending_task_names();
            if (names.size() != queue.size()) mc::fail("T05", "%zu names of pending tasks %s", names.size(), at);
            for (std::size_t i = 0; i < queue.size(); ++i) if (names[i] != name(queue[i])) mc::fail("T05", "wrong name of pending task no. %zu %s", i, at);
            for (int i : queue) if (h[(std::size_t)i].get_state() != TaskState::pending || h[(std::size_t)i].is_complete()) mc::fail("T05", "wrong state of pending task %d %s", i, at);
            if (pool->is_idle()) mc::fail("T05", "is_idle() is wrong %s", at);
        };
        look("after the additions");
        auto cancel = [&](std::size_t k) {
            const int id = queue[k];
            if (!h[(std::size_t)id].cancel()) mc::fail("T04", "pending task %d at place %zu cannot be canceled", id, k);
            if (h[(std::size_t)id].cancel()) mc::fail("T04", "task can be canceled twice");
            queue.erase(queue.begin() + (long)k);
            if (h[(std::size_t)id].get_state() != TaskState::canceled) mc::fail("T04", "wrong state after cancel()");
        };
        if (variant == 1) { // cancel some tasks
            for (std::size_t k : { queue.size() - 1, queue.size() / 2, (std::size_t)0 }) { cancel(std::min(k, queue.size() - 1)); look("after cancel()"); }
            for (std::size_t k = 0; k < queue.size(); k += 2) cancel(k);
            look("after cancel() of every third task");
            // the freed places can be used again
            if (!pool->is_full()) { h.push_back(pool->add_task(body(n), name(n))); queue.push_back(n); look("after another addition"); }
        }
        if (variant == 2) {
            const auto c = pool->cancel_pending_tasks();
            if (c != queue.size()) mc::fail("T04", "cancel_pending_tasks() returned %zu instead of %zu", c, queue.size());
            for (int i : queue) { if (h[(std::size_t)i].get_state() != TaskState::canceled || h[(std::size_t)i].cancel() || h[(std::size_t)i].is_complete()) mc::fail("T04", "task %d is not canceled", i); bool threw = false; try { h[(std::size_t)i].get_result(); } catch (const std::exception&) { threw = true; } if (!threw) mc::fail("T04", "canceled task has a result"); }
            queue.clear(); if (pool->count_pending() || pool->is_full()) mc::fail("T05", "wrong number of pending tasks");
            for (int i = 0; i < 3; ++i) { h.push_back(pool->add_task(body(n + i), name(n + i))); queue.push_back(n + i); }
            look("after new additions");
        }
        if (variant == 4) { // destroy the pool with a full queue
            std::weak_ptr<ThreadPool> w = pool; ThreadPool* raw = pool.get(); (void)raw;
            gate.open(); // the running tasks finish; the others may run or be dropped
            pool.reset();
            if (!w.expired() || mc::live_threads() != 1) mc::fail("T06", "threads are alive after the destruction of the pool");
            for (int i = 0; i < norder; ++i) if (order[i] != queue[(std::size_t)i] && W == 1) mc::fail("T02", "task %d started before task %d", order[i], queue[(std::size_t)i]);
            for (int i : queue) {
                bool threw = false; try { if (h[(std::size_t)i].get_result() != 5000 + i) mc::fail("T01", "wrong result"); } catch (const std::exception&) { threw = true; }
                if (starts[i] > 1) mc::fail("T01", "task %d ran %d times", i, starts[i]);
                if (threw != !starts[i]) mc::fail("T06", "task %d ran %d times, but its result is %s", i, starts[i], threw ? "missing" : "available");
            }
            for (auto& b : blockers) { bool threw = false; try { b.get_result(); } catch (const std::exception&) { threw = true; } if (threw) mc::fail("T06", "a running task was dropped"); }
            h.clear();
            if (token_live[0]) mc::fail("T06", "%d function objects live on after the destruction of the pool", token_live[0]);
            return;
        }
        gate.open();
        if (variant == 3) mc::wait_quiescent(t0 + (n + 5) * MS); else mc::wait_quiescent();
        if (norder != (int)queue.size()) mc::fail("T03", "%d of %zu tasks have been executed", norder, queue.size());
        if (variant == 3) {
            for (int i : queue) {
                if (when[i] < t0 + start_ms(i)) mc::fail("T02", "task %d started too early", i);
                if (when[i] > t0 + start_ms(i)) mc::fail("T03", "task %d started %lld ns too late although a worker was idle", i, when[i] - t0 - start_ms(i));
            }
        } else if (W == 1) for (std::size_t i = 0; i < queue.size(); ++i) if (order[i] != queue[i]) mc::fail("T02", "task %d was started instead of task %d", order[i], queue[i]);
        for (int i : queue) {
            if (starts[i] != 1) mc::fail("T01", "task %d ran %d times", i, starts[i]);
            if (h[(std::size_t)i].get_state() != TaskState::complete || !h[(std::size_t)i].is_complete()) mc::fail("T05", "wrong state of completed task %d", i);
            if (h[(std::size_t)i].get_result() != 5000 + i) mc::fail("T01", "wrong result of task %d", i);
        }
        for (int i = 0; i < W && variant != 3; ++i) if (blockers[(std::size_t)i].get_result() != i) mc::fail("T01", "wrong result");
        if (!pool->is_idle() || pool->count_pending() || !pool->get_pending_task_names().empty() || !pool->get_running_task_names().empty()) mc::fail("T05", "pool is not idle");
    }
    h.clear();
    if (token_live[0]) mc::fail("T06", "%d function objects live on", token_live[0]);
    if (mc::live_threads() != 1) mc::fail("T06", "threads are alive after the destruction of the pool");
}

} // namespace

namespace mc {

const Scenario scenarios[] = { { "program", program }, { "destroy", destroy }, { "destroy_shared", destroy_shared },
    { "handle_vs_destroy", handle_vs_destroy }, { "drop_in_worker", drop_in_worker }, { "construct", construct }, { "bomb", bomb }, { "long_run", long_run },
    { "construct_fault", construct_fault }, { "add_fault", add_fault }, { "mass", mass } };
const int num_scenarios = sizeof scenarios / sizeof scenarios[0];

namespace {
void pack(const char* s, int* p)
{
    p[0] = p[1] = 0;
    for (int i = 0; s[i]; ++i) { const char* q = strchr(LETTERS, s[i]); p[i / 5] |= (int)(q - LETTERS) << (6 * (i % 5)); }
}
struct Jobs
{
    Job* out; int max, n = 0;
    void add(const char* sc, int threads, int cap, const char* a, const char* b, int bound, int spur = 0, int flags = 0, long maxe = 0)
    {
        if (n >= max) return;
        Job& j = out[n++]; memset((void*)&j, 0, sizeof j);
        j.name = sc; j.param[0] = threads; j.param[1] = cap; pack(a, j.param + 2); pack(b, j.param + 4); j.param[6] = flags;
        j.bound = bound; j.spurious = spur; j.max_execs = maxe;
    }
    void raw(const char* sc, int a, int b, int c, int d, int bound, int spur = 0, int more_steps = 0)
    {
        if (n >= max) return;
        Job& j = out[n++]; memset((void*)&j, 0, sizeof j);
        j.name = sc; j.param[0] = a; j.param[1] = b; j.param[2] = c; j.param[3] = d; j.param[7] = more_steps; j.bound = bound; j.spurious = spur;
    }
    /// all words over alphabet with exactly len letters
    template <typename F> static void words(const char* alpha, int len, F f)
    {
        int n = (int)strlen(alpha); char w[12]; int idx[12] = { 0 };
        for (;;) {
            for (int i = 0; i < len; ++i) w[i] = alpha[idx[i]];
            w[len] = 0; f((const char*)w);
            int k = len - 1; while (k >= 0 && ++idx[k] == n) idx[k--] = 0;
            if (k < 0) return;
        }
    }
};
bool has(const char* w, const char* set) { return strpbrk(w, set) != nullptr; }
} // namespace

int make_jobs(const char* prop, bool thorough, Job* out, int max)
{
    Jobs J{ out, max };
    const int x = thorough ? 1 : 0;
    std::string P = prop;
    auto mass_jobs = [&](int v) {
        for (int n : { 1, 9, 17, 33, 65, 130 }) J.raw("mass", 1, 150, n + (v == 1 ? 6 : 0), v, v != 3 && n < 40 ? 1 : 0, 0, 40);
        for (int n : { 15, 16, 17, 18 }) J.raw("mass", 1, 16, n, v, v == 3 ? 0 : 1 + x, 0, 40); // full queue
        J.raw("mass", 1, 0, v == 3 ? 150 : 203, v, 0, 0, 80); J.raw("mass", 1, 300, 290, v, 0, 0, 80);
        J.raw("mass", 2, 50, 20, v, v == 3 ? 0 : x, 0, 40); J.raw("mass", 3, 50, 4, v, 0, 0, 40); if (x) J.raw("mass", 4, 50, 3, v, 0, 0, 40);
    };
    if (P == "T01") {
        for (int v : { 0, 3 }) mass_jobs(v);
        // all result kinds, single and two workers, with cancel and nested additions
        Jobs::words("amsvxpnN", 1, [&](const char* w) { char a[4] = { w[0], 'g', 0 }; J.add("program", 1, 3, a, "", 4 + 2 * x, 1); J.add("program", 2, 3, a, "", 2 + x, 1); });
        Jobs::words("rtAQ", 1, [&](const char* w) { char a[4] = { w[0], 'g', 0 }; J.add("program", 1, 3, a, "", 3 + 2 * x, 1); J.add("program", 2, 3, w, "c", 2 + x, 0); });
        Jobs::words("axndk", 2, [&](const char* w) { char a[6] = { w[0], w[1], 'G', 0 }; J.add("program", 1, 3, a, "", 3 + x, 0); J.add("program", 2, 3, a, "", 2, x); });
        Jobs::words("axd", 1, [&](const char* w) { Jobs::words("acCKgx", 1, [&](const char* v) { char b[3] = { w[0], 'a', 0 }; J.add("program", 1, 3, b, v, 2 + x, 0); J.add("program", 2, 3, w, v, 2 + x, 0); }); });
        J.add("program", 2, 4, "axa", "va", 1 + x, 0); J.add("program", 1, 4, "aaaa", "", 3, 0);
        if (x) Jobs::words("axndkcC", 3, [&](const char* w) { J.add("program", 2, 3, w, "", 2, 0); J.add("program", 1, 3, w, "a", 2, 0); });
    }
    else if (P == "T02") {
        for (int v : { 0, 3 }) mass_jobs(v);
        Jobs::words("ade", 2, [&](const char* w) { J.add("program", 1, 5, w, "", 4 + x, 1); J.add("program", 2, 5, w, "", 2 + x, 1); });
        Jobs::words("adeD", 3, [&](const char* w) { J.add("program", 1, 5, w, "", 2 + x, 0); J.add("program", 2, 5, w, "", 1 + x, 0); });
        Jobs::words("ade", 3, [&](const char* w) { char a[6] = { 'b', w[0], w[1], w[2], 'o', 0 }; J.add("program", 1, 5, a, "", 2 + x, 0);
            char b[7] = { 'b', w[0], w[1], w[2], 'w', 'o', 0 }; J.add("program", 1, 5, b, "", 1 + x, 0); J.add("program", 2, 5, b, "", 1 + x, 0); });
        Jobs::words("ade", 2, [&](const char* w) { char b[7] = { 'b', w[0], w[1], 'c', 'a', 'o', 0 }; J.add("program", 1, 5, b, "", 2, 0); char c[7] = { 'b', w[0], w[1], 'C', 'a', 'o', 0 }; J.add("program", 1, 5, c, "", 2, 0); });
        Jobs::words("ad", 2, [&](const char* w) { Jobs::words("ade", 1, [&](const char* v) { J.add("program", 1, 5, w, v, 2 + x, 0); J.add("program", 2, 5, w, v, 1 + x, 0); }); });
        Jobs::words("aijh", 2, [&](const char* w) { if (!has(w, "ijh")) return; J.add("program", 1, 5, w, "", 2 + x, 0); J.add("program", 2, 5, w, "", 1 + x, 0); });
        Jobs::words("dh", 1, [&](const char* w) { char a[5] = { w[0], 'l', 'a', 'K', 0 }; J.add("program", 1, 5, a, "", 2, 0); });
        Jobs::words("LJ", 1, [&](const char* w) { char a[5] = { w[0], 'a', 'K', 0 }; J.add("program", 1, 5, a, "", 2 + x, 0); J.add("program", 2, 5, a, "", 1 + x, 0); char b[5] = { 'd', w[0], 'w', 'K', 0 }; J.add("program", 1, 5, b, "", 2 + x, 0); });
        J.add("program", 1, 8, "aaaaaaaa", "", 1, 0); J.add("program", 1, 8, "baaaaaao", "", 1, 0); J.add("program", 1, 8, "bhejdaio", "", 1, 0); J.add("program", 2, 16, "daedaeda", "", x, 0);
        J.add("program", 1, 6, "aaaaa", "", 2, 0); J.add("program", 1, 6, "nNa", "", 2, 0); J.add("program", 2, 6, "nad", "", 1 + x, 0);
        if (x) Jobs::words("adeN", 4, [&](const char* w) { J.add("program", 1, 6, w, "", 1, 0); });
    }
    else if (P == "T03") {
        for (int v : { 0, 3 }) mass_jobs(v);
        Jobs::words("abdefn", 2, [&](const char* w) { J.add("program", 2, 5, w, "", 2 + x, 0); char a[4] = { 'W', w[0], w[1], 0 }; J.add("program", 2, 5, a, "", 2 + x, 1); });
        Jobs::words("abdef", 3, [&](const char* w) { char a[5] = { 'W', w[0], w[1], w[2], 0 }; J.add("program", 2, 5, a, "", 1 + x, x); });
        Jobs::words("abdf", 3, [&](const char* w) { if (!has(w, "bf")) return; char a[5] = { 'W', w[0], w[1], w[2], 0 }; J.add("program", 3, 5, a, "", x, 0); });
        Jobs::words("bde", 2, [&](const char* w) { Jobs::words("acCKb", 1, [&](const char* v) { J.add("program", 2, 5, w, v, 1 + x, 0); }); });
        J.add("program", 2, 5, "bd", "c", 2, 0); J.add("program", 2, 5, "be", "a", 2, 0);
        Jobs::words("yad", 2, [&](const char* w) { if (!has(w, "y")) return; for (const char* t : { "", "c", "C", "K", "g" }) { char a[5] = { w[0], w[1], t[0], 0 }; J.add("program", 1, 5, a, "", 2 + x, 0); } });
        J.add("program", 1, 5, "ybKo", "", 2, 0); J.add("program", 1, 5, "byKo", "", 2, 0); J.add("program", 1, 5, "bycCo", "", 2, 0); J.add("program", 1, 5, "byCo", "", 2, 0);
        J.add("program", 2, 5, "kbd", "", 2, 0); J.add("program", 1, 5, "qka", "", 2, 0); J.add("program", 2, 5, "Nb", "", 2 + x, 1);
        J.add("program", 2, 5, "lbaK", "", 2, 0); J.add("program", 2, 5, "hba", "", 2, 0); J.add("program", 1, 5, "hja", "", 2 + x, 0); J.add("program", 3, 8, "bbaaada", "", 0, 0);
        J.add("program", 2, 5, "WdbCa", "", 1 + x, 0); J.add("program", 2, 5, "Wdwb", "", 2, 0); J.add("program", 2, 5, "Wfdb", "", 2, 0);
        if (x) Jobs::words("abdefKC", 4, [&](const char* w) { if (!has(w, "bf")) return; J.add("program", 2, 5, w, "", 1, 0); });
    }
    else if (P == "T04") {
        for (int v : { 1, 2 }) mass_jobs(v);
        for (int c = 1; c <= 4; ++c) J.raw("long_run", 1, c, 270, 1, 0, 0, 20);
        J.raw("long_run", 2, 1, 6, 1, 0);
        Jobs::words("axd", 1, [&](const char* w) { Jobs::words("cCK", 1, [&](const char* v) {
            char a[4] = { w[0], v[0], 0 }; J.add("program", 1, 3, a, "", 4 + x, 1); J.add("program", 2, 3, a, "", 3 + x, 0);
            char b[5] = { w[0], 'a', v[0], 0 }; J.add("program", 1, 3, b, "", 3 + x, 0); J.add("program", 2, 3, b, "", 2, 0);
            char c[6] = { 'b', w[0], 'a', v[0], 'o', 0 }; J.add("program", 1, 3, c, "", 2 + x, 0);
            char d[4] = { w[0], 'a', 0 }; J.add("program", 1, 3, d, v, 2 + x, 0); J.add("program", 2, 3, d, v, 2, 0);
            char e[6] = { w[0], v[0], '7', 'g', 0 }; J.add("program", 1, 3, e, "", 3, 0);
            char f[6] = { w[0], 'G', v[0], '7', 0 }; J.add("program", 1, 3, f, "", 3, 0);
            char h[6] = { w[0], v[0], 'a', 0 }; J.add("program", 1, 1, h, "", 3, 0);
        }); });
        Jobs::words("cCK", 2, [&](const char* v) { char a[6] = { 'a', 'a', v[0], 0 }; char o[2] = { v[1], 0 }; J.add("program", 1, 3, a, o, 2 + x, 0); J.add("program", 2, 3, a, o, 1 + x, 0);
            char b[6] = { 'a', v[0], v[1], '7', 0 }; J.add("program", 1, 3, b, "", 3, 0); });
        Jobs::words("cCK", 1, [&](const char* v) { char a[5] = { 'b', 'W', v[0], 0 }, b[5] = { 'b', 'W', 'a', v[0], 0 }, c[5] = { 'b', 'd', v[0], 0 };
            J.add("program", 1, 3, a, "", 2, 0); J.add("program", 1, 3, b, "", 2, 0); J.add("program", 1, 3, c, "", 2, 0); J.add("program", 2, 3, c, "", 2, 0); });
        J.add("program", 1, 2, "aka", "", 3, 0); J.add("program", 2, 3, "kad", "", 2, 0); J.add("program", 1, 3, "bddKo", "", 2, 0); J.add("program", 1, 5, "baaacCo", "", 2, 0);
        J.add("program", 1, 5, "badaKao", "", 2, 0); J.add("program", 1, 2, "baaCaao", "", 2, 0); J.add("program", 1, 2, "baaKaao", "", 2, 0); J.add("program", 1, 2, "ddKdd", "", 2, 0);
        J.add("program", 1, 3, "dwc7", "", 2, 0); J.add("program", 1, 3, "aw9c7g7", "", 2, 0);
        if (x) Jobs::words("adcCK7", 3, [&](const char* w) { Jobs::words("cK", 1, [&](const char* v) { J.add("program", 1, 3, w, v, 2, 0); J.add("program", 2, 3, w, v, 1, 0); }); });
    }
    else if (P == "T05") {
        for (int v : { 0, 1, 2, 3 }) mass_jobs(v);
        for (int c = 1; c <= 4; ++c) J.raw("long_run", 1, c, 270, 0, 0, 0, 20);
        J.raw("long_run", 2, 1, 6, 0, 0);
        J.raw("construct", 0, 0, 0, 0, 1);
        Jobs::words("1234579", 1, [&](const char* q) {
            Jobs::words("axdn", 1, [&](const char* w) { char a[5] = { w[0], q[0], q[0], 0 }; J.add("program", 1, 3, a, "", 3 + x, 0); J.add("program", 2, 3, a, "", 2 + x, 0);
                char b[5] = { w[0], 'a', 0 }; J.add("program", 1, 3, b, q, 2 + x, 0);
                char c[5] = { w[0], 'G', q[0], 0 }; J.add("program", 1, 3, c, "", 3, 0);
                char d[5] = { w[0], 'C', q[0], 0 }; J.add("program", 1, 3, d, "", 2, 0);
                char e[5] = { w[0], 'K', q[0], 0 }; J.add("program", 1, 3, e, "", 2, 0); });
            char f[7] = { 'a', 'd', q[0], 'a', q[0], 0 }; J.add("program", 2, 3, f, "", 1 + x, 0);
            // with a task that keeps running
            char g[7] = { 'b', 'W', q[0], 'a', q[0], 0 }; J.add("program", 1, 3, g, "", 1 + x, 0); char h[5] = { 'b', 'd', q[0], 0 }; J.add("program", 1, 3, h, "", 2, 0); J.add("program", 2, 3, h, "", 2, 0);
        });
        Jobs::words("14", 1, [&](const char* q) { char f[7] = { 'b', 'a', 'd', 'a', 'c', q[0], 0 }; J.add("program", 1, 5, f, "", 2, 0); J.add("program", 2, 5, f, "", 1, 0);
            char h[7] = { 'b', 'a', 'd', 'a', 'C', q[0], 0 }; J.add("program", 1, 5, h, "", 2, 0); });
        for (int cap = 1; cap <= 2; ++cap) Jobs::words("ad", 3, [&](const char* w) { J.add("program", 1, cap, w, "", 2 + x, 0); char a[8] = { 'b', w[0], w[1], w[2], '2', '1', 0 }; J.add("program", 1, cap, a, "", 1 + x, 0);
            char s[3] = { w[1], w[2], 0 }; char m[3] = { w[0], 'a', 0 }; J.add("program", 1, cap, m, s, 1 + x, 0); });
        Jobs::words("OMP", 2, [&](const char* w) { Jobs::words("58", 1, [&](const char* q) {
            char a[11] = { 'B', 'B', 'B', 'W', w[0], 'W', q[0], w[1], 'W', q[0], 0 }; J.add("program", 3, 5, a, "", x, 0); J.add("program", 2, 5, a, "", x, 0); });
            char b[11] = { 'B', 'B', 'B', 'B', 'W', w[0], w[1], 'W', '5', 0 }; J.add("program", 4, 5, b, "", 0, 0); J.add("program", 3, 5, b, "", x, 0); });
        J.add("program", 2, 1, "aaa", "", 2, 0); J.add("program", 1, 2, "na", "", 3, 0); J.add("program", 1, 1, "nN", "", 2, 0); J.add("program", 1, 3, "q", "", 4, 0); J.add("program", 2, 3, "qq", "", 2, 0);
        J.add("program", 2, 3, "qa", "5", 2, 0); J.add("program", 2, 3, "aa5", "", 2 + x, 0); J.add("program", 2, 3, "aa5", "3", 1 + x, 0); J.add("program", 1, 3, "u1u", "", 2, 0);
        J.add("program", 2, 3, "aa7799", "", 2, 0); J.add("program", 1, 3, "aa7897", "", 2, 0);
        if (x) Jobs::words("adC13457", 3, [&](const char* w) { if (!has(w, "13457")) return; J.add("program", 1, 2, w, "a", 2, 0); J.add("program", 2, 2, w, "", 2, 0); });
    }
    else if (P == "T06") {
        for (int v : { 2, 4 }) mass_jobs(v);
        for (int th = 1; th <= 2; ++th) {
            J.add("destroy", th, 5, "", "", 4 + x, 1);
            Jobs::words("abdxnNmky", 1, [&](const char* w) { J.add("destroy", th, 5, w, "", 4 - th + x, th == 1); });
            Jobs::words("abdnxW", 2, [&](const char* w) { J.add("destroy", th, 5, w, "", 3 - th + x, 0); });
        }
        Jobs::words("ab", 1, [&](const char* w) { Jobs::words("abdx", 2, [&](const char* v) { char a[5] = { w[0], v[0], v[1], 0 }; J.add("destroy", 1, 5, a, "", 2 + x, 0); J.add("destroy", 2, 5, a, "", 1, 0); }); });
        J.add("destroy", 1, 5, "Wdw", "", 3, 0); J.add("destroy", 3, 5, "a", "", 1, 0); J.add("destroy", 2, 5, "aag", "", 2, 0); J.add("destroy", 1, 5, "adK", "", 2, 0); J.add("destroy", 1, 5, "adc", "", 2, 0); J.add("destroy", 1, 5, "l", "", 3, 1); J.add("destroy", 1, 5, "L", "", 3, 1);
        for (int th = 1; th <= 3; ++th) for (int k = 0; k < 2; ++k) J.raw("construct_fault", th, k, 0, 0, 3 - (th == 3) + x, 0);
        J.add("destroy", 2, 5, "hl", "", 2, 1); J.add("destroy", 1, 8, "aaaaaaaa", "", 1, 0); J.add("destroy", 2, 8, "baabaa", "", 1, 0);
        Jobs::words("adC", 1, [&](const char* w) { Jobs::words("aKd1", 1, [&](const char* v) { char a[3] = { 'a', w[0], 0 }; J.add("destroy_shared", 1, 5, a, v, 2 + x, 0); J.add("destroy_shared", 2, 5, w, v, 1 + x, 0); }); });
        for (int d = 0; d < 2; ++d) for (int op = 0; op < 4; ++op) { J.raw("handle_vs_destroy", 1, 3, d, op, 3 + x, 0); J.raw("handle_vs_destroy", 2, 3, d, op, 2, 0); }
        J.raw("drop_in_worker", 1, 0, 0, 0, 2, 0);
        if (x) Jobs::words("abdxnN", 3, [&](const char* w) { J.add("destroy", 2, 5, w, "", 1, 0); });
    }
    else if (P == "T07") {
        for (int v : { 0, 3, 4 }) mass_jobs(v);
        for (int d = 0; d < 3; ++d) J.raw("add_fault", 1, d, 0, 0, 1 + x, 0);
        for (int th = 1; th <= 2; ++th) for (int d = 0; d < 2; ++d) J.raw("bomb", th, d, 0, 0, 2 + x, 0);
        // every pair of public functions concurrently
        Jobs::words("adxKc1234579", 1, [&](const char* w) { Jobs::words("adxKC1234580", 1, [&](const char* v) {
            char a[5] = { 'a', 'a', w[0], 0 }; J.add("program", 1, 4, a, v, 2 + x, 0, 2 * FL_PREFIX); }); });
        Jobs::words("adxK1459", 1, [&](const char* w) { Jobs::words("aKC145", 1, [&](const char* v) { J.add("program", 2, 2, w, v, 1 + x, 0); }); });
        J.add("program", 2, 5, "xx", "x", 1 + x, 0); J.add("program", 1, 5, "xax", "", 3, 1);
        // Workers waiting for the start of a delayed task while the queue is reallocated, emptied or reordered
        Jobs::words("acCK", 2, [&](const char* w) { char a[6] = { 'W', 'd', 'W', w[0], w[1], 0 }; J.add("program", 1, 6, a, "", 1 + x, 0); J.add("program", 2, 6, a, "", x, 0);
            char b[6] = { 'd', 'd', 'W', w[0], w[1], 0 }; J.add("program", 1, 6, b, "", 1 + x, 0); });
        J.add("program", 1, 8, "WdWaaaad", "", 1 + x, 0); J.add("program", 2, 8, "WdWdaaaa", "", x, 0);
        Jobs::words("nNkq", 1, [&](const char* w) { Jobs::words("a1457K", 1, [&](const char* v) { J.add("program", 1, 3, w, v, 2, 0); J.add("program", 2, 3, w, v, 1 + x, 0); }); });
    }
    return J.n;
}

bool category_matters(const char* property, const char* category)
{
    static const char* generic[] = { "deadlock", "livelock", "memory", "race", "crash", "leak", "hang" };
    for (auto g : generic) if (!strcmp(g, category)) return true;
    return !strcmp(property, category);
}

} // namespace mc
