// History recording and linearizability check against the sequential specification of a
// thread pool. All data live in static memory (reset by the runtime before each execution).
#pragma once
#include "mc.h"
#include <cstring>
#include <cstdio>
#define NOSAN __attribute__((no_sanitize("thread")))

namespace hist {

constexpr int MAXT = 32, MAXE = 63, INF = 1 << 28;
constexpr int ntask = MAXT; // ids: main 0-7, second client 8-15, nested 16 + parent

enum Type { ADD, CANCEL, CANCEL_ALL, PICK, READY, FIN, GET, CLOCK,
            Q_COUNT, Q_FULL, Q_IDLE, Q_PNAMES, Q_RNAMES, Q_STATE, Q_COMPLETE };
static const char* const type_name[] = { "add", "cancel", "cancel_all", "start", "ready", "finish", "get_result", "clock",
    "count_pending", "is_full", "is_idle", "pending_names", "running_names", "get_state", "is_complete" };
enum TState { PENDING = 0, RUNNING = 1, COMPLETE = 2, CANCELED = 3 };

struct Event { int type, task, inv, res; int result; int list[MAXT]; int nlist; mc::ns_t t; mc::ns_t t_lo; };
struct TaskRec
{
    bool add_called, accepted, rejected; int add_inv, add_res;
    mc::ns_t start_lo, start_hi;      // bounds of requested start time
    int starts, ends; int start_step, end_step, worker; mc::ns_t start_clock;
    int pick_lo;                      // earliest step at which the worker may have picked it
    int order_on_worker;
    bool canceled_true;               // a cancel through the handle returned true
    int cancel_true_res;
};

static TaskRec task[MAXT];
static Event ev[MAXE]; static int nev;
static int worker_last_end[16];      // step of last END on this thread (0: none)
static int capacity, threads;
static int cancel_all_sum;

NOSAN inline Event& add_event(int type, int tk, int inv, int res, int result = 0)
{
    if (nev >= MAXE) mc::fail("internal", "history too long");
    Event& e = ev[nev++];
    e.type = type; e.task = tk; e.inv = inv; e.res = res; e.result = result; e.nlist = 0; e.t = 0; e.t_lo = 0;
    return e;
}

// --- called by task bodies
NOSAN inline void on_start(int id)
{
    const int w = mc::self();
    int s = mc::log_end();
    TaskRec& t = task[id];
    mc::note("START task %d", id);
    if (++t.starts > 1) mc::fail("T01", "task %d was started %d times", id, t.starts);
    t.start_step = s; t.worker = w; t.start_clock = mc::now(); t.pick_lo = worker_last_end[w];
    if (mc::now() < t.start_lo)
        mc::fail("T02", "task %d started at %lld ns, before its start time %lld ns", id, mc::now(), t.start_lo);
    if (t.canceled_true && t.cancel_true_res < t.pick_lo)
        mc::fail("T04", "task %d started although it had been canceled", id);
}
NOSAN inline void on_end(int id)
{
    int s = mc::log_begin();
    mc::note("END task %d", id);
    TaskRec& t = task[id];
    ++t.ends; t.end_step = s; worker_last_end[mc::self()] = s;
}

// --- linearizability
struct St { signed char q[MAXT]; int nq; unsigned running, ready, fin, canceled; mc::ns_t clock; };

struct Lin
{
    bool check_queries, check_order;
    unsigned long long seen[4096]; int nseen;
    long nodes;
};
static Lin L;

NOSAN inline bool apply(const Event& e, St& s)
{
    const int i = e.task;
    switch (e.type) {
    case CLOCK: s.clock = e.t; return true;
    case ADD:
        if (s.nq >= capacity) return e.result == 0;
        if (e.result == 0) return false;
        s.q[s.nq++] = (signed char)i; return true;
    case CANCEL: {
        int k = -1; for (int j = 0; j < s.nq; ++j) if (s.q[j] == i) k = j;
        if ((k >= 0) != (e.result != 0)) return false;
        if (k >= 0) { for (int j = k; j + 1 < s.nq; ++j) s.q[j] = s.q[j + 1]; --s.nq; s.canceled |= 1u << i; }
        return true; }
    case CANCEL_ALL:
        if (e.result != s.nq) return false;
        for (int j = 0; j < s.nq; ++j) s.canceled |= 1u << s.q[j];
        s.nq = 0; return true;
    case PICK: {
        int k = -1; for (int j = 0; j < s.nq; ++j) if (s.q[j] == i) k = j;
        if (k < 0) return false;
        if (__builtin_popcount(s.running) >= threads) return false;
        if (L.check_order) {
            const mc::ns_t lo = task[i].start_lo > e.t_lo ? task[i].start_lo : e.t_lo;
            if (task[i].start_lo > s.clock) return false;
            for (int j = 0; j < k; ++j) if (task[(int)s.q[j]].start_hi <= lo) return false;
        }
        for (int j = k; j + 1 < s.nq; ++j) s.q[j] = s.q[j + 1];
        --s.nq; s.running |= 1u << i; return true; }
    case READY: if (!(s.running >> i & 1)) return false; s.ready |= 1u << i; return true;
    case FIN: if (!(s.running >> i & 1) || !(s.ready >> i & 1)) return false; s.running &= ~(1u << i); s.fin |= 1u << i; return true;
    case GET: return s.ready >> i & 1;
    default: break;
    }
    if (!L.check_queries) return true;
    switch (e.type) {
    case Q_COUNT: return e.result == s.nq;
    case Q_FULL: return (e.result != 0) == (s.nq >= capacity);
    case Q_IDLE: return (e.result != 0) == (s.nq == 0 && s.running == 0);
    case Q_PNAMES:
        if (e.nlist != s.nq) return false;
        for (int j = 0; j < s.nq; ++j) if (e.list[j] != s.q[j]) return false;
        return true;
    case Q_RNAMES: {
        unsigned m = 0; for (int j = 0; j < e.nlist; ++j) { if (m >> e.list[j] & 1) return false; m |= 1u << e.list[j]; }
        return m == s.running; }
    case Q_STATE: {
        int st = -1;
        for (int j = 0; j < s.nq; ++j) if (s.q[j] == i) st = PENDING;
        if (s.running >> i & 1) st = RUNNING;
        if (s.fin >> i & 1) st = COMPLETE;
        if (s.canceled >> i & 1) st = CANCELED;
        return st == e.result; }
    case Q_COMPLETE: return (e.result != 0) == (bool)(s.ready >> i & 1);
    }
    return true;
}

NOSAN inline bool dfs(unsigned long long done, const St& s)
{
    if (++L.nodes > 2000000) mc::fail("internal", "linearization search too large");
    const unsigned long long all = nev >= 64 ? ~0ull : (1ull << nev) - 1;
    if (done == all) return true;
    int minres = INF * 2;
    for (int i = 0; i < nev; ++i) if (!(done >> i & 1) && ev[i].res < minres) minres = ev[i].res;
    // optional internal events (res == INF) need not be linearized if nothing else remains
    bool only_open = true;
    for (int i = 0; i < nev; ++i) if (!(done >> i & 1) && ev[i].res < INF) only_open = false;
    if (only_open) return true;
    // memo
    unsigned long long h = done * 0x9E3779B97F4A7C15ull;
    for (int j = 0; j < s.nq; ++j) h = (h ^ (unsigned long long)(s.q[j] + 1)) * 0x100000001B3ull;
    h = (h ^ s.running) * 0x100000001B3ull; h ^= h >> 29; h = (h ^ s.canceled) * 0x100000001B3ull; h ^= h >> 31; if (!h) h = 1;
    unsigned k = (unsigned)(h >> 20) & 4095;
    for (int p = 0; p < 4096 && L.seen[k]; ++p, k = (k + 1) & 4095) if (L.seen[k] == h) return false;
    for (int i = 0; i < nev; ++i) {
        if (done >> i & 1 || ev[i].inv > minres) continue;
        St n = s;
        if (!apply(ev[i], n)) continue;
        if (dfs(done | 1ull << i, n)) return true;
    }
    if (L.nseen < 3500) { ++L.nseen; L.seen[k] = h; }
    return false;
}
NOSAN inline bool linearizable(bool queries, bool order)
{
    memset(&L, 0, sizeof L); L.check_queries = queries; L.check_order = order;
    St s; memset(&s, 0, sizeof s);
    return dfs(0, s);
}

/// Add the internal events and check the complete history.
NOSAN inline void check_history()
{
    for (int i = 0; i < ntask; ++i) {
        TaskRec& t = task[i];
        if (t.starts) {
            Event& e = add_event(PICK, i, t.pick_lo, t.start_step);
            e.t_lo = mc::clock_at(t.pick_lo);
            if (t.ends) {
                int nxt = INF;
                for (int j = 0; j < ntask; ++j)
                    if (j != i && task[j].starts && task[j].worker == t.worker && task[j].start_step > t.end_step && task[j].start_step < nxt) nxt = task[j].start_step;
                add_event(READY, i, t.end_step, nxt);
                add_event(FIN, i, t.end_step, nxt);
            }
        }
    }
    int st; mc::ns_t tt;
    for (int i = 0; mc::clock_events(i, &st, &tt); ++i) { Event& e = add_event(CLOCK, 0, st, st); e.t = tt; }
    if (linearizable(true, true)) return;
    const char* cat = "T04";
    if (linearizable(false, true)) cat = "T05";
    else if (linearizable(false, false)) cat = "T02";
    // sort events by invocation for the message
    char buf[420]; int p = 0;
    for (int k = 0; k < nev && p < 380; ++k) {
        int best = -1;
        for (int i = 0; i < nev; ++i) if (ev[i].nlist != 99 && (best < 0 || ev[i].inv < ev[best].inv)) best = i;
        Event& e = ev[best];
        p += snprintf(buf + p, sizeof buf - p, " %s(%d)=%d@[%d,%d]", type_name[e.type], e.task, e.result, e.inv, e.res >= INF ? -1 : e.res);
        e.nlist = 99;
    }
    mc::fail(cat, "no sequential order of the task history explains the observations:%s", buf);
}

} // namespace hist
