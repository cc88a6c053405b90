// Trigger and sleep scenarios: small client programs on the real Trigger, checked against a
// boolean register with timed waits.
#include "mc.h"
#include "../seq/std.h"
#include <gul14/Trigger.h>
#include <gul14/time_util.h>
#include <cstring>
#include <limits>
#include <cstdio>
#include <new>
#include <string>
#include <thread>

#define NOSAN __attribute__((no_sanitize("thread")))
using namespace gul14;
using namespace std::chrono_literals;

namespace {

constexpr mc::ns_t MS = 1000000;
constexpr int MAXE = 40, INF = 1 << 28;

enum Type { SET, CLR, READ, WAIT, TIMED };
const char* const type_name[] = { "set", "reset", "read", "wait", "timed wait" };
struct Event { int type, inv, res, result; mc::ns_t deadline; };
Event ev[MAXE]; int nev; int clears;
bool initial;

struct Wait { bool active; int letter; int serial; } waiting[4];

NOSAN Event& add_event(int type, int inv, int res, int result = 0)
{
    if (nev >= MAXE) mc::fail("internal", "history too long");
    Event& e = ev[nev++]; e.type = type; e.inv = inv; e.res = res; e.result = result; e.deadline = 0; return e;
}

NOSAN bool apply(const Event& e, bool& v)
{
    switch (e.type) {
    case SET: v = true; return true;
    case CLR: v = false; return true;
    case READ: return v == (e.result != 0);
    case WAIT: return v;
    case TIMED: return v == (e.result != 0);
    }
    return false;
}
unsigned long long seen[1024]; int nseen;
NOSAN bool dfs(unsigned long long done, bool v)
{
    if (done == (1ull << nev) - 1) return true;
    unsigned long long key = done * 2 + v + 1;
    for (int i = 0; i < nseen; ++i) if (seen[i] == key) return false;
    int minres = INF;
    for (int i = 0; i < nev; ++i) if (!(done >> i & 1) && ev[i].res < minres) minres = ev[i].res;
    for (int i = 0; i < nev; ++i) {
        if (done >> i & 1 || ev[i].inv > minres) continue;
        bool n = v;
        if (!apply(ev[i], n)) continue;
        if (dfs(done | 1ull << i, n)) return true;
    }
    if (nseen < 1024) seen[nseen++] = key;
    return false;
}
/// First step at which the clock showed at least t
NOSAN int step_of_time(mc::ns_t t)
{
    int st; mc::ns_t tt;
    for (int i = 0; mc::clock_events(i, &st, &tt); ++i) if (tt >= t) return st;
    return INF;
}
NOSAN void check_history()
{
    for (int i = 0; i < nev; ++i) {
        Event& e = ev[i];
        if (e.type == TIMED && !e.result) {
            // "not triggered" may only be concluded after the deadline
            if (mc::clock_at(e.res) < e.deadline) mc::fail("T08", "timed wait returned %lld ns before its time was over without being triggered", e.deadline - mc::clock_at(e.res));
            if (e.deadline > mc::clock_at(e.inv)) { int s = step_of_time(e.deadline); if (s > e.inv && s <= e.res) e.inv = s; }
        }
    }
    nseen = 0;
    if (nev > 60) mc::fail("internal", "history too long");
    if (dfs(0, initial)) return;
    char buf[420]; int p = 0;
    for (int k = 0; k < nev && p < 380; ++k) {
        int best = -1;
        for (int i = 0; i < nev; ++i) if (ev[i].type >= 0 && (best < 0 || ev[i].inv < ev[best].inv)) best = i;
        Event& e = ev[best];
        p += snprintf(buf + p, sizeof buf - p, " %s=%d@[%d,%d]", type_name[e.type], e.result, e.inv, e.res);
        e.type = -1;
    }
    mc::fail("T08", "no sequential order explains the observations:%s", buf);
}

// Letters:
//  T trigger()  A = true  R reset()  F = false  B read  W wait()
//  u wait_for(10 ms)  v wait_until(system +10 ms)  m wait_until(steady +10 ms)  s sleep(10 ms, trg)  d sleep(0.01, trg)
//  z wait_for(0)  n wait_for(-5 ms)  p wait_until(past)  h wait_for(1 h)  q wait_for(1500 ns)  o wait_for(1.5 s as double)
//  P plain sleep(10 ms)  D plain sleep(0.01)  t tic/toc around a plain sleep   g wait at the gate
//  f sleep(0.0015004, trg)  k sleep(1500400 ns, trg)  x wait_for(0.0015004 s as double)
//  Y wait_for(20 years)  y sleep(20 years, trg)  w wait_until(in 20 years)
//  L wait_for(hours::max())  N wait_for(nanoseconds::max())  I sleep(infinity, trg)  E sleep(1e10, trg)  U, S wait_until(end of system / steady clock)
const char LETTERS[] = "?TARFBWuvmsdznphqoPDtgLNIEUSfkxYyw";
constexpr mc::ns_t YEARS20 = 630720000LL * 1000 * MS;
constexpr mc::ns_t ENDLESS = 1LL << 62;
mc::Gate* gate;

void timed(int me, char c, Trigger& trg)
{
    const int inv = mc::log_begin();
    const mc::ns_t t0 = mc::now();
    mc::ns_t d = 10 * MS; bool r = false;
    waiting[me].active = true; ++waiting[me].serial; waiting[me].letter = c;
    switch (c) {
    case 'u': r = trg.wait_for(10ms); break;
    case 'v': r = trg.wait_until(std::chrono::system_clock::now() + 10ms); break;
    case 'm': r = trg.wait_until(std::chrono::steady_clock::now() + 10ms); break;
    case 's': r = !gul14::sleep(10ms, trg); break;
    case 'd': r = !gul14::sleep(0.01, trg); break;
    case 'z': d = 0; r = trg.wait_for(0s); break;
    case 'n': d = 0; r = trg.wait_for(-5ms); break;
    case 'p': d = 0; r = trg.wait_until(std::chrono::system_clock::now() - 1h); break;
    case 'h': d = 3600000LL * MS; r = trg.wait_for(1h); break;
    case 'q': d = 1500; r = trg.wait_for(1500ns); break;
    case 'f': d = 1500390; r = !gul14::sleep(0.0015004, trg); break;
    case 'k': d = 1500400; r = !gul14::sleep(1500400ns, trg); break;
    case 'x': d = 1500390; r = trg.wait_for(std::chrono::duration<double>(0.0015004)); break;
    case 'Y': d = YEARS20; r = trg.wait_for(std::chrono::hours(24 * 365 * 20)); break;
    case 'y': d = YEARS20; r = !gul14::sleep(630720000.0, trg); break;
    case 'w': d = YEARS20; r = trg.wait_until(std::chrono::system_clock::now() + std::chrono::hours(24 * 365 * 20)); break;
    case 'L': d = ENDLESS; r = trg.wait_for(std::chrono::hours::max()); break;
    case 'N': d = ENDLESS; r = trg.wait_for(std::chrono::nanoseconds::max()); break;
    case 'I': d = ENDLESS; r = !gul14::sleep(std::numeric_limits<double>::infinity(), trg); break;
    case 'E': d = ENDLESS; r = !gul14::sleep(1e10, trg); break;
    case 'U': d = ENDLESS; r = trg.wait_until(std::chrono::system_clock::time_point::max()); break;
    case 'S': d = ENDLESS; r = trg.wait_until(std::chrono::steady_clock::time_point::max()); break;
    case 'o': d = 1500 * MS; r = trg.wait_for(std::chrono::duration<double>(1.5)); break;
    }
    waiting[me].active = false;
    if (d == ENDLESS && !r) mc::fail("T08", "timed wait '%c' returned without being triggered before its time was over", c);
    const int res = mc::log_end();
    mc::note("timed wait '%c' = %d", c, r);
    Event& e = add_event(TIMED, inv, res, r);
    e.deadline = t0 + d;
}

void exec_op(int me, char c, Trigger& trg)
{
    switch (c) {
    case 'T': case 'A': {
        int inv = mc::log_begin(); mc::Prompt prompt{ "T08", "setting the trigger" };
        if (c == 'T') trg.trigger(); else if (&(trg = true) != &trg) mc::fail("T08", "assignment returned something else");
        add_event(SET, inv, mc::log_end()); break; }
    case 'R': case 'F': { int inv = mc::log_begin(); mc::Prompt prompt{ "T08", "resetting the trigger" }; ++clears; if (c == 'R') trg.reset(); else trg = false; add_event(CLR, inv, mc::log_end()); break; }
    case 'B': { int inv = mc::log_begin(); mc::Prompt prompt{ "T08", "reading the trigger" }; bool r = trg; int res = mc::log_end(); mc::note("read %d", r); add_event(READ, inv, res, r); break; }
    case 'W': {
        int inv = mc::log_begin();
        waiting[me].active = true; ++waiting[me].serial; waiting[me].letter = c;
        trg.wait();
        waiting[me].active = false;
        add_event(WAIT, inv, mc::log_end(), 1); break; }
    case 'P': case 'D': {
        mc::log_begin(); const mc::ns_t t0 = mc::now();
        bool r = c == 'P' ? gul14::sleep(10ms) : gul14::sleep(0.01);
        mc::log_end();
        if (!r) mc::fail("T08", "uninterruptible sleep returned false");
        if (mc::now() < t0 + 10 * MS) mc::fail("T08", "sleep was too short");
        break; }
    case 't': {
        const mc::ns_t a = mc::now();
        auto t0 = gul14::tic();
        const mc::ns_t b = mc::now();
        gul14::sleep(10ms);
        const mc::ns_t e = mc::now();
        double s = gul14::toc(t0);
        const mc::ns_t f = mc::now();
        auto ms = gul14::toc<std::chrono::milliseconds>(t0);
        const mc::ns_t g = mc::now();
        if (s < (e - b) * 1e-9 - 1e-12 || s > (f - a) * 1e-9 + 1e-12) mc::fail("T08", "toc() returned %.12f s", s);
        if (ms < (e - b) / MS || ms > (g - a) / MS) mc::fail("T08", "toc() returned %lld ms", (long long)ms);
        break; }
    case 'g': gate->wait(); break;
    default: timed(me, c, trg);
    }
}

void unpack(const int* p, char* out)
{
    int n = 0;
    for (int j = 0; j < 5; ++j) { int c = *p >> (6 * j) & 63; if (c) out[n++] = LETTERS[c]; }
    out[n] = 0;
}

/// Everybody waiting although the trigger is high?
void check_rest(Trigger& trg)
{
    const int n = clears;
    if (!trg) return;
    mc::wait_quiescent(0); // time may have advanced before we looked at the trigger
    if (n != clears) return;
    for (int k = 0; k < 4; ++k) if (waiting[k].active)
        mc::fail("T08", "a thread keeps waiting in operation '%c' although the trigger is high", waiting[k].letter);
}

/// param 0: initial state, 1..3: client programs
void clients(const int* p)
{
    initial = p[0];
    char prog[3][8]; for (int k = 0; k < 3; ++k) unpack(p + 1 + k, prog[k]);
    gate = new mc::Gate;
    {
        Trigger trg{ initial };
        std::thread th[3];
        for (int k = 0; k < 3; ++k) if (prog[k][0]) {
            const char* w = prog[k];
            th[k] = std::thread([k, w, &trg]() { for (const char* c = w; *c; ++c) exec_op(k, *c, trg); });
        }
        mc::wait_quiescent(0);
        check_rest(trg);
        gate->open();
        mc::wait_quiescent(0);
        check_rest(trg);
        if (mc::choose(2, "let time pass")) {
            int before[4]; mc::ns_t pass = 4000000LL * MS;
            for (int k = 0; k < 4; ++k) {
                before[k] = waiting[k].active && !strchr("WLNIEUS", waiting[k].letter) ? waiting[k].serial : -1;
                if (before[k] >= 0 && strchr("Yyw", waiting[k].letter)) pass = YEARS20 + MS;
            }
            mc::wait_quiescent(mc::now() + pass);
            for (int k = 0; k < 4; ++k) if (waiting[k].active && waiting[k].serial == before[k])
                mc::fail("T08", "timed wait '%c' does not return although its time is over", waiting[k].letter);
            check_rest(trg);
        }
        // A thread that repeatedly waits needs the trigger again after a reset
        for (int k = 0; k < 6 && mc::live_threads() > 1; ++k) {
            exec_op(3, 'T', trg);
            mc::wait_quiescent(0);
            check_rest(trg);
            if (mc::live_threads() > 1) mc::wait_quiescent(mc::now() + 20 * MS); // plain sleeps
        }
        for (auto& t : th) if (t.joinable()) t.join();
    }
    delete gate;
    check_history();
}

/// The destructor releases all waiting threads. (Storage outlives the trigger here; what
/// happens to the storage is the responsibility of the user.)
alignas(Trigger) char storage[sizeof(Trigger)];
void destruct(const int* p)
{
    char w = LETTERS[p[1]];
    Trigger* trg = new (storage) Trigger{};
    std::thread a([trg, w]() { exec_op(0, w, *trg); }), b([trg, w]() { exec_op(1, w, *trg); });
    mc::wait_quiescent(0);
    int inv = mc::log_begin();
    trg->~Trigger();
    add_event(SET, inv, mc::log_end());
    mc::wait_quiescent(0);
    if (waiting[0].active || waiting[1].active) mc::fail("T08", "destruction of the trigger does not wake waiting threads");
    a.join(); b.join();
    check_history();
}

} // namespace

namespace mc {

const Scenario scenarios[] = { { "clients", clients }, { "destruct", destruct } };
const int num_scenarios = 2;

namespace {
int pack(const char* s) { int v = 0; for (int i = 0; s[i]; ++i) v |= (int)(strchr(LETTERS, s[i]) - LETTERS) << (6 * i); return v; }
struct Jobs
{
    Job* out; int max, n = 0;
    void add(int init, const char* a, const char* b, const char* c, int bound, int spur)
    {
        if (n >= max) return;
        Job& j = out[n++]; memset((void*)&j, 0, sizeof j);
        j.name = "clients"; j.param[0] = init; j.param[1] = pack(a); j.param[2] = pack(b); j.param[3] = pack(c); j.bound = bound; j.spurious = spur;
    }
    void destr(char w, int bound) { if (n >= max) return; Job& j = out[n++]; memset((void*)&j, 0, sizeof j); j.name = "destruct"; j.param[1] = (int)(strchr(LETTERS, w) - LETTERS); j.bound = bound; }
};
} // namespace

int make_jobs(const char* prop, bool thorough, Job* out, int max)
{
    Jobs J{ out, max };
    if (strcmp(prop, "T08")) return 0;
    const int x = thorough;
    const char* set = "TA"; const char* clr = "RF"; const char* wt = "Wuvmsdhzpqon";
    // every waiting function against every changing function, both initial states
    for (const char* w = wt; *w; ++w) for (int init = 0; init < 2; ++init) {
        char a[4] = { *w, 0 }, aa[4] = { *w, *w, 0 }, ra[4] = { 'R', *w, 0 }, ab[4] = { *w, 'B', 0 };
        J.add(init, a, "", "", 4 + x + 2, 1);
        for (const char* s = set; *s; ++s) { char b[3] = { *s, 0 }; J.add(init, a, b, "", 4 + x + 2, 1); J.add(init, ra, b, "", 4 + x + 2, 0); J.add(init, a, a, b, 2 + x + 2, 0); J.add(init, aa, b, "", 3 + x + 2, 0); J.add(init, ab, b, "", 3 + x + 2, 0); }
        for (const char* s = clr; *s; ++s) { char b[3] = { *s, 0 }; J.add(init, a, b, "", 3 + x + 2, 1); char c[4] = { 'T', *s, 0 }; J.add(init, a, c, "", 4 + x + 2, 0); char d[4] = { *s, 'A', 0 }; J.add(init, a, d, "", 4 + x + 2, 0); J.add(init, a, "T", b, 2 + x + 2, 0);
            char e[4] = { *s, *w, 0 }; J.add(init, e, "T", "", 3 + x + 2, 0); char f[5] = { *w, *s, *w, 0 }; J.add(init, f, "T", "", 3 + x + 2, 0); J.add(init, f, "TT", "", 2 + x + 2, 0); }
        J.add(init, a, "TRT", "", 3 + x + 2, 0); J.add(init, a, "B", "T", 2 + x + 2, 0); J.add(init, a, "gT", "", 3 + x + 2, 0); J.add(init, a, a, "gT", 2 + x + 2, 0);
        J.add(init, a, "PT", "", 3 + x + 2, 0); J.add(init, a, "DA", "", 3 + x + 2, 0);
    }
    for (const char* w = "LNIEUSfkxYyw"; *w; ++w) for (int init = 0; init < 2; ++init) {
        char a[4] = { *w, 0 };
        J.add(init, a, "T", "", 3 + x, 1); J.add(init, a, "RA", "", 3 + x, 0); J.add(init, a, "gT", "", 3 + x, 0); J.add(init, a, a, "PT", 2 + x, 0); J.add(init, a, "", "", 3 + x, 0);
    }
    const char* any = "TARFB";
    for (const char* a = any; *a; ++a) for (const char* b = any; *b; ++b) for (const char* c = any; *c; ++c) {
        char p[3] = { *a, *b, 0 }, q[3] = { *c, 'B', 0 };
        J.add(0, p, q, "", 6, 0); J.add(1, p, q, "", 6, 0); J.add(0, p, q, "B", 4, 0);
    }
    J.add(0, "t", "", "", 3, 0); J.add(0, "t", "P", "", 2, 0); J.add(0, "P", "D", "", 3, 0);
    J.destr('W', 3); J.destr('u', 3); J.destr('s', 3); J.destr('h', 3);
    return J.n;
}

bool category_matters(const char* property, const char* category)
{
    static const char* generic[] = { "deadlock", "livelock", "memory", "race", "crash", "leak", "hang" };
    for (auto g : generic) if (!strcmp(g, category)) return true;
    return !strcmp(property, category);
}

} // namespace mc
