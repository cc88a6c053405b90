// Bounded-exhaustive sequential checking: domains of deterministically enumerated cases,
// sharded over worker processes. Every case runs the real gul14 code and compares it with an
// independent reference. Include this header in exactly one translation unit per check.
#pragma once
#include "std.h"
#include <csignal>
#include <cstdarg>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <clocale>
#include <ctime>
#include <locale>
#include <new>
#include <string>
#include <vector>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>

namespace ck {

struct Counters { unsigned long long cases, states, transitions, faults; };
struct Worker
{
    volatile int domain; volatile long long index;
    volatile int failed; // 1: violation reported
    volatile int capped;
    char msg[1500];
    Counters dom[64];
};
struct Shared { volatile int stop; volatile double deadline; Worker w[64]; char samples[64][3][400]; volatile int nsamples[64]; };

struct Domain { const char* name; void (*fn)(); };
inline std::vector<Domain>& domains() { static std::vector<Domain> d; return d; }
struct Reg { Reg(const char* n, void (*f)()) { domains().push_back({ n, f }); } };
#define DOMAIN(name) static void domain_##name(); static ck::Reg reg_##name(#name, domain_##name); static void domain_##name()

inline Shared*& sh() { static Shared* s; return s; }
inline int& shard() { static int s; return s; }
inline int& nshards() { static int s = 1; return s; }
inline int& cur_domain() { static int s; return s; }
inline long long& counter() { static long long c; return c; }
inline long long& replay_index() { static long long c = -1; return c; }
inline bool& replaying() { static bool b; return b; }
inline bool& alloc_hook() { static bool b; return b; }
inline bool& thorough() { static bool b; return b; }
inline Worker& me() { return sh()->w[shard()]; }
inline double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

/// Bound depending on the tier
inline int tier(int quick, int deep) { return thorough() ? deep : quick; }

// ---------------------------------------------------------------- locales
/// Directory with a compiled Turkish locale (decimal comma, unusual case mapping), if it could be made
inline std::string& locale_dir() { static std::string d; return d; }
inline bool& wants_locale() { static bool b; return b; }
inline void make_locale()
{
    char d[] = "/tmp/gulckXXXXXX"; if (!mkdtemp(d)) return;
    const std::string c = std::string("localedef -i tr_TR -f ISO-8859-9 ") + d + "/tr_TR.ISO-8859-9 >/dev/null 2>&1";
    const int r = system(c.c_str()); (void)r; locale_dir() = d; setenv("LOCPATH", d, 1);
}
inline void drop_locale() { if (!locale_dir().empty()) { const int r = system(("rm -rf " + locale_dir()).c_str()); (void)r; } }
inline char& point() { static char p = ','; return p; }
/// Number of digits per group
inline char& group() { static char g = 1; return g; }
struct Grouping : std::numpunct<char>
{
    char do_decimal_point() const override { return point(); }
    char do_thousands_sep() const override { return '_'; }
    std::string do_grouping() const override { return std::string(1, group()); }
    std::string do_truename() const override { return "evet"; }
    std::string do_falsename() const override { return "no"; }
};
/// Another global locale while this object exists: grouped digits for all streams and, if wanted, Turkish
/// rules for the functions of the C library
inline bool& casing() { static bool c = true; return c; }
/// Turkish rules for the case of i, and some more white space
struct Casing : std::ctype<char>
{
    static const mask* classes()
    {
        static mask t[table_size];
        for (std::size_t i = 0; i < table_size; ++i) t[i] = classic_table()[i];
        t[0xa0] |= space; t[0x85] |= space | cntrl; t[0xe4] |= lower | alpha; t[0xc4] |= upper | alpha;
        return t;
    }
    Casing() : std::ctype<char>(classes()) {}
    char do_tolower(char c) const override { return c == 'I' ? '\xfd' : c == '\xc4' ? '\xe4' : std::ctype<char>::do_tolower(c); }
    char do_toupper(char c) const override { return c == 'i' ? '\xdd' : c == '\xe4' ? '\xc4' : std::ctype<char>::do_toupper(c); }
    const char* do_tolower(char* b, const char* e) const override { for (; b != e; ++b) *b = do_tolower(*b); return e; }
    const char* do_toupper(char* b, const char* e) const override { for (; b != e; ++b) *b = do_toupper(*b); return e; }
};
struct Foreign
{
    std::locale old; std::string c;
    explicit Foreign(bool c_too) : old(std::locale()), c(setlocale(LC_ALL, nullptr))
    {
        const bool h = alloc_hook(); alloc_hook() = false;
        std::locale l(std::locale::classic(), new Grouping);
        std::locale::global(casing() ? std::locale(l, new Casing) : l);
        if (c_too) { const char* r = setlocale(LC_ALL, "tr_TR.ISO-8859-9"); if (!r) r = setlocale(LC_ALL, "C.UTF-8"); if (replaying()) printf("C locale %s\n", r ? r : "unchanged"); }
        alloc_hook() = h;
    }
    ~Foreign() { const bool h = alloc_hook(); alloc_hook() = false; std::locale::global(old); setlocale(LC_ALL, c.c_str()); alloc_hook() = h; }
};
/// Registers another run of a domain with a different locale (c: also for the C library)
#define FOREIGN(name, c) static void foreign_##name() { ck::Foreign f(c); domain_##name(); } static ck::Reg reg_foreign_##name(#name "_in_another_locale", foreign_##name); static const bool want_##name = (ck::wants_locale() = true)

/// Resident memory of a process in megabytes
inline long resident_mb(pid_t p)
{
    char n[64]; snprintf(n, sizeof n, "/proc/%d/statm", (int)p);
    long a = 0, b = 0; if (FILE* f = fopen(n, "r")) { if (fscanf(f, "%ld %ld", &a, &b) != 2) b = 0; fclose(f); }
    return b * (sysconf(_SC_PAGESIZE) / 1024) / 1024;
}

/// Is the next case to be executed by this process?
inline bool mine()
{
    const long long i = counter()++;
    if (replaying()) { if (i != replay_index()) return false; }
    else {
        if (i % nshards() != shard()) return false;
        if (sh()->stop || ((me().dom[cur_domain()].cases & 63) == 0 && now() > sh()->deadline)) { me().capped = 1; return false; }
    }
    me().index = i;
    ++me().dom[cur_domain()].cases;
    return true;
}

inline void state(unsigned long long n = 1) { me().dom[cur_domain()].states += n; }
inline void step(unsigned long long n = 1) { me().dom[cur_domain()].transitions += n; }
inline void fault(unsigned long long n = 1) { me().dom[cur_domain()].faults += n; }

[[noreturn]] inline void vfail(const char* fmt, va_list ap)
{
    vsnprintf(me().msg, sizeof me().msg, fmt, ap);
    for (char* c = me().msg; *c; ++c) if ((unsigned char)*c < 32) *c = ' ';
    me().failed = 1;
    if (replaying()) { printf("FAILED %s\n", me().msg); fflush(stdout); drop_locale(); }
    _exit(1);
}
[[noreturn]] inline void fail(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
[[noreturn]] inline void fail(const char* fmt, ...) { va_list ap; va_start(ap, fmt); vfail(fmt, ap); }
#define CHECK(cond, ...) do { if (!(cond)) ck::fail(__VA_ARGS__); } while (0)

/// Keep up to three samples of each domain
inline void sample(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
inline void sample(const char* fmt, ...)
{
    if (shard() != 0 && !replaying()) return;
    const int d = cur_domain();
    if (sh()->nsamples[d] >= 3) return;
    va_list ap; va_start(ap, fmt); vsnprintf(sh()->samples[d][sh()->nsamples[d]++], 400, fmt, ap); va_end(ap);
}

// ---------------------------------------------------------------- allocation accounting
struct Alloc { long live, total, fail_in; };
inline Alloc& alloc() { static Alloc a = { 0, 0, -1 }; return a; }

// ---------------------------------------------------------------- text helpers
/// Printable representation of arbitrary bytes
inline std::string show(const char* p, std::size_t n)
{
    std::string o = "\"";
    for (std::size_t i = 0; i < n && i < 200; ++i) {
        const unsigned char c = (unsigned char)p[i];
        if (c >= 32 && c < 127 && c != '"' && c != '\\') o += (char)c;
        else { char b[8]; snprintf(b, sizeof b, "\\x%02x", c); o += b; }
    }
    return o + (n > 200 ? "...\"" : "\"");
}
template <typename S> std::string show(const S& s) { return show(s.data(), s.size()); }

/// Calls f for all strings over the alphabet with lengths min..max (shortest first)
template <typename F>
void strings(const std::string& alphabet, int min, int max, F f)
{
    for (int len = min; len <= max; ++len) {
        std::vector<int> idx((std::size_t)len, 0);
        std::string s((std::size_t)len, alphabet.empty() ? ' ' : alphabet[0]);
        if (len > 0 && alphabet.empty()) return;
        for (;;) {
            f(static_cast<const std::string&>(s));
            int k = len - 1;
            while (k >= 0) {
                if (++idx[(std::size_t)k] < (int)alphabet.size()) { s[(std::size_t)k] = alphabet[(std::size_t)idx[(std::size_t)k]]; break; }
                idx[(std::size_t)k] = 0; s[(std::size_t)k] = alphabet[0]; --k;
            }
            if (k < 0) break;
        }
    }
}

/// Lengths around powers of two and ten beyond those that are enumerated completely
inline std::vector<int> huge(int max = 1048577)
{
    std::vector<int> v;
    for (int p : { 2000, 2048, 4096, 5000, 8192, 10000, 16384, 32768, 50000, 65536, 100000, 131072, 262144, 524288, 1000000, 1048576 }) for (int o = -1; o <= 1; ++o) if (p + o <= max) v.push_back(p + o);
    return v;
}

/// Heap copy of a byte string without terminator, so that the address sanitizer detects any
/// read beyond the end (and before the beginning).
struct Exact
{
    char* p; std::size_t n;
    explicit Exact(const std::string& s) : p(static_cast<char*>(::malloc(s.size() ? s.size() : 1))), n(s.size()) { if (n) memcpy(p, s.data(), n); else { ::free(p); p = static_cast<char*>(::malloc(1)); p[0] = 'Q'; } }
    Exact(const Exact&) = delete;
    ~Exact() { ::free(p); }
    // Empty strings view the end of the block
    const char* data() const { return n ? p : p + 1; }
    std::size_t size() const { return n; }
};

inline int run(int argc, char** argv)
{
    int procs = 8; const char* out = nullptr; double limit = 1e9; const char* rdom = nullptr; const char* only = nullptr;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        if (a == "--thorough") thorough() = true;
        else if (a == "--procs") procs = atoi(argv[++i]);
        else if (a == "--out") out = argv[++i];
        else if (a == "--deadline") limit = atof(argv[++i]);
        else if (a == "--only") only = argv[++i];
        else if (a == "--replay") { rdom = argv[++i]; replay_index() = atoll(argv[++i]); replaying() = true; }
    }
    sh() = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    const double t0 = now();
    sh()->deadline = t0 + limit;
    auto& D = domains();
    if (wants_locale()) make_locale();
    struct Drop { ~Drop() { drop_locale(); } } drop;
    if (D.size() > 64) { fprintf(stderr, "too many domains\n"); return 2; }
    if (replaying()) {
        for (std::size_t d = 0; d < D.size(); ++d) if (!strcmp(D[d].name, rdom)) {
            cur_domain() = (int)d; counter() = 0; alloc_hook() = true;
            D[d].fn();
            alloc_hook() = false;
            if (!me().dom[d].cases) { printf("no such case\n"); return 3; }
            printf("PASSED\n"); return 0;
        }
        printf("no such domain\n"); return 3;
    }
    if (procs > 64) procs = 64;
    nshards() = procs;
    std::vector<pid_t> pid((std::size_t)procs);
    for (int s = 0; s < procs; ++s) {
        fflush(stdout);
        pid_t p = fork();
        if (p == 0) {
            shard() = s;
            for (std::size_t d = 0; d < D.size(); ++d) {
                if (only && strcmp(only, D[d].name)) continue;
                cur_domain() = (int)d; counter() = 0; me().domain = (int)d; me().index = -1; alloc_hook() = true;
                D[d].fn();
                alloc_hook() = false;
            }
            me().domain = -1;
            _exit(0);
        }
        pid[(std::size_t)s] = p;
    }
    std::vector<int> rc((std::size_t)procs, -1); int left = procs;
    std::vector<long long> last((std::size_t)procs, -2); std::vector<double> since((std::size_t)procs, now());
    long peak = 0; int round = 0;
    while (left > 0) {
        ++round;
        for (int s = 0; s < procs; ++s) {
            const std::size_t u = (std::size_t)s;
            if (rc[u] != -1) continue;
            int st; pid_t p = waitpid(pid[u], &st, WNOHANG);
            if (p == pid[u]) { rc[u] = WIFEXITED(st) ? WEXITSTATUS(st) : 256 + WTERMSIG(st); --left; if (rc[u]) sh()->stop = 1; continue; }
            if (round % 16 == 0) {
                // A worker which takes far more memory than any case needs is stopped before it takes the machine with it
                const long m = resident_mb(pid[u]); if (m > peak) peak = m;
                if (m > 3000) { kill(pid[u], SIGKILL); waitpid(pid[u], &st, 0); rc[u] = 998; --left; sh()->stop = 1; continue; }
            }
            const long long key = sh()->w[s].index * 64 + sh()->w[s].domain;
            if (key != last[u]) { last[u] = key; since[u] = now(); }
            else if (now() - since[u] > 150) { kill(pid[u], SIGKILL); waitpid(pid[u], &st, 0); rc[u] = 999; --left; sh()->stop = 1; }
        }
        if (left > 0) usleep(2000);
    }
    FILE* f = out ? fopen(out, "w") : stdout;
    auto esc = [](const char* s) { std::string o; for (; *s; ++s) { if (*s == '"' || *s == '\\') o += '\\'; o += (unsigned char)*s < 32 || (unsigned char)*s > 126 ? '?' : *s; } return o; };
    fprintf(f, "{\"wall\":%.3f,\"domains\":[", now() - t0);
    bool first = true;
    for (std::size_t d = 0; d < D.size(); ++d) {
        Counters c{}; for (int s = 0; s < procs; ++s) { auto& x = sh()->w[s].dom[d]; c.cases += x.cases; c.states += x.states; c.transitions += x.transitions; c.faults += x.faults; }
        fprintf(f, "%s\n{\"name\":\"%s\",\"cases\":%llu,\"states\":%llu,\"transitions\":%llu,\"faults\":%llu,\"samples\":[", first ? "" : ",", D[d].name, c.cases, c.states, c.transitions, c.faults);
        for (int k = 0; k < sh()->nsamples[d]; ++k) fprintf(f, "%s\"%s\"", k ? "," : "", esc(sh()->samples[d][k]).c_str());
        fprintf(f, "]}"); first = false;
    }
    fprintf(f, "],\"failures\":["); first = true; int capped = 0;
    for (int s = 0; s < procs; ++s) {
        Worker& w = sh()->w[s]; capped |= w.capped;
        const int r = rc[(std::size_t)s];
        if (r == 0) continue;
        const int d = w.domain < 0 ? 0 : w.domain;
        fprintf(f, "%s\n{\"domain\":\"%s\",\"index\":%lld,\"kind\":\"%s\",\"rc\":%d,\"msg\":\"%s\"}", first ? "" : ",", D[(std::size_t)d].name, (long long)w.index,
            w.failed ? "violation" : r == 999 ? "hang" : r == 998 ? "memory" : "crash", r, w.failed ? esc(w.msg).c_str() : "");
        first = false;
    }
    fprintf(f, "],\"capped\":%d,\"peak_mb\":%ld}\n", capped, peak);
    if (f != stdout) fclose(f);
    return 0;
}

} // namespace ck

// Global allocation functions: count live blocks, optionally let the n-th allocation fail.
static inline void* ck_new(std::size_t n)
{
    if (ck::alloc_hook()) {
        auto& a = ck::alloc();
        if (a.fail_in >= 0 && a.fail_in-- == 0) throw std::bad_alloc();
        ++a.live; ++a.total;
    }
    void* p = ::malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    return p;
}
static inline void ck_del(void* p) noexcept { if (p && ck::alloc_hook()) --ck::alloc().live; ::free(p); }
void* operator new(std::size_t n) { return ck_new(n); }
void* operator new[](std::size_t n) { return ck_new(n); }
void* operator new(std::size_t n, const std::nothrow_t&) noexcept { try { return ck_new(n); } catch (...) { return nullptr; } }
void operator delete(void* p) noexcept { ck_del(p); }
void operator delete[](void* p) noexcept { ck_del(p); }
void operator delete(void* p, std::size_t) noexcept { ck_del(p); }
void operator delete[](void* p, std::size_t) noexcept { ck_del(p); }
static inline void* ck_new_al(std::size_t n, std::size_t al)
{
    if (ck::alloc_hook()) {
        auto& a = ck::alloc();
        if (a.fail_in >= 0 && a.fail_in-- == 0) throw std::bad_alloc();
        ++a.live; ++a.total;
    }
    void* p = nullptr; if (posix_memalign(&p, al < sizeof(void*) ? sizeof(void*) : al, n ? n : 1)) throw std::bad_alloc();
    return p;
}
#if __cpp_aligned_new
void* operator new(std::size_t n, std::align_val_t a) { return ck_new_al(n, (std::size_t)a); }
void* operator new[](std::size_t n, std::align_val_t a) { return ck_new_al(n, (std::size_t)a); }
void operator delete(void* p, std::align_val_t) noexcept { ck_del(p); }
void operator delete[](void* p, std::align_val_t) noexcept { ck_del(p); }
void operator delete(void* p, std::size_t, std::align_val_t) noexcept { ck_del(p); }
void operator delete[](void* p, std::size_t, std::align_val_t) noexcept { ck_del(p); }
#endif

int main(int argc, char** argv) { return ck::run(argc, argv); }
