// S06: substring predicates, ASCII case mapping and case-insensitive comparison.
#include "ck.h"
#include "gul14/case_ascii.h"
#include "gul14/substring_checks.h"
using gul14::string_view;

static char lo(char c) { for (int i = 0; i < 26; ++i) if (c == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"[i]) return "abcdefghijklmnopqrstuvwxyz"[i]; return c; }
static char up(char c) { for (int i = 0; i < 26; ++i) if (c == "abcdefghijklmnopqrstuvwxyz"[i]) return "ABCDEFGHIJKLMNOPQRSTUVWXYZ"[i]; return c; }
static std::string map(std::string s, char (*f)(char)) { for (auto& c : s) c = f(c); return s; }
static bool at(const std::string& h, std::size_t p, const std::string& n) { if (p + n.size() > h.size()) return false; for (std::size_t i = 0; i < n.size(); ++i) if (h[p + i] != n[i]) return false; return true; }
static bool starts(const std::string& h, const std::string& n) { return at(h, 0, n); }
static bool ends(const std::string& h, const std::string& n) { return n.size() <= h.size() && at(h, h.size() - n.size(), n); }
static bool cont(const std::string& h, const std::string& n) { for (std::size_t p = 0; p <= h.size(); ++p) if (at(h, p, n)) return true; return false; }

static void pair(const std::string& h, const std::string& n)
{
    ck::Exact eh(h), en(n);
    const string_view H(eh.data(), eh.size()), N(en.data(), en.size());
    const std::string lh = map(h, lo), ln = map(n, lo);
    ck::state(); ck::step(8);
#define T(f, exp) CHECK(gul14::f(H, N) == (exp), #f "(%s, %s) gave %d", ck::show(h).c_str(), ck::show(n).c_str(), (int)gul14::f(H, N))
    T(contains, cont(h, n)); T(starts_with, starts(h, n)); T(ends_with, ends(h, n));
    T(contains_nocase, cont(lh, ln)); T(starts_with_nocase, starts(lh, ln)); T(ends_with_nocase, ends(lh, ln)); T(equals_nocase, lh == ln);
#undef T
    if (n.size() == 1) {
        const char c = n[0]; ck::step(6);
#define T(f, exp) CHECK(gul14::f(H, c) == (exp), #f "(%s, char %d) gave %d", ck::show(h).c_str(), (int)c, (int)gul14::f(H, c))
        T(contains, cont(h, n)); T(starts_with, starts(h, n)); T(ends_with, ends(h, n));
        T(contains_nocase, cont(lh, ln)); T(starts_with_nocase, starts(lh, ln)); T(ends_with_nocase, ends(lh, ln));
#undef T
    }
    if (h.size() > n.size() && cont(lh, ln) && !cont(h, n)) ck::sample("contains_nocase(%s, %s)", ck::show(h).c_str(), ck::show(n).c_str());
}
static void conv(const std::string& s)
{
    ck::Exact e(s); const string_view v(e.data(), e.size());
    ck::state(); ck::step(4);
    const std::string L = map(s, lo), U = map(s, up);
    CHECK(gul14::lowercase_ascii(v) == L, "lowercase_ascii(%s) gave %s", ck::show(s).c_str(), ck::show(gul14::lowercase_ascii(v)).c_str());
    CHECK(gul14::uppercase_ascii(v) == U, "uppercase_ascii(%s) gave %s", ck::show(s).c_str(), ck::show(gul14::uppercase_ascii(v)).c_str());
    std::string a = s, b = s;
    CHECK(&gul14::lowercase_ascii_inplace(a) == &a && a == L, "lowercase_ascii_inplace(%s) gave %s", ck::show(s).c_str(), ck::show(a).c_str());
    CHECK(&gul14::uppercase_ascii_inplace(b) == &b && b == U, "uppercase_ascii_inplace(%s) gave %s", ck::show(s).c_str(), ck::show(b).c_str());
    CHECK(std::string(e.data(), e.size()) == s, "argument modified");
}

DOMAIN(every_char) { for (int i = 0; i < 256; ++i) if (ck::mine()) { const char c = (char)i; ck::state(); ck::step(2);
    CHECK(gul14::lowercase_ascii(c) == lo(c), "lowercase_ascii(char %d) gave %d", i, gul14::lowercase_ascii(c)); CHECK(gul14::uppercase_ascii(c) == up(c), "uppercase_ascii(char %d) gave %d", i, gul14::uppercase_ascii(c)); } }
DOMAIN(every_char_pair) { for (int a = 0; a < 256; ++a) for (int b = 0; b < 256; ++b) if (ck::mine()) {
    std::string s(1, (char)a), t(1, (char)b); pair(s, t); pair("x" + s + "y", t); pair(s + t, t + s); pair(s + t, map(s, lo) + map(t, up)); pair("Q" + s, "q" + t); pair(s + "Q", t + "q"); conv(s + t); conv("M" + t + s + "m"); } }
static const std::string al("aAbB\0[{\xc1\xe1", 9);
DOMAIN(small_strings) { ck::strings(al, 0, ck::tier(3, 4), [](const std::string& h) { ck::strings(al, 0, 3, [&](const std::string& n) { if (ck::mine()) pair(h, n); }); }); }
DOMAIN(longer_strings) { ck::strings("abA", 0, ck::tier(6, 8), [](const std::string& h) { ck::strings("abA", 0, ck::tier(4, 5), [&](const std::string& n) { if (ck::mine()) pair(h, n); }); }); }
DOMAIN(long_strings) {
    for (int len : { 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 256, 257, 1000 }) for (int p = 0; p < len; p += 1 + len / 64) if (ck::mine()) for (int c : { 0, 64, 65, 90, 91, 96, 97, 122, 123, 0x80, 0xc0, 0xff, 107 }) {
        std::string s((std::size_t)len, 'k'); s[(std::size_t)p] = (char)c; conv(s);
        std::string t = s; t[(std::size_t)p] = (char)(c ^ 0x20); pair(s, t); std::string u((std::size_t)len, 'K'); pair(u, s); pair(u + s, s); pair(s + u, s); pair(s, u.substr(1)); pair(s, s.substr((std::size_t)p)); pair(s, s.substr(0, (std::size_t)p)); pair("x" + s + "y", s); }
    for (int c = 0; c < 256; ++c) for (int len = 0; len < 70; ++len) if (ck::mine()) conv(std::string((std::size_t)len, (char)c));
}
DOMAIN(every_length) {
    for (int n = 0; n <= 1100; ++n) if (ck::mine()) {
        const std::size_t N = (std::size_t)n; std::string a, b, c; for (int i = 0; i < n; ++i) { a.push_back((char)('a' + i % 26)); b.push_back((char)('A' + i % 26)); c.push_back((char)(i * 37 + n)); }
        conv(a); conv(b); conv(c); conv(std::string(N, 'Z') + "a"); pair(a, b); pair(b, b); pair("x" + a, b); pair(a + "x", b); pair(a, b + "x"); pair("@" + a + "[", b); pair(c, c); pair(c + "q" + c, "q" + c); pair(a + "Q", "q"); pair("Q" + a, "q"); pair(std::string(N, 'a') + "b", "AB"); pair(std::string(N, 'a') + "b" + std::string(N, 'a'), "b"); pair(std::string(N, '\0') + "k", std::string("\0K", 2));
        if (n) { std::string d = b; d.back() = '!'; pair(a, d); d = b; d.front() = '!'; pair(a, d); d = b; d[N / 2] = '\0'; pair(a, d); }
    }
}
// Lengths beyond those
DOMAIN(huge_length) {
    for (int n : ck::huge()) if (ck::mine()) {
        const std::size_t N = (std::size_t)n; std::string a, b; for (int i = 0; i < n; ++i) { a.push_back((char)('a' + i % 26)); b.push_back((char)('A' + i % 26)); }
        conv(a); conv(b); conv(std::string(N, 'Z') + "a"); pair(a, b); pair(b, b); pair("!" + a, b); pair(a + "!", b); pair(a, b + "!"); pair(a + "!Q", "!q"); pair("!Q" + a, "!q"); pair(std::string(N, 'a') + "b" + std::string(N, 'a'), "b");
        for (std::size_t p : { (std::size_t)0, N / 2, N - 1 }) { std::string d = b; d[p] = '!'; pair(a, d); pair(b, d); pair(a, d.substr(1)); pair(a, d.substr(0, N - 1)); pair("!" + b, "!" + d); }
    }
}

// The same in another locale
FOREIGN(every_char, true);
FOREIGN(every_char_pair, true);
FOREIGN(small_strings, true);
