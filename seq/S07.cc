// S07: cat, repeat, hex_string and safe_string.
#include "ck.h"
#include "gul14/SmallVector.h"
#include "gul14/cat.h"
#include "gul14/string_util.h"
#include <array>
#include <climits>
#include <cmath>
#include <deque>
#include <forward_list>
#include <limits>
#include <memory>
#include <list>
using gul14::cat; using gul14::string_view;

// Decimal representation by repeated division
template <typename T> static std::string dec(T v)
{
    __int128 x = v; const bool neg = x < 0; if (neg) x = -x;
    std::string s; do { s.insert(s.begin(), (char)('0' + (int)(x % 10))); x /= 10; } while (x);
    return neg ? "-" + s : s;
}
static std::string flt(double d) { char b[512]; snprintf(b, sizeof b, "%f", d); return b; }

static void same(const char* what, const std::string& got, const std::string& exp) { ck::step(); CHECK(got == exp, "%s gave %s, expected %s", what, ck::show(got).c_str(), ck::show(exp).c_str()); }

template <typename T> static void ints(std::vector<T> vs)
{
    for (T v : vs) if (ck::mine()) {
        ck::state(); const std::string d = dec(v);
        same("cat(integer)", cat(v), d); same("cat(int, string)", cat(v, "|"), d + "|"); same("cat(str, int, str)", cat("<", v, ">"), "<" + d + ">"); same("cat with four pieces", cat(v, v, std::string("::"), v), d + d + "::" + d);
        const gul14::ConvertingStringView c(v);
        CHECK(c.size() == d.size() && c.length() == d.size() && std::string(c.data(), c.size()) == d && std::string(c) == d, "ConvertingStringView(%s) is wrong", d.c_str());
    }
}
template <typename T> static std::vector<T> edge()
{
    std::vector<T> v; const int bits = (int)sizeof(T) * 8;
    for (int b = 0; b < bits; ++b) for (int o = -2; o <= 2; ++o) { const unsigned long long u = (1ull << b) + (unsigned long long)(long long)o; v.push_back((T)u); v.push_back((T)(0 - u)); }
    unsigned long long p = 1; for (int i = 0; i < 20; ++i, p *= 10) for (int o = -1; o <= 1; ++o) { v.push_back((T)(p + (unsigned long long)(long long)o)); v.push_back((T)(0 - p - (unsigned long long)(long long)o)); }
    v.push_back(std::numeric_limits<T>::min()); v.push_back(std::numeric_limits<T>::max());
    return v;
}
DOMAIN(cat_integers) {
    ints(edge<int>()); ints(edge<unsigned>()); ints(edge<long>()); ints(edge<unsigned long>()); ints(edge<long long>()); ints(edge<unsigned long long>());
    std::vector<short> s; std::vector<unsigned short> us; for (int i = -32768; i < 65536; i += 97) { s.push_back((short)i); us.push_back((unsigned short)i); } ints(s); ints(us);
    std::vector<signed char> sc; std::vector<unsigned char> uc; for (int i = 0; i < 256; ++i) { sc.push_back((signed char)i); uc.push_back((unsigned char)i); } ints(sc); ints(uc);
    std::vector<int> all; for (int i = -1100; i <= 1100; ++i) all.push_back(i); ints(all);
}
DOMAIN(cat_chars) { for (int i = 0; i < 256; ++i) if (ck::mine()) { const char c = (char)i; const std::string s(1, c); ck::state(); same("cat(char)", cat(c), s); same("cat(char, char)", cat(c, 'x'), s + "x"); same("cat(x, char, y)", cat('x', c, 'y'), "x" + s + "y"); same("cat of five", cat(c, c, c, 1, c), s + s + s + "1" + s); } }
DOMAIN(cat_floats) {
    std::vector<double> v; for (int e = -12; e <= 20; ++e) for (double m : { 1.0, -1.0, 1.5, 9.9999995, -2.25, 0.1 }) v.push_back(m * std::pow(10.0, e));
    for (double d : { 0.0, -0.0, 1e300, -1e308, 4.9e-324, (double)INFINITY, -(double)INFINITY, 0.0000005, 0.00000049 }) v.push_back(d);
    for (double d : v) if (ck::mine()) { ck::state(); same("cat(double)", cat(d), flt(d)); same("cat(double, str)", cat(d, "s"), flt(d) + "s"); const float f = (float)d; same("cat(float)", cat(f), flt((double)f)); same("cat(str,float,str,int)", cat("a", f, "b", 7), "a" + flt((double)f) + "b7"); }
}
static void pieces(const std::vector<std::string>& p)
{
    std::string exp; for (auto& s : p) exp += s;
    ck::state();
    std::vector<string_view> v; std::vector<std::unique_ptr<ck::Exact>> keep;
    for (auto& s : p) { keep.emplace_back(new ck::Exact(s)); v.emplace_back(keep.back()->data(), keep.back()->size()); }
    switch (p.size()) {
    case 0: same("cat()", cat(), exp); break;
    case 1: same("cat(string)", cat(p[0]), exp); same("cat(view)", cat(v[0]), exp); break;
    case 2: same("cat(string, view)", cat(p[0], v[1]), exp); same("cat(view, string)", cat(v[0], p[1]), exp); break;
    case 3: same("cat of 3", cat(p[0], v[1], p[2]), exp); same("cat of 3 views", cat(v[0], p[1], v[2]), exp); break;
    case 4: same("cat of 4", cat(p[0], v[1], p[2], v[3]), exp); break;
    case 5: same("cat of 5", cat(v[0], p[1], v[2], p[3], v[4]), exp); break;
    case 6: same("cat of 6", cat(v[0], p[1], v[2], p[3], v[4], p[5]), exp); break;
    default: break;
    }
    if (p.size() == 3) ck::sample("cat of %s %s %s", ck::show(p[0]).c_str(), ck::show(p[1]).c_str(), ck::show(p[2]).c_str());
}
DOMAIN(cat_strings) {
    std::vector<std::string> pool; ck::strings(std::string("a\0\xff", 3), 0, 1, [&](const std::string& s) { pool.push_back(s); }); pool.push_back(std::string("x\0y", 3)); pool.push_back(std::string(15, 'm')); pool.push_back(std::string(16, 'n')); pool.push_back(std::string(300, 'o'));
    if (ck::mine()) pieces({});
    for (auto& a : pool) { if (ck::mine()) pieces({ a }); for (auto& b : pool) { if (ck::mine()) pieces({ a, b }); for (auto& c : pool) { if (ck::mine()) pieces({ a, b, c }); for (auto& d : pool) { if (ck::mine()) pieces({ a, b, c, d }); for (auto& e : pool) { if (ck::mine()) pieces({ a, b, c, d, e }); if (ck::thorough()) for (auto& f : pool) if (ck::mine()) pieces({ a, b, c, d, e, f }); } } } } }
    if (ck::mine()) { ck::state(); same("cat(C string)", cat("abc"), "abc"); same("cat mixed", cat("a", 1, 'b', 2.5, string_view("cd", 1), std::string("e\0f", 3), -7L, 8ull, 9u, 10ul, -11ll, 1.25f), "a1b" + flt(2.5) + "c" + std::string("e\0f", 3) + "-789" + "10-11" + flt(1.25)); const char* n = ""; same("cat of empty C strings", cat(n, n, n, n), ""); }
}

DOMAIN(repeat) {
    ck::strings(std::string("a\0\xff", 3), 0, 4, [](const std::string& s) { for (std::size_t n = 0; n <= 9; ++n) if (ck::mine()) { ck::Exact e(s); ck::state(); std::string exp; for (std::size_t i = 0; i < n; ++i) exp += s; same("repeat", gul14::repeat(string_view(e.data(), e.size()), n), exp); } });
    for (std::size_t len : { 0, 1, 2, 3, 7, 15, 16, 17, 64, 100 }) for (std::size_t n = 0; n <= 300; n += n < 40 ? 1 : 13) if (ck::mine()) { std::string s(len, 'r'); if (len) s[len - 1] = 's'; ck::state(); std::string exp; for (std::size_t i = 0; i < n; ++i) exp += s; same("repeat", gul14::repeat(s, n), exp); }
    for (std::size_t n = 0; n <= 1100; ++n) if (ck::mine()) for (const std::string& t : { std::string("a\0", 2), std::string("\0b", 2), std::string(1, '\0'), std::string("\xff\0\n", 3), std::string(" "), std::string("long text that is stored on the heap\0", 37) }) { ck::Exact e(t); ck::state(); std::string exp; for (std::size_t i = 0; i < n; ++i) exp += t; same("repeat", gul14::repeat(string_view(e.data(), e.size()), n), exp); }
    for (std::size_t len = 0; len <= 1100; ++len) if (ck::mine()) { std::string s(len, '\0'); for (std::size_t i = 0; i < len; ++i) s[i] = (char)(i * 7); ck::state(); same("repeat", gul14::repeat(s, 1), s); same("repeat", gul14::repeat(s, 2), s + s); same("repeat", gul14::repeat(s, 3), s + s + s); }
    for (std::size_t n : { 65535u, 65536u, 65537u, 100000u }) if (ck::mine()) { ck::state(); same("repeat many", gul14::repeat("q", n), std::string(n, 'q')); std::string exp; for (std::size_t i = 0; i < n; ++i) exp += "xy"; same("repeat many", gul14::repeat("xy", n), exp); }
}

template <typename T> static std::string hex(T v)
{
    std::string s; unsigned long long u = (unsigned long long)v;
    for (unsigned i = 0; i < sizeof(T) * 2; ++i) { const unsigned d = (unsigned)(u % 16); s.insert(s.begin(), d < 10 ? (char)('0' + d) : (char)('a' + d - 10)); u /= 16; }
    return s;
}
template <typename T> static void hexes(const std::vector<T>& v)
{
    for (T x : v) if (ck::mine()) { ck::state(); same("hex_string", gul14::hex_string(x), hex(x)); }
    for (std::size_t n = 0; n <= 5; ++n) for (std::size_t o = 0; o + n <= v.size(); o += v.size() / 13 + 1) for (const std::string& sep : { std::string(), std::string(" "), std::string("\0-", 2), std::string(20, '_') }) if (ck::mine()) {
        std::vector<T> r(v.begin() + (long)o, v.begin() + (long)(o + n)); std::string exp, exp0; for (std::size_t i = 0; i < n; ++i) { if (i) exp += sep; exp += hex(r[i]); exp0 += hex(r[i]); }
        ck::Exact se(sep); const string_view sv(se.data(), se.size()); ck::state();
        same("hex_string(container, sep)", gul14::hex_string(r, sv), exp); same("hex_string(container)", gul14::hex_string(r), exp0);
        same("hex_string(iterators, sep)", gul14::hex_string(r.begin(), r.end(), sv), exp); same("hex_string(iterators)", gul14::hex_string(r.cbegin(), r.cend()), exp0);
        same("hex_string(pointers, sep)", gul14::hex_string(r.data(), r.data() + n, sv), exp);
        std::list<T> l(r.begin(), r.end()); same("hex_string(list, sep)", gul14::hex_string(l, sv), exp); std::deque<T> dq(r.begin(), r.end()); same("hex_string(deque)", gul14::hex_string(dq), exp0); std::forward_list<T> fl(r.begin(), r.end()); same("hex_string(forward iterators)", gul14::hex_string(fl.begin(), fl.end(), sv), exp);
        if (n >= 3) { T a[3] = { r[0], r[1], r[2] }; std::string ea = hex(a[0]) + sep + hex(a[1]) + sep + hex(a[2]); same("hex_string(array, sep)", gul14::hex_string(a, sv), ea); same("hex_string(array)", gul14::hex_string(a), hex(a[0]) + hex(a[1]) + hex(a[2])); std::array<T, 3> sa = { { r[0], r[1], r[2] } }; same("hex_string(std::array, sep)", gul14::hex_string(sa, sv), ea); }
    }
}
DOMAIN(hex_string) {
    std::vector<unsigned char> uc; std::vector<signed char> sc; std::vector<char> c; for (int i = 0; i < 256; ++i) { uc.push_back((unsigned char)i); sc.push_back((signed char)i); c.push_back((char)i); } hexes(uc); hexes(sc); hexes(c);
    std::vector<unsigned short> us; std::vector<short> s; for (int i = 0; i < 65536; ++i) { us.push_back((unsigned short)i); s.push_back((short)i); } hexes(us); hexes(s);
    hexes(edge<int>()); hexes(edge<unsigned>()); hexes(edge<long>()); hexes(edge<unsigned long>()); hexes(edge<long long>()); hexes(edge<unsigned long long>());
    CHECK(std::string(gul14::hex_digits.begin(), gul14::hex_digits.end()) == "0123456789abcdef", "hex_digits is wrong");
}
DOMAIN(safe_string) {
    const std::string al("a\0\xff", 3);
    ck::strings(al, 0, ck::tier(6, 8), [](const std::string& s) { for (std::size_t len = 0; len <= s.size() + 3; ++len) if (ck::mine()) {
        ck::state(); const std::size_t z = s.find('\0'); const std::string exp = s.substr(0, std::min(std::min(len, z), s.size()));
        // unterminated buffer: the length must not exceed the buffer unless there is a zero byte
        if (len <= s.size() || z != std::string::npos) { ck::Exact e(s); same("safe_string(unterminated)", gul14::safe_string(e.data(), len), exp); }
        ck::Exact t(s + std::string(1, '\0')); same("safe_string(C string)", gul14::safe_string(t.data(), len), exp);
        CHECK(gul14::safe_string(nullptr, len).empty(), "safe_string(nullptr, %zu) is not empty", len); } });
    for (std::size_t n : { 0, 1, 14, 15, 16, 17, 100, 1000 }) for (std::size_t len : { (std::size_t)0, (std::size_t)1, n, n + 1, n + 2, (std::size_t)INT_MAX, (std::size_t)UINT_MAX, (std::size_t)SIZE_MAX / 2, (std::size_t)SIZE_MAX - 1, (std::size_t)SIZE_MAX }) if (ck::mine()) { ck::state(); ck::Exact t(std::string(n, 'y') + std::string(1, '\0')); same("safe_string(long)", gul14::safe_string(t.data(), len), std::string(std::min(n, len), 'y')); CHECK(gul14::safe_string(nullptr, len).empty(), "safe_string(nullptr) is not empty"); }
}
// Lengths beyond those
DOMAIN(huge_length) {
    for (int n : ck::huge()) if (ck::mine()) {
        const std::size_t N = (std::size_t)n; std::string y(N, 'y'), z(N, '\0'); y[N / 2] = '\0'; ck::state();
        for (const auto& p : std::vector<std::vector<std::string>>{ { y }, { y, "a" }, { "a", y }, { z, y }, { y, "a", z }, { "a", "b", y }, { "a", y, "b" }, { y, "b", "c", "d" }, { "a", "b", "c", y }, { "a", y, z, y, "e" } }) pieces(p);
        same("repeat", gul14::repeat("q", N), std::string(N, 'q')); same("repeat", gul14::repeat(y, 3), y + y + y); if (n < 300000) { std::string e; for (int i = 0; i < n; ++i) e += "xyz"; same("repeat", gul14::repeat("xyz", N), e); }
        const std::string s(N, 'y'); ck::Exact t(s + std::string(1, '\0')), u(s);
        for (std::size_t len : { N - 1, N, N + 1, N + 2, SIZE_MAX }) same("safe_string(long)", gul14::safe_string(t.data(), len), s.substr(0, len));
        for (std::size_t len : { N - 1, N }) same("safe_string(long unterminated)", gul14::safe_string(u.data(), len), s.substr(0, len));
    }
}

// The same in another locale
FOREIGN(cat_chars, true);
FOREIGN(cat_strings, true);
FOREIGN(repeat, true);
FOREIGN(safe_string, true);
FOREIGN(cat_integers, true);
FOREIGN(cat_floats, true);
FOREIGN(hex_string, true);
