// N02: to_number<floating point> against a grammar and the correctly rounded C library functions.
#include "ck.h"
#include "gul14/to_number.h"
#include <cmath>
#include <limits>
using gul14::string_view; using gul14::to_number;

static bool alnum_(char c) { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '_'; }
static std::string lower(std::string s) { for (char& c : s) if (c >= 'A' && c <= 'Z') c = (char)(c + 32); return s; }
enum Kind { INVALID, NUMBER, INF, NAN_ };
struct Ref { Kind kind; bool neg; bool zero; bool huge_exp; std::string body; };
static Ref grammar(const std::string& in)
{
    Ref r{ INVALID, false, true, false, in };
    std::string s = in;
    if (!s.empty() && s[0] == '-') { r.neg = true; s.erase(0, 1); }
    r.body = s;
    const std::string l = lower(s);
    if (l == "inf" || l == "infinity") { r.kind = INF; return r; }
    if (l == "nan") { r.kind = NAN_; return r; }
    if (l.size() >= 5 && l.compare(0, 4, "nan(") == 0 && l.back() == ')') { for (std::size_t i = 4; i + 1 < s.size(); ++i) if (!alnum_(s[i])) return r; r.kind = NAN_; return r; }
    std::size_t i = 0; int digits = 0;
    while (i < s.size() && s[i] >= '0' && s[i] <= '9') { if (s[i] != '0') r.zero = false; ++i; ++digits; }
    if (i < s.size() && s[i] == '.') { ++i; while (i < s.size() && s[i] >= '0' && s[i] <= '9') { if (s[i] != '0') r.zero = false; ++i; ++digits; } }
    if (!digits) return r;
    if (i < s.size() && (s[i] == 'e' || s[i] == 'E')) {
        ++i; if (i < s.size() && (s[i] == '+' || s[i] == '-')) ++i;
        int ed = 0; long long ev = 0;
        while (i < s.size() && s[i] >= '0' && s[i] <= '9') { ++ed; if (ev < 100000000000LL) ev = ev * 10 + (s[i] - '0'); ++i; }
        if (!ed) return r;
        if (ev > 2147483647LL) r.huge_exp = true;
    }
    if (i == s.size()) r.kind = NUMBER;
    return r;
}
static locale_t classic() { static const locale_t l = newlocale(LC_ALL_MASK, "C", (locale_t)0); return l; }
template <typename T> T parse(const char* s);
template <> float parse<float>(const char* s) { return strtof_l(s, nullptr, classic()); }
template <> double parse<double>(const char* s) { return strtod_l(s, nullptr, classic()); }
template <> long double parse<long double>(const char* s) { return strtold_l(s, nullptr, classic()); }
/// size of the unit in the last place of a positive finite number
template <typename T> long double ulp(T x) { const T n = std::nextafter(x, std::numeric_limits<T>::infinity()); if (std::isinf(n)) return (long double)x - (long double)std::nextafter(x, T(0)); return (long double)n - (long double)x; }
template <typename T> T tolerance(T want)
{
    const int units = sizeof(T) <= sizeof(double) ? 4 : want < std::numeric_limits<T>::min() * 16 ? 48 : 32; // long double: 17 exact decimal digits
    return (T)(ulp(want) * units);
}
static thread_local double worst[3];
template <typename T> void one(const std::string& s)
{
    static const char* const names[] = { "float", "double", "long double" };
    const char* tn = names[sizeof(T) == sizeof(float) ? 0 : sizeof(T) == sizeof(double) ? 1 : 2];
    ck::Exact e(s);
    ck::state(); ck::step();
    const Ref r = grammar(s);
    const gul14::optional<T> got = to_number<T>(string_view(e.data(), e.size()));
    if (r.kind == INVALID) { CHECK(!got.has_value(), "to_number<%s>(%s) accepted an invalid literal as %Lg", tn, ck::show(s).c_str(), (long double)*got); return; }
    if (r.kind == NAN_) { CHECK(got.has_value() && std::isnan(*got), "to_number<%s>(%s) is not NaN", tn, ck::show(s).c_str()); return; }
    const T inf = std::numeric_limits<T>::infinity(), max = std::numeric_limits<T>::max();
    if (r.kind == INF) { CHECK(got.has_value() && *got == (r.neg ? -inf : inf), "to_number<%s>(%s) is not infinite", tn, ck::show(s).c_str()); return; }
    const T want = parse<T>(r.body.c_str());
    if (!got.has_value()) { CHECK(r.huge_exp || want == inf || want == T(0) && !r.zero, "to_number<%s>(%s) rejected a valid literal", tn, ck::show(s).c_str()); return; }
    CHECK(std::signbit(*got) == r.neg, "to_number<%s>(%s) = %Lg has the wrong sign", tn, ck::show(s).c_str(), (long double)*got);
    const T a = std::fabs(*got);
    CHECK(!std::isnan(a), "to_number<%s>(%s) is NaN", tn, ck::show(s).c_str());
    if (a == want) return;
    if (std::isinf(want)) { CHECK(a >= max - tolerance(max), "to_number<%s>(%s) = %Lg instead of infinity", tn, ck::show(s).c_str(), (long double)*got); return; }
    CHECK(!r.zero, "to_number<%s>(%s) = %Lg instead of zero", tn, ck::show(s).c_str(), (long double)*got);
    if (std::isinf(a)) { CHECK(want >= max - tolerance(max), "to_number<%s>(%s) is infinite instead of %Lg", tn, ck::show(s).c_str(), (long double)want); return; }
    const long double err = std::fabs((long double)a - (long double)want);
    CHECK(err <= (long double)tolerance(want), "to_number<%s>(%s) = %.25Lg is off by %.1Lf units in the last place", tn, ck::show(s).c_str(), (long double)*got, err / ulp(want));
    if (s.size() > 12) ck::sample("to_number<%s>(%s) = %.21Lg", tn, ck::show(s).c_str(), (long double)*got);
}
static void all(const std::string& s) { one<float>(s); one<double>(s); one<long double>(s); }
static void both(const std::string& s) { all(s); all("-" + s); }

DOMAIN(small_strings) { ck::strings("015.eE-+", 0, ck::tier(6, 7), [](const std::string& s) { if (ck::mine()) all(s); }); }
DOMAIN(more_letters) { ck::strings("09.exXpPinfaNI()_-", 0, ck::tier(4, 5), [](const std::string& s) { if (ck::mine()) all(s); }); }
DOMAIN(any_bytes) { std::string al; for (int i = 0; i < 256; ++i) if (!(i == ' ' || (i >= 9 && i <= 13))) al.push_back((char)i); ck::strings(al, 0, 2, [](const std::string& s) { if (ck::mine()) all(s); }); }
/// infinity and NaN words in every case, and each of their single-byte edits
DOMAIN(words)
{
    for (std::string w : { "inf", "infinity", "nan", "nan()", "nan(a0_z)", "-inf", "-nan", "-infinity", "-nan(Z9)" }) {
        std::vector<std::size_t> letters; for (std::size_t i = 0; i < w.size(); ++i) if (w[i] >= 'a' && w[i] <= 'z') letters.push_back(i);
        for (int m = 0; m < (1 << letters.size()); ++m) if (ck::mine()) { std::string s = w; for (std::size_t i = 0; i < letters.size(); ++i) if (m >> i & 1) s[letters[i]] = (char)(s[letters[i]] - 32); all(s); }
        for (std::size_t p = 0; p <= w.size(); ++p) { if (p < w.size() && ck::mine()) { std::string t = w; t.erase(p, 1); all(t); }
            for (int c = 0; c < 256; ++c) { if (c == ' ' || (c >= 9 && c <= 13)) continue; if (ck::mine()) { std::string t = w; t.insert(p, 1, (char)c); all(t); if (p < w.size()) { t = w; t[p] = (char)c; all(t); } } } }
    }
}
/// a foreign byte at any position of numerals of any length
DOMAIN(foreign_bytes)
{
    for (int len = 1; len <= ck::tier(45, 80); ++len) for (int point : { -1, 0, 1, 5, 18, 19, 20, 21, 30, len }) for (int p = 0; p <= len; ++p) for (char c : { 'x', '.', '-', '+', ',', '/', ':', '\0', '\xff', 'e', 'E', '_', '(', 'n' }) {
        if (point > len) continue;
        if (!ck::mine()) continue;
        std::string s; for (int i = 0; i < len; ++i) s.push_back((char)('0' + (i * 7 + 1) % 10));
        if (point >= 0) s.insert((std::size_t)point, ".");
        s.insert((std::size_t)p, 1, c); all(s); all(s + "e3"); }
}
/// exponents near the limits of int combined with mantissas of any shape
DOMAIN(extreme_exponents)
{
    for (long long e : { 0LL, 1LL, 37LL, 38LL, 39LL, 45LL, 46LL, 307LL, 308LL, 309LL, 323LL, 324LL, 325LL, 4931LL, 4932LL, 4933LL, 4950LL, 4951LL, 4952LL, 5000LL, 8191LL, 8192LL, 8207LL, 8208LL, 32767LL, 65535LL, 65536LL, 1000000000LL, 2147483639LL, 2147483646LL, 2147483647LL, 2147483648LL, 4294967295LL, 4294967296LL, 9223372036854775807LL })
        for (const char* sg : { "e", "e-", "E+" }) for (int z = 0; z <= 12; ++z) for (const char* m : { "0", "0.", ".0", "00.00", "1", "10", "9.99", "123456789", "1234567890123456789012345", "0.1", "0.00000000000001", ".000000000000000000000000000000000000000000001", "100000000000000000000000000000000000000000", "000000000000000000000000000000000000000000001.5" })
            if (ck::mine()) both(m + (sg + std::string((std::size_t)z, '0') + std::to_string(e)));
}
/// numerals with 1-26 digits, decimal point everywhere, all decimal exponents of the type
static std::string digits(int pat, int len)
{
    std::string s;
    for (int i = 0; i < len; ++i) { int d = 0; switch (pat) { case 0: d = 9; break; case 1: d = i == 0; break; case 2: d = (i == 0 || i == len - 1); break; case 3: d = (i * 7 + 1) % 10; break; case 4: d = i == 0 ? 1 : 9; break; case 5: d = "179769313486231570814527423731704356798070"[i % 40] - '0'; break; case 6: d = (i * i * 3 + i + 2) % 10; break; default: d = i % 2 ? 0 : 5; } s.push_back((char)('0' + d)); }
    return s;
}
DOMAIN(mantissas)
{
    for (int pat = 0; pat < 8; ++pat) for (int len = 1; len <= ck::tier(26, 45); ++len) for (int pt = -1; pt <= len; ++pt) for (int e : { -330, -320, -308, -300, -100, -45, -38, -30, -22, -5, -1, 0, 1, 5, 15, 16, 17, 22, 30, 38, 100, 280, 300, 308 })
        if (ck::mine()) { std::string s = digits(pat, len); if (pt >= 0) s.insert((std::size_t)pt, "."); both(e ? s + "e" + std::to_string(e) : s); }
}
DOMAIN(all_exponents)
{
    for (int e = -4975; e <= 4960; ++e) for (int pat = 0; pat < 8; ++pat) for (int len : { 1, 2, 7, 16, 17, 19, 20, 21, 25 }) {
        if (std::abs(e) > 360 && (len == 2 || len == 16 || len == 25) && !ck::thorough()) continue;
        if (ck::mine()) { std::string s = digits(pat, len); s.insert(1, "."); both(s + "e" + std::to_string(e)); } }
}
/// leading and trailing zeros shift the exponent
DOMAIN(zeros)
{
    for (int lz = 0; lz <= 30; ++lz) for (int fz = 0; fz <= 60; ++fz) for (int tz : { 0, 1, 18, 40 }) for (int e : { -300, -20, 0, 20, 300 }) if (ck::mine()) {
        const std::string ex = e ? "e" + std::to_string(e) : "";
        all(std::string((std::size_t)lz, '0') + "." + std::string((std::size_t)fz, '0') + "123" + std::string((std::size_t)tz, '0') + ex);
        all(std::string((std::size_t)lz, '0') + "7" + std::string((std::size_t)fz, '0') + "." + std::string((std::size_t)tz, '0') + "1" + ex); }
    for (int n : { 300, 330, 400, 4900, 5000, 6000 }) for (int d = -400; d <= 400; d += 5) if (ck::mine()) {
        both("." + std::string((std::size_t)n, '0') + "1e" + std::to_string(n + d)); both("12" + std::string((std::size_t)n, '0') + "e" + std::to_string(d - n)); both(std::string((std::size_t)n, '0') + "1e" + std::to_string(d)); }
}
/// shortest and round-trip representations of values near the limits and powers of two of each type
DOMAIN(float_values)
{
    // all float exponents and sign bits with systematically chosen mantissas
    for (int ex = 0; ex < 255; ++ex) for (int m = 0; m < ck::tier(600, 20000); ++m) if (ck::mine()) {
        const uint32_t man = m < 200 ? (uint32_t)m : m < 400 ? 0x7fffffu - (uint32_t)(m - 200) : (uint32_t)(((uint64_t)m * 2654435761u) & 0x7fffffu);
        const uint32_t bits = (uint32_t)ex << 23 | man; float f; memcpy(&f, &bits, 4);
        char b[64]; snprintf(b, sizeof b, "%.9g", (double)f); one<float>(b); snprintf(b, sizeof b, "%.8e", (double)f); one<float>(b); }
}
DOMAIN(double_values)
{
    for (int ex = 0; ex < 2047; ++ex) for (int m = 0; m < ck::tier(80, 3000); ++m) if (ck::mine()) {
        const uint64_t man = m < 30 ? (uint64_t)m : m < 60 ? 0xfffffffffffffull - (uint64_t)(m - 30) : ((uint64_t)m * 0x9e3779b97f4a7c15ull) >> 12;
        const uint64_t bits = (uint64_t)ex << 52 | man; double f; memcpy(&f, &bits, 8);
        char b[64]; snprintf(b, sizeof b, "%.17g", f); one<double>(b); }
}
DOMAIN(long_double_values)
{
    for (int ex = -16440; ex <= 16383; ex += ck::tier(3, 1)) for (int m = 0; m < ck::tier(12, 60); ++m) if (ck::mine()) {
        const uint64_t man = 0x8000000000000000ull | (m < 4 ? (uint64_t)m : m < 8 ? 0x7fffffffffffffffull - (uint64_t)(m - 4) : ((uint64_t)m * 0x9e3779b97f4a7c15ull) >> 1);
        const long double f = std::ldexp((long double)man, ex - 63);
        char b[64]; snprintf(b, sizeof b, "%.20Le", f); one<long double>(b); }
}
/// numbers of digits beyond those
DOMAIN(huge_length)
{
    for (int n : ck::huge(140000)) if (ck::mine()) {
        const std::string z((std::size_t)n, '0'), d((std::size_t)n, '7');
        both(z + "1.5"); both("-" + z + "7e-3"); both("." + z + "1"); both("1" + z); both("2." + z + "1"); both("." + z + "1e" + std::to_string(n)); both("7" + z + "e-" + std::to_string(n)); both("1e" + z + "5"); both("1e-" + z + "5"); both(d); both("0." + d); both(d + "e-" + std::to_string(n)); both(z); both(z + "." + z); both(z + "x"); both(d + "." + d + "e-" + std::to_string(n) + "."); both("12" + z + "e" + std::to_string(3 - n)); both("1e" + d); both("1e-" + d);
    }
}

// The same in another locale
FOREIGN(small_strings, true);
FOREIGN(words, true);
FOREIGN(any_bytes, true);
FOREIGN(mantissas, true);
FOREIGN(zeros, true);
