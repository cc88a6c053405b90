// N01: to_number<integer> and to_number<bool> against a decimal-string reference.
#include "ck.h"
#include "gul14/to_number.h"
#include <limits>
#include <type_traits>
using gul14::string_view; using gul14::to_number;
typedef __int128 big;

static std::string str(big v) { if (v == 0) return "0"; const bool neg = v < 0; std::string s; unsigned __int128 u = neg ? -(unsigned __int128)v : (unsigned __int128)v; while (u) { s.insert(s.begin(), (char)('0' + (int)(u % 10))); u /= 10; } return neg ? "-" + s : s; }
/// Reference: 0 = invalid or out of range, 1 = ok
template <typename T> bool ref(const std::string& s, big& out)
{
    std::string d = s; bool neg = false;
    if (!d.empty() && d[0] == '-' && std::is_signed<T>::value) { neg = true; d.erase(0, 1); }
    if (d.empty()) return false;
    for (char c : d) if (c < '0' || c > '9') return false;
    std::size_t z = 0; while (z + 1 < d.size() && d[z] == '0') ++z;
    d.erase(0, z);
    if (d.size() > 30) return false;
    big v = 0; for (char c : d) v = v * 10 + (c - '0');
    if (neg) v = -v;
    if (v < (big)std::numeric_limits<T>::min() || v > (big)std::numeric_limits<T>::max()) return false;
    out = v; return true;
}
template <typename T> const char* tname();
template <typename T> void one(const std::string& s)
{
    ck::Exact e(s);
    big want = 0; const bool ok = ref<T>(s, want);
    ck::state(); ck::step();
    const gul14::optional<T> r = to_number<T>(string_view(e.data(), e.size()));
    CHECK(r.has_value() == ok, "to_number<%d-byte %s>(%s) %s", (int)sizeof(T), std::is_signed<T>::value ? "signed" : "unsigned", ck::show(s).c_str(), ok ? "is empty" : "has a value");
    if (ok) CHECK((big)*r == want, "to_number<%d-byte %s>(%s) gave %s", (int)sizeof(T), std::is_signed<T>::value ? "signed" : "unsigned", ck::show(s).c_str(), str((big)*r).c_str());
    if (ok && s.size() > 3) ck::sample("to_number<%d-byte %s>(%s) = %s", (int)sizeof(T), std::is_signed<T>::value ? "signed" : "unsigned", ck::show(s).c_str(), str((big)*r).c_str());
}
static void all(const std::string& s)
{
    one<char>(s); one<signed char>(s); one<unsigned char>(s); one<short>(s); one<unsigned short>(s); one<int>(s); one<unsigned>(s);
    one<long>(s); one<unsigned long>(s); one<long long>(s); one<unsigned long long>(s); one<wchar_t>(s); one<char16_t>(s); one<char32_t>(s);
}
DOMAIN(small_strings) { ck::strings("01279-+ .a", 0, ck::tier(4, 5), [](const std::string& s) { if (ck::mine()) all(s); }); }
DOMAIN(any_bytes) { std::string al; for (int i = 0; i < 256; ++i) al.push_back((char)i); ck::strings(al, 0, 2, [](const std::string& s) { if (ck::mine()) all(s); }); }
/// every 8- and 16-bit numeral around and beyond the ranges, with leading zeros
DOMAIN(narrow_values) { const int lim = ck::tier(70000, 1100000); for (int v = 0; v <= lim; ++v) if (ck::mine()) for (const char* sign : { "", "-" }) for (const char* z : { "", "0", "000000000000000000000000" }) all(sign + std::string(z) + std::to_string(v)); }
/// all values near the limits of the types, and near the places where the accumulation could overflow
DOMAIN(boundaries)
{
    const int w = ck::tier(300, 5000);
    for (int bits : { 7, 8, 15, 16, 31, 32, 63, 64 }) for (int m : { 1, 2, 3, 5, 10, 11, 20 }) for (int dv : { 1, 10, 100 }) for (int d = -w; d <= w; ++d) if (ck::mine()) {
        const big v = (((big)1 << bits) * m) / dv + d; if (v < 0) continue;
        const std::string s = str(v);
        all(s); all("-" + s); all("0" + s); all("-0" + s); }
}
DOMAIN(patterns)
{
    for (int len = 1; len <= 45; ++len) for (char a : { '0', '1', '5', '9' }) for (char b : { '0', '1', '5', '9' }) for (int k = 0; k <= len; ++k) if (ck::mine()) {
        const std::string s = std::string((std::size_t)k, a) + std::string((std::size_t)(len - k), b); all(s); all("-" + s); all("+" + s); all("--" + s); }
}
DOMAIN(every_length) { for (int n = 0; n <= 1100; ++n) if (ck::mine()) { const std::string z((std::size_t)n, '0'); for (const char* v : { "", "1", "7", "127", "128", "255", "256", "32768", "65535", "2147483647", "2147483648", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616" }) { all(z + v); all("-" + z + v); all(v + z); all("-" + (v + z)); } all(z + "a"); all("a" + z); all(z + " "); all(std::string((std::size_t)n, '9')); all(std::string((std::size_t)n, '-')); all(std::string((std::size_t)n, '-') + "1"); } }
/// a foreign byte at any position of a long numeral
DOMAIN(foreign_bytes)
{
    for (const char* base : { "7", "12", "127", "00000", "32767", "2147483647", "9223372036854775807", "00000000000000000000000000001", "18446744073709551615", "-1", "-128", "-32768", "-9223372036854775808" })
        for (std::size_t p = 0; p <= strlen(base); ++p) for (int c = 0; c < 256; ++c) if (ck::mine()) { std::string s = base; s.insert(p, 1, (char)c); all(s); if (p < strlen(base)) { s = base; s[p] = (char)c; all(s); } }
}
// ---- bool
static std::string lower(std::string s) { for (char& c : s) if (c >= 'A' && c <= 'Z') c = (char)(c + 32); return s; }
static void boolean(const std::string& s)
{
    ck::Exact e(s);
    const std::string l = lower(s); const int want = (s == "1" || l == "true") ? 1 : (s == "0" || l == "false") ? 0 : -1;
    ck::state(); ck::step();
    const auto r = to_number<bool>(string_view(e.data(), e.size()));
    CHECK((r.has_value() ? (int)*r : -1) == want, "to_number<bool>(%s) gave %d, expected %d", ck::show(s).c_str(), r.has_value() ? (int)*r : -1, want);
}
DOMAIN(bool_short) { std::string al; for (int i = 0; i < 256; ++i) al.push_back((char)i); ck::strings(al, 0, ck::tier(2, 3), [](const std::string& s) { if (ck::mine()) boolean(s); }); }
DOMAIN(bool_letters) { ck::strings("truefalsTRUEFALS01", 0, ck::tier(4, 5), [](const std::string& s) { if (ck::mine()) boolean(s); }); }
DOMAIN(bool_words)
{
    for (std::string w : { "true", "false" }) for (int m = 0; m < (1 << w.size()); ++m) {
        std::string s = w; for (std::size_t i = 0; i < w.size(); ++i) if (m >> i & 1) s[i] = (char)(s[i] - 32);
        if (ck::mine()) boolean(s);
        for (std::size_t p = 0; p <= s.size(); ++p) { if (p < s.size() && ck::mine()) { std::string t = s; t.erase(p, 1); boolean(t); }
            for (int c = 0; c < 256; ++c) if (ck::mine()) { std::string t = s; t.insert(p, 1, (char)c); boolean(t); if (p < s.size()) { t = s; t[p] = (char)c; boolean(t); } } }
    }
}
DOMAIN(huge_length) { for (int n : ck::huge()) if (ck::mine()) { const std::string z((std::size_t)n, '0'); for (const char* v : { "", "1", "127", "128", "65535", "65536", "2147483647", "4294967296", "18446744073709551615", "18446744073709551616" }) { one<int>(z + v); one<unsigned char>(z + v); one<unsigned long long>(z + v); one<long long>("-" + z + v); one<short>("-" + z + v); } one<int>("1" + z); one<int>(z + "x"); one<int>("x" + z); one<unsigned long>("1" + z + "1"); one<int>(std::string((std::size_t)n, '-') + "1"); } }

// The same in another locale
FOREIGN(small_strings, true);
FOREIGN(any_bytes, true);
FOREIGN(boundaries, true);
FOREIGN(narrow_values, true);
FOREIGN(bool_short, true);
FOREIGN(bool_letters, true);
FOREIGN(bool_words, true);
