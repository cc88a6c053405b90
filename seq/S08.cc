// S08: hexdump and hexdump_stream, all forms, compared with an independent renderer and parsed back.
#include "ck.h"
#include "gul14/SmallVector.h"
#include "gul14/hexdump.h"
#include <array>
#include <deque>
#include <forward_list>
#include <limits>
#include <list>
#include <sstream>
#include <vector>
using gul14::string_view;

template <typename T> static std::string render(const std::vector<T>& d, const std::string& prompt)
{
    std::string o; const std::string indent(prompt.size(), ' ');
    const std::size_t shown = d.size() < 16000 ? d.size() : 16000;
    std::size_t row = 0;
    do {
        char b[64]; snprintf(b, sizeof b, "%06zx: ", row * 16);
        o += (row ? indent : prompt) + b;
        std::string text;
        for (std::size_t j = 0; j < 16; ++j) {
            const std::size_t k = row * 16 + j;
            if (k < shown) {
                unsigned long long u = (unsigned long long)d[k]; std::string h;
                for (unsigned i = 0; i < sizeof(T) * 2; ++i) { h.insert(h.begin(), "0123456789abcdef"[u & 15]); u >>= 4; }
                o += h + " ";
                const unsigned char c = (unsigned char)d[k]; text.push_back(c >= 32 && c <= 126 ? (char)c : '.');
            } else if (sizeof(T) == 1) o += "   ";
        }
        if (sizeof(T) == 1) o += " " + text;
        o += "\n"; ++row;
    } while (row * 16 < shown);
    if (shown < d.size()) o += indent + "[output truncated...]\n";
    return o;
}
static void same(const char* what, const std::string& got, const std::string& exp, std::size_t n)
{
    ck::step(); if (got == exp) return;
    std::size_t i = 0; while (i < got.size() && i < exp.size() && got[i] == exp[i]) ++i;
    const std::size_t from = i < 20 ? 0 : i - 20;
    ck::fail("%s of %zu elements: text differs at offset %zu: got %s, expected %s", what, n, i, ck::show(got.substr(from, 60)).c_str(), ck::show(exp.substr(from, 60)).c_str());
}
/// Stream with default formatting
struct Os : std::ostringstream { Os() { imbue(std::locale::classic()); } };
template <typename X> static std::string put(const X& x) { Os s; s << x; return s.str(); }
template <typename X> static std::string out2(X&& x) { Os s; s << "[" << x << x << "]"; return s.str(); }

// all forms for one content
template <typename T> static void forms(const std::vector<T>& d, const std::string& prompt, bool light = false)
{
    const std::string exp = render(d, prompt); const std::size_t n = d.size(); ck::state();
    // exact heap copy
    T* p = static_cast<T*>(::malloc(n ? n * sizeof(T) : 1)); if (n) memcpy(p, d.data(), n * sizeof(T));
    T* e = p + n;
    ck::Exact pe(prompt); const string_view pv(pe.data(), pe.size());
    same("hexdump(pointers)", gul14::hexdump((const T*)p, (const T*)e, pv), exp, n);
    same("hexdump(container)", gul14::hexdump(d, pv), exp, n);
    same("hexdump_stream(pointers)", put(gul14::hexdump_stream((const T*)p, (const T*)e, prompt)), exp, n);
    if (n == 17) ck::sample("%s", exp.c_str());
    if (!light) {
        if (prompt.empty()) { same("hexdump(pointers) without prompt", gul14::hexdump(p, e), exp, n); same("hexdump(container) without prompt", gul14::hexdump(d), exp, n); same("hexdump_stream(container) without prompt", put(gul14::hexdump_stream(d)), exp, n); same("hexdump_stream(iterators) without prompt", put(gul14::hexdump_stream(d.begin(), d.end())), exp, n); }
        same("hexdump(iterators)", gul14::hexdump(d.begin(), d.end(), pv), exp, n);
        const std::list<T> l(d.begin(), d.end()); const std::forward_list<T> f(d.begin(), d.end());
        same("hexdump(list)", gul14::hexdump(l, pv), exp, n); same("hexdump(forward iterators)", gul14::hexdump(f.begin(), f.end(), pv), exp, n);
        same("hexdump_stream(container)", put(gul14::hexdump_stream(d, prompt)), exp, n);
        { auto m = d; same("hexdump_stream(non-const container)", put(gul14::hexdump_stream(m, prompt)), exp, n); }
        same("hexdump_stream(temporary vector)", put(gul14::hexdump_stream(std::vector<T>(d), prompt)), exp, n);
        { // copies and moves of a forwarder that owns its data
            auto make = [&] { return gul14::hexdump_stream(std::vector<T>(d), prompt); };
            auto a = make(); auto b = a; auto c = std::move(a);
            same("copied forwarder", put(b), exp, n); same("moved forwarder", put(c), exp, n);
            auto q = gul14::hexdump_stream(std::vector<T>(3, T(7)), "other"); q = b; same("copy-assigned forwarder", put(q), exp, n); same("source of copy", put(b), exp, n);
            auto r = gul14::hexdump_stream(std::vector<T>(3, T(7)), "other"); r = std::move(q); same("move-assigned forwarder", put(r), exp, n); auto& rr = r; r = rr; same("self-assigned forwarder", put(r), exp, n); r = std::move(rr); same("self-moved forwarder", put(r), exp, n);
        }
        { // forwarders that refer to foreign data
            using F = gul14::HexdumpParameterForward<typename std::vector<T>::const_iterator>;
            F u(d.begin(), d.begin(), "other", nullptr); const F w(d.begin(), d.end(), prompt, nullptr); u = w; same("copy-assigned forwarder of iterators", put(u), exp, n);
            F x(d.begin(), d.begin(), "other", nullptr); x = std::move(u); same("move-assigned forwarder of iterators", put(x), exp, n); F y(x); F z(std::move(x)); same("copied forwarder of iterators", put(y), exp, n); same("moved forwarder of iterators", put(z), exp, n); }
        { // small buffers inside of the container: iterators must be regenerated
            gul14::SmallVector<T, 20> s; for (T x : d) s.push_back(x); if (n <= 40) {
                using It = decltype(s.cbegin());
                gul14::HexdumpParameterForward<It, gul14::SmallVector<T, 20>> a(s.cbegin(), s.cbegin(), prompt, gul14::SmallVector<T, 20>(s)); s.clear();
                same("forwarder with SmallVector", put(a), exp, n); auto b = a; auto c = std::move(a); same("copy", put(b), exp, n); same("move", put(c), exp, n); } }
        { Os s; auto fw = gul14::hexdump_stream(std::vector<T>(d), prompt); s << "[" << fw << "|" << fw << "]"; same("chained output", s.str(), "[" + exp + "|" + exp + "]", n); }
    }
    ::free(p);
}
static void strings_as_container(const std::string& d, const std::string& prompt)
{
    std::vector<char> v(d.begin(), d.end()); const std::string exp = render(v, prompt); ck::state();
    same("hexdump(std::string)", gul14::hexdump(d, prompt), exp, d.size());
    ck::Exact e(d); same("hexdump(string_view)", gul14::hexdump(string_view(e.data(), e.size()), prompt), exp, d.size());
    same("hexdump_stream(temporary string)", put(gul14::hexdump_stream(std::string(d), prompt)), exp, d.size());
    auto a = gul14::hexdump_stream(std::string(d), prompt); auto b = a; auto c = std::move(a); same("copied forwarder with string", put(b), exp, d.size()); same("moved forwarder with string", put(c), exp, d.size());
    b = gul14::hexdump_stream(std::string("zz"), "q"); b = c; same("assigned forwarder with string", put(b), exp, d.size());
    std::stringstream both; both.imbue(std::locale::classic()); both << gul14::hexdump_stream(d, prompt); same("stringstream", both.str(), exp, d.size());
}
static const char* prompts[] = { "", "p", "debug -> ", "a prompt that is longer than any small buffer " };

template <typename T> static void lengths(int max)
{
    for (int n = 0; n <= max; ++n) for (const char* p : prompts) if (ck::mine()) {
        std::vector<T> d; for (int i = 0; i < n; ++i) d.push_back((T)((unsigned long long)(i * 37 + 5) * 0x0102040810204081ull)); forms(d, p); }
}
DOMAIN(lengths_char) { lengths<char>(ck::tier(300, 600)); lengths<unsigned char>(ck::tier(40, 300)); lengths<signed char>(ck::tier(40, 300)); }
DOMAIN(lengths_wide) { lengths<short>(40); lengths<unsigned short>(ck::tier(80, 300)); lengths<int>(ck::tier(80, 300)); lengths<unsigned>(40); lengths<long>(40); lengths<long long>(40); lengths<unsigned long long>(ck::tier(80, 300)); lengths<char16_t>(20); lengths<char32_t>(20); lengths<wchar_t>(20); }
DOMAIN(byte_pairs) { for (int a = 0; a < 256; ++a) for (int b = 0; b < 256; ++b) if (ck::mine()) { forms(std::vector<char>{ (char)a, (char)b }, "", true); if (a % 16 == 3) strings_as_container(std::string{ (char)a, (char)b }, "x"); } }
DOMAIN(wide_values) {
    auto go = [](auto z) { using T = decltype(z); for (unsigned b = 0; b < sizeof(T) * 8; ++b) for (int o = -1; o <= 1; ++o) if (ck::mine()) { const unsigned long long u = (1ull << b) + (unsigned long long)(long long)o; forms(std::vector<T>{ (T)u, (T)(0 - u), std::numeric_limits<T>::min(), std::numeric_limits<T>::max() }, "", true); } };
    go(short()); go((unsigned short)0); go(int()); go(0u); go(0l); go(0ul); go(0ll); go(0ull); go((signed char)0); go((unsigned char)0);
}
DOMAIN(strings) { for (int n = 0; n <= 40; ++n) for (const char* p : prompts) if (ck::mine()) { std::string s; for (int i = 0; i < n; ++i) s.push_back((char)(i * 29 + n)); strings_as_container(s, p); } }
DOMAIN(truncation) { // around the documented limit of 1000 rows
    for (int n : { 255 * 16, 256 * 16 + 1, 15983, 15984, 15985, 15999, 16000, 16001, 16015, 16016, 16017, 20000 }) for (const char* p : { "", "pp" }) if (ck::mine()) {
        std::vector<unsigned char> c; std::vector<unsigned> w; for (int i = 0; i < n; ++i) { c.push_back((unsigned char)(i * 7)); w.push_back((unsigned)i * 2654435761u); } forms(c, p, true); forms(w, p, true);
        forms(std::vector<short>(w.begin(), w.end()), p, true); std::string s(c.begin(), c.end()); strings_as_container(s, p); }
}

// The same in another global locale
FOREIGN(lengths_char, false);
FOREIGN(lengths_wide, false);
FOREIGN(byte_pairs, false);
FOREIGN(wide_values, false);
FOREIGN(strings, false);
FOREIGN(truncation, false);
