// S01: escape / unescape against a hand-written reference on exhaustively enumerated byte strings.
#include "ck.h"
#include "gul14/escape.h"

static std::string ref_escape(const std::string& s)
{
    std::string o;
    for (unsigned char c : s) {
        if (c == '"') o += "\\\"";
        else if (c == '\\') o += "\\\\";
        else if (c == 10) o += "\\n";
        else if (c == 13) o += "\\r";
        else if (c == 9) o += "\\t";
        else if (c >= 32 && c <= 126) o.push_back((char)c);
        else { char b[8]; snprintf(b, sizeof b, "\\x%02x", c); o += b; }
    }
    return o;
}
static int xd(char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
static std::string ref_unescape(const std::string& s)
{
    std::string o;
    for (std::size_t i = 0; i < s.size();) {
        if (s[i] == '\\' && i + 1 < s.size()) {
            const char d = s[i + 1];
            if (d == '"' || d == '\\') { o.push_back(d); i += 2; continue; }
            if (d == 'n') { o.push_back('\n'); i += 2; continue; }
            if (d == 'r') { o.push_back('\r'); i += 2; continue; }
            if (d == 't') { o.push_back('\t'); i += 2; continue; }
            if (d == 'x' && i + 3 < s.size() && xd(s[i + 2]) >= 0 && xd(s[i + 3]) >= 0) { o.push_back((char)(xd(s[i + 2]) * 16 + xd(s[i + 3]))); i += 4; continue; }
        }
        o.push_back(s[i++]);
    }
    return o;
}

static void esc(const std::string& s)
{
    ck::Exact e(s); ck::state(); ck::step(2);
    const std::string got = gul14::escape(gul14::string_view(e.data(), e.size()));
    for (unsigned char c : got) CHECK(c >= 32 && c <= 126, "escape(%s) contains the non-printable byte %u", ck::show(s).c_str(), c);
    CHECK(got == ref_escape(s), "escape(%s) gave %s, expected %s", ck::show(s).c_str(), ck::show(got).c_str(), ck::show(ref_escape(s)).c_str());
    ck::Exact g(got);
    const std::string back = gul14::unescape(gul14::string_view(g.data(), g.size()));
    CHECK(back == s, "unescape(escape(%s)) gave %s", ck::show(s).c_str(), ck::show(back).c_str());
    if (s.size() == 2) ck::sample("escape(%s) = %s", ck::show(s).c_str(), got.c_str());
}
static void unesc(const std::string& s)
{
    ck::Exact e(s); ck::state(); ck::step();
    const std::string got = gul14::unescape(gul14::string_view(e.data(), e.size()));
    CHECK(got == ref_unescape(s), "unescape(%s) gave %s, expected %s", ck::show(s).c_str(), ck::show(got).c_str(), ck::show(ref_unescape(s)).c_str());
}

static std::string all_bytes() { std::string s; for (int i = 0; i < 256; ++i) s.push_back((char)i); return s; }
static const std::string adv("\0\1\7\t\n\r\x1f !\"/0\\A[a]nrtx~\x7f\x80\xff", 25);

DOMAIN(escape_all_bytes) { ck::strings(all_bytes(), 0, 2, [](const std::string& s) { if (ck::mine()) esc(s); }); }
DOMAIN(escape_adversarial) { ck::strings(adv, 3, ck::tier(3, 5), [](const std::string& s) { if (ck::mine()) esc(s); }); }
DOMAIN(escape_three_bytes) { if (ck::thorough()) ck::strings(all_bytes(), 3, 3, [](const std::string& s) { if (ck::mine()) esc(s); }); }
DOMAIN(unescape_tokens) { const std::string a("\\\"nrtx09afgFG\0\n", 15); ck::strings(a, 0, ck::tier(5, 6), [](const std::string& s) { if (ck::mine()) unesc(s); }); }
DOMAIN(unescape_hex) { // every pair of bytes after \x, with and without a following byte
    for (int a = 0; a < 256; ++a) for (int b = 0; b < 256; ++b) if (ck::mine()) {
        std::string s = "\\x"; s.push_back((char)a); s.push_back((char)b);
        unesc(s); unesc(s + "0"); unesc("\\" + s); unesc(s + "\\");
    }
}
DOMAIN(unescape_any_byte) { // every byte after a backslash, every pair of bytes
    for (int a = 0; a < 256; ++a) for (int b = 0; b < 256; ++b) if (ck::mine()) {
        std::string s = "\\"; s.push_back((char)a); s.push_back((char)b); unesc(s); unesc(s.substr(1)); unesc(s.substr(1) + "\\"); unesc("ab\\n" + s + "\\x4");
    }
}
DOMAIN(long_strings) { // every length around the usual buffer sizes, a special character at every place
    for (int len : { 7, 8, 15, 16, 17, 22, 23, 31, 32, 33, 63, 64, 65, 127, 128, 255, 256, 257, 300 })
        for (int pos = 0; pos < len; ++pos) if (ck::mine())
            for (unsigned char c : adv) { std::string s((std::size_t)len, 'k'); s[(std::size_t)pos] = (char)c; esc(s); }
    for (int len : { 1000, 4096, 5000, 65536 }) for (unsigned char c : adv) if (ck::mine()) { esc(std::string((std::size_t)len, (char)c)); unesc(std::string((std::size_t)len, (char)c)); }
    for (int n : { 100, 5000 }) for (const char* t : { "\\", "\\x", "\\x4", "\\x41", "\\n", "a\\", "\\\\x41", "\\xg1", "\\q" }) if (ck::mine()) { std::string s; for (int i = 0; i < n; ++i) s += t; unesc(s); unesc("x" + s); }
}
// Every length: a special character at the start, in the middle and at the end; only special characters; a mix
DOMAIN(every_length) {
    for (int n = 1; n <= 1100; ++n) if (ck::mine()) {
        const std::size_t N = (std::size_t)n; std::string mix, cyc; for (int i = 0; i < n; ++i) { mix.push_back((char)(i * 37 + n)); cyc.push_back(adv[(std::size_t)i % adv.size()]); }
        esc(mix); esc(cyc); unesc(mix); unesc(cyc);
        for (unsigned char c : adv) { std::string s(N, 'k'); s[0] = (char)c; esc(s); s[0] = 'k'; s[N / 2] = (char)c; esc(s); s[N / 2] = 'k'; s[N - 1] = (char)c; esc(s); unesc(s); if (n <= 300) { esc(std::string(N, (char)c)); unesc(std::string(N, (char)c)); } }
        for (const char* t : { "\\x41", "\\xfF", "\\n", "\\q", "\\x4", "\\", "\\\\", "\\x00" }) { unesc(std::string(N, 'k') + t); unesc(std::string(N, 'k') + t + "k"); unesc(t + std::string(N, 'k') + t); }
    }
}
// Lengths beyond those
DOMAIN(huge_length) {
    for (int n : ck::huge()) if (ck::mine()) {
        const std::string K((std::size_t)n, 'k'); std::string mix; for (int i = 0; i < n && i < 70000; ++i) mix.push_back((char)(i * 37 + n));
        esc(mix); esc(K + "\n"); esc("\\" + K + "\""); if (n <= 140000) { unesc(mix); unesc(K + "\\x41"); unesc("\\n" + K + "\\q"); unesc("\\x4" + K); }
        if (n <= 70000) { std::string t; for (int i = 0; i < n; ++i) t += i % 2 ? "\\n" : "\\x7"; unesc(t); esc(std::string((std::size_t)n, '\0')); }
    }
}

// The same in another locale
FOREIGN(unescape_tokens, true);
FOREIGN(unescape_hex, true);
FOREIGN(unescape_any_byte, true);
FOREIGN(every_length, true);
