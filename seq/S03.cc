// S03: tokenize / tokenize_sv against a character-by-character reference.
#include "ck.h"
#include "gul14/tokenize.h"
#include "gul14/SmallVector.h"
#include <deque>
#include <list>
#include <queue>
#include <set>
#include <string>
#include <utility>
#include <vector>
using gul14::string_view;

static std::vector<std::pair<std::size_t, std::size_t>> ref(const std::string& s, const std::string& d)
{
    std::vector<std::pair<std::size_t, std::size_t>> r;
    bool in = false;
    for (std::size_t i = 0; i < s.size(); ++i) {
        bool del = false; for (char c : d) if (c == s[i]) del = true;
        if (!del) { if (in) ++r.back().second; else r.emplace_back(i, 1); }
        in = !del;
    }
    return r;
}
static const std::string ws("\x07\x08\x09\x0a\x0b\x0c\x0d\x20", 8);

static void one(const std::string& s, const std::string& d, bool def = false)
{
    ck::Exact e(s), x(d);
    const string_view v(e.data(), e.size()), dv(x.data(), x.size());
    const auto r = ref(s, d);
    ck::state();
    auto bad = [&](const char* what, std::size_t n) { ck::fail("%s(%s, %s): wrong tokens (%zu tokens, expected %zu)", what, ck::show(s).c_str(), def ? "default" : ck::show(d).c_str(), n, r.size()); };
    auto text = [&](std::size_t i) { return s.substr(r[i].first, r[i].second); };
    {
        auto t = def ? gul14::tokenize(v) : gul14::tokenize(v, dv);
        static_assert(std::is_same<decltype(t), std::vector<std::string>>::value, "default return type");
        if (t.size() != r.size()) bad("tokenize", t.size());
        for (std::size_t i = 0; i < r.size(); ++i) if (t[i] != text(i)) bad("tokenize", t.size());
    }
    {
        auto t = def ? gul14::tokenize_sv(v) : gul14::tokenize_sv(v, dv);
        static_assert(std::is_same<decltype(t), std::vector<string_view>>::value, "default return type");
        if (t.size() != r.size()) bad("tokenize_sv", t.size());
        for (std::size_t i = 0; i < r.size(); ++i) if (t[i].data() != e.data() + r[i].first || t[i].size() != r[i].second) bad("tokenize_sv", t.size());
    }
    {
        std::list<string_view> t = def ? gul14::tokenize<std::list<string_view>>(v) : gul14::tokenize<std::list<string_view>>(v, dv);
        std::size_t i = 0; if (t.size() != r.size()) bad("tokenize<list<sv>>", t.size());
        for (auto& a : t) { if (a.data() != e.data() + r[i].first || a.size() != r[i].second) bad("tokenize<list<sv>>", t.size()); ++i; }
    }
    {
        auto t = gul14::tokenize_sv<gul14::SmallVector<std::string, 2>>(v, dv);
        if (t.size() != r.size()) bad("tokenize_sv<SmallVector<string>>", t.size());
        for (std::size_t i = 0; i < r.size(); ++i) if (t[i] != text(i)) bad("tokenize_sv<SmallVector<string>>", t.size());
    }
    {
        auto t = gul14::tokenize<std::queue<std::string>>(v, dv, [](std::queue<std::string>& c, string_view p) { c.emplace(p); });
        if (t.size() != r.size()) bad("tokenize with inserter", t.size());
        for (std::size_t i = 0; i < r.size(); ++i) { if (t.front() != text(i)) bad("tokenize with inserter", t.size()); t.pop(); }
    }
    {
        auto t = gul14::tokenize_sv<std::multiset<std::string>>(v, dv); // container without emplace_back
        std::multiset<std::string> m; for (std::size_t i = 0; i < r.size(); ++i) m.insert(text(i));
        if (t != m) bad("tokenize_sv<multiset>", t.size());
    }
    if (std::string(e.data(), e.size()) != s) ck::fail("tokenize changed its input %s", ck::show(s).c_str());
    ck::step(6);
    if (r.size() == 2) ck::sample("tokenize(%s, %s): %zu tokens", ck::show(s).c_str(), ck::show(d).c_str(), r.size());
}

static const std::string al("a,\0 \xff\x80", 6);
DOMAIN(all_pairs) { ck::strings(al, 0, 4, [](const std::string& s) { ck::strings(al, 0, ck::tier(2, 3), [&](const std::string& d) { if (ck::mine()) one(s, d); }); }); }
DOMAIN(longer) { ck::strings("ab,", 5, ck::tier(8, 11), [](const std::string& s) { if (ck::mine()) { one(s, ","); one(s, "b,"); one(s, ""); } }); }
DOMAIN(default_delimiters) {
    for (int a = 0; a < 256; ++a) for (int b = 0; b < 256; ++b) if (ck::mine()) { std::string s; s.push_back((char)a); s.push_back((char)b); one(s, ws, true); one("x" + s + "y", ws, true); }
}
DOMAIN(any_delimiter_byte) {
    for (int a = 0; a < 256; ++a) for (int b = 0; b < 256; ++b) if (ck::mine()) { std::string s("p"); s.push_back((char)a); s += "q"; std::string d; d.push_back((char)b); one(s, d); one(s, d + "z"); }
}
DOMAIN(many_delimiters) { // delimiter sets of every size
    std::string d; for (int n = 0; n <= 256; ++n) { for (int b = 0; b < 256; ++b) if (ck::mine()) { std::string s; s.push_back((char)b); one("\x01" + s + "\xfe" + s, d); } d.push_back((char)((n * 37 + 11) & 255)); }
}
DOMAIN(long_strings) {
    for (int len : { 15, 16, 17, 31, 32, 33, 64, 100, 255, 256, 257 }) for (int p = 0; p < len; ++p) for (int q = p; q < len; q += 1 + len / 16) if (ck::mine()) {
        std::string s((std::size_t)len, 'w'); s[(std::size_t)p] = ';'; s[(std::size_t)q] = ' '; one(s, "; "); one(s, ";"); std::string t(s); for (auto& c : t) c = c == 'w' ? ' ' : 'w'; one(t, " "); }
    for (int n : { 1, 2, 3, 50, 300, 1000 }) if (ck::mine()) { std::string s; for (int i = 0; i < n; ++i) s += "ab,"; one(s, ","); one(s, "ab"); one(s + "c", ","); }
}
// Every length of tokens and of runs of delimiters, every number of tokens
DOMAIN(every_length) {
    for (int n = 0; n <= 1100; ++n) if (ck::mine()) {
        const std::string L((std::size_t)n, 'y'), S((std::size_t)n, ' '), Z((std::size_t)n, '\0');
        one(L, " "); one(L + " " + L, " "); one(" " + L + "  a", " "); one(S + "a" + S + "b" + S, " "); one("a" + S + "b", " "); one(S, " "); one(Z + "a" + Z, std::string(1, '\0')); one(Z + " " + Z, " "); std::string s; for (int i = 0; i < n; ++i) s += i % 3 ? "ab," : "c,,"; one(s, ","); one(s + "d", ",");
    }
}
// Lengths and numbers of tokens beyond those
DOMAIN(huge_length) {
    for (int n : ck::huge()) if (ck::mine()) { const std::string L((std::size_t)n, 'y'), S((std::size_t)n, ' '); one(L + " " + L, " "); one(S + "a" + S + "b" + S, " "); one(L + ",;" + L + ";", ",;"); }
    for (int n : ck::huge(140000)) if (ck::mine()) { std::string s; for (int i = 0; i < n; ++i) s += i % 3 ? "ab," : "c,,"; one(s, ","); one(s + "d", ","); }
}

// The same in another locale
FOREIGN(all_pairs, true);
FOREIGN(default_delimiters, true);
