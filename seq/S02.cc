// S02: split / split_sv / regex split / join against a leftmost non-overlapping reference.
#include "ck.h"
#include "gul14/join_split.h"
#include "gul14/SmallVector.h"
#include <deque>
#include <forward_list>
#include <functional>
#include <list>
#include <queue>
#include <regex>
#include <set>
using gul14::string_view;
using Pieces = std::vector<std::pair<std::size_t, std::size_t>>; // offset, length

static Pieces ref(const std::string& t, const std::string& d)
{
    Pieces r; std::size_t from = 0;
    if (d.empty()) { // between all characters and at both ends
        r.emplace_back(0, 0); for (std::size_t i = 0; i < t.size(); ++i) r.emplace_back(i, 1); r.emplace_back(t.size(), 0); return r;
    }
    for (std::size_t i = 0; i + d.size() <= t.size();) {
        bool m = true; for (std::size_t k = 0; k < d.size(); ++k) if (t[i + k] != d[k]) m = false;
        if (m) { r.emplace_back(from, i - from); i += d.size(); from = i; } else ++i;
    }
    r.emplace_back(from, t.size() - from);
    return r;
}
template <typename C> static void cmp_sv(const char* f, const C& c, const Pieces& r, const ck::Exact& e, const std::string& t, const std::string& d)
{
    std::size_t i = 0; bool ok = (std::size_t)std::distance(c.begin(), c.end()) == r.size();
    if (ok) for (auto& x : c) { if (x.data() != e.data() + r[i].first || x.size() != r[i].second) ok = false; ++i; }
    CHECK(ok, "%s(%s, %s): pieces are not the expected %zu views into the text", f, ck::show(t).c_str(), ck::show(d).c_str(), r.size());
}
template <typename C> static void cmp_str(const char* f, const C& c, const Pieces& r, const std::string& t, const std::string& d)
{
    std::size_t i = 0; bool ok = (std::size_t)std::distance(c.begin(), c.end()) == r.size();
    if (ok) for (auto& x : c) { if (std::string(x) != t.substr(r[i].first, r[i].second)) ok = false; ++i; }
    CHECK(ok, "%s(%s, %s): pieces differ from the expected %zu", f, ck::show(t).c_str(), ck::show(d).c_str(), r.size());
}
static void one(const std::string& t, const std::string& d)
{
    ck::Exact e(t), x(d); const string_view v(e.data(), e.size()), dv(x.data(), x.size());
    const Pieces r = ref(t, d); ck::state(); ck::step(9);
    auto a = gul14::split(v, dv); static_assert(std::is_same<decltype(a), std::vector<std::string>>::value, ""); cmp_str("split", a, r, t, d);
    auto b = gul14::split_sv(v, dv); static_assert(std::is_same<decltype(b), std::vector<string_view>>::value, ""); cmp_sv("split_sv", b, r, e, t, d);
    cmp_sv("split<list<sv>>", gul14::split<std::list<string_view>>(v, dv), r, e, t, d);
    cmp_str("split_sv<SmallVector<string>>", gul14::split_sv<gul14::SmallVector<std::string, 2>>(v, dv), r, t, d);
    cmp_str("split<vector> with inserter", gul14::split<std::vector<std::string>>(v, dv, [](std::vector<std::string>& c, string_view p) { c.emplace_back(p); }), r, t, d);
    { std::multiset<std::string> m; for (auto& p : r) m.insert(t.substr(p.first, p.second)); CHECK(gul14::split<std::multiset<std::string>>(v, dv) == m, "split<multiset>(%s, %s): wrong pieces", ck::show(t).c_str(), ck::show(d).c_str()); }
    if (d.size() == 1 && d[0] != 0) { std::string z = d; cmp_sv("split_sv with C string delimiter", gul14::split_sv(v, z.c_str()), r, e, t, d); }
    CHECK(gul14::join(a, dv) == t, "join(split(%s, %s)) gave %s", ck::show(t).c_str(), ck::show(d).c_str(), ck::show(gul14::join(a, dv)).c_str());
    CHECK(gul14::join(b.begin(), b.end(), dv) == t, "join(split_sv(%s, %s)) gave %s", ck::show(t).c_str(), ck::show(d).c_str(), ck::show(gul14::join(b, dv)).c_str());
    CHECK(std::string(e.data(), e.size()) == t, "split modified its input");
    if (r.size() == 3 && d.size() == 2) ck::sample("split(%s, %s): %zu pieces", ck::show(t).c_str(), ck::show(d).c_str(), r.size());
}
static const std::string al("ab,\0\xff", 5);
DOMAIN(split_small) { ck::strings(al, 0, ck::tier(5, 6), [](const std::string& t) { ck::strings(al, 0, 2, [&](const std::string& d) { if (ck::mine()) one(t, d); }); }); }
DOMAIN(split_self_overlap) { ck::strings("ab", 0, ck::tier(9, 11), [](const std::string& t) { ck::strings("ab", 1, 4, [&](const std::string& d) { if (ck::mine()) one(t, d); }); }); }
DOMAIN(split_any_byte) { for (int a = 0; a < 256; ++a) for (int b = 0; b < 256; ++b) if (ck::mine()) { std::string t("x"), d; t.push_back((char)a); t.push_back((char)b); t.push_back((char)a); d.push_back((char)b); one(t, d); one(t, d + "x"); } }
DOMAIN(split_long) {
    for (int len : { 15, 16, 17, 31, 32, 33, 64, 100, 256, 300 }) for (int p = 0; p < len; p += 1 + len / 64) for (const char* d : { "D", "DE", "....", ".", "" }) if (ck::mine()) {
        std::string t((std::size_t)len, '.'); t.replace((std::size_t)p, 1, "DE"); t[0] = p % 2 ? 'D' : '.'; one(t, d); one(t, t); one(t, t + "x"); one(t, t.substr(1)); }
}

// ---- regular expressions: hand-written matchers, iterated like a regex iterator
using Matcher = std::function<int(const std::string&, std::size_t, bool not_null)>; // length or -1
static int run(const std::string& t, std::size_t p, char c) { int n = 0; while (p + (std::size_t)n < t.size() && t[p + (std::size_t)n] == c) ++n; return n; }
static Pieces ref_re(const std::string& t, const Matcher& m)
{
    Pieces r; std::size_t from = 0, pos = 0; bool after_empty = false;
    for (;;) {
        int len = -1; std::size_t at = pos;
        if (after_empty) { // same position, non-empty, else continue behind the next character
            if (pos == t.size()) break;
            len = m(t, pos, true);
            if (len < 0) ++at;
        }
        if (len < 0) for (; at <= t.size(); ++at) { len = m(t, at, false); if (len >= 0) break; }
        if (len < 0) break;
        r.emplace_back(from, at - from); from = pos = at + (std::size_t)len; after_empty = len == 0;
    }
    r.emplace_back(from, t.size() - from);
    return r;
}
struct Re { const char* pattern; Matcher m; };
static const std::vector<Re>& regexes()
{
    static const std::vector<Re> v = {
        { "a", [](const std::string& t, std::size_t p, bool) { return p < t.size() && t[p] == 'a' ? 1 : -1; } },
        { "aa", [](const std::string& t, std::size_t p, bool) { return run(t, p, 'a') >= 2 ? 2 : -1; } },
        { "a+", [](const std::string& t, std::size_t p, bool) { int n = run(t, p, 'a'); return n ? n : -1; } },
        { "a*", [](const std::string& t, std::size_t p, bool nn) { int n = run(t, p, 'a'); return n || !nn ? n : -1; } },
        { "a?", [](const std::string& t, std::size_t p, bool nn) { int n = run(t, p, 'a') ? 1 : 0; return n || !nn ? n : -1; } },
        { "[ab]", [](const std::string& t, std::size_t p, bool) { return p < t.size() && (t[p] == 'a' || t[p] == 'b') ? 1 : -1; } },
        { "[^a]", [](const std::string& t, std::size_t p, bool) { return p < t.size() && t[p] != 'a' ? 1 : -1; } },
        { "ab|b", [](const std::string& t, std::size_t p, bool) { return p + 1 < t.size() && t[p] == 'a' && t[p + 1] == 'b' ? 2 : p < t.size() && t[p] == 'b' ? 1 : -1; } },
        { "(a)(b)", [](const std::string& t, std::size_t p, bool) { return p + 1 < t.size() && t[p] == 'a' && t[p + 1] == 'b' ? 2 : -1; } },
        { ",a*", [](const std::string& t, std::size_t p, bool) { return p < t.size() && t[p] == ',' ? 1 + run(t, p + 1, 'a') : -1; } },
        { "^a", [](const std::string& t, std::size_t p, bool) { return p == 0 && !t.empty() && t[0] == 'a' ? 1 : -1; } },
        { "a$", [](const std::string& t, std::size_t p, bool) { return p + 1 == t.size() && t[p] == 'a' ? 1 : -1; } },
        { "", [](const std::string&, std::size_t, bool nn) { return nn ? -1 : 0; } },
        { "x", [](const std::string&, std::size_t, bool) { return -1; } },
    };
    return v;
}
static void re(const std::string& t, const Re& x, const std::regex& rx)
{
    ck::Exact e(t); const string_view v(e.data(), e.size()); const Pieces r = ref_re(t, x.m); ck::state(); ck::step(3);
    cmp_str("split by regex", gul14::split(v, rx), r, t, x.pattern);
    cmp_sv("split<vector<sv>> by regex", gul14::split<std::vector<string_view>>(v, rx), r, e, t, x.pattern);
    cmp_str("split by regex with inserter", gul14::split<std::list<std::string>>(v, rx, [](std::list<std::string>& c, string_view p) { c.emplace_back(p); }), r, t, x.pattern);
    if (r.size() == 4) ck::sample("split(%s, regex %s): %zu pieces", ck::show(t).c_str(), x.pattern, r.size());
}
DOMAIN(split_regex) {
    for (auto& x : regexes()) { std::regex rx{ x.pattern };
        ck::strings(std::string("ab,\0\xff", 5), 0, 4, [&](const std::string& t) { if (ck::mine()) re(t, x, rx); });
        ck::strings("ab,", 5, ck::tier(6, 8), [&](const std::string& t) { if (ck::mine()) re(t, x, rx); });
        for (int n : { 16, 17, 50, 300 }) for (const char* u : { "a", "b", "ab", "b,a", "aab" }) if (ck::mine()) { std::string t; for (int i = 0; i < n; ++i) t += u; re(t, x, rx); } }
}

// ---- join
template <typename C> static void j(const C& c, const std::string& exp, string_view glue, const char* name)
{
    ck::step(2);
    CHECK(gul14::join(c, glue) == exp, "join(%s, %s) gave %s, expected %s", name, ck::show(std::string(glue)).c_str(), ck::show(gul14::join(c, glue)).c_str(), ck::show(exp).c_str());
    CHECK(gul14::join(c.begin(), c.end(), glue) == exp, "join(%s iterators, %s) gave %s, expected %s", name, ck::show(std::string(glue)).c_str(), ck::show(gul14::join(c.begin(), c.end(), glue)).c_str(), ck::show(exp).c_str());
}
static void joins(const std::vector<std::string>& parts, const std::string& glue)
{
    std::string exp; bool first = true; for (auto& p : parts) { if (!first) exp += glue; exp += p; first = false; }
    ck::Exact g(glue); const string_view gv(g.data(), g.size()); ck::state();
    std::vector<string_view> sv; for (auto& p : parts) sv.emplace_back(p.data(), p.size());
    j(parts, exp, gv, "vector<string>"); j(sv, exp, gv, "vector<string_view>");
    j(std::list<std::string>(parts.begin(), parts.end()), exp, gv, "list<string>"); j(std::deque<string_view>(sv.begin(), sv.end()), exp, gv, "deque<string_view>");
    j(std::forward_list<std::string>(parts.begin(), parts.end()), exp, gv, "forward_list<string>");
    gul14::SmallVector<std::string, 2> s; for (auto& p : parts) s.push_back(p); j(s, exp, gv, "SmallVector<string>");
    if (parts.size() == 3) ck::sample("join of 3 with %s = %s", ck::show(glue).c_str(), ck::show(exp).c_str());
}
DOMAIN(join_small) {
    std::vector<std::string> pool; ck::strings(std::string("a,\0", 3), 0, 2, [&](const std::string& s) { pool.push_back(s); }); pool.push_back(std::string(40, 'L'));
    ck::strings(std::string("a,\0", 3), 0, 2, [&](const std::string& g) {
        if (ck::mine()) joins({}, g);
        for (auto& a : pool) { if (ck::mine()) joins({ a }, g); for (auto& b : pool) { if (ck::mine()) joins({ a, b }, g); for (auto& c : pool) if (ck::mine()) joins({ a, b, c }, g); } } });
}
DOMAIN(join_many) { for (int n : { 4, 5, 8, 16, 17, 33, 100, 1000 }) for (int gl : { 0, 1, 2, 15, 16, 40 }) for (int pl : { 0, 1, 15, 16, 40 }) if (ck::mine()) { std::vector<std::string> v; for (int i = 0; i < n; ++i) v.push_back(std::string((std::size_t)(i % 3 == 2 ? pl : (i % 5)), (char)('a' + i % 26))); joins(v, std::string((std::size_t)gl, '-')); } }
// Every length of text, piece, delimiter and list
DOMAIN(every_length) {
    for (int n = 0; n <= 1100; ++n) if (ck::mine()) {
        const std::string L((std::size_t)n, 'y'), Z((std::size_t)n, '\0');
        one(L + "," + L, ","); one("," + L, ","); one(L + ",", ","); one(L + "," + L + ",," + L, ",,"); one(Z + "a" + Z, "a"); one(Z + "a", std::string(1, '\0')); one(L, "y"); one(L, "yy"); one(L, "yyy"); if (n) { one("x" + L + "x" + L, L); one(L + L + L, L); one(L + L + "y", L + "y"); one("x" + L + "z" + L + "x", L + "x"); }
        if (n <= 300) { std::vector<std::string> v, w, z; for (int i = 0; i < n; ++i) { v.push_back(std::string((std::size_t)(i % 4), (char)('a' + i % 26))); w.push_back(""); z.push_back(std::string("\0x", 2)); } joins(v, ", "); joins(w, "-"); joins(z, std::string(1, '\0')); joins(v, ""); }
        joins({ L, "", Z }, "+"); joins({ "a", "b", "c" }, L); joins({ "", L }, Z);
    }
}
// Lengths and numbers of pieces beyond those
DOMAIN(huge_length) {
    for (int n : ck::huge()) if (ck::mine()) {
        const std::string L((std::size_t)n, 'y');
        one(L + "," + L, ","); one("," + L + ",,", ",,"); joins({ L, "", "x" }, "+"); joins({ "a", "b" }, L); joins({ "", L, L }, L);
    }
    for (int n : ck::huge(140000)) if (ck::mine()) { std::string s; for (int i = 0; i < n; ++i) s += i % 3 ? "a," : ",b"; one(s, ","); one(s, "a,"); if (n < 11000) one(s, ""); }
    for (int n : ck::huge(140000)) if (ck::mine()) { std::vector<std::string> v; for (int i = 0; i < n; ++i) v.push_back(std::string((std::size_t)(i % 4), (char)('a' + i % 26))); joins(v, ", "); joins(v, ""); }
    for (int n : ck::huge(70000)) if (ck::mine()) { const Re& x = regexes()[0]; std::regex rx{ x.pattern }; std::string s; for (int i = 0; i < n; ++i) s += i % 3 ? "ab" : "cc"; re(s, x, rx); re(std::string((std::size_t)n, 'y') + "a" + std::string((std::size_t)n, 'y'), x, rx); }
}

// The same in another locale
FOREIGN(split_small, true);
FOREIGN(split_regex, true);
FOREIGN(join_small, true);
