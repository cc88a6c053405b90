// C08: basic_string_view against std::basic_string of the same content, for all character types.
#include "ck.h"
#include "gul14/string_view.h"
#include <iomanip>
#include <sstream>
#include <stdexcept>
#include <memory>
#include <type_traits>

template <typename C> struct Buf // exact heap copy, so that any stray access is detected
{
    C* p; std::size_t n;
    explicit Buf(const std::basic_string<C>& s) : n(s.size()) { p = static_cast<C*>(::malloc(n ? n * sizeof(C) : 1)); for (std::size_t i = 0; i < n; ++i) p[i] = s[i]; }
    Buf(const Buf&) = delete; ~Buf() { ::free(p); }
    gul14::basic_string_view<C> view() const { return gul14::basic_string_view<C>(p, n); }
};
static int sgn(int x) { return x < 0 ? -1 : x > 0; }
template <typename C> static std::string sh(const std::basic_string<C>& s) { std::string o = "\""; for (C c : s) { char b[16]; if ((unsigned long)c > 32 && (unsigned long)c < 127) o.push_back((char)c); else { snprintf(b, sizeof b, "\\x%lx", (unsigned long)c & 0xfffffffful); o += b; } } return o + "\""; }
static std::string ps(std::size_t p) { return p == (std::size_t)-1 ? "npos" : std::to_string(p); }

// compare value or out_of_range exception
template <typename A, typename F, typename G> static void eq(const char* what, const A& args, F f, G g)
{
    long a = 0, b = 0; bool ta = false, tb = false;
    try { a = (long)f(); } catch (const std::out_of_range&) { ta = true; }
    try { b = (long)g(); } catch (const std::out_of_range&) { tb = true; }
    ck::step();
    CHECK(ta == tb && (ta || a == b), "%s(%s): view %s, std::string %s", what, args().c_str(), ta ? "throws" : std::to_string(a).c_str(), tb ? "throws" : std::to_string(b).c_str());
}
static std::vector<std::size_t> positions(std::size_t n)
{
    std::vector<std::size_t> v; for (std::size_t i = 0; i <= n + 2; ++i) v.push_back(i);
    const std::size_t m = (std::size_t)-1; v.insert(v.end(), { m, m - 1, m - n, m - n + 1, m / 2, m / 2 + 1 }); return v;
}
// few representative positions for products of several of them
static std::vector<std::size_t> few(std::size_t n) { std::vector<std::size_t> v{ 0, n, n + 1, (std::size_t)-1 }; if (n > 1) v.push_back(1); return v; }
static std::vector<std::size_t> counts(std::size_t n) { std::vector<std::size_t> v; for (std::size_t i = 0; i <= n + 1; ++i) v.push_back(i); v.push_back((std::size_t)-1); v.push_back((std::size_t)-2); v.push_back((std::size_t)-1 - n); return v; }
static std::vector<std::size_t> starts(std::size_t n) { std::vector<std::size_t> v; for (std::size_t i = 0; i <= n + 1; ++i) v.push_back(i); v.push_back((std::size_t)-1); return v; }
template <typename C> static void search(const std::basic_string<C>& s, const std::basic_string<C>& t, bool zero_terminated)
{
    Buf<C> bs(s), bt(t); const auto v = bs.view(), w = bt.view(); ck::state();
    const std::string a0 = sh(s) + ", " + sh(t);
    std::unique_ptr<Buf<C>> z; if (zero_terminated) z.reset(new Buf<C>(t + C{}));
#define ALL(f) do { \
    CHECK(v.f(w) == s.f(t), #f "(%s): view %s, std::string %s", a0.c_str(), ps(v.f(w)).c_str(), ps(s.f(t)).c_str()); ck::step(); \
    if (t.size() == 1) CHECK(v.f(t[0]) == s.f(t[0]), #f "(%s as char): view %s, std::string %s", a0.c_str(), ps(v.f(t[0])).c_str(), ps(s.f(t[0])).c_str()); \
    if (z) CHECK(v.f(z->p) == s.f(t), #f "(%s as C string): view %s, std::string %s", a0.c_str(), ps(v.f(z->p)).c_str(), ps(s.f(t)).c_str()); \
    for (std::size_t p : positions(s.size())) { \
        CHECK(v.f(w, p) == s.f(t, p), #f "(%s, %s): view %s, std::string %s", a0.c_str(), ps(p).c_str(), ps(v.f(w, p)).c_str(), ps(s.f(t, p)).c_str()); ck::step(); \
        if (t.size() == 1) CHECK(v.f(t[0], p) == s.f(t[0], p), #f "(%s as char, %s): view %s, std::string %s", a0.c_str(), ps(p).c_str(), ps(v.f(t[0], p)).c_str(), ps(s.f(t[0], p)).c_str()); \
        if (z) CHECK(v.f(z->p, p) == s.f(t, p), #f "(%s as C string, %s): view %s", a0.c_str(), ps(p).c_str(), ps(v.f(z->p, p)).c_str()); \
        for (std::size_t n = 0; n <= t.size(); ++n) CHECK(v.f(bt.p, p, n) == s.f(t.data(), p, n), #f "(%s, pos %s, n %zu): view %s, std::string %s", a0.c_str(), ps(p).c_str(), n, ps(v.f(bt.p, p, n)).c_str(), ps(s.f(t.data(), p, n)).c_str()); \
    } } while (0)
    ALL(find); ALL(rfind); ALL(find_first_of); ALL(find_last_of); ALL(find_first_not_of); ALL(find_last_not_of);
#undef ALL
    if (s.find(t) != s.rfind(t)) ck::sample("%s: find %zu rfind %zu", a0.c_str(), s.find(t), s.rfind(t));
}
template <typename C> static void relations(const std::basic_string<C>& s, const std::basic_string<C>& t, bool zero_terminated)
{
    Buf<C> bs(s), bt(t); const auto v = bs.view(), w = bt.view(); ck::state();
    const std::string a0 = sh(s) + ", " + sh(t);
    std::unique_ptr<Buf<C>> z; if (zero_terminated) z.reset(new Buf<C>(t + C{}));
    CHECK(sgn(v.compare(w)) == sgn(s.compare(t)), "compare(%s): %d", a0.c_str(), v.compare(w));
    if (z) CHECK(sgn(v.compare(z->p)) == sgn(s.compare(t)), "compare(%s as C string): %d", a0.c_str(), v.compare(z->p));
#define REL(op) do { const bool e = s op t; ck::step(3); \
    CHECK((v op w) == e, "%s: operator" #op " of views gives %d", a0.c_str(), !e); CHECK((v op t) == e, "%s: view" #op "string gives %d", a0.c_str(), !e); CHECK((s op w) == e, "%s: string" #op "view gives %d", a0.c_str(), !e); \
    if (z) { CHECK((v op z->p) == e, "%s: view" #op "C string gives %d", a0.c_str(), !e); CHECK((z->p op v) == (t op s), "%s: C string" #op "view is wrong", a0.c_str()); } } while (0)
    REL(==); REL(!=); REL(<); REL(>); REL(<=); REL(>=);
#undef REL
    for (std::size_t p : starts(s.size())) for (std::size_t n : counts(s.size())) {
        if (p > s.size() && n > 1) continue;
        auto a1 = [&] { return a0 + ", pos " + ps(p) + ", n " + ps(n); };
        eq("compare", a1, [&] { return sgn(v.compare(p, n, w)); }, [&] { return sgn(s.compare(p, n, t)); });
        if (z) eq("compare with C string", a1, [&] { return sgn(v.compare(p, n, static_cast<const C*>(z->p))); }, [&] { return sgn(s.compare(p, n, t)); });
        for (std::size_t q = 0; q <= t.size(); ++q) eq("compare with pointer and length", a1, [&] { return sgn(v.compare(p, n, static_cast<const C*>(bt.p), q)); }, [&] { return sgn(s.compare(p, n, t.data(), q)); });
        if (s.size() + t.size() <= 4 && n != (std::size_t)-2) for (std::size_t p2 : few(t.size())) for (std::size_t n2 : few(t.size())) if (p2 <= t.size() || n2 == 0) eq("compare of substrings", [&] { return a1() + ", pos2 " + ps(p2) + ", n2 " + ps(n2); }, [&] { return sgn(v.compare(p, n, w, p2, n2)); }, [&] { return sgn(s.compare(p, n, t, p2, n2)); });
    }
}
template <typename C> static void basics(const std::basic_string<C>& s)
{
    using SV = gul14::basic_string_view<C>; using S = std::basic_string<C>;
    Buf<C> b(s); const SV v = b.view(); const std::string a = sh(s); const std::size_t n = s.size(); ck::state();
    auto is = [&](const char* what, SV x, const S& e, const C* at) { ck::step(); bool ok = x.size() == e.size() && x.length() == e.size() && x.empty() == e.empty() && x.data() == at; for (std::size_t i = 0; ok && i < e.size(); ++i) ok = x[i] == e[i]; CHECK(ok, "%s of %s is wrong (size %zu, expected %zu)", what, a.c_str(), x.size(), e.size()); };
    is("view", v, s, b.p); { SV c(v); is("copy", c, s, b.p); SV d; CHECK(d.empty() && d.size() == 0, "default view is not empty"); d = v; is("assigned view", d, s, b.p); SV e2(static_cast<const C*>(b.p), 0); d.swap(e2); is("swapped view", e2, s, b.p); is("swapped view", d, S(), b.p); }
    { SV f(s); CHECK(f.data() == s.data() && f.size() == n, "view of a std::string %s is wrong", a.c_str()); }
    { Buf<C> z(s + C{}); const SV f(z.p); S e = s.substr(0, std::min(n, s.find(C{}))); is("view of C string", f, e, z.p); }
    CHECK(S(v) == s, "conversion of %s to string is wrong", a.c_str());
    if (n) { CHECK(v.front() == s.front() && v.back() == s.back(), "front or back of %s is wrong", a.c_str()); CHECK(&v.front() == b.p && &v.back() == b.p + n - 1, "front or back reference is wrong"); }
    for (std::size_t p : positions(n)) {
        eq("at", [&] { return a + ", " + ps(p); }, [&] { return (long)v.at(p); }, [&] { return (long)s.at(p); });
        for (std::size_t m : counts(n)) {
            if (p > n && m > 1) continue;
            bool tv = false, ts = false; SV x; S y; try { x = v.substr(p, m); } catch (const std::out_of_range&) { tv = true; } try { y = s.substr(p, m); } catch (const std::out_of_range&) { ts = true; }
            CHECK(tv == ts, "substr(%s, %s, %s): throws %d, expected %d", a.c_str(), ps(p).c_str(), ps(m).c_str(), tv, ts); if (!tv) is("substr", x, y, b.p + p);
            { // copy into an exact buffer
                const std::size_t room = p <= n ? std::min(m, n - p) : 0; C* o = static_cast<C*>(::malloc(room ? room * sizeof(C) : 1)); std::basic_string<C> so(room, C{}); bool t1 = false, t2 = false; std::size_t r1 = 0, r2 = 0;
                try { r1 = v.copy(o, m, p); } catch (const std::out_of_range&) { t1 = true; } try { r2 = s.copy(&so[0], m, p); } catch (const std::out_of_range&) { t2 = true; }
                CHECK(t1 == t2 && r1 == r2, "copy(%s, n %s, pos %s): returned %zu throws %d, expected %zu throws %d", a.c_str(), ps(m).c_str(), ps(p).c_str(), r1, t1, r2, t2); for (std::size_t i = 0; i < r1; ++i) CHECK(o[i] == so[i], "copy(%s) wrote wrong characters", a.c_str()); ::free(o); ck::step();
            }
        }
        if (p <= n) { bool ok = true; SV x = v.substr(p); is("substr(pos)", x, s.substr(p), b.p + p); (void)ok; }
        { SV x = v; x.remove_prefix(p); const std::size_t c = std::min(p, n); is("remove_prefix", x, s.substr(c), b.p + c); SV y = v; y.remove_suffix(p); is("remove_suffix", y, s.substr(0, n - c), b.p); }
    }
    { S f(v.begin(), v.end()), g(v.cbegin(), v.cend()), h(v.rbegin(), v.rend()), k(v.crbegin(), v.crend()), r(s.rbegin(), s.rend()); CHECK(f == s && g == s && h == r && k == r, "iteration over %s is wrong", a.c_str()); CHECK(v.begin() == b.p && v.end() == b.p + n, "iterators of %s are wrong", a.c_str()); }
    if (n == 3) ck::sample("all queries of %s", a.c_str());
}
template <typename C> static std::basic_string<C> widen(const std::string& s, const std::vector<C>& m) { std::basic_string<C> r; for (char c : s) r.push_back(m[(std::size_t)(c - '0')]); return r; }
static bool nz(const std::string& s, char zero) { return s.find(zero) == std::string::npos; }

template <typename C> static void run(const std::vector<C>& m, char zero, int ls, int lt)
{
    std::string al; for (std::size_t i = 0; i < m.size(); ++i) al.push_back((char)('0' + i));
    ck::strings(al, 0, ls, [&](const std::string& s) { if (ck::mine()) basics<C>(widen<C>(s, m)); });
    ck::strings(al, 0, ls, [&](const std::string& s) { ck::strings(al, 0, lt, [&](const std::string& t) { if (ck::mine()) { search<C>(widen<C>(s, m), widen<C>(t, m), nz(t, zero)); relations<C>(widen<C>(s, m), widen<C>(t, m), nz(t, zero)); } }); });
}
DOMAIN(char_views) { run<char>({ 'a', 'b', '\0', (char)0xff }, '2', ck::tier(4, 5), 2); }
DOMAIN(char_views_long_needle) { run<char>({ 'a', 'b' }, '9', ck::tier(7, 9), ck::tier(4, 5)); }
DOMAIN(wide_views) { run<wchar_t>({ L'a', L'\0', (wchar_t)0x10ff61, (wchar_t)-5 }, '1', 3, 2); run<char16_t>({ u'a', u'\0', u'\xffff', u'\x161' }, '1', 3, 2); run<char32_t>({ U'a', U'\0', U'\x7fffffff', (char32_t)0x80000061u }, '1', 3, 2); }
DOMAIN(all_bytes) { for (int i = 0; i < 256; ++i) for (int j = 0; j < 256; ++j) if (ck::mine()) { std::string s(1, (char)i), t(1, (char)j); search<char>("x" + s + s + "y", t, j != 0); relations<char>(s, t, j != 0); relations<char>("p" + s, "p" + t + "q", j != 0); } }
DOMAIN(long_views) {
    for (int len : { 7, 8, 15, 16, 17, 31, 32, 33, 64, 100 }) for (int p = 0; p < len; p += 1 + len / 16) if (ck::mine()) {
        std::string s((std::size_t)len, 'k'); s[(std::size_t)p] = 'm'; search<char>(s, "m", true); search<char>(s, "km", true); search<char>(s, "kkkkkkk", true); search<char>(s, s, true); search<char>(s, s + "z", true); search<char>(s, s.substr(1), true); search<char>(s, "mk", true);
        std::string t = s; t[(std::size_t)p] = (char)0xf0; relations<char>(s, t, true); relations<char>(s, s, true); relations<char>(s, s.substr(0, (std::size_t)p), true); basics<char>(s); }
}
static void look(const std::string& s, const std::string& t)
{
    Buf<char> bs(s), bt(t); auto v = bs.view(), w = bt.view(); ck::state();
            for (std::size_t p : { (std::size_t)0, (std::size_t)1, s.size() / 2, s.size() - 1, s.size(), s.size() + 1, std::string::npos }) { ck::step(8);
                CHECK(v.find(w, p) == s.find(t, p) && v.rfind(w, p) == s.rfind(t, p) && v.find_first_of(w, p) == s.find_first_of(t, p) && v.find_last_of(w, p) == s.find_last_of(t, p) && v.find_first_not_of(w, p) == s.find_first_not_of(t, p) && v.find_last_not_of(w, p) == s.find_last_not_of(t, p), "search for %s in %s from %zu is wrong", ck::show(t).c_str(), ck::show(s).c_str(), p);
                if (p <= s.size()) { CHECK(v.substr(p).data() == v.data() + p && v.substr(p).size() == s.size() - p && v.substr(p, 3).size() == s.substr(p, 3).size(), "substr(%zu) of %zu characters is wrong", p, s.size()); std::string c(s.size() + 3, '*'), d(c); CHECK(v.copy(&c[0], s.size(), p) == s.copy(&d[0], s.size(), p) && c == d, "copy from position %zu of %zu characters is wrong", p, s.size()); } }
            auto sg = [](int x) { return (x > 0) - (x < 0); };
            CHECK(sg(v.compare(w)) == sg(s.compare(t)) && sg(w.compare(v)) == sg(t.compare(s)) && (v == w) == (s == t) && (v != w) == (s != t) && (v < w) == (s < t) && (v <= w) == (s <= t) && (v > w) == (s > t) && (v >= w) == (s >= t) && (v == t) == (s == t) && (s < w) == (s < t) && std::string(v) == s, "comparison of %s with %s is wrong", ck::show(s).c_str(), ck::show(t).c_str());
            std::ostringstream o; o << v; CHECK(o.str() == s, "output of %s is wrong", ck::show(s).c_str());
}
DOMAIN(every_length) {
    for (int n = 1; n <= 600; ++n) if (ck::mine()) {
        const std::size_t N = (std::size_t)n; const std::string k(N, 'k'); std::string m; for (int i = 0; i < n; ++i) m.push_back((char)(i * 37 + n));
        look(k, "k"); look(k, k); look(k + "m", "m"); look(k + "m", "km"); look("m" + k, "m"); look("m" + k, "mk"); look(k + "mn", k); look("m" + k, k); look(k + "m" + k, "kmk"); look(m, m); look(m, m.substr(0, N / 2) + "!"); look(m, m.substr(N / 2)); look(m, std::string(1, m[N - 1])); look(k + "a", k + "b"); look(k + "\xff", k + "a"); look(k, k + std::string(1, '\0')); look(std::string(N, '\0') + "a", std::string("\0a", 2));
        std::string x = m; x[N / 2] = (char)(x[N / 2] + 1); look(m, x); x = m; x[N - 1] = (char)(x[N - 1] + 128); look(m, x); x = m; x[0] = (char)(x[0] - 1); look(m, x);
    }
}
DOMAIN(search_sets) { // large character sets
    std::string d; for (int n = 0; n < 256; ++n) { if (ck::mine()) for (int b = 0; b < 256; b += 5) { std::string s{ (char)1, (char)b, (char)0xfe, (char)b }; Buf<char> bs(s), bd(d); ck::state(); ck::step(4); auto v = bs.view(), w = bd.view();
        CHECK(v.find_first_of(w) == s.find_first_of(d) && v.find_last_of(w) == s.find_last_of(d) && v.find_first_not_of(w) == s.find_first_not_of(d) && v.find_last_not_of(w) == s.find_last_not_of(d), "search for a set of %d characters in %s is wrong", n, ck::show(s).c_str()); } d.push_back((char)((n * 37 + 11) & 255)); }
}
DOMAIN(default_view) { if (ck::mine()) {
    gul14::string_view n; const std::string e; ck::state(); ck::step(20);
    CHECK(n.empty() && n.size() == 0 && n.data() == nullptr && n.begin() == n.end() && std::string(n).empty(), "default view is not empty");
    CHECK(n == "" && n == e && !(n != "") && n <= "a" && n < "a" && n.compare("") == 0 && n.compare("a") < 0, "comparison of the default view is wrong");
    const auto np = gul14::string_view::npos; CHECK(np == std::string::npos, "npos is wrong");
    CHECK(n.find("") == 0 && n.find("a") == np && n.find('a') == np && n.rfind("") == 0 && n.rfind("a") == np && n.find_first_of("a") == np && n.find_last_of("a") == np && n.find_first_not_of("a") == np && n.find_last_not_of("a") == np && n.find_first_not_of("") == np && n.find_last_not_of("") == np, "search in the default view is wrong");
    CHECK(n.substr(0).empty() && n.substr(0, 5).empty(), "substr of the default view is wrong"); n.remove_prefix(0); n.remove_suffix(3); n.remove_prefix(3); CHECK(n.empty(), "shrinking the default view is wrong");
    gul14::string_view x("abc"); CHECK(x.find(n) == 0 && x.rfind(n) == 3 && x.find_first_of(n) == np && x.find_first_not_of(n) == 0 && x.find_last_not_of(n) == 2 && x.compare(n) > 0 && n.compare(x) < 0, "search for the default view is wrong");
    std::ostringstream o; o << n; CHECK(o.str().empty(), "output of the default view is wrong"); std::string s = "q"; s += n; CHECK(s == "q", "appending the default view is wrong"); } }
DOMAIN(output_and_concatenation) {
    ck::strings(std::string("a\0\xff", 3), 0, 3, [](const std::string& s) { for (int w : { 0, 1, 2, 3, 4, 7, 8, 9, 10, 11, 12, 15, 16, 17, 19, 20, 40 }) for (int adj = 0; adj < 4; ++adj) if (ck::mine()) {
        ck::Exact e(s); const gul14::string_view v(e.data(), e.size()); ck::state(); ck::step(2);
        auto put = [&](auto&& x) { std::ostringstream o; o << std::setw(w) << std::setfill('*'); if (adj == 1) o << std::left; if (adj == 2) o << std::right; if (adj == 3) o << std::internal; o << x << x; o << "|" << o.width(); return o.str(); };
        CHECK(put(v) == put(s), "output of %s with width %d, adjustment %d: %s, expected %s", ck::show(s).c_str(), w, adj, ck::show(put(v)).c_str(), ck::show(put(s)).c_str()); } });
    ck::strings(std::string("a\0\xff", 3), 0, 3, [](const std::string& s) { ck::strings(std::string("b\0\xff", 3), 0, 3, [&](const std::string& t) { if (ck::mine()) {
        ck::Exact a(s), b(t); const gul14::string_view v(a.data(), a.size()), w(b.data(), b.size()); ck::state(); ck::step(3); using namespace gul14;
        CHECK((s + w) == s + t, "string + view of %s, %s is wrong", ck::show(s).c_str(), ck::show(t).c_str()); CHECK((v + t) == s + t, "view + string of %s, %s is wrong", ck::show(s).c_str(), ck::show(t).c_str());
        std::string x = s; std::string& r = (x += w); CHECK(&r == &x && x == s + t, "string += view of %s, %s is wrong", ck::show(s).c_str(), ck::show(t).c_str()); } }); });
}
// Lengths beyond those
DOMAIN(huge_length) {
    for (int n : ck::huge(140000)) if (ck::mine()) {
        const std::size_t N = (std::size_t)n; const std::string k(N, 'k'); std::string m; for (int i = 0; i < n; ++i) m.push_back((char)(i * 37 + i / 251));
        look(k, "m"); look(k + "m", "m"); look(k + "m" + k, "mk"); look("m" + k, "m"); look("m" + k, "!" + k); look(m, m); look(m, "!" + m); look(k, k + "a"); look(k + "a", k + "b"); look(k + "\xff", k + "a"); look(m, std::string(1, m[N - 1]));
        for (std::size_t p : { (std::size_t)0, N / 2, N - 1 }) { std::string x = m; x[p] = (char)(x[p] + 1); auto v = gul14::string_view(m), w = gul14::string_view(x); ck::state(); ck::step(3);
            CHECK((v == w) == (m == x) && (v < w) == (m < x) && (v > w) == (m > x) && (v.compare(w) < 0) == (m.compare(x) < 0) && v.find(w) == m.find(x) && v.rfind(w) == m.rfind(x) && v.substr(p).find(w.substr(p)) == m.substr(p).find(x.substr(p)), "views of %d characters that differ at %zu are compared wrongly", n, p); }
    }
}

// The same in another locale
FOREIGN(char_views, true);
FOREIGN(output_and_concatenation, true);
