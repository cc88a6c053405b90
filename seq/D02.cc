// D02: formatting and parsing of dates and times against an independent calendar and printf-style
// reference.
#include "ck.h"
#include "gul14/date.h"
#include <chrono>
#include <cmath>
#include <iomanip>
#include <sstream>
namespace d = gul14::date;
using d::days; using d::sys_days; using d::local_days; using d::year; using d::month; using d::day; using d::weekday;
using std::chrono::hours; using std::chrono::minutes; using std::chrono::seconds; using std::chrono::milliseconds; using std::chrono::microseconds; using std::chrono::nanoseconds;
using d::operator<<;
typedef d::year_month_day YMD;
typedef long long ll;
typedef __int128 big;

// ---------------------------------------------------------------- reference calendar
static bool leap(int y) { return y % 4 == 0 && (y % 100 != 0 || y % 400 == 0); }
static int mdays(int y, int m) { static const int n[] = { 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31 }; return m == 2 && leap(y) ? 29 : n[m - 1]; }
static const int* year_table() { static int t[65540]; static bool init = false; if (!init) { init = true; t[32768 + 1970] = 0; for (int y = 1971; y <= 32768; ++y) t[32768 + y] = t[32768 + y - 1] + (leap(y - 1) ? 366 : 365); for (int y = 1969; y >= -32768; --y) t[32768 + y] = t[32768 + y + 1] - (leap(y) ? 366 : 365); } return t; }
static int jan1(int y) { return year_table()[32768 + y]; }
static int serial(int y, int m, int dd) { int s = jan1(y); for (int i = 1; i < m; ++i) s += mdays(y, i); return s + dd - 1; }
static int wday(int s) { return ((s + 4) % 7 + 7) % 7; }
static const char* const WD[] = { "Sunday", "Monday", "Tuesday", "Wednesday", "Thursday", "Friday", "Saturday" };
static const char* const MN[] = { "January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November", "December" };
/// first day (a Monday) of ISO year y
static int iso_start(int y) { const int j4 = jan1(y) + 3; return j4 - (wday(j4) + 6) % 7; }
struct Date { int y, m, d, s, yd, wd, U, W, G, V; };
static Date from_ymd(int y, int m, int dd)
{
    Date r; r.y = y; r.m = m; r.d = dd; r.s = serial(y, m, dd); r.yd = r.s - jan1(y) + 1; r.wd = wday(r.s);
    r.U = 0; for (int s = jan1(y); s <= r.s; ++s) if (wday(s) == 0) ++r.U;
    r.W = 0; for (int s = jan1(y); s <= r.s; ++s) if (wday(s) == 1) ++r.W;
    r.G = y + 1; while (iso_start(r.G) > r.s) --r.G;
    r.V = (r.s - iso_start(r.G)) / 7 + 1; return r;
}
static std::string fmtn(const char* f, ll v) { char b[64]; snprintf(b, sizeof b, f, v); return b; }
static std::string year4(int y) { return y < 0 ? fmtn("-%04lld", -y) : fmtn("%04lld", y); }
/// Time of day (or duration) in ticks of 10^-w seconds
struct Tod { bool has; bool neg; ll h; int mi, s; ll sub; int w; big ticks; };
static Tod no_tod() { Tod t{}; return t; }
static Tod tod(big ticks, int w) { Tod t{}; t.has = true; t.ticks = ticks; t.neg = ticks < 0; big a = t.neg ? -ticks : ticks; big p = 1; for (int i = 0; i < w; ++i) p *= 10; t.sub = (ll)(a % p); a /= p; t.s = (int)(a % 60); a /= 60; t.mi = (int)(a % 60); t.h = (ll)(a / 60); t.w = w; return t; }
static std::string secs(const Tod& t) { std::string r = fmtn("%02lld", t.s); if (t.w) { std::string f = std::to_string(t.sub); r += "." + std::string((size_t)t.w - f.size(), '0') + f; } return r; }
static std::string hms(const Tod& t) { return fmtn("%02lld:", t.h) + fmtn("%02lld:", t.mi) + secs(t); }
static const char* unit(int w) { switch (w) { case 0: return "s"; case 1: return "ds"; case 2: return "cs"; case 3: return "ms"; case 6: return "\xC2\xB5s"; case 9: return "ns"; default: return "?"; } }
static const char BAD[] = "\x01" "fail";
/// What the specifier (without %) prints; BAD if the field is missing. dt == nullptr: no date
static std::string ref1(char c, const Date* dt, const Tod& t, bool& neg, const char* abbrev, const ll* offset)
{
    const bool needs_date = strchr("aAbBhcxCdeDFgGmuUVwWyY", c) != nullptr, needs_tod = strchr("cHIMpQqrRSTX", c) != nullptr;
    if ((needs_date && !dt) || (needs_tod && !t.has)) return BAD;
    std::string sign; if (neg && strchr("HIMSR", c)) { sign = "-"; neg = false; } if (t.neg && c == 'T') sign = "-";
    const int h12 = (int)(t.h % 12 == 0 ? 12 : t.h % 12);
    switch (c) {
    case 'a': return std::string(WD[dt->wd], 3); case 'A': return WD[dt->wd]; case 'b': case 'h': return std::string(MN[dt->m - 1], 3); case 'B': return MN[dt->m - 1];
    case 'c': return std::string(WD[dt->wd], 3) + " " + std::string(MN[dt->m - 1], 3) + " " + fmtn("%2lld", dt->d) + " " + fmtn("%02lld:", t.h) + fmtn("%02lld:", t.mi) + fmtn("%02lld", t.s) + " " + std::to_string(dt->y);
    case 'C': { int c100 = 0; while (c100 * 100 > dt->y) --c100; while ((c100 + 1) * 100 <= dt->y) ++c100; return c100 < 0 ? fmtn("-%02lld", -c100) : fmtn("%02lld", c100); }
    case 'd': return fmtn("%02lld", dt->d); case 'e': return fmtn("%2lld", dt->d);
    case 'D': case 'x': return fmtn("%02lld/", dt->m) + fmtn("%02lld/", dt->d) + fmtn("%02lld", abs(dt->y) % 100);
    case 'F': return year4(dt->y) + fmtn("-%02lld", dt->m) + fmtn("-%02lld", dt->d);
    case 'g': return fmtn("%02lld", abs(dt->G) % 100); case 'G': return year4(dt->G);
    case 'H': return sign + fmtn("%02lld", t.h); case 'I': return sign + fmtn("%02lld", h12);
    case 'j': if (dt) return fmtn("%03lld", dt->yd); if (t.has) return fmtn("%03lld", t.h / 24); return BAD;
    case 'm': return fmtn("%02lld", dt->m); case 'M': return sign + fmtn("%02lld", t.mi); case 'n': return "\n"; case 't': return "\t"; case '%': return "%";
    case 'p': return t.h < 12 ? "AM" : "PM"; case 'Q': { std::ostringstream o; o << (ll)t.ticks; return o.str(); } // a number in the locale of the stream
     case 'q': return unit(t.w);
    case 'r': return fmtn("%02lld:", h12) + fmtn("%02lld:", t.mi) + fmtn("%02lld ", t.s) + (t.h < 12 ? "AM" : "PM");
    case 'R': return sign + fmtn("%02lld:", t.h) + fmtn("%02lld", t.mi); case 'S': return sign + secs(t); case 'T': return sign + hms(t);
    case 'u': return fmtn("%lld", dt->wd ? dt->wd : 7); case 'w': return fmtn("%lld", dt->wd);
    case 'U': return fmtn("%02lld", dt->U); case 'W': return fmtn("%02lld", dt->W); case 'V': return fmtn("%02lld", dt->V);
    case 'X': return fmtn("%02lld:", t.h) + fmtn("%02lld:", t.mi) + fmtn("%02lld", t.s);
    case 'y': return fmtn("%02lld", abs(dt->y) % 100); case 'Y': return year4(dt->y);
    case 'z': if (!offset) return BAD; { const ll m = *offset / 60; return (m < 0 ? "-" : "+") + fmtn("%02lld", std::llabs(m) / 60) + fmtn("%02lld", std::llabs(m) % 60); }
    case 'Z': if (!abbrev) return BAD; return abbrev;
    }
    return std::string("%") + c;
}
static std::string ref(const std::string& f, const Date* dt, const Tod& t, const char* abbrev = nullptr, const ll* offset = nullptr)
{
    std::string o; bool neg = t.has && t.neg;
    for (size_t i = 0; i < f.size(); ++i) {
        if (f[i] != '%') { o += f[i]; continue; }
        if (i + 1 == f.size()) { o += '%'; break; }
        char c = f[++i]; char mod = 0;
        if ((c == 'E' || c == 'O')) { if (i + 1 == f.size()) { o += std::string("%") + c; break; } mod = c; c = f[++i];
            if (!strchr(mod == 'E' ? "cCxXyYz" : "deHImMSuUVwWyz", c)) { o += std::string("%") + mod + c; continue; } }
        if (mod == 'O' && c == 'S') { if (!t.has) return BAD; if (neg) { o += '-'; neg = false; } o += fmtn("%02lld", t.s); continue; }
        std::string r = ref1(c, dt, t, neg, abbrev, offset); if (r == BAD) return BAD;
        if (mod && c == 'z') r.insert(3, ":");
        o += r;
    }
    return o;
}
// ---------------------------------------------------------------- calling the library
template <typename T> std::string lib(const std::string& f, const T& v) { try { return d::format(f, v); } catch (const std::ios_base::failure&) { return BAD; } }
static std::string shw(const std::string& s) { return s == BAD ? "(failure)" : ck::show(s); }
template <typename T> void same(const std::string& f, const T& v, const std::string& want, const char* what)
{
    ck::step(); const std::string got = lib(f, v);
    CHECK(got == want, "format(%s, %s) gives %s, expected %s", ck::show(f).c_str(), what, shw(got).c_str(), shw(want).c_str());
}
static std::vector<int> some_years() { std::vector<int> v; for (int y = -5; y <= 5; ++y) v.push_back(y); for (int y : { -9999, -9998, -4000, -2001, -2000, -1999, -401, -400, -399, -201, -200, -199, -101, -100, -99, 96, 99, 100, 101, 399, 400, 401, 999, 1000, 1582, 1600, 1699, 1700, 1800, 2400, 3999, 4000, 9998, 9999 }) v.push_back(y); return v; }
static std::vector<int> window() { auto v = some_years(); const int a = ck::tier(1890, 1600), b = ck::tier(2110, 2410); for (int y = a; y <= b; ++y) v.push_back(y); return v; }
static const char DATE_SPECS[] = "aAbBhCdeDFgGjmuUVwWyY";
static const char TIME_SPECS[] = "HIMpQqrRSTX";
static std::string dn(const Date& x) { return year4(x.y) + fmtn("-%02lld", x.m) + fmtn("-%02lld", x.d); }

/// every date specifier on every day
DOMAIN(format_days)
{
    std::string all; for (const char* c = DATE_SPECS; *c; ++c) { all += '%'; all += *c; all += '|'; }
    std::string simple = all + "%x|%n%t%%|%Ex|%Ey|%Od|%Oe|%Om|%Ou|%OU|%OV|%Ow|%OW|%Oy|"; // forms using the locale's facet
    for (int y : window()) for (int m = 1; m <= 12; ++m) if (ck::mine()) for (int dd = 1; dd <= mdays(y, m); ++dd) {
        ck::state(); const Date x = from_ymd(y, m, dd); const YMD v{ year{ y }, month{ (unsigned)m }, day{ (unsigned)dd } }; const std::string n = dn(x);
        same(all, v, ref(all, &x, no_tod()), n.c_str());
        same("%F %j", sys_days{ days{ x.s } }, ref("%F %j", &x, no_tod()), n.c_str()); same("%F %j", local_days{ days{ x.s } }, ref("%F %j", &x, no_tod()), n.c_str());
        if (y >= 1000 && y <= 9999) { same(simple, v, ref(simple, &x, no_tod()), n.c_str()); const Tod t = tod(0, 0); const ll off = 0; const std::string f = "%c|%Ec|%EC|%EY|%Z|%z|%Ez|%Oz"; same(f, sys_days{ days{ x.s } }, ref(f, &x, t, "UTC", &off), n.c_str()); }
        if (dd == 1) ck::sample("%s", ck::show(ref(all, &x, no_tod())).c_str());
        { std::ostringstream o; o << v; if (std::abs(y) >= 1000) CHECK(o.str() == (y < 0 ? fmtn("%lld", y) : year4(y)) + fmtn("-%02lld", m) + fmtn("-%02lld", dd), "operator<< of %s gives %s", n.c_str(), o.str().c_str()); std::ostringstream q; q << sys_days{ days{ x.s } }; CHECK(q.str() == o.str(), "operator<< of sys_days %s gives %s", n.c_str(), q.str().c_str()); }
    }
}
/// single specifiers: all specifier characters with all modifiers, on all kinds of values
DOMAIN(specifiers)
{
    const int DS[][3] = { { 2024, 2, 29 }, { 2023, 12, 31 }, { 1999, 1, 1 }, { 2005, 1, 2 }, { 1000, 3, 9 }, { 9999, 12, 31 } };
    const ll TS[] = { 0, 1, 59, 60, 3599, 3600, 43199, 43200, 46800, 86399, 50706 };
    for (int c = 32; c < 127; ++c) for (const char* mod : { "", "E", "O" }) for (auto& q : DS) if (ck::mine()) {
        const std::string sp = std::string("%") + mod + (char)c; const Date x = from_ymd(q[0], q[1], q[2]); const YMD v{ year{ q[0] }, month{ (unsigned)q[1] }, day{ (unsigned)q[2] } }; const std::string n = dn(x);
        for (const std::string& f : { sp, "a" + sp + "Y", sp + sp, "%%" + sp, sp + "%" }) {
            ck::state();
            if ((c == 'E' || c == 'O') && !*mod && f.size() > 2) continue; // would modify the following character
            same(f, v, ref(f, &x, no_tod()), n.c_str()); same(f, local_days{ days{ x.s } }, ref(f, &x, tod(0, 0)), n.c_str());
            const ll off = 0;
            for (ll t : TS) {
                const Tod s = tod(t, 0), ms = tod((big)t * 1000 + 7, 3), ns = tod((big)t * 1000000000 + 120000000, 9); const ll tot = (ll)x.s * 86400 + t;
                // %Q prints the whole count since midnight for time points
                same(f, d::sys_seconds{ seconds{ tot } }, ref(f, &x, s, "UTC", &off), (n + " + s").c_str()); same(f, d::local_seconds{ seconds{ tot } }, ref(f, &x, s), (n + " + s (local)").c_str());
                same(f, d::sys_time<milliseconds>{ milliseconds{ tot * 1000 + 7 } }, ref(f, &x, ms, "UTC", &off), (n + " + ms").c_str());
                if (q[0] > 1700 && q[0] < 2250) same(f, d::sys_time<nanoseconds>{ nanoseconds{ tot * 1000000000 + 120000000 } }, ref(f, &x, ns, "UTC", &off), (n + " + ns").c_str());
                if (sp == "%Ew") continue; // meaningless without a date: not covered
                same(f, seconds{ t }, ref(f, nullptr, s), "seconds"); same(f, milliseconds{ t * 1000 + 7 }, ref(f, nullptr, ms), "ms");
            }
            for (ll o : { 0LL, 60LL, -60LL, 3600LL, -3600LL, 5400LL, -12600LL, 35940LL, -35940LL, 50400LL, 30LL, -30LL }) { std::ostringstream os; const std::string ab = "X/y"; const seconds os_{ o }; d::to_stream(os, f.c_str(), d::local_seconds{ seconds{ (ll)x.s * 86400 } }, &ab, &os_); const std::string want = ref(f, &x, tod(0, 0), "X/y", &o); const std::string got = os.fail() ? BAD : os.str(); CHECK(got == want, "to_stream(%s) with offset %lld gives %s, expected %s", ck::show(f).c_str(), o, shw(got).c_str(), shw(want).c_str()); }
        }
    }
}
/// partial calendar types: all field values
DOMAIN(partial_types)
{
    auto part = [](const char* specs, auto v, bool ok, auto want, const char* what) { // each specifier prints the field or fails
        for (const char* c = "aAbBhCdeDFgGjmuUVwWyYHMSTR"; *c; ++c) { const std::string f = std::string("%") + *c; std::string w = BAD; if (ok && strchr(specs, *c)) w = want(*c); same(f, v, w, what); } };
    for (int i = 0; i <= 255; ++i) if (ck::mine()) {
        ck::state(); const std::string n = std::to_string(i);
        part("de", day{ (unsigned)i }, i >= 1 && i <= 31, [&](char c) { return fmtn(c == 'd' ? "%02lld" : "%2lld", i); }, ("day " + n).c_str());
        part("bBhm", month{ (unsigned)i }, i >= 1 && i <= 12, [&](char c) { return c == 'm' ? fmtn("%02lld", i) : c == 'B' ? std::string(MN[i - 1]) : std::string(MN[i - 1], 3); }, ("month " + n).c_str());
        part("aAuw", weekday{ (unsigned)i }, i <= 7, [&](char c) { const int w = i % 7; return c == 'A' ? std::string(WD[w]) : c == 'a' ? std::string(WD[w], 3) : fmtn("%lld", c == 'u' && !w ? 7 : w); }, ("weekday " + n).c_str());
        auto pr = [](const auto& v) { std::ostringstream o; o << v; return o.str(); };
        auto wdn = [&](int w) { return w <= 7 ? std::string(WD[w % 7], 3) : std::to_string(w); };
        CHECK(pr(day{ (unsigned)i }) == fmtn("%02lld", i) + (i >= 1 && i <= 31 ? "" : " is not a valid day"), "operator<< of day %d gives %s", i, pr(day{ (unsigned)i }).c_str());
        if (i >= 1 && i <= 12) CHECK(pr(month{ (unsigned)i }) == std::string(MN[i - 1], 3), "operator<< of month %d gives %s", i, pr(month{ (unsigned)i }).c_str()); else CHECK(pr(month{ (unsigned)i }).find(" is not a valid month") != std::string::npos, "operator<< of month %d gives %s", i, pr(month{ (unsigned)i }).c_str());
        if (i <= 7) { CHECK(pr(weekday{ (unsigned)i }) == wdn(i), "operator<< of weekday %d gives %s", i, pr(weekday{ (unsigned)i }).c_str()); CHECK(pr(d::weekday_last{ weekday{ (unsigned)i } }) == wdn(i) + "[last]", "operator<< of weekday_last %d", i); } else CHECK(pr(weekday{ (unsigned)i }).find(" is not a valid weekday") != std::string::npos, "operator<< of weekday %d", i);
        for (unsigned k = 0; k <= 9 && i <= 7; ++k) { const std::string g = pr(d::weekday_indexed{ weekday{ (unsigned)i }, k }); const bool ok = k >= 1 && k <= 5; CHECK(ok ? g == wdn(i) + "[" + std::to_string(k) + "]" : g.find(" is not a valid weekday_indexed") != std::string::npos, "operator<< of weekday_indexed %d[%u] gives %s", i, k, g.c_str());
            if (ok) { const std::string g2 = pr(d::year_month_weekday{ year{ 2021 }, month{ 3 }, d::weekday_indexed{ weekday{ (unsigned)i }, k } }); const d::year_month_weekday yw{ year{ 2021 }, month{ 3 }, d::weekday_indexed{ weekday{ (unsigned)i }, k } }; CHECK(g2 == "2021/Mar/" + g + (yw.ok() ? "" : " is not a valid year_month_weekday"), "operator<< of year_month_weekday gives %s", g2.c_str()); const std::string g3 = pr(d::month_weekday{ month{ 7 }, d::weekday_indexed{ weekday{ (unsigned)i }, k } }); CHECK(g3 == "Jul/" + g, "operator<< of month_weekday gives %s", g3.c_str()); } }
        if (i <= 7) { const d::weekday_last l{ weekday{ (unsigned)i } }; CHECK(pr(d::month_weekday_last{ month{ 7 }, l }) == "Jul/" + wdn(i) + "[last]" && pr(d::year_month_weekday_last{ year{ 1987 }, month{ 7 }, l }) == "1987/Jul/" + wdn(i) + "[last]", "operator<< of (year_)month_weekday_last"); }
        if (i >= 1 && i <= 12) { const std::string mn(MN[i - 1], 3); CHECK(pr(d::month_day_last{ month{ (unsigned)i } }) == mn + "/last" && pr(d::year_month_day_last{ year{ 2003 }, d::month_day_last{ month{ (unsigned)i } } }) == "2003/" + mn + "/last" && pr(d::year_month{ year{ 2003 }, month{ (unsigned)i } }) == "2003/" + mn, "operator<< of *_last or year_month, month %d", i);
            for (int k = 0; k <= 40; ++k) { const d::month_day md{ month{ (unsigned)i }, day{ (unsigned)k } }; const bool ok = k >= 1 && k <= mdays(2000, i); CHECK(pr(md) == mn + "/" + fmtn("%02lld", k) + (ok ? "" : " is not a valid month_day"), "operator<< of month_day %d/%d gives %s", i, k, pr(md).c_str());
                if (ok) part("bBhmde", md, true, [&](char c) { return c == 'm' ? fmtn("%02lld", i) : c == 'B' ? std::string(MN[i - 1]) : c == 'd' ? fmtn("%02lld", k) : c == 'e' ? fmtn("%2lld", k) : std::string(MN[i - 1], 3); }, "month_day");
                const YMD bad{ year{ 2023 }, month{ (unsigned)i }, day{ (unsigned)k } }; if (!bad.ok()) { for (const char* f : { "%F", "%D", "%j", "%a", "%u", "%U", "%W", "%V", "%G", "%g", "%x", "%c" }) same(f, bad, BAD, "an invalid date"); CHECK(pr(bad).find(" is not a valid year_month_day") != std::string::npos, "operator<< of an invalid date gives %s", pr(bad).c_str()); } } }
    }
    for (int y = -32768; y <= 32767; ++y) if (ck::mine()) {
        ck::state(); std::string c; const bool ok = y != -32768; if (ok) { int c100 = y / 100; if (c100 * 100 > y) --c100; c = c100 < 0 ? fmtn("-%02lld", -c100) : fmtn("%02lld", c100); }
        part("CyY", year{ y }, ok, [&](char k) { return k == 'Y' ? year4(y) : k == 'y' ? fmtn("%02lld", abs(y) % 100) : c; }, "year");
        std::ostringstream o; o << year{ y }; CHECK(o.str() == year4(y) + (ok ? "" : " is not a valid year"), "operator<< of year %d gives %s", y, o.str().c_str());
        if (y % 97 == 0) part("CyYbBhm", d::year_month{ year{ y }, month{ 9 } }, ok, [&](char k) { return k == 'Y' ? year4(y) : k == 'y' ? fmtn("%02lld", abs(y) % 100) : k == 'C' ? c : k == 'm' ? std::string("09") : k == 'B' ? std::string("September") : std::string("Sep"); }, "year_month");
    }
}
/// ticks at and around all boundaries
static std::vector<ll> ticks(ll per_s, bool big_too)
{
    std::vector<ll> v; for (ll b : { 0LL, 1LL, 2LL, 9LL, 10LL, 11LL, 59LL, 60LL, 61LL, 599LL, 600LL, 3599LL, 3600LL, 3661LL, 35999LL, 36000LL, 43199LL, 43200LL, 46799LL, 46800LL, 50706LL, 86399LL, 86400LL, 86401LL, 172799LL, 172800LL, 359999LL, 360000LL }) for (ll k : { -2LL, -1LL, 0LL, 1LL, 2LL, 9LL, 10LL, 99LL, 100LL, 101LL, 500LL, 999LL, 1000LL, 1001LL, 12345LL, 99999LL, 123456LL, 999999LL, 1000000LL, 7654321LL, 123456789LL, 999999999LL }) if (per_s > 1 || (k >= -1 && k <= 1)) { if (k < per_s) { v.push_back(b * per_s + k); v.push_back(-(b * per_s + k)); } }
    if (big_too) for (ll b : { 1000000007LL, 1234567890LL, 8000000000LL }) if (b < LLONG_MAX / per_s - 1) for (ll k = -1; k <= 1; ++k) { v.push_back(b * per_s + k); v.push_back(-b * per_s + k); }
    return v;
}
template <typename D> void split_check(D v, ll per_s_num, ll per_s_den, int w)
{
    // value in ticks of 10^-w seconds; the duration has per_s_num/per_s_den ticks per second
    big p = 1; for (int i = 0; i < w; ++i) p *= 10;
    const big t = (big)v.count() * p * per_s_den / per_s_num; const Tod r = tod(t, w); ck::state(); ck::step(8);
    const auto q = d::make_time(v); const std::string what = std::to_string((ll)v.count());
    CHECK(q.hours().count() == r.h && q.minutes().count() == r.mi && q.seconds().count() == r.s && (ll)q.subseconds().count() == r.sub && q.is_negative() == r.neg, "%s ticks are split into %lld h %lld min %lld s, %lld subseconds, negative=%d", what.c_str(), (ll)q.hours().count(), (ll)q.minutes().count(), (ll)q.seconds().count(), (ll)q.subseconds().count(), (int)q.is_negative());
    CHECK((big)q.to_duration().count() == t && q.to_duration() == v && typename decltype(q)::precision(q) == q.to_duration(), "splitting %s ticks and recombining gives %lld", what.c_str(), (ll)q.to_duration().count());
    CHECK((int)decltype(q)::fractional_width == w, "fractional width %u, expected %d", decltype(q)::fractional_width, w);
    CHECK(q.in_conventional_range() == (t >= 0 && t < 86400 * p), "in_conventional_range of %s ticks is %d", what.c_str(), (int)q.in_conventional_range());
    std::ostringstream o; o << q; CHECK(o.str() == (r.neg ? "-" : "") + hms(r), "operator<< of %s ticks gives %s, expected %s", what.c_str(), o.str().c_str(), hms(r).c_str());
    const d::time_of_day<D> q2{ v }; std::ostringstream o2; o2 << q2; CHECK(o2.str() == o.str(), "time_of_day prints %s", o2.str().c_str());
    for (const char* f : { "%T", "%H:%M:%S", "%M:%S", "%S", "%R", "%H", "%M", "%R:%S", "%Q" , "%H%%%M" , "%H h %M m %OS s", "%S,%M,%H", "%M %H", "%S %R" }) { if (strstr(f, "%OS") && r.neg) continue; same(f, v, ref(f, nullptr, r), (what + " ticks").c_str()); }
    if (!r.neg && r.h < 24) same("%I:%M:%S %p|%r|%X|%EX|%OH|%OI|%OM|%OS|%j", v, ref("%I:%M:%S %p|%r|%X|%EX|%OH|%OI|%OM|%OS|%j", nullptr, r), (what + " ticks").c_str());
    if (!r.neg) same("%j", v, ref("%j", nullptr, r), (what + " ticks").c_str());
}
/// durations split into their fields and printed
DOMAIN(durations)
{
    for (ll t = -200000; t <= 200000; ++t) if (ck::mine()) { const ll tt = ck::thorough() ? t : t / 2; if (!ck::thorough() && t % 2) continue; split_check(seconds{ tt }, 1, 1, 0); if (t % 9000 == 0) ck::sample("%lld s", tt); }
    for (ll t : ticks(1000, true)) if (ck::mine()) split_check(milliseconds{ t }, 1000, 1, 3);
    for (ll t = -2500; t <= 2500; ++t) if (ck::mine()) { split_check(milliseconds{ t }, 1000, 1, 3); split_check(microseconds{ t * 1000 - t % 3 }, 1000000, 1, 6); split_check(nanoseconds{ t * 1000000 + t }, 1000000000, 1, 9); split_check(std::chrono::duration<ll, std::deci>{ t * 7 }, 10, 1, 1); split_check(std::chrono::duration<ll, std::centi>{ t * 11 }, 100, 1, 2); split_check(std::chrono::duration<ll, std::ratio<1, 4>>{ t * 13 }, 4, 1, 2); split_check(std::chrono::duration<ll, std::ratio<1, 8>>{ t * 17 }, 8, 1, 3); split_check(minutes{ t }, 1, 60, 0); split_check(hours{ t }, 1, 3600, 0); split_check(days{ (int)t % 5 }, 1, 86400, 0); split_check(std::chrono::duration<int>{ (int)t * 40 }, 1, 1, 0); }
    for (ll t : ticks(1000000, true)) if (ck::mine()) split_check(microseconds{ t }, 1000000, 1, 6);
    for (ll t : ticks(1000000000, true)) if (ck::mine()) split_check(nanoseconds{ t }, 1000000000, 1, 9);
    if (ck::mine()) { ck::state(); // units
        auto pr = [](const auto& v) { std::ostringstream o; using d::operator<<; o << v; return o.str(); };
        CHECK(pr(hours{ -3 }) == "-3h" && pr(minutes{ 4 }) == "4min" && pr(seconds{ 0 }) == "0s" && pr(milliseconds{ 5 }) == "5ms" && pr(microseconds{ 6 }) == "6\xC2\xB5s" && pr(nanoseconds{ -7 }) == "-7ns" && pr(days{ 8 }) == "8d" && pr(d::weeks{ 2 }) == "2[604800]s", "operator<< of durations");
        CHECK(pr(std::chrono::duration<int, std::ratio<1, 3>>{ 7 }) == "7[1/3]s" && pr(std::chrono::duration<int, std::kilo>{ 1 }) == "1ks" && pr(std::chrono::duration<ll, std::pico>{ 1 }) == "1ps" && pr(std::chrono::duration<int, std::centi>{ 1 }) == "1cs" && pr(std::chrono::duration<int, std::deci>{ 1 }) == "1ds" && pr(std::chrono::duration<int, std::deca>{ 1 }) == "1das" && pr(std::chrono::duration<int, std::hecto>{ 1 }) == "1hs" && pr(std::chrono::duration<int, std::mega>{ 1 }) == "1Ms", "operator<< of durations in unusual units");
        CHECK(lib("%Q%q", hours{ 2 }) == "7200s" || lib("%Q%q", hours{ 2 }) == "2h", "%%Q%%q of hours"); CHECK(lib("%Q%q", milliseconds{ -2 }) == "-2ms" && lib("%Q %q", nanoseconds{ 77 }) == "77 ns" && lib("%Q%q", microseconds{ 1 }) == "1\xC2\xB5s", "%%Q%%q of durations"); }
}
template <typename D> void instant(int day0, ll t, ll per_s, int w)
{
    // day0 days plus t ticks
    const big tot = (big)day0 * 86400 * per_s + t; if (tot > LLONG_MAX || tot < -(big)LLONG_MAX) return;
    big dd = tot / ((big)86400 * per_s); big rem = tot % ((big)86400 * per_s); if (rem < 0) { rem += (big)86400 * per_s; --dd; }
    ck::state(); int y = 1970; { int lo = -32767, hi = 32767; while (lo < hi) { int mid = (lo + hi + 1) / 2; if (hi - lo == 1) mid = hi; if (jan1(mid) <= (int)dd) lo = mid; else hi = mid - 1; } y = lo; }
    int m = 1, r = (int)dd - jan1(y); while (r >= mdays(y, m)) { r -= mdays(y, m); ++m; }
    const Date x = from_ymd(y, m, r + 1); const Tod td = tod(rem, w); const ll off = 0; const std::string n = dn(x) + " " + hms(td);
    const d::sys_time<D> s{ D{ (typename D::rep)tot } }; const d::local_time<D> l{ D{ (typename D::rep)tot } };
    static const std::string f = "%F %T|%H|%I|%M|%p|%R|%S|%Q|%q|%a %j %U %W %V %G %u %D %d %e|%r|%X|%OS|%OH"; same(f + "|%Z|%z|%Ez", s, ref(f + "|%Z|%z|%Ez", &x, td, "UTC", &off), n.c_str()); same(f, l, ref(f, &x, td), n.c_str());
    if (y >= 1000 && y <= 9999) { std::ostringstream o, p; o << s; p << l; const std::string want = n; CHECK(o.str() == want && p.str() == want, "operator<< of %s gives %s and %s", want.c_str(), o.str().c_str(), p.str().c_str()); same("%c|%x", s, ref("%c|%x", &x, td), n.c_str()); }
    // and back
    static const char* const FM[] = { "%F %T", "%Y-%m-%dT%H:%M:%SZ", "%F %I:%M:%S %p", "%j/%Y %R:%S", "%S.%M.%H %d %b %Y", "%a %G-W%V-%u %T", "%F %T %z", "%F %T %Ez", "%F %T%z", "%Y%m%d%H%M%S" };
    if (y >= -9999 && y <= 9999) for (const char* g : FM) { const std::string text = ref(g, &x, td, "UTC", &off); ck::step(2); std::istringstream is(text); d::sys_time<D> b{ D{ 77 } }; is >> d::parse(std::string(g), b); CHECK(!is.fail() && b == s, "parsing %s with %s gives %s, expected %s", ck::show(text).c_str(), g, is.fail() ? "a failure" : lib("%F %T", b).c_str(), n.c_str());
        if (!strchr(g, 'z')) { std::istringstream i2(text); d::local_time<D> c{ D{ 77 } }; i2 >> d::parse(g, c); CHECK(!i2.fail() && c == l, "parsing %s with %s (local) gives %s", ck::show(text).c_str(), g, i2.fail() ? "a failure" : lib("%F %T", c).c_str()); } }
    if (y >= 1000 && y <= 9999) for (const char* g : { "%F %X", "%X,%D", "%F %r", "%x %X", "%x %X%n%z", "%F %OH:%OM:%OS", "%EX %F", "%OH %F %R:%S" }) { if ((strchr(g, 'D') || strchr(g, 'x')) && (y < 1969 || y > 2068)) continue;
        const std::string text = ref(g, &x, tod((big)(td.h * 3600 + td.mi * 60 + td.s), 0), "UTC", &off); const seconds whole{ (ll)x.s * 86400 + td.h * 3600 + td.mi * 60 + td.s };
        ck::step(); d::sys_seconds b{ seconds{ 77 } }; std::istringstream is(text); is >> d::parse(std::string(g), b); CHECK(!is.fail() && b.time_since_epoch() == whole, "parsing %s with %s gives %s, expected %s", ck::show(text).c_str(), g, is.fail() ? "a failure" : lib("%F %T", b).c_str(), n.c_str()); }
    // with an offset: the text shows local time
    for (int o : { 60, -60, 330, -210, 839, -719, 1, -1 }) { const std::string t1 = ref("%F %T ", &x, td), t2 = fmtn(o < 0 ? "-%02lld" : "+%02lld", std::abs(o) / 60), t3 = fmtn("%02lld", std::abs(o) % 60); const big want = tot - (big)o * 60 * per_s; if (want > LLONG_MAX || want < -(big)LLONG_MAX || y < -9999 || y > 9999) continue;
        for (int form = 0; form < 3; ++form) { const std::string text = t1 + t2 + (form ? ":" : "") + t3 + (form == 2 ? " CEST" : ""); const char* g = form == 0 ? "%F %T %z" : form == 1 ? "%F %T %Ez" : "%F %T %Oz %Z"; std::istringstream is(text); d::sys_time<D> b{ D{ 77 } }; std::string ab = "?"; minutes of{ 12345 }; is >> d::parse(std::string(g), b, ab, of); ck::step(); CHECK(!is.fail() && (big)b.time_since_epoch().count() == want && of.count() == o && ab == (form == 2 ? "CEST" : ""), "parsing %s with %s gives %s, offset %lld, zone %s", ck::show(text).c_str(), g, is.fail() ? "a failure" : lib("%F %T", b).c_str(), (ll)of.count(), ab.c_str()); } }
}
/// time points in all precisions, printed and parsed back
DOMAIN(instants)
{
    std::vector<int> D0 = { 0, -1, 1, -719468, -719469, 11016, -25508, 19782, 19783, 2932896 - 1, -25567, 10957, serial(-1, 12, 31), serial(-100, 3, 1), serial(5, 1, 1), serial(1582, 10, 15), serial(-9998, 1, 1) };
    for (int d0 : D0) {
        for (ll t : ticks(1, false)) if (ck::mine()) { instant<seconds>(d0, t, 1, 0); if (t == 0) ck::sample("day %d", d0); }
        for (ll t : ticks(1000, false)) if (ck::mine()) instant<milliseconds>(d0, t, 1000, 3);
        for (ll t : ticks(1000000, false)) if (ck::mine()) instant<microseconds>(d0, t, 1000000, 6);
        for (ll t : ticks(1000000000, false)) if (ck::mine()) instant<nanoseconds>(d0, t, 1000000000, 9);
    }
    for (ll t = -90000; t < 90000; t += ck::tier(17, 1)) if (ck::mine()) instant<seconds>(0, t, 1, 0);
}
// ---------------------------------------------------------------- parsing
template <typename T> bool get(const std::string& f, const std::string& text, T& v, std::string* rest = nullptr) { ck::step(); std::istringstream is(text); is >> d::parse(f, v); if (is.fail()) return false; if (rest) { is.clear(); std::string r; std::getline(is, r, '\0'); *rest = r; } return true; }
static YMD ymd(const Date& x) { return YMD{ year{ x.y }, month{ (unsigned)x.m }, day{ (unsigned)x.d } }; }
/// all days round-trip through all date formats
DOMAIN(roundtrip_days)
{
    struct F { const char* f; int lo, hi; };
    static const F FM[] = { { "%F", -9999, 9999 }, { "%Y-%m-%d", -9999, 9999 }, { "%d.%m.%Y", -9999, 9999 }, { "%D", 1969, 2068 }, { "%m/%d/%y", 1969, 2068 }, { "%Y %j", -9999, 9999 }, { "%j,%Y", -9999, 9999 }, { "%G-W%V-%u", -9999, 9999 }, { "%G %V %a", -9999, 9999 }, { "%V %w %G", -9999, 9999 },
        { "%Y %U %w", -9999, 9999 }, { "%Y %U %A", -9999, 9999 }, { "%Y %W %u", -9999, 9999 }, { "%a %W %Y", -9999, 9999 }, { "%C%y%m%d", -9900, 9999 }, { "%y %C %d %m", -9900, 9999 }, { "%d %b %Y", -9999, 9999 }, { "%B %d, %Y", -9999, 9999 }, { "%A, %d %h %Y", -9999, 9999 }, { "%g %V %u", 1970, 2067 },
        { "%Y%m%d", 0, 9999 }, { "%F %a %j %U %W %G %V %u %w %y", -9999, 9999 }, { "%Y %y %m %d", -9999, 9999 }, { "%G %g %V %u", -9999, 9999 }, { "%n%Y%t%m %d", -9999, 9999 }, { "%%%F%%", -9999, 9999 }, { "x%Fz", -9999, 9999 } , { "%Y/%Om/%Od", 1000, 9999 }, { "%EY-%m-%d", 1900, 9999 }, { "%x", 1969, 2068 }, { "%Ex", 1969, 2068 }, { "%Oy %Om %Od", 1969, 2068 }, { "%Ow %F", 1000, 9999 } };
    for (int y : window()) for (int m = 1; m <= 12; ++m) if (ck::mine()) for (int dd = 1; dd <= mdays(y, m); ++dd) {
        ck::state(); const Date x = from_ymd(y, m, dd);
        for (auto& f : FM) if (y >= f.lo && y <= f.hi) { std::string text = ref(f.f, &x, no_tod()); YMD v{}; std::string rest; CHECK(get(f.f, text, v, &rest) && v == ymd(x), "parsing %s with %s gives %s", ck::show(text).c_str(), f.f, v == YMD{} ? "a failure" : lib("%F", v).c_str()); CHECK(rest.empty(), "parsing %s with %s leaves %s", ck::show(text).c_str(), f.f, ck::show(rest).c_str()); }
        const std::string t1 = dn(x); sys_days s; local_days l; CHECK(get("%F", t1, s) && s.time_since_epoch().count() == x.s && get("%F", t1, l) && l.time_since_epoch().count() == x.s, "parsing %s as sys_days or local_days", t1.c_str());
        weekday wd{ 9u }; CHECK(get("%F", t1, wd) && (int)wd.c_encoding() == x.wd, "the weekday of %s is parsed as %u", t1.c_str(), wd.c_encoding());
        if (dd == 1) ck::sample("%s", ref("%F %a %j %U %W %G %V %u %w %y", &x, no_tod()).c_str());
    }
    for (int y = -32767; y <= 32767; ++y) if (ck::mine()) { ck::state(); year v{ 7 }; CHECK(get("%5Y", year4(y), v) && (int)v == y, "year %d is parsed as %d", y, (int)v); YMD q; CHECK(get("%5F", year4(y) + "-03-01", q) && (int)q.year() == y && q.month() == month{ 3 } && q.day() == day{ 1 }, "%%5F of year %d gives %d", y, (int)q.year()); if (y >= -9900 && y < 10000) { const std::string t = ref("%C %y", &static_cast<const Date&>(from_ymd(y, 1, 1)), no_tod()); CHECK(get("%C %y", t, v) && (int)v == y, "%s is parsed as year %d instead of %d", t.c_str(), (int)v, y); } d::year_month ym; CHECK(get("%5Y/%m", year4(y) + "/11", ym) && (int)ym.year() == y && ym.month() == month{ 11 }, "year_month of year %d", y); }
    for (int y = 0; y < 100; ++y) if (ck::mine()) { year v; CHECK(get("%y", fmtn("%02lld", y), v) && (int)v == (y < 69 ? 2000 : 1900) + y, "two-digit year %d is parsed as %d", y, (int)v); if (y < 10) CHECK(get("%y", std::to_string(y), v) && (int)v == 2000 + y, "one-digit year %d", y); }
}
// a reference decision for formats consisting of numeric fields and literals
struct Fields { int Y = INT_MIN, m = INT_MIN, d = INT_MIN, j = INT_MIN, wd = INT_MIN, U = INT_MIN, W = INT_MIN, G = INT_MIN, V = INT_MIN, H = INT_MIN, M = INT_MIN, I = INT_MIN, p = INT_MIN; ll S = LLONG_MIN; };
/// The date that the fields determine, if there is exactly one and all fields agree with it
static bool date_of(const Fields& f, Date& x)
{
    int s = INT_MIN;
    const bool wdok = f.wd != INT_MIN;
    if (f.G != INT_MIN && f.V != INT_MIN && wdok) { if (f.V < 1 || iso_start(f.G) + (f.V - 1) * 7 >= iso_start(f.G + 1)) return false; s = iso_start(f.G) + (f.V - 1) * 7 + (f.wd + 6) % 7; }
    else if (f.Y != INT_MIN) {
        if (f.m != INT_MIN && f.d != INT_MIN) { if (f.m < 1 || f.m > 12 || f.d < 1 || f.d > mdays(f.Y, f.m)) return false; s = serial(f.Y, f.m, f.d); }
        else if (f.j != INT_MIN) { if (f.j < 1 || f.j > (leap(f.Y) ? 366 : 365)) return false; s = jan1(f.Y) + f.j - 1; }
        else if (f.U != INT_MIN && wdok) { for (int t = jan1(f.Y), u = 0; t < jan1(f.Y + 1); ++t) { if (wday(t) == 0) ++u; if (u == f.U && wday(t) == f.wd) s = t; } if (s == INT_MIN) return false; }
        else if (f.W != INT_MIN && wdok) { for (int t = jan1(f.Y), u = 0; t < jan1(f.Y + 1); ++t) { if (wday(t) == 1) ++u; if (u == f.W && wday(t) == f.wd) s = t; } if (s == INT_MIN) return false; }
        else return false;
    } else return false;
    int y = f.Y; if (y == INT_MIN) { y = f.G; if (s < jan1(y)) --y; else if (s >= jan1(y + 1)) ++y; }
    if (s < jan1(y) || s >= jan1(y + 1)) return false;
    int m = 1, r = s - jan1(y); while (r >= mdays(y, m)) { r -= mdays(y, m); ++m; }
    x = from_ymd(y, m, r + 1);
    auto ag = [](int a, int b) { return a == INT_MIN || a == b; };
    return ag(f.m, x.m) && ag(f.d, x.d) && ag(f.j, x.yd) && ag(f.wd, x.wd) && ag(f.U, x.U) && ag(f.W, x.W) && ag(f.G, x.G) && ag(f.V, x.V);
}
static void judge(const char* f, const std::string& text, const Fields& fl)
{
    ck::state(); Date x; const bool ok = date_of(fl, x); const YMD before{ year{ 1234 }, month{ 5 }, day{ 6 } }; YMD v = before; const bool got = get(f, text, v);
    CHECK(got == ok, "parsing %s with %s %s", ck::show(text).c_str(), f, got ? ("succeeds and gives " + lib("%F", v)).c_str() : "fails"); CHECK(ok ? v == ymd(x) : v == before, "parsing %s with %s %s %s", ck::show(text).c_str(), f, ok ? "gives" : "fails but changes the value to", lib("%F", v).c_str());
    sys_days s{ days{ 3 } }; const bool g2 = get(f, text, s); CHECK(g2 == ok && s.time_since_epoch().count() == (ok ? x.s : 3), "parsing %s with %s as sys_days %s", ck::show(text).c_str(), f, g2 ? "succeeds" : "fails");
}
/// all values of all numeric fields, consistent or not
DOMAIN(field_values)
{
    const int YS[] = { 2024, 2023, 1900, 2000, 1999, 2015, 2020, 2021, 1970, 1, 9999 };
    for (int y : YS) {
        const std::string Y = year4(y);
        for (int m = 0; m <= 99; ++m) if (ck::mine()) for (int dd = 0; dd <= 99; ++dd) { Fields f; f.Y = y; f.m = m; f.d = dd; judge("%F", Y + fmtn("-%02lld", m) + fmtn("-%02lld", dd), f); judge("%d.%m.%Y", fmtn("%02lld.", dd) + fmtn("%02lld.", m) + Y, f); if (m < 10 && dd < 10) judge("%Y/%m/%d", Y + "/" + std::to_string(m) + "/" + std::to_string(dd), f); if (y >= 1969 && y < 2069) { judge("%D", fmtn("%02lld/", m) + fmtn("%02lld/", dd) + fmtn("%02lld", y % 100), f); if (m < 10 || dd < 10) judge("%D", std::to_string(m) + "/" + std::to_string(dd) + "/" + std::to_string(y % 100), f); } if (m >= 1 && m <= 12) judge("%d %b %Y", fmtn("%02lld ", dd) + std::string(MN[m - 1], 3) + " " + Y, f); }
        for (int j = 0; j <= 999; ++j) if (ck::mine()) { Fields f; f.Y = y; f.j = j; judge("%Y-%j", Y + fmtn("-%03lld", j), f); for (int m = 1; m <= 12; m += 11) for (int dd : { 1, 31 }) { Fields g = f; g.m = m; g.d = dd; judge("%F %j", Y + fmtn("-%02lld", m) + fmtn("-%02lld ", dd) + fmtn("%03lld", j), g); } }
        for (int w = 0; w <= 99; ++w) if (ck::mine()) for (int k = 0; k <= 9; ++k) {
            { Fields f; f.Y = y; f.U = w; f.wd = k <= 6 ? k : 99; judge("%Y %U %w", Y + fmtn(" %02lld", w) + fmtn(" %lld", k), f); Fields g; g.Y = y; g.W = w; g.wd = k >= 1 && k <= 7 ? k % 7 : 99; judge("%Y %W %u", Y + fmtn(" %02lld", w) + fmtn(" %lld", k), g); }
            { Fields f; f.G = y; f.V = w; f.wd = k >= 1 && k <= 7 ? k % 7 : 99; if (f.wd == 99) { YMD v = YMD{}; CHECK(!get("%G-W%V-%u", Y + fmtn("-W%02lld", w) + fmtn("-%lld", k), v), "weekday %d is accepted", k); } else judge("%G-W%V-%u", Y + fmtn("-W%02lld", w) + fmtn("-%lld", k), f); }
        }
        // redundant fields
        for (int m = 1; m <= 12; ++m) for (int dd : { 1, 2, 3, 4, 27, 28, 29, 30, 31 }) if (ck::mine()) {
            const std::string t = Y + fmtn("-%02lld", m) + fmtn("-%02lld ", dd); Fields b; b.Y = y; b.m = m; b.d = dd;
            for (int k = 0; k < 7; ++k) { Fields f = b; f.wd = k; judge("%F %a", t + std::string(WD[k], 3), f); judge("%F %A", t + WD[k], f); judge("%F %w", t + std::to_string(k), f); judge("%F %u", t + std::to_string(k ? k : 7), f); }
            for (int w = 0; w <= 54; ++w) { Fields f = b; f.U = w; judge("%F %U", t + fmtn("%02lld", w), f); f = b; f.W = w; judge("%F %W", t + fmtn("%02lld", w), f); f = b; f.V = w; judge("%F %V", t + fmtn("%02lld", w), f); }
            for (int g = y - 2; g <= y + 2; ++g) if (g <= 9999) { Fields f = b; f.G = g; judge("%F %G", t + year4(g), f); }
            for (int k = 0; k < 100; ++k) { YMD v = YMD{}; CHECK(get("%F %y", t + fmtn("%02lld", k), v) == (k == y % 100 && YMD(year{ y }, month{ (unsigned)m }, day{ (unsigned)dd }).ok()), "year %d with two-digit year %d", y, k); }
            for (int m2 = 1; m2 <= 12; ++m2) { Fields f = b; if (m2 != m) f.m = 99; judge("%F %b", t + std::string(MN[m2 - 1], 3), f); judge("%F %B", t + MN[m2 - 1], f); judge("%F %m", t + fmtn("%02lld", m2), f); }
        }
    }
    // partial types
    for (int m = 0; m <= 99; ++m) if (ck::mine()) for (int dd = 0; dd <= 99; ++dd) {
        ck::state(); d::month_day md{ month{ 1 }, day{ 2 } }; const bool ok = m >= 1 && m <= 12 && dd >= 1 && dd <= mdays(2000, m); const bool got = get("%m-%d", fmtn("%02lld-", m) + fmtn("%02lld", dd), md); CHECK(got == ok && md == (ok ? d::month_day{ month{ (unsigned)m }, day{ (unsigned)dd } } : d::month_day{ month{ 1 }, day{ 2 } }), "month_day %02d-%02d: %s", m, dd, got ? "accepted" : "rejected or changed");
        if (dd == 0) { month v{ 5 }; const bool g = get("%m", fmtn("%02lld", m), v); CHECK(g == (m >= 1 && m <= 12) && v == month{ (unsigned)(g ? m : 5) }, "month %d", m); day w{ 5 }; const bool h = get("%d", fmtn("%02lld", m), w); CHECK(h == (m >= 1 && m <= 31) && w == day{ (unsigned)(h ? m : 5) }, "day %d", m); d::year_month ym{ year{ 1 }, month{ 2 } }; const bool q = get("%Y-%m", "2021-" + fmtn("%02lld", m), ym); CHECK(q == (m >= 1 && m <= 12) && ym == (q ? d::year_month{ year{ 2021 }, month{ (unsigned)m } } : d::year_month{ year{ 1 }, month{ 2 } }), "year_month 2021-%02d", m); }
    }
    if (ck::mine()) { d::year_month ym{ year{ 1 }, month{ 2 } }; CHECK(!get("%m", "03", ym) && !get("%Y", "2021", ym) && !get("%5Y-%m", "40000-03", ym) && ym == (d::year_month{ year{ 1 }, month{ 2 } }), "an incomplete or out-of-range year_month is accepted"); d::month_day md{ month{ 1 }, day{ 2 } }; CHECK(!get("%m", "03", md) && !get("%d", "03", md), "an incomplete month_day is accepted"); YMD v{}; CHECK(!get("%Y-%m", "2021-03", v) && !get("%m-%d", "03-04", v) && !get("%j", "123", v) && !get("%5F", "40000-01-01", v) && !get("%G-%V", "2021-03", v) && !get("%V %u", "03 4", v) && !get("%T", "01:02:03", v), "an incomplete or out-of-range date is accepted"); weekday w{ 3u }; CHECK(!get("%w", "7", w) && !get("%u", "0", w) && !get("%u", "8", w) && w == weekday{ 3u }, "an invalid weekday is accepted"); seconds s{ 5 }; CHECK(!get("%F", "2021-03-04", s) && s == seconds{ 5 }, "a date is accepted as a duration"); }
    // wide fields must not wrap around
    for (int k = 0; k <= 999; ++k) if (ck::mine()) { YMD v{}; const std::string n = fmtn("%03lld", k); CHECK(get("%Y-%3m-%d", "2021-" + n + "-01", v) == (k >= 1 && k <= 12), "month %s is accepted or rejected wrongly", n.c_str()); CHECK(get("%Y-%m-%3d", "2021-01-" + n, v) == (k >= 1 && k <= 31), "day %s is accepted or rejected wrongly", n.c_str()); CHECK(get("%Y %3U %w", "2021 " + n + " 0", v) == (k >= 1 && k <= 52), "week %s (%%U)", n.c_str()); CHECK(get("%Y %3W %u", "2021 " + n + " 1", v) == (k >= 1 && k <= 52), "week %s (%%W)", n.c_str()); CHECK(get("%G %3V %u", "2021 " + n + " 1", v) == (k >= 1 && k <= 52), "week %s (%%V)", n.c_str()); }
    // names: any case, abbreviated or full, nothing else
    for (int k = 0; k < 12; ++k) if (ck::mine()) for (int len = 0; len <= 10; ++len) for (int cs = 0; cs < 2; ++cs) { std::string t = std::string(MN[k]).substr(0, (size_t)len); const bool ok = len == 3 || len >= (int)strlen(MN[k]); if (cs) for (auto& c : t) c = (char)toupper(c); month v{ 99 }; const bool g = get("%b", t, v); if (ok) CHECK(g && v == month{ (unsigned)k + 1 }, "month name %s: %s", t.c_str(), g ? "wrong" : "rejected"); else CHECK(!g, "month name %s is accepted", t.c_str()); if (ok) { std::string rest; const bool g4 = get("%B", t + "x9", v, &rest); CHECK(g4 && v == month{ (unsigned)k + 1 } && rest == "x9", "month name %s followed by text: %s", t.c_str(), g4 ? ck::show(rest).c_str() : "rejected"); } if (k < 7) { std::string u = std::string(WD[k]).substr(0, (size_t)len); const bool ok2 = len == 3 || len >= (int)strlen(WD[k]); if (cs) for (auto& c : u) c = (char)toupper(c); weekday w{ 3u }; const bool g2 = get("%a", u, w); if (ok2) CHECK(g2 && w == weekday{ (unsigned)k }, "weekday name %s: %s", u.c_str(), g2 ? "wrong" : "rejected"); else CHECK(!g2, "weekday name %s is accepted", u.c_str()); if (ok2) { std::string rest; const bool g4 = get("%A", u + "x9", w, &rest); CHECK(g4 && w == weekday{ (unsigned)k } && rest == "x9", "weekday name %s followed by text: %s", u.c_str(), g4 ? ck::show(rest).c_str() : "rejected"); } } }
}
/// all values of the time fields
DOMAIN(time_values)
{
    auto judge_t = [](const char* f, const std::string& text, bool ok, ll want) { ck::state(); d::sys_seconds v{ seconds{ 7 } }; const bool g = get(std::string("%F ") + f, "1970-01-02 " + text, v); CHECK(g == ok && v.time_since_epoch().count() == (ok ? 86400 + want : 7), "parsing %s with %s %s %lld s", ck::show(text).c_str(), f, g ? "gives" : "fails and leaves", (ll)v.time_since_epoch().count() - 86400); d::local_seconds l{ seconds{ 7 } }; CHECK(get(std::string("%F ") + f, "1970-01-02 " + text, l) == ok && l.time_since_epoch().count() == (ok ? 86400 + want : 7), "parsing %s with %s as a local time", ck::show(text).c_str(), f); };
    for (int h = 0; h <= 99; ++h) if (ck::mine()) for (int m = 0; m <= 99; ++m) for (int s : { 0, 1, 9, 10, 59, 60, 61, 99 }) { const bool ok = h < 24 && m < 60 && s < 60; const ll w = h * 3600 + m * 60 + s; judge_t("%T", fmtn("%02lld:", h) + fmtn("%02lld:", m) + fmtn("%02lld", s), ok, w); judge_t("%H-%M-%S", fmtn("%02lld-", h) + fmtn("%02lld-", m) + fmtn("%02lld", s), ok, w); if (s == 0) { judge_t("%R", fmtn("%02lld:", h) + fmtn("%02lld", m), ok, w); for (const char* p : { "AM", "PM" }) { const bool ok2 = h >= 1 && h <= 12 && m < 60; const ll w2 = (h % 12 + (*p == 'P' ? 12 : 0)) * 3600 + m * 60; judge_t("%I:%M %p", fmtn("%02lld:", h) + fmtn("%02lld ", m) + p, ok2, w2); } }
        if (m == 5 && h < 10 && s < 10) judge_t("%H:%M:%S", std::to_string(h) + ":5:" + std::to_string(s), true, h * 3600 + 300 + s); }
    for (int h = 0; h <= 25; ++h) if (ck::mine()) for (int i = 0; i <= 13; ++i) { const bool okh = h < 24 && i >= 1 && i <= 12 && h % 12 == i % 12; judge_t("%H %I", fmtn("%02lld ", h) + fmtn("%02lld", i), okh, h * 3600); for (int p = 0; p < 2; ++p) judge_t("%H %I %p", fmtn("%02lld ", h) + fmtn("%02lld ", i) + (p ? "PM" : "AM"), okh && (h >= 12) == (p == 1), h * 3600); if (i >= 1 && i <= 12) { d::sys_seconds v; CHECK(!get("%F %I", "1970-01-02 " + fmtn("%02lld", i), v), "an ambiguous hour is accepted"); } }
    for (int h = 0; h <= 99; ++h) if (ck::mine()) for (int m = 0; m <= 99; m += 1) for (int sg = 0; sg < 2; ++sg) for (int form = 0; form < 2; ++form) { if (m >= 60) continue; /* offsets beyond an hour's minutes: not covered */ const std::string z = (sg ? "-" : "+") + fmtn("%02lld", h) + (form ? ":" : "") + fmtn("%02lld", m); d::sys_seconds v; const bool g = get(form ? "%F %T%Ez" : "%F %T%z", "1970-01-02 12:00:00" + z, v); ck::state(); CHECK(g && v.time_since_epoch().count() == 129600 - (sg ? -1 : 1) * (h * 3600 + m * 60), "offset %s: %s", z.c_str(), g ? std::to_string(v.time_since_epoch().count()).c_str() : "rejected"); d::local_seconds l; CHECK(get(form ? "%F %T%Ez" : "%F %T%z", "1970-01-02 12:00:00" + z, l) && l.time_since_epoch().count() == 129600, "offset %s changes a local time", z.c_str()); }
    // subseconds
    for (int n = 0; n <= 9; ++n) if (ck::mine()) for (ll v : { 0LL, 1LL, 5LL, 9LL, 12LL, 99LL, 123LL, 999LL, 12345LL, 999999LL, 123456789LL, 999999999LL }) { std::string t = std::to_string(v); if ((int)t.size() > n) continue; t = std::string((size_t)n - t.size(), '0') + t; ll ns = v; for (int i = n; i < 9; ++i) ns *= 10; const std::string text = "1970-01-01 00:00:41" + (n ? "." + t : std::string()); d::sys_time<nanoseconds> q; CHECK(get("%F %T", text, q) && q.time_since_epoch().count() == 41000000000LL + ns, "parsing %s gives %lld ns", text.c_str(), (ll)q.time_since_epoch().count()); if (n <= 6) { d::sys_time<microseconds> u; CHECK(get("%F %T", text, u) && u.time_since_epoch().count() == 41000000LL + ns / 1000, "parsing %s gives %lld us", text.c_str(), (ll)u.time_since_epoch().count()); } if (n <= 3) { d::sys_time<milliseconds> u; CHECK(get("%F %H:%M:%S", text, u) && u.time_since_epoch().count() == 41000LL + ns / 1000000, "parsing %s gives %lld ms", text.c_str(), (ll)u.time_since_epoch().count()); } ck::state(); ck::step(3); }
    // durations
    for (int h = 0; h <= 99; ++h) if (ck::mine()) for (int m = 0; m < 60; ++m) { ck::state(); const std::string t = fmtn("%02lld:", h) + fmtn("%02lld", m); minutes a{ 1 }; CHECK(get("%R", t, a) && a.count() == h * 60 + m && get("%H:%M", t, a) && a.count() == h * 60 + m, "duration %s is parsed as %lld min", t.c_str(), (ll)a.count()); for (int s : { 0, 7, 59 }) { const std::string u = t + fmtn(":%02lld", s); seconds b{ 1 }; CHECK(get("%T", u, b) && b.count() == h * 3600 + m * 60 + s, "duration %s is parsed as %lld s", u.c_str(), (ll)b.count()); milliseconds c{ 1 }; CHECK(get("%T", u + ".250", c) && c.count() == (h * 3600 + m * 60 + s) * 1000LL + 250, "duration %s.250 is parsed as %lld ms", u.c_str(), (ll)c.count()); } if (m == 0) { hours x{ 1 }; CHECK(get("%H", fmtn("%02lld", h), x) && x.count() == h, "hours"); } else if (h == 0) { seconds b; CHECK(get("%S", fmtn("%02lld", m), b) && b.count() == m && get("%M:%S", fmtn("%02lld:30", m), b) && b.count() == m * 60 + 30, "%%S or %%M:%%S of %d", m); } seconds b; if (m == 7) CHECK(get("%j %R", fmtn("%03lld ", h) + "01:07", b) && b.count() == h * 86400LL + 4020, "%%j %%R of %d days", h); }
}
/// all single-character changes of a text, decided by a reference grammar
static bool ref_num(const std::string& t, size_t& i, int max, int& v) { int n = 0; v = 0; while (n < max && i < t.size() && t[i] >= '0' && t[i] <= '9') { v = v * 10 + (t[i++] - '0'); ++n; } return n > 0; }
static int ref_parse(const std::string& f, const std::string& t, Fields& r, size_t& pos) // 1: match, 0: no match, -1: undecided
{
    size_t i = 0; static const std::string sp = " \t\n\v\f\r";
    for (size_t k = 0; k < f.size(); ++k) {
        if (f[k] == ' ') { while (i < t.size() && sp.find(t[i]) != std::string::npos) ++i; continue; }
        if (f[k] != '%') { if (i >= t.size() || t[i] != f[k]) return 0; ++i; continue; }
        const char c = f[++k]; int v;
        if (i < t.size() && (t[i] == '+' || t[i] == '-') && strchr("YmdI", c)) return -1;
        if (c == 'S' && t.substr(i, 2).find('.') != std::string::npos) return -1; // fractions where whole seconds are wanted: not covered
        if (!ref_num(t, i, c == 'Y' ? 4 : c == 'j' ? 3 : 2, v)) return 0;
        switch (c) { case 'Y': r.Y = v; break; case 'm': r.m = v; break; case 'd': r.d = v; break; case 'j': r.j = v; break; case 'H': r.H = v; break; case 'M': r.M = v; break; case 'S': r.S = v; break; }
    }
    pos = i; return 1;
}
DOMAIN(text_changes)
{
    const std::string chars = std::string("0123456789-:/. \tTxAa%+") + '\0' + "\xff";
    struct B { const char* f; const char* t; }; static const B BS[] = { { "%Y-%m-%d %H:%M:%S", "2024-02-29 23:59:58" }, { "%Y-%m-%d %H:%M:%S", "1999-12-31 00:00:00" }, { "%Y-%m-%dT%H:%M:%S", "2023-10-05T07:08:09" }, { "%d/%m/%Y %H:%M", "31/12/1970 20:30" }, { "%Y %j %H", "2024 366 11" }, { "%Y%m%d%H%M%S", "20240229235958" }, { "x%Yx%mx%dx", "x2001x1x9x" }, { "%H:%M:%S %d.%m.%Y", "1:2:3 4.5.2006" } };
    auto one = [](const B& b, const std::string& t) {
        ck::state(); Fields r; size_t pos = 0; const int q = ref_parse(b.f, t, r, pos); if (q < 0) return; Date x{}; bool ok = q == 1 && date_of(r, x); const int H = r.H == INT_MIN ? 0 : r.H, M = r.M == INT_MIN ? 0 : r.M; const ll S = r.S == LLONG_MIN ? 0 : r.S; if (ok) ok = H < 24 && M < 60 && S < 60;
        // text that ends before a trailing space directive or field counts as a failure in the reference
        d::sys_seconds v{ seconds{ 7 } }; std::string rest; const bool g = get(b.f, t, v, &rest);
        CHECK(g == ok, "parsing %s with %s %s", ck::show(t).c_str(), b.f, g ? ("succeeds and gives " + lib("%F %T", v)).c_str() : "fails"); CHECK(v.time_since_epoch().count() == (ok ? (ll)x.s * 86400 + H * 3600 + M * 60 + S : 7), "parsing %s with %s gives %s", ck::show(t).c_str(), b.f, lib("%F %T", v).c_str()); if (ok) CHECK(rest == std::string(t.c_str() + pos), "parsing %s with %s leaves %s", ck::show(t).c_str(), b.f, ck::show(rest).c_str()); };
    for (auto& b : BS) { const std::string t = b.t; const int n = (int)t.size();
        for (int i = 0; i <= n; ++i) if (ck::mine()) {
            one(b, t.substr(0, (size_t)i)); if (i < n) { std::string u = t; u.erase((size_t)i, 1); one(b, u); }
            for (char c : chars) { std::string u = t; u.insert((size_t)i, 1, c); if (c) one(b, u); if (i < n) { u = t; u[(size_t)i] = c; if (c) one(b, u); for (int k = i + 1; k < n; ++k) for (char e : chars) { if (!c || !e) continue; std::string w = u; w[(size_t)k] = e; if (ck::thorough() || (k + i) % 3 == 0) one(b, w); } } }
            if (i == 3) ck::sample("%s with %s", b.t, b.f);
        } }
}
/// Date and weekday that contradict each other cannot be formatted
DOMAIN(contradictory_fields)
{
    for (int n = -400; n < 400; ++n) if (ck::mine()) {
        const sys_days sd{ days{ n * 53 } }; const YMD ymd{ sd }; const weekday w{ sd };
        for (unsigned k = 0; k < 7; ++k) for (const char* f : { "%a", "%A", "%u", "%w" }) {
            ck::state(); ck::step(); std::ostringstream o, p; d::to_stream(o, f, d::fields<seconds>{ ymd, weekday{ k } }); d::to_stream(p, f, w);
            if (weekday{ k } == w) CHECK(!o.fail() && o.str() == p.str(), "%s of a date with its weekday gives \"%s\", expected \"%s\"", f, o.str().c_str(), p.str().c_str());
            else CHECK(o.fail(), "%s of a date with weekday %u instead of %u does not fail", f, k, w.c_encoding());
        }
    }
}
/// stream state
DOMAIN(streams)
{
    for (int k = 0; k < 64; ++k) if (ck::mine()) {
        ck::state(); std::ostringstream o; o << std::setfill('*') << std::setprecision(3); if (k & 1) o << std::hex; if (k & 2) o << std::showbase; if (k & 4) o << std::left; if (k & 8) o << std::showpos; if (k & 16) o << std::uppercase; if (k & 32) o << std::setw(30); const auto fl = o.flags();
        d::to_stream(o, "%F %T %j %C %y %D %e %G", d::sys_time<milliseconds>{ milliseconds{ 86400123 } }); CHECK(o.str() == "1970-01-02 00:00:00.123 002 19 70 01/02/70  2 1970" || (k & 32), "formatting into a stream with unusual flags gives %s", o.str().c_str()); CHECK(o.flags() == fl && o.fill() == '*' && o.precision() == 3, "formatting changes the state of the stream (flags %d)", k);
        o << std::setw(0); const size_t at = o.str().size(); o << YMD{ year{ 2021 }, month{ 3 }, day{ 4 } }; CHECK(o.str().substr(at) == "2021-03-04" && o.flags() == fl && o.fill() == '*', "operator<< of a date in a stream with unusual flags gives %s", o.str().substr(at).c_str());
        std::istringstream i("2021-03-04 05:06:07 rest"); if (k & 1) i >> std::hex; if (k & 2) i >> std::noskipws; const auto f2 = i.flags(); d::sys_seconds v; i >> d::parse("%F %T", v); std::string rest; CHECK(!i.fail() && i.flags() == f2 && lib("%F %T", v) == "2021-03-04 05:06:07", "parsing from a stream with unusual flags"); std::getline(i, rest); CHECK(rest == " rest", "parsing leaves %s", rest.c_str());
    }
    if (ck::mine()) { ck::state(); CHECK(d::format(L"%F %T", d::sys_seconds{ seconds{ 12345678 } }) == L"1970-05-23 21:21:18" && d::format(L"%a %b %e %j", sys_days{ days{ 100 } }) == L"Sat Apr 11 101", "wide formatting"); std::wistringstream w(L"1970-05-23 21:21:18"); d::sys_seconds v; w >> d::parse(std::wstring(L"%F %T"), v); CHECK(!w.fail() && v.time_since_epoch().count() == 12345678, "wide parsing"); CHECK(d::format(std::locale::classic(), "%F", sys_days{}) == "1970-01-01" && d::format(std::locale::classic(), std::string("%F"), sys_days{}) == "1970-01-01" && d::format("%F", sys_days{}) == "1970-01-01", "format with a locale");
        std::istringstream i("2021-03-04 x"); YMD a{}, b{}; i >> d::parse("%F", a) >> d::parse("%F", b); CHECK(a == YMD(year{ 2021 }, month{ 3 }, day{ 4 }) && b == YMD{} && i.fail(), "parsing two dates in a row"); std::istringstream j("2021-03-04,2020-02-29;"); YMD c{}; char ch = 0; j >> d::parse("%F,", a) >> d::parse("%F", c) >> ch; CHECK(!j.fail() && ch == ';' && c == YMD(year{ 2020 }, month{ 2 }, day{ 29 }), "parsing a list of dates"); }
}
/// durations with floating-point ticks: exact binary fractions print as hours, minutes and two-digit seconds with a decimal fraction
DOMAIN(floating_durations)
{
    using D = std::chrono::duration<double>; using M = std::chrono::duration<double, std::milli>;
    for (ll h : { 0, 1, 9, 10, 23 }) for (ll m : { 0, 7, 59 }) for (int s = 0; s < 60; ++s) if (ck::mine()) for (int f = 0; f < 8; ++f) for (int neg = 0; neg < 2; ++neg) {
        const double v = (double)(h * 3600 + m * 60 + s) + f / 8.0; if (neg && v == 0) continue;
        char head[32]; snprintf(head, sizeof head, "%s%02lld:%02lld:%02d.%03d", neg ? "-" : "", h, m, s, f * 125); ck::state(); ck::step(4);
        auto ok = [&](std::string g, const char* what, std::string want) { while (g.size() > want.size() && g.back() == '0') g.pop_back(); CHECK(g == want, "%s of %g floating-point seconds gave %s, expected %s", what, v, g.c_str(), want.c_str()); };
        ok(lib("%T", D(neg ? -v : v)), "%T", head); std::ostringstream o; o << d::hh_mm_ss<D>(D(neg ? -v : v)); ok(o.str(), "operator<<", head); ok(lib("%T", M((neg ? -v : v) * 1000)), "%T (ms)", head);
        if (!neg) { ok(lib("%S", D(v)), "%S", head + 6); ok(lib("%F %T", d::sys_time<D>(D(v + 86400 * 365))), "%F %T", std::string("1971-01-01 ") + head); }
    }
}
/// Modifiers apply to the conversions they are defined for; everything else is copied literally, with its surroundings intact
DOMAIN(modifiers)
{
    const std::string all = "aAbBhcCdDeFgGHIjmMnpQqrRStTuUVwWxXyYzZ%", E = "cCxXyYz", O = "deHImMSuUVwWyz";
    for (char m : { 'E', 'O' }) for (char c : all) for (ll t : { 0LL, 1600000000LL, -1LL, 4102444799LL }) if (ck::mine()) {
        const bool def = (m == 'E' ? E : O).find(c) != std::string::npos; const d::sys_seconds tp{ seconds{ t } }; ck::state(); ck::step(2);
        const std::string spec = std::string("%") + m + c, g = lib(("[" + spec + "] %d").c_str(), tp), day = lib("%d", tp);
        std::string want = def ? lib((std::string("%") + c).c_str(), tp) : spec; if (def && c == 'z') want = "+00:00";
        CHECK(g == "[" + want + "] " + day, "format [%s] %%d of %lld gave %s", spec.c_str(), t, g.c_str());
    }
}
/// invalid dates are marked as such
DOMAIN(invalid_output)
{
    auto pr = [](const auto& x) { std::ostringstream o; o << x; return o.str(); };
    for (unsigned m : { 0u, 13u, 99u, 255u }) for (unsigned w : { 0u, 3u, 6u }) if (ck::mine()) {
        ck::state(); ck::step(6); auto bad = [&](const std::string& s, const char* what) { CHECK(s.find(std::string(" is not a valid ") + what) != std::string::npos, "operator<< of an invalid %s gives %s", what, s.c_str()); };
        bad(pr(d::year_month{ year{ 2020 }, month{ m } }), "year_month"); bad(pr(d::month_day_last{ month{ m } }), "month_day_last"); bad(pr(d::month_weekday{ month{ m }, weekday{ w }[1] }), "month_weekday"); bad(pr(d::month_weekday_last{ month{ m }, weekday{ w }[d::last] }), "month_weekday_last"); bad(pr(d::year_month_day_last{ year{ 2020 }, d::month_day_last{ month{ m } } }), "year_month_day_last"); bad(pr(d::year_month_weekday_last{ year{ 2020 }, month{ m }, weekday{ w }[d::last] }), "year_month_weekday_last");
        if (m > 7) bad(pr(d::weekday_last{ weekday{ m } }), "weekday_last");
    }
}

// The same in another locale, with groups of three digits as usual (the decimal point follows the locale)
static const char group3 = ck::group() = 3, point = ck::point() = '.';
static const bool no_casing = ck::casing() = false; // names are compared by the rules of the stream's locale
FOREIGN(format_days, false);
FOREIGN(specifiers, false);
FOREIGN(partial_types, false);
FOREIGN(instants, false);
FOREIGN(field_values, false);
FOREIGN(time_values, false);
FOREIGN(text_changes, false);
FOREIGN(contradictory_fields, false);
FOREIGN(streams, false);
FOREIGN(modifiers, false);
FOREIGN(invalid_output, false);
FOREIGN(roundtrip_days, false);
