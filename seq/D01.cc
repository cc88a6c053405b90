// D01: calendar arithmetic against a day-by-day walk through the proleptic Gregorian calendar.
#include "ck.h"
#include "gul14/date.h"
#include <array>
#include <chrono>
#include <limits>
namespace d = gul14::date;
using d::days; using d::months; using d::years; using d::sys_days; using d::local_days;
using d::year; using d::month; using d::day; using d::weekday;
typedef d::year_month_day YMD;

// ---------------------------------------------------------------- reference: counting days
static bool leap(int y) { if (y % 400 == 0) return true; if (y % 100 == 0) return false; return y % 4 == 0; }
static int mdays(int y, int m) { switch (m) { case 4: case 6: case 9: case 11: return 30; case 2: return leap(y) ? 29 : 28; default: return 31; } }
/// serial number of January 1st, by summing the lengths of all years since 1970
static const int* year_table() { static int t[65540]; static bool init = false; if (!init) { init = true; t[32768 + 1970] = 0; for (int y = 1971; y <= 32768; ++y) t[32768 + y] = t[32768 + y - 1] + (leap(y - 1) ? 366 : 365); for (int y = 1969; y >= -32768; --y) t[32768 + y] = t[32768 + y + 1] - (leap(y) ? 366 : 365); } return t; }
static int jan1(int y) { return year_table()[32768 + y]; }
static int serial(int y, int m, int dd) { int s = jan1(y); for (int i = 1; i < m; ++i) s += mdays(y, i); return s + dd - 1; }
static int wday(int s) { int w = (s % 7 + 7) % 7; return (w + 4) % 7; } // 1970-01-01 was a Thursday
static int cnt(sys_days s) { return s.time_since_epoch().count(); }
static int cnt(local_days s) { return s.time_since_epoch().count(); }
static bool is(const YMD& x, int y, int m, int dd) { return (int)x.year() == y && (unsigned)x.month() == (unsigned)m && (unsigned)x.day() == (unsigned)dd; }
static YMD mk(int y, int m, int dd) { return YMD{ year{ y }, month{ (unsigned)m }, day{ (unsigned)dd } }; }

/// every day of the supported range
DOMAIN(every_day)
{
    for (int y = -32767; y <= 32767; ++y) if (ck::mine()) {
        int s = jan1(y); CHECK(year{ y }.is_leap() == leap(y), "is_leap of year %d", y); CHECK((int)year{ y } == y && year{ y }.ok(), "year %d", y);
        if (y % 400 == 3) CHECK(wday(jan1(y)) == 3, "internal: weekday"); // 1 January 2003 was a Wednesday, and the calendar repeats every 400 years
        for (int m = 1; m <= 12; ++m) {
            const int n = mdays(y, m); int cntwd[7] = {};
            for (int dd = 1; dd <= n; ++dd, ++s) {
                ck::state(); ck::step(6);
                const YMD x = mk(y, m, dd); const sys_days sd{ days{ s } }; const local_days lo{ days{ s } };
                CHECK(x.ok(), "%d-%d-%d is not ok", y, m, dd);
                CHECK(cnt(sys_days(x)) == s && cnt(local_days(x)) == s, "%d-%d-%d has the serial number %d, expected %d", y, m, dd, cnt(sys_days(x)), s);
                CHECK(is(YMD(sd), y, m, dd) && is(YMD(lo), y, m, dd) && YMD(sd) == x, "day %d is %d-%u-%u, expected %d-%d-%d", s, (int)YMD(sd).year(), (unsigned)YMD(sd).month(), (unsigned)YMD(sd).day(), y, m, dd);
                const weekday w{ sd }; const int wd = wday(s); const int idx = ++cntwd[wd];
                CHECK((int)w.c_encoding() == wd && (int)w.iso_encoding() == (wd ? wd : 7) && weekday{ lo } == w && w.ok(), "weekday of %d-%d-%d is %u, expected %d", y, m, dd, w.c_encoding(), wd);
                const d::year_month_weekday q{ sd }; const d::year_month_weekday ql{ lo };
                CHECK((int)q.year() == y && (unsigned)q.month() == (unsigned)m && q.weekday() == w && (int)q.index() == idx && q.ok() && q == ql, "%d-%d-%d is weekday %u, number %u of the month", y, m, dd, q.weekday().c_encoding(), q.index());
                CHECK(cnt(sys_days(q)) == s && cnt(local_days(q)) == s, "indexed weekday of %d-%d-%d does not convert back", y, m, dd);
            }
            const d::year_month_day_last l{ year{ y }, d::month_day_last{ month{ (unsigned)m } } }; ck::step(2);
            CHECK((int)(unsigned)l.day() == n && l.ok() && (int)l.year() == y && (unsigned)l.month() == (unsigned)m && cnt(sys_days(l)) == s - 1 && cnt(local_days(l)) == s - 1 && is(YMD(l), y, m, n), "last day of %d-%d is %u, expected %d", y, m, (unsigned)l.day(), n);
            for (int wd = 0; wd < 7; ++wd) {
                const weekday w{ (unsigned)wd }; const d::year_month_weekday_last wl{ year{ y }, month{ (unsigned)m }, d::weekday_last{ w } };
                const int last = s - 1 - (wday(s - 1) - wd + 7) % 7; CHECK(cnt(sys_days(wl)) == last && cnt(local_days(wl)) == last && wl.ok() && wl.weekday() == w, "last weekday %d of %d-%d is day %d, expected %d", wd, y, m, cnt(sys_days(wl)), last);
                const int f = s - n + (wd - wday(s - n) + 7) % 7;
                for (unsigned i = 0; i <= 5; ++i) { const d::year_month_weekday x{ year{ y }, month{ (unsigned)m }, d::weekday_indexed{ w, i } }; ck::step(); CHECK(x.ok() == (i >= 1 && (int)i <= cntwd[wd]), "weekday %d[%u] of %d-%d: ok() is %d", wd, i, y, m, (int)x.ok()); CHECK(cnt(sys_days(x)) == f + ((int)i - 1) * 7, "weekday %d[%u] of %d-%d is day %d", wd, i, y, m, cnt(sys_days(x))); }
            }
        }
        CHECK(s == jan1(y + 1 > 32767 ? y : y + 1) || y == 32767, "internal: year table");
        if (y % 9000 == 17) ck::sample("year %d: days %d to %d", y, jan1(y), s - 1);
    }
}
static std::vector<int> some_years() { std::vector<int> v; for (int y = -5; y <= 5; ++y) v.push_back(y); for (int y : { -32767, -32766, -4000, -401, -400, -399, -101, -100, -99, 96, 99, 100, 101, 399, 400, 401, 1582, 1600, 1699, 1700, 1800, 1896, 1899, 1900, 1901, 1904, 1968, 1969, 1970, 1971, 1972, 1999, 2000, 2001, 2004, 2023, 2024, 2100, 2400, 9999, 10000, 32766, 32767 }) v.push_back(y); return v; }
/// validity of all field combinations, and day overflow within valid months
DOMAIN(fields)
{
    for (unsigned x = 0; x < 256; ++x) if (ck::mine()) {
        ck::state(); ck::step(6);
        CHECK(day{ x }.ok() == (x >= 1 && x <= 31) && (unsigned)day{ x } == x, "day %u", x); CHECK(month{ x }.ok() == (x >= 1 && x <= 12) && (unsigned)month{ x } == x, "month %u", x);
        CHECK(weekday{ x }.ok() == (x <= 7) && weekday{ x }.c_encoding() == (x == 7 ? 0 : x), "weekday %u", x); CHECK(d::month_day_last{ month{ x } }.ok() == (x >= 1 && x <= 12) && d::weekday_last{ weekday{ x } }.ok() == (x <= 7), "month_day_last or weekday_last %u", x);
        for (unsigned y = 0; y < 256; ++y) { const d::month_day md{ month{ x }, day{ y } }; ck::step(); const bool want = x >= 1 && x <= 12 && y >= 1 && (int)y <= mdays(2000, (int)x); CHECK(md.ok() == want, "month_day %u/%u: ok() is %d", x, y, (int)md.ok()); CHECK(md.month() == month{ x } && md.day() == day{ y }, "month_day %u/%u", x, y); }
        for (unsigned i = 0; i < 16; ++i) if (x < 16) { const d::weekday_indexed wi{ weekday{ x }, i }; CHECK(wi.ok() == (x <= 7 && i >= 1 && i <= 5) && wi.index() == i && wi.weekday() == weekday{ x }, "weekday_indexed %u[%u]", x, i); for (unsigned m = 0; m <= 14; ++m) { const d::month_weekday mw{ month{ m }, wi }; CHECK(mw.ok() == (wi.ok() && m >= 1 && m <= 12) && mw.month() == month{ m } && mw.weekday_indexed() == wi, "month_weekday %u/%u[%u]", m, x, i); const d::month_weekday_last ml{ month{ m }, d::weekday_last{ weekday{ x } } }; CHECK(ml.ok() == (x <= 7 && m >= 1 && m <= 12) && ml.month() == month{ m } && ml.weekday_last().weekday() == weekday{ x }, "month_weekday_last"); } }
    }
    for (int y = -32768; y <= 32767; ++y) if (ck::mine()) { ck::state(); CHECK(year{ y }.ok() == (y != -32768) && (int)year{ y } == y, "year %d", y); if (y > -32768) CHECK((int)-year{ y } == -y && (int)+year{ y } == y, "sign of year %d", y);
        for (unsigned m : { 0u, 1u, 2u, 12u, 13u, 255u }) CHECK(d::year_month(year{ y }, month{ m }).ok() == (y != -32768 && m >= 1 && m <= 12), "year_month %d/%u", y, m); }
    auto Y = some_years(); Y.push_back(-32768);
    for (int y : Y) for (unsigned m = 0; m <= 255; m += m < 20 ? 1 : 47) if (ck::mine()) for (unsigned x = 0; x <= 255; ++x) {
        const YMD v = mk(y, (int)m, (int)x); ck::state(); ck::step(2); const bool ym = y != -32768 && m >= 1 && m <= 12;
        CHECK(v.ok() == (ym && x >= 1 && (int)x <= mdays(y, (int)m)), "%d-%u-%u: ok() is %d", y, m, x, (int)v.ok()); CHECK(is(v, y, (int)m, (int)x), "fields of %d-%u-%u", y, m, x);
        if (ym) CHECK(cnt(sys_days(v)) == serial(y, (int)m, 1) + (int)x - 1, "%d-%u-%u has serial number %d", y, m, x, cnt(sys_days(v)));
        const d::year_month_day_last l{ year{ y }, d::month_day_last{ month{ m } } }; CHECK(l.ok() == ym, "last day of %d-%u: ok()", y, m);
        if (x < 10) { const d::year_month_weekday_last wl{ year{ y }, month{ m }, d::weekday_last{ weekday{ x } } }; CHECK(wl.ok() == (ym && x <= 7), "last weekday %u of %d-%u: ok()", x, y, m); for (unsigned i = 0; i < 10; ++i) if (!ym || x > 7 || i > 5) CHECK(!d::year_month_weekday(year{ y }, month{ m }, d::weekday_indexed{ weekday{ x }, i }).ok(), "weekday %u[%u] of %d-%u is ok", x, i, y, m); } }
}
static int fdiv(long a, long b) { long q = a / b; if (q * b > a) --q; return (int)q; }
/// adding months and years to all types
DOMAIN(months_and_years)
{
    const int D = ck::tier(60, 200);
    for (int y : some_years()) for (int m = 1; m <= 12; ++m) if (ck::mine()) {
        auto one = [&](int k) {
            const long t = (long)y * 12 + (m - 1) + k; const int ny = fdiv(t, 12), nm = (int)(t - (long)ny * 12) + 1;
            if (ny < -32767 || ny > 32767 || y - 0 < -32767) return;
            ck::state(); ck::step(10); const months dm{ k };
            const d::year_month ym{ year{ y }, month{ (unsigned)m } }, want{ year{ ny }, month{ (unsigned)nm } };
            auto a = ym; a += dm; auto b = want; b -= dm;
            CHECK(ym + dm == want && dm + ym == want && want - dm == ym && a == want && b == ym && want - ym == dm && (ym - want) == -dm, "%d-%d plus %d months is %d-%u", y, m, k, (int)(ym + dm).year(), (unsigned)(ym + dm).month());
            CHECK((unsigned)(month{ (unsigned)m } + dm) == (unsigned)nm && (unsigned)(dm + month{ (unsigned)m }) == (unsigned)nm && (unsigned)(month{ (unsigned)nm } - dm) == (unsigned)m, "month %d plus %d months", m, k);
            auto mm = month{ (unsigned)m }; mm += dm; CHECK((unsigned)mm == (unsigned)nm, "month += %d", k); mm -= dm; CHECK((unsigned)mm == (unsigned)m, "month -= %d", k);
            for (int dd : { 1, 15, 28, 29, 30, 31 }) { const YMD p = mk(y, m, dd); auto q = p; q += dm; CHECK(is(p + dm, ny, nm, dd) && is(dm + p, ny, nm, dd) && is(q, ny, nm, dd) && is(mk(ny, nm, dd) - dm, y, m, dd), "%d-%d-%d plus %d months", y, m, dd, k); q -= dm; CHECK(q == p, "%d-%d-%d minus %d months", y, m, dd, k); }
            { const d::year_month_day_last p{ year{ y }, d::month_day_last{ month{ (unsigned)m } } }, w{ year{ ny }, d::month_day_last{ month{ (unsigned)nm } } }; auto q = p; q += dm; CHECK(p + dm == w && dm + p == w && w - dm == p && q == w && (int)(unsigned)(p + dm).day() == mdays(ny, nm), "last day of %d-%d plus %d months", y, m, k); q -= dm; CHECK(q == p, "last day -= months"); }
            { const d::weekday_indexed wi{ weekday{ 3 }, 2 }; const d::year_month_weekday p{ year{ y }, month{ (unsigned)m }, wi }, w{ year{ ny }, month{ (unsigned)nm }, wi }; auto q = p; q += dm; CHECK(p + dm == w && dm + p == w && w - dm == p && q == w, "indexed weekday of %d-%d plus %d months", y, m, k); q -= dm; CHECK(q == p, "indexed weekday -= months"); }
            { const d::weekday_last wi{ weekday{ 6 } }; const d::year_month_weekday_last p{ year{ y }, month{ (unsigned)m }, wi }, w{ year{ ny }, month{ (unsigned)nm }, wi }; auto q = p; q += dm; CHECK(p + dm == w && dm + p == w && w - dm == p && q == w, "last weekday of %d-%d plus %d months", y, m, k); q -= dm; CHECK(q == p, "last weekday -= months"); }
        };
        for (int k = -D; k <= D; ++k) one(k);
        for (int k : { 1200, -1200, 4799, 4800, -4801, 120001, -120001, 393215, -393215 }) one(k);
        for (int k = -D; k <= D; ++k) { const int ny = y + k; if (ny < -32767 || ny > 32767) continue; const years dy{ k }; ck::state(); ck::step(8);
            auto yy = year{ y }; yy += dy; CHECK((int)yy == ny && (int)(year{ y } + dy) == ny && (int)(dy + year{ y }) == ny && (int)(year{ ny } - dy) == y && year{ ny } - year{ y } == dy, "year %d plus %d", y, k); yy -= dy; CHECK((int)yy == y, "year -= %d", k);
            const d::year_month ym{ year{ y }, month{ (unsigned)m } }, want{ year{ ny }, month{ (unsigned)m } }; auto a = ym; a += dy; CHECK(ym + dy == want && dy + ym == want && want - dy == ym && a == want, "%d-%d plus %d years", y, m, k); a -= dy; CHECK(a == ym, "year_month -= years");
            for (int dd : { 1, 28, 29, 31 }) { const YMD p = mk(y, m, dd); auto q = p; q += dy; CHECK(is(p + dy, ny, m, dd) && is(dy + p, ny, m, dd) && is(q, ny, m, dd) && is(mk(ny, m, dd) - dy, y, m, dd), "%d-%d-%d plus %d years", y, m, dd, k); q -= dy; CHECK(q == p, "year_month_day -= years"); }
            { const d::year_month_day_last p{ year{ y }, d::month_day_last{ month{ (unsigned)m } } }, w{ year{ ny }, d::month_day_last{ month{ (unsigned)m } } }; auto q = p; q += dy; CHECK(p + dy == w && dy + p == w && w - dy == p && q == w, "last day plus years"); q -= dy; CHECK(q == p, "last day -= years"); }
            { const d::weekday_indexed wi{ weekday{ 1 }, 4 }; const d::year_month_weekday p{ year{ y }, month{ (unsigned)m }, wi }, w{ year{ ny }, month{ (unsigned)m }, wi }; auto q = p; q += dy; CHECK(p + dy == w && dy + p == w && w - dy == p && q == w, "indexed weekday plus years"); q -= dy; CHECK(q == p, "indexed weekday -= years"); }
            { const d::weekday_last wi{ weekday{ 0 } }; const d::year_month_weekday_last p{ year{ y }, month{ (unsigned)m }, wi }, w{ year{ ny }, month{ (unsigned)m }, wi }; auto q = p; q += dy; CHECK(p + dy == w && dy + p == w && w - dy == p && q == w, "last weekday plus years"); q -= dy; CHECK(q == p, "last weekday -= years"); } }
    }
    // cyclic month and weekday arithmetic
    for (int a = 1; a <= 12; ++a) for (int b = 1; b <= 12; ++b) if (ck::mine()) { ck::state(); const int diff = (a - b + 12) % 12; CHECK((month{ (unsigned)a } - month{ (unsigned)b }).count() == diff, "month %d - month %d is %d", a, b, (int)(month{ (unsigned)a } - month{ (unsigned)b }).count()); CHECK(month{ (unsigned)b } + (month{ (unsigned)a } - month{ (unsigned)b }) == month{ (unsigned)a }, "month difference"); }
    for (int a = 1; a <= 12; ++a) if (ck::mine()) { auto m = month{ (unsigned)a }; const int n = a % 12 + 1; CHECK((unsigned)++m == (unsigned)n && (unsigned)m-- == (unsigned)n && (unsigned)m == (unsigned)a && (unsigned)m++ == (unsigned)a && (unsigned)--m == (unsigned)a, "increment of month %d", a); }
    for (int a = 0; a <= 6; ++a) for (int b = 0; b <= 6; ++b) if (ck::mine()) { ck::state(); CHECK((weekday{ (unsigned)a } - weekday{ (unsigned)b }).count() == (a - b + 7) % 7, "weekday %d - weekday %d", a, b); }
    for (int a = 0; a <= 6; ++a) for (long k = -2000; k <= 2000; ++k) if (ck::mine()) { ck::state(); for (int kk : { (int)k, (int)k * 1000003, k > 0 ? std::numeric_limits<int>::max() - (int)k : -std::numeric_limits<int>::max() - (int)k }) { const int w = (int)((((long)a + kk) % 7 + 7) % 7); const weekday x{ (unsigned)a }; const days dk{ kk }; auto y = x; y += dk; CHECK((int)(x + dk).c_encoding() == w && (int)(dk + x).c_encoding() == w && (int)y.c_encoding() == w && weekday{ (unsigned)w } - dk == x, "weekday %d plus %d days is %u", a, kk, (x + dk).c_encoding()); y -= dk; CHECK(y == x, "weekday -= %d", kk); } }
    for (int a = 0; a <= 6; ++a) if (ck::mine()) { auto w = weekday{ (unsigned)a }; const unsigned n = (unsigned)(a + 1) % 7; CHECK((++w).c_encoding() == n && (w--).c_encoding() == n && (int)w.c_encoding() == a && (int)(w++).c_encoding() == a && (int)(--w).c_encoding() == a, "increment of weekday %d", a); }
    for (int a = 0; a < 200; ++a) for (int k = -a; a + k < 250; ++k) if (ck::mine()) { const day x{ (unsigned)a }; auto y = x; y += days{ k }; CHECK((int)(unsigned)(x + days{ k }) == a + k && (int)(unsigned)(days{ k } + x) == a + k && (int)(unsigned)y == a + k && day{ (unsigned)(a + k) } - days{ k } == x && (day{ (unsigned)(a + k) } - x).count() == k, "day %d plus %d", a, k); y -= days{ k }; CHECK(y == x, "day -="); }
    if (ck::mine()) { for (int a = 1; a < 254; ++a) { auto x = day{ (unsigned)a }; CHECK((int)(unsigned)++x == a + 1 && (int)(unsigned)x-- == a + 1 && (int)(unsigned)x == a && (int)(unsigned)x++ == a && (int)(unsigned)--x == a, "increment of day"); } for (int a = -32767; a < 32767; ++a) { auto x = year{ a }; CHECK((int)++x == a + 1 && (int)x-- == a + 1 && (int)x == a && (int)x++ == a && (int)--x == a, "increment of year %d", a); } CHECK(year::min() == year{ -32767 } && year::max() == year{ 32767 }, "limits of year"); }
}
/// all ways to compose dates
DOMAIN(composition)
{
    const d::last_spec last{}; using namespace d::literals;
    for (int y : some_years()) for (int m = 0; m <= 13; ++m) if (ck::mine()) {
        const year Y{ y }; const month M{ (unsigned)m }; const d::year_month ym{ Y, M }; ck::state(); ck::step(4);
        CHECK(Y / M == ym && Y / m == ym && ym.year() == Y && ym.month() == M, "composition of %d/%d", y, m);
        for (int dd = 0; dd <= 33; ++dd) { const day Dd{ (unsigned)dd }; const d::month_day md{ M, Dd }; const YMD x{ Y, M, Dd }; ck::step(12);
            CHECK(M / Dd == md && M / dd == md && m / Dd == md && Dd / M == md && Dd / m == md, "composition of month %d and day %d", m, dd);
            CHECK(ym / Dd == x && ym / dd == x && Y / md == x && y / md == x && md / Y == x && md / y == x && Y / M / Dd == x && Y / m / dd == x && M / Dd / Y == x && Dd / M / Y == x && Dd / m / y == x, "composition of %d/%d/%d", y, m, dd); }
        const d::month_day_last ml{ M }; const d::year_month_day_last yl{ Y, ml }; ck::step(8);
        CHECK(M / last == ml && m / last == ml && last / M == ml && last / m == ml && ml.month() == M, "composition of month %d and last", m);
        CHECK(ym / last == yl && Y / ml == yl && y / ml == yl && ml / Y == yl && ml / y == yl && yl.year() == Y && yl.month() == M && yl.month_day_last() == ml, "composition of %d/%d/last", y, m);
        for (unsigned w = 0; w <= 6; ++w) { const weekday W{ w }; const d::weekday_last wl{ W }; const d::month_weekday_last mwl{ M, wl }; const d::year_month_weekday_last ywl{ Y, M, wl };
            CHECK(W[last] == wl && wl.weekday() == W && M / wl == mwl && m / wl == mwl && wl / M == mwl && wl / m == mwl && ym / wl == ywl && Y / mwl == ywl && y / mwl == ywl && mwl / Y == ywl && mwl / y == ywl && ywl.weekday() == W && ywl.weekday_last() == wl && ywl.year() == Y && ywl.month() == M, "composition of %d/%d/weekday %u[last]", y, m, w);
            for (unsigned i = 0; i <= 6; ++i) { const d::weekday_indexed wi{ W, i }; const d::month_weekday mw{ M, wi }; const d::year_month_weekday yw{ Y, M, wi }; ck::step(10);
                CHECK(W[i] == wi && M / wi == mw && m / wi == mw && wi / M == mw && wi / m == mw && ym / wi == yw && Y / mw == yw && y / mw == yw && mw / Y == yw && mw / y == yw && yw.weekday() == W && yw.index() == i && yw.weekday_indexed() == wi && yw.year() == Y && yw.month() == M, "composition of %d/%d/weekday %u[%u]", y, m, w, i); } }
    }
    CHECK(31_d == day{ 31 } && 2024_y == year{ 2024 }, "literals");
    for (unsigned m = 1; m <= 12; ++m) (void)m;
}
/// comparison operators: all pairs
template <typename T> void order(const std::vector<T>& v, const char* what) // v must be strictly ascending
{
    for (std::size_t i = 0; i < v.size(); ++i) if (ck::mine()) for (std::size_t j = 0; j < v.size(); ++j) { ck::state(); ck::step(6); const T &a = v[i], &b = v[j];
        CHECK((a == b) == (i == j) && (a != b) == (i != j) && (a < b) == (i < j) && (a > b) == (i > j) && (a <= b) == (i <= j) && (a >= b) == (i >= j), "comparison of %s number %d and %d", what, (int)i, (int)j); }
}
template <typename T> void equality(const std::vector<T>& v, const char* what) { for (std::size_t i = 0; i < v.size(); ++i) if (ck::mine()) for (std::size_t j = 0; j < v.size(); ++j) { ck::state(); ck::step(2); CHECK((v[i] == v[j]) == (i == j) && (v[i] != v[j]) == (i != j), "equality of %s number %d and %d", what, (int)i, (int)j); } }
DOMAIN(comparisons)
{
    std::vector<day> D; std::vector<month> M; std::vector<d::month_day_last> ML; for (unsigned i = 0; i < 256; ++i) { D.push_back(day{ i }); M.push_back(month{ i }); ML.push_back(d::month_day_last{ month{ i } }); } order(D, "day"); order(M, "month"); order(ML, "month_day_last");
    std::vector<year> Y; for (int i = -32768; i <= 32767; i += 61) Y.push_back(year{ i }); order(Y, "year");
    std::vector<d::year_month> YM; std::vector<d::month_day> MD; std::vector<YMD> V; std::vector<d::year_month_day_last> L; std::vector<weekday> W; std::vector<d::weekday_indexed> WI; std::vector<d::weekday_last> WL; std::vector<d::month_weekday> MW; std::vector<d::month_weekday_last> MWL; std::vector<d::year_month_weekday> YW; std::vector<d::year_month_weekday_last> YWL;
    for (int y : { -32767, -401, -1, 0, 1, 1969, 1970, 2000, 32767 }) for (unsigned m = 1; m <= 12; ++m) { YM.push_back({ year{ y }, month{ m } }); L.push_back({ year{ y }, d::month_day_last{ month{ m } } }); for (unsigned x : { 1u, 2u, 15u, 28u, 31u }) V.push_back({ year{ y }, month{ m }, day{ x } }); }
    for (unsigned m = 1; m <= 12; ++m) for (unsigned x = 1; x <= 31; ++x) MD.push_back({ month{ m }, day{ x } });
    order(YM, "year_month"); order(MD, "month_day"); order(V, "year_month_day"); order(L, "year_month_day_last");
    for (unsigned w = 0; w <= 6; ++w) { W.push_back(weekday{ w }); WL.push_back(d::weekday_last{ weekday{ w } }); for (unsigned i = 1; i <= 5; ++i) WI.push_back({ weekday{ w }, i }); }
    for (unsigned m : { 1u, 2u, 12u }) { for (auto x : WI) MW.push_back({ month{ m }, x }); for (auto x : WL) MWL.push_back({ month{ m }, x }); for (int y : { -1, 0, 2000 }) { for (auto x : WI) YW.push_back({ year{ y }, month{ m }, x }); for (auto x : WL) YWL.push_back({ year{ y }, month{ m }, x }); } }
    equality(W, "weekday"); equality(WI, "weekday_indexed"); equality(WL, "weekday_last"); equality(MW, "month_weekday"); equality(MWL, "month_weekday_last"); equality(YW, "year_month_weekday"); equality(YWL, "year_month_weekday_last");
}
/// rounding of durations and time points
template <typename To, typename From> void rounding(long long v, long long ratio_num, long long ratio_den)
{
    // v * num / den in units of To
    using namespace std::chrono; const From f{ (typename From::rep)v }; ck::state(); ck::step(8);
    const __int128 n = (__int128)v * ratio_num, q = ratio_den; __int128 fl = n / q; if (fl * q > n) --fl; const bool exact = fl * q == n; const __int128 ce = exact ? fl : fl + 1, tr = n < 0 ? ce : fl;
    const __int128 lo = n - fl * q, hi = ce * q - n; const __int128 ro = exact ? fl : lo < hi ? fl : hi < lo ? ce : (fl % 2 == 0 ? fl : ce);
    using I = long long; using TP = d::sys_time<From>; const TP t{ f };
    CHECK((I)d::floor<To>(f).count() == (I)fl && (I)d::floor<To>(t).time_since_epoch().count() == (I)fl, "floor of %lld * %lld/%lld is %lld", v, ratio_num, ratio_den, (I)d::floor<To>(f).count());
    CHECK((I)d::ceil<To>(f).count() == (I)ce && (I)d::ceil<To>(t).time_since_epoch().count() == (I)ce, "ceil of %lld * %lld/%lld is %lld", v, ratio_num, ratio_den, (I)d::ceil<To>(f).count());
    CHECK((I)d::trunc<To>(f).count() == (I)tr && (I)d::trunc<To>(t).time_since_epoch().count() == (I)tr, "trunc of %lld * %lld/%lld is %lld", v, ratio_num, ratio_den, (I)d::trunc<To>(f).count());
    CHECK((I)d::round<To>(f).count() == (I)ro && (I)d::round<To>(t).time_since_epoch().count() == (I)ro, "round of %lld * %lld/%lld is %lld", v, ratio_num, ratio_den, (I)d::round<To>(f).count());
    CHECK((I)d::abs(f).count() == (v < 0 ? -v : v), "abs of %lld", v);
}
DOMAIN(rounding)
{
    using namespace std::chrono; using dms = duration<double, std::milli>; using dsec = duration<double>; using thirds = duration<int, std::ratio<1, 3>>;
    for (long long v = -4100; v <= 4100; ++v) if (ck::mine()) {
        rounding<seconds, milliseconds>(v, 1, 1000); rounding<hours, minutes>(v, 1, 60); rounding<minutes, seconds>(v, 1, 60); rounding<days, hours>(v, 1, 24); rounding<hours, seconds>(v, 1, 3600); rounding<d::weeks, days>(v, 1, 7); rounding<milliseconds, seconds>(v, 1000, 1); rounding<seconds, seconds>(v, 1, 1); rounding<seconds, thirds>(v, 1, 3); rounding<d::years, months>(v, 1, 12); rounding<minutes, days>(v, 1440, 1);
        rounding<seconds, dms>(v, 1, 1000); rounding<dsec, dms>(v * 250, 1, 1000); rounding<milliseconds, dms>(v, 1, 1);
        for (long long o : { 0LL, 1LL, -1LL, 43200LL }) { rounding<days, seconds>(v * 43200 + o, 1, 86400); rounding<days, milliseconds>((v * 43200 + o) * 1000 + o, 1, 86400000); rounding<days, nanoseconds>(v * 43200000000000LL / 4 + o, 1, 86400000000000LL); }
        rounding<d::years, days>(v * 50, 400, 146097); rounding<d::months, days>(v * 5, 4800, 146097); rounding<seconds, nanoseconds>(v * 500000000 + 1, 1, 1000000000); rounding<days, d::weeks>(v, 7, 1); rounding<microseconds, duration<long long, std::ratio<1, 1024>>>(v, 1000000, 1024); }
}
/// twelve-hour clock
DOMAIN(half_days)
{
    using std::chrono::hours;
    for (int h = -30; h <= 50; ++h) if (ck::mine()) { ck::state(); ck::step(4); const hours H{ h }; CHECK(d::is_am(H) == (h >= 0 && h < 12) && d::is_pm(H) == (h >= 12 && h < 24), "is_am or is_pm of hour %d", h);
        if (h >= 0 && h < 24) { const int t = h % 12 == 0 ? 12 : h % 12; CHECK(d::make12(H).count() == t && d::make24(hours{ t }, h >= 12).count() == h, "12-hour clock at hour %d is %d", h, (int)d::make12(H).count()); } }
}
