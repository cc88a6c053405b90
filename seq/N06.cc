// N06: statistics against exact rational references, for all small data sets.
#include "ck.h"
#include "gul14/SmallVector.h"
#include "gul14/span.h"
#include "gul14/statistics.h"
#include <algorithm>
#include <array>
#include <cmath>
#include <deque>
#include <list>
#include <map>
#include <set>
typedef long double ld;
typedef __int128 big;
// Data are small integers times a scale, so that sums and squares are exact in 128-bit integers.
typedef std::vector<long long> Data;
static std::string show(const Data& d) { std::string s = "{"; for (auto x : d) s += std::to_string(x) + ","; if (d.size()) s.pop_back(); return s + "}"; }
static bool near(ld got, ld want, ld rel, ld abs = 0) { return std::fabs(got - want) <= rel * std::fabs(want) + abs; }

struct Ref { ld mean, rms, sd, median, absmean; long long min, max; };
static Ref reference(Data d)
{
    Ref r{}; const big n = (big)d.size(); big s = 0, q = 0, a = 0;
    for (auto x : d) { s += x; q += (big)x * x; a += x < 0 ? -x : x; }
    r.mean = (ld)s / (ld)n; r.rms = sqrtl((ld)q / (ld)n); r.absmean = (ld)a / (ld)n;
    // n * sum of squares - square of sum is an exact integer
    r.sd = n > 1 ? sqrtl((ld)(n * q - s * s) / (ld)n / (ld)(n - 1)) : 0;
    // selection by counting ranks
    auto rank = [&](std::size_t k) { for (auto x : d) { std::size_t less = 0, leq = 0; for (auto y : d) { less += y < x; leq += y <= x; } if (less <= k && k < leq) return x; } return d[0]; };
    r.median = ((ld)rank((d.size() - 1) / 2) + (ld)rank(d.size() / 2)) / 2;
    r.min = r.max = d[0]; for (auto x : d) { if (x < r.min) r.min = x; if (x > r.max) r.max = x; }
    return r;
}
template <typename R> ld eps() { return std::numeric_limits<R>::epsilon(); }

/// All results of removing k outliers (ties may be broken in any way)
static void outliers(const Data& d, std::size_t k, std::set<Data>& out)
{
    out = { d };
    for (; k > 0 && !out.begin()->empty(); --k) {
        std::set<Data> next;
        for (const Data& c : out) {
            const big n = (big)c.size(); big s = 0; for (auto x : c) s += x;
            big far = -1; for (auto x : c) { big t = n * x - s; if (t < 0) t = -t; if (t > far) far = t; }
            for (std::size_t i = 0; i < c.size(); ++i) { big t = n * c[i] - s; if (t < 0) t = -t; if ((ld)far - (ld)t <= (ld)1e-12 * (ld)far) { Data e = c; e.erase(e.begin() + (long)i); next.insert(e); } }
        }
        out.swap(next);
    }
}

struct Rec { int pad; double val; short id; };

/// The functions on a container C of elements with the integer values of the data
template <typename R, typename C, typename Acc> void three(const char* what, const C& c, const Data& d, const Ref& r, Acc acc, ld scale)
{
    const ld n = (ld)d.size(), tol = (4 + n) * eps<R>();
    ck::step(8);
    const R m = gul14::mean<R>(c, acc), m2 = gul14::mean<R>(c.begin(), c.end(), acc);
    CHECK(near(m, r.mean * scale, 0, tol * r.absmean * scale), "mean of %s %s is %.20Lg", what, show(d).c_str(), (ld)m);
    CHECK(near(m2, r.mean * scale, 0, tol * r.absmean * scale), "mean(iterators) of %s %s is %.20Lg", what, show(d).c_str(), (ld)m2);
    const R q = gul14::rms<R>(c, acc), q2 = gul14::rms<R>(c.begin(), c.end(), acc);
    CHECK(near(q, r.rms * scale, tol), "rms of %s %s is %.20Lg", what, show(d).c_str(), (ld)q);
    CHECK(near(q2, r.rms * scale, tol), "rms(iterators) of %s %s is %.20Lg", what, show(d).c_str(), (ld)q2);
    const R e = gul14::median<R>(c, acc), e2 = gul14::median<R>(c.begin(), c.end(), acc);
    CHECK(near(e, r.median * scale, 2 * eps<R>(), 2 * eps<R>() * (r.min < 0 ? r.rms * scale : 0)) && e == e2, "median of %s %s is %.20Lg / %.20Lg", what, show(d).c_str(), (ld)e, (ld)e2);
    const auto s = gul14::standard_deviation<R>(c, acc), s2 = gul14::standard_deviation<R>(c.begin(), c.end(), acc);
    CHECK(near(s.mean(), r.mean * scale, 0, tol * r.absmean * scale) && near(s2.mean(), r.mean * scale, 0, tol * r.absmean * scale) && s.mean() == s.mean_, "mean of the standard deviation of %s %s is %.20Lg", what, show(d).c_str(), (ld)s.mean());
    if (d.size() > 1) CHECK(near(s.sigma(), r.sd * scale, 16 * tol, 2 * tol * r.absmean * scale) && near(s2.sigma(), r.sd * scale, 16 * tol, 2 * tol * r.absmean * scale) && s.sigma() == s.sigma_ && (R)s == s.sigma(), "standard_deviation of %s %s is %.20Lg, expected %.20Lg", what, show(d).c_str(), (ld)s.sigma(), r.sd * scale);
    else CHECK(std::isnan(s.sigma()) && std::isnan(s2.sigma()), "standard_deviation of the single element %s %s is %.20Lg", what, show(d).c_str(), (ld)s.sigma());
}
template <typename C, typename Acc> void minmax(const char* what, const C& c, const Data& d, const Ref& r, Acc acc, ld scale)
{
    ck::step(6);
    const auto mm = gul14::min_max(c, acc), mm2 = gul14::min_max(c.begin(), c.end(), acc);
    CHECK((ld)gul14::minimum(c, acc) == r.min * scale && (ld)gul14::minimum(c.begin(), c.end(), acc) == r.min * scale && (ld)mm.min == r.min * scale && (ld)mm2.min == r.min * scale, "minimum of %s %s is %Lg, min_max %Lg", what, show(d).c_str(), (ld)gul14::minimum(c, acc), (ld)mm.min);
    CHECK((ld)gul14::maximum(c, acc) == r.max * scale && (ld)gul14::maximum(c.begin(), c.end(), acc) == r.max * scale && (ld)mm.max == r.max * scale && (ld)mm2.max == r.max * scale, "maximum of %s %s is %Lg, min_max %Lg", what, show(d).c_str(), (ld)gul14::maximum(c, acc), (ld)mm.max);
}
template <typename T> struct Id { T operator()(const T& x) const { return x; } };
/// default accessor
template <typename R, typename C> void plain(const char* what, const C& c, const Data& d, const Ref& r, ld scale)
{
    ck::step(6); using T = typename C::value_type; const Id<T> id;
    auto same = [](ld a, ld b) { return a == b || (std::isnan(a) && std::isnan(b)); };
    CHECK(same(gul14::mean<R>(c), gul14::mean<R>(c, id)) && same(gul14::mean<R>(c.begin(), c.end()), gul14::mean<R>(c, id)) && same(gul14::rms<R>(c), gul14::rms<R>(c, id)) && same(gul14::rms<R>(c.begin(), c.end()), gul14::rms<R>(c, id)) && same(gul14::median<R>(c), gul14::median<R>(c, id)) && same(gul14::median<R>(c.begin(), c.end()), gul14::median<R>(c, id)) && same(gul14::standard_deviation<R>(c), gul14::standard_deviation<R>(c, id)) && same(gul14::standard_deviation<R>(c.begin(), c.end()), gul14::standard_deviation<R>(c, id)), "statistics of %s %s differ without accessor function", what, show(d).c_str());
    CHECK((ld)gul14::minimum(c) == r.min * scale && (ld)gul14::maximum(c) == r.max * scale && (ld)gul14::min_max(c).min == r.min * scale && (ld)gul14::min_max(c).max == r.max * scale && (ld)gul14::minimum(c.begin(), c.end()) == r.min * scale && (ld)gul14::maximum(c.begin(), c.end()) == r.max * scale && (ld)gul14::min_max(c.begin(), c.end()).min == r.min * scale && (ld)gul14::min_max(c.begin(), c.end()).max == r.max * scale, "extreme values of %s %s are wrong without accessor function", what, show(d).c_str());
}
template <typename R, typename T> void typed(const char* what, const Data& d, const Ref& r, ld scale = 1)
{
    std::vector<T> v; for (auto x : d) v.push_back((T)(x * scale));
    three<R>(what, v, d, r, Id<T>{}, scale); minmax(what, v, d, r, Id<T>{}, scale); plain<R>(what, v, d, r, scale);
}
static void integral_results(const Data& d, const Ref& r)
{
    std::vector<int> v(d.begin(), d.end()); ck::step(3);
    const int m = gul14::mean<int>(v), e = gul14::median<int>(v); const long s = gul14::mean<long>(v.begin(), v.end());
    CHECK(std::fabs((ld)m - r.mean) < 1 && std::fabs((ld)s - r.mean) < 1, "integer mean of %s is %d", show(d).c_str(), m);
    CHECK(std::fabs((ld)e - r.median) < 1, "integer median of %s is %d, expected %Lg", show(d).c_str(), e, r.median);
}
static void check_outliers(const Data& d, std::size_t k)
{
    std::set<Data> ok; outliers(d, k, ok); ck::state(); ck::step(5);
    auto fine = [&](const auto& c, const char* what) { Data g; for (auto x : c) g.push_back((long long)x); CHECK(ok.count(g), "removing %d outliers from %s %s gave %s", (int)k, what, show(d).c_str(), show(g).c_str()); };
    const std::vector<double> cv(d.begin(), d.end());
    fine(gul14::remove_outliers(cv, k), "constant vector"); CHECK(cv == std::vector<double>(d.begin(), d.end()), "remove_outliers changed a constant vector");
    std::vector<double> v = cv; fine(gul14::remove_outliers(v.cbegin(), v.cend(), k), "iterators of vector");
    auto& ref = gul14::remove_outliers(std::move(v), k); fine(ref, "vector"); CHECK(&ref == &v, "remove_outliers of a vector does not return the container");
    std::list<int> li(d.begin(), d.end()); const auto& lc = li; fine(gul14::remove_outliers(lc, k), "constant list"); auto& lr = gul14::remove_outliers(std::move(li), k); fine(lr, "list"); CHECK(&lr == &li, "remove_outliers of a list does not return the container");
    std::deque<float> dq(d.begin(), d.end()); fine(gul14::remove_outliers(std::move(dq), k), "deque");
    std::vector<Rec> rec; for (std::size_t i = 0; i < d.size(); ++i) rec.push_back({ 99, (double)d[i], (short)i });
    const auto acc = [](const Rec& x) { return x.val; }; const auto& rc = rec;
    Data got; short last = -1; for (const auto& x : gul14::remove_outliers(rc, k, acc)) { CHECK(x.id > last && x.pad == 99 && d[(std::size_t)x.id] == (long long)x.val, "remove_outliers reordered the elements of %s", show(d).c_str()); last = x.id; got.push_back((long long)x.val); }
    fine(got, "records");
}
static void one(const Data& d, bool wide)
{
    const Ref r = reference(d); ck::state();
    typed<double, double>("double", d, r); typed<double, int>("int", d, r); typed<float, float>("float", d, r); typed<long double, double>("double", d, r);
    typed<double, long long>("long long", d, r); typed<double, double>("quarters", d, r, 0.25L);
    if (!wide) { typed<double, signed char>("signed char", d, r); typed<float, short>("short", d, r); integral_results(d, r);
        if (r.min >= 0) { typed<double, unsigned>("unsigned", d, r); typed<float, unsigned char>("unsigned char", d, r); typed<double, unsigned long>("unsigned long", d, r); typed<double, std::size_t>("size_t", d, r); } }
    // other containers and accessors
    std::list<double> li(d.begin(), d.end()); three<double>("list", li, d, r, Id<double>{}, 1); minmax("list", li, d, r, Id<double>{}, 1); plain<double>("list", li, d, r, 1);
    std::deque<int> dq(d.begin(), d.end()); three<double>("deque", dq, d, r, Id<int>{}, 1); plain<double>("deque", dq, d, r, 1);
    gul14::SmallVector<double, 3> sv; for (auto x : d) sv.push_back((double)x);
    three<double>("SmallVector", sv, d, r, Id<double>{}, 1); minmax("SmallVector", sv, d, r, Id<double>{}, 1);
    std::vector<Rec> rec; for (auto x : d) rec.push_back({ 77, (double)x, 3 });
    three<double>("records", rec, d, r, [](const Rec& x) { return x.val; }, 1); minmax("records", rec, d, r, [](const Rec& x) { return x.val; }, 1);
    three<double>("negated records", rec, d, r, [](const Rec& x) { return x.val * 8; }, 8);
    three<double>("integer records", rec, d, r, [](const Rec& x) -> int { return (int)x.val; }, 1); minmax("integer records", rec, d, r, [](const Rec& x) -> int { return (int)x.val; }, 1);
    // accumulate: fold in order
    ck::step(3);
    auto digits = [](double a, double x) { return a * 3 + x; }; double want = 0; for (auto x : d) want = want * 3 + (double)x;
    CHECK(gul14::accumulate(li, digits) == want && gul14::accumulate(li.begin(), li.end(), digits) == want && gul14::accumulate<double>(rec, digits, [](const Rec& x) { return x.val; }) == want, "accumulate over %s", show(d).c_str());
    auto chain = [](const std::string& a, int x) { return a + std::to_string(x) + ","; }; std::string ws; for (auto x : d) ws += std::to_string((int)x) + ",";
    CHECK(gul14::accumulate<std::string>(dq, chain) == ws && gul14::accumulate<std::string>(dq.cbegin(), dq.cend(), chain) == ws, "accumulate<string> over %s", show(d).c_str());
}
/// all data sets over an alphabet
template <typename F> void sets(const std::vector<long long>& alpha, int max, F f)
{
    std::string idx; for (std::size_t i = 0; i < alpha.size(); ++i) idx += (char)i;
    ck::strings(idx, 1, max, [&](const std::string& s) { if (!ck::mine()) return; Data d; for (char c : s) d.push_back(alpha[(std::size_t)c]); f(d); });
}
DOMAIN(small) { sets({ 0, 1, -1, 2, 3, -7, 100 }, ck::tier(5, 6), [](const Data& d) { one(d, false); if (d.size() == 4) ck::sample("%s", show(d).c_str()); }); }
DOMAIN(binary) { sets({ 4, 9 }, ck::tier(11, 14), [](const Data& d) { one(d, false); }); }
DOMAIN(permutations) { for (int n = 2; n <= ck::tier(7, 8); ++n) { Data d; for (int i = 0; i < n; ++i) d.push_back(i * i - 5); std::sort(d.begin(), d.end()); do { if (ck::mine()) one(d, false); } while (std::next_permutation(d.begin(), d.end())); } }
/// large values with small differences (cancellation), and huge scale
DOMAIN(wide)
{
    sets({ 1000000000LL, 1000000001LL, 1000000002LL, -1000000000LL, 999999000LL, 16777217LL }, ck::tier(4, 5), [](const Data& d) { const Ref r = reference(d); ck::state(); typed<double, double>("double", d, r); typed<double, int>("int", d, r); typed<double, long long>("long long", d, r); typed<long double, long double>("long double", d, r); typed<double, double>("2^400", d, r, ldexpl(1, 400)); typed<double, double>("2^-400", d, r, ldexpl(1, -400));
        if (r.min > 0) typed<double, unsigned>("unsigned", d, r);
        std::vector<double> v(d.begin(), d.end()); const double sd = gul14::standard_deviation(v); if (r.min > 0 && d.size() > 1) CHECK(near(sd, r.sd, 1e-6L), "standard_deviation of %s is %.20g, expected %.20Lg", show(d).c_str(), sd, r.sd); });
    // extremes of the integer types
    sets({ 2147483647LL, -2147483648LL, 2147483646LL, -2147483647LL, 0 }, 4, [](const Data& d) { const Ref r = reference(d); ck::state(); typed<double, int>("int", d, r); typed<double, long>("long", d, r); integral_results(Data(1, d[0]), reference(Data(1, d[0])));
        std::vector<int> v(d.begin(), d.end()); const int e = gul14::median<int>(v); CHECK(std::fabs((ld)e - r.median) < 1, "integer median of %s is %d", show(d).c_str(), e); });
    sets({ 4294967295LL, 0, 1, 4294967294LL, 2147483648LL }, 4, [](const Data& d) { const Ref r = reference(d); ck::state(); typed<double, unsigned>("unsigned", d, r); std::vector<unsigned> v(d.begin(), d.end()); const unsigned e = gul14::median<unsigned>(v); CHECK(std::fabs((ld)e - r.median) < 1, "integer median of %s is %u", show(d).c_str(), e); });
    // median and extremes of doubles at the limit of the range
    const double M = std::numeric_limits<double>::max();
    for (double a : { M, -M, M / 2, 0.0 }) for (double b : { M, -M, -M / 2, 1.0 }) if (ck::mine()) { ck::state(); std::vector<double> v{ a, b }; const double m = gul14::median(v); CHECK(near(m, ((ld)a + (ld)b) / 2, 1e-15L), "median of {%g, %g} is %g", a, b, m); }
}
/// long series: all lengths with strided permutations
DOMAIN(series)
{
    for (int n = 1; n <= ck::tier(70, 200); ++n) for (int k : { 1, 2, 3, 5, 7, 11, 13 }) for (int off : { 0, -20 }) if (ck::mine()) { Data d; for (int i = 0; i < n; ++i) d.push_back((long long)(i * k) % n + off); one(d, n > 100); }
    for (int n = 71; n <= 600; ++n) if (ck::mine()) { Data d; const int k = n % 7 == 0 ? 11 : 7; for (int i = 0; i < n; ++i) d.push_back((long long)(i * k) % n - 20); one(d, true); }
    for (int n : { 127, 128, 129, 255, 256, 257, 500, 1000, 1025 }) for (int k : { 1, 7 }) for (int off : { 0, -300 }) if (ck::mine()) { Data d; for (int i = 0; i < n; ++i) d.push_back((long long)(i * k) % n + off); one(d, true); }
}
DOMAIN(outliers)
{
    sets({ 0, 1, -2, 5, 100, -40 }, ck::tier(5, 6), [](const Data& d) { for (std::size_t k = 0; k <= d.size() + 1; ++k) check_outliers(d, k); });
    sets({ 3, 8 }, ck::tier(8, 10), [](const Data& d) { for (std::size_t k = 0; k <= 3; ++k) check_outliers(d, k); });
    for (int n = 3; n < ck::tier(30, 60); ++n) for (int k : { 1, 3, 7 }) for (std::size_t m = 0; m <= (std::size_t)n + 1; ++m) if (ck::mine()) { Data d; for (int i = 0; i < n; ++i) d.push_back((i * k) % n * ((i * k) % n)); check_outliers(d, m); }
}
/// empty data sets
template <typename T> void empty_type()
{
    if (!ck::mine()) return;
    ck::state(); ck::step(12); using L = std::numeric_limits<T>; std::vector<T> v;
    CHECK(std::isnan(gul14::mean(v)) && std::isnan(gul14::rms(v)) && std::isnan(gul14::median(v)) && std::isnan(gul14::standard_deviation(v).sigma()) && std::isnan(gul14::standard_deviation(v).mean()) && std::isnan(gul14::mean(v.begin(), v.end())) && std::isnan(gul14::median(v.begin(), v.end())) && std::isnan(gul14::rms(v.cbegin(), v.cend())), "statistics of no data are not NaN");
    const auto mm = gul14::min_max(v);
    if (L::has_quiet_NaN) CHECK(mm.min != mm.min && mm.max != mm.max && gul14::minimum(v) != gul14::minimum(v) && gul14::maximum(v) != gul14::maximum(v), "extreme values of no floating-point data are not NaN");
    else CHECK(mm.min == L::max() && mm.max == L::lowest() && gul14::minimum(v) == L::max() && gul14::maximum(v) == L::lowest() && gul14::minimum(v.begin(), v.end()) == L::max() && gul14::maximum(v.begin(), v.end()) == L::lowest(), "extreme values of no integer data");
    const gul14::MinMax<T> def; CHECK((L::has_quiet_NaN && def.min != def.min && def.max != def.max) || (def.min == L::max() && def.max == L::lowest()), "default MinMax");
    CHECK(gul14::accumulate<int>(v, [](int a, T) { return a + 1; }) == 0 && gul14::remove_outliers(v, 2).empty(), "accumulate or remove_outliers of no data");
    // single elements and limits
    for (T x : { L::max(), L::lowest(), T(0), T(1), L::min() }) { std::vector<T> s{ x }; CHECK(gul14::minimum(s) == x && gul14::maximum(s) == x && gul14::min_max(s).min == x && gul14::min_max(s).max == x, "extreme values of a single limit value");
        for (T y : { L::max(), L::lowest(), T(0), T(1), L::min() }) { std::vector<T> t{ x, y }; CHECK(gul14::minimum(t) == std::min(x, y) && gul14::maximum(t) == std::max(x, y) && gul14::min_max(t).min == std::min(x, y) && gul14::min_max(t).max == std::max(x, y), "extreme values of two limit values"); } }
}
DOMAIN(empty) { empty_type<double>(); empty_type<float>(); empty_type<long double>(); empty_type<int>(); empty_type<unsigned>(); empty_type<signed char>(); empty_type<unsigned char>(); empty_type<short>(); empty_type<long long>(); empty_type<unsigned long long>(); gul14::StandardDeviationMean<double> s; CHECK(std::isnan(s.sigma()) && std::isnan(s.mean()), "default StandardDeviationMean"); }
/// special values: NaN is ignored by the extremes and propagates through the sums
template <typename T> void specials()
{
    const T nan = std::numeric_limits<T>::quiet_NaN(), inf = std::numeric_limits<T>::infinity(); const std::vector<T> A{ nan, inf, -inf, 0, (T)-0.0, 1, (T)-2.5, std::numeric_limits<T>::max(), std::numeric_limits<T>::denorm_min() };
    std::string idx; for (std::size_t i = 0; i < A.size(); ++i) idx += (char)i;
    ck::strings(idx, 1, ck::tier(4, 5), [&](const std::string& s) { if (!ck::mine()) return;
        std::vector<T> v; bool hasnan = false, pos = false, neg = false; T mn = nan, mx = nan; std::string txt;
        for (char c : s) { const T x = A[(std::size_t)c]; v.push_back(x); txt += std::to_string((double)x) + ","; if (std::isnan(x)) hasnan = true; else { if (x == inf) pos = true; if (x == -inf) neg = true; if (std::isnan(mn) || x < mn) mn = x; if (std::isnan(mx) || x > mx) mx = x; } }
        ck::state(); ck::step(8);
        auto same = [](T a, T b) { return a == b || (a != a && b != b); }; const auto mm = gul14::min_max(v);
        CHECK(same(gul14::minimum(v), mn) && same(gul14::minimum(v.begin(), v.end()), mn) && same(mm.min, mn), "minimum of {%s} is %Lg / %Lg", txt.c_str(), (ld)gul14::minimum(v), (ld)mm.min);
        CHECK(same(gul14::maximum(v), mx) && same(gul14::maximum(v.begin(), v.end()), mx) && same(mm.max, mx), "maximum of {%s} is %Lg / %Lg", txt.c_str(), (ld)gul14::maximum(v), (ld)mm.max);
        int big_ones = 0; for (T x : v) big_ones += x == std::numeric_limits<T>::max();
        if (big_ones > 1) return; // the sum may overflow
        const T m = gul14::mean<T>(v), q = gul14::rms<T>(v); const auto sd = gul14::standard_deviation<T>(v);
        if (hasnan || (pos && neg)) CHECK(m != m && sd.mean() != sd.mean() && sd.sigma() != sd.sigma(), "mean of {%s} is %Lg", txt.c_str(), (ld)m);
        else if (pos || neg) CHECK(m == (pos ? inf : -inf) && sd.sigma() != sd.sigma(), "mean of {%s} is %Lg", txt.c_str(), (ld)m);
        if (hasnan) CHECK(q != q, "rms of {%s} is %Lg", txt.c_str(), (ld)q); else if (pos || neg) CHECK(q == inf, "rms of {%s} is %Lg", txt.c_str(), (ld)q);
        if (!hasnan && (v.size() & 1)) { auto w = v; std::sort(w.begin(), w.end()); CHECK(gul14::median<T>(v) == w[w.size() / 2], "median of {%s} is %Lg", txt.c_str(), (ld)gul14::median<T>(v)); } });
}
DOMAIN(special_values) { specials<double>(); specials<float>(); }
/// numbers of elements beyond those
DOMAIN(huge_series)
{
    for (int n : ck::huge(66000)) for (int k : { 1, 7 }) if (ck::mine()) {
        Data d; for (int i = 0; i < n; ++i) d.push_back((long long)i * k % n - 300); const Ref r = reference(d); ck::state(); typed<double, double>("double", d, r); typed<double, int>("int", d, r);
        std::list<double> li(d.begin(), d.end()); three<double>("list", li, d, r, Id<double>{}, 1); minmax("list", li, d, r, Id<double>{}, 1); plain<double>("list", li, d, r, 1);
    }
    for (int n : { 200, 255, 256, 257, 300, 400 }) for (int m : { 0, 1, 64, 127, 128, 129, 199, 200, 254, 255, 256, 257, 300 }) if (ck::mine()) { Data d; for (int i = 0; i < n; ++i) { const long long x = (long long)i * 7 % n; d.push_back(x * x); } check_outliers(d, (std::size_t)m); }
}
