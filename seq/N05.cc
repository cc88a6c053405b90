// N05: abs, within_orders, within_abs, within_ulp, clamp against exact wide arithmetic.
#include "ck.h"
#include "gul14/num_util.h"
#include <cmath>
#include <limits>
#include <type_traits>
typedef __int128 big;
typedef __float128 quad;
static std::string str(big v) { if (v == 0) return "0"; const bool neg = v < 0; std::string s; unsigned __int128 u = neg ? -(unsigned __int128)v : (unsigned __int128)v; while (u) { s.insert(s.begin(), (char)('0' + (int)(u % 10))); u /= 10; } return neg ? "-" + s : s; }
static big babs(big v) { return v < 0 ? -v : v; }
static quad qabs(quad v) { return v < 0 ? -v : v; }

// ---------------------------------------------------------------- integers
template <typename T> void int_abs(T a)
{
    ck::state(); ck::step();
    static_assert(std::is_same<decltype(gul14::abs(a)), T>::value, "result type");
    if (babs((big)a) <= (big)std::numeric_limits<T>::max()) CHECK((big)gul14::abs(a) == babs((big)a), "abs(%s) of %d bytes gave %s", str((big)a).c_str(), (int)sizeof(T), str((big)gul14::abs(a)).c_str());
}
template <typename T> void int_within_abs(T a, T b, T tol)
{
    ck::state(); ck::step();
    const bool want = babs((big)a - (big)b) <= babs((big)tol), got = gul14::within_abs(a, b, tol);
    CHECK(got == want, "within_abs(%s, %s, %s) of %d byte %s integers is %d", str((big)a).c_str(), str((big)b).c_str(), str((big)tol).c_str(), (int)sizeof(T), std::is_signed<T>::value ? "signed" : "unsigned", got);
}
template <typename T> void int_within_orders(T a, T b, int orders)
{
    const big diff = babs((big)a - (big)b), mx = std::max(babs((big)a), babs((big)b));
    bool want = diff == 0, sure = true;
    if (diff != 0) {
        big p = 1; for (int i = 0; i < std::abs(orders); ++i) p *= 10; // at most 10^18
        // diff < mx / 10^orders; wide operands and negative orders involve rounding
        const big l = orders >= 0 ? diff * p : diff, r = orders >= 0 ? mx : mx * p;
        want = l < r;
        if (mx > ((big)1 << 50) || diff > ((big)1 << 50) || orders < 0) sure = babs(l - r) > l / 1000000000000LL;
        if (orders > 15) sure = babs(l - r) > l / 1000000000LL;
    }
    ck::state(); if (!sure) return;
    ck::step();
    const bool got = gul14::within_orders(a, b, orders);
    CHECK(got == want, "within_orders(%s, %s, %d) of %d byte %s integers is %d", str((big)a).c_str(), str((big)b).c_str(), orders, (int)sizeof(T), std::is_signed<T>::value ? "signed" : "unsigned", got);
    CHECK(gul14::within_orders(a, b, (double)orders) == got && gul14::within_orders(a, b, (float)orders) == got, "within_orders(%s, %s, %d) depends on the type of the order", str((big)a).c_str(), str((big)b).c_str(), orders);
    if (orders > 1 && want && diff) ck::sample("within_orders(%s, %s, %d)", str((big)a).c_str(), str((big)b).c_str(), orders);
}
DOMAIN(bytes_abs) { for (int a = -128; a < 256; ++a) if (ck::mine()) { if (a < 128) { int_abs((signed char)a); int_abs((char)a); int_abs((short)a); int_abs(a); int_abs((long)a); int_abs((long long)a); } if (a >= 0) { int_abs((unsigned char)a); int_abs((unsigned short)a); int_abs((unsigned)a); int_abs((unsigned long long)a); } } }
DOMAIN(bytes_within_abs) { for (int a = -128; a < 128; ++a) for (int b = -128; b < 128; ++b) if (ck::mine()) for (int t = -128; t < 128; t += ck::tier(3, 1)) { int_within_abs((signed char)a, (signed char)b, (signed char)t); int_within_abs((unsigned char)a, (unsigned char)b, (unsigned char)t); if (t % 5 == 0) { int_within_abs((short)(a * 256), (short)(b * 256), (short)(t * 256)); int_within_abs((unsigned short)(a * 257), (unsigned short)(b * 257), (unsigned short)(t * 257)); int_within_abs(a * 16777216, b * 16777216, t * 16777216); int_within_abs((unsigned)a * 16777217u, (unsigned)b * 16777217u, (unsigned)t * 16777217u); } } }
DOMAIN(bytes_within_orders) { for (int a = -128; a < 128; ++a) for (int b = -128; b < 128; ++b) if (ck::mine()) for (int o = -2; o <= 4; ++o) { int_within_orders((signed char)a, (signed char)b, o); int_within_orders((unsigned char)a, (unsigned char)b, o); int_within_orders((short)(a * 256), (short)(b * 256), o); int_within_orders((unsigned short)(a * 257), (unsigned short)(b * 257), o); int_within_orders(a, b, o); int_within_orders((unsigned)(a + 128), (unsigned)(b + 128), o); int_within_orders(a * 16777216, b * 16777216, o); int_within_orders((unsigned)a * 16777217u, (unsigned)b * 16777217u, o); int_within_orders((long)(a * 72057594037927936L), (long)(b * 72057594037927936L), o); int_within_orders((unsigned long)a * 72057594037927937UL, (unsigned long)b * 72057594037927937UL, o); } }
template <typename T> std::vector<T> interesting()
{
    std::vector<T> v; using L = std::numeric_limits<T>;
    for (int i = 0; i <= 4; ++i) { v.push_back((T)(L::max() - (T)i)); v.push_back((T)(L::min() + (T)i)); v.push_back((T)i); if (std::is_signed<T>::value) v.push_back((T)-i); }
    for (unsigned b = 5; b < sizeof(T) * 8; b += 7) for (int d = -1; d <= 1; ++d) { const big p = ((big)1 << b) + d; if (p <= (big)L::max()) { v.push_back((T)p); if (std::is_signed<T>::value) v.push_back((T)-p); } }
    for (big p = 10; p <= (big)L::max() / 10; p *= 10) { v.push_back((T)p); v.push_back((T)(p + 1)); v.push_back((T)(p - 1)); if (std::is_signed<T>::value) v.push_back((T)-p); }
    return v;
}
template <typename T> void ints()
{
    const auto v = interesting<T>();
    for (T a : v) { if (ck::mine()) int_abs(a); for (T b : v) if (ck::mine()) { for (T t : v) int_within_abs(a, b, t); for (int o = -3; o <= 18; ++o) int_within_orders(a, b, o); } }
}
DOMAIN(limits) { ints<signed char>(); ints<short>(); ints<int>(); ints<long>(); ints<long long>(); ints<unsigned char>(); ints<unsigned short>(); ints<unsigned>(); ints<unsigned long>(); ints<unsigned long long>(); }
DOMAIN(digits) { for (int base : { 1000, 12345, 99999, 100000, 23736384 }) for (int d = -2000; d <= 2000; ++d) if (ck::mine()) for (int o = 0; o <= 7; ++o) { int_within_orders(base, base + d, o); if (base + d >= 0) int_within_orders((unsigned)base, (unsigned)(base + d), o); int_within_orders(-base, -(base + d), o); int_within_orders((long long)base * 1000000, (long long)(base + d) * 1000000, o); } }

// ---------------------------------------------------------------- floating point
template <typename T> const char* tn() { return sizeof(T) == 4 ? "float" : sizeof(T) == 8 ? "double" : "long double"; }
/// Spacing of the numbers in the binade of |x|
template <typename T> quad unit(T x) { x = std::fabs(x); if (x < std::numeric_limits<T>::min()) return std::numeric_limits<T>::denorm_min(); int e; (void)std::frexp(x, &e); return (quad)std::ldexp((T)1, e - std::numeric_limits<T>::digits); }
template <typename T> void fl_abs(T a) { ck::state(); ck::step(); const T r = gul14::abs(a); CHECK(std::isnan(a) ? std::isnan(r) : (r == (a < 0 ? -a : a) && !std::signbit(r)), "abs<%s>(%Lg) gave %Lg", tn<T>(), (long double)a, (long double)r); }
template <typename T> void fl_abs_cmp(T a, T b, T tol)
{
    ck::state(); ck::step();
    const bool got = gul14::within_abs(a, b, tol), rev = gul14::within_abs(b, a, tol), neg = gul14::within_abs(a, b, -tol);
    CHECK(got == rev, "within_abs<%s>(%La, %La, %La) is not symmetric", tn<T>(), (long double)a, (long double)b, (long double)tol);
    CHECK(got == neg, "within_abs<%s>(%La, %La, %La) depends on the sign of the tolerance", tn<T>(), (long double)a, (long double)b, (long double)tol);
    bool want, sure = true;
    if (std::isnan(a) || std::isnan(b) || std::isnan(tol)) want = false;
    else if (std::isinf(tol) && (std::isinf(a) || std::isinf(b))) return; // infinite differences have no defined order
    else if (a == b) want = true;
    else if (std::isinf(tol)) want = true;
    else if (std::isinf(a) || std::isinf(b)) want = false;
    else {
        // Sums of numbers whose magnitudes differ a lot do not fit the wide type either: the band of rounding errors covers that
        const quad diff = qabs((quad)a - (quad)b), t = qabs((quad)tol);
        want = diff <= t;
        const quad band = unit(std::max({ std::fabs(a), std::fabs(b), std::fabs(tol) }));
        // exact if all operands are small multiples of the same power of two
        bool exact = true;
        for (T x : { a, b, tol }) { const T s = x * 64; if (!(std::fabs(s) < 1000000) || s != std::floor(s)) exact = false; }
        if (!exact) sure = qabs(diff - t) > band;
    }
    if (sure) CHECK(got == want, "within_abs<%s>(%La, %La, %La) is %d", tn<T>(), (long double)a, (long double)b, (long double)tol, got);
}
template <typename T> void fl_orders(T a, T b, int o)
{
    ck::state(); ck::step();
    const bool got = gul14::within_orders(a, b, o), rev = gul14::within_orders(b, a, o);
    CHECK(got == rev, "within_orders<%s>(%La, %La, %d) is not symmetric", tn<T>(), (long double)a, (long double)b, o);
    bool want, sure = true;
    if (std::isnan(a) || std::isnan(b) || ((std::isinf(a) || std::isinf(b)) && a != b)) want = false;
    else if (a == b) { if (std::isinf(a)) return; want = true; }
    else {
        const quad diff = qabs((quad)a - (quad)b), mx = std::max(qabs(a), qabs(b));
        quad p = 1; for (int i = 0; i < std::abs(o); ++i) p *= 10;
        const quad l = o >= 0 ? diff * p : diff, r = o >= 0 ? mx : mx * p;
        want = l < r;
        sure = qabs(l - r) > l * (quad)(64 * std::numeric_limits<T>::epsilon());
        if (diff < std::numeric_limits<T>::min() * 4 || r < std::numeric_limits<T>::min() * 4 || mx / p < std::numeric_limits<T>::min() * 4) sure = false; // rounding of subnormal numbers
        if (diff > std::numeric_limits<T>::max() || r > std::numeric_limits<T>::max()) sure = false;
    }
    if (sure) CHECK(got == want, "within_orders<%s>(%La, %La, %d) is %d", tn<T>(), (long double)a, (long double)b, o, got);
}
template <typename T> void fl_ulp(T a, T b, unsigned n)
{
    ck::state(); ck::step();
    const bool got = gul14::within_ulp(a, b, n), rev = gul14::within_ulp(b, a, n);
    CHECK(got == rev, "within_ulp<%s>(%La, %La, %u) is not symmetric", tn<T>(), (long double)a, (long double)b, n);
    if (std::isnan(a) || std::isnan(b)) { CHECK(!got, "within_ulp<%s>(%La, %La, %u) with NaN is true", tn<T>(), (long double)a, (long double)b, n); return; }
    if (a == b) { CHECK(got, "within_ulp<%s>(%La, %La, %u) is false for equal numbers", tn<T>(), (long double)a, (long double)b, n); return; }
    if (std::isinf(a) || std::isinf(b)) { CHECK(!got, "within_ulp<%s>(%La, %La, %u) with infinity is true", tn<T>(), (long double)a, (long double)b, n); return; }
    const quad diff = qabs((quad)a - (quad)b), u = unit(std::max(std::fabs(a), std::fabs(b)));
    if (diff > std::numeric_limits<T>::max()) { if (n < 1000000) CHECK(!got, "within_ulp<%s>(%La, %La, %u) is true", tn<T>(), (long double)a, (long double)b, n); return; }
    const quad slack = diff * (quad)std::numeric_limits<T>::epsilon();
    if (diff + (n > 1000 ? slack : 0) <= u * n) CHECK(got, "within_ulp<%s>(%La, %La, %u) is false although they differ by less", tn<T>(), (long double)a, (long double)b, n);
    if (diff > u * n * 2 + slack) CHECK(!got, "within_ulp<%s>(%La, %La, %u) is true although they differ by more", tn<T>(), (long double)a, (long double)b, n);
}
template <typename T> std::vector<T> reals()
{
    using L = std::numeric_limits<T>;
    std::vector<T> v = { 0, (T)-0.0, 1, -1, 2, 3, -7, 10, 100, (T)99.5, (T)1e6, (T)-1e6, (T)0.125, (T)0.1, (T)1.5, L::min(), -L::min(), L::denorm_min(), -L::denorm_min(), L::max(), L::lowest(), L::max() / 2, L::infinity(), -L::infinity(), L::quiet_NaN(), L::epsilon(), 1 + L::epsilon(), 1 - L::epsilon() / 2, L::min() - L::denorm_min(), L::min() + L::denorm_min(), L::denorm_min() * 7, L::max() * (1 - L::epsilon()) };
    const std::size_t n = v.size();
    for (std::size_t i = 0; i < n; i += 3) if (std::isfinite(v[i])) { v.push_back(std::nextafter(v[i], L::infinity())); v.push_back(std::nextafter(v[i], -L::infinity())); v.push_back(v[i] * (T)1.01); v.push_back(v[i] / 1000); }
    return v;
}
template <typename T> void floats()
{
    const auto v = reals<T>();
    for (T a : v) { if (ck::mine()) fl_abs(a); for (T b : v) if (ck::mine()) { for (T t : v) fl_abs_cmp(a, b, t); for (int o = -3; o <= 12; ++o) fl_orders(a, b, o); for (unsigned n : { 0u, 1u, 2u, 3u, 10u, 1000u, 1u << 23, ~0u }) fl_ulp(a, b, n); } }
}
DOMAIN(reals) { floats<float>(); floats<double>(); floats<long double>(); }
template <typename T> void grid() { for (int a = -40; a <= 40; ++a) for (int b = -40; b <= 40; ++b) if (ck::mine()) { for (int t = 0; t <= 80; t += 2) fl_abs_cmp((T)a / 8, (T)b / 8, (T)t / 8); for (int o = -2; o <= 3; ++o) fl_orders((T)a / 8, (T)b / 8, o); fl_ulp((T)a / 8, (T)b / 8, 5); } }
DOMAIN(dyadic_grid) { grid<float>(); grid<double>(); grid<long double>(); }
/// neighbours at every binade boundary: k steps apart
template <typename T> void neighbours(int lo, int hi, int stepw)
{
    for (int e = lo; e <= hi; e += stepw) for (int m = 0; m < 6; ++m) for (int k = -6; k <= 6; ++k) if (ck::mine()) {
        const T f[] = { 1, (T)1.5, (T)1.9999999, 1 + std::numeric_limits<T>::epsilon(), 2 - std::numeric_limits<T>::epsilon(), (T)1.25 };
        const T a = std::ldexp(f[m], e); T b = a; for (int i = 0; i < std::abs(k); ++i) b = std::nextafter(b, k < 0 ? -std::numeric_limits<T>::infinity() : std::numeric_limits<T>::infinity());
        for (unsigned n = 0; n <= 14; ++n) { fl_ulp(a, b, n); fl_ulp(-a, -b, n); fl_ulp(a, -b, n); }
        fl_abs_cmp(a, b, (T)qabs((quad)a - (quad)b)); for (int o = 0; o <= 20; ++o) fl_orders(a, b, o); }
}
DOMAIN(neighbours) { neighbours<float>(-149, 127, 1); neighbours<double>(-1074, 1023, ck::tier(13, 1)); neighbours<long double>(-16445, 16383, ck::tier(301, 7)); }
/// decimal digits: numbers that agree in exactly k digits
DOMAIN(decimal) { for (int e = -30; e <= 30; ++e) for (int m = 10; m < 100; m += 3) for (int k = 0; k <= 6; ++k) if (ck::mine()) { const double a = m * std::pow(10.0, e), d = a * std::pow(10.0, -k); for (double q : { 0.2, 0.9, 0.99, 1.01, 1.1, 5.0 }) for (int o = 0; o <= 6; ++o) { fl_orders(a, a + d * q, o); fl_orders(a, a - d * q, o); fl_orders(-a, -a - d * q, o); fl_orders((float)a, (float)(a + d * q), o); fl_orders((long double)a, (long double)(a + d * q), o); } } }

// ---------------------------------------------------------------- clamp
struct Key { int k, id; friend bool operator<(const Key& a, const Key& b) { return a.k < b.k; } };
DOMAIN(clamp)
{
    for (int v = -6; v <= 6; ++v) for (int lo = -6; lo <= 6; ++lo) for (int hi = lo; hi <= 6; ++hi) if (ck::mine()) {
        ck::state(); ck::step(6);
        const int want = v < lo ? lo : v > hi ? hi : v, which = v < lo ? 1 : v > hi ? 2 : 0;
        const Key k[3] = { { v, 0 }, { lo, 1 }, { hi, 2 } };
        const Key* r = &gul14::clamp(k[0], k[1], k[2]);
        CHECK(r == &k[which], "clamp(%d, %d, %d) does not refer to the expected argument", v, lo, hi);
        r = &gul14::clamp(k[0], k[1], k[2], [](const Key& a, const Key& b) { return a.k < b.k; });
        CHECK(r == &k[which], "clamp(%d, %d, %d, comp) does not refer to the expected argument", v, lo, hi);
        const Key* q = &gul14::clamp(k[0], k[2], k[1], [](const Key& a, const Key& b) { return a.k > b.k; });
        CHECK(q == &k[which], "clamp(%d, %d, %d, greater) does not refer to the expected argument", v, hi, lo);
        CHECK(gul14::clamp(v, lo, hi) == want && gul14::clamp((signed char)(v * 18), (signed char)(lo * 18), (signed char)(hi * 18)) == want * 18 && gul14::clamp((double)v, (double)lo, (double)hi) == want && gul14::clamp((unsigned)(v + 6), (unsigned)(lo + 6), (unsigned)(hi + 6)) == (unsigned)(want + 6) && gul14::clamp(v * (1LL << 60), lo * (1LL << 60), hi * (1LL << 60)) == want * (1LL << 60), "clamp(%d, %d, %d) is wrong", v, lo, hi);
        CHECK(gul14::clamp(std::to_string(v + 10), std::to_string(lo + 10), std::to_string(hi + 10)).size() > 0 || true, "clamp of strings"); }
    const auto R = reals<double>();
    for (double v : R) for (double lo : R) if (ck::mine()) for (double hi : R) { if (std::isnan(lo) || std::isnan(hi) || hi < lo) continue; ck::state(); ck::step();
        const double& r = gul14::clamp(v, lo, hi); const double* w = v < lo ? &lo : hi < v ? &hi : &v;
        CHECK(&r == w, "clamp(%g, %g, %g) = %g does not refer to the expected argument", v, lo, hi, r); }
}
