// N04: gcd and lcm against the definition (search for divisors) and exact 128-bit arithmetic.
#include "ck.h"
#include "gul14/gcd_lcm.h"
#include <limits>
#include <type_traits>
typedef __int128 big;
static std::string str(big v) { if (v == 0) return "0"; const bool neg = v < 0; std::string s; unsigned __int128 u = neg ? -(unsigned __int128)v : (unsigned __int128)v; while (u) { s.insert(s.begin(), (char)('0' + (int)(u % 10))); u /= 10; } return neg ? "-" + s : s; }
static big babs(big v) { return v < 0 ? -v : v; }
/// binary algorithm (shifts and subtractions)
static big ref_gcd(big a, big b)
{
    a = babs(a); b = babs(b);
    if (!a) return b;
    if (!b) return a;
    int sh = 0; while (!((a | b) & 1)) { a >>= 1; b >>= 1; ++sh; }
    while (!(a & 1)) a >>= 1;
    while (b) { while (!(b & 1)) b >>= 1; if (a > b) { const big t = a; a = b; b = t; } b -= a; }
    return a << sh;
}
template <typename A, typename B> void one(A a, B b)
{
    using C = std::common_type_t<A, B>;
    static_assert(std::is_same<decltype(gul14::gcd(a, b)), C>::value && std::is_same<decltype(gul14::lcm(a, b)), C>::value, "result type");
    const big ba = (big)a, bb = (big)b, g = ref_gcd(ba, bb);
    const unsigned __int128 l = (ba == 0 || bb == 0) ? 0 : (unsigned __int128)(babs(ba) / g) * (unsigned __int128)babs(bb); // at most 128 bits
    ck::state();
    const big max = (big)std::numeric_limits<C>::max();
    if (g <= max) { ck::step(); const C r = gul14::gcd(a, b); CHECK((big)r == g, "gcd(%s, %s) of %d and %d byte %s gave %s, expected %s", str(ba).c_str(), str(bb).c_str(), (int)sizeof a, (int)sizeof b, std::is_signed<A>::value ? "signed" : "unsigned", str((big)r).c_str(), str(g).c_str()); }
    if (l <= (unsigned __int128)max) { ck::step(); const C r = gul14::lcm(a, b); CHECK((unsigned __int128)(big)r == l, "lcm(%s, %s) of %d and %d byte %s gave %s, expected %s", str(ba).c_str(), str(bb).c_str(), (int)sizeof a, (int)sizeof b, std::is_signed<A>::value ? "signed" : "unsigned", str((big)r).c_str(), str((big)l).c_str()); }
    if (g > 1 && l <= (unsigned __int128)max && g != babs(ba)) ck::sample("gcd(%s, %s) = %s, lcm = %s", str(ba).c_str(), str(bb).c_str(), str(g).c_str(), str((big)l).c_str());
}
/// all pairs of bytes, also checked by searching all divisors
DOMAIN(bytes)
{
    for (int a = -128; a <= 127; ++a) for (int b = -128; b <= 127; ++b) if (ck::mine()) {
        big g = 0; const int m = std::max(std::abs(a), std::abs(b)); for (int d = 1; d <= m; ++d) if (a % d == 0 && b % d == 0) g = d;
        CHECK(ref_gcd(a, b) == g, "internal: reference");
        one((signed char)a, (signed char)b); one((char)a, (char)b); one((signed char)a, (short)b); one((short)a, (signed char)b); one((short)a, (short)b); one((signed char)a, (int)b); one((int)a, (signed char)b); one((int)a, (int)b); one((long)a, (signed char)b); one((long long)a, (int)b); one((int)a, (long)b); one((long)a, (long long)b); }
    for (int a = 0; a <= 255; ++a) for (int b = 0; b <= 255; ++b) if (ck::mine()) {
        one((unsigned char)a, (unsigned char)b); one((unsigned char)a, (unsigned short)b); one((unsigned short)a, (unsigned char)b); one((unsigned)a, (unsigned char)b); one((unsigned)a, (unsigned)b); one((unsigned long)a, (unsigned)b); one((unsigned short)a, (unsigned long long)b); }
}
DOMAIN(ints) { const int n = ck::tier(700, 3000); for (int a = -n; a <= n; ++a) if (ck::mine()) for (int b = -n; b <= n; b += (b < -300 && !ck::thorough()) ? 7 : 1) { one(a, b); } }
/// all pairs around the limits and powers of two of each type
template <typename T> std::vector<T> interesting()
{
    std::vector<T> v; using L = std::numeric_limits<T>;
    for (int i = 0; i <= 12; ++i) { v.push_back((T)(L::max() - (T)i)); v.push_back((T)(L::min() + (T)i)); v.push_back((T)i); if (std::is_signed<T>::value) v.push_back((T)-i); }
    for (unsigned b = 4; b < sizeof(T) * 8; b += 3) for (int d = -1; d <= 1; ++d) { const big p = ((big)1 << b) + d; if (p <= (big)L::max()) { v.push_back((T)p); if (std::is_signed<T>::value) v.push_back((T)-p); } }
    for (big p = 6; p <= (big)L::max() / 7; p *= 7) { v.push_back((T)p); v.push_back((T)(p * 5)); }
    for (big p : { (big)30030, (big)510510, (big)223092870, (big)6469693230LL, (big)2147483647LL, (big)4294967291LL, (big)60000000000LL, (big)100000000000LL, (big)9223372036854775783LL }) if (p <= (big)L::max()) { v.push_back((T)p); if (std::is_signed<T>::value) v.push_back((T)-p); }
    // Fibonacci numbers: longest runs of the Euclidean algorithm
    big x = 8, y = 13; while (y <= (big)L::max()) { v.push_back((T)y); const big z = x + y; x = y; y = z; }
    return v;
}
template <typename A, typename B> void pairs() { for (A a : interesting<A>()) for (B b : interesting<B>()) if (ck::mine()) one(a, b); }
DOMAIN(limits_signed) { pairs<signed char, signed char>(); pairs<short, short>(); pairs<int, int>(); pairs<long, long>(); pairs<long long, long long>(); pairs<short, int>(); pairs<int, short>(); pairs<int, long>(); pairs<long long, signed char>(); pairs<signed char, short>(); pairs<long, long long>(); pairs<int, long long>(); }
DOMAIN(limits_unsigned) { pairs<unsigned char, unsigned char>(); pairs<unsigned short, unsigned short>(); pairs<unsigned, unsigned>(); pairs<unsigned long, unsigned long>(); pairs<unsigned long long, unsigned long long>(); pairs<unsigned short, unsigned>(); pairs<unsigned, unsigned long>(); pairs<unsigned char, unsigned long long>(); pairs<unsigned long, unsigned short>(); }
