// N03: bit functions against arithmetic on arrays of bits.
#include "ck.h"
#include "gul14/bit_manip.h"
#include <type_traits>

template <typename T> uint64_t raw(T v) { return (uint64_t)(std::make_unsigned_t<T>)v; }
template <typename T> void one(uint64_t bits)
{
    constexpr unsigned W = sizeof(T) * 8;
    const std::make_unsigned_t<T> u = (std::make_unsigned_t<T>)bits; T v; memcpy(&v, &u, sizeof v);
    const uint64_t all = raw(v);
    for (unsigned b = 0; b < W; ++b) {
        // the bit by division, not by shifting
        uint64_t p = 1; for (unsigned i = 0; i < b; ++i) p += p;
        const bool is = (all / p) % 2 == 1;
        static_assert(std::is_same<decltype(gul14::bit_set(v, b)), T>::value && std::is_same<decltype(gul14::bit_reset(v, b)), T>::value && std::is_same<decltype(gul14::bit_flip(v, b)), T>::value && std::is_same<decltype(gul14::bit_set<T>(b)), T>::value && std::is_same<decltype(gul14::bit_test(v, b)), bool>::value, "result type");
        ck::step(5);
        const T s = gul14::bit_set(v, b), r = gul14::bit_reset(v, b), f = gul14::bit_flip(v, b), o = gul14::bit_set<T>(b);
        CHECK(gul14::bit_test(v, b) == is, "%u-bit %s: bit_test(0x%llx, %u) is %d", W, std::is_signed<T>::value ? "signed" : "unsigned", (unsigned long long)all, b, !is);
        CHECK(raw(s) == (is ? all : all + p), "%u-bit %s: bit_set(0x%llx, %u) gave 0x%llx", W, std::is_signed<T>::value ? "signed" : "unsigned", (unsigned long long)all, b, (unsigned long long)raw(s));
        CHECK(raw(r) == (is ? all - p : all), "%u-bit %s: bit_reset(0x%llx, %u) gave 0x%llx", W, std::is_signed<T>::value ? "signed" : "unsigned", (unsigned long long)all, b, (unsigned long long)raw(r));
        CHECK(raw(f) == (is ? all - p : all + p), "%u-bit %s: bit_flip(0x%llx, %u) gave 0x%llx", W, std::is_signed<T>::value ? "signed" : "unsigned", (unsigned long long)all, b, (unsigned long long)raw(f));
        CHECK(raw(o) == p, "%u-bit %s: bit_set(%u) gave 0x%llx", W, std::is_signed<T>::value ? "signed" : "unsigned", b, (unsigned long long)raw(o));
    }
    ck::state();
    ck::sample("all %u bits of 0x%llx", W, (unsigned long long)all);
}
template <typename... T> void each(uint64_t v) { int x[] = { (one<T>(v), 0)... }; (void)x; }
DOMAIN(bytes) { for (unsigned v = 0; v < 256; ++v) if (ck::mine()) each<char, signed char, unsigned char>(v); }
DOMAIN(words) { for (unsigned v = 0; v < 65536; ++v) if (ck::mine()) each<short, unsigned short, char16_t>(v); }
/// all values with at most 3 runs of ones, and their neighbours
DOMAIN(wide)
{
    for (int a = 0; a <= 64; ++a) for (int b = a; b <= 64; ++b) for (int k = 0; k < ck::tier(65, 65); ++k) if (ck::mine()) {
        auto low = [](int n) { return n >= 64 ? ~0ull : (1ull << n) - 1; };
        const uint64_t v = (low(b) ^ low(a)) ^ (k < 64 ? 1ull << k : 0);
        each<int, unsigned, long, unsigned long, long long, unsigned long long, wchar_t, char32_t>(v); each<int, unsigned, long, unsigned long, long long, unsigned long long>(~v); }
}
DOMAIN(patterns) { for (int i = 0; i < 256; ++i) for (int j = 0; j < ck::tier(16, 256); ++j) if (ck::mine()) { const uint64_t v = 0x0101010101010101ull * (unsigned)i ^ (uint64_t)j << (j % 8 * 8); each<int, unsigned, long, unsigned long, long long, unsigned long long>(v); } }
/// defaults and endianness
DOMAIN(defaults)
{
    for (unsigned b = 0; b < 32; ++b) if (ck::mine()) { ck::state(); ck::step(); static_assert(std::is_same<decltype(gul14::bit_set(b)), unsigned>::value, "default type"); CHECK(gul14::bit_set(b) == (unsigned)(1ull << b), "bit_set(%u) gave %u", b, gul14::bit_set(b)); }
    if (ck::mine()) { ck::state(); const uint32_t v = 0x01020304; unsigned char c; memcpy(&c, &v, 1); CHECK(gul14::is_little_endian() == (c == 4) && gul14::is_big_endian() == (c == 1), "wrong endianness"); CHECK((gul14::endian::native == gul14::endian::little) == (c == 4), "wrong endianness"); }
}
