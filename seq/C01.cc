// C01: SmallVector behaves like std::vector under every sequence of operations.
#include "vec.h"
using namespace vec;

template <typename E, std::size_t N>
void explore(int maxsize, int depth, int maxsize_deep)
{
    for (int d = 1; d <= depth; ++d) {
        const auto A = H<E, N>::specs(d == 1 ? maxsize : maxsize_deep, false), B = H<E, N>::specs((int)N + 1, true);
        for (auto& sa : A) for (auto& sb : B) {
            std::vector<Op> o1; H<E, N>::gen(o1, sa.size, sb.size);
            for (auto& op1 : o1) {
                if (!ck::mine()) continue;
                auto ctx = [&](const std::string& rest) { return "capacity " + std::to_string(N) + ", a: " + std::to_string(sa.size) + "/" + std::to_string(sa.cap) + ", b: " + std::to_string(sb.size) + "/" + std::to_string(sb.cap) + ", " + show(op1) + rest; };
                if (d == 1) {
                    ck::sample("%s", ctx("").c_str());
                    { H<E, N> h(sa, sb); h.check(); h.apply(op1); h.check(); ck::state(); }
                } else {
                    int n1, nb1; { H<E, N> h(sa, sb); h.apply(op1); n1 = (int)h.ma.size(); nb1 = (int)h.mb.size(); }
                    if (n1 > maxsize_deep + 1) continue;
                    std::vector<Op> o2; H<E, N>::gen(o2, n1, nb1);
                    for (auto& op2 : o2) {
                        if (d == 2) { H<E, N> h(sa, sb); h.apply(op1); h.apply(op2); h.check(); ck::state(); }
                        else {
                            int n2, nb2; { H<E, N> h(sa, sb); h.apply(op1); h.apply(op2); n2 = (int)h.ma.size(); nb2 = (int)h.mb.size(); }
                            if (n2 > maxsize_deep) continue;
                            std::vector<Op> o3; H<E, N>::gen(o3, n2, nb2);
                            for (auto& op3 : o3) { H<E, N> h(sa, sb); h.apply(op1); h.apply(op2); h.apply(op3); h.check(); ck::state(); }
                        }
                    }
                }
                if (tr::living() != 0) ck::fail("%d elements are still alive after %s", tr::living(), ctx("").c_str());
            }
        }
    }
}

DOMAIN(tracked_inline_0) { explore<Val, 0>(5, ck::tier(2, 2), ck::tier(1, 3)); }
DOMAIN(tracked_inline_1) { explore<Val, 1>(5, ck::tier(2, 2), ck::tier(1, 4)); }
DOMAIN(tracked_inline_2) { explore<Val, 2>(6, ck::tier(2, 2), ck::tier(2, 4)); }
DOMAIN(tracked_inline_3) { explore<Val, 3>(6, ck::tier(1, 2), ck::tier(3, 3)); }
DOMAIN(throwing_move_inline_2) { explore<ThrowMove, 2>(5, ck::tier(1, 2), ck::tier(2, 3)); }
DOMAIN(move_only_inline_0) { explore<MoveOnly, 0>(4, ck::tier(1, 2), ck::tier(2, 3)); }
DOMAIN(move_only_inline_2) { explore<MoveOnlyThrow, 2>(5, ck::tier(1, 2), ck::tier(2, 3)); }
DOMAIN(int_inline_4) { explore<int, 4>(8, ck::tier(1, 2), ck::tier(2, 4)); }
DOMAIN(string_inline_2) { explore<std::string, 2>(5, ck::tier(1, 2), ck::tier(2, 3)); }
DOMAIN(json_inline_2) { explore<Json, 2>(4, ck::tier(1, 2), ck::tier(2, 3)); }
DOMAIN(aligned_inline_1) { explore<Aligned, 1>(4, ck::tier(1, 1), 2); }
DOMAIN(depth3_tracked_inline_1) { explore<Val, 1>(0, ck::tier(2, 3), ck::tier(1, 1)); }

// Sizes at the end of the range of the size type
DOMAIN(length_limits)
{
    for (unsigned n = 0; n <= 3; ++n) for (unsigned k : { 0xffffffffu, 0xfffffffeu, 0xfffffffdu }) for (unsigned pos = 0; pos <= n; ++pos) {
        if (!ck::mine()) continue;
        gul14::SmallVector<Val, 2> v; for (unsigned i = 0; i < n; ++i) v.emplace_back(1 + (int)i);
        if (k <= 0xffffffffu - n) continue;
        const Val e(9); bool threw = false;
        try { v.insert(v.cbegin() + pos, k, e); } catch (const std::length_error&) { threw = true; }
        CHECK(threw, "insert of %u elements into a vector of %u does not throw length_error", k, n);
        CHECK(v.size() == n, "failed insert changed the vector");
        for (unsigned i = 0; i < n; ++i) CHECK(v[i].get() == 1 + (int)i, "failed insert changed the elements");
        ck::state();
    }
}

// Large sizes: every operation at sizes around powers of two and around the inline capacity
template <typename T> T big_val(unsigned i) { return (T)(i * 37 + 11); }
template <> std::string big_val<std::string>(unsigned i) { return std::string(i % 40, (char)('a' + i % 26)); }

template <typename T, std::size_t N>
void large()
{
    using V = gul14::SmallVector<T, N>; using M = std::vector<T>;
    auto same = [](const V& v, const M& m, const char* what, unsigned n) {
        CHECK(v.size() == m.size() && v.empty() == m.empty(), "%s with %u elements (inline capacity %zu): size %zu instead of %zu", what, n, N, (std::size_t)v.size(), m.size());
        CHECK(v.capacity() >= v.size() && v.capacity() >= N, "%s with %u elements: capacity %zu is too small", what, n, (std::size_t)v.capacity());
        CHECK((std::size_t)(v.end() - v.begin()) == m.size(), "%s with %u elements: wrong distance of iterators", what, n);
        std::size_t i = 0;
        for (auto& x : v) { CHECK(x == m[i], "%s with %u elements (inline capacity %zu): wrong element %zu", what, n, N, i); ++i; }
        for (std::size_t k = 0; k < m.size(); k += 1 + m.size() / 50) CHECK(v[k] == m[k] && v.at(k) == m[k] && v.data()[k] == m[k], "%s with %u elements: wrong element %zu", what, n, k);
        bool threw = false; try { (void)v.at(m.size()); } catch (const std::out_of_range&) { threw = true; }
        CHECK(threw, "%s with %u elements: at() beyond the end does not throw", what, n);
    };
    std::vector<unsigned> sizes;
    for (unsigned n = 0; n <= 40; ++n) sizes.push_back(n);
    for (unsigned c : { 64u, 100u, 128u, 256u, 300u, 512u, 1000u, 1024u, 4096u, 65536u }) for (int d = -1; d <= 1; ++d) sizes.push_back(c + d);
    for (unsigned n : sizes) {
        if (!ck::mine()) continue;
        V v; M m;
        for (unsigned i = 0; i < n; ++i) {
            const bool room = v.size() < v.capacity(); const T* first = v.data();
            v.push_back(big_val<T>(i)); m.push_back(big_val<T>(i));
            CHECK(!room || first == v.data(), "push_back at size %u moved the elements although there was room", i);
        }
        same(v, m, "push_back", n);
        { V w(n, big_val<T>(7)); same(w, M(n, big_val<T>(7)), "construction", n); V x(m.begin(), m.end()); same(x, m, "construction from a range", n); V y(n); same(y, M(n), "construction of default elements", n); CHECK(x == v && !(x != v), "equal vectors with %u elements differ", n);
          x.push_back(big_val<T>(1)); CHECK(x != v && !(x == v), "vectors with %u and %u elements are equal", n, n + 1); }
        for (unsigned pos : { 0u, 1u, n / 2, n - 1, n }) { if (pos > n) continue;
            for (unsigned k : { 0u, 1u, 2u, 15u, 256u, n }) {
                { V w(v); M x(m); auto it = w.insert(w.cbegin() + pos, (typename V::size_type)k, big_val<T>(5)); x.insert(x.begin() + pos, k, big_val<T>(5)); same(w, x, "insert of copies", n); CHECK(it == w.begin() + pos, "insert returns a wrong iterator"); }
                { V w(v); M x(m); M src; for (unsigned i = 0; i < k; ++i) src.push_back(big_val<T>(i + 3)); w.insert(w.cbegin() + pos, src.begin(), src.end()); x.insert(x.begin() + pos, src.begin(), src.end()); same(w, x, "insert of a range", n); }
                if (pos + k <= n) { V w(v); M x(m); auto it = w.erase(w.cbegin() + pos, w.cbegin() + pos + k); x.erase(x.begin() + pos, x.begin() + pos + k); same(w, x, "erase of a range", n); CHECK(it == w.begin() + pos, "erase returns a wrong iterator"); }
            }
            { V w(v); M x(m); w.insert(w.cbegin() + pos, big_val<T>(9)); x.insert(x.begin() + pos, big_val<T>(9)); same(w, x, "insert", n); w.emplace(w.cbegin() + pos, big_val<T>(4)); x.emplace(x.begin() + pos, big_val<T>(4)); same(w, x, "emplace", n); }
            if (pos < n) { V w(v); M x(m); w.erase(w.cbegin() + pos); x.erase(x.begin() + pos); same(w, x, "erase", n); }
        }
        for (unsigned k : { 0u, 1u, n / 2, n - 1, n, n + 1, 2 * n, n + 300 }) { if (k > 200000) continue;
            { V w(v); M x(m); w.resize(k); x.resize(k); same(w, x, "resize", n); w.shrink_to_fit(); same(w, x, "shrink_to_fit", n); w.push_back(big_val<T>(2)); x.push_back(big_val<T>(2)); same(w, x, "push_back after shrink_to_fit", n); }
            { V w(v); M x(m); w.resize(k, big_val<T>(8)); x.resize(k, big_val<T>(8)); same(w, x, "resize with value", n); }
            { V w(v); w.reserve(k); same(w, m, "reserve", n); CHECK(w.capacity() >= k, "reserve(%u) has no effect", k); const T* p = w.data(); M x(m); while (x.size() < k) { x.push_back(big_val<T>(3)); w.push_back(big_val<T>(3)); } CHECK(p == w.data(), "elements moved although %u had been reserved", k); same(w, x, "growing", n); }
            { V w(v); M x(m); w.assign((typename V::size_type)k, big_val<T>(6)); x.assign(k, big_val<T>(6)); same(w, x, "assign", n); V s(k, big_val<T>(1)); M t(k, big_val<T>(1)); 
              { V a(v), b(s); a.swap(b); same(a, t, "swap", n); same(b, m, "swap", n); }
              { V a(v), b(s); a = b; same(a, t, "copy assignment", n); same(b, t, "copy assignment", n); a = v; same(a, m, "copy assignment", n); }
              { V a(v), b(s); a = std::move(b); same(a, t, "move assignment", n); V c(std::move(a)); same(c, t, "move construction", n); c = V(v); same(c, m, "move assignment", n); } }
        }
        { V w(v); M x(m); while (!x.empty()) { CHECK(w.back() == x.back() && w.front() == x.front(), "wrong front or back"); w.pop_back(); x.pop_back(); if (x.size() % 97 == 0) same(w, x, "pop_back", n); } w.clear(); same(w, x, "clear", n); }
        ck::state();
    }
}
DOMAIN(large_int_0) { large<int, 0>(); }
DOMAIN(large_int_4) { large<int, 4>(); }
DOMAIN(large_int_100) { large<int, 100>(); }
DOMAIN(large_byte_1) { large<unsigned char, 1>(); }
DOMAIN(large_byte_256) { large<unsigned char, 256>(); }
DOMAIN(large_string_16) { large<std::string, 16>(); }
/// Equality is that of the elements, not of their bytes: zeros of both signs, NaN, padding, keys
struct Keyed { signed char key; int rest; friend bool operator==(const Keyed& a, const Keyed& b) { return a.key == b.key; } };
struct Weird { char c; int n; bool operator==(const Weird& o) const { return n == o.n && n != 3; } };
enum class En : unsigned char { x, y };
template <typename T, std::size_t N, std::size_t M> void equality(const T (&vals)[M])
{
    std::size_t total = 1, len[6]; for (int n = 0; n < 5; ++n) { len[n] = total; total *= M; }
    for (int n = 0; n < 4; ++n) for (int m = 0; m < 4; ++m) for (std::size_t a = 0; a < len[n]; ++a) for (std::size_t b = 0; b < len[m]; ++b) { if (!ck::mine()) continue;
        gul14::SmallVector<T, N> v, w; std::vector<T> x, y; std::size_t k = a;
        for (int i = 0; i < n; ++i, k /= M) { v.push_back(vals[k % M]); x.push_back(vals[k % M]); }
        k = b; for (int i = 0; i < m; ++i, k /= M) { w.push_back(vals[k % M]); y.push_back(vals[k % M]); }
        bool eq = x.size() == y.size(); for (std::size_t i = 0; eq && i < x.size(); ++i) eq = x[i] == y[i];
        CHECK((v == w) == eq && (v != w) == !eq, "equality of vectors with %d and %d elements (no. %zu, %zu)", n, m, a, b);
        bool self = true; for (const auto& e : v) self = self && e == e;
        CHECK((v == v) == self && (v != v) == !self, "equality of a vector with itself (%d elements, no. %zu)", n, a);
        ck::state(); ck::step(4);
    }
}
DOMAIN(equality_elements)
{
    const double d[] = { 0.0, -0.0, 1.0, std::nan("") }; equality<double, 2>(d);
    const float f[] = { 0.0f, -0.0f, std::nanf("") }; equality<float, 0>(f);
    Keyed kd[4]; for (int i = 0; i < 4; ++i) { memset(&kd[i], 17 * i, sizeof(Keyed)); kd[i].key = (signed char)(i % 2); kd[i].rest = i; } equality<Keyed, 2>(kd);
    Weird wd[4]; for (int i = 0; i < 4; ++i) { memset(&wd[i], 17 * i, sizeof(Weird)); wd[i].n = i == 3 ? 3 : i / 2; } equality<Weird, 1>(wd);
    const std::string s[] = { "", std::string(1, '\0'), "a", std::string(40, 'x') }; equality<std::string, 2>(s);
    const En e[] = { En::x, En::y }; equality<En, 2>(e); const bool bo[] = { false, true }; equality<bool, 1>(bo); const long double l[] = { 0.0L, -0.0L, 1.0L }; equality<long double, 2>(l);
}
DOMAIN(large_double_3) { large<double, 3>(); }
