// C09: gul14::span against the underlying sequence: all lengths up to a bound, all sources, all
// valid offsets and counts with static and dynamic extents, all pairs of short contents.
#include <array>
#include <cstdint>
#include <limits>
#include <numeric>
#include <string>
#include <tuple>
#include <vector>
#include "ck.h"
#include "gul14/span.h"

using gul14::span; using gul14::dynamic_extent;
template <std::size_t N> using ic = std::integral_constant<std::size_t, N>;
struct Big { char c[7]; int tag; Big(int i = 0) : tag(i) {} friend bool operator==(const Big& a, const Big& b) { return a.tag == b.tag; } friend bool operator!=(const Big& a, const Big& b) { return a.tag != b.tag; } };

/// Checks that s is exactly [p, p + n)
template <typename S, typename T>
void exact(const S& s, T* p, std::size_t n, const char* what, std::size_t a = 0, std::size_t b = 0)
{
    using E = typename S::element_type;
    CHECK(s.size() == n && s.empty() == (n == 0) && s.size_bytes() == n * sizeof(E), "%s(%zu, %zu): size is %zu instead of %zu", what, a, b, s.size(), n);
    CHECK(n == 0 || s.data() == p, "%s(%zu, %zu): wrong start", what, a, b);
    CHECK(static_cast<std::size_t>(s.end() - s.begin()) == n && static_cast<std::size_t>(s.cend() - s.cbegin()) == n && static_cast<std::size_t>(s.rend() - s.rbegin()) == n && static_cast<std::size_t>(s.crend() - s.crbegin()) == n, "%s(%zu, %zu): distance of iterators", what, a, b);
    CHECK(begin(s) == s.begin() && end(s) == s.end() && s.begin() == s.data() && s.cbegin() == s.data(), "%s(%zu, %zu): begin and end", what, a, b);
    std::size_t i = 0;
    for (auto& e : s) { CHECK(&e == p + i && &s[i] == p + i, "%s(%zu, %zu): element %zu", what, a, b, i); ++i; }
    CHECK(i == n, "%s: iteration visits %zu elements", what, i);
    for (auto it = s.rbegin(); it != s.rend(); ++it) CHECK(&*it == p + --i, "%s(%zu, %zu): reverse iteration", what, a, b);
    for (auto it = s.crbegin(); it != s.crend(); ++it) CHECK(&*it == p + n - ++i, "%s(%zu, %zu): constant reverse iteration", what, a, b);
    if (n) CHECK(&s.front() == p && &s.back() == p + n - 1, "%s(%zu, %zu): front or back", what, a, b);
    ck::state(); ck::step();
}
template <typename S, typename T>
void bytes(S s, T* p, std::size_t n)
{
    auto b = gul14::as_bytes(s);
    CHECK(b.size() == n * sizeof(T) && (n == 0 || (const void*)b.data() == (const void*)p), "as_bytes of %zu elements", n);
    static_assert(std::is_same<typename decltype(b)::element_type, const unsigned char>::value, "as_bytes");
    static_assert(decltype(b)::extent + 0 == (S::extent == dynamic_extent ? dynamic_extent : S::extent * sizeof(T)), "as_bytes extent");
}
template <typename S, typename T>
void wbytes(S s, T* p, std::size_t n)
{
    auto b = gul14::as_writable_bytes(s);
    CHECK(b.size() == n * sizeof(T) && (n == 0 || (void*)b.data() == (void*)p), "as_writable_bytes of %zu elements", n);
    static_assert(decltype(b)::extent + 0 == (S::extent == dynamic_extent ? dynamic_extent : S::extent * sizeof(T)), "as_writable_bytes extent");
    std::size_t k = 0; for (auto& c : b) { c = (unsigned char)(k++ + 1); }
    const unsigned char* q = reinterpret_cast<const unsigned char*>(p);
    for (std::size_t i = 0; i < n * sizeof(T); ++i) CHECK(q[i] == (unsigned char)(i + 1), "writing byte %zu", i);
}
/// All runtime subviews
template <typename S, typename T>
void subviews(const S& s, T* p, std::size_t n)
{
    for (std::size_t c = 0; c <= n; ++c) {
        exact(s.first(c), p, c, "first", c);
        exact(s.last(c), p + (n - c), c, "last", c);
        exact(s.subspan(c), p + c, n - c, "subspan", c);
        for (std::size_t k = 0; c + k <= n; ++k) exact(s.subspan(c, k), p + c, k, "subspan", c, k);
    }
}
/// All compile-time subviews of a span that has N elements
template <typename S, typename T, std::size_t N, std::size_t O, std::size_t C>
void sub_oc(const S& s, T* p, std::true_type)
{
    auto r = s.template subspan<O, C>(); static_assert(decltype(r)::extent + 0 == C, "extent"); exact(r, p + O, C, "subspan<>", O, C);
}
template <typename S, typename T, std::size_t N, std::size_t O, std::size_t C> void sub_oc(const S&, T*, std::false_type) {}
template <typename S, typename T, std::size_t N, std::size_t O, std::size_t... C>
void sub_o(const S& s, T* p, std::index_sequence<C...>)
{
    auto f = s.template first<O>(); static_assert(decltype(f)::extent + 0 == O, "extent"); exact(f, p, O, "first<>", O);
    auto l = s.template last<O>(); static_assert(decltype(l)::extent + 0 == O, "extent"); exact(l, p + (N - O), O, "last<>", O);
    auto r = s.template subspan<O>(); static_assert(decltype(r)::extent + 0 == (S::extent == dynamic_extent ? dynamic_extent : N - O), "extent"); exact(r, p + O, N - O, "subspan<>", O);
    int d[] = { (sub_oc<S, T, N, O, C>(s, p, std::integral_constant<bool, O + C <= N>{}), 0)... }; (void)d;
}
template <std::size_t N, typename S, typename T, std::size_t... O>
void statics(const S& s, T* p, std::index_sequence<O...>) { int d[] = { (sub_o<S, T, N, O>(s, p, std::make_index_sequence<N + 1>{}), 0)... }; (void)d; }
template <typename S, typename T, std::size_t... I> void gets(S s, T* p, std::index_sequence<I...>) { bool d[] = { true, (&gul14::get<I>(s) == p + I)... }; for (bool b : d) CHECK(b, "get<> refers to a wrong element"); }

template <typename T> T mk(int i) { return T(i); }
template <> std::string mk<std::string>(int i) { return std::to_string(i); }
template <typename T, std::size_t N>
struct ForN
{
    static void run()
    {
        if (ck::mine()) {
            ck::sample("N = %zu", N);
            std::array<T, N> a{}; const auto& ca = a; T* p = a.data();
            span<T, N> fs(a); span<const T, N> cfs(ca); span<T> ds(a); span<const T> cds(ca), cds2(ds), cds3(fs), cds4(cfs); span<T> ds2(fs); span<const T, N> cfs2(fs);
            exact(fs, p, N, "span<T, N>(array)"); exact(cfs, p, N, "span<const T, N>(array)"); exact(ds, p, N, "span(array)"); exact(cds, p, N, "span<const T>(const array)");
            exact(cds2, p, N, "span<const T>(span<T>)"); exact(cds3, p, N, "span<const T>(span<T, N>)"); exact(cds4, p, N, "span<const T>(span<const T, N>)"); exact(ds2, p, N, "span<T>(span<T, N>)"); exact(cfs2, p, N, "span<const T, N>(span<T, N>)");
            span<T, N> fp(p, N), fr(p, p + N); exact(fp, p, N, "span<T, N>(pointer, size)"); exact(fr, p, N, "span<T, N>(pointer, pointer)");
            auto copy = fs; exact(copy, p, N, "copy"); span<T, N> asg(p, N); asg = copy; exact(asg, p, N, "assignment");
            span<T> dasg; exact(dasg, p, 0, "default"); dasg = fs; exact(dasg, p, N, "assignment of a static span"); dasg = span<T>(p, N / 2); exact(dasg, p, N / 2, "assignment");
            CHECK(span<T>().data() == nullptr, "default span has data"); CHECK((std::tuple_size<span<T, N>>::value == N), "tuple_size");
            subviews(fs, p, N); subviews(ds, p, N); subviews(cds, p, N); subviews(cfs, p, N);
            statics<N>(fs, p, std::make_index_sequence<N + 1>{}); statics<N>(ds, p, std::make_index_sequence<N + 1>{}); statics<N>(cfs, p, std::make_index_sequence<N + 1>{});
            gets(fs, p, std::make_index_sequence<N>{}); gets(ds, p, std::make_index_sequence<N>{}); gets(cfs, p, std::make_index_sequence<N>{});
            bytes(fs, p, N); bytes(ds, p, N); bytes(cfs, p, N);
        }
        carr(ic<N>{});
        if (ck::mine()) {
            std::vector<T> v(N); const auto& cv = v; T* p = v.data();
            span<T> s(v), pr(p, p + N), pl(p, N); span<const T> cs(v), ccs(cv);
            exact(s, p, N, "span(vector)"); exact(cs, p, N, "span<const T>(vector)"); exact(ccs, p, N, "span<const T>(const vector)"); exact(pr, p, N, "span(pointer, pointer)"); exact(pl, p, N, "span(pointer, size)");
            for (std::size_t i = 0; i <= N; ++i) for (std::size_t j = i; j <= N; ++j) { exact(span<T>(p + i, p + j), p + i, j - i, "span(pointer, pointer)", i, j); exact(span<const T>(p + i, j - i), p + i, j - i, "span(pointer, size)", i, j); }
            subviews(s, p, N); subviews(ccs, p, N);
        }
    }
    static void carr(ic<0>) {}
    template <std::size_t M> static void carr(ic<M>)
    {
        if (!ck::mine()) return;
        T c[M] = {}; const T cc[M] = {};
        span<T, M> f(c); span<T> d(c); span<const T, M> cf(cc); span<const T> cd(cc), cd2(c);
        exact(f, c, M, "span<T, N>(T[])"); exact(d, c, M, "span(T[])"); exact(cf, cc, M, "span<const T, N>(const T[])"); exact(cd, cc, M, "span<const T>(const T[])"); exact(cd2, c, M, "span<const T>(T[])");
        // writing through the span reaches the array
        for (std::size_t i = 0; i < M; ++i) { d[i] = mk<T>(1 + (int)i); CHECK(c[i] == mk<T>(1 + (int)i), "write"); }
        auto sub = f.subspan(M / 2); for (auto& x : sub) x = mk<T>(77); for (std::size_t i = 0; i < M; ++i) CHECK(c[i] == (i < M / 2 ? mk<T>(1 + (int)i) : mk<T>(77)), "write via subspan");
        trivial_bytes(f, d, c, std::is_arithmetic<T>{}); ck::state();
    }
    template <typename F, typename D, std::size_t M> static void trivial_bytes(F f, D d, T (&c)[M], std::true_type) { wbytes(f, c, M); wbytes(d, c, M); }
    template <typename F, typename D, std::size_t M> static void trivial_bytes(F, D, T (&)[M], std::false_type) {}
};
template <typename T, std::size_t... N> void sizes(std::index_sequence<N...>) { int d[] = { (ForN<T, N>::run(), 0)... }; (void)d; }
DOMAIN(views_int) { sizes<int>(std::make_index_sequence<8>{}); }
DOMAIN(views_char) { sizes<char>(std::make_index_sequence<6>{}); }
DOMAIN(views_struct) { sizes<Big>(std::make_index_sequence<6>{}); }
DOMAIN(views_string) { sizes<std::string>(std::make_index_sequence<5>{}); }

template <typename A, typename B> void relate(const A& a, const B& b, const std::vector<int>& x, const std::vector<int>& y)
{
    CHECK((a == b) == (x == y) && (a != b) == (x != y), "equality of {%s} and {%s}", ck::show(std::string(x.begin(), x.end())).c_str(), ck::show(std::string(y.begin(), y.end())).c_str());
    CHECK((a < b) == (x < y) && (a <= b) == (x <= y) && (a > b) == (x > y) && (a >= b) == (x >= y), "order of {%s} and {%s}", ck::show(std::string(x.begin(), x.end())).c_str(), ck::show(std::string(y.begin(), y.end())).c_str());
}
DOMAIN(relations)
{
    std::vector<std::vector<int>> all{ {} };
    for (std::size_t i = 0; i < all.size(); ++i) if (all[i].size() < (std::size_t)ck::tier(4, 5)) for (int c = 0; c < 3; ++c) { auto v = all[i]; v.push_back(c); all.push_back(v); }
    for (auto& x : all) for (auto& y : all) {
        if (!ck::mine()) continue;
        // exactly sized heap copies: reading beyond the end is detected
        std::vector<int> a(x), b(y); a.shrink_to_fit(); b.shrink_to_fit(); std::vector<long> l(y.begin(), y.end());
        relate(span<int>(a), span<int>(b), x, y); relate(span<const int>(a), span<int>(b), x, y); relate(span<int>(a), span<long>(l), x, y);
        if (x.size() == 3) { span<int, 3> s(a.data(), 3); relate(s, span<int>(b), x, y); if (y.size() == 3) relate(s, span<const int, 3>(b.data(), 3), x, y); }
        ck::state(); ck::step();
    }
}

DOMAIN(views_large)
{
    for (std::size_t n = 8; n <= 300; ++n) if (ck::mine()) {
        std::vector<short> v(n); v.shrink_to_fit(); span<short> s(v); span<const short> c(v);
        exact(s, v.data(), n, "span(vector)"); exact(c, v.data(), n, "span<const T>(vector)"); bytes(s, v.data(), n); wbytes(s, v.data(), n);
        if (n <= 33 || n == 64 || n == 65 || n == 100) subviews(s, v.data(), n);
        for (std::size_t k = 0; k <= n; ++k) { exact(s.first(k), v.data(), k, "first", k); exact(c.last(k), v.data() + (n - k), k, "last", k); exact(c.subspan(k), v.data() + k, n - k, "subspan", k); exact(s.subspan(k, n - k), v.data() + k, n - k, "subspan", k, n - k); exact(s.subspan(k, (n - k) / 2), v.data() + k, (n - k) / 2, "subspan", k, (n - k) / 2); }
    }
    for (std::size_t n : { 4096, 65535, 65536, 65537, 300000 }) if (ck::mine()) { std::vector<char> v(n); span<char> s(v); exact(s, v.data(), n, "span(vector)"); for (std::size_t k : { (std::size_t)0, (std::size_t)1, n / 2, n - 1, n }) { exact(s.first(k), v.data(), k, "first", k); exact(s.last(k), v.data() + (n - k), k, "last", k); exact(s.subspan(k), v.data() + k, n - k, "subspan", k); } }
    sizes<int>(std::index_sequence<16, 17>{}); 
}
DOMAIN(relations_large)
{
    for (int n : { 5, 6, 7, 8, 9, 15, 16, 17, 31, 32, 33, 64, 100, 256, 257 }) for (int p = 0; p <= n; ++p) for (int d : { -1000, -1, 1, 256, 65536 }) for (int len : { n, n - 1, n + 1, n / 2 }) if (ck::mine()) {
        std::vector<int> x((std::size_t)n, 7), y((std::size_t)len, 7); if (p < n) x[(std::size_t)p] += d; x.shrink_to_fit(); y.shrink_to_fit(); const std::vector<long> l(y.begin(), y.end());
        relate(span<int>(x), span<int>(y), x, y); relate(span<int>(y), span<const int>(x), y, x); relate(span<int>(x), span<const long>(l), x, y); ck::state(); ck::step(3);
    }
    // one-byte elements order by value
    for (int n : { 1, 2, 7, 8, 9, 16, 33 }) for (int p = 0; p < n; ++p) for (int c : { 0, 1, 64, 127, 128, 200, 255 }) for (int e : { 0, 5, 127, 128, 255 }) if (ck::mine()) {
        std::vector<unsigned char> x((std::size_t)n, 100), y(x); x[(std::size_t)p] = (unsigned char)c; y[(std::size_t)p] = (unsigned char)e; std::vector<signed char> sx(x.begin(), x.end()), sy(y.begin(), y.end());
        relate(span<unsigned char>(x), span<unsigned char>(y), std::vector<int>(x.begin(), x.end()), std::vector<int>(y.begin(), y.end())); relate(span<signed char>(sx), span<signed char>(sy), std::vector<int>(sx.begin(), sx.end()), std::vector<int>(sy.begin(), sy.end())); ck::state(); ck::step(2);
    }
    for (double a : { 0.0, -0.0, 1.0, -1.0, std::numeric_limits<double>::quiet_NaN(), std::numeric_limits<double>::infinity() }) for (double b : { 0.0, -0.0, 1.0, -1.0, std::numeric_limits<double>::quiet_NaN(), std::numeric_limits<double>::infinity() }) if (ck::mine()) {
        std::vector<double> x{ 2, a, 3 }, y{ 2, b, 3 }; ck::state(); ck::step(); span<double> s(x), t(y);
        CHECK((s == t) == (x == y) && (s != t) == (x != y) && (s < t) == (x < y) && (s > t) == (y < x), "comparison of {2, %g, 3} and {2, %g, 3}", a, b);
    }
}

// Elements whose order is weaker than their equality: spans are ordered lexicographically by operator<
struct Keyed { int k, v; friend bool operator<(Keyed a, Keyed b) { return a.k < b.k; } friend bool operator>(Keyed a, Keyed b) { return b.k < a.k; } friend bool operator==(Keyed a, Keyed b) { return a.k == b.k && a.v == b.v; } friend bool operator!=(Keyed a, Keyed b) { return !(a == b); } };
DOMAIN(relations_keyed)
{
    std::vector<std::vector<Keyed>> all{ {} };
    for (std::size_t i = 0; i < all.size(); ++i) if (all[i].size() < 3) for (int k = 0; k < 2; ++k) for (int v = 0; v < 2; ++v) { auto n = all[i]; n.push_back({ k, v }); all.push_back(n); }
    for (const auto& x : all) for (const auto& y : all) if (ck::mine()) {
        const span<const Keyed> s(x), t(y); const bool eq = x == y, lt = std::lexicographical_compare(x.begin(), x.end(), y.begin(), y.end()), gt = std::lexicographical_compare(y.begin(), y.end(), x.begin(), x.end()); ck::state(); ck::step(6);
        CHECK((s == t) == eq && (s != t) == !eq && (s < t) == lt && (s > t) == gt && (s <= t) == !gt && (s >= t) == !lt, "relations of spans of %zu and %zu elements with keys are wrong", x.size(), y.size());
    }
}
struct Wide { char c[24]; };
template <typename T> static void huge()
{
    for (std::size_t n : { 255, 256, 257, 2730, 2731, 4095, 4096, 4097, 8191, 8192, 8193, 9000, 16383, 16384, 16385, 32767, 32768, 65535, 65536, 65537, 200000 }) if (ck::mine()) {
        std::vector<T> v(n); span<T> s(v); const span<const T> c(v); exact(s, v.data(), n, "span(vector)"); ck::state(); ck::step(4);
        CHECK(s.size_bytes() == n * sizeof(T) && c.size_bytes() == n * sizeof(T) && gul14::as_bytes(s).size() == n * sizeof(T) && gul14::as_bytes(c).size_bytes() == n * sizeof(T) && gul14::as_writable_bytes(s).size() == n * sizeof(T) && (const void*)gul14::as_bytes(s).data() == v.data() && (void*)gul14::as_writable_bytes(s).data() == v.data(), "bytes of %zu elements of size %zu are %zu", n, sizeof(T), s.size_bytes());
        CHECK(s.subspan(n / 2).size_bytes() == (n - n / 2) * sizeof(T) && &s.back() == &v.back() && &s[n / 2] == &v[n / 2] && s.end() - s.begin() == (std::ptrdiff_t)n, "access to %zu elements of size %zu", n, sizeof(T));
    }
}
DOMAIN(huge_views) { huge<char>(); huge<short>(); huge<int>(); huge<double>(); huge<Wide>();
    if (ck::mine()) { static double a[9000]; span<double, 9000> s(a); auto b = gul14::as_bytes(s); static_assert(decltype(b)::extent == 72000, "extent"); auto w = gul14::as_writable_bytes(s); CHECK(s.size_bytes() == 72000 && b.size() == 72000 && w.size() == 72000, "bytes of a large array"); ck::state(); } }
