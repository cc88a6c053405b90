// C03: SlidingBuffer / SlidingBufferExposed against a bounded deque: all reachable ring states
// (capacity, position of the first element, size) times all operations, plus all sequences of
// operations up to a depth from each of them.
#include <algorithm>
#include <deque>
#include <list>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <tuple>
#include "track.h"
#include "gul14/SlidingBuffer.h"

using gul14::ShrinkBehavior;
using Val = tr::Obj<true, true>;

template <typename E> struct El;
template <> struct El<int> { static int make(int i) { return i; } static int val(int i) { return i; } };
template <> struct El<Val> { static Val make(int i) { return Val(i); } static int val(const Val& v) { return v.get(); } };
template <> struct El<std::string> { static std::string make(int i) { return i ? "some string that lives on the heap: " + std::to_string(i) : std::string(); } static int val(const std::string& s) { return s.empty() ? 0 : atoi(s.c_str() + 36); } };
namespace tr { std::ostream& operator<<(std::ostream& o, const Val& v) { return o << v.get(); } }

enum Code { pbc, pbm, pfc, pfm, pb_alias, pf_alias, popb, popf, clr, rsz_f, rsz_b, rsv, copy_c, copy_a, copy_a_other, move_c, move_a, set, set_it };
static const char* const names[] = { "push_back(const&)", "push_back(&&)", "push_front(const&)", "push_front(&&)", "push_back(own element)", "push_front(own element)", "pop_back", "pop_front", "clear", "resize(keep_front)", "resize(keep_back)", "reserve", "copy construct", "self copy-assign via copy", "copy-assign to other buffer", "move construct", "move assign", "operator[] write", "iterator write" };
struct Op { int c, x; };
static std::string show(const std::vector<Op>& p) { std::string s; for (auto& o : p) s += std::string(names[o.c]) + "[" + std::to_string(o.x) + "] "; return s; }

template <typename B> struct Exposed : std::false_type {};
template <typename E, std::size_t N, typename C> struct Exposed<gul14::SlidingBufferExposed<E, N, C>> : std::true_type {};

template <typename B, bool Dynamic, int MaxCap>
struct H
{
    using E = typename B::value_type;
    using R = El<E>;
    B b; std::deque<int> m; std::size_t cap; int fresh = 1;
    const std::vector<Op>* path = nullptr;

    static B create(std::size_t, std::false_type) { return B(); }
    static B create(std::size_t c, std::true_type) { return B(c); }
    explicit H(std::size_t c) : b(create(c, std::integral_constant<bool, Dynamic>{})), cap(c) {}

#define NEED(cond, ...) do { if (!(cond)) { char t_[300]; snprintf(t_, sizeof t_, __VA_ARGS__); ck::fail("initial capacity/ops: %s: %s", path ? show(*path).c_str() : "", t_); } } while (0)

    void resize(int, ShrinkBehavior, bool, std::false_type) {}
    void resize(int k, ShrinkBehavior sb, bool rs, std::true_type) { if (rs) b.reserve((std::size_t)k, sb); else if (sb == ShrinkBehavior::keep_front_elements) b.resize((std::size_t)k); else b.resize((std::size_t)k, sb); }
    void push_model(bool back, int v) { if (back) { m.push_back(v); if (m.size() > cap) m.pop_front(); } else { m.push_front(v); if (m.size() > cap) m.pop_back(); } }
    std::vector<Op> ops() const
    {
        std::vector<Op> o;
        const int n = (int)m.size(), c = (int)cap;
        if (c > 0) {
            for (int k : { pbc, pbm, pfc, pfm }) o.push_back({ k, 0 });
            for (int i = 0; i < n; ++i) { o.push_back({ pb_alias, i }); o.push_back({ pf_alias, i }); o.push_back({ set, i }); o.push_back({ set_it, i }); }
            if (n) { o.push_back({ popb, 0 }); o.push_back({ popf, 0 }); }
        }
        o.push_back({ clr, 0 });
        if (Dynamic) for (int k = 0; k <= MaxCap; ++k) { o.push_back({ rsz_f, k }); o.push_back({ rsz_b, k }); o.push_back({ rsv, k }); }
        for (int k : { copy_c, copy_a, copy_a_other, move_c, move_a }) o.push_back({ k, 0 });
        return o;
    }
    void apply(const Op& o)
    {
        const int v = fresh++;
        switch (o.c) {
        case pbc: { const E e = R::make(v); b.push_back(e); push_model(true, v); NEED(R::val(e) == v, "argument changed"); break; }
        case pbm: b.push_back(R::make(v)); push_model(true, v); break;
        case pfc: { const E e = R::make(v); b.push_front(e); push_model(false, v); break; }
        case pfm: b.push_front(R::make(v)); push_model(false, v); break;
        case pb_alias: { const int w = m[(std::size_t)o.x]; b.push_back(static_cast<const E&>(b[(std::size_t)o.x])); push_model(true, w); break; }
        case pf_alias: { const int w = m[(std::size_t)o.x]; b.push_front(static_cast<const E&>(b[(std::size_t)o.x])); push_model(false, w); break; }
        case popb: b.pop_back(); m.pop_back(); break;
        case popf: b.pop_front(); m.pop_front(); break;
        case clr: b.clear(); m.clear(); break;
        case rsz_f: case rsz_b: case rsv:
            resize(o.x, o.c == rsz_b ? ShrinkBehavior::keep_back_elements : ShrinkBehavior::keep_front_elements, o.c == rsv, std::integral_constant<bool, Dynamic>{});
            cap = (std::size_t)o.x;
            while (m.size() > cap) { if (o.c == rsz_b) m.pop_front(); else m.pop_back(); }
            break;
        case copy_c: { B c(b); same(b); same(c); std::swap(b, c); break; }
        case copy_a: { B c; c = b; same(c); b = c; break; }
        case copy_a_other: { B c(create(Dynamic ? cap + 1 : cap, std::integral_constant<bool, Dynamic>{})); c.push_back(R::make(99)); c = b; if (cap) { c.push_back(R::make(98)); c.clear(); } c = static_cast<const B&>(b); same(c); break; }
        case move_c: { B c(std::move(b)); b = B(c); same(c); break; }
        case move_a: { B c; c = std::move(b); same(c); b = std::move(c); break; }
        case set: b[(std::size_t)o.x] = R::make(v); m[(std::size_t)o.x] = v; break;
        case set_it: set_iter(o.x, v, Exposed<B>{}); m[(std::size_t)o.x] = v; break;
        }
        ck::step();
    }
    void set_iter(int x, int v, std::true_type) { b.at((std::size_t)x) = R::make(v); }
    void set_iter(int x, int v, std::false_type) { auto it = b.begin(); it += x; *it = R::make(v); }

    void iterate(B& q, std::true_type)
    {
        // Iterates over the underlying container: each element exactly once, plus vacant
        // elements only if the elements are not contiguous there.
        const std::size_t n = m.size();
        bool contiguous = true;
        for (std::size_t i = 1; i < n; ++i) if (&q[i] != &q[i - 1] + 1) contiguous = false;
        std::multiset<int> want(m.begin(), m.end()), got, cgot, rgot, crgot;
        if (!contiguous && n < cap) for (std::size_t i = n; i < cap; ++i) want.insert(0);
        const B& cq = q;
        for (auto& e : q) got.insert(R::val(e));
        for (auto& e : cq) cgot.insert(R::val(e));
        for (auto it = q.rbegin(); it != q.rend(); ++it) rgot.insert(R::val(*it));
        for (auto it = cq.crbegin(); it != cq.crend(); ++it) crgot.insert(R::val(*it));
        NEED(got == want, "iteration visits %zu elements instead of %zu, or different ones", got.size(), want.size());
        NEED(cgot == want && rgot == want && crgot == want, "const or reverse iteration visits different elements");
        NEED((q.begin() == q.end()) == m.empty(), "begin() == end() is wrong");
        if (cap && n && contiguous) NEED(&*q.begin() == &q[0], "begin() does not point to the first element");
    }
    void iterate(B& q, std::false_type)
    {
        const B& cq = q; const std::size_t n = m.size();
        std::size_t i = 0;
        for (auto it = q.begin(); it != q.end(); ++it, ++i) NEED(i < n && &*it == &q[i] && it.operator->() == &q[i], "iterator differs from index %zu", i);
        NEED(i == n, "iteration ends after %zu of %zu elements", i, n);
        i = 0; for (auto& e : cq) { NEED(i < n && &e == &q[i], "const iterator differs from index %zu", i); ++i; }
        i = n; for (auto it = q.rbegin(); it != q.rend(); ++it) { --i; NEED(i < n && &*it == &q[i], "reverse iterator differs from index %zu", i); }
        NEED(i == 0, "reverse iteration ends too early");
        i = n; for (auto it = cq.crbegin(); it != cq.crend(); ++it) { --i; NEED(i < n && &*it == &q[i], "const reverse iterator differs from index %zu", i); }
        NEED(q.cend() - q.cbegin() == (std::ptrdiff_t)n && q.end() - q.begin() == (std::ptrdiff_t)n, "iterator distance is wrong");
        for (std::size_t k = 0; k <= n; ++k) for (std::size_t l = 0; l <= n; ++l) {
            auto x = q.begin() + (std::ptrdiff_t)k; auto y = (std::ptrdiff_t)l + q.begin();
            NEED((x < y) == (k < l) && (x <= y) == (k <= l) && (x > y) == (k > l) && (x >= y) == (k >= l) && (x == y) == (k == l) && (x != y) == (k != l) && y - x == (std::ptrdiff_t)l - (std::ptrdiff_t)k, "iterator comparison of %zu and %zu", k, l);
            auto z = x; z += (std::ptrdiff_t)l - (std::ptrdiff_t)k; NEED(z == y, "iterator +="); z -= (std::ptrdiff_t)l - (std::ptrdiff_t)k; NEED(z == x, "iterator -=");
            NEED((y - ((std::ptrdiff_t)l - (std::ptrdiff_t)k)) == x, "iterator minus");
            if (l < n) NEED(&x[(std::ptrdiff_t)l - (std::ptrdiff_t)k] == &q[l], "iterator []");
        }
        if (n) { auto x = q.begin(); auto y = x++; NEED(y == q.begin() && x - y == 1, "post-increment"); auto z = x--; NEED(z - x == 1 && x == y, "post-decrement"); ++x; --x; NEED(x == y, "pre-decrement"); }
    }
    void same(B& q)
    {
        const B& cq = q; const std::size_t n = m.size();
        NEED(q.capacity() == cap, "capacity %zu instead of %zu", (std::size_t)q.capacity(), cap);
        NEED(q.size() == n, "size %zu instead of %zu", (std::size_t)q.size(), n);
        NEED(q.empty() == m.empty(), "empty() is wrong");
        NEED(q.filled() == (cap > 0 && n == cap), "filled() is wrong");
        for (std::size_t i = 0; i < cap; ++i) {
            const int want = i < n ? m[i] : 0;
            NEED(R::val(q[i]) == want && &q[i] == &cq[i], "[%zu] is %d instead of %d", i, R::val(q[i]), want);
            if (i < n) NEED(&q.at(i) == &q[i] && &cq.at(i) == &q[i], "at(%zu) is wrong", i);
        }
        if (n) NEED(&q.front() == &q[0] && &q.back() == &q[n - 1] && &cq.front() == &q[0] && &cq.back() == &q[n - 1], "front/back are wrong");
        else if (cap) NEED(R::val(q.front()) == 0 && R::val(q.back()) == 0, "front/back of an empty buffer are not default-constructed");
        iterate(q, Exposed<B>{});
        std::ostringstream os, want; os << cq; for (std::size_t i = 0; i < n; ++i) want << R::make(m[i]) << "  "; want << '\n';
        NEED(os.str() == want.str(), "output is wrong");
    }
    void check_throw()
    {
        const B& cb = b;
        for (std::size_t i : { m.size(), m.size() + 1, ~(std::size_t)0 }) {
            int t = 0; try { b.at(i); } catch (const std::out_of_range&) { ++t; } try { cb.at(i); } catch (const std::out_of_range&) { ++t; }
            NEED(t == 2, "at(%zu) does not throw", i);
        }
    }
    std::tuple<int, int, int> key()
    {
        if (!cap) return std::make_tuple(0, 0, 0);
        const E* lo = &b[0]; for (std::size_t i = 1; i < cap; ++i) lo = std::min<const E*>(lo, &b[i]);
        return std::make_tuple((int)cap, (int)(&b[0] - lo), (int)m.size());
    }
};

template <typename B, bool Dynamic, int MaxCap>
void explore(std::size_t cap0, int depth)
{
    using HH = H<B, Dynamic, MaxCap>;
    // 1. Reachable ring states, breadth first; every worker computes the same list
    std::map<std::tuple<int, int, int>, std::vector<Op>> seen; std::vector<std::vector<Op>> queue;
    { HH h(cap0); seen[h.key()] = {}; queue.push_back({}); }
    for (std::size_t q = 0; q < queue.size(); ++q) {
        const auto path = queue[q];
        auto replay = [&](HH& h) { for (auto& o : path) h.apply(o); };
        std::vector<Op> all; { HH h(cap0); h.path = &path; replay(h); all = h.ops(); }
        for (auto& op : all) {
            auto np = path; np.push_back(op);
            HH h(cap0); h.path = &np; replay(h); h.apply(op);
            if (h.m.size() > h.cap) ck::fail("internal");
            const auto k = h.key();
            if (!seen.count(k)) { seen[k] = np; queue.push_back(np); }
        }
        if (queue.size() > 5000) ck::fail("the number of ring states does not converge");
    }
    // 2. All operation sequences up to the depth from each of them
    for (auto& path : queue) {
        std::vector<Op> all; { HH h(cap0); h.path = &path; for (auto& o : path) h.apply(o); all = h.ops(); }
        for (auto& op1 : all) {
            if (!ck::mine()) continue;
            auto np = path; np.push_back(op1);
            auto start = [&](HH& h) { h.path = &np; for (auto& o : path) h.apply(o); h.same(h.b); h.apply(op1); };
            std::vector<Op> o2; { HH h(cap0); start(h); h.same(h.b); h.check_throw(); ck::state(); o2 = h.ops(); }
            ck::sample("%s", show(np).c_str());
            if (depth >= 2) for (auto& op2 : o2) {
                np.push_back(op2);
                std::vector<Op> o3;
                { HH h(cap0); start(h); h.apply(op2); h.same(h.b); ck::state(); if (depth >= 3) o3 = h.ops(); }
                for (auto& op3 : o3) { np.push_back(op3); HH h(cap0); start(h); h.apply(op2); h.apply(op3); h.same(h.b); ck::state(); np.pop_back(); }
                np.pop_back();
            }
            if (tr::living()) ck::fail("%d elements are leaked after %s", tr::living(), show(np).c_str());
        }
    }
}

template <typename E, std::size_t N> using SB = gul14::SlidingBuffer<E, N>;
template <typename E, std::size_t N> using SX = gul14::SlidingBufferExposed<E, N>;

DOMAIN(fixed_1) { explore<SB<int, 1>, false, 1>(1, 3); }
DOMAIN(fixed_2) { explore<SB<Val, 2>, false, 2>(2, ck::tier(2, 3)); }
DOMAIN(fixed_3) { explore<SB<int, 3>, false, 3>(3, ck::tier(2, 3)); }
DOMAIN(fixed_5) { explore<SB<std::string, 5>, false, 5>(5, ck::tier(1, 2)); }
DOMAIN(dynamic) { explore<SB<int, 0>, true, 5>(3, ck::tier(2, 2)); }
DOMAIN(dynamic_from_zero) { explore<SB<Val, 0>, true, 3>(0, ck::tier(2, 3)); }
DOMAIN(dynamic_string) { explore<SB<std::string, 0>, true, 3>(2, ck::tier(1, 2)); }
DOMAIN(exposed_fixed_1) { explore<SX<int, 1>, false, 1>(1, 3); }
DOMAIN(exposed_fixed_3) { explore<SX<int, 3>, false, 3>(3, ck::tier(2, 3)); }
DOMAIN(exposed_dynamic) { explore<SX<int, 0>, true, 5>(3, ck::tier(2, 2)); }
DOMAIN(exposed_dynamic_val) { explore<SX<Val, 0>, true, 3>(2, ck::tier(1, 2)); }
DOMAIN(exposed_dynamic_string) { explore<SX<std::string, 0>, true, 3>(2, ck::tier(1, 2)); }

// Large capacities: the ring index wraps at each position
template <typename B>
void large(std::size_t cap, const B& b0)
{
    using E = typename B::value_type;
    auto same = [](B& b, const std::deque<E>& m, std::size_t cap, const char* what) {
        const B& c = b;
        CHECK(b.size() == m.size() && b.capacity() == cap && b.filled() == (m.size() == cap) && b.empty() == m.empty(), "capacity %zu, %s: wrong size %zu instead of %zu", cap, what, (std::size_t)b.size(), m.size());
        if (m.empty()) return;
        CHECK(b.front() == m.front() && b.back() == m.back() && c.front() == m.front() && c.back() == m.back(), "capacity %zu, %s: wrong front or back", cap, what);
        for (std::size_t i = 0; i < m.size(); ++i) CHECK(b[i] == m[i] && c[i] == m[i] && b.at(i) == m[i], "capacity %zu, %s: wrong element %zu of %zu", cap, what, i, m.size());
        std::size_t k = 0; for (auto& x : b) { CHECK(k < m.size() && x == m[k], "capacity %zu, %s: wrong element %zu when iterating", cap, what, k); ++k; }
        CHECK(k == m.size(), "capacity %zu, %s: iteration visits %zu of %zu elements", cap, what, k, m.size());
        for (auto it = b.rbegin(); it != b.rend(); ++it) { --k; CHECK(*it == m[k], "capacity %zu, %s: wrong element %zu when iterating backwards", cap, what, k); }
    };
    struct { const char* name; int pb, pf, ob, of; } mix[] = { { "push_back", 1, 0, 0, 0 }, { "push_front", 0, 1, 0, 0 }, { "push_back twice, pop_front", 2, 0, 0, 1 }, { "push_front twice, pop_back", 0, 2, 1, 0 }, { "push_back 3 times, push_front", 3, 1, 0, 0 } };
    for (auto& x : mix) {
        B b(b0); std::deque<E> m; int v = 0;
        for (std::size_t step = 0; step < 2 * cap + 5; ++step) {
            for (int k = 0; k < x.pb; ++k) { b.push_back((E)++v); m.push_back((E)v); if (m.size() > cap) m.pop_front(); }
            for (int k = 0; k < x.pf; ++k) { b.push_front((E)++v); m.push_front((E)v); if (m.size() > cap) m.pop_back(); }
            for (int k = 0; k < x.ob && !m.empty(); ++k) { b.pop_back(); m.pop_back(); }
            for (int k = 0; k < x.of && !m.empty(); ++k) { b.pop_front(); m.pop_front(); }
            if (step % (1 + cap / 40) == 0 || step > 2 * cap) same(b, m, cap, x.name);
        }
        same(b, m, cap, x.name);
    }
    ck::state();
}
template <typename B>
void large_resize(std::initializer_list<std::size_t> caps)
{
    // fill a ring, rotate it, then change its capacity to anything
    for (std::size_t cap : caps) for (std::size_t turn : { (std::size_t)0, (std::size_t)1, cap / 2, cap - 1 }) for (std::size_t fill : { (std::size_t)1, cap / 2, cap - 1, cap }) {
        if (!ck::mine()) continue;
        for (std::size_t nc : { (std::size_t)1, cap / 2, cap - 1, cap, cap + 1, 2 * cap, (std::size_t)256 }) for (int back = 0; back < 2; ++back) {
            B b(cap); std::deque<int> m;
            for (std::size_t i = 0; i < turn; ++i) { b.push_back(-1); b.pop_front(); }
            for (std::size_t i = 0; i < fill; ++i) { b.push_back((int)i + 1); m.push_back((int)i + 1); }
            b.resize(nc, back ? gul14::ShrinkBehavior::keep_back_elements : gul14::ShrinkBehavior::keep_front_elements);
            while (m.size() > nc) { if (back) m.pop_front(); else m.pop_back(); }
            for (int more = 0; more < 3; ++more) {
                CHECK(b.size() == m.size() && b.capacity() == nc, "resize from %zu to %zu: wrong size or capacity", cap, nc);
                for (std::size_t i = 0; i < m.size(); ++i) CHECK(b[i] == m[i], "resize from %zu (filled %zu, turned %zu) to %zu: wrong element %zu", cap, fill, turn, nc, i);
                b.push_back(1000 + more); m.push_back(1000 + more); if (m.size() > nc) m.pop_front();
            }
        }
        ck::state();
    }
}
DOMAIN(large_dynamic) { for (std::size_t cap : { 6, 7, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 1000, 65535, 65536, 65537 }) if (ck::mine()) large<SB<int, 0>>(cap, SB<int, 0>(cap)); }
DOMAIN(large_fixed) { if (ck::mine()) large<SB<int, 16>>(16, SB<int, 16>{}); if (ck::mine()) large<SB<short, 100>>(100, SB<short, 100>{}); if (ck::mine()) large<SB<int, 255>>(255, SB<int, 255>{}); if (ck::mine()) large<SB<int, 256>>(256, SB<int, 256>{}); if (ck::mine()) large<SB<long, 257>>(257, SB<long, 257>{}); if (ck::mine()) large<SB<int, 1000>>(1000, SB<int, 1000>{}); }
DOMAIN(large_resizes) { large_resize<SB<int, 0>>({ 8, 127, 128, 255, 256, 257, 300 }); }
DOMAIN(huge_resizes) { large_resize<SB<int, 0>>({ 1000, 4095, 4096, 4097, 32767, 32768, 65535, 65536, 65537, 100000 }); }
