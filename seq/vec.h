// Exploration of SmallVector: all operations (and sequences of them) from all storage states,
// compared with a std::vector model. Shared by C01 (behaviour) and C02 (lifetimes and faults).
#pragma once
#include <forward_list>
#include <iterator>
#include <list>
#include <memory>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>
#include "track.h"
#include "gul14/SmallVector.h"

namespace vec {

using Val = tr::Obj<true, true>;       // nothrow-movable, copyable
using ThrowMove = tr::Obj<true, false>; // copyable, move may throw
using MoveOnly = tr::Obj<false, true>;
using MoveOnlyThrow = tr::Obj<false, false>;

/// Element with an initializer-list constructor of its own type (like a JSON value)
struct Json
{
    int v = 0;
    Json() = default;
    explicit Json(int x) : v(x) {}
    Json(std::initializer_list<Json> l) : v(1000 + (int)l.size()) {}
    friend bool operator==(const Json& a, const Json& b) { return a.v == b.v; }
};
struct alignas(16) Aligned { char c = 0; Aligned() = default; explicit Aligned(int x) : c((char)x) {} friend bool operator==(const Aligned& a, const Aligned& b) { return a.c == b.c; } };

template <typename E> struct Tr { static constexpr bool tracked = true; static E make(int i) { return E(i); } static int val(const E& e) { return e.get(); } static int after_move(int) { return tr::moved; } };
template <> struct Tr<int> { static constexpr bool tracked = false; static int make(int i) { return i; } static int val(int e) { return e; } static int after_move(int v) { return v; } };
template <> struct Tr<Json> { static constexpr bool tracked = false; static Json make(int i) { return Json(i); } static int val(const Json& e) { return e.v; } static int after_move(int v) { return v; } };
template <> struct Tr<Aligned> { static constexpr bool tracked = false; static Aligned make(int i) { return Aligned(i); } static int val(const Aligned& e) { return e.c; } static int after_move(int v) { return v; } };
template <> struct Tr<std::string>
{
    static constexpr bool tracked = false;
    static std::string make(int i) { return i == 0 ? std::string() : "a string that is too long for the short buffer " + std::to_string(i); }
    static int val(const std::string& s) { return s.empty() ? 0 : atoi(s.c_str() + 47); }
    static int after_move(int) { return 0; }
};
template <typename E> using Copyable = std::integral_constant<bool, std::is_copy_constructible<E>::value>;
template <> struct Tr<MoveOnly> { static constexpr bool tracked = true; static MoveOnly make(int i) { return MoveOnly(i); } static int val(const MoveOnly& e) { return e.get(); } static int after_move(int) { return tr::moved; } };

enum Code { push_c, push_m, push_alias_c, push_alias_m, emp_back, emp_back_alias, emp, emp_alias, ins_c, ins_m, ins_alias_c, ins_alias_m, ins_n, ins_n_alias,
    ins_vec, ins_list, ins_fwd, ins_input, ins_il, ins_move, erase1, erase2, pop, clr, rsz, rszv, rszv_alias, resv, shrink, asg_n, asg_vec, asg_list, asg_input, asg_il,
    eq_il, copy_asg, copy_self, move_asg, swap_m, swap_f, swap_self, copy_ctor, move_ctor, ctor_range, ctor_n, ctor_nv, ctor_il, ctor_input, at_all, set_idx, back_front, move_asg_rev, asg_alias, ncodes };
static const char* const code_name[] = { "push_back(const&)", "push_back(&&)", "push_back(own element)", "push_back(move(own element))", "emplace_back(value)", "emplace_back(own element)", "emplace(pos,value)", "emplace(pos,own element)", "insert(pos,const&)", "insert(pos,&&)", "insert(pos,own element)", "insert(pos,move(own element))", "insert(pos,n,value)", "insert(pos,n,own element)",
    "insert(pos,vector range)", "insert(pos,list range)", "insert(pos,forward_list range)", "insert(pos,single-pass range)", "insert(pos,init list)", "insert(pos,move iterators)", "erase(pos)", "erase(first,last)", "pop_back", "clear", "resize(n)", "resize(n,value)", "resize(n,own element)", "reserve", "shrink_to_fit", "assign(n,value)", "assign(vector range)", "assign(list range)", "assign(single-pass range)", "assign(init list)",
    "operator=(init list)", "operator=(b)", "operator=(self)", "operator=(move(b))", "swap(b)", "free swap", "swap(self)", "copy constructor", "move constructor", "range constructor", "count constructor", "count/value constructor", "init-list constructor", "single-pass range constructor", "at()", "operator[] write", "front/back", "b = move(a)", "assign(n,own element)" };

struct Op { int c, x, y, z; };
inline std::string show(const Op& o) { char b[120]; snprintf(b, sizeof b, "%s[%d,%d,%d]", code_name[o.c], o.x, o.y, o.z); return b; }
inline std::string show(const std::vector<int>& v) { std::string s = "{"; for (int i : v) s += std::to_string(i) + ","; return s + "}"; }

/// Genuine single-pass iterator: all copies share one position
struct Feed
{
    const std::vector<int>* src; std::size_t pos = 0;
};
template <typename E>
struct InputIt
{
    using iterator_category = std::input_iterator_tag; using value_type = E; using difference_type = std::ptrdiff_t; using pointer = const E*; using reference = E;
    Feed* f = nullptr;
    bool at_end() const { return !f || f->pos >= f->src->size(); }
    E operator*() const { return Tr<E>::make((*f->src)[f->pos]); }
    InputIt& operator++() { ++f->pos; return *this; }
    void operator++(int) { ++f->pos; }
    friend bool operator==(const InputIt& a, const InputIt& b) { return a.at_end() == b.at_end(); }
    friend bool operator!=(const InputIt& a, const InputIt& b) { return !(a == b); }
};

struct Spec { int size, cap; }; // cap: capacity requested by reserve (>= inline capacity)

/// Fault injection around one call
struct Fault { int kind = 0; long k = -1; bool threw = false; long points = 0, allocs = 0; };
inline Fault& F() { static Fault f; return f; }

template <typename Fn> bool call(Fn fn)
{
    auto& f = F(); f.threw = false;
    const long p0 = tr::T().points, a0 = ck::alloc().total;
    if (f.kind == 1) tr::arm(f.k);
    if (f.kind == 2) ck::alloc().fail_in = f.k;
    try { fn(); }
    catch (const tr::Boom&) { tr::disarm(); ck::alloc().fail_in = -1; if (f.kind != 1) ck::fail("unexpected exception"); f.threw = true; }
    catch (const std::bad_alloc&) { tr::disarm(); ck::alloc().fail_in = -1; if (f.kind != 2) ck::fail("unexpected bad_alloc"); f.threw = true; }
    tr::disarm(); ck::alloc().fail_in = -1;
    f.points = tr::T().points - p0; f.allocs = ck::alloc().total - a0;
    return !f.threw;
}

template <typename E, std::size_t N>
struct H
{
    using V = gul14::SmallVector<E, N>;
    using M = std::vector<int>;
    using R = Tr<E>;

    V a, b; M ma, mb;
    bool strong = false;    // the operation that threw documents that it has no effect then
    bool big = false;       // model asked for more capacity than the inline one
    const E* data_before = nullptr; unsigned cap_before = 0;
    int fresh = 100;

    static std::vector<Spec> specs(int maxsize, bool few)
    {
        std::vector<Spec> r;
        for (int s = 0; s <= maxsize; ++s) {
            if (few && s != 0 && s != (int)N && s != (int)N + 1 && s != 1) continue;
            for (int c = std::max(s, (int)N); c <= std::max(s, (int)N) + 3; ++c) { if (few && c > std::max(s, (int)N) + 1) continue; r.push_back({ s, c }); }
        }
        return r;
    }
    static void fill(V& v, M& m, const Spec& s, int base)
    {
        if (s.cap > (int)N) v.reserve((unsigned)s.cap);
        for (int i = 0; i < s.size; ++i) { v.emplace_back(R::make(base + i)); m.push_back(base + i); }
    }
    H(const Spec& sa, const Spec& sb) { fill(a, ma, sa, 10); fill(b, mb, sb, 40); big = sa.cap > (int)N || sb.cap > (int)N; }

    static void gen(std::vector<Op>& o, int n, int nb)
    {
        const bool cp = Copyable<E>::value;
        auto add = [&](int c, int x = 0, int y = 0, int z = 0) { o.push_back({ c, x, y, z }); };
        add(push_m); add(emp_back);
        if (cp) { add(push_c); add(copy_asg); add(copy_self); add(copy_ctor); }
        for (int i = 0; i < n; ++i) { if (cp) { add(push_alias_c, i); add(emp_back_alias, i); } add(push_alias_m, i); }
        for (int p = 0; p <= n; ++p) {
            add(emp, p); add(ins_m, p);
            for (int k = 0; k <= 3; ++k) { if (cp) { add(ins_n, p, k); add(ins_vec, p, k); if (k < 3) { add(ins_list, p, k); add(ins_fwd, p, k); add(ins_il, p, k); } } add(ins_input, p, k); if (k < 3) add(ins_move, p, k); }
            if (cp) add(ins_c, p);
            for (int i = 0; i < n; ++i) { if (cp) { add(ins_alias_c, p, i); add(emp_alias, p, i); add(ins_n_alias, p, 1, i); add(ins_n_alias, p, 2, i); } add(ins_alias_m, p, i); }
            if (p < n) { add(erase1, p); add(set_idx, p); }
            for (int q = p; q <= n; ++q) add(erase2, p, q);
        }
        if (n) { add(pop); add(back_front); }
        add(clr); add(shrink); add(move_asg); add(swap_m); add(swap_f); add(swap_self); add(move_ctor); add(at_all); add(move_asg_rev);
        for (int k = 0; k <= n + 3; ++k) { add(rsz, k); if (cp) add(rszv, k); if (cp) for (int i = 0; i < n; ++i) if (k > n - 1) add(rszv_alias, k, i); }
        for (int k = 0; k <= n + (int)N + 3; ++k) add(resv, k);
        for (int k = 0; k <= (int)N + 2; ++k) { if (cp) { add(asg_n, k); for (int i = 0; i < n; ++i) if (i < 2 || i == n - 1) add(asg_alias, k, i); add(asg_vec, k); add(ctor_nv, k); add(ctor_range, k); } add(ctor_n, k); add(asg_input, k); add(ctor_input, k); }
        if (cp) { add(asg_list, 2); for (int k = 0; k <= 3; ++k) { add(asg_il, k); add(eq_il, k); add(ctor_il, k); } }
        (void)nb;
    }

    // -- checks
    void same(const V& v, const M& m, const char* who)
    {
        if (v.size() != m.size()) ck::fail("%s has size %u instead of %zu", who, v.size(), m.size());
        if (v.empty() != m.empty()) ck::fail("%s: empty() is wrong", who);
        if (v.capacity() < v.size() || v.capacity() < N || v.inner_capacity() != N) ck::fail("%s: capacity %u for %u elements and inline capacity %zu", who, v.capacity(), v.size(), N);
        if (reinterpret_cast<std::uintptr_t>(v.data()) % alignof(E)) ck::fail("%s: misaligned storage", who);
        const bool inside = (const char*)v.data() >= (const char*)&v && (const char*)v.data() < (const char*)(&v + 1);
        if (N > 0 && inside != (v.capacity() == N)) ck::fail("%s: capacity %u does not fit its %s storage", who, v.capacity(), inside ? "inline" : "heap");
        for (std::size_t i = 0; i < m.size(); ++i) {
            const int x = R::val(v[(unsigned)i]);
            if (x != m[i]) ck::fail("%s[%zu] is %d instead of %d, expected %s", who, i, x, m[i], show(m).c_str());
        }
        V& w = const_cast<V&>(v);
        if (v.begin() != v.data() || v.end() != v.data() + m.size() || v.cbegin() != v.begin() || v.cend() != v.end() || w.begin() != w.data() || w.end() != w.data() + m.size()) ck::fail("%s: iterators do not span the elements", who);
        if (&*w.rbegin().base() != w.end() || &*w.rend().base() != w.begin() || w.crend() - w.crbegin() != (std::ptrdiff_t)m.size()) ck::fail("%s: reverse iterators are wrong", who);
        if (!m.empty() && (&*w.rbegin() != w.end() - 1 || &*w.crbegin() != w.end() - 1)) ck::fail("%s: reverse begin is wrong", who);
        if (!m.empty() && (&v.front() != v.data() || &v.back() != v.data() + m.size() - 1 || &w.front() != v.data() || &w.back() != v.data() + m.size() - 1)) ck::fail("%s: front/back are wrong", who);
    }
    void check(int extra_living = 0)
    {
        same(a, ma, "a"); same(b, mb, "b");
        if (R::tracked && tr::living() != (int)(ma.size() + mb.size()) + extra_living) ck::fail("%d elements are alive, but the vectors hold %zu", tr::living(), ma.size() + mb.size() + extra_living);
        const bool eq = ma == mb;
        if ((a == b) != eq || (a != b) == eq) ck::fail("comparison of the two vectors is wrong");
        V& self = a; if (!(a == self)) ck::fail("a vector differs from itself");
    }
    void no_reloc(bool growing_within)
    {
        if (growing_within && (a.data() != data_before || a.capacity() != cap_before)) ck::fail("storage was exchanged although the capacity %u was sufficient for %zu elements", cap_before, ma.size());
    }
    std::vector<E> elems(int k) { std::vector<E> r; r.reserve((std::size_t)k + 1); for (int i = 0; i < k; ++i) r.push_back(R::make(fresh + i)); return r; }
    M ints(int k) { M r; for (int i = 0; i < k; ++i) r.push_back(fresh + i); return r; }
    void ret(typename V::Iterator it, int p) { if (it != a.begin() + p) ck::fail("returned iterator points to %td instead of %d", it - a.begin(), p); }

    // copy-only operations, split so that move-only types compile
    void apply_copy(const Op&, std::false_type) { ck::fail("internal: copy operation"); }
    void apply_copy(const Op& o, std::true_type)
    {
        const auto it = [&](int p) { return a.cbegin() + p; };
        typename V::Iterator r{}; const auto mi = [&](int p) { return ma.begin() + p; };
        switch (o.c) {
        case push_c: { const E e = R::make(fresh); strong = true; if (call([&] { a.push_back(e); })) { ma.push_back(fresh); if (R::val(e) != fresh) ck::fail("push_back changed its argument"); } break; }
        case push_alias_c: strong = true; if (call([&] { a.push_back(a[(unsigned)o.x]); })) ma.push_back(int(ma[(std::size_t)o.x])); break;
        case emp_back_alias: { E* p = nullptr; if (call([&] { p = &a.emplace_back(a[(unsigned)o.x]); })) { ma.push_back(int(ma[(std::size_t)o.x])); if (p != &a.back()) ck::fail("emplace_back returned a wrong reference"); } break; }
        case emp_alias: if (call([&] { r = a.emplace(it(o.x), a[(unsigned)o.y]); })) { const int v = ma[(std::size_t)o.y]; ma.insert(mi(o.x), v); ret(r, o.x); } break;
        case ins_c: { const E e = R::make(fresh); if (call([&] { r = a.insert(it(o.x), e); })) { ma.insert(mi(o.x), fresh); ret(r, o.x); if (R::val(e) != fresh) ck::fail("insert changed its argument"); } break; }
        case ins_alias_c: if (call([&] { r = a.insert(it(o.x), a[(unsigned)o.y]); })) { const int v = ma[(std::size_t)o.y]; ma.insert(mi(o.x), v); ret(r, o.x); } break;
        case ins_n: { const E e = R::make(fresh); if (call([&] { r = a.insert(it(o.x), (unsigned)o.y, e); })) { ma.insert(mi(o.x), (std::size_t)o.y, fresh); ret(r, o.x); } break; }
        case ins_n_alias: if (call([&] { r = a.insert(it(o.x), (unsigned)o.y, a[(unsigned)o.z]); })) { const int v = ma[(std::size_t)o.z]; ma.insert(mi(o.x), (std::size_t)o.y, v); ret(r, o.x); } break;
        case ins_vec: { const auto e = elems(o.y); if (call([&] { r = a.insert(it(o.x), e.begin(), e.end()); })) { const auto m = ints(o.y); ma.insert(mi(o.x), m.begin(), m.end()); ret(r, o.x); for (int i = 0; i < o.y; ++i) if (R::val(e[(std::size_t)i]) != fresh + i) ck::fail("insert changed the source range"); } break; }
        case ins_list: { const auto v = elems(o.y); const std::list<E> e(v.begin(), v.end()); if (call([&] { r = a.insert(it(o.x), e.begin(), e.end()); })) { const auto m = ints(o.y); ma.insert(mi(o.x), m.begin(), m.end()); ret(r, o.x); } break; }
        case ins_fwd: { const auto v = elems(o.y); const std::forward_list<E> e(v.begin(), v.end()); if (call([&] { r = a.insert(it(o.x), e.begin(), e.end()); })) { const auto m = ints(o.y); ma.insert(mi(o.x), m.begin(), m.end()); ret(r, o.x); } break; }
        case ins_il: { const E e1 = R::make(fresh), e2 = R::make(fresh + 1); bool ok;
            if (o.y == 0) ok = call([&] { r = a.insert(it(o.x), std::initializer_list<E>{}); });
            else if (o.y == 1) { std::initializer_list<E> l = { e1 }; ok = call([&] { r = a.insert(it(o.x), l); }); }
            else if (o.y == 2) { std::initializer_list<E> l = { e1, e2 }; ok = call([&] { r = a.insert(it(o.x), l); }); }
            else { std::initializer_list<E> l = { e1, e2, e1 }; ok = call([&] { r = a.insert(it(o.x), l); }); }
            if (ok) { M m = ints(std::min(o.y, 2)); if (o.y == 3) m.push_back(fresh); ma.insert(mi(o.x), m.begin(), m.end()); ret(r, o.x); } break; }
        case rszv: { const E e = R::make(fresh); strong = true; if (call([&] { a.resize((unsigned)o.x, e); })) ma.resize((std::size_t)o.x, fresh); break; }
        case rszv_alias: strong = true; if (call([&] { a.resize((unsigned)o.x, a[(unsigned)o.y]); })) { const int v = ma[(std::size_t)o.y]; ma.resize((std::size_t)o.x, v); } break;
        case asg_n: { const E e = R::make(fresh); if (call([&] { a.assign((unsigned)o.x, e); })) ma.assign((std::size_t)o.x, fresh); break; }
        case asg_alias: { const int w = ma[(std::size_t)o.y]; if (call([&] { a.assign((unsigned)o.x, a[(unsigned)o.y]); })) ma.assign((std::size_t)o.x, w); break; }
        case asg_vec: { const auto e = elems(o.x); if (call([&] { a.assign(e.begin(), e.end()); })) ma = ints(o.x); break; }
        case asg_list: { const auto v = elems(o.x); const std::list<E> e(v.begin(), v.end()); if (call([&] { a.assign(e.begin(), e.end()); })) ma = ints(o.x); break; }
        case asg_il: case eq_il: { const E e1 = R::make(fresh), e2 = R::make(fresh + 1); bool ok; const bool eq = o.c == eq_il;
            auto run = [&](std::initializer_list<E> l) { return call([&] { if (eq) { V& q = (a = l); if (&q != &a) ck::fail("operator= does not return *this"); } else a.assign(l); }); };
            if (o.x == 0) ok = run({}); else if (o.x == 1) { std::initializer_list<E> l = { e1 }; ok = run(l); } else if (o.x == 2) { std::initializer_list<E> l = { e1, e2 }; ok = run(l); } else { std::initializer_list<E> l = { e1, e2, e1 }; ok = run(l); }
            if (ok) { ma = ints(std::min(o.x, 2)); if (o.x == 3) ma.push_back(fresh); } break; }
        case copy_asg: if (call([&] { V& q = (a = static_cast<const V&>(b)); if (&q != &a) ck::fail("operator= does not return *this"); })) ma = mb; break;
        case copy_self: call([&] { const V& s = a; a = s; }); break;
        case copy_ctor: { std::unique_ptr<V> c; alignas(V) static char buf[sizeof(V)]; V* p = nullptr; if (call([&] { p = new (buf) V(static_cast<const V&>(a)); })) { same(*p, ma, "copy"); if (!(*p == a)) ck::fail("the copy differs from the original"); same(a, ma, "copied vector"); p->~V(); } break; }
        case ctor_range: { const auto e = elems(o.x); alignas(V) static char buf[sizeof(V)]; V* p = nullptr; if (call([&] { p = new (buf) V(e.begin(), e.end()); })) { same(*p, ints(o.x), "vector constructed from range"); p->~V(); } break; }
        case ctor_nv: { const E e = R::make(fresh); alignas(V) static char buf[sizeof(V)]; V* p = nullptr; if (call([&] { p = new (buf) V((unsigned)o.x, e); })) { same(*p, M((std::size_t)o.x, fresh), "vector constructed from n copies"); p->~V(); } break; }
        case ctor_il: { const E e1 = R::make(fresh), e2 = R::make(fresh + 1); alignas(V) static char buf[sizeof(V)]; V* p = nullptr; bool ok;
            auto run = [&](std::initializer_list<E> l) { return call([&] { p = new (buf) V(l); }); };
            if (o.x == 0) ok = run({}); else if (o.x == 1) { std::initializer_list<E> l = { e1 }; ok = run(l); } else if (o.x == 2) { std::initializer_list<E> l = { e1, e2 }; ok = run(l); } else { std::initializer_list<E> l = { e1, e2, e1 }; ok = run(l); }
            if (ok) { M m = ints(std::min(o.x, 2)); if (o.x == 3) m.push_back(fresh); same(*p, m, "vector constructed from initializer list"); p->~V(); } break; }
        default: ck::fail("internal: unknown operation %d", o.c);
        }
    }

    /// Executes one operation on the real vectors and on the models
    void apply(const Op& o)
    {
        const auto it = [&](int p) { return a.cbegin() + p; };
        typename V::Iterator r{}; const auto mi = [&](int p) { return ma.begin() + p; };
        strong = false; data_before = a.data(); cap_before = a.capacity();
        const std::size_t n0 = ma.size(); const long allocs0 = ck::alloc().total; (void)allocs0;
        switch (o.c) {
        case push_m: { E e = R::make(fresh); strong = true; if (call([&] { a.push_back(std::move(e)); })) ma.push_back(fresh); break; }
        case push_alias_m: if (call([&] { a.push_back(std::move(a[(unsigned)o.x])); })) { const int v = ma[(std::size_t)o.x]; ma[(std::size_t)o.x] = R::after_move(v); ma.push_back(v); } break;
        case emp_back: { E* p = nullptr; E e = R::make(fresh); if (call([&] { p = &a.emplace_back(std::move(e)); })) { ma.push_back(fresh); if (p != &a.back()) ck::fail("emplace_back returned a wrong reference"); } break; }
        case emp: { E e = R::make(fresh); if (call([&] { r = a.emplace(it(o.x), std::move(e)); })) { ma.insert(mi(o.x), fresh); ret(r, o.x); } break; }
        case ins_m: { E e = R::make(fresh); if (call([&] { r = a.insert(it(o.x), std::move(e)); })) { ma.insert(mi(o.x), fresh); ret(r, o.x); } break; }
        case ins_alias_m: if (call([&] { r = a.insert(it(o.x), std::move(a[(unsigned)o.y])); })) { const int v = ma[(std::size_t)o.y]; ma[(std::size_t)o.y] = R::after_move(v); ma.insert(mi(o.x), v); ret(r, o.x); } break;
        case ins_input: { const M m = ints(o.y); Feed f{ &m }; if (call([&] { r = a.insert(it(o.x), InputIt<E>{ &f }, InputIt<E>{}); })) { ma.insert(mi(o.x), m.begin(), m.end()); ret(r, o.x); } break; }
        case ins_move: { auto e = elems(o.y); if (call([&] { r = a.insert(it(o.x), std::make_move_iterator(e.begin()), std::make_move_iterator(e.end())); })) { const auto m = ints(o.y); ma.insert(mi(o.x), m.begin(), m.end()); ret(r, o.x); } break; }
        case erase1: if (call([&] { r = a.erase(it(o.x)); })) { ma.erase(mi(o.x)); ret(r, o.x); no_reloc(true); } break;
        case erase2: if (call([&] { r = a.erase(it(o.x), it(o.y)); })) { ma.erase(mi(o.x), mi(o.y)); ret(r, o.x); no_reloc(true); } break;
        case pop: if (call([&] { a.pop_back(); })) { ma.pop_back(); no_reloc(true); } break;
        case clr: if (call([&] { a.clear(); })) { ma.clear(); no_reloc(true); } break;
        case rsz: strong = true; if (call([&] { a.resize((unsigned)o.x); })) ma.resize((std::size_t)o.x, R::val(E())); break;
        case resv: strong = true; if (call([&] { a.reserve((unsigned)o.x); })) { if (o.x > (int)N) big = true; if (a.capacity() < (unsigned)o.x) ck::fail("capacity %u after reserve(%d)", a.capacity(), o.x); no_reloc(o.x <= (int)cap_before); } break;
        case shrink: if (call([&] { a.shrink_to_fit(); })) { if (a.capacity() != std::max<std::size_t>(N, ma.size())) ck::fail("capacity %u after shrink_to_fit with %zu elements", a.capacity(), ma.size()); } break;
        case asg_input: { const M m = ints(o.x); Feed f{ &m }; if (call([&] { a.assign(InputIt<E>{ &f }, InputIt<E>{}); })) ma = m; break; }
        case move_asg: if (call([&] { V& q = (a = std::move(b)); if (&q != &a) ck::fail("operator= does not return *this"); })) { ma = mb; mb.clear(); } break;
        case move_asg_rev: if (call([&] { b = std::move(a); })) { mb = ma; ma.clear(); } break;
        case swap_m: if (call([&] { a.swap(b); })) std::swap(ma, mb); break;
        case swap_f: if (call([&] { using std::swap; swap(a, b); })) std::swap(ma, mb); break;
        case swap_self: call([&] { a.swap(a); }); break;
        case move_ctor: { alignas(V) static char buf[sizeof(V)]; V* p = nullptr; if (call([&] { p = new (buf) V(std::move(a)); })) { same(*p, ma, "move-constructed vector"); same(a, M{}, "moved-from vector"); a.push_back(R::make(7)); a.clear(); a = std::move(*p); p->~V(); } break; }
        case ctor_n: { alignas(V) static char buf[sizeof(V)]; V* p = nullptr; if (call([&] { p = new (buf) V((unsigned)o.x); })) { same(*p, M((std::size_t)o.x, 0), "vector of n elements"); p->~V(); } break; }
        case ctor_input: { const M m = ints(o.x); Feed f{ &m }; alignas(V) static char buf[sizeof(V)]; V* p = nullptr; if (call([&] { p = new (buf) V(InputIt<E>{ &f }, InputIt<E>{}); })) { same(*p, m, "vector constructed from single-pass range"); p->~V(); } break; }
        case at_all:
            for (unsigned i = 0; i < n0; ++i) if (&a.at(i) != a.data() + i || &static_cast<const V&>(a).at(i) != a.data() + i) ck::fail("at(%u) is wrong", i);
            for (unsigned i : { (unsigned)n0, (unsigned)n0 + 1, ~0u }) {
                int t = 0; try { a.at(i); } catch (const std::out_of_range&) { ++t; } try { static_cast<const V&>(a).at(i); } catch (const std::out_of_range&) { ++t; }
                if (t != 2) ck::fail("at(%u) does not throw out_of_range for size %zu", i, n0);
            }
            if (a.max_size() < 1000000) ck::fail("max_size is wrong");
            break;
        case set_idx: { E e = R::make(fresh); if (call([&] { a[(unsigned)o.x] = std::move(e); })) ma[(std::size_t)o.x] = fresh; break; }
        case back_front: { E e = R::make(fresh), e2 = R::make(fresh + 1); if (call([&] { a.front() = std::move(e); a.back() = std::move(e2); })) { ma.front() = fresh; ma.back() = fresh + 1; } break; }
        default: apply_copy(o, Copyable<E>{});
        }
        if (!F().threw) {
            if (ma.size() > N || mb.size() > N) big = true;
            if (o.c != shrink && o.c != swap_m && o.c != swap_f && o.c != move_asg && o.c != move_asg_rev && o.c != move_ctor && o.c != copy_ctor) no_reloc(ma.size() <= cap_before && !(o.c == resv && o.x > (int)cap_before));
        }
        fresh += 5; ck::step();
    }
};

} // namespace vec
