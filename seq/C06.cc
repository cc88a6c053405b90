// C06: gul14::expected against an explicit model: all operation sequences up to a depth over two
// objects, with an exception at every throwing point of the last operation, for all combinations of
// copyable/movable/throwing values and errors; all monadic operations on all value categories.
#include <functional>
#include <memory>
#include <string>
#include <utility>
#include "track.h"
#include "gul14/expected.h"

using gul14::expected; using gul14::unexpected; using gul14::unexpect; using gul14::in_place; using gul14::bad_expected_access;
template <bool B> using bc = std::integral_constant<bool, B>;

template <typename E> struct El { static constexpr bool tracked = true; static E make(int i) { return E(i); } static int val(const E& e) { return e.get(); } static int mv(int) { return tr::moved; } };
template <> struct El<int> { static constexpr bool tracked = false; static int make(int i) { return i; } static int val(int e) { return e; } static int mv(int v) { return v; } };
template <> struct El<std::string> { static constexpr bool tracked = false; static std::string make(int i) { return i == 0 ? std::string() : "quite a long string without short buffer " + std::to_string(i); } static int val(const std::string& s) { return s.empty() ? 0 : atoi(s.c_str() + 41); } static int mv(int) { return 0; } };

struct Mod { bool has = true; int v = 0; };

static long fault_k = -1; static bool threw; static long points;
template <typename F> bool call(F f)
{
    threw = false; const long p0 = tr::T().points; tr::arm(fault_k);
    try { f(); } catch (const tr::Boom&) { threw = true; }
    tr::disarm(); points = tr::T().points - p0; return !threw;
}

// Category of a reference: 1 T&, 2 const T&, 3 T&&, 4 const T&&
template <typename T> int cat(T&) { return 1; }
template <typename T> int cat(const T&) { return 2; }
template <typename T> int cat(T&&) { return 3; }
template <typename T> int cat(const T&&) { return 4; }

/// Function object for monadic operations
struct Log { int calls = 0, c = 0; const void* p = nullptr; bool boom = false; };
template <typename R, typename X = int>
struct Fn
{
    Log* l; X r;
    template <typename A> R operator()(A&& a) const { ++l->calls; l->c = cat(std::forward<A>(a)); l->p = std::addressof(a); if (l->boom) throw tr::Boom{ 9 }; return R(r); }
    R operator()() const { ++l->calls; if (l->boom) throw tr::Boom{ 9 }; return R(r); }
};
struct FnV
{
    Log* l;
    template <typename A> void operator()(A&& a) const { ++l->calls; l->c = cat(std::forward<A>(a)); l->p = std::addressof(a); if (l->boom) throw tr::Boom{ 9 }; }
    void operator()() const { ++l->calls; if (l->boom) throw tr::Boom{ 9 }; }
};
/// Returns an expected<R, G> with value or error 41
template <typename X>
struct FnE
{
    Log* l; bool ok;
    template <typename A> X operator()(A&& a) const { ++l->calls; l->c = cat(std::forward<A>(a)); l->p = std::addressof(a); if (l->boom) throw tr::Boom{ 9 }; return make(std::is_void<typename X::value_type>{}); }
    X operator()() const { ++l->calls; if (l->boom) throw tr::Boom{ 9 }; return make(std::is_void<typename X::value_type>{}); }
    X make(std::true_type) const { if (ok) return X(); return X(unexpect, El<typename X::error_type>::make(41)); }
    X make(std::false_type) const { if (ok) return X(in_place, El<typename X::value_type>::make(41)); return X(unexpect, El<typename X::error_type>::make(41)); }
};

enum Code { asg_unex_m, asg_m, swap_mem, swap_free, ctor_m, ctor_unex_m, ctor_def, ctor_unexpect, take, asg_unex_c, asg_c, asg_self, ctor_c, ctor_unex_c,
    first_val, asg_val_m = first_val, emp_val, emp_def, emp_il, ctor_val_m, ctor_inplace, asg_val_c, ctor_val_c, emp_copy, ncodes };
static const char* const names[] = { "= unexpected&&", "= move(other)", "swap", "free swap", "move construct", "construct from unexpected&&", "default construct", "construct with unexpect", "move out", "= const unexpected&", "= other", "= self", "copy construct", "construct from const unexpected&",
    "= T&&", "emplace(T&&)", "emplace()", "emplace(il)", "construct from T&&", "construct in place", "= const T&", "construct from const T&", "emplace(const T&)" };
static bool needs_copy(int c) { return (c >= asg_unex_c && c < first_val) || c >= asg_val_c; }
struct Op { int c, t; };

template <typename T, typename E>
struct H
{
    using X = expected<T, E>;
    static constexpr bool is_void = std::is_void<T>::value;
    static constexpr bool copyable = (is_void || std::is_copy_constructible<T>::value) && std::is_copy_constructible<E>::value;
    static constexpr bool e_copyable = std::is_copy_constructible<E>::value;
    static constexpr bool safe = is_void || std::is_nothrow_move_constructible<T>::value || std::is_nothrow_move_constructible<E>::value;
    using isv = bc<is_void>;
    X o[2]; Mod m[2]; int fresh = 1; std::string path;

    template <typename TT> static int mvt(int v, std::false_type) { return El<TT>::mv(v); }
    template <typename TT> static int mvt(int, std::true_type) { return 0; }
    static int after(const Mod& a) { return a.has ? mvt<T>(a.v, isv{}) : El<E>::mv(a.v); }
    template <typename TT> static bool trk(std::false_type) { return El<TT>::tracked; }
    template <typename TT> static bool trk(std::true_type) { return false; }
    static int objs(const Mod& a) { return (a.has ? trk<T>(isv{}) : El<E>::tracked) ? 1 : 0; }

    // -- observation
    void obs_val(const X& x, X& q, const Mod& w, const char* who, std::false_type)
    {
        if (w.has) {
            const T* p = &*x;
            if (El<T>::val(*p) != w.v) ck::fail("%s: %s holds value %d instead of %d", path.c_str(), who, El<T>::val(*p), w.v);
            if ((const char*)p < (const char*)&x || (const char*)(p + 1) > (const char*)(&x + 1)) ck::fail("%s: value stored outside of the object", path.c_str());
            T&& r = std::move(q).value(); T&& s = *std::move(q); const T&& cs = *std::move(x);
            values(x, q, p, bc<e_copyable>{});
            if (&r != p || &*q != p || &s != p || &cs != p || x.operator->() != p || q.operator->() != p) ck::fail("%s: accessors refer to different objects", path.c_str());
        } else bad(x, q, w, who, bc<e_copyable>{});
    }
    void obs_val(const X&, X&, const Mod&, const char*, std::true_type) {}
    template <typename P> void values(const X&, X&, P, std::false_type) {}
    template <typename P> void values(const X& x, X& q, P p, std::true_type)
    {
        auto&& cr = std::move(x).value();
        static_assert(std::is_same<decltype(std::move(x).value()), const T&&>::value && std::is_same<decltype(x.value()), const T&>::value && std::is_same<decltype(q.value()), T&>::value, "value()");
        if (&x.value() != p || &q.value() != p || &cr != p) ck::fail("%s: accessors refer to different objects", path.c_str());
    }
    void bad(const X&, X& q, const Mod& w, const char* who, std::false_type)
    {
        bool t = false; // value() && moves the error into the exception
        try { (void)std::move(q).value(); } catch (bad_expected_access<E>& e) { t = El<E>::val(e.error()) == w.v; q = unexpected<E>(std::move(e).error()); }
        if (!t) ck::fail("%s: value() of %s without value does not throw the error", path.c_str(), who);
    }
    void bad(const X& x, X& q, const Mod& w, const char* who, std::true_type)
    {
        int t = 0;
        try { (void)x.value(); } catch (const bad_expected_access<E>& e) { if (El<E>::val(e.error()) == w.v) ++t; }
        try { (void)q.value(); } catch (const bad_expected_access<void>& e) { if (std::string(e.what()).size()) ++t; }
        try { (void)std::move(x).value(); } catch (const std::exception&) { ++t; }
        if (t != 3) ck::fail("%s: value() of %s without value does not throw the error", path.c_str(), who);
    }
    void obs(const X& x, const Mod& w, const char* who)
    {
        if (x.has_value() != w.has || static_cast<bool>(x) != w.has) ck::fail("%s: %s has %s instead of %s", path.c_str(), who, x.has_value() ? "a value" : "an error", w.has ? "a value" : "an error");
        X& q = const_cast<X&>(x);
        obs_val(x, q, w, who, isv{});
        if (!w.has) {
            const E* p = &x.error();
            if (El<E>::val(*p) != w.v) ck::fail("%s: %s holds error %d instead of %d", path.c_str(), who, El<E>::val(*p), w.v);
            if ((const char*)p < (const char*)&x || (const char*)(p + 1) > (const char*)(&x + 1)) ck::fail("%s: error stored outside of the object", path.c_str());
            E&& r = std::move(q).error(); const E&& cr = std::move(x).error();
            if (&q.error() != p || &r != p || &cr != p) ck::fail("%s: accessors refer to different objects", path.c_str());
        }
    }
    void relations_val(const X&, const Mod&, std::true_type) {}
    void relations_val(const X& x, const Mod& a, std::false_type)
    {
        for (int v = -1; v <= 3; ++v) {
            const T t = El<T>::make(v); const int n = El<T>::val(t);
            const bool eq = a.has && a.v == n;
            if ((x == t) != eq || (t == x) != eq || (x != t) == eq || (t != x) == eq) ck::fail("%s: comparison with a value is wrong", path.c_str());
        }
    }
    void check(bool deep = false)
    {
        obs(o[0], m[0], "x"); obs(o[1], m[1], "y");
        if (tr::living() != objs(m[0]) + objs(m[1])) ck::fail("%s: %d objects are alive instead of %d", path.c_str(), tr::living(), objs(m[0]) + objs(m[1]));
        const bool eq = m[0].has == m[1].has && m[0].v == m[1].v; const X &x = o[0], &y = o[1];
        if ((x == y) != eq || (x != y) == eq || (y == x) != eq) ck::fail("%s: equality is wrong", path.c_str());
        if (!deep) return;
        for (int k = 0; k < 2; ++k) {
            relations_val(o[k], m[k], isv{});
            for (int v = -1; v <= 3; ++v) {
                const unexpected<E> u(El<E>::make(v)); const bool e = !m[k].has && m[k].v == El<E>::val(u.value());
                if ((o[k] == u) != e || (u == o[k]) != e || (o[k] != u) == e || (u != o[k]) == e) ck::fail("%s: comparison with unexpected is wrong", path.c_str());
            }
        }
    }
    // -- operations
    alignas(X) char buf[sizeof(X)];
    template <typename F> bool construct(F f, const Mod& w, const char* who)
    {
        X* p = nullptr;
        if (!call([&] { p = f(static_cast<void*>(buf)); })) return false;
        obs(*p, w, who); p->~X(); return true;
    }
    static int norm_e(int v) { return El<E>::val(El<E>::make(v)); }
    template <typename TT = T> static int norm_t(int v) { return El<TT>::val(El<TT>::make(v)); }

    void apply_il(int, std::false_type) {}
    void apply_il(int v, std::true_type) { X& x = o[il_t]; if (call([&] { x.emplace({ 'a', 'b', 'c' }); })) { if (!x.has_value() || *x != "abc") ck::fail("%s: emplace with initializer list is wrong", path.c_str()); x = El<std::string>::make(v); m[il_t] = { true, v }; } }
    int il_t = 0;
    void apply_val(const Op&, int, std::true_type) {}
    void apply_val(const Op& op, int v, std::false_type)
    {
        X& x = o[op.t]; Mod& a = m[op.t];
        switch (op.c) {
        case asg_val_m: { T t = El<T>::make(v); if (call([&] { X& r = (x = std::move(t)); if (&r != &x) ck::fail("operator= returns something else"); })) a = { true, norm_t(v) }; break; }
        case emp_val: { T t = El<T>::make(v); if (call([&] { x.emplace(std::move(t)); })) a = { true, norm_t(v) }; break; }
        case emp_def: if (call([&] { x.emplace(); })) a = { true, 0 }; break;
        case emp_il: il_t = op.t; apply_il(v, std::is_same<T, std::string>{}); break;
        case ctor_val_m: { T t = El<T>::make(v); construct([&](void* p) { return new (p) X(std::move(t)); }, { true, norm_t(v) }, "object constructed from value"); break; }
        case ctor_inplace: construct([&](void* p) { return new (p) X(in_place, El<T>::make(v)); }, { true, norm_t(v) }, "object constructed in place"); break;
        default: apply_val_c(op, v, bc<copyable>{});
        }
    }
    void apply_val_c(const Op&, int, std::false_type) {}
    void apply_val_c(const Op& op, int v, std::true_type)
    {
        X& x = o[op.t]; Mod& a = m[op.t]; const T t = El<T>::make(v);
        if (op.c == asg_val_c) { if (call([&] { x = t; })) a = { true, norm_t(v) }; }
        else if (op.c == emp_copy) { if (call([&] { x.emplace(t); })) a = { true, norm_t(v) }; }
        else construct([&](void* p) { return new (p) X(t); }, { true, norm_t(v) }, "object constructed from value");
        if (El<T>::val(t) != norm_t(v)) ck::fail("%s: source changed", path.c_str());
    }
    void apply_copy(const Op&, int, std::false_type) {}
    void apply_copy(const Op& op, int v, std::true_type)
    {
        X &x = o[op.t], &y = o[1 - op.t]; Mod &a = m[op.t], &b = m[1 - op.t]; const X &cx = x, &cy = y;
        switch (op.c) {
        case asg_unex_c: { const unexpected<E> u(El<E>::make(v)); if (call([&] { x = u; })) a = { false, norm_e(v) }; if (El<E>::val(u.value()) != norm_e(v)) ck::fail("%s: source changed", path.c_str()); break; }
        case asg_c: if (call([&] { X& r = (x = cy); if (&r != &x) ck::fail("operator= returns something else"); })) a = b; break;
        case asg_self: call([&] { x = cx; }); break;
        case ctor_c: construct([&](void* p) { return new (p) X(cx); }, a, "copy"); break;
        case ctor_unex_c: { const unexpected<E> u(El<E>::make(v)); construct([&](void* p) { return new (p) X(u); }, { false, norm_e(v) }, "object constructed from unexpected"); break; }
        }
    }
    void do_swap(X& x, X& y, bool mem, std::true_type) { if (mem) x.swap(y); else { using std::swap; swap(x, y); } }
    void do_swap(X&, X&, bool, std::false_type) {}
    void take_val(X& x, int& got, std::false_type) { T t = std::move(x).value(); got = El<T>::val(t); }
    void take_val(X&, int& got, std::true_type) { got = 0; }
    void apply(const Op& op)
    {
        const int v = fresh; fresh = fresh == 1 ? 2 : 1; points = 0; threw = false;
        X &x = o[op.t], &y = o[1 - op.t]; Mod &a = m[op.t], &b = m[1 - op.t];
        switch (op.c) {
        case asg_unex_m: { unexpected<E> u(El<E>::make(v)); if (call([&] { X& r = (x = std::move(u)); if (&r != &x) ck::fail("operator= returns something else"); })) a = { false, norm_e(v) }; break; }
        case asg_m: if (call([&] { x = std::move(y); })) { a = b; b.v = after(b); } break;
        case swap_mem: case swap_free: if (!safe) break;
            if (call([&] { do_swap(x, y, op.c == swap_mem, bc<safe>{}); })) std::swap(a, b);
            else if (a.has == b.has) resync();
            break;
        case ctor_m: if (construct([&](void* p) { return new (p) X(std::move(x)); }, a, "move-constructed object")) a.v = after(a); break;
        case ctor_unex_m: { unexpected<E> u(El<E>::make(v)); construct([&](void* p) { return new (p) X(std::move(u)); }, { false, norm_e(v) }, "object constructed from unexpected"); break; }
        case ctor_def: construct([&](void* p) { return new (p) X(); }, { true, 0 }, "default-constructed object"); break;
        case ctor_unexpect: construct([&](void* p) { return new (p) X(unexpect, El<E>::make(v)); }, { false, norm_e(v) }, "object constructed with unexpect"); break;
        case take: { int got = 0; if (call([&] { if (a.has) take_val(x, got, isv{}); else { E e = std::move(x).error(); got = El<E>::val(e); } })) { if (got != a.v) ck::fail("%s: moved out %d instead of %d", path.c_str(), got, a.v); a.v = after(a); } break; }
        default: if (op.c >= first_val) apply_val(op, v, isv{}); else apply_copy(op, v, bc<copyable>{});
        }
        ck::step();
    }
    /// After a failing swap of two values or of two errors, the values are valid but unspecified
    void resync()
    {
        for (int k = 0; k < 2; ++k) { if (o[k].has_value() != m[k].has) ck::fail("%s: failing swap changes the kind", path.c_str()); m[k].v = read(o[k], isv{}); }
    }
    static int read(const X& x, std::false_type) { return x.has_value() ? El<T>::val(*x) : El<E>::val(x.error()); }
    static int read(const X& x, std::true_type) { return x.has_value() ? 0 : El<E>::val(x.error()); }
    static std::vector<Op> setters(int t) { std::vector<Op> r{ { asg_unex_m, t } }; if (!is_void) r.push_back({ asg_val_m, t }); return r; }
    static std::vector<Op> ops()
    {
        std::vector<Op> r;
        for (int t = 0; t < 2; ++t) for (int c = 0; c < ncodes; ++c) {
            if (needs_copy(c) && !copyable) continue;
            if (is_void && c >= first_val) continue;
            if (!safe && (c == swap_mem || c == swap_free)) continue;
            if (c == emp_il && !std::is_same<T, std::string>::value) continue;
            r.push_back({ c, t });
        }
        return r;
    }
    /// Whether the library can keep the state if this operation throws
    bool recoverable(const Op&) const { return safe; }
};

template <typename HH>
void run(const std::vector<Op>& seq)
{
    const int len = (int)seq.size();
    if (!ck::mine()) return;
    std::string path; for (int i = 0; i < len; ++i) { auto& p = seq[(std::size_t)i]; path += std::string(i ? "; " : "") + "xy"[p.t] + " " + names[p.c]; }
    ck::sample("%s", path.c_str());
    long pts; fault_k = -1;
    { HH h; h.path = path; for (int i = 0; i < len; ++i) h.apply(seq[(std::size_t)i]); pts = points; h.check(len <= 2); ck::state(); }
    if (tr::living()) ck::fail("%s: objects are leaked", path.c_str());
    if (!HH::safe) pts = 0;
    for (long k = 0; k < pts; ++k) {
        { HH h; h.path = path + " (exception)"; for (int i = 0; i + 1 < len; ++i) h.apply(seq[(std::size_t)i]);
          fault_k = k; h.apply(seq[(std::size_t)len - 1]); fault_k = -1; ck::fault();
          if (!threw) ck::fail("%s: exception did not reach the caller", path.c_str());
          h.check(true); h.apply({ asg_unex_m, 0 }); h.apply({ swap_mem, 1 }); h.check(); ck::state(); }
        if (tr::living()) ck::fail("%s: objects are leaked after an exception", path.c_str());
    }
}

/// All sequences of operations up to a depth, from the initial state and from each state in which
/// both objects have been given a content of their own
template <typename HH>
void explore(int depth)
{
    const auto ops = HH::ops();
    std::vector<std::vector<Op>> prefixes(1);
    for (auto& a : HH::setters(0)) for (auto& b : HH::setters(1)) prefixes.push_back({ a, b });
    for (auto& prefix : prefixes) {
        const int d = prefix.empty() ? depth : depth - 1;
        for (int len = 1; len <= d; ++len) {
            std::vector<std::size_t> idx((std::size_t)len, 0);
            for (;;) {
                std::vector<Op> seq(prefix); for (auto i : idx) seq.push_back(ops[i]);
                run<HH>(seq);
                int k = len - 1; while (k >= 0 && ++idx[(std::size_t)k] == ops.size()) idx[(std::size_t)k--] = 0;
                if (k < 0) break;
            }
        }
    }
}
using CN = tr::Obj<true, true, 0>;         // throwing copy, noexcept move
using CT = tr::Obj<true, false, 1>;        // throwing copy and move
using NN = tr::Obj<true, true, 2, true>;   // noexcept copy and move
using MN = tr::Obj<false, true, 3>;        // move-only
using MT = tr::Obj<false, false, 4>;       // move-only, throwing move

#define D(name, T, E) DOMAIN(name) { explore<H<T, E>>(ck::tier(2, 3)); }
D(cn_cn, CN, CN) D(cn_ct, CN, CT) D(ct_cn, CT, CN) D(ct_ct, CT, CT) D(nn_cn, NN, CN) D(ct_nn, CT, NN) D(nn_nn, NN, NN) D(nn_ct, NN, CT)
D(mn_mn, MN, MN) D(mn_mt, MN, MT) D(mt_mn, MT, MN) D(mn_cn, MN, CN) D(cn_mt, CN, MT)
D(int_cn, int, CN) D(int_ct, int, CT) D(cn_int, CN, int) D(ct_int, CT, int) D(int_int, int, int) D(str_str, std::string, std::string) D(str_int, std::string, int) D(int_str, int, std::string)
D(void_cn, void, CN) D(void_ct, void, CT) D(void_nn, void, NN) D(void_int, void, int) D(void_mt, void, MT) D(void_str, void, std::string)
DOMAIN(deep_cn_ct) { explore<H<CN, CT>>(ck::tier(2, 3)); }
DOMAIN(deep_void) { explore<H<void, CT>>(ck::tier(3, 4)); }
DOMAIN(deep_str) { explore<H<std::string, int>>(ck::tier(2, 3)); }

// Converting construction and assignment from a different type of expected, with all exceptions
struct FromCN { CN c; FromCN() : c(0) {} FromCN(const CN& x) : c(x) {} FromCN(CN&& x) noexcept : c(std::move(x)) {} };
struct FromCT { CT c; FromCT() : c(0) {} FromCT(const CT& x) : c(x) {} FromCT(CT&& x) : c(std::move(x)) {} };
template <typename X, typename Y> void convert(const char* name)
{
    for (int has = 0; has < 2; ++has) for (int mode = 0; mode < 3; ++mode) for (long k = -1; k < 8; ++k) {
        if (!ck::mine()) continue;
        bool ok = false;
        {
            Y y(unexpect, 5); if (has) y = Y(in_place, 6);
            const Y& cy = y; const int before = tr::living();
            fault_k = k;
            if (mode < 2) {
                alignas(X) char buf[sizeof(X)]; X* p = nullptr;
                ok = call([&] { p = mode == 0 ? new (buf) X(cy) : new (buf) X(std::move(y)); });
                if (ok) { CHECK(tr::living() == before + 1, "%s: %d objects after conversion", name, tr::living() - before); CHECK(p->has_value() == (has == 1), "%s: conversion changes the kind", name); CHECK((has ? (**p).c.get() : p->error().c.get()) == 5 + has, "%s: wrong content after conversion", name); p->~X(); }
            } else {
                X x;
                for (int target = 0; target < 2; ++target) {
                    if (target) x = X(unexpect, CT(3)); else x = X(in_place, CN(4));
                    fault_k = k;
                    ok = call([&] { x = cy; });
                    CHECK(tr::living() == before + 1, "%s: %d objects after assignment", name, tr::living() - before);
                    if (ok) { CHECK(x.has_value() == (has == 1), "%s: assignment has the wrong kind", name); CHECK((has ? (*x).c.get() : x.error().c.get()) == 5 + has, "%s: wrong content after assignment", name); }
                    else CHECK(x.has_value() == (target == 0) && (target == 0 ? (*x).c.get() == 4 : x.error().c.get() == 3), "%s: failing assignment changes the target", name);
                }
            }
            fault_k = -1;
            CHECK(y.has_value() == (has == 1), "%s: source changes its kind", name);
            const int src = has ? (*y).get() : y.error().get();
            CHECK(src == (mode == 1 && ok ? tr::moved : 5 + has), "%s: source is %d", name, src);
            CHECK(tr::living() == before, "%s: leak", name);
        }
        CHECK(tr::living() == 0, "%s: leak", name);
        if (!ok) ck::fault();
        ck::state(); ck::step();
    }
}
DOMAIN(conversion) { convert<expected<FromCN, FromCT>, expected<CN, CT>>("expected<CN,CT>"); }

// Monadic operations
static int expect_cat(int c) { return c; }
template <int C, typename X> struct Cat;
template <typename X> struct Cat<1, X> { static X& get(X& x) { return x; } };
template <typename X> struct Cat<2, X> { static const X& get(X& x) { return x; } };
template <typename X> struct Cat<3, X> { static X&& get(X& x) { return std::move(x); } };
template <typename X> struct Cat<4, X> { static const X&& get(X& x) { return std::move(x); } };

template <typename T, typename E> struct Mon
{
    using X = expected<T, E>; static constexpr bool is_void = std::is_void<T>::value; using isv = bc<is_void>;
    template <typename TT> static X mk(bool has, std::false_type) { if (has) return X(in_place, El<TT>::make(6)); return X(unexpect, El<E>::make(5)); }
    template <typename TT> static X mk(bool has, std::true_type) { if (has) return X(); return X(unexpect, El<E>::make(5)); }
    static const void* addr(const X& x, std::false_type) { return x.has_value() ? (const void*)&*x : (const void*)&x.error(); }
    static const void* addr(const X& x, std::true_type) { return x.has_value() ? nullptr : (const void*)&x.error(); }
    static int val(const X& x, std::false_type) { return x.has_value() ? El<T>::val(*x) : El<E>::val(x.error()); }
    static int val(const X& x, std::true_type) { return x.has_value() ? 0 : El<E>::val(x.error()); }
    template <typename Y> static int valv(const Y& y) { return El<typename Y::value_type>::val(*y); }
    static int mvt(std::false_type) { return El<T>::mv(6); }
    static int mvt(std::true_type) { return 0; }

    /// Checks the call log: f called once with the content in category c if called == true, else never
    static void log(const Log& l, bool called, int c, const void* p, bool no_arg, const char* n)
    {
        if (l.calls != (called ? 1 : 0)) ck::fail("%s: function called %d times", n, l.calls);
        if (called && !no_arg && (l.c != expect_cat(c) || l.p != p)) ck::fail("%s: function called with category %d instead of %d, or with a different object", n, l.c, c);
    }
    /// Content of x after the operation: moved from iff it was an rvalue whose content has been passed on and not given to f
    static void source(const X& x, bool has, bool passed_on, int c, const char* n)
    {
        if (x.has_value() != has) ck::fail("%s: source changes its kind", n);
        const int orig = has ? (is_void ? 0 : 6) : 5;
        const int want = passed_on && c == 3 ? (has ? mvt(isv{}) : El<E>::mv(5)) : orig;
        if (val(x, isv{}) != want) ck::fail("%s: source is %d instead of %d", n, val(x, isv{}), want);
    }
    template <int C> static void run(bool has, bool boom)
    {
        using CC = Cat<C, X>;
        const int ev = is_void ? 0 : 6;
        auto guard = [&](const char* n, bool called, auto f) {
            tr::T();
            { X x = mk<T>(has, isv{}); Log l; l.boom = boom; const void* p = addr(x, isv{}); bool t = false;
              try { f(x, l, n); } catch (const tr::Boom&) { t = true; }
              if (t != (boom && called)) ck::fail("%s: exception of the function is lost", n);
              log(l, called, C, p, is_void && has, n);
              if (t) source(x, has, false, C, n); else source(x, has, !called, C, n);
              ck::state(); ck::step(); }
            if (tr::living()) ck::fail("%s: leak", n);
        };
        guard("map", has, [&](X& x, Log& l, const char* n) { auto r = CC::get(x).map(Fn<int>{ &l, 17 }); static_assert(std::is_same<decltype(r), expected<int, E>>::value, "map"); if (r.has_value() != has || (has ? *r != 17 : El<E>::val(r.error()) != 5)) ck::fail("%s: wrong result", n); });
        guard("transform", has, [&](X& x, Log& l, const char* n) { auto r = CC::get(x).transform(Fn<std::string, const char*>{ &l, "ab" }); static_assert(std::is_same<decltype(r), expected<std::string, E>>::value, "transform"); if (r.has_value() != has || (has ? *r != "ab" : El<E>::val(r.error()) != 5)) ck::fail("%s: wrong result", n); });
        guard("map to void", has, [&](X& x, Log& l, const char* n) { auto r = CC::get(x).map(FnV{ &l }); static_assert(std::is_same<decltype(r), expected<void, E>>::value, "map"); if (r.has_value() != has || (!has && El<E>::val(r.error()) != 5)) ck::fail("%s: wrong result", n); });
        guard("transform to void", has, [&](X& x, Log& l, const char* n) { auto r = CC::get(x).transform(FnV{ &l }); if (r.has_value() != has || (!has && El<E>::val(r.error()) != 5)) ck::fail("%s: wrong result", n); });
        for (int ok = 0; ok < 2; ++ok) {
            guard("and_then", has, [&](X& x, Log& l, const char* n) { using Y = expected<std::string, E>; auto r = CC::get(x).and_then(FnE<Y>{ &l, ok == 1 }); static_assert(std::is_same<decltype(r), Y>::value, "and_then"); if (r.has_value() != (has && ok) || (has && ok ? El<std::string>::val(*r) != 41 : El<E>::val(r.error()) != (has ? 41 : 5))) ck::fail("%s: wrong result", n); });
            guard("and_then void", has, [&](X& x, Log& l, const char* n) { using Y = expected<void, E>; auto r = CC::get(x).and_then(FnE<Y>{ &l, ok == 1 }); static_assert(std::is_same<decltype(r), Y>::value, "and_then"); if (r.has_value() != (has && ok) || (!(has && ok) && El<E>::val(r.error()) != (has ? 41 : 5))) ck::fail("%s: wrong result", n); });
            guard("or_else", !has, [&](X& x, Log& l, const char* n) { auto r = CC::get(x).or_else(FnE<X>{ &l, ok == 1 }); static_assert(std::is_same<decltype(r), X>::value, "or_else"); if (r.has_value() != (has || ok) || val(r, isv{}) != (has ? ev : ok && is_void ? 0 : 41)) ck::fail("%s: wrong result", n); });
        }
        guard("map_error", !has, [&](X& x, Log& l, const char* n) { auto r = CC::get(x).map_error(Fn<int>{ &l, 18 }); static_assert(std::is_same<decltype(r), expected<T, int>>::value, "map_error"); if (r.has_value() != has || (!has && r.error() != 18)) ck::fail("%s: wrong result", n); keeps(r, has, n, isv{}); });
        guard("transform_error", !has, [&](X& x, Log& l, const char* n) { auto r = CC::get(x).transform_error(Fn<std::string, const char*>{ &l, "er" }); static_assert(std::is_same<decltype(r), expected<T, std::string>>::value, "transform_error"); if (r.has_value() != has || (!has && r.error() != "er")) ck::fail("%s: wrong result", n); keeps(r, has, n, isv{}); });
        guard("map_error to void", !has, [&](X& x, Log& l, const char* n) { auto r = CC::get(x).map_error(FnV{ &l }); if (r.has_value() != has) ck::fail("%s: wrong result", n); keeps(r, has, n, isv{}); });
    }
    template <typename R> static void keeps(const R& r, bool has, const char* n, std::false_type) { if (has && El<T>::val(*r) != 6) ck::fail("%s: value is lost", n); }
    template <typename R> static void keeps(const R&, bool, const char*, std::true_type) {}
    static void rvalues(bool has, bool boom) { run<3>(has, boom); }
    static void all(const char*)
    {
        for (int has = 0; has < 2; ++has) for (int boom = 0; boom < 2; ++boom) {
            if (ck::mine()) run<1>(has == 1, boom == 1);
            if (ck::mine()) run<2>(has == 1, boom == 1);
            if (ck::mine()) run<3>(has == 1, boom == 1);
            if (ck::mine()) run<4>(has == 1, boom == 1);
        }
    }
};
DOMAIN(monadic)
{
    Mon<CN, CN>::all("CN,CN"); Mon<int, CT>::all("int,CT"); Mon<CT, int>::all("CT,int"); Mon<std::string, std::string>::all("string,string"); Mon<void, CN>::all("void,CN"); Mon<void, std::string>::all("void,string");
    for (int has = 0; has < 2; ++has) for (int boom = 0; boom < 2; ++boom) if (ck::mine()) { Mon<MN, MN>::rvalues(has == 1, boom == 1); Mon<void, MN>::rvalues(has == 1, boom == 1); }
}

// value_or and construction in place with several arguments
struct Pair { CN a; int n; Pair(int x, int y) : a(x), n(y) {} Pair(std::initializer_list<int> l, int y) : a((int)l.size()), n(y) {} };
DOMAIN(value_or)
{
    for (int has = 0; has < 2; ++has) for (int r = 0; r < 3; ++r) {
        if (!ck::mine()) continue;
        {
            using X = expected<CN, CT>; X x(unexpect, 5); if (has) x = CN(6); CN d(7); const CN cd(7);
            const CN v = r == 0 ? static_cast<const X&>(x).value_or(cd) : r == 1 ? x.value_or(std::move(d)) : std::move(x).value_or(cd);
            CHECK(v.get() == (has ? 6 : 7), "value_or returns %d", v.get());
            CHECK(x.has_value() == (has == 1) && (has ? (*x).get() == (r == 2 ? tr::moved : 6) : x.error().get() == 5), "value_or changes the object");
            CHECK(d.get() == (r == 1 && !has ? tr::moved : 7) && cd.get() == 7, "value_or changes the default");
            ck::state(); ck::step();
        }
        CHECK(tr::living() == 0, "leak");
    }
    if (ck::mine()) {
        { expected<Pair, Pair> p(in_place, 3, 4), q(unexpect, 5, 6), r(in_place, { 1, 2, 3 }, 7), s(unexpect, { 1, 2 }, 8);
          CHECK(p->a.get() == 3 && p->n == 4 && q.error().a.get() == 5 && q.error().n == 6 && r->a.get() == 3 && r->n == 7 && s.error().a.get() == 2 && s.error().n == 8, "construction with several arguments");
          q.emplace(8, 9); CHECK(q.has_value() && q->a.get() == 8 && q->n == 9, "emplace with several arguments");
          s.emplace({ 1 }, 2); CHECK(s.has_value() && s->a.get() == 1 && s->n == 2, "emplace with initializer list");
          s.emplace({ 1, 2, 3, 4 }, 5); CHECK(s.has_value() && s->a.get() == 4 && s->n == 5, "emplace with initializer list"); ck::state(); }
        CHECK(tr::living() == 0, "leak");
    }
    // assigning a value that is part of the error
    if (ck::mine()) { expected<std::string, std::string> e(unexpect, El<std::string>::make(3)); e = e.error(); CHECK(e.has_value() && *e == El<std::string>::make(3), "assigning the own error loses it"); ck::state(); }
    // unexpected
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) if (ck::mine()) {
        { unexpected<CN> a{ CN(i) }, b{ CN(j) };
          CHECK((a == b) == (i == j) && (a != b) == (i != j) && (a < b) == (i < j) && (a <= b) == (i <= j) && (a > b) == (i > j) && (a >= b) == (i >= j), "relations of unexpected");
          auto c = gul14::unexpected<CN>(std::move(a)); CHECK(c.value().get() == i && a.value().get() == tr::moved, "moving unexpected"); ck::state(); }
        CHECK(tr::living() == 0, "leak");
    }
}
