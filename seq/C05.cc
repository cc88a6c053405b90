// C05: gul14::variant against an explicit model of the standard variant: all operation sequences
// up to a depth over two variants, with every throwing point of the last operation.
#include <functional>
#include <string>
#include <utility>
#include "track.h"
#include "gul14/variant.h"

using gul14::variant;
constexpr std::size_t npos = gul14::variant_npos;

template <typename E> struct El { static constexpr bool tracked = true; static E make(int i) { return E(i); } static int val(const E& e) { return e.get(); } static int mv(int) { return tr::moved; } };
template <> struct El<int> { static constexpr bool tracked = false; static int make(int i) { return i; } static int val(int e) { return e; } static int mv(int v) { return v; } };
template <> struct El<char> { static constexpr bool tracked = false; static char make(int i) { return (char)i; } static int val(char e) { return e; } static int mv(int v) { return v; } };
template <> struct El<double> { static constexpr bool tracked = false; static double make(int i) { return i; } static int val(double e) { return (int)e; } static int mv(int v) { return v; } };
template <> struct El<gul14::monostate> { static constexpr bool tracked = false; static gul14::monostate make(int) { return {}; } static int val(gul14::monostate) { return 0; } static int mv(int) { return 0; } };
template <> struct El<std::string> { static constexpr bool tracked = false; static std::string make(int i) { return i == 0 ? std::string() : "quite a long string without short buffer " + std::to_string(i); } static int val(const std::string& s) { return s.empty() ? 0 : atoi(s.c_str() + 41); } static int mv(int) { return 0; } };

struct Mod { std::size_t i = 0; int v = 0; };

static long fault_k = -1; static bool threw; static long points;
template <typename F> bool call(F f)
{
    threw = false; const long p0 = tr::T().points; tr::arm(fault_k);
    try { f(); } catch (const tr::Boom&) { threw = true; }
    tr::disarm(); points = tr::T().points - p0; return !threw;
}

enum Code { emp_val, emp_def, asg_val_m, asg_v_m, swap_mem, swap_free, swap_self, ctor_m, ctor_inplace, ctor_conv_m, make_valueless, take, first_copy,
    asg_val_c = first_copy, asg_v_c, asg_self, ctor_c, ctor_conv_c, ncodes };
static const char* const names[] = { "emplace(value)", "emplace()", "= T&&", "= move(other)", "swap", "free swap", "swap(self)", "move construct", "in-place construct", "construct from T&&", "emplace that throws", "move out by get", "= const T&", "= other", "= self", "copy construct", "construct from const T&" };
struct Op { int c, t, i; };

template <typename... Ts> struct Pack {};
struct Visitor1
{
    template <typename E> std::pair<const void*, int> operator()(const E& e) const { return { &e, El<E>::val(e) }; }
};
struct Visitor2
{
    template <typename E, typename F> std::pair<std::pair<const void*, int>, std::pair<const void*, int>> operator()(const E& e, const F& f) const { return { { &e, El<E>::val(e) }, { &f, El<F>::val(f) } }; }
};
// Category of the reference that a visitor receives
struct VisitorCat
{
    template <typename E> int operator()(E&) const { return 1; }
    template <typename E> int operator()(const E&) const { return 2; }
    template <typename E> int operator()(E&&) const { return 3; }
};

template <bool Unique, bool Hash, typename... Ts>
struct H
{
    using V = variant<Ts...>;
    static constexpr std::size_t N = sizeof...(Ts);
    template <std::size_t I> using A = gul14::variant_alternative_t<I, V>;
    V o[2]; Mod m[2]; int fresh = 1; std::string path;

    // -- static table of operations per alternative
    struct Alt
    {
        bool tracked, nt_move, nt_copy, copyable, has_throwing_copy; int type_id;
        int (*mv)(int); int (*norm)(int);
    };
    template <std::size_t I> static Alt alt_of() { using E = A<I>; return { El<E>::tracked, std::is_nothrow_move_constructible<E>::value, std::is_nothrow_copy_constructible<E>::value, std::is_copy_constructible<E>::value, false, 0, &El<E>::mv, [](int v) { return El<E>::val(El<E>::make(v)); } }; }
    static const Alt& alt(std::size_t i) { static const std::vector<Alt> t = table(std::make_index_sequence<N>{}); return t[i]; }
    template <std::size_t... Is> static std::vector<Alt> table(std::index_sequence<Is...>) { return { alt_of<Is>()... }; }
    static constexpr bool all_copyable() { bool r = true; for (bool b : { std::is_copy_constructible<Ts>::value... }) r = r && b; return r; }

    /// Calls f with std::integral_constant<i>
    template <typename F, std::size_t... Is> void with(std::size_t i, F f, std::index_sequence<Is...>) { bool d[] = { (i == Is ? (f(std::integral_constant<std::size_t, Is>{}), true) : false)... }; (void)d; }
    template <typename F> void with(std::size_t i, F f) { with(i, f, std::make_index_sequence<N>{}); }

    int after_move(const Mod& a) { return a.i == npos ? 0 : alt(a.i).mv(a.v); }

    void obs(const V& x, const Mod& w, const char* who, bool deep)
    {
        if (x.index() != w.i) ck::fail("%s: %s has index %zd instead of %zd", path.c_str(), who, (ssize_t)x.index(), (ssize_t)w.i);
        if (x.valueless_by_exception() != (w.i == npos)) ck::fail("%s: valueless_by_exception() of %s is wrong", path.c_str(), who);
        V& q = const_cast<V&>(x);
        const void* addr = nullptr;
        for (std::size_t k = 0; k < N; ++k) with(k, [&](auto ic) {
            constexpr std::size_t I = decltype(ic)::value; using E = A<I>;
            const E* p = gul14::get_if<I>(&x); E* p2 = gul14::get_if<I>(&q);
            if (p != p2 || (p != nullptr) != (w.i == I) || gul14::holds_alternative<I>(x) != (w.i == I)) ck::fail("%s: get_if/holds_alternative<%zu> of %s with index %zd", path.c_str(), I, who, (ssize_t)w.i);
            if (p) {
                addr = p;
                if (El<E>::val(*p) != w.v) ck::fail("%s: %s holds %d instead of %d", path.c_str(), who, El<E>::val(*p), w.v);
                if ((const char*)p < (const char*)&x || (const char*)(p + 1) > (const char*)(&x + 1)) ck::fail("%s: value stored outside of the variant", path.c_str());
                E&& r = gul14::get<I>(std::move(q)); const E&& cr = gul14::get<I>(std::move(x));
                if (&gul14::get<I>(x) != p || &gul14::get<I>(q) != p || &r != p || &cr != p) ck::fail("%s: get<%zu> refers to a different object", path.c_str(), I);
            } else if (deep) {
                int t = 0;
                try { (void)gul14::get<I>(x); } catch (const gul14::bad_variant_access&) { ++t; }
                try { (void)gul14::get<I>(q); } catch (const gul14::bad_variant_access&) { ++t; }
                try { (void)gul14::get<I>(std::move(q)); } catch (const std::exception&) { ++t; }
                if (t != 3) ck::fail("%s: get<%zu> of %s with index %zd does not throw", path.c_str(), I, who, (ssize_t)w.i);
            }
            obs_type<I>(x, q, w, std::integral_constant<bool, Unique>{});
        });
        if (w.i != npos) {
            const auto r = gul14::visit(Visitor1{}, x);
            if (r.first != addr || r.second != w.v) ck::fail("%s: visit reaches a different alternative of %s", path.c_str(), who);
            if (gul14::visit(VisitorCat{}, q) != 1 || gul14::visit(VisitorCat{}, x) != 2 || gul14::visit(VisitorCat{}, std::move(q)) != 3) ck::fail("%s: visit passes a wrong reference category", path.c_str());
        } else if (deep) {
            bool t = false; try { gul14::visit(Visitor1{}, x); } catch (const gul14::bad_variant_access&) { t = true; }
            if (!t) ck::fail("%s: visiting a valueless variant does not throw", path.c_str());
        }
    }
    template <std::size_t I> void obs_type(const V&, V&, const Mod&, std::false_type) {}
    template <std::size_t I> void obs_type(const V& x, V& q, const Mod& w, std::true_type)
    {
        using E = A<I>;
        const E* p = gul14::get_if<E>(&x);
        if ((p != nullptr) != (w.i == I) || gul14::get_if<E>(&q) != p || gul14::holds_alternative<E>(x) != (w.i == I)) ck::fail("%s: typed access to alternative %zu", path.c_str(), I);
        if (p && (&gul14::get<E>(x) != p || &gul14::get<E>(q) != p)) ck::fail("%s: get<T> refers to a different object", path.c_str());
    }
    void check(bool deep = false)
    {
        obs(o[0], m[0], "x", deep); obs(o[1], m[1], "y", deep);
        int n = 0; for (auto& a : m) if (a.i != npos && alt(a.i).tracked) ++n;
        if (tr::living() != n) ck::fail("%s: %d objects are alive instead of %d", path.c_str(), tr::living(), n);
        if (m[0].i != npos && m[1].i != npos) {
            const auto r = gul14::visit(Visitor2{}, o[0], o[1]);
            const auto a = gul14::visit(Visitor1{}, o[0]), b = gul14::visit(Visitor1{}, o[1]);
            if (r.first != a || r.second != b) ck::fail("%s: visiting two variants reaches wrong alternatives", path.c_str());
        } else if (deep) {
            bool t = false; try { gul14::visit(Visitor2{}, o[0], o[1]); } catch (const gul14::bad_variant_access&) { t = true; }
            if (!t) ck::fail("%s: visiting a valueless variant does not throw", path.c_str());
        }
    }
    static std::pair<long, int> key(const Mod& a) { return { a.i == npos ? -1 : (long)a.i, a.i == npos ? 0 : a.v }; }
    void relations()
    {
        const auto a = key(m[0]), b = key(m[1]); const V &x = o[0], &y = o[1];
        if ((x == y) != (a == b) || (x != y) != (a != b)) ck::fail("%s: equality of two variants is wrong", path.c_str());
        if ((x < y) != (a < b) || (x > y) != (a > b) || (x <= y) != (a <= b) || (x >= y) != (a >= b)) ck::fail("%s: relation of two variants is wrong", path.c_str());
        hashes(std::integral_constant<bool, Hash>{});
    }
    void hashes(std::false_type) {}
    void hashes(std::true_type) { std::hash<V> h; if (o[0] == o[1] && h(o[0]) != h(o[1])) ck::fail("%s: equal variants have different hash values", path.c_str()); V c(o[0]); if (h(c) != h(o[0])) ck::fail("%s: hash of a copy differs", path.c_str()); }

    template <std::size_t I> void conv(const Op&, int, V&, Mod&, std::false_type) {}
    template <std::size_t I> void conv(const Op& op, int v, V& x, Mod& a, std::true_type)
    {
        using E = A<I>; const bool same = a.i == I; const Alt& t = alt(I);
        if (op.c == asg_val_m) {
            E e = El<E>::make(v);
            if (call([&] { V& r = (x = std::move(e)); if (&r != &x) ck::fail("operator= returns something else"); })) a = { I, t.norm(v) };
            else if (!same) a = { npos, 0 };
        } else {
            alignas(V) static char buf[sizeof(V)]; V* p = nullptr; E e = El<E>::make(v);
            if (call([&] { p = new (buf) V(std::move(e)); })) { obs(*p, { I, t.norm(v) }, "variant constructed from value", false); p->~V(); }
        }
    }
    template <std::size_t I> void conv_c(const Op&, int, V&, Mod&, std::false_type) {}
    template <std::size_t I> void conv_c(const Op& op, int v, V& x, Mod& a, std::true_type)
    {
        using E = A<I>; const bool same = a.i == I; const Alt& t = alt(I); const E e = El<E>::make(v);
        if (op.c == asg_val_c) {
            if (call([&] { x = e; })) a = { I, t.norm(v) };
            else if (!same && (t.nt_copy || !t.nt_move)) a = { npos, 0 };
        } else {
            alignas(V) static char buf[sizeof(V)]; V* p = nullptr;
            if (call([&] { p = new (buf) V(e); })) { obs(*p, { I, t.norm(v) }, "variant constructed from value", false); p->~V(); }
        }
        if (El<E>::val(e) != t.norm(v)) ck::fail("%s: source changed", path.c_str());
    }
    void apply_copy(const Op&, int, std::false_type) {}
    void apply_copy(const Op& op, int v, std::true_type)
    {
        V &x = o[op.t], &y = o[1 - op.t]; Mod &a = m[op.t], &b = m[1 - op.t]; const V &cx = x, &cy = y;
        switch (op.c) {
        case asg_val_c: case ctor_conv_c: with((std::size_t)op.i, [&](auto ic) { this->template conv_c<decltype(ic)::value>(op, v, x, a, std::integral_constant<bool, Unique>{}); }); break;
        case asg_v_c: { const bool same = a.i == b.i; const bool direct = b.i != npos && (alt(b.i).nt_copy || !alt(b.i).nt_move);
            if (call([&] { V& r = (x = cy); if (&r != &x) ck::fail("operator= returns something else"); })) a = b; else if (!same && direct) a = { npos, 0 }; break; }
        case asg_self: call([&] { x = cx; }); break;
        case ctor_c: { alignas(V) static char buf[sizeof(V)]; V* p = nullptr; if (call([&] { p = new (buf) V(cx); })) { obs(*p, a, "copy", false); p->~V(); } break; }
        }
    }
    void apply(const Op& op)
    {
        const int v = fresh; fresh = fresh == 1 ? 2 : 1; points = 0; threw = false;
        V &x = o[op.t], &y = o[1 - op.t]; Mod &a = m[op.t], &b = m[1 - op.t];
        switch (op.c) {
        case emp_val: with((std::size_t)op.i, [&](auto ic) {
            constexpr std::size_t I = decltype(ic)::value; using E = A<I>; E e = El<E>::make(v); E* p = nullptr;
            if (call([&] { p = &x.template emplace<I>(std::move(e)); })) { a = { I, alt(I).norm(v) }; if (p != gul14::get_if<I>(&x)) ck::fail("%s: emplace returns a wrong reference", path.c_str()); } else a = { npos, 0 }; }); break;
        case emp_def: with((std::size_t)op.i, [&](auto ic) { constexpr std::size_t I = decltype(ic)::value; if (call([&] { x.template emplace<I>(); })) a = { I, 0 }; else a = { npos, 0 }; }); break;
        case asg_val_m: case ctor_conv_m: with((std::size_t)op.i, [&](auto ic) { this->template conv<decltype(ic)::value>(op, v, x, a, std::integral_constant<bool, Unique>{}); }); break;
        case asg_v_m: { const bool same = a.i == b.i;
            if (call([&] { V& r = (x = std::move(y)); if (&r != &x) ck::fail("operator= returns something else"); })) { a = b; b.v = after_move(b); } else if (!same) a = { npos, 0 }; break; }
        case swap_mem: case swap_free:
            if (call([&] { if (op.c == swap_mem) x.swap(y); else { using std::swap; swap(x, y); } })) std::swap(a, b);
            else resync();
            break;
        case swap_self: if (!call([&] { x.swap(x); })) resync(); break;
        case ctor_m: { alignas(V) static char buf[sizeof(V)]; V* p = nullptr; if (call([&] { p = new (buf) V(std::move(x)); })) { obs(*p, a, "move-constructed variant", false); a.v = after_move(a); p->~V(); } break; }
        case ctor_inplace: with((std::size_t)op.i, [&](auto ic) { constexpr std::size_t I = decltype(ic)::value; using E = A<I>; E e = El<E>::make(v); alignas(V) static char buf[sizeof(V)]; V* p = nullptr;
            if (call([&] { p = new (buf) V(gul14::in_place_index_t<I>{}, std::move(e)); })) { obs(*p, { I, alt(I).norm(v) }, "in-place constructed variant", false); p->~V(); } }); break;
        case make_valueless: with((std::size_t)op.i, [&](auto ic) { constexpr std::size_t I = decltype(ic)::value; if (!El<A<I>>::tracked) return;
            const long save = fault_k; fault_k = 0; const bool ok = call([&] { x.template emplace<I>(); }); fault_k = save; points = 0; if (ok) ck::fail("internal"); a = { npos, 0 }; }); break;
        case take: if (a.i != npos) with(a.i, [&](auto ic) { constexpr std::size_t I = decltype(ic)::value; using E = A<I>; int got = 0; if (call([&] { E e = gul14::get<I>(std::move(x)); got = El<E>::val(e); })) { if (got != a.v) ck::fail("%s: moved out %d", path.c_str(), got); a.v = after_move(a); } }); break;
        default: apply_copy(op, v, std::integral_constant<bool, all_copyable()>{});
        }
        ck::step();
    }
    /// After a failing swap, each variant may hold its old value, the new one or nothing
    void resync()
    {
        for (int k = 0; k < 2; ++k) {
            const std::size_t i = o[k].index();
            if (i != npos && i != m[0].i && i != m[1].i) ck::fail("%s: failing swap invents alternative %zu", path.c_str(), i);
            m[k].i = i; m[k].v = 0;
            if (i != npos) m[k].v = gul14::visit(Visitor1{}, o[k]).second;
        }
    }
    static std::vector<Op> setters(int t)
    {
        std::vector<Op> r; bool v = false;
        for (int i = 0; i < (int)N; ++i) r.push_back({ emp_val, t, i });
        for (int i = 0; i < (int)N && !v; ++i) if (alt((std::size_t)i).tracked) { r.push_back({ make_valueless, t, i }); v = true; }
        return r;
    }
    static std::vector<Op> ops()
    {
        std::vector<Op> r;
        for (int t = 0; t < 2; ++t) for (int c = 0; c < (all_copyable() ? ncodes : (int)first_copy); ++c) {
            const bool per_alt = c == emp_val || c == emp_def || c == asg_val_m || c == ctor_inplace || c == ctor_conv_m || c == asg_val_c || c == ctor_conv_c || c == make_valueless;
            for (int i = 0; i < (per_alt ? (int)N : 1); ++i) { if (c == make_valueless && (!alt((std::size_t)i).tracked)) continue; if (!Unique && (c == asg_val_m || c == ctor_conv_m || c == asg_val_c || c == ctor_conv_c)) continue; r.push_back({ c, t, i }); }
        }
        return r;
    }
};

template <typename HH>
void run(const std::vector<Op>& seq)
{
    const int len = (int)seq.size();
    if (!ck::mine()) return;
    std::string path; for (int i = 0; i < len; ++i) { auto& p = seq[(std::size_t)i]; path += std::string(i ? "; " : "") + "xy"[p.t] + " " + names[p.c] + "<" + std::to_string(p.i) + ">"; }
    ck::sample("%s", path.c_str());
    long pts; fault_k = -1;
    { HH h; h.path = path; for (int i = 0; i < len; ++i) h.apply(seq[(std::size_t)i]); pts = points; h.check(len <= 2); if (len <= 2) h.relations(); ck::state(); }
    if (tr::living()) ck::fail("%s: objects are leaked", path.c_str());
    for (long k = 0; k < pts; ++k) {
        { HH h; h.path = path + " (exception)"; for (int i = 0; i + 1 < len; ++i) h.apply(seq[(std::size_t)i]);
          fault_k = k; h.apply(seq[(std::size_t)len - 1]); fault_k = -1; ck::fault();
          if (!threw) ck::fail("%s: exception did not reach the caller", path.c_str());
          h.check(); h.relations(); h.apply({ emp_def, 0, 0 }); h.apply({ swap_mem, 1, 0 }); h.check(); ck::state(); }
        if (tr::living()) ck::fail("%s: objects are leaked after an exception", path.c_str());
    }
}

/// All sequences of operations up to a depth, from the initial state and from each state in which
/// both objects have been given a content of their own
template <typename HH>
void explore(int depth)
{
    const auto ops = HH::ops();
    std::vector<std::vector<Op>> prefixes(1);
    for (auto& a : HH::setters(0)) for (auto& b : HH::setters(1)) prefixes.push_back({ a, b });
    for (auto& prefix : prefixes) {
        const int d = prefix.empty() ? depth : depth - 1;
        for (int len = 1; len <= d; ++len) {
            std::vector<std::size_t> idx((std::size_t)len, 0);
            for (;;) {
                std::vector<Op> seq(prefix); for (auto i : idx) seq.push_back(ops[i]);
                run<HH>(seq);
                int k = len - 1; while (k >= 0 && ++idx[(std::size_t)k] == ops.size()) idx[(std::size_t)k--] = 0;
                if (k < 0) break;
            }
        }
    }
}
using CNM0 = tr::Obj<true, true, 0>; using CTM1 = tr::Obj<true, false, 1>; using CNN2 = tr::Obj<true, true, 2, true>; using MNM = tr::Obj<false, true, 0>; using MTM = tr::Obj<false, false, 1>;

DOMAIN(copyable) { explore<H<true, false, CNM0, CTM1, int>>(ck::tier(2, 3)); }
DOMAIN(nothrow_copyable) { explore<H<true, false, CTM1, CNN2>>(ck::tier(2, 3)); }
DOMAIN(move_only) { explore<H<true, false, MNM, MTM>>(ck::tier(2, 3)); }
DOMAIN(repeated_types) { explore<H<false, false, CNM0, int, CNM0, int>>(ck::tier(2, 3)); }
DOMAIN(trivial) { explore<H<true, true, int, char, double, gul14::monostate>>(ck::tier(2, 3)); }
DOMAIN(strings) { explore<H<true, true, gul14::monostate, std::string, int>>(ck::tier(2, 3)); }
DOMAIN(single) { explore<H<true, false, CTM1>>(ck::tier(3, 4)); }
DOMAIN(depth3) { explore<H<true, false, CNM0, CTM1>>(ck::tier(2, 4)); }

// Relations between all pairs of states (alternative, value, valueless)
DOMAIN(relations)
{
    using HH = H<true, false, CNM0, CTM1, int>;
    for (int i = -1; i < 3; ++i) for (int v = -2; v <= 2; ++v) for (int j = -1; j < 3; ++j) for (int w = -2; w <= 2; ++w) {
        if (!ck::mine()) continue;
        {
        HH h; h.path = "relations " + std::to_string(i) + ":" + std::to_string(v) + " " + std::to_string(j) + ":" + std::to_string(w);
        auto put = [&](int t, int i, int v) {
            auto& x = h.o[t]; auto& m = h.m[t];
            if (i < 0) { h.apply({ make_valueless, t, 0 }); return; }
            if (i == 0) x.emplace<0>(v); else if (i == 1) x.emplace<1>(v); else x.emplace<2>(v);
            m = { (std::size_t)i, v };
        };
        put(0, i, v); put(1, j, w);
        h.check(true); h.relations(); ck::state();
        }
        CHECK(tr::living() == 0, "leak");
    }
}

// Many alternatives and three variants at once
template <int K> struct Tag { int v; };
struct V3 { template <int A, int B, int C> int operator()(const Tag<A>& a, const Tag<B>& b, const Tag<C>& c) const { return ((A * 16 + a.v) * 256 + B * 16 + b.v) * 256 + C * 16 + c.v; } };
struct V1 { template <int A> int operator()(Tag<A>& a) const { return A * 16 + a.v; } };
DOMAIN(visit_three)
{
    using V = variant<Tag<0>, Tag<1>, Tag<2>, Tag<3>, Tag<4>>;
    auto mk = [](int i) { V v; switch (i) { case 0: v = Tag<0>{ 5 }; break; case 1: v = Tag<1>{ 6 }; break; case 2: v = Tag<2>{ 7 }; break; case 3: v = Tag<3>{ 8 }; break; default: v = Tag<4>{ 9 }; } return v; };
    for (int a = 0; a < 5; ++a) for (int b = 0; b < 5; ++b) for (int c = 0; c < 5; ++c) {
        if (!ck::mine()) continue;
        const V x = mk(a), y = mk(b), z = mk(c);
        CHECK(gul14::visit(V3{}, x, y, z) == ((a * 16 + a + 5) * 256 + b * 16 + b + 5) * 256 + c * 16 + c + 5, "visit of three variants %d %d %d", a, b, c);
        ck::state(); ck::step();
    }
    using W = variant<Tag<0>, Tag<1>, Tag<2>, Tag<3>, Tag<4>, Tag<5>, Tag<6>, Tag<7>, Tag<8>, Tag<9>, Tag<10>, Tag<11>>;
    auto at = [](auto ic, int i) { constexpr int I = decltype(ic)::value; if (i != I || !ck::mine()) return; W w; w = Tag<I>{ 3 }; W c(w); W d; d = c; CHECK(d.index() == I && gul14::visit(V1{}, d) == I * 16 + 3 && gul14::get<I>(d).v == 3 && gul14::get<Tag<I>>(d).v == 3, "alternative %d", I); W e; e.swap(d); CHECK(e.index() == I && d.index() == 0, "swap of alternative %d", I); ck::state(); };
    for (int i = 0; i < 12; ++i) { at(std::integral_constant<int, 0>{}, i); at(std::integral_constant<int, 1>{}, i); at(std::integral_constant<int, 2>{}, i); at(std::integral_constant<int, 3>{}, i); at(std::integral_constant<int, 4>{}, i); at(std::integral_constant<int, 5>{}, i); at(std::integral_constant<int, 6>{}, i); at(std::integral_constant<int, 7>{}, i); at(std::integral_constant<int, 8>{}, i); at(std::integral_constant<int, 9>{}, i); at(std::integral_constant<int, 10>{}, i); at(std::integral_constant<int, 11>{}, i); }
}

// Many alternatives (the dispatch is unrolled in blocks of 32)
template <int K> struct NTag { int v; NTag(int x) : v(x) {} NTag(const NTag& o) : v(o.v) {} NTag(NTag&& o) noexcept : v(o.v) { o.v = -1; } NTag& operator=(const NTag& o) { v = o.v; return *this; } NTag& operator=(NTag&& o) noexcept { v = o.v; o.v = -1; return *this; } ~NTag() { v = -2; }
    friend bool operator==(const NTag& a, const NTag& b) { return a.v == b.v; } friend bool operator<(const NTag& a, const NTag& b) { return a.v < b.v; } friend bool operator!=(const NTag& a, const NTag& b) { return a.v != b.v; } friend bool operator>(const NTag& a, const NTag& b) { return a.v > b.v; } friend bool operator<=(const NTag& a, const NTag& b) { return a.v <= b.v; } friend bool operator>=(const NTag& a, const NTag& b) { return a.v >= b.v; } };
struct VN { template <int A> int operator()(const NTag<A>& a) const { return A * 16 + a.v; } template <int A, int B> int operator()(const NTag<A>& a, const Tag<B>& b) const { return (A * 16 + a.v) * 256 + B * 16 + b.v; } template <int A, int B> int operator()(const Tag<B>& b, const NTag<A>& a) const { return (A * 16 + a.v) * 256 + B * 16 + b.v; } };
template <typename S> struct ManyT;
template <std::size_t... I> struct ManyT<std::index_sequence<I...>> { using V = variant<NTag<(int)I>...>; };
using Many = ManyT<std::make_index_sequence<67>>::V;
template <std::size_t I> void many_one()
{
    if (!ck::mine()) return;
    Many w(gul14::in_place_index_t<I>{}, 3); const Many c(w); Many d(gul14::in_place_index_t<(I + 1) % 67>{}, 5); d = c;
    auto holds = [](const Many& m, int v) { return m.index() == I && gul14::visit(VN{}, m) == (int)I * 16 + v && gul14::get<I>(m).v == v && gul14::get<NTag<(int)I>>(m).v == v && gul14::get_if<I>(&m) == &gul14::get<I>(m) && gul14::get_if<(I + 1) % 67>(&m) == nullptr && gul14::holds_alternative<NTag<(int)I>>(m); };
    CHECK(holds(w, 3) && holds(c, 3) && holds(d, 3), "alternative %zu of 67", I);
    CHECK(w == c && !(w != c) && !(w < c) && w <= c, "comparison of alternative %zu of 67", I);
    Many e(gul14::in_place_index_t<(I + 40) % 67>{}, 7); CHECK((e == d) == false && (e < d) == ((I + 40) % 67 < I), "comparison of alternatives %zu and %zu", (I + 40) % 67, I);
    e.swap(d); CHECK(holds(e, 3) && d.index() == (I + 40) % 67 && gul14::visit(VN{}, d) == (int)((I + 40) % 67) * 16 + 7, "swap of alternative %zu of 67", I);
    Many f(std::move(e)); CHECK(holds(f, 3) && gul14::get<I>(e).v == -1, "move of alternative %zu of 67", I);
    Many g(gul14::in_place_index_t<I>{}, 4); g = std::move(f); CHECK(holds(g, 3) && gul14::get<I>(f).v == -1, "move assignment of alternative %zu of 67", I);
    Many h(gul14::in_place_index_t<I>{}, 9); h.swap(g); CHECK(holds(g, 9) && holds(h, 3) && w < g && w != g, "swap of alternative %zu of 67", I);
    variant<Tag<0>, Tag<1>> two; if (I % 2) two = Tag<1>{ 6 }; else two = Tag<0>{ 6 };
    CHECK(gul14::visit(VN{}, h, two) == (int)(I * 16 + 3) * 256 + (int)(I % 2) * 16 + 6 && gul14::visit(VN{}, two, h) == (int)(I * 16 + 3) * 256 + (int)(I % 2) * 16 + 6, "visit of alternative %zu together with another variant", I);
    h.emplace<I>(2); CHECK(holds(h, 2), "emplace of alternative %zu of 67", I);
    ck::state(); ck::step();
}
template <std::size_t... I> void many_all(std::index_sequence<I...>) { int x[] = { (many_one<I>(), 0)... }; (void)x; }
DOMAIN(many_alternatives) { many_all(std::make_index_sequence<67>{}); }

// Which alternative a converting constructor or assignment selects
struct FromInt { int v; FromInt(int x) : v(x) {} };
DOMAIN(selection)
{
    if (ck::mine()) { variant<int, std::string> v("abc"); CHECK(v.index() == 1 && gul14::get<1>(v) == "abc", "string literal selects a wrong alternative"); v = 3; CHECK(v.index() == 0, "int"); v = "x"; CHECK(v.index() == 1, "assignment of a literal"); ck::state(); }
    if (ck::mine()) { variant<bool, std::string> v("abc"); CHECK(v.index() == 1, "string literal is converted to bool"); v = true; CHECK(v.index() == 0, "bool"); ck::state(); }
    if (ck::mine()) { variant<float, long> v(1); CHECK(v.index() == 1, "int is narrowed to float instead of selecting long"); v = 1.0f; CHECK(v.index() == 0, "float"); ck::state(); }
    if (ck::mine()) { variant<char, double> v(1.5); CHECK(v.index() == 1, "double"); v = 'c'; CHECK(v.index() == 0, "char"); ck::state(); }
    if (ck::mine()) { variant<std::string, FromInt> v(7); CHECK(v.index() == 1 && gul14::get<1>(v).v == 7, "implicit conversion"); ck::state(); }
    if (ck::mine()) { variant<int, unsigned> v(7u); CHECK(v.index() == 1, "unsigned"); v = 7; CHECK(v.index() == 0, "int"); ck::state(); }
    if (ck::mine()) { variant<const char*, std::string> v(std::string("s")); CHECK(v.index() == 1, "string"); v = "lit"; CHECK(v.index() == 0, "pointer"); ck::state(); }
    if (ck::mine()) { variant<std::vector<int>, std::string> v(gul14::in_place_index_t<0>{}, { 1, 2, 3 }); CHECK(gul14::get<0>(v).size() == 3, "initializer list"); v.emplace<0>({ 4, 5 }); CHECK(gul14::get<0>(v).size() == 2, "emplace with initializer list"); v.emplace<std::string>(3u, 'x'); CHECK(gul14::get<std::string>(v) == "xxx", "typed emplace"); variant<std::vector<int>, std::string> w(gul14::in_place_type_t<std::string>{}, "abc"); CHECK(w.index() == 1, "in_place_type"); ck::state(); }
}
