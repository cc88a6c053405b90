// C04: gul14::optional against an explicit model of the standard optional: all operation
// sequences up to a depth over two optionals, with every throwing point of the last operation.
#include <functional>
#include <memory>
#include <string>
#include <utility>
#include "track.h"
#include "gul14/optional.h"

using gul14::optional; using gul14::nullopt;
using CopyNM = tr::Obj<true, true>; using CopyTM = tr::Obj<true, false>; using MoveNM = tr::Obj<false, true>; using MoveTM = tr::Obj<false, false>;

template <typename E> struct El { static constexpr bool tracked = true; static E make(int i) { return E(i); } static int val(const E& e) { return e.get(); } static constexpr bool moves = true; };
template <> struct El<int> { static constexpr bool tracked = false; static int make(int i) { return i; } static int val(int e) { return e; } static constexpr bool moves = false; };
template <> struct El<std::string> { static constexpr bool tracked = false; static constexpr bool moves = true; static std::string make(int i) { return i == 0 ? std::string() : "quite a long string without short buffer " + std::to_string(i); } static int val(const std::string& s) { return s.empty() ? 0 : atoi(s.c_str() + 41); } };

struct Mod { bool has = false; int v = 0; bool operator==(const Mod& o) const { return has == o.has && (!has || v == o.v); } };

enum Code { reset, null, braces, asg_m, emp_m, emp_0, asg_om, swap_mem, swap_free, swap_self, ctor_m, val_or_r, take_star, take_value, inplace, mk_m, self_move, value_throw,
    first_copy, asg_c = first_copy, asg_oc, asg_self, ctor_c, ctor_val, val_or_l, mk_c, emp_c, ncodes };
static const char* const names[] = { "reset", "= nullopt", "= {}", "= T&&", "emplace(T&&)", "emplace()", "= move(other)", "swap(other)", "free swap", "swap(self)", "move construct", "value_or(rvalue)", "move out of *", "move out of value()", "in-place construct", "make_optional(T&&)", "move assign from temporary", "value()",
    "= const T&", "= other", "= self", "copy construct", "construct from const T&", "value_or(lvalue)", "make_optional(const T&)", "emplace(const T&)" };
struct Op { int c, t; }; // t: target (0: x, 1: y)

static long fault_k = -1; static bool threw; static long points;
template <typename F> bool call(F f)
{
    threw = false; const long p0 = tr::T().points; tr::arm(fault_k);
    try { f(); } catch (const tr::Boom&) { threw = true; }
    tr::disarm(); points = tr::T().points - p0; return !threw;
}

template <typename E>
struct H
{
    using O = optional<E>; using R = El<E>; using Cp = std::integral_constant<bool, std::is_copy_constructible<E>::value>;
    static constexpr int mv(int v) { return R::tracked ? tr::moved : R::moves ? 0 : v; }
    O o[2]; Mod m[2]; int fresh = 1; std::string path;

    static int codes() { return Cp::value ? ncodes : first_copy; }
    void obs(const O& x, const Mod& w, const char* who)
    {
        if (x.has_value() != w.has || static_cast<bool>(x) != w.has) ck::fail("%s: %s is %sengaged", path.c_str(), who, w.has ? "not " : "");
        if (w.has) {
            O& q = const_cast<O&>(x);
            if (R::val(*x) != w.v) ck::fail("%s: %s holds %d instead of %d", path.c_str(), who, R::val(*x), w.v);
            const E* p = &*x;
            if (&x.value() != p || &q.value() != p || x.operator->() != p || q.operator->() != p || &*q != p) ck::fail("%s: the accessors of %s reach different objects", path.c_str(), who);
            if ((const char*)p < (const char*)&x || (const char*)(p + 1) > (const char*)(&x + 1)) ck::fail("%s: the value of %s is not stored inside", path.c_str(), who);
            E&& r = std::move(q).value(); E&& r2 = *std::move(q); if (&r != p || &r2 != p) ck::fail("%s: rvalue accessors", path.c_str());
        }
        if ((x == nullopt) == w.has || (nullopt == x) == w.has || (x != nullopt) != w.has || (nullopt != x) != w.has || (x < nullopt) || (nullopt < x) != w.has || (x <= nullopt) == w.has || !(nullopt <= x) || (x > nullopt) != w.has || (nullopt > x) || !(x >= nullopt) || (nullopt >= x) == w.has)
            ck::fail("%s: comparison of %s with nullopt is wrong", path.c_str(), who);
    }
    void check()
    {
        obs(o[0], m[0], "x"); obs(o[1], m[1], "y");
        const int n = (m[0].has ? 1 : 0) + (m[1].has ? 1 : 0);
        if (R::tracked && tr::living() != n) ck::fail("%s: %d objects are alive instead of %d", path.c_str(), tr::living(), n);
    }
    static long key(const Mod& a) { return a.has ? a.v : -1000000; }
    void relations()
    {
        const long a = key(m[0]), b = key(m[1]); const O &x = o[0], &y = o[1];
        if ((x == y) != (a == b) || (x < y) != (a < b) || (x != y) != (a != b)) ck::fail("%s: comparison of two optionals is wrong", path.c_str());
        if ((x > y) != (a > b) || (x <= y) != (a <= b) || (x >= y) != (a >= b)) ck::fail("%s: relation of two optionals is wrong", path.c_str());
    }
    void relations_value(std::false_type) {}
    void relations_value(std::true_type)
    {
        for (int k = 0; k < 2; ++k) for (int v : { -5, 0, 1, 2, 3, 100 }) {
            const O& x = o[k]; const E e = R::make(v); const long a = key(m[k]), b = R::val(e);
            if (R::tracked || !m[k].has) {
            if ((x == e) != (a == b) || (x != e) != (a != b) || (x < e) != (a < b) || (x <= e) != (a <= b) || (x > e) != (a > b) || (x >= e) != (a >= b)) ck::fail("%s: comparison of optional with %d is wrong", path.c_str(), v);
            if ((e == x) != (a == b) || (e != x) != (a != b) || (e < x) != (b < a) || (e <= x) != (b <= a) || (e > x) != (b > a) || (e >= x) != (b >= a)) ck::fail("%s: comparison of %d with optional is wrong", path.c_str(), v);
            } else if ((x == e) != (a == b) || (e == x) != (a == b) || (x != e) != (a != b) || (e != x) != (a != b)) ck::fail("%s: equality of optional and %d is wrong", path.c_str(), v);
        }
    }
    void apply_copy(const Op&, int, std::false_type) {}
    void apply_copy(const Op& op, int v, std::true_type)
    {
        const int t = op.t, u = 1 - t; O &x = o[t], &y = o[u]; Mod &a = m[t], &b = m[u]; const O& cy = y; const O& cx = x;
        switch (op.c) {
        case asg_c: { const E e = R::make(v); if (call([&] { x = e; })) { a = { true, v }; if (R::val(e) != v) ck::fail("assignment changed its source"); } break; }
        case asg_oc: if (call([&] { O& r = (x = cy); if (&r != &x) ck::fail("operator= returns something else"); })) a = b; break;
        case asg_self: call([&] { x = cx; }); break;
        case ctor_c: { alignas(O) static char buf[sizeof(O)]; O* p = nullptr; if (call([&] { p = new (buf) O(cx); })) { obs(*p, a, "copy"); p->~O(); } break; }
        case ctor_val: { const E e = R::make(v); alignas(O) static char buf[sizeof(O)]; O* p = nullptr; if (call([&] { p = new (buf) O(e); })) { obs(*p, { true, v }, "optional constructed from value"); p->~O(); } break; }
        case val_or_l: { const E e = R::make(v); int got = 0; if (call([&] { E r = cx.value_or(e); got = R::val(r); })) { if (got != (a.has ? a.v : v)) ck::fail("%s: value_or returns %d", path.c_str(), got); } break; }
        case mk_c: { const E e = R::make(v); if (call([&] { auto q = gul14::make_optional(e); obs(q, { true, v }, "make_optional"); })) {} break; }
        case emp_c: { const E e = R::make(v); if (call([&] { x.emplace(e); })) a = { true, v }; else a = {}; break; }
        }
    }
    /// Executes one operation; updates the model also in the case of an exception
    void apply(const Op& op)
    {
        const int v = fresh; fresh = fresh == 1 ? 2 : 1; points = 0; threw = false;
        const int t = op.t, u = 1 - t; O &x = o[t], &y = o[u]; Mod &a = m[t], &b = m[u];
        switch (op.c) {
        case reset: if (call([&] { x.reset(); })) a = {}; break;
        case null: if (call([&] { x = nullopt; })) a = {}; break;
        case braces: if (call([&] { x = {}; })) a = {}; break;
        case asg_m: { E e = R::make(v); if (call([&] { x = std::move(e); })) a = { true, v }; break; }
        case emp_m: { E e = R::make(v); if (call([&] { x.emplace(std::move(e)); })) a = { true, v }; else a = {}; break; }
        case emp_0: if (call([&] { x.emplace(); })) a = { true, 0 }; else a = {}; break;
        case asg_om: if (call([&] { O& r = (x = std::move(y)); if (&r != &x) ck::fail("operator= returns something else"); })) { a = b; if (b.has) b.v = mv(b.v); } break;
        case swap_mem: case swap_free:
            if (call([&] { if (op.c == swap_mem) x.swap(y); else { using std::swap; swap(x, y); } })) std::swap(a, b);
            else { // engaged states stay; values may have been moved around if both are engaged
                if (a.has && b.has) { if (x.has_value() != true || y.has_value() != true) ck::fail("%s: failing swap disengages", path.c_str()); a.v = R::val(*x); b.v = R::val(*y); }
            }
            break;
        case swap_self: if (!call([&] { x.swap(x); })) { if (a.has) a.v = R::val(*x); } break;
        case ctor_m: { alignas(O) static char buf[sizeof(O)]; O* p = nullptr; if (call([&] { p = new (buf) O(std::move(x)); })) { obs(*p, a, "move-constructed optional"); if (a.has) a.v = mv(a.v); p->~O(); } break; }
        case val_or_r: { E e = R::make(v); int got = 0; if (call([&] { E r = std::move(x).value_or(std::move(e)); got = R::val(r); })) { if (got != (a.has ? a.v : v)) ck::fail("%s: value_or returns %d", path.c_str(), got); if (a.has) a.v = mv(a.v); } else if (a.has) a.v = R::val(*x); break; }
        case take_star: if (a.has) { int got = 0; if (call([&] { E r = *std::move(x); got = R::val(r); })) { if (got != a.v) ck::fail("%s: moved out %d", path.c_str(), got); a.v = mv(a.v); } } break;
        case take_value: if (a.has) { int got = 0; if (call([&] { E r = std::move(x).value(); got = R::val(r); })) { if (got != a.v) ck::fail("%s: moved out %d", path.c_str(), got); a.v = mv(a.v); } } break;
        case inplace: { E e = R::make(v); if (call([&] { O q(gul14::in_place, std::move(e)); obs(q, { true, v }, "in-place constructed optional"); O d(gul14::in_place); if (R::val(*d) != 0) ck::fail("in-place default construction"); })) {} break; }
        case mk_m: { E e = R::make(v); if (call([&] { auto q = gul14::make_optional(std::move(e)); obs(q, { true, v }, "make_optional"); })) {} break; }
        case self_move: { E e = R::make(v); if (call([&] { x = O(std::move(e)); })) a = { true, v }; break; }
        case value_throw: if (!a.has) {
            int n = 0; const O& cx = x;
            try { x.value(); } catch (const gul14::bad_optional_access&) { ++n; }
            try { cx.value(); } catch (const std::logic_error&) { ++n; }
            try { std::move(x).value(); } catch (const gul14::bad_optional_access&) { ++n; }
            if (n != 3) ck::fail("%s: value() of an empty optional does not throw", path.c_str());
        } points = 0; threw = false; break;
        default: apply_copy(op, v, Cp{});
        }
        ck::step();
    }
};

template <typename E>
void explore(int depth)
{
    std::vector<Op> ops; for (int c = 0; c < H<E>::codes(); ++c) for (int t = 0; t < 2; ++t) ops.push_back({ c, t });
    std::vector<std::size_t> idx((std::size_t)depth, 0);
    for (int len = 1; len <= depth; ++len) {
        std::fill(idx.begin(), idx.end(), 0);
        for (;;) {
            if (ck::mine()) {
                std::string path; for (int i = 0; i < len; ++i) path += std::string(i ? "; " : "") + "xy"[ops[idx[(std::size_t)i]].t] + " " + names[ops[idx[(std::size_t)i]].c];
                ck::sample("%s", path.c_str());
                long pts;
                fault_k = -1;
                { H<E> h; h.path = path; for (int i = 0; i < len; ++i) h.apply(ops[idx[(std::size_t)i]]); pts = points; h.check(); if (len <= 2) { h.relations(); h.relations_value(typename H<E>::Cp{}); } ck::state(); }
                if (tr::living()) ck::fail("%s: objects are leaked", path.c_str());
                for (long k = 0; k < pts; ++k) {
                    { H<E> h; h.path = path + " (exception)"; for (int i = 0; i + 1 < len; ++i) h.apply(ops[idx[(std::size_t)i]]);
                      fault_k = k; h.apply(ops[idx[(std::size_t)len - 1]]); fault_k = -1; ck::fault();
                      if (!threw) ck::fail("%s: exception did not reach the caller", path.c_str());
                      h.check(); h.apply({ emp_m, 0 }); h.apply({ swap_mem, 1 }); h.check(); ck::state(); }
                    if (tr::living()) ck::fail("%s: objects are leaked after an exception", path.c_str());
                }
            }
            int k = len - 1; while (k >= 0 && ++idx[(std::size_t)k] == ops.size()) idx[(std::size_t)k--] = 0;
            if (k < 0) break;
        }
    }
}
DOMAIN(copyable_nothrow_move) { explore<CopyNM>(ck::tier(3, 4)); }
DOMAIN(copyable_throwing_move) { explore<CopyTM>(ck::tier(3, 4)); }
DOMAIN(move_only_nothrow) { explore<MoveNM>(ck::tier(3, 4)); }
DOMAIN(move_only_throwing) { explore<MoveTM>(ck::tier(3, 4)); }
DOMAIN(integer) { explore<int>(3); }
DOMAIN(string) { explore<std::string>(ck::tier(2, 3)); }

// Relations for all pairs of engaged/empty values, mixed with the value type
DOMAIN(relations)
{
    for (int a = -3; a <= 3; ++a) for (int b = -3; b <= 3; ++b) {
        if (!ck::mine()) continue;
        optional<int> x, y; if (a > -3) x = a; if (b > -3) y = b;
        const long p = a > -3 ? a : -1000, q = b > -3 ? b : -1000;
        CHECK((x == y) == (p == q) && (x != y) == (p != q) && (x < y) == (p < q) && (x > y) == (p > q) && (x <= y) == (p <= q) && (x >= y) == (p >= q), "relation of %d and %d", a, b);
        CHECK((x == b) == (p == b) && (x != b) == (p != b) && (x < b) == (p < b) && (x > b) == (p > b) && (x <= b) == (p <= b) && (x >= b) == (p >= b), "relation of optional %d and value %d", a, b);
        CHECK((b == x) == (b == p) && (b != x) == (b != p) && (b < x) == (b < p) && (b > x) == (b > p) && (b <= x) == (b <= p) && (b >= x) == (b >= p), "relation of value %d and optional %d", b, a);
        if (a > -3 && b > -3) {
            int u = a, w = b; optional<int&> r(u), s(w), e; optional<const int&> c(u), d;
            CHECK((r == w) == (a == b) && (w == r) == (a == b) && (r != w) == (a != b) && (w != r) == (a != b) && (r < w) == (a < b) && (w < r) == (b < a) && (r > w) == (a > b) && (w > r) == (b > a) && (r <= w) == (a <= b) && (w <= r) == (b <= a) && (r >= w) == (a >= b) && (w >= r) == (b >= a), "relation of reference %d and %d", a, b);
            CHECK((c == w) == (a == b) && (w == c) == (a == b) && (c != w) == (a != b) && (w != c) == (a != b) && (c < w) == (a < b) && (w < c) == (b < a) && (c > w) == (a > b) && (w > c) == (b > a) && (c <= w) == (a <= b) && (w <= c) == (b <= a) && (c >= w) == (a >= b) && (w >= c) == (b >= a), "relation of const reference %d and %d", a, b);
            CHECK(!(e == w) && !(w == e) && e != w && w != e && e < w && !(w < e) && !(e > w) && w > e && e <= w && !(w <= e) && !(e >= w) && w >= e, "relation of empty reference and value");
            CHECK(!(d == w) && !(w == d) && d != w && w != d && d < w && !(w < d) && !(d > w) && w > d && d <= w && !(w <= d) && !(d >= w) && w >= d, "relation of empty const reference and value");
            CHECK((r == s) == (a == b) && (r < s) == (a < b) && e < r && !(r < e) && r != e && !(r == e) && r > e && e <= r && r >= e, "relation of references");
        }
        std::hash<optional<int>> h; if (x == y) CHECK(h(x) == h(y), "equal optionals have different hash values");
        if (a > -3) CHECK(h(x) == std::hash<int>{}(a), "hash of an engaged optional is not that of its value");
        const optional<const int> k(a); CHECK(*k == a && k.value() == a && k.has_value(), "optional<const int>");
        ck::state(); ck::step();
    }
}

// References
DOMAIN(references)
{
    // all sequences of 4 operations over two optional references and two targets
    const int nops = 12; int seq[4];
    for (seq[0] = 0; seq[0] < nops; ++seq[0]) for (seq[1] = 0; seq[1] < nops; ++seq[1]) for (seq[2] = 0; seq[2] < nops; ++seq[2]) for (seq[3] = 0; seq[3] < nops; ++seq[3]) {
        if (!ck::mine()) continue;
        int t[2] = { 10, 20 }; optional<int&> x, y; int *mx = nullptr, *my = nullptr; int mt[2] = { 10, 20 };
        for (int k = 0; k < 4; ++k) {
            switch (seq[k]) {
            case 0: x.emplace(t[0]); mx = &t[0]; break;
            case 1: x = optional<int&>(t[1]); mx = &t[1]; break;
            case 2: x = nullopt; mx = nullptr; break;
            case 3: x.reset(); mx = nullptr; break;
            case 4: x = y; mx = my; break;
            case 5: x.swap(y); std::swap(mx, my); break;
            case 6: { using std::swap; swap(y, x); std::swap(mx, my); break; }
            case 7: { optional<int&> z(x); y = std::move(z); my = mx; break; }
            case 8: if (mx) { *x += 1; ++mt[mx == &t[1]]; } break;
            case 9: y = gul14::make_optional(std::ref(t[0])); my = &t[0]; break;
            case 10: { optional<int&> z(gul14::in_place, t[1]); y = z; my = &t[1]; break; }
            case 11: { const optional<int&>& c = x; x = c; break; }
            }
            CHECK(x.has_value() == (mx != nullptr) && y.has_value() == (my != nullptr) && bool(x) == (mx != nullptr), "engaged state is wrong");
            CHECK(t[0] == mt[0] && t[1] == mt[1], "an operation changed the referenced object");
            if (mx) CHECK(&*x == mx && &x.value() == mx && x.operator->() == mx && x.value_or(5) == *mx, "x refers to a wrong object"); else CHECK(x.value_or(5) == 5, "value_or");
            if (my) CHECK(&*y == my && &y.value() == my, "y refers to a wrong object");
            if (!mx && k == 3) { bool th = false; try { x.value(); } catch (const gul14::bad_optional_access&) { th = true; } CHECK(th, "value() of an empty reference does not throw"); }
            ck::step();
        }
        ck::state();
    }
}
