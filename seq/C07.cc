// C07: finalizers against an ownership model: all histories of creating, moving, assigning and
// destroying finalizers over three slots, with scope exits by return and by exception.
#include <functional>
#include <memory>
#include "track.h"
#include "gul14/finalizer.h"

static std::vector<int> runs; // log of executed actions

/// Action whose copies are tracked
template <int> struct Act
{
    tr::Obj<true, true> id;
    explicit Act(int i) : id(i) {}
    void operator()() { runs.push_back(id.get()); }
};
template <int> struct MoveAct
{
    tr::Obj<false, true> id; std::unique_ptr<int> p;
    explicit MoveAct(int i) : id(i), p(new int(i)) {}
    void operator()() { runs.push_back(id.get() == *p ? *p : -1); }
};
static void f0() { runs.push_back(0); } static void f1() { runs.push_back(1); } static void f2() { runs.push_back(2); } static void f3() { runs.push_back(3); } static void f4() { runs.push_back(4); } static void f5() { runs.push_back(5); } static void f6() { runs.push_back(6); } static void f7() { runs.push_back(7); }
using Ptr = void (*)();
static const Ptr ptrs[] = { f0, f1, f2, f3, f4, f5, f6, f7 };

template <typename F> struct Mk { static constexpr bool copies = true, tracked = true; static F make(int i) { return F(i); } static bool intact(const F& f, int i) { return f.id.get() == i; } };
template <int N> struct Mk<MoveAct<N>> { static constexpr bool copies = false, tracked = true; static MoveAct<N> make(int i) { return MoveAct<N>(i); } static bool intact(const MoveAct<N>&, int) { return true; } };
template <> struct Mk<Ptr> { static constexpr bool copies = true, tracked = false; static Ptr make(int i) { return ptrs[i]; } static bool intact(Ptr f, int i) { return f == ptrs[i]; } };
template <> struct Mk<std::function<void()>> { static constexpr bool copies = true, tracked = true; static std::function<void()> make(int i) { return Act<0>(i); } static bool intact(const std::function<void()>& f, int) { return static_cast<bool>(f); } };

enum Code { create, create_lvalue, create_clvalue, create_direct, mctor, masg, kill_, exit_return, exit_throw };
static const char* const names[] = { "finally(temporary)", "finally(lvalue)", "finally(const lvalue)", "FinalAction(f)", "move construct", "move assign", "destroy", "move to a scope that is left normally", "move to a scope that is left by an exception" };
struct Op { int c, a, b; };

template <typename F>
struct H
{
    using FA = gul14::FinalAction<F>;
    static constexpr int K = 3;
    struct Slot { alignas(FA) char buf[sizeof(FA)]; FA* p = nullptr; int owns = -1; } s[K];
    std::vector<int> want; int next = 0; std::string path;

    void lv(Slot& x, int id, bool is_const, std::true_type)
    {
        F f = Mk<F>::make(id); const F& cf = f;
        if (is_const) x.p = new (x.buf) FA(gul14::finally(cf)); else x.p = new (x.buf) FA(gul14::finally(f));
        if (!Mk<F>::intact(f, id)) ck::fail("%s: finally() changes a function object that is passed as an lvalue", path.c_str());
    }
    void lv(Slot&, int, bool, std::false_type) {}
    bool enabled(const Op& o) const
    {
        switch (o.c) {
        case create: case create_direct: return !s[o.a].p;
        case create_lvalue: case create_clvalue: return Mk<F>::copies && !s[o.a].p;
        case mctor: return s[o.a].p && !s[o.b].p;
        case masg: return s[o.a].p && s[o.b].p;
        default: return s[o.a].p != nullptr;
        }
    }
    static int nested_return(FA&& f, int how) { auto local = std::move(f); if (how == 1) throw 5; return 3; }
    void apply(const Op& o)
    {
        Slot& x = s[o.a];
        switch (o.c) {
        case create: { const int id = next++; x.p = new (x.buf) FA(gul14::finally(Mk<F>::make(id))); x.owns = id; break; }
        case create_lvalue: case create_clvalue: { const int id = next++; lv(x, id, o.c == create_clvalue, std::integral_constant<bool, Mk<F>::copies>{}); x.owns = id; break; }
        case create_direct: { const int id = next++; x.p = new (x.buf) FA(Mk<F>::make(id)); x.owns = id; break; }
        case mctor: { Slot& y = s[o.b]; y.p = new (y.buf) FA(std::move(*x.p)); y.owns = x.owns; x.owns = -1; break; }
        case masg: { Slot& y = s[o.b]; FA& r = (*y.p = std::move(*x.p)); if (&r != y.p) ck::fail("operator= returns something else"); if (o.a != o.b) { y.owns = x.owns; x.owns = -1; } break; } // the action of y is discarded
        case kill_: if (x.owns >= 0) want.push_back(x.owns); x.p->~FA(); x.p = nullptr; x.owns = -1; break;
        case exit_return: case exit_throw: {
            if (x.owns >= 0) want.push_back(x.owns);
            x.owns = -1; bool t = false;
            try { nested_return(std::move(*x.p), o.c == exit_throw); } catch (int) { t = true; }
            if (t != (o.c == exit_throw)) ck::fail("internal");
            break; }
        }
        ck::step();
        if (runs != want) ck::fail("%s: %zu actions have been run instead of %zu (last %d)", path.c_str(), runs.size(), want.size(), runs.empty() ? -1 : runs.back());
        int n = 0; for (auto& y : s) if (y.p) ++n;
        if (Mk<F>::tracked && !std::is_same<F, std::function<void()>>::value && tr::living() != n) ck::fail("%s: %d function objects are alive instead of %d", path.c_str(), tr::living(), n);
    }
};

template <typename F>
void explore(int depth)
{
    using HH = H<F>;
    std::vector<Op> all;
    for (int a = 0; a < HH::K; ++a) {
        for (int c : { create, create_lvalue, create_clvalue, create_direct, kill_, exit_return, exit_throw }) all.push_back({ c, a, 0 });
        for (int b = 0; b < HH::K; ++b) { if (b != a) all.push_back({ mctor, a, b }); all.push_back({ masg, a, b }); }
    }
    // depth-first over enabled operations; every prefix is replayed from the start
    std::vector<std::size_t> idx;
    std::function<void()> rec = [&] {
        auto replay = [&](HH& h, bool named) { if (named) for (std::size_t i = 0; i < idx.size(); ++i) h.path += std::string(i ? "; " : "") + names[all[idx[i]].c] + " " + std::to_string(all[idx[i]].a) + " " + std::to_string(all[idx[i]].b); for (auto i : idx) h.apply(all[i]); };
        auto finish = [&](HH& h) { for (int k = 0; k < HH::K; ++k) if (h.s[k].p) h.apply({ kill_, k, 0 }); runs.clear(); };
        std::vector<std::size_t> en;
        {
            runs.clear(); HH h; const long live0 = ck::alloc().live; (void)live0;
            replay(h, true);
            for (std::size_t i = 0; i < all.size(); ++i) if (h.enabled(all[i])) en.push_back(i);
            ck::sample("%s", h.path.c_str());
            finish(h); ck::state();
            if (tr::living()) ck::fail("%s: function objects are leaked", h.path.c_str());
        }
        if ((int)idx.size() == depth) return;
        for (auto i : en) { idx.push_back(i); if (idx.size() != 2 || ck::mine()) rec(); idx.pop_back(); }
    };
    rec();
}
DOMAIN(tracked_functor) { explore<Act<0>>(ck::tier(5, 6)); }
DOMAIN(move_only_functor) { explore<MoveAct<0>>(ck::tier(5, 6)); }
DOMAIN(function_pointer) { explore<Ptr>(ck::tier(5, 6)); }
DOMAIN(std_function) { explore<std::function<void()>>(ck::tier(4, 5)); }

// Scope exits in real functions: return at each of several places, exceptions, nesting, order
static int scopes(int where, bool boom)
{
    auto a = gul14::finally([] { runs.push_back(1); });
    if (where == 0) { if (boom) throw 1; return 0; }
    auto b = gul14::finally(f2);
    for (int i = 0; i < 3; ++i) {
        auto c = gul14::finally([i, v = std::vector<int>(3)] { runs.push_back(10 + i); });
        if (where == 1 && i == 1) { if (boom) throw 1; return 1; }
        if (where == 2 && i == 0) break;
        if (where == 3) continue;
    }
    auto d = std::move(a);
    if (where == 4) { if (boom) throw 1; return 4; }
    auto e = gul14::finally(std::bind([](int x) { runs.push_back(x); }, 20));
    runs.push_back(99);
    return 5;
}
DOMAIN(scopes)
{
    static const std::vector<int> want[] = { { 1 }, { 10, 11, 2, 1 }, { 10, 99, 20, 1, 2 }, { 10, 11, 12, 99, 20, 1, 2 }, { 10, 11, 12, 1, 2 } };
    for (int w = 0; w < 5; ++w) for (int boom = 0; boom < 2; ++boom) {
        if (!ck::mine()) continue;
        runs.clear(); bool t = false;
        try { scopes(w, boom == 1); } catch (int) { t = true; }
        CHECK(t == (boom && w != 2 && w != 3), "internal");
        CHECK(runs == want[w], "exit %d%s runs %zu actions", w, boom ? " by exception" : "", runs.size());
        ck::state(); ck::step();
    }
    runs.clear();
}
// The same in every context: exception handlers, destructors and other actions, with and without an exception in flight, to a depth of 3
static void in_context(const int* ctx, int depth, const std::function<void()>& body)
{
    if (depth == 0) { body(); return; }
    auto inner = [&] { in_context(ctx + 1, depth - 1, body); };
    struct Dtor { std::function<void()> f; ~Dtor() { f(); } };
    switch (*ctx) {
    case 0: inner(); break;
    case 1: try { throw std::runtime_error("x"); } catch (const std::exception&) { inner(); } break;
    case 2: { Dtor d{ inner }; } break;
    case 3: try { Dtor d{ inner }; throw 7; } catch (int) {} break;
    case 4: { auto f = gul14::finally(inner); } break;
    case 5: try { auto f = gul14::finally(inner); throw 7; } catch (int) {} break;
    case 6: { auto p = std::make_exception_ptr(3); try { std::rethrow_exception(p); } catch (...) { auto q = std::current_exception(); inner(); } } break;
    case 7: { std::thread t(inner); t.join(); } break;
    }
}
DOMAIN(contexts)
{
    static const std::vector<int> want[] = { { 1 }, { 10, 11, 2, 1 }, { 10, 99, 20, 1, 2 }, { 10, 11, 12, 99, 20, 1, 2 }, { 10, 11, 12, 1, 2 } };
    for (int code = 0; code < 512; ++code) for (int w = 0; w < 5; ++w) for (int boom = 0; boom < 2; ++boom) {
        if (!ck::mine()) continue;
        const int ctx[3] = { code & 7, code >> 3 & 7, code >> 6 & 7 };
        bool done = false;
        in_context(ctx, 3, [&] {
            runs.clear(); bool t = false;
            try { scopes(w, boom == 1); } catch (int) { t = true; }
            CHECK(t == (boom && w != 2 && w != 3), "internal");
            CHECK(runs == want[w], "exit %d%s in context %d/%d/%d runs %zu actions", w, boom ? " by exception" : "", ctx[0], ctx[1], ctx[2], runs.size());
            done = true;
        });
        CHECK(done, "the action that contains the body was not called in context %d/%d/%d", ctx[0], ctx[1], ctx[2]);
        runs.clear();
        ck::state(); ck::step();
    }
}
