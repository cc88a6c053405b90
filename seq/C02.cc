// C02: SmallVector never leaks, double-destroys or touches dead elements, also if operations throw.
#include "vec.h"
using namespace vec;

// Operations that do not ask for more capacity must not allocate while everything fits inside.
static bool allocates_by_itself(int c) { return c == at_all; } // builds an exception text

template <typename E, std::size_t N>
void one(const Spec& sa, const Spec& sb, const Op& op, const Op* op2)
{
    using HH = H<E, N>;
    auto ctx = [&] { return "capacity " + std::to_string(N) + ", a: " + std::to_string(sa.size) + "/" + std::to_string(sa.cap) + ", b: " + std::to_string(sb.size) + "/" + std::to_string(sb.cap) + ", " + show(op) + (op2 ? " then " + show(*op2) : std::string()); };
    // 1. without faults: lifetimes, storage
    F() = Fault{};
    long points, allocs; bool fits;
    {
        const long live0 = ck::alloc().live;
        {
            HH h(sa, sb);
            if (op2) h.apply(*op2);
            const bool big0 = h.big || h.a.capacity() > N || h.b.capacity() > N;
            h.apply(op);
            points = F().points; allocs = F().allocs;
            h.check();
            const int want = op.c == ctor_n || op.c == ctor_nv || op.c == ctor_range || op.c == ctor_input || op.c == ctor_il ? op.x : 0;
            fits = !big0 && !h.big && want <= (int)N && h.ma.size() <= N && h.mb.size() <= N;
            if (fits && Tr<E>::tracked && !allocates_by_itself(op.c) && F().allocs) ck::fail("heap memory is used although the inline capacity is sufficient: %s", ctx().c_str());
        }
        if (ck::alloc().live != live0) ck::fail("%ld blocks of memory are leaked by %s", ck::alloc().live - live0, ctx().c_str());
        if (tr::living()) ck::fail("%d elements are leaked by %s", tr::living(), ctx().c_str());
        ck::state();
    }
    if (op.c == at_all) return;
    // Copies of vectors with nothrow-copyable elements are declared noexcept
    const bool nothrow_copy = std::is_nothrow_copy_constructible<E>::value;
    if (nothrow_copy && (op.c == copy_ctor || op.c == copy_asg)) return;
    // 2. let every throwing operation / every allocation fail in turn
    for (int kind = 1; kind <= 2; ++kind) for (long k = 0; k < (kind == 1 ? points : allocs); ++k) {
        const long live0 = ck::alloc().live;
        {
            HH h(sa, sb);
            if (op2) { F() = Fault{}; h.apply(*op2); }
            const auto a0 = h.ma, b0 = h.mb;
            F() = Fault{}; F().kind = kind; F().k = k;
            h.apply(op);
            const bool threw = F().threw; F() = Fault{};
            ck::fault();
            if (!threw) ck::fail("the %ld. %s failed, but the exception did not reach the caller: %s", k + 1, kind == 1 ? "element operation" : "allocation", ctx().c_str());
            // The vectors must be intact: all elements alive, nothing else alive
            if (h.a.size() > h.a.capacity() || h.b.size() > h.b.capacity() || h.a.capacity() < N || h.b.capacity() < N) ck::fail("size exceeds capacity after an exception in %s", ctx().c_str());
            HH* hp = &h;
            std::vector<int> va, vb;
            for (auto& e : h.a) va.push_back(Tr<E>::val(e));
            for (auto& e : h.b) vb.push_back(Tr<E>::val(e));
            if (Tr<E>::tracked && tr::living() != (int)(va.size() + vb.size())) ck::fail("%d elements are alive, but the vectors hold %zu after exception %ld in %s", tr::living(), va.size() + vb.size(), k, ctx().c_str());
            if (h.strong && (std::is_nothrow_move_constructible<E>::value || Copyable<E>::value) && va != a0) ck::fail("vector changed from %s to %s by failing %s (%s %ld)", show(a0).c_str(), show(va).c_str(), ctx().c_str(), kind == 1 ? "operation" : "allocation", k);
            if (op.c == move_asg && (std::is_nothrow_move_constructible<E>::value || Copyable<E>::value) && vb != b0) ck::fail("failing move assignment changed the other vector: %s", ctx().c_str());
            if ((op.c == move_ctor || op.c == copy_ctor) && (std::is_nothrow_move_constructible<E>::value || Copyable<E>::value) && va != a0) ck::fail("failing constructor changed the source vector: %s", ctx().c_str());
            if (op.c == copy_asg && vb != b0) ck::fail("failing copy assignment changed its source: %s", ctx().c_str());
            // ... and usable
            hp->ma = va; hp->mb = vb; h.check();
            h.apply({ push_m, 0, 0, 0 }); h.check();
            h.apply({ ins_m, 0, 0, 0 }); h.check();
            h.apply({ swap_m, 0, 0, 0 }); h.check();
            if (!h.ma.empty()) h.apply({ erase1, 0, 0, 0 });
            h.check();
            h.apply({ shrink, 0, 0, 0 }); h.check();
            h.apply({ clr, 0, 0, 0 }); h.check();
        }
        if (ck::alloc().live != live0) ck::fail("%ld blocks of memory are leaked by an exception (%s %ld) in %s", ck::alloc().live - live0, kind == 1 ? "operation" : "allocation", k, ctx().c_str());
        if (tr::living()) ck::fail("%d elements are leaked by an exception in %s", tr::living(), ctx().c_str());
        ck::state();
    }
}

template <typename E, std::size_t N>
void explore(int maxsize, int depth, int maxsize_deep)
{
    for (int d = 1; d <= depth; ++d) {
        const auto A = H<E, N>::specs(d == 1 ? maxsize : maxsize_deep, false), B = H<E, N>::specs((int)N + 1, true);
        for (auto& sa : A) for (auto& sb : B) {
            std::vector<Op> o1; H<E, N>::gen(o1, sa.size, sb.size);
            for (auto& op : o1) {
                // The other vector only matters for some operations
                const bool binary = op.c == copy_asg || op.c == move_asg || op.c == move_asg_rev || op.c == swap_m || op.c == swap_f;
                if (!binary && d == 1 && &sb != &B[0]) continue;
                if (!ck::mine()) continue;
                if (d == 1) { one<E, N>(sa, sb, op, nullptr); continue; }
                F() = Fault{};
                int n1, nb1; { H<E, N> h(sa, sb); h.apply(op); n1 = (int)h.ma.size(); nb1 = (int)h.mb.size(); }
                if (n1 > maxsize_deep + 1) continue;
                std::vector<Op> o2; H<E, N>::gen(o2, n1, nb1);
                for (auto& second : o2) {
                    const bool bin2 = second.c == copy_asg || second.c == move_asg || second.c == move_asg_rev || second.c == swap_m || second.c == swap_f;
                    if (!bin2 && !binary && &sb != &B[0]) continue;
                    one<E, N>(sa, sb, second, &op);
                }
            }
        }
    }
}

// Types whose copy constructor may throw, but not the copy assignment, and vice versa
struct SafeAssign : tr::Obj<true, true, 7>
{
    using B = tr::Obj<true, true, 7>; SafeAssign() = default; explicit SafeAssign(int i) : B(i) {}
    SafeAssign(const SafeAssign&) = default; SafeAssign(SafeAssign&&) = default; SafeAssign& operator=(SafeAssign&&) = default;
    SafeAssign& operator=(const SafeAssign& o) noexcept { tr::need(this, "copy assignment to"); tr::need(&o, "copy assignment reads"); v = o.v; return *this; }
};
struct SafeCopy : tr::Obj<true, true, 8, true>
{
    using B = tr::Obj<true, true, 8, true>; SafeCopy() = default; explicit SafeCopy(int i) : B(i) {}
    SafeCopy(const SafeCopy&) = default; SafeCopy(SafeCopy&&) = default;
    SafeCopy& operator=(const SafeCopy& o) { tr::need(this, "copy assignment to"); tr::need(&o, "copy assignment reads"); tr::point(4); v = o.v; return *this; }
    SafeCopy& operator=(SafeCopy&& o) { tr::need(this, "move assignment to"); tr::need(&o, "move assignment reads"); tr::point(5); const int x = o.v; o.v = tr::moved; v = &o == this ? tr::moved : x; return *this; }
};
DOMAIN(safe_assign_inline_2) { explore<SafeAssign, 2>(4, ck::tier(1, 2), 2); }
DOMAIN(safe_copy_inline_2) { explore<SafeCopy, 2>(4, ck::tier(1, 2), 2); }
DOMAIN(tracked_inline_0) { explore<Val, 0>(4, ck::tier(1, 2), 2); }
DOMAIN(tracked_inline_1) { explore<Val, 1>(5, ck::tier(2, 2), ck::tier(1, 3)); }
DOMAIN(tracked_inline_3) { explore<Val, 3>(5, ck::tier(1, 2), 3); }
DOMAIN(throwing_move_inline_0) { explore<ThrowMove, 0>(3, ck::tier(1, 2), 2); }
DOMAIN(throwing_move_inline_2) { explore<ThrowMove, 2>(5, ck::tier(1, 2), 3); }
DOMAIN(move_only_inline_1) { explore<MoveOnly, 1>(4, ck::tier(1, 2), 3); }
DOMAIN(move_only_throw_inline_2) { explore<MoveOnlyThrow, 2>(5, ck::tier(1, 2), 3); }
DOMAIN(string_inline_2) { explore<std::string, 2>(4, ck::tier(1, 2), 2); }
DOMAIN(int_inline_2) { explore<int, 2>(4, ck::tier(1, 2), 2); }

// Larger vectors: single operations with positions at and near both ends and in the middle
template <typename E, std::size_t N>
void large(std::initializer_list<int> sizes)
{
    for (int n : sizes) for (int extra : { 0, 1, 2, 20 }) for (int m : { 0, 3, (int)N, (int)N + 5 }) {
        const Spec sa{ n, extra ? std::max(n, (int)N) + extra : 0 }, sb{ m, 0 };
        std::vector<Op> ops; H<E, N>::gen(ops, n, m);
        auto near = [&](int x) { return x <= 1 || x == n / 2 || (x >= n - 1 && x <= n + 1) || x == (int)N || x == (int)N + 1; };
        for (auto& op : ops) {
            const bool binary = op.c == copy_asg || op.c == move_asg || op.c == move_asg_rev || op.c == swap_m || op.c == swap_f;
            if (!binary && m) continue;
            if (!near(op.x) || (op.c == erase2 && !near(op.y))) continue;
            if ((op.c == ins_alias_c || op.c == ins_alias_m || op.c == emp_alias || op.c == rszv_alias || op.c == asg_alias) && !near(op.y)) continue;
            if (op.c == ins_n_alias && !near(op.z)) continue;
            if (!ck::mine()) continue;
            one<E, N>(sa, sb, op, nullptr);
        }
        for (int k : { 7, 16, 31 }) for (int p : { 0, n / 2, n }) { // more elements at once
            if (m || !ck::mine()) continue;
            for (int c : { ins_n, ins_vec, ins_list, ins_fwd }) if (Copyable<E>::value) one<E, N>(sa, sb, Op{ c, p, k, 0 }, nullptr);
            for (int c : { ins_input, ins_move }) one<E, N>(sa, sb, Op{ c, p, k, 0 }, nullptr);
            if (p) continue;
            for (int c : { asg_n, asg_vec, asg_list, ctor_nv, ctor_range }) if (Copyable<E>::value) one<E, N>(sa, sb, Op{ c, k, 0, 0 }, nullptr);
            for (int c : { asg_input, ctor_n, ctor_input, resv }) one<E, N>(sa, sb, Op{ c, k, 0, 0 }, nullptr);
            one<E, N>(sa, sb, Op{ rsz, n + k, 0, 0 }, nullptr); if (Copyable<E>::value) one<E, N>(sa, sb, Op{ rszv, n + k, 0, 0 }, nullptr);
        }
    }
}
DOMAIN(large_tracked_8) { large<Val, 8>({ 6, 7, 8, 9, 15, 16, 17, 24 }); }
DOMAIN(large_throwing_move_8) { large<ThrowMove, 8>({ 7, 8, 9, 16, 17 }); }
DOMAIN(large_move_only_throw_16) { large<MoveOnlyThrow, 16>({ 7, 15, 16, 17, 20 }); }
DOMAIN(large_tracked_0) { large<Val, 0>({ 8, 16, 17, 32 }); }
DOMAIN(large_string_4) { large<std::string, 4>({ 7, 8, 9, 16 }); }
