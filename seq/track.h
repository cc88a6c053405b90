// Element types whose lifetimes, copies and moves are tracked in a table outside the objects,
// and that can be told to throw at their n-th throwing operation.
#pragma once
#include "ck.h"

namespace tr {

struct Boom { int where; };

struct Table
{
    static constexpr int max = 512;
    const void* p[max]; int n = 0;
    long armed = -1;   // throw when this counter reaches zero
    long points = 0;   // number of throwing operations passed
    long copies = 0, moves = 0;
};
inline Table& T() { static Table t; return t; }
inline bool alive(const void* p) { auto& t = T(); for (int i = t.n - 1; i >= 0; --i) if (t.p[i] == p) return true; return false; }
inline void born(const void* p, const char* what)
{
    if (alive(p)) ck::fail("%s constructs an object over a living one", what);
    auto& t = T(); if (t.n == Table::max) ck::fail("too many living objects");
    t.p[t.n++] = p;
}
inline void dies(const void* p)
{
    auto& t = T();
    for (int i = t.n - 1; i >= 0; --i) if (t.p[i] == p) { t.p[i] = t.p[--t.n]; return; }
    ck::fail("an object that is not alive gets destroyed");
}
inline void need(const void* p, const char* what) { if (!alive(p)) ck::fail("%s an object that is not alive", what); }
inline void point(int where)
{
    auto& t = T();
    ++t.points;
    if (t.armed >= 0 && t.armed-- == 0) throw Boom{ where };
}
inline void arm(long k) { T().armed = k; }
inline void disarm() { T().armed = -1; }
inline int living() { return T().n; }

constexpr int moved = -77; // value of a moved-from object

/// Tag distinguishes alternatives of variants etc.
template <bool CanCopy, bool NothrowMove, int Tag = 0, bool NothrowCopy = false>
struct Obj
{
    int v;
    Obj() : v(0) { point(0); born(this, "default constructor"); }
    explicit Obj(int x) : v(x) { point(1); born(this, "value constructor"); }
    Obj(const Obj& o) noexcept(NothrowCopy) : v(0) { static_assert(CanCopy, ""); need(&o, "copy constructor reads"); if (!NothrowCopy) point(2); born(this, "copy constructor"); ++T().copies; v = o.v; }
    Obj(Obj&& o) noexcept(NothrowMove) : v(0) { need(&o, "move constructor reads"); if (!NothrowMove) point(3); born(this, "move constructor"); ++T().moves; v = o.v; o.v = moved; }
    Obj& operator=(const Obj& o) noexcept(NothrowCopy) { static_assert(CanCopy, ""); need(this, "copy assignment to"); need(&o, "copy assignment reads"); if (!NothrowCopy) point(4); ++T().copies; v = o.v; return *this; }
    Obj& operator=(Obj&& o) noexcept(NothrowMove) { need(this, "move assignment to"); need(&o, "move assignment reads"); if (!NothrowMove) point(5); ++T().moves; const int x = o.v; o.v = moved; v = &o == this ? moved : x; return *this; }
    ~Obj() { dies(this); }
    int get() const { need(this, "reading"); return v; }
    friend bool operator==(const Obj& a, const Obj& b) { return a.get() == b.get(); }
    friend bool operator!=(const Obj& a, const Obj& b) { return a.get() != b.get(); }
    friend bool operator<(const Obj& a, const Obj& b) { return a.get() < b.get(); }
    friend bool operator>(const Obj& a, const Obj& b) { return a.get() > b.get(); }
    friend bool operator<=(const Obj& a, const Obj& b) { return a.get() <= b.get(); }
    friend bool operator>=(const Obj& a, const Obj& b) { return a.get() >= b.get(); }
};

/// Move-only variant
template <bool NothrowMove, int Tag, bool NC>
struct Obj<false, NothrowMove, Tag, NC>
{
    int v;
    Obj() : v(0) { point(0); born(this, "default constructor"); }
    explicit Obj(int x) : v(x) { point(1); born(this, "value constructor"); }
    Obj(Obj&& o) noexcept(NothrowMove) : v(0) { need(&o, "move constructor reads"); if (!NothrowMove) point(3); born(this, "move constructor"); ++T().moves; v = o.v; o.v = moved; }
    Obj& operator=(Obj&& o) noexcept(NothrowMove) { need(this, "move assignment to"); need(&o, "move assignment reads"); if (!NothrowMove) point(5); ++T().moves; const int x = o.v; o.v = moved; v = &o == this ? moved : x; return *this; }
    ~Obj() { dies(this); }
    int get() const { need(this, "reading"); return v; }
    friend bool operator==(const Obj& a, const Obj& b) { return a.get() == b.get(); }
    friend bool operator!=(const Obj& a, const Obj& b) { return a.get() != b.get(); }
    friend bool operator<(const Obj& a, const Obj& b) { return a.get() < b.get(); }
    friend bool operator>(const Obj& a, const Obj& b) { return a.get() > b.get(); }
    friend bool operator<=(const Obj& a, const Obj& b) { return a.get() <= b.get(); }
    friend bool operator>=(const Obj& a, const Obj& b) { return a.get() >= b.get(); }
};

} // namespace tr
