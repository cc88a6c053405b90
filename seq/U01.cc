// U01: invoke and its traits against the callable protocol of the standard library (the internal
// implementation of libstdc++ is available in all language modes), overload sets against
// ordinary overload resolution. All combinations of callable, object expression and arguments
// from the lists below are instantiated and executed.
#include <functional>
#include <memory>
#include <tuple>
#include "ck.h"
#include "gul14/traits.h"
#include "gul14/variant.h"
#include "gul14/utility.h"

static std::string logs;
template <typename... Ts> struct L {};
template <typename T> struct Tag { using type = T; };

struct MoveOnly { int v; explicit MoveOnly(int x) : v(x) {} MoveOnly(MoveOnly&& o) noexcept : v(o.v) { o.v = -1; } };
struct Conv { operator int() const noexcept { logs += "conv,"; return 77; } };

static std::string sh(int x) { return std::to_string(x); }
static std::string sh(const std::string& s) { return s; }
static std::string sh(const MoveOnly& m) { return "mo" + std::to_string(m.v); }
static std::string sh(const void* p) { return p ? "ptr" : "null"; }

struct X
{
    int id; int data; const int cdata; mutable int mdata; int arr[2]; MoveOnly mo; void (*fp)(int);
    explicit X(int i) : id(i), data(i + 1), cdata(i + 2), mdata(i + 3), arr{ i, i }, mo(i), fp(nullptr) {}
    X(X&& o) noexcept : X(o.id) { o.id = -9; }
    void l(const char* n) const { logs += n; logs += sh(id); logs += ","; }
    int plain() { l("plain"); return id; }
    int cst() const { l("cst"); return id + 1; }
    int vol() volatile { logs += "vol" + sh(id) + ","; return id + 2; }
    int cv() const volatile { logs += "cv" + sh(id) + ","; return id + 3; }
    int lref() & { l("lref"); return id + 4; }
    int rref() && { l("rref"); return id + 5; }
    int clref() const& { l("clref"); return id + 6; }
    int crref() const&& { l("crref"); return id + 7; }
    int ne() noexcept { l("ne"); return id + 8; }
    void nothing() const { l("nothing"); }
    X& self() & { l("self"); return *this; }
    X&& give() && { l("give"); return std::move(*this); }
    const int& cref() const { l("cref"); return cdata; }
    MoveOnly take(MoveOnly m) { l("take"); return m; }
    int byref(int& i) { l("byref"); return ++i; }
    int bycref(const int& i) const { l("bycref"); return i; }
    int byrref(int&& i) { l("byrref"); i += 5; return i; }
    std::string two(int i, std::string s) { l("two"); return s + std::to_string(i); }
    int var(int n, ...) { l("var"); return n; }
    virtual int virt(int i) { l("virtX"); return i; }
    virtual ~X() = default;
    static int stat(int i) { logs += "stat,"; return i * 2; }
};
struct Pad { long pad[3] = { 1, 2, 3 }; virtual ~Pad() = default; };
struct D : Pad, X { explicit D(int i) : X(i) {} D(D&&) = default; int virt(int i) override { l("virtD"); return -i; } };
struct Unrelated { int id = 0; };
struct Priv : private X { explicit Priv(int i) : X(i) {} };
/// Something that dereferences to an X depending on its own value category
struct Smart { X* p; X& operator*() & { logs += "*l,"; return *p; } X&& operator*() && { logs += "*r,"; return std::move(*p); } const X& operator*() const& { logs += "*c,"; return *p; } };

// ---------------------------------------------------------------- callables
template <typename P, P p> struct Mem { using type = P; static P get() { return p; } };
#define M(name) Mem<decltype(&X::name), &X::name>
using Members = L<M(plain), M(cst), M(vol), M(cv), M(lref), M(rref), M(clref), M(crref), M(ne), M(nothing), M(self), M(give), M(cref), M(take), M(byref), M(bycref), M(byrref), M(two), M(var), M(virt)>;
using DataMembers = L<M(id), M(data), M(cdata), M(mdata), M(arr), M(mo), M(fp)>;

static int free_fn(int i) { logs += "free,"; return i + 100; }
static int free_ne(int i) noexcept { logs += "freene,"; return i + 200; }
static int& free_ref(int& i) { logs += "freeref,"; return i; }
static void free_void() { logs += "freevoid,"; }
struct Qual
{
    std::string n = "q";
    int operator()() & { logs += n + "&,"; return 1; }
    int operator()() const& noexcept { logs += n + "const&,"; return 2; }
    int operator()() && { logs += n + "&&,"; return 3; }
    int operator()() const&& { logs += n + "const&&,"; return 4; }
    int operator()(int& i) & { logs += "int&,"; return ++i; }
    int operator()(const int&) & { logs += "const int&,"; return 6; }
    int operator()(int&& i) & { logs += "int&&,"; i += 3; return 7; }
    int operator()(MoveOnly m) { logs += "mo,"; return m.v; }
    std::string operator()(int i, const std::string& s) const { logs += "pair,"; return s + std::to_string(i); }
    void operator()(X&&) & = delete;
    int operator()(X& x) & { logs += "X&,"; return x.id; }
};
struct Generic { template <typename... A> int operator()(A&&...) const { logs += std::string("gen") + std::to_string(sizeof...(A)) + (std::is_same<L<A...>, L<int&>>::value ? "l" : std::is_same<L<A...>, L<int>>::value ? "r" : "") + ","; return (int)sizeof...(A); } };
template <typename F> struct Fun { using type = F; static F get() { return static_cast<F>(*store()); } static std::remove_reference_t<F>* store() { static std::unique_ptr<std::remove_const_t<std::remove_reference_t<F>>> p; p.reset(new std::remove_const_t<std::remove_reference_t<F>>()); return p.get(); } };
template <typename F, F f> struct FreeP { using type = F; static F get() { return f; } };
template <typename F, F& f> struct FreeR { using type = F&; static F& get() { return f; } };
using Functors = L<Fun<Qual&>, Fun<const Qual&>, Fun<Qual&&>, Fun<const Qual&&>, Fun<Generic&>, Fun<const Generic&>, Fun<Generic&&>,
    FreeP<int (*)(int), free_fn>, FreeP<int (*)(int), free_ne>, FreeR<int(int), free_fn>, FreeP<int& (*)(int&), free_ref>, FreeP<void (*)(), free_void>, FreeP<int (*)(int), &X::stat>>;

// ---------------------------------------------------------------- object expressions and arguments
template <typename T> struct Obj { using type = T; static T&& get() { static std::unique_ptr<std::remove_cv_t<std::remove_reference_t<T>>> p; p.reset(new std::remove_cv_t<std::remove_reference_t<T>>(40)); return static_cast<T&&>(*p); } };
static X& an_x() { static std::unique_ptr<X> x; x.reset(new X(50)); return *x; }
static D& a_d() { static std::unique_ptr<D> d; d.reset(new D(60)); return *d; }
struct PX { using type = X*; static X*&& get() { static X* p; p = &an_x(); return std::move(p); } };
struct PXL { using type = X*&; static X*& get() { static X* p; p = &an_x(); return p; } };
struct PCX { using type = const X*; static const X*&& get() { static const X* p; p = &an_x(); return std::move(p); } };
struct PD { using type = D*; static D*&& get() { static D* p; p = &a_d(); return std::move(p); } };
struct UX { using type = std::unique_ptr<X>; static std::unique_ptr<X>&& get() { static std::unique_ptr<X> p; p.reset(new X(70)); return std::move(p); } };
struct CUX { using type = const std::unique_ptr<X>&; static const std::unique_ptr<X>& get() { UX::get(); static std::unique_ptr<X> p; p.reset(new X(71)); return p; } };
struct SD { using type = std::shared_ptr<D>&; static std::shared_ptr<D>& get() { static std::shared_ptr<D> p; p.reset(new D(80)); return p; } };
struct RX { using type = std::reference_wrapper<X>; static type&& get() { static std::unique_ptr<type> p; p.reset(new type(an_x())); return std::move(*p); } };
struct CRX { using type = const std::reference_wrapper<X>&; static type get() { static std::unique_ptr<std::reference_wrapper<X>> p; p.reset(new std::reference_wrapper<X>(an_x())); return *p; } };
struct RCX { using type = std::reference_wrapper<const X>; static type&& get() { static std::unique_ptr<type> p; p.reset(new type(an_x())); return std::move(*p); } };
struct RD { using type = std::reference_wrapper<D>; static type&& get() { static std::unique_ptr<type> p; p.reset(new type(a_d())); return std::move(*p); } };
template <typename S> struct Sm { using type = S; static S&& get() { static Smart s; s.p = &an_x(); return static_cast<S&&>(s); } };
struct Un { using type = Unrelated&; static Unrelated& get() { static Unrelated u; return u; } };
struct In { using type = int; static int&& get() { static int i; i = 11; return std::move(i); } };
struct InL { using type = int&; static int& get() { static int i; i = 12; return i; } };
struct InC { using type = const int&; static const int& get() { static const int i = 13; return i; } };
struct Cv { using type = const Conv&; static const Conv& get() { static const Conv c{}; return c; } };
struct St { using type = const std::string&; static const std::string& get() { static const std::string s = "str"; return s; } };
struct StR { using type = std::string; static std::string&& get() { static std::string s; s = "movable"; return std::move(s); } };
struct Mo { using type = MoveOnly; static MoveOnly&& get() { static std::unique_ptr<MoveOnly> m; m.reset(new MoveOnly(9)); return std::move(*m); } };
struct MoL { using type = MoveOnly&; static MoveOnly& get() { return static_cast<MoveOnly&>(*store()); } static MoveOnly* store() { static std::unique_ptr<MoveOnly> m; m.reset(new MoveOnly(8)); return m.get(); } };

using Objects = L<Obj<X&>, Obj<const X&>, Obj<volatile X&>, Obj<const volatile X&>, Obj<X&&>, Obj<const X&&>, Obj<X>, Obj<D&>, Obj<const D&>, Obj<D&&>, Obj<D>, Obj<Priv&>,
    PX, PXL, PCX, PD, UX, CUX, SD, RX, CRX, RCX, RD, Sm<Smart&>, Sm<const Smart&>, Sm<Smart&&>, Un, In>;
using ArgPacks = L<L<>, L<In>, L<InL>, L<InC>, L<Cv>, L<St>, L<Mo>, L<MoL>, L<In, St>, L<Cv, StR>, L<InL, InL>, L<In, In, In>, L<Obj<X&>>, L<Obj<X&&>>>;

// ---------------------------------------------------------------- comparison
/// Text describing the result of a call; references are identified by value category and address
template <typename R> struct Show { static std::string of(R r) { return sh(r); } };
template <> struct Show<X&> { static std::string of(X& r) { return "X&" + sh(r.id); } };
template <> struct Show<X&&> { static std::string of(X&& r) { return "X&&" + sh(r.id); } };
template <typename T> struct Show<T&> { static std::string of(T& r) { return "lv" + Show<const volatile T&>::of(r); } };
template <typename T> struct Show<T&&> { static std::string of(T&& r) { return "rv" + Show<const volatile T&>::of(r); } };
template <> struct Show<const volatile int&> { static std::string of(const volatile int& r) { return sh((int)r); } };
template <> struct Show<const volatile MoveOnly&> { static std::string of(const volatile MoveOnly& r) { return "mo" + sh((int)r.v); } };
template <> struct Show<const volatile std::string&> { static std::string of(const volatile std::string& r) { return const_cast<const std::string&>(r); } };
template <> struct Show<MoveOnly> { static std::string of(MoveOnly m) { return "mo" + sh((int)m.v); } };
using FP = void (*)(int);
template <> struct Show<const volatile FP&> { static std::string of(const volatile FP& r) { return r ? "fp" : "null"; } };
template <> struct Show<const volatile int (&)[2]> { static std::string of(const volatile int (&r)[2]) { return sh((int)r[0]) + sh((int)r[1]); } };

struct GulInvoke { template <typename F, typename... A> static decltype(auto) call(F&& f, A&&... a) { return gul14::invoke(std::forward<F>(f), std::forward<A>(a)...); } };
struct StdInvoke { template <typename F, typename... A> static decltype(auto) call(F&& f, A&&... a) { return std::__invoke(std::forward<F>(f), std::forward<A>(a)...); } };

template <typename I, typename R, typename F, typename... A>
void call(std::string& out, std::false_type) { out = Show<R>::of(I::call(F::get(), A::get()...)); }
template <typename I, typename R, typename F, typename... A>
void call(std::string& out, std::true_type) { I::call(F::get(), A::get()...); out = "void"; }

template <typename... T> const char* ty() { return __PRETTY_FUNCTION__; }
using Name = const char* (*)();

template <typename R, bool inv, typename F, typename... A> struct Convertible : std::integral_constant<bool, inv && (std::is_void<R>::value || std::is_convertible<typename std::__invoke_result<F, A...>::type, R>::value)> {};
template <typename R, typename F, typename... A> struct Convertible<R, false, F, A...> : std::false_type {};

using Results = L<void, const void, int, long, int&, const int&, std::string, X&, const X&, MoveOnly, void*, bool>;
// The comparisons proper are no templates, so that the many combinations compile quickly
static void compare_traits(const bool* got, const bool* want, int n, Name name)
{
    static const char* const what[] = { "is_invocable", "noexcept of invoke", "invoke_result", "invoke_result_t", "is_invocable_r<void>", "is_invocable_r<const void>", "is_invocable_r<int>", "is_invocable_r<long>", "is_invocable_r<int&>", "is_invocable_r<const int&>", "is_invocable_r<string>", "is_invocable_r<X&>", "is_invocable_r<const X&>", "is_invocable_r<MoveOnly>", "is_invocable_r<void*>", "is_invocable_r<bool>" };
    ck::state();
    for (int k = 0; k < n; ++k) CHECK(got[k] == want[k], "%s is wrong for %s", what[k], name());
}
using Caller = void (*)(std::string&);
static void compare_calls(Caller s, Caller g, Name name)
{
    std::string rs, rg;
    logs.clear(); s(rs); const std::string w = logs + "->" + rs;
    logs.clear(); g(rg); const std::string h = logs + "->" + rg;
    CHECK(w == h, "invoke does '%s' instead of '%s' for %s", h.c_str(), w.c_str(), name());
    ck::sample("%s for %s", h.c_str(), name());
    ck::step();
}

template <typename F, typename... A>
struct Test
{
    using FT = typename F::type;
    static constexpr bool want = std::__is_invocable<FT, typename A::type...>::value;
    static void fn() { go(std::integral_constant<bool, want>{}); }
    static void go(std::false_type)
    {
        static constexpr bool got[] = { gul14::is_invocable<FT, typename A::type...>::value, false, false, false, gul14::is_invocable_r<void, FT, typename A::type...>::value, false, gul14::is_invocable_r<int, FT, typename A::type...>::value };
        static constexpr bool exp[7] = {};
        compare_traits(got, exp, 7, &ty<FT, typename A::type...>);
    }
    template <typename... R> static void positive(L<R...>)
    {
        using W = typename std::__invoke_result<FT, typename A::type...>::type;
        static constexpr bool got[] = { gul14::is_invocable<FT, typename A::type...>::value, noexcept(gul14::invoke(std::declval<FT>(), std::declval<typename A::type>()...)),
            std::is_same<W, typename gul14::invoke_result<FT, typename A::type...>::type>::value, std::is_same<W, gul14::invoke_result_t<FT, typename A::type...>>::value, gul14::is_invocable_r<R, FT, typename A::type...>::value... };
        static constexpr bool exp[] = { true, noexcept(std::__invoke(std::declval<FT>(), std::declval<typename A::type>()...)), true, true, Convertible<R, want, FT, typename A::type...>::value... };
        compare_traits(got, exp, 4 + (int)sizeof...(R), &ty<FT, typename A::type...>);
    }
    template <typename = void> static void go(std::true_type)
    {
        using W = typename std::__invoke_result<FT, typename A::type...>::type;
        positive(Results{});
        compare_calls([](std::string& s) { call<StdInvoke, W, F, A...>(s, std::is_void<W>{}); }, [](std::string& s) { call<GulInvoke, W, F, A...>(s, std::is_void<W>{}); }, &ty<FT, typename A::type...>);
    }
};

/// Calls Test<F, O, A...>::fn for all combinations
template <typename F, typename O, typename... A> void one(L<A...>) { if (ck::mine()) Test<F, O, A...>::fn(); }
template <typename F, typename O, typename... P> void packs(L<P...>) { int d[] = { (one<F, O>(P{}), 0)... }; (void)d; }
template <typename F, typename P, typename... O> void objects(L<O...>) { int d[] = { (packs<F, O>(P{}), 0)... }; (void)d; }
template <typename P, typename O, typename... F> void callables(L<F...>) { int d[] = { (objects<F, P>(O{}), 0)... }; (void)d; }
template <typename F, typename... A> void plain_one(L<A...>) { if (ck::mine()) Test<F, A...>::fn(); }
template <typename F, typename... P> void plain_packs(L<P...>) { int d[] = { (plain_one<F>(P{}), 0)... }; (void)d; }
template <typename P, typename... F> void plain(L<F...>) { int d[] = { (plain_packs<F>(P{}), 0)... }; (void)d; }

DOMAIN(member_functions) { callables<L<L<>, L<In>, L<InL>, L<Mo>, L<In, St>>, Objects>(Members{}); }
DOMAIN(member_function_arguments) { callables<ArgPacks, L<Obj<X&>, Obj<const X&&>, PD, CRX>>(Members{}); }
DOMAIN(data_members) { callables<L<L<>, L<In>>, Objects>(DataMembers{}); }
DOMAIN(members_without_object) { plain<L<L<>>>(Members{}); plain<L<L<>>>(DataMembers{}); }
DOMAIN(function_objects) { plain<ArgPacks>(Functors{}); plain<L<L<Un>, L<PX>, L<RX>, L<In, In>, L<InC, InL>>>(Functors{}); }

// Data members refer to the object itself, not to a copy
DOMAIN(data_member_identity)
{
    X x(5); D d(6); const X cx(7);
    if (ck::mine()) { CHECK(&gul14::invoke(&X::data, x) == &x.data && &gul14::invoke(&X::data, d) == &d.data && &gul14::invoke(&X::cdata, cx) == &cx.cdata, "invoke gives a copy of a data member"); ck::state(); }
    if (ck::mine()) { CHECK(&gul14::invoke(&X::data, &x) == &x.data && &gul14::invoke(&X::data, std::ref(d)) == &d.data && &gul14::invoke(&X::mdata, std::cref(cx)) == &cx.mdata, "invoke through a pointer gives a copy of a data member"); ck::state(); }
    if (ck::mine()) { gul14::invoke(&X::data, x) = 99; gul14::invoke(&X::data, &d) = 98; CHECK(x.data == 99 && d.data == 98, "assignment through invoke is lost"); int&& r = gul14::invoke(&X::data, std::move(x)); CHECK(&r == &x.data, "invoke on a temporary gives a copy"); ck::state(); }
    if (ck::mine()) { auto f = [n = 0]() mutable { return ++n; }; gul14::invoke(f); gul14::invoke(f); CHECK(f() == 3, "invoke calls a copy of the function object"); ck::state(); }
}

// ---------------------------------------------------------------- overload sets
static int calls;
/// Overload number K with state; tells which overload of which set was called
template <int K, typename... A> struct Ov { int key; std::shared_ptr<int> p; explicit Ov(int k) : key(k), p(std::make_shared<int>(k)) {} int operator()(A...) const { ++calls; return (key == *p ? key : -1) * 100 + K; } };
using O1 = Ov<1, int>; using O2 = Ov<2, double>; using O3 = Ov<3, const std::string&>; using O4 = Ov<4, char>; using O5 = Ov<5, int, int>; using O6 = Ov<6, const void*>; using O7 = Ov<7>; using O8 = Ov<8, long>;
/// Enumerators prefer the template, unsigned characters the reference that changes the state
struct Ov9 { int key; explicit Ov9(int k) : key(k) {} template <typename T> std::enable_if_t<std::is_enum<T>::value, int> operator()(T) const { ++calls; return key * 100 + 9; } };
struct Ov10 { int key; explicit Ov10(int k) : key(k) {} int operator()(unsigned char& c) { ++calls; ++c; return key++ * 100 + 10; } };
enum En { e0 };
#define CALL(want, ...) do { ck::step(); calls = 0; const int got = set(__VA_ARGS__); CHECK(got == (want) && calls == 1, "call with (%s) gives %d instead of %d", #__VA_ARGS__, got, (int)(want)); } while (0)
template <typename S> void call_some(S& set)
{
    int i = 1; double d = 2; std::string str = "s"; char ch = 'c';
    CALL(301, i); CALL(301, 5); CALL(302, d); CALL(302, 1.0f); CALL(303, str); CALL(303, std::string("t")); CALL(304, ch); CALL(301, short(1)); CALL(301, true); CALL(301, 'c' + 0);
    gul14::variant<int, double, std::string, char> vs[] = { 1, 2.0, std::string("x"), 'c' };
    for (int k = 0; k < 4; ++k) {
        ck::step();
        CHECK(gul14::visit(set, vs[k]) == 301 + k && gul14::visit(set, gul14::variant<int, double, std::string, char>(vs[k])) == 301 + k, "visit with an overload set calls the wrong function for alternative %d", k);
    }
}
template <typename... F> void overloads(L<F...>)
{
    if (!ck::mine()) return;
    ck::state();
    auto s = gul14::make_overload_set(F(3)...);
    static_assert(std::is_same<decltype(s), gul14::OverloadSet<F...>>::value, "type of an overload set");
    gul14::OverloadSet<F...> direct{ F(3)... };
    const auto c = s;
    call_some(s); call_some(direct); call_some(c);
    const auto m = std::move(direct);
    call_some(m); call_some(s);
}
// All orders of a list of overloads
template <typename Done, typename Before, typename Rest> struct Perm;
template <typename... D> struct Perm<L<D...>, L<>, L<>> { static void run() { overloads(L<D...>{}); } };
template <typename... D, typename B, typename... Bs> struct Perm<L<D...>, L<B, Bs...>, L<>> { static void run() {} };
template <typename... D, typename... B, typename R, typename... Rs> struct Perm<L<D...>, L<B...>, L<R, Rs...>>
{
    static void run() { Perm<L<D..., R>, L<>, L<B..., Rs...>>::run(); Perm<L<D...>, L<B..., R>, L<Rs...>>::run(); }
};
DOMAIN(overload_sets) { Perm<L<>, L<>, L<O1, O2, O3, O4>>::run(); }
template <typename F> void single()
{
    if (!ck::mine()) return;
    ck::state();
    auto s = gul14::make_overload_set(F(4)); calls = 0;
    CHECK(s(0) == 401 && s(2.5) == 401 && s('c') == 401 && calls == 3, "set of a single function"); ck::step(3);
}
template <typename... F> void large(L<F...>)
{
    if (!ck::mine()) return;
    ck::state();
    auto set = gul14::make_overload_set(F(3)...);
    call_some(set);
    int i = 1; double d = 2; unsigned char uc = 5;
    CALL(305, i, 6); CALL(306, &d); CALL(306, &i); CALL(307); CALL(308, 4L); CALL(309, e0); CALL(310, uc); CALL(410, uc); CALL(301, static_cast<unsigned char>(3));
    CHECK(uc == 7, "argument passed by reference is %d", (int)uc);
    auto copy = set; { auto& set = copy; CALL(510, uc); CALL(610, uc); } CALL(510, uc); // independent state
}
// A set of ten functions in all rotations and reversed
template <typename A, typename B> struct Rot;
template <typename... A> struct Rot<L<A...>, L<>> { static void run() {} };
template <typename... A, typename B, typename... Bs> struct Rot<L<A...>, L<B, Bs...>> { static void run() { large(L<B, Bs..., A...>{}); Rot<L<A..., B>, L<Bs...>>::run(); } };
DOMAIN(large_overload_sets)
{
    single<O1>();
    Rot<L<>, L<O1, O2, O3, O4, O5, O6, O7, O8, Ov9, Ov10>>::run();
    Rot<L<>, L<Ov10, Ov9, O8, O7, O6, O5, O4, O3, O2, O1>>::run();
}
DOMAIN(lambdas)
{
    for (int k = 0; k < 4; ++k) {
        if (!ck::mine()) continue;
        ck::state();
        int n = 0; std::vector<int> log;
        auto set = gul14::make_overload_set([&](int x) { n += x; }, [&log, k](const std::string& s) mutable { log.push_back(k++ + (int)s.size()); }, [&](auto*) { n = -1; });
        gul14::variant<int, std::string, int*> v = 5;
        gul14::visit(set, v); CHECK(n == 5, "lambda for int");
        v = std::string("ab"); gul14::visit(set, v); gul14::visit(set, v); CHECK(log == (std::vector<int>{ k + 2, k + 3 }), "state of a lambda in an overload set");
        v = &n; gul14::visit(set, v); CHECK(n == -1, "generic lambda"); ck::step(4);
    }
}
DOMAIN(monostate)
{
    if (!ck::mine()) return;
    const gul14::monostate a{}, b{};
    CHECK(a == b && !(a != b) && a <= b && a >= b && !(a < b) && !(a > b) && std::hash<gul14::monostate>()(a) == std::hash<gul14::monostate>()(b), "monostate");
    ck::state(); ck::step(7);
}
