// U02: type descriptions and type traits for all types of a small grammar: base types under all
// combinations of up to two (thorough: the same; types exist at compile time) type constructors.
#include <array>
#include <deque>
#include <forward_list>
#include <list>
#include <map>
#include <memory>
#include <set>
#include <unordered_map>
#include <sstream>
#include "ck.h"
#include "gul14/traits.h"
#include "gul14/type_name.h"
#include "gul14/SlidingBuffer.h"
#include "gul14/SmallVector.h"
#include "gul14/span.h"
#include "gul14/string_view.h"

template <typename... T> struct L {};
struct A { int m; };
enum class Color : unsigned char { red };
namespace outer { namespace inner { struct B {}; template <typename T, int N = 7> struct Box { struct In {}; }; template <template <typename, int> class C> struct TT {}; } union U { int i; }; }
template <typename T, typename U> auto local(T, U) { struct Local { T t; }; return Local{}; }
template <char C> struct Ch {};
template <bool> struct Bo {};

using Bases = L<int, unsigned char, double, long long, A, Color, outer::inner::B, outer::inner::Box<outer::inner::B>, outer::inner::Box<int, -1>::In, std::string, outer::U, void>;
using Specials = L<outer::inner::TT<outer::inner::Box>*, Ch<'='>, Ch<']'>, Bo<true>, std::map<std::string, std::pair<int, outer::inner::Box<A>>>, decltype(nullptr), bool, char16_t, wchar_t, long double,
    void (*(*)(int, ...))(double), int (A::*)(int) const, int (A::*)(A&&) &&, int A::*, const volatile void*, std::unique_ptr<A[]>, int (&)[2][3], decltype(local(1, 2.0)), decltype(local("a", 2)), std::tuple<>, outer::inner::Box<outer::inner::Box<outer::inner::Box<int, 1>, 2>, 3>>;

// ---------------------------------------------------------------- type constructors
struct No {};
template <typename T, typename = void> struct Ptr { using type = No; };
template <typename T> struct Ptr<T, gul14::void_t<T*>> { using type = T*; };
template <typename T, typename = void> struct LRef { using type = No; };
template <typename T> struct LRef<T, gul14::void_t<T&>> { using type = T&; };
template <typename T, typename = void> struct RRef { using type = No; };
template <typename T> struct RRef<T, gul14::void_t<T&&>> { using type = T&&; };
template <typename T> struct Const { using type = const T; };
template <typename T> struct Vol { using type = volatile T; };
template <typename T, typename = void> struct Arr { using type = No; };
template <typename T> struct Arr<T, gul14::void_t<T[3]>> { using type = T[3]; };
template <typename T, typename = void> struct Open { using type = No; };
template <typename T> struct Open<T, gul14::void_t<T[]>> { using type = T[]; };
template <typename T, typename = void> struct Ret { using type = No; };
template <typename T> struct Ret<T, gul14::void_t<T(int)>> { using type = T(int); };
template <typename T, typename = void> struct Arg { using type = No; };
template <typename T> struct Arg<T, gul14::void_t<void(T, char)>> { using type = void(T, char); };
template <typename T> struct Targ { using type = outer::inner::Box<T, 2>; };
template <typename T, typename = void> struct MemP { using type = No; };
template <typename T> struct MemP<T, gul14::void_t<T A::*>> { using type = T A::*; };

/// The name as the compiler writes it, found from the outside of the text inwards
template <typename T> const char* whole() { return __PRETTY_FUNCTION__; }
static std::string reference(const char* w)
{
    static const std::string i = whole<int>();
    const std::size_t pre = i.rfind("int"), post = i.size() - pre - 3;
    const std::string s = w;
    return s.substr(pre, s.size() - pre - post);
}

static void check_name(gul14::string_view got, const char* w)
{
    const std::string want = reference(w);
    CHECK(std::string(got.data(), got.size()) == want, "type_name is '%s' instead of '%s'", std::string(got.data(), got.size()).c_str(), want.c_str());
    ck::sample("%s", want.c_str());
}
template <typename T> struct Strip { using type = T; };
template <typename T> struct Strip<T&> { using type = typename Strip<T>::type; };
template <typename T> struct Strip<T&&> { using type = typename Strip<T>::type; };
template <typename T> struct Strip<const T> { using type = T; };
template <typename T> struct Strip<volatile T> { using type = T; };
template <typename T> struct Strip<const volatile T> { using type = T; };
template <typename T, std::size_t N> struct Strip<const T[N]> { using type = T[N]; };
template <typename T, std::size_t N> struct Strip<volatile T[N]> { using type = T[N]; };
template <typename T, std::size_t N> struct Strip<const volatile T[N]> { using type = T[N]; };
template <typename T> struct Strip<const T[]> { using type = T[]; };
template <typename T> struct Strip<volatile T[]> { using type = T[]; };
template <typename T> struct Strip<const volatile T[]> { using type = T[]; };

static bool named; // check the names or the traits?
template <typename T> struct Case
{
    static void run()
    {
        if (!ck::mine()) return;
        if (named) { constexpr gul14::string_view n = gul14::type_name<T>(); check_name(n, whole<T>()); }
        else {
            CHECK((std::is_same<gul14::remove_cvref_t<T>, typename Strip<T>::type>::value && std::is_same<typename gul14::remove_cvref<T>::type, typename Strip<T>::type>::value), "remove_cvref of %s", whole<T>());
            CHECK((!gul14::IsContainerLike<T>::value || std::is_same<typename Strip<T>::type, std::string>::value), "%s is taken for a container", whole<T>());
        }
        ck::state(); ck::step();
    }
};
template <> struct Case<No> { static void run() {} };
// Duplicates are avoided: constructors that do not change the type end the branch
template <typename T, typename N, int D> struct Next;
template <typename T, int D> struct Walk
{
    static void run()
    {
        Case<T>::run();
        Next<T, typename Ptr<T>::type, D>::run(); Next<T, typename LRef<T>::type, D>::run(); Next<T, typename RRef<T>::type, D>::run(); Next<T, typename Const<T>::type, D>::run(); Next<T, typename Vol<T>::type, D>::run();
        Next<T, typename Arr<T>::type, D>::run(); Next<T, typename Open<T>::type, D>::run(); Next<T, typename Ret<T>::type, D>::run(); Next<T, typename Arg<T>::type, D>::run(); Next<T, typename Targ<T>::type, D>::run(); Next<T, typename MemP<T>::type, D>::run();
    }
};
template <typename T, typename N, int D> struct Next { static void run() { Walk<N, D - 1>::run(); } };
template <typename T, int D> struct Next<T, T, D> { static void run() {} };
template <typename T, int D> struct Next<T, No, D> { static void run() {} };
template <typename T> struct Walk<T, 0> { static void run() { Case<T>::run(); } };
template <typename... T> void walk(L<T...>) { int d[] = { (Walk<T, 2>::run(), 0)... }; (void)d; }
template <typename... T> void flat(L<T...>) { int d[] = { (Case<T>::run(), 0)... }; (void)d; }

DOMAIN(names) { named = true; flat(Specials{}); flat(Bases{}); }
DOMAIN(composed_names) { named = true; walk(Bases{}); }
template <typename... T> void collect(std::vector<gul14::string_view>& v, L<T...>) { for (auto n : { gul14::type_name<T>()..., gul14::type_name<outer::inner::Box<T, 1>>()..., gul14::type_name<outer::inner::Box<T>>()... }) v.push_back(n); }
DOMAIN(distinct_names)
{
    if (!ck::mine()) return;
    std::vector<gul14::string_view> v; collect(v, Specials{}); collect(v, L<int, unsigned char, double, long long, A, Color, outer::inner::B, outer::inner::Box<int, -1>::In, std::string, outer::U, void>{});
    for (std::size_t i = 0; i < v.size(); ++i) { ck::state(); for (std::size_t j = 0; j < i; ++j) { ck::step(); CHECK(v[i] != v[j], "the name '%s' is used for two types", std::string(v[i].data(), v[i].size()).c_str()); } }
}
DOMAIN(remove_cvref) { named = false; walk(Bases{}); }

// ---------------------------------------------------------------- containers
struct OnlyBegin { using value_type = int; int* cbegin(); };
struct NoValueType { int* cbegin(); int* cend(); };
struct Minimal { using value_type = int; int* cbegin() const; int* cend() const; };
struct NonConst { using value_type = void*; int* cbegin(); int* cend(); };
struct Private { private: using value_type = int; int* cbegin(); int* cend(); };
struct WithArg { using value_type = int; int* cbegin(int); int* cend(); };
struct DataMember { using value_type = int; int* cbegin; int* cend; };
template <typename T> void container(bool want) { if (!ck::mine()) return; CHECK((gul14::IsContainerLike<T>::value == want && std::is_base_of<std::integral_constant<bool, gul14::IsContainerLike<T>::value>, gul14::IsContainerLike<T>>::value), "IsContainerLike is wrong for %s", whole<T>()); ck::state(); ck::step(); }
template <typename... T> void yes(L<T...>) { int d[] = { (container<T>(true), container<const T>(true), 0)... }; (void)d; }
template <typename... T> void no(L<T...>) { int d[] = { (container<T>(false), container<const T>(false), container<T*>(false), 0)... }; (void)d; }
DOMAIN(containers)
{
    yes(L<std::vector<int>, std::vector<bool>, std::list<A>, std::deque<std::string>, std::forward_list<int>, std::set<int>, std::map<int, A>, std::unordered_map<int, int>, std::array<int, 3>, std::array<A, 0>, std::string, std::multimap<A, A>, Minimal,
        gul14::SmallVector<int, 2>, gul14::string_view>{});
    container<NonConst>(true); container<const NonConst>(false); container<gul14::SlidingBuffer<int, 3>>(true); container<gul14::SlidingBuffer<int>>(true);
    no(L<int, double, A, void*, OnlyBegin, NoValueType, Private, WithArg, DataMember, std::pair<int, int>, Color, std::unique_ptr<std::vector<int>>, int[3], outer::inner::B>{});
    container<void>(false); container<int(int)>(false); container<std::vector<int>&>(false); container<std::vector<int>&&>(false);
}
