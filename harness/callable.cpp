// C17: every kind of callable, called directly, through a slot and through a signal. -DCALL_G=0..6, plus -DCALL_MAIN.
// C18 is in slots.cpp.
#include <signals.hpp>
#ifdef CALL_MAIN
#include "vp_main.hpp"
#else
#include "vp.hpp"
#endif
#include <array>
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <vector>

using vp::anyInt;
using vp::chance;
using vp::fail;
using vp::pick;
using vp::range;
using vp::trace;

// What a callable did: recorded, and compared between the direct and the indirect call.
struct Effects
{
    long v[64]; int n;
    void note(long tag, long x) { if (n < 64) v[n++] = tag * 1000003 + x; }
    bool operator==(const Effects& o) const { return n == o.n && !memcmp(v, o.v, n * sizeof v[0]); }
};
inline Effects eff;
inline const char* current = "";

template<class T> struct Gen { static T make() { return T(anyInt()); } };
template<> struct Gen<bool> { static bool make() { return pick(2); } };
template<> struct Gen<double> { static double make() { return anyInt() / 8.0; } };
template<> struct Gen<std::string> { static std::string make() { int n = range(0, 30); return std::string(n, 'a' + n % 26); } };
template<> struct Gen<std::vector<int>> { static std::vector<int> make() { return std::vector<int>(range(0, 6), anyInt()); } };

inline unsigned h(unsigned x) { return x * 2654435761u >> 3; }
inline int mixi(int a, int b) { return (int)(h((unsigned)a) + (unsigned)b); }

template<class R> struct Out
{
    template<class Opt> static void check(const Opt& got, bool threw, bool wantThrew, const R& want, const char* via)
    {
        if (threw != wantThrew) fail("%s %s: %s", current, via, threw ? "throws, the direct call does not" : "does not throw, the direct call does");
        if (threw) return;
        if (!got) fail("%s %s: the result is empty", current, via);
        if (!(*got == want)) fail("%s %s: the result differs from that of the direct call", current, via);
    }
};

// Calls all three ways with the same arguments. D: direct call; S: slot; G: signal.
template<class R, class... A, class D, class S, class G>
void threeWays(D&& d, S&& s, G&& g)
{
    int calls = range(1, 4);
    if (calls > 1) vp::nontrivial();
    for (int i = 0; i < calls; ++i)
    {
        std::tuple<std::decay_t<A>...> args{ Gen<std::decay_t<A>>::make()... };
        bool t0 = false, t1 = false, t2 = false;
        Effects e0, e1, e2;
        eff.n = 0;
        if constexpr (std::is_void<R>::value)
        {
            try { std::apply([&](auto... a) { d(std::forward<A>(a)...); }, args); } catch (const std::exception&) { t0 = true; }
            e0 = eff; eff.n = 0;
            opt::optional<void> r1, r2;
            try { std::apply([&](auto... a) { r1 = s(std::forward<A>(a)...); }, args); } catch (const std::exception&) { t1 = true; }
            e1 = eff; eff.n = 0;
            try { std::apply([&](auto... a) { r2 = g(std::forward<A>(a)...); }, args); } catch (const std::exception&) { t2 = true; }
            e2 = eff;
            if (t1 != t0 || t2 != t0) fail("%s: throws in one way but not in another", current);
            if (r1 || r2) fail("%s: the result of a void call is engaged", current);
        }
        else
        {
            std::vector<R> want;
            try { std::apply([&](auto... a) { want.emplace_back(static_cast<R>(d(std::forward<A>(a)...))); }, args); } catch (const std::exception&) { t0 = true; }
            e0 = eff; eff.n = 0;
            opt::optional<R> r1, r2;
            try { std::apply([&](auto... a) { r1 = s(std::forward<A>(a)...); }, args); } catch (const std::exception&) { t1 = true; }
            e1 = eff; eff.n = 0;
            try { std::apply([&](auto... a) { r2 = g(std::forward<A>(a)...); }, args); } catch (const std::exception&) { t2 = true; }
            e2 = eff;
            if (t0) want.emplace_back(static_cast<R>(R()));
            Out<R>::check(r1, t1, t0, want[0], "through a slot");
            Out<R>::check(r2, t2, t0, want[0], "through a signal");
        }
        if (!(e1 == e0)) fail("%s through a slot: other effects than the direct call", current);
        if (!(e2 == e0)) fail("%s through a signal: other effects than the direct call", current);
    }
}

// A function object (anything called by itself).
template<class R, class... A, class F>
void fn(const char* name, F f0)
{
    current = name;
    int how = (int)pick(6);
    trace("%s, way %d", name, how);
    F d = f0;
    const F cf = f0;
    F lf = f0;
    typedef sig::slot<R(A...)> Slot;
    Slot s;
    switch (how)
    {
    case 0: s = Slot(F(f0)); break;
    case 1: s = Slot(lf); break;
    case 2: s = Slot(cf); break;
    case 3: { Slot t(lf); Slot u(t); s = std::move(u); break; }
    case 4: { Slot t{ F(f0) }; s = t; break; }
    default: { Slot t(cf); Slot u(std::move(t)); s = u; break; }
    }
    sig::signal<R(A...)> g;
    sig::scoped_connection sc;
    switch (how)
    {
    case 0: g.connect(F(f0)); break;
    case 1: g.connect(lf); break;
    case 2: g.connect(cf); break;
    case 3: g.connect(Slot(lf)); break;
    case 4: sc = g.connect_scoped(lf); break;
    default: sc = g.connect_scoped(Slot(cf)); break;
    }
    threeWays<R, A...>([&](auto&&... a) -> decltype(auto) { return std::invoke(d, std::forward<decltype(a)>(a)...); },
        [&](auto&&... a) { return s(std::forward<decltype(a)>(a)...); }, [&](auto&&... a) { return g(std::forward<decltype(a)>(a)...); });
}
// A function or function pointer.
template<class R, class... A, class F>
void fp(const char* name, F* f)
{
    current = name;
    int how = (int)pick(4);
    trace("%s, way %d", name, how);
    typedef sig::slot<R(A...)> Slot;
    Slot s;
    sig::signal<R(A...)> g;
    F* const cp = f;
    switch (how)
    {
    case 0: s = Slot(f); g.connect(f); break;
    case 1: s = Slot(*f); g.connect(*f); break;
    case 2: s = Slot(cp); g.connect(cp); break;
    default: s = Slot(std::ref(*f)); g.connect(std::ref(*f)); break;
    }
    threeWays<R, A...>([&](auto&&... a) -> decltype(auto) { return f(std::forward<decltype(a)>(a)...); },
        [&](auto&&... a) { return s(std::forward<decltype(a)>(a)...); }, [&](auto&&... a) { return g(std::forward<decltype(a)>(a)...); });
}

// A member of an object, given in every way. mk makes equal objects.
template<class R, class... A, class M, class Mk>
void mem(const char* name, M m, Mk mk)
{
    typedef decltype(mk(0)) Obj;
    current = name;
    int seed = anyInt();
    int how = (int)pick(6);
    trace("%s, object given as %s", name, (const char*[]){ "pointer", "reference wrapper", "value", "shared_ptr", "weak_ptr", "const shared_ptr lvalue" }[how]);
    typedef sig::slot<R(A...)> Slot;
    auto od = std::make_shared<Obj>(mk(seed)), os = std::make_shared<Obj>(mk(seed)), og = std::make_shared<Obj>(mk(seed));
    Slot s;
    sig::signal<R(A...)> g;
    const auto cog = og;
    switch (how)
    {
    case 0: s = Slot(m, os.get()); g.connect(m, og.get()); break;
    case 1: s = Slot(m, std::ref(*os)); g.connect(m, std::ref(*og)); break;
    case 2: s = Slot(m, *os); g.connect(m, *og); break;
    case 3: s = Slot(m, os); g.connect(m, og); break;
    case 4: { std::weak_ptr<Obj> w(os), w2(og); s = Slot(m, w); g.connect(Slot(m, w2)); break; }
    default: { const auto cos = os; s = Slot(m, cos); g.connect(m, cog); break; }
    }
    Obj before = *og;
    threeWays<R, A...>([&](auto&&... a) -> decltype(auto) { return std::invoke(m, *od, std::forward<decltype(a)>(a)...); },
        [&](auto&&... a) { return s(std::forward<decltype(a)>(a)...); }, [&](auto&&... a) { return g(std::forward<decltype(a)>(a)...); });
    if (how == 2)
    {
        if (!(*og == before) || !(*os == before)) fail("%s: a slot bound to a copy changed the original", name);
    }
    else if (!(*og == *od) || !(*os == *od)) fail("%s: the object's state differs from that after the direct call", name);
}
// A const member: also const objects.
template<class R, class... A, class M, class Mk>
void memc(const char* name, M m, Mk mk)
{
    if (pick(2)) { mem<R, A...>(name, m, mk); return; }
    typedef decltype(mk(0)) Obj;
    current = name;
    int seed = anyInt();
    int how = (int)pick(4);
    trace("%s, const object, way %d", name, how);
    typedef sig::slot<R(A...)> Slot;
    const Obj od = mk(seed), os = mk(seed);
    auto sp = std::make_shared<const Obj>(mk(seed));
    Slot s;
    sig::signal<R(A...)> g;
    switch (how)
    {
    case 0: s = Slot(m, &os); g.connect(m, &os); break;
    case 1: s = Slot(m, std::cref(os)); g.connect(m, std::cref(os)); break;
    case 2: s = Slot(m, os); g.connect(m, os); break;
    default: s = Slot(m, sp); g.connect(m, sp); break;
    }
    // A copy of a const object is held as a non-const one: the direct call is on what the slot holds.
    Obj held = od;
    if (how == 2)
        threeWays<R, A...>([&](auto&&... a) -> decltype(auto) { return std::invoke(m, held, std::forward<decltype(a)>(a)...); },
            [&](auto&&... a) { return s(std::forward<decltype(a)>(a)...); }, [&](auto&&... a) { return g(std::forward<decltype(a)>(a)...); });
    else
        threeWays<R, A...>([&](auto&&... a) -> decltype(auto) { return std::invoke(m, od, std::forward<decltype(a)>(a)...); },
            [&](auto&&... a) { return s(std::forward<decltype(a)>(a)...); }, [&](auto&&... a) { return g(std::forward<decltype(a)>(a)...); });
}

struct Pt { int a; Pt(int x = 0) : a(x) {} bool operator==(const Pt& o) const { return a == o.a; } };
struct NoDefault { int a; explicit NoDefault(int x) : a(x) {} bool operator==(const NoDefault& o) const { return a == o.a; } };
struct FromInt { int a; FromInt() : a(7) {} FromInt(int x) : a(x) {} bool operator==(const FromInt& o) const { return a == o.a; } };
enum class Color { Red, Green, Blue };

#ifdef CALL_G
#if CALL_G == 0
// Functions and function pointers.
static int f1(int x) { eff.note(1, x); return mixi(x, 1); }
static int f1n(int x) noexcept { eff.note(2, x); return mixi(x, 2); }
static void fv(int x) { eff.note(3, x); }
static void fv0() { eff.note(4, 0); }
static int f0() { eff.note(5, 0); return 42; }
static std::string fs(std::string a, const std::string& b) { eff.note(6, (long)a.size()); return a + "|" + b; }
static int fover(int x) { eff.note(7, x); return 1; }
static int fover(double x) { eff.note(8, (long)x); return 2; }
static int fover(const std::string& s) { eff.note(9, (long)s.size()); return 3; }
template<class T> static int ft(T x) { eff.note(10, (long)x); return (int)sizeof(T); }
static int fthrow(int x) { eff.note(11, x); if (x & 1) throw std::runtime_error("odd"); return x; }
static int f10(int a, int b, int c, int d, int e, int f, int g, int h, int i, int j) { return mixi(a, mixi(b, mixi(c, mixi(d, mixi(e, mixi(f, mixi(g, mixi(h, mixi(i, j))))))))); }
static int fbig(double a, std::string b, std::vector<int> c, bool d) { return mixi((int)a, mixi((int)b.size(), mixi((int)c.size(), d))); }
void call_g0()
{
    switch (pick(15))
    {
    case 0: fp<int, int>("function", f1); break;
    case 1: fp<int, int>("noexcept function", f1n); break;
    case 2: fp<void, int>("void function", fv); break;
    case 3: fp<void>("function without parameters", fv0); break;
    case 4: fp<int>("function without parameters, with a result", f0); break;
    case 5: fp<std::string, std::string, std::string>("function of strings", fs); break;
    case 6: fp<int, int>("overloaded function (int)", static_cast<int (*)(int)>(fover)); break;
    case 7: fp<int, double>("overloaded function (double)", static_cast<int (*)(double)>(fover)); break;
    case 8: fp<int, std::string>("overloaded function (string)", static_cast<int (*)(const std::string&)>(fover)); break;
    case 9: fp<int, short>("function template", &ft<short>); break;
    case 10: fp<int, int>("throwing function", fthrow); break;
    case 11: fp<int, int, int, int, int, int, int, int, int, int, int>("ten parameters", f10); break;
    case 12: fp<int, double, std::string, std::vector<int>, bool>("mixed parameters", fbig); break;
    case 13: fp<void, int>("result dropped", f1); break;
    default: fp<int, int>("parameter converted", static_cast<int (*)(double)>(fover)); break;
    }
}
#elif CALL_G == 1
// Function objects.
struct Const { int k; int operator()(int x) const { eff.note(20, x); return mixi(k, x); } };
struct Mutable { int k; int operator()(int x) { eff.note(21, k); k = mixi(k, x); return k; } };
struct Both { int k; int operator()(int x) { eff.note(22, x); return ++k; } int operator()(int x) const { eff.note(23, x); return -k; } };
struct RefQ { int k; int operator()(int x) & { eff.note(24, x); return 1; } int operator()(int x) const& { eff.note(25, x); return 2; } int operator()(int x) && { eff.note(26, x); return 3; } };
struct Over { int operator()(int) const { return 1; } int operator()(double) const { return 2; } int operator()(const std::string&) const { return 3; } int operator()() const { return 4; } };
struct ArgRef { int operator()(int&) const { return 1; } int operator()(const int&) const { return 2; } int operator()(int&&) const { return 3; } };
struct StrRef { int operator()(std::string&) const { return 1; } int operator()(const std::string&) const { return 2; } int operator()(std::string&&) const { return 3; } };
struct Templ { template<class... T> int operator()(T&&... t) const { return (int)sizeof...(T) * 16 + (std::is_lvalue_reference<T>::value + ... + 0); } };
struct Default { int operator()(int x, int y = 5) const { return mixi(x, y); } };
static int target(int x) { eff.note(27, x); return mixi(x, 27); }
struct Surrogate { using P = int (*)(int); operator P() const { return &target; } };
struct Agg { std::function<int(int)> f; int n; int operator()(int x) { ++n; return mixi(f(x), n); } };
struct Final final { int operator()(int x) const noexcept { return x ^ 5; } };
struct Thrower { int n; int operator()(int x) { ++n; if (n % 2) throw std::runtime_error("x"); return mixi(n, x); } };
struct Base { virtual ~Base() {} virtual int operator()(int x) const { return mixi(x, 100); } };
struct Derived : Base { int k; Derived(int k) : k(k) {} int operator()(int x) const override { eff.note(28, k); return mixi(x, k); } };
struct Big { std::array<int, 100> a; int operator()(int x) { a[(unsigned)x % 100] += 1; int r = 0; for (int v : a) r = mixi(r, v); return r; } };
struct alignas(64) Aligned { int k; int operator()(int x) const { return mixi(mixi(k, x), reinterpret_cast<uintptr_t>(this) % 64 ? 1 : 0); } };
struct Void { int n; void operator()(int x) { eff.note(29, mixi(++n, x)); } };
struct Empty {};
struct CommaResult { template<class T> friend int operator,(CommaResult, T&&) { return 0; } };
void call_g1()
{
    int k = anyInt();
    switch (pick(20))
    {
    case 0: fn<int, int>("const function object", Const{ k }); break;
    case 1: fn<int, int>("mutable function object", Mutable{ k }); break;
    case 2: fn<int, int>("function object overloaded on const", Both{ k & 1023 }); break;
    case 3: fn<int, int>("function object with ref-qualified overloads", RefQ{ k }); break;
    case 4: fn<int, int>("overloaded function object (int)", Over{}); break;
    case 5: fn<int, double>("overloaded function object (double)", Over{}); break;
    case 6: fn<int, std::string>("overloaded function object (string)", Over{}); break;
    case 7: fn<int>("overloaded function object ()", Over{}); break;
    case 8: fn<int, int>("overloaded on the argument's value category (int)", ArgRef{}); break;
    case 9: fn<int, std::string>("overloaded on the argument's value category (string)", StrRef{}); break;
    case 10: fn<int, int, double, std::string>("variadic function object", Templ{}); break;
    case 11: fn<int, int>("default argument", Default{}); break;
    case 12: fn<int, int>("surrogate call", Surrogate{}); break;
    case 13: fn<int, int>("aggregate function object", Agg{ [k](int x) { return mixi(k, x) / 2; }, 3 }); break;
    case 14: fn<int, int>("final noexcept function object", Final{}); break;
    case 15: fn<int, int>("throwing function object", Thrower{ (int)pick(2) }); break;
    case 16: fn<int, int>("function object with virtual call", Derived(k)); break;
    case 17: fn<int, int>("big function object", Big{}); break;
    case 18: fn<int, int>("over-aligned function object", Aligned{ k }); break;
    default: fn<void, int>("void function object", Void{ 0 }); break;
    }
}
#elif CALL_G == 2
// Lambdas, bind expressions, std::function, std::mem_fn, references to function objects.
struct Acc { int k; int add(int x) { eff.note(40, k); k = mixi(k, x); return k; } int get() const { return k; } int pub; };
struct Counter { int k; int operator()(int x) { eff.note(41, k); k = mixi(k, x); return k; } int operator()(int x) const { eff.note(42, k); return mixi(k, x); } };
static int three(int a, int b, int c) { return mixi(a, mixi(b, c)); }
template<class R, class... A, class F, class T> static void viaRef(const char* name, T init, F)
{
    current = name;
    T d = init, so = init, go = init;
    sig::slot<R(A...)> s(F::of(so));
    sig::signal<R(A...)> g;
    g.connect(F::of(go));
    trace("%s", name);
    threeWays<R, A...>([&](auto&&... a) -> decltype(auto) { return F::of(d)(std::forward<decltype(a)>(a)...); },
        [&](auto&&... a) { return s(std::forward<decltype(a)>(a)...); }, [&](auto&&... a) { return g(std::forward<decltype(a)>(a)...); });
    if (d.k != so.k || d.k != go.k) fail("%s: the referenced object's state differs from that after the direct call", name);
}
struct ByRef { template<class T> static auto of(T& t) { return std::ref(t); } };
struct ByCref { template<class T> static auto of(T& t) { return std::cref(t); } };
struct BindRef { template<class T> static auto of(T& t) { return std::bind(&T::add, std::ref(t), std::placeholders::_1); } };
struct BindPtr { template<class T> static auto of(T& t) { return std::bind(&T::add, &t, std::placeholders::_1); } };
struct LamRef { template<class T> static auto of(T& t) { return [&t](int x) { return t.add(x); }; } };
void call_g2()
{
    using namespace std::placeholders;
    int k = anyInt();
    std::string big(range(0, 40), 'q');
    switch (pick(20))
    {
    case 0: fn<int, int>("captureless lambda", [](int x) { eff.note(43, x); return mixi(x, 9); }); break;
    case 1: fn<int, int>("lambda with captures", [k, big](int x) { return mixi(mixi(k, x), (int)big.size()); }); break;
    case 2: fn<int, int>("mutable lambda", [k](int x) mutable { k = mixi(k, x); return k; }); break;
    case 3: fn<std::string, std::string>("generic lambda", [big](auto s) { return s + big; }); break;
    case 4: fn<int, int, double>("generic lambda with two parameters", [](auto&& a, auto&& b) { return std::is_rvalue_reference<decltype(a)>::value * 2 + std::is_same<std::decay_t<decltype(b)>, double>::value; }); break;
    case 5: fn<int, int>("lambda returning by decltype(auto)", [k](int x) -> const int& { static int r; r = mixi(k, x); return r; }); break;
    case 6: fn<int, int>("bind", std::bind(three, k, _1, 3)); break;
    case 7: fn<int, int, int>("bind that reorders", std::bind(three, _2, _1, _2)); break;
    case 8: fn<int, int>("nested bind", std::bind(three, std::bind(three, _1, 1, k), _1, 2)); break;
    case 9: fn<int>("full bind", std::bind(three, 1, 2, k)); break;
    case 10: fn<int, int>("bind to a member of a copy", std::bind(&Acc::add, Acc{ k, 0 }, _1)); break;
    case 11: fn<int, int>("std::function", std::function<int(int)>([k](int x) { return mixi(k, x); })); break;
    case 12: fn<int, int>("std::function with state", std::function<int(int)>([k](int x) mutable { k = mixi(k, x); return k; })); break;
    case 13: fn<int, int>("empty std::function", std::function<int(int)>()); break;
    case 14: fn<long, short>("std::function with conversions", std::function<int(long)>([k](long x) { return mixi(k, (int)x); })); break;
    case 15: viaRef<int, int>("reference to a function object", Counter{ k }, ByRef()); break;
    case 16: viaRef<int, int>("const reference to a function object", Counter{ k }, ByCref()); break;
    case 17: viaRef<int, int>("bind to a member by reference", Acc{ k, 0 }, BindRef()); break;
    case 18: viaRef<int, int>("bind to a member by pointer", Acc{ k, 0 }, BindPtr()); break;
    default: viaRef<int, int>("lambda with a reference", Acc{ k, 0 }, LamRef()); break;
    }
}
#elif CALL_G == 3
// Members of objects.
struct A
{
    int k, data = 0;
    std::string str;
    explicit A(int x) : k(x), data(mixi(x, 3)), str((unsigned)x % 40, 's') {}
    virtual ~A() {}
    int set(int x) { eff.note(60, k); k = mixi(k, x); return k; }
    int get(int x) const { eff.note(61, k); return mixi(k, x); }
    int both(int x) { eff.note(62, k); int o = k & 1; k = mixi(k, 1); return mixi(k, x) / 2 + o; }
    int both(int x) const { eff.note(63, k); return mixi(k, ~x); }
    virtual int virt(int x) { eff.note(64, x); return k = mixi(k, x); }
    virtual int cvirt(int x) const { eff.note(65, x); return mixi(k, x); }
    int ne(int x) noexcept { k ^= x; return k; }
    int cne(int x) const noexcept { return k ^ x; }
    int lr(int x) & { k = mixi(k, x & 7); return k & 255; }
    int clr(int x) const& { return (k ^ x) & 255; }
    int thr(int x) { k = mixi(k, 1); if (x & 1) throw std::runtime_error("odd"); return mixi(k, x); }
    void nothing(int x) { eff.note(66, x); k = mixi(k, x); }
    void none() { eff.note(67, k); k = mixi(k, 1); }
    std::string text(std::string a, std::string b) const { return str + a + b; }
    const std::string& rtext() const { return str; }
    int dflt(int x, int y, int z) { return k = mixi(x, mixi(y, z)); }
    bool operator==(const A& o) const { return k == o.k && data == o.data && str == o.str; }
};
struct Pad { int pad[3] = { 1, 2, 3 }; virtual ~Pad() {} virtual int virt2(int x) { return x; } int padded(int x) { return pad[1] = mixi(pad[1], x & 3); } };
struct B : Pad, A
{
    int extra = 5;
    explicit B(int x) : A(x) {}
    int virt(int x) override { eff.note(70, x); extra = mixi(extra, x); return mixi(k, extra); }
    int cvirt(int x) const override { eff.note(71, x); return mixi(k, mixi(extra, x & 15)); }
    int own(int x) { return extra = mixi(extra, x); }
    bool operator==(const B& o) const { return A::operator==(o) && extra == o.extra && pad[1] == o.pad[1]; }
};
struct C : B { explicit C(int x) : B(x) {} int virt2(int x) override { eff.note(72, x); return k = mixi(k, x); } bool operator==(const C& o) const { return B::operator==(o); } };
void call_g3()
{
    auto mkA = [](int s) { return A(s); };
    auto mkB = [](int s) { return B(s); };
    auto mkC = [](int s) { return C(s); };
    switch (pick(24))
    {
    case 0: mem<int, int>("member function", &A::set, mkA); break;
    case 1: memc<int, int>("const member function", &A::get, mkA); break;
    case 2: mem<int, int>("overloaded on const, non-const one", static_cast<int (A::*)(int)>(&A::both), mkA); break;
    case 3: memc<int, int>("overloaded on const, const one", static_cast<int (A::*)(int) const>(&A::both), mkA); break;
    case 4: mem<int, int>("virtual function of the base, derived object", &A::virt, mkB); break;
    case 5: memc<int, int>("const virtual function of the base, derived object", &A::cvirt, mkB); break;
    case 6: mem<int, int>("virtual function, base object", &A::virt, mkA); break;
    case 7: mem<int, int>("noexcept member function", &A::ne, mkA); break;
    case 8: memc<int, int>("const noexcept member function", &A::cne, mkA); break;
    case 9: mem<int, int>("lvalue-qualified member function", &A::lr, mkA); break;
    case 10: memc<int, int>("const lvalue-qualified member function", &A::clr, mkA); break;
    case 11: mem<int, int>("throwing member function", &A::thr, mkA); break;
    case 12: mem<void, int>("void member function", &A::nothing, mkA); break;
    case 13: mem<void>("void member function without parameters", &A::none, mkA); break;
    case 14: memc<std::string, std::string, std::string>("member function of strings", &A::text, mkA); break;
    case 15: memc<std::string>("member function returning a reference", &A::rtext, mkA); break;
    case 16: mem<int, int>("member function of the second base", &A::set, mkB); break;
    case 17: mem<int, int>("member function of the first base", &B::padded, mkB); break;
    case 18: mem<int, int>("member function of the derived class", &B::own, mkC); break;
    case 19: mem<int, int>("virtual function of the first base, two levels", &Pad::virt2, mkC); break;
    case 20: mem<void, int>("member function, result dropped", &A::set, mkA); break;
    case 21: mem<int, int, int, int>("member function with three parameters", &A::dflt, mkA); break;
    case 22: mem<double, short>("member function with conversions", &A::set, mkB); break;
    default: mem<int, int>("derived member pointer converted", static_cast<int (B::*)(int)>(&A::set), mkB); break;
    }
}
#elif CALL_G == 4
// Member data, and members whose object is the first argument.
struct D { int i; double d; std::string s; const int c; int arr; std::function<int(int)> f; D(int x) : i(x), d(x / 4.0), s((unsigned)x % 30, 'd'), c(~x), arr(x * 3u) {} bool operator==(const D& o) const { return i == o.i && d == o.d && s == o.s && c == o.c && arr == o.arr; } };
struct E : Pt, D { E(int x) : Pt(x ^ 1), D(x) {} bool operator==(const E& o) const { return D::operator==(o) && a == o.a; } };
struct M { int k; int hit(int x) { eff.note(80, k); return k = mixi(k, x); } int look(int x) const { eff.note(81, k); return mixi(k, x); } int pub; };
struct N : M {};
template<class T> static void firstArg(const char* name)
{
    // signal<int(T, int)> with a member: the object is an argument.
    current = name;
    trace("%s", name);
    int k = anyInt(), x = anyInt();
    auto d = std::make_shared<N>(), s = std::make_shared<N>(), g = std::make_shared<N>();
    d->k = s->k = g->k = k;
    auto pass = [](std::shared_ptr<N>& p) -> decltype(auto)
    {
        if constexpr (std::is_same<T, M&>::value || std::is_same<T, const M&>::value) return static_cast<T>(*p);
        else if constexpr (std::is_pointer<T>::value) return static_cast<T>(p.get());
        else if constexpr (std::is_same<T, std::shared_ptr<M>>::value) return T(p);
        else return T(*p);
    };
    constexpr bool isConst = std::is_same<T, const M&>::value || std::is_same<T, const M*>::value;
    auto m = [] { if constexpr (isConst) return &M::look; else return &M::hit; }();
    sig::slot<int(T, int)> sl(m);
    sig::signal<int(T, int)> sg;
    sg.connect(m);
    int n = range(1, 3);
    for (int i = 0; i < n; ++i)
    {
        eff.n = 0;
        int want = std::invoke(m, pass(d), x + 0);
        Effects e0 = eff; eff.n = 0;
        auto r1 = sl(pass(s), x + 0);
        Effects e1 = eff; eff.n = 0;
        auto r2 = sg(pass(g), x + 0);
        Effects e2 = eff;
        if (!r1 || !r2) fail("%s: the result is empty", name);
        if (*r1 != want || *r2 != want) fail("%s: the result differs from that of the direct call", name);
        if (!(e0 == e1) || !(e0 == e2)) fail("%s: other effects than the direct call", name);
        if (s->k != d->k || g->k != d->k) fail("%s: the object's state differs from that after the direct call", name);
        x = mixi(x, i);
    }
    if (n > 1) vp::nontrivial();
}
// Data read through a slot follows later changes of the object (by pointer), or not (by value).
static void dataFollows()
{
    current = "member data follows its object";
    int a = anyInt(), b = anyInt();
    D o(a);
    auto sp = std::make_shared<D>(a);
    sig::signal<int()> ptr, ref, val, trk;
    ptr.connect(&D::i, &o);
    ref.connect(&D::i, std::ref(o));
    val.connect(&D::i, o);
    trk.connect(&D::i, sp);
    sig::slot<int()> s(&D::i, &o), v(&D::i, o);
    auto want = [&](auto&& r, int w, const char* n) { if (!r || *r != w) fail("%s: %s", current, n); };
    want(ptr(), a, "pointer"); want(ref(), a, "reference"); want(val(), a, "value"); want(trk(), a, "shared_ptr"); want(s(), a, "slot"); want(v(), a, "slot by value");
    o.i = sp->i = b;
    want(ptr(), b, "pointer"); want(ref(), b, "reference"); want(val(), a, "value"); want(trk(), b, "shared_ptr"); want(s(), b, "slot"); want(v(), a, "slot by value");
    sp.reset();
    if (trk()) fail("%s: read from a dead object", current);
    vp::nontrivial();
}
void call_g4()
{
    auto mkD = [](int s) { return D(s); };
    auto mkE = [](int s) { return E(s); };
    switch (pick(15))
    {
    case 0: memc<int>("member data", &D::i, mkD); break;
    case 1: memc<double>("member data, double", &D::d, mkD); break;
    case 2: memc<std::string>("member data, string", &D::s, mkD); break;
    case 3: memc<int>("const member data", &D::c, mkD); break;
    case 4: memc<long>("member data, converted", &D::i, mkD); break;
    case 5: memc<int>("member data of a base", &D::arr, mkE); break;
    case 6: memc<int>("member data of the first base", &E::a, mkE); break;
    case 7: memc<bool>("member data to bool", &D::d, mkE); break;
    case 8: firstArg<M&>("member function, object is a reference argument"); break;
    case 9: firstArg<const M&>("const member function, object is a reference argument"); break;
    case 10: firstArg<M*>("member function, object is a pointer argument"); break;
    case 11: firstArg<const M*>("const member function, object is a pointer argument"); break;
    case 12: firstArg<std::shared_ptr<M>>("member function, object is a shared_ptr argument"); break;
    default: dataFollows(); break;
    }
}
#elif CALL_G == 5
// Results: types and conversions.
struct DerPt : Pt { DerPt(int x) : Pt(x) {} };
struct ToInt { int v; operator int() const { eff.note(90, v); return v; } };
struct Ops { int k; int i(int x) { return k = mixi(k, x); } const char* t(int x) { return x & 1 ? "odd" : "even"; } bool b(int x) { return x & 1; } Color c(int x) { return (Color)(x & 1); } std::nullptr_t n(int) { return nullptr; } bool operator==(const Ops& o) const { return k == o.k; } };
template<class R, class F> static void res(const char* name, F f) { fn<R, int>(name, f); }
void call_g5()
{
    int k = anyInt();
    static DerPt pool[4] = { 1, 2, 3, 4 };
    auto mk = [](int s) { return Ops{ s }; };
    switch (pick(30))
    {
    case 0: res<long>("int to long", [k](int x) { return mixi(k, x); }); break;
    case 1: res<double>("int to double", [k](int x) { return mixi(k, x); }); break;
    case 2: res<int>("double to int", [](int x) { return (x % 100000) / 8.0; }); break;
    case 3: res<bool>("int to bool", [](int x) { return x & 2; }); break;
    case 4: res<bool>("pointer to bool", [](int x) { return x & 1 ? &pool[0] : nullptr; }); break;
    case 5: res<std::string>("string", [](int x) { return std::string(x & 1 ? "odd" : ""); }); break;
    case 6: res<Pt*>("derived to base pointer", [](int x) { return &pool[x & 3]; }); break;
    case 7: res<const Pt*>("null pointer", [](int) { return nullptr; }); break;
    case 8: res<Pt>("derived to base object", [](int x) { return pool[x & 3]; }); break;
    case 9: res<NoDefault*>("pointer", [](int x) { static NoDefault n(3); return x & 1 ? &n : (NoDefault*)nullptr; }); break;
    case 10: res<FromInt>("class that is made from int", [k](int x) { return FromInt(mixi(k, x)); }); break;
    case 11: res<ToInt>("class that converts to int", [](int x) { return ToInt{ x }; }); break;
    case 12: res<int>("unscoped conversion from char", [](int x) { return (char)x; }); break;
    case 13: res<unsigned char>("int to unsigned char", [](int x) { return x; }); break;
    case 14: res<Color>("enumeration", [](int x) { return (Color)((unsigned)x % 3); }); break;
    case 15: res<std::vector<int>>("vector", [k](int x) { return std::vector<int>((unsigned)x % 9, k); }); break;
    case 16: res<std::vector<int>>("reference to vector", [](int x) -> std::vector<int>& { static std::vector<int> v[2] = { { 1, 2 }, {} }; return v[x & 1]; }); break;
    case 17: res<std::shared_ptr<Pt>>("shared_ptr to base", [](int x) { static std::shared_ptr<Pt> p = std::make_shared<DerPt>(5); return x & 1 ? p : std::shared_ptr<Pt>(); }); break;
    case 18: res<std::string>("reference to string", [](int x) -> const std::string& { static std::string s[2] = { "a", "a longer string than the buffer" }; return s[x & 1]; }); break;
    case 19: res<bool>("false", [](int x) { eff.note(91, x); return false; }); break;
    case 20: res<int>("zero", [](int x) { eff.note(92, x); return 0; }); break;
    case 21: res<std::pair<int, double>>("pair", [k](int x) { return std::make_pair(k, x / 8.0); }); break;
    case 22: res<void>("result dropped", [](int x) { eff.note(93, x); return std::string("dropped"); }); break;
    case 23: mem<const char*, int>("member, const char*", &Ops::t, mk); break;
    case 24: mem<int, int>("member, bool to int", &Ops::b, mk); break;
    case 25: mem<Color, int>("member, enumeration", &Ops::c, mk); break;
    case 26: mem<Pt*, int>("member, null pointer", &Ops::n, mk); break;
    case 27: mem<long long, int>("member, int to long long", &Ops::i, mk); break;
    case 28: mem<bool, int>("member, int to bool", &Ops::i, mk); break;
    default: mem<void, int>("member, result dropped", &Ops::t, mk); break;
    }
}
#elif CALL_G == 6
// Functions and function objects that are bound to an object or value, their first argument.
static int b1(int p, int x) { eff.note(100, p); return mixi(p, x); }
static int b2(const std::string& p, int x) { eff.note(101, (long)p.size()); return mixi((int)p.size(), x); }
static void b3(Pt* p, int x) { eff.note(102, p->a); p->a = mixi(p->a, x); }
static int b4(std::shared_ptr<Pt> p, int x) { eff.note(103, p->a); return p->a = mixi(p->a, x); }
static std::string b5(const std::vector<int>& p, std::string a) { return a + std::to_string(p.size()); }
static int b6(Pt& p, int x) { eff.note(104, p.a); return p.a = mixi(p.a, x); }
static long b7(int p) { return p; }
static int b8(int x) { eff.note(108, x); return mixi(x, 8); }
struct State
{
    std::vector<int> v;
    State(int k) : v{ k, 1, 2 } {}
    template<class P> int operator()(P&& p, int x) { eff.note(105, v.empty() ? -1 : v[0]); if (v.empty()) return -1; v[0] = mixi(v[0], x); return mixi(v[0], val(p)); }
    static int val(int p) { return p; }
    static int val(const std::string& p) { return (int)p.size(); }
    static int val(const Pt* p) { return p->a; }
    static int val(const Pt& p) { return p.a; }
    static int val(const std::shared_ptr<Pt>& p) { return p->a; }
    static int val(const std::function<int(int)>& p) { return p(3); }
    bool operator==(const State& o) const { return v == o.v; }
};
template<class P> static bool same(const P& a, const P& b) { return a == b; }
static bool same(const std::function<int(int)>& a, const std::function<int(int)>& b) { return bool(a) == bool(b); }
static bool same(const std::reference_wrapper<Pt>& a, const std::reference_wrapper<Pt>& b) { return &a.get() == &b.get(); }
template<class F> static bool sameF(const F& a, const F& b) { if constexpr (std::is_same<F, State>::value) return a == b; else return true; }
// pd, ps, pg: equal first arguments for the direct call, the slot and the signal
template<class R, class... A, class F, class P>
void bound(const char* name, F f0, P pd, P ps, P pg)
{
    current = name;
    int how = (int)pick(5);
    trace("%s, way %d", name, how);
    typedef sig::slot<R(A...)> Slot;
    Slot s;
    sig::signal<R(A...)> g;
    sig::scoped_connection sc;
    F lf = f0;
    P ps0 = ps, pg0 = pg;
    switch (how)
    {
    case 0: s = Slot(F(f0), P(ps)); g.connect(F(f0), P(pg)); break;
    case 1: s = Slot(lf, ps); g.connect(lf, pg); break;
    case 2: { const P cs = ps, cg = pg; s = Slot(lf, cs); g.connect(lf, cg); break; }
    case 3: { Slot t(lf, ps); s = t; g.connect(Slot(lf, pg)); break; }
    default: { Slot t(F(f0), ps); s = std::move(t); sc = g.connect_scoped(lf, pg); break; }
    }
    if (!sameF(lf, f0)) fail("%s: the caller's function object was changed", name);
    if (!same(ps, ps0) || !same(pg, pg0)) fail("%s: the caller's first argument was changed", name);
    threeWays<R, A...>([&](auto&&... a) -> decltype(auto) { return std::invoke(f0, pd, std::forward<decltype(a)>(a)...); },
        [&](auto&&... a) { return s(std::forward<decltype(a)>(a)...); }, [&](auto&&... a) { return g(std::forward<decltype(a)>(a)...); });
}
void call_g6()
{
    int k = anyInt(), n = range(0, 40);
    std::string str((size_t)n, 's');
    Pt d(k), s(k), g(k);
    auto sd = std::make_shared<Pt>(k), ss = std::make_shared<Pt>(k), sg = std::make_shared<Pt>(k);
    std::function<int(int)> sf([k](int x) { return mixi(k, x); });
    switch (pick(16))
    {
    case 0: bound<int, int>("function bound to an int", &b1, k, k, k); break;
    case 1: bound<int, int>("function bound to a string", &b2, str, str, str); break;
    case 2: bound<void, int>("function bound to a pointer", &b3, &d, &s, &g); break;
    case 3: bound<int, int>("function bound to a shared_ptr", &b4, sd, ss, sg); break;
    case 4: bound<std::string, std::string>("function bound to a vector", &b5, std::vector<int>(n, k), std::vector<int>(n, k), std::vector<int>(n, k)); break;
    case 5: bound<int, int>("function bound to a reference", &b6, std::ref(d), std::ref(s), std::ref(g)); break;
    case 6: bound<long>("function bound to its only argument", &b7, k, k, k); break;
    case 7: bound<int, int>("function object bound to an int", State(k), n, n, n); break;
    case 8: bound<int, int>("function object bound to a string", State(k), str, str, str); break;
    case 9: bound<int, int>("function object bound to a pointer", State(k), &d, &s, &g); break;
    case 10: bound<int, int>("function object bound to an object", State(k), d, s, g); break;
    case 11: bound<int, int>("function object bound to a shared_ptr", State(k), sd, ss, sg); break;
    case 12: bound<int, int>("function object bound to a std::function", State(k), sf, sf, sf); break;
    case 13: bound<void, int>("function object bound to an int, result dropped", State(k), n, n, n); break;
    case 14: bound<int, int>("lambda bound to a value it changes", [](auto&& p, int x) -> int { eff.note(106, p); return p = mixi(p, x); }, k, k, k); break;
    default: bound<int, int>("std::function bound to an int", std::function<int(int, int)>(&b1), k, k, k); break;
    }
    if (d.a != s.a || d.a != g.a) fail("%s: the object's state differs from that after the direct call", current);
    if (sd->a != ss->a || sd->a != sg->a) fail("%s: the shared object's state differs from that after the direct call", current);
    // A dead first argument: nothing is called.
    if (chance(1, 8))
    {
        eff.n = 0;
        sig::signal<int(int)> sig;
        auto c = sig.connect(&b4, sd);
        sig::slot<int(int)> sl(&b4, sd);
        sig.connect(&b8);
        sd.reset();
        if (c.connected() || sl.connected()) fail("a function bound to a dead object is connected");
        if (sl(1)) fail("a function bound to a dead object has a result");
        auto r = sig(k);
        if (!r || *r != mixi(k, 8) || eff.n != 1) fail("a function bound to a dead object disturbs the emission");
    }
}
#endif
#endif

#ifdef CALL_MAIN
void call_g0(), call_g1(), call_g2(), call_g3(), call_g4(), call_g5(), call_g6();
namespace vp
{
    const char* const rule =
        "A case picks one of about 140 combinations of callable (function, pointer, function object, lambda, bind, std::function, reference, member function or data, function or function object bound to its first argument) and result type, how it "
        "and its object are handed over (temporary, named, const, slot, scoped; pointer, const pointer, reference wrapper, value, shared_ptr, weak_ptr), and calls it 1-4 times with generated arguments directly (std::invoke), "
        "through a slot and through a signal, comparing results, recorded effects, exceptions and the object's state. Non-trivial: more than one call, so that state carries over. Distinct: by hash of all choices.";
}
void vp::run_case()
{
    switch (vp::weighted({ 3, 4, 4, 5, 3, 5, 4 }))
    {
    case 0: call_g0(); break;
    case 1: call_g1(); break;
    case 2: call_g2(); break;
    case 3: call_g3(); break;
    case 4: call_g4(); break;
    case 5: call_g5(); break;
    default: call_g6(); break;
    }
}
#endif
