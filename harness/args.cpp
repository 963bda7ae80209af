// Arguments of an emission as seen by every slot (C04). -DARGS_G=0..4, plus -DARGS_MAIN.
#include <signals.hpp>
#ifdef ARGS_MAIN
#include "vp_main.hpp"
#else
#include "vp.hpp"
#endif
#include <functional>
#include <memory>
#include <string>
#include <vector>

using vp::chance;
using vp::fail;
using vp::pick;
using vp::range;
using vp::trace;

// A value that knows whether it was moved from, and by whom it was made.
struct Probe
{
    int v;
    std::shared_ptr<int> body;
    explicit Probe(int x) : v(x), body(std::make_shared<int>(x)) {}
    Probe(const Probe& o) : v(o.v), body(o.body ? std::make_shared<int>(*o.body) : nullptr) {}
    Probe(Probe&& o) noexcept : v(o.v), body(std::move(o.body)) { o.v = -1; }
    Probe& operator=(const Probe&) = default;
    Probe& operator=(Probe&&) = default;
    bool operator==(const Probe& o) const { return v == o.v && bool(body) == bool(o.body) && (!body || *body == *o.body); }
};
enum class E : unsigned char { A, B = 200, C = 255 };

template<class T> struct Make;
template<> struct Make<Probe> { static Probe of(int x) { return Probe(x); } };
template<> struct Make<std::string> { static std::string of(int x) { return x % 5 == 0 ? std::string() : x % 5 == 1 ? std::string("s") + std::to_string(x) : std::string(40, 'a' + ((unsigned)x % 20)) + std::to_string(x); } };
template<> struct Make<std::vector<int>> { static std::vector<int> of(int x) { return std::vector<int>((unsigned)x % 7, x); } };
template<> struct Make<std::shared_ptr<int>> { static std::shared_ptr<int> of(int x) { return std::make_shared<int>(x); } };
template<> struct Make<int> { static int of(int x) { return x; } };
template<> struct Make<E> { static E of(int x) { return x % 3 == 0 ? E::A : x % 3 == 1 ? E::B : E::C; } };
template<> struct Make<std::function<int()>> { static std::function<int()> of(int x) { return [x] { return x; }; } };

template<class T> bool eqv(const T& a, const T& b) { return a == b; }
inline bool eqv(const std::shared_ptr<int>& a, const std::shared_ptr<int>& b) { return a == b && a; }
inline bool eqv(const std::function<int()>& a, const std::function<int()>& b) { return a && b && a() == b(); }
template<class T> void spoil(T& t) { T gone(std::move(t)); t = Make<T>::of(987); }

struct Seen { int n = 0; };

#ifdef ARGS_G
#if ARGS_G == 0
// A combiner that visits each slot as often as it is told.
static std::vector<int> visits;
struct Visits
{
    using result_type = int;
    template<class It> int operator()(It first, It last) const
    {
        int k = 0, sum = 0;
        for (; first != last; ++first, ++k)
            for (int i = 0; i < (k < (int)visits.size() ? visits[k] : 1); ++i) { *first; ++sum; }
        return sum;
    }
};
// One by-value parameter of class type.
template<class T, class Sig> static void byValue()
{
    Sig s;
    int n = range(1, 8);
    std::vector<int> kinds(n), calls(n, 0);
    T* callers = nullptr;       // the caller's object, if a slot may change it
    bool callerChanged = false;
    T expect = Make<T>::of(0);
    bool nestedDone = false;
    int depth = 0;
    bool consumed = false;
    std::vector<sig::connection> conns;
    for (int i = 0; i < n; ++i)
    {
        kinds[i] = range(0, 8);
        trace("slot %d: kind %d", i, kinds[i]);
        auto see = [&, i](const T& v)
        {
            ++calls[i];
            if (!eqv(v, expect)) fail("slot %d of %d did not receive the value that was passed", i, n);
        };
        sig::connection c;
        switch (kinds[i])
        {
        case 0: c = s.connect([=](T v) { see(v); }); break;
        case 1: c = s.connect([=, &consumed](T v) { see(v); T w(std::move(v)); consumed = true; (void)w; }); break;
        case 2: c = s.connect([=](const T& v) { see(v); }); break;
        case 3: c = s.connect([=, &consumed](T&& v) { see(v); T w(std::move(v)); consumed = true; (void)w; }); break;
        case 4: c = s.connect([=, &consumed](T v) { see(v); spoil(v); consumed = true; }); break;
        case 5: c = s.connect([=](auto&& v) { see(v); }); break;
        case 6: // emits again with its own argument, or with another one
        {
            int other = pick(2) ? range(0, 200) : -1;
            c = s.connect([=, &s, &nestedDone, &depth, &expect, &calls](T v)
            {
                see(v);
                if (!nestedDone && depth < 1)
                {
                    nestedDone = true;
                    ++depth;
                    std::vector<int> save = calls;
                    if (other < 0) s(std::move(v));
                    else
                    {
                        T outer = expect;
                        expect = Make<T>::of(other);
                        s(T(expect));
                        expect = outer;
                    }
                    calls = save;
                    --depth;
                }
            });
            break;
        }
        case 7: // changes the object that the caller passed a copy of
            c = s.connect([=, &callers, &callerChanged](T v) { see(v); if (callers) { spoil(*callers); callerChanged = true; } });
            break;
        default: { std::function<void(T)> f = [=](T v) { see(v); T w(std::move(v)); (void)w; }; c = s.connect(f); break; }
        }
        conns.push_back(c);
    }
    int em = range(1, 4);
    for (int q = 0; q < em; ++q)
    {
        int x = range(0, 200);
        expect = Make<T>::of(x);
        T arg = expect;
        std::fill(calls.begin(), calls.end(), 0);
        nestedDone = false;
        visits.assign(n, 1);
        for (int i = 0; i < n; ++i)
        {
            if (std::is_same<Sig, sig::signal<void(T), Visits>>::value) visits[i] = chance(1, 3) ? range(0, 3) : 1;
            if (chance(1, 6)) { if (conns[i].blocked()) conns[i].unblock(); else conns[i].block(); }
        }
        int how = range(0, 3);
        callers = how < 2 ? &arg : nullptr;
        callerChanged = false;
        trace("emit, argument %d as %d", x, how);
        const T& carg = arg;
        if (how == 0) s(arg);
        else if (how == 1) s(carg);
        else if (how == 2) s(std::move(arg));
        else s(T(arg));
        if ((how == 0 || how == 1 || how == 3) && !callerChanged)
            if (!eqv(arg, expect)) fail("the caller's argument was changed by the emission");
        for (int i = 0; i < n; ++i)
            if (calls[i] != (conns[i].blocked() ? 0 : visits[i])) fail("slot %d invoked %d times", i, calls[i]);
    }
    if (consumed && n >= 2) vp::nontrivial();
}
template<class T> static void byValue() { if (chance(1, 3)) byValue<T, sig::signal<void(T), Visits>>(); else byValue<T, sig::signal<void(T)>>(); }
void args_g0() { switch (pick(5)) { case 0: byValue<Probe>(); break; case 1: byValue<std::string>(); break; case 2: byValue<std::vector<int>>(); break; case 3: byValue<std::shared_ptr<int>>(); break; default: byValue<std::function<int()>>(); break; } }
#elif ARGS_G == 1
// References refer to the caller's object.
template<class T> static void byRef()
{
    using Sig = sig::signal<int(T&)>;
    Sig s;
    int n = range(1, 8);
    T obj = Make<T>::of(1);
    T model = obj;
    int order = 0;
    bool changed = false;
    for (int i = 0; i < n; ++i)
    {
        int k = range(0, 4);
        int nv = range(2, 99);
        auto see = [&, i](const T& v)
        {
            if (&v != &obj) fail("slot %d received another object than the caller's", i);
            if (!eqv(v, model)) fail("slot %d does not see the current value of the caller's object", i);
            ++order;
        };
        switch (k)
        {
        case 0: s.connect([=](T& v) { see(v); return 1; }); break;
        case 1: s.connect([=](const T& v) { see(v); return 2; }); break;
        case 2: s.connect([=, &model, &changed](T& v) { see(v); v = Make<T>::of(nv); model = v; changed = true; return 3; }); break;
        case 3: s.connect([=, &model, &order](T v) { if (!eqv(v, model)) fail("a by-value slot of a reference signal received a wrong value"); spoil(v); ++order; return 4; }); break;
        default: s.connect([=, &model, &changed](auto& v) { see(v); T w(std::move(v)); v = Make<T>::of(nv + 1); model = v; changed = true; return 5; }); break;
        }
    }
    int em = range(1, 3);
    for (int q = 0; q < em; ++q)
    {
        order = 0;
        obj = Make<T>::of(range(0, 99));
        model = obj;
        s(obj);
        if (order != n) fail("%d of %d slots invoked", order, n);
        if (!eqv(obj, model)) fail("the caller does not see the last change");
    }
    if (changed && n >= 2) vp::nontrivial();
}
template<class T> static void byConstRef()
{
    sig::signal<void(const T&)> s;
    int n = range(1, 6);
    T obj = Make<T>::of(3);
    const T* want = &obj;
    int seen = 0;
    for (int i = 0; i < n; ++i)
    {
        switch (range(0, 2))
        {
        case 0: s.connect([&, i](const T& v) { if (want && &v != want) fail("slot %d received a copy", i); if (!eqv(v, obj)) fail("slot %d received a wrong value", i); ++seen; }); break;
        case 1: s.connect([&, i](T v) { if (!eqv(v, obj)) fail("slot %d received a wrong value", i); spoil(v); ++seen; }); break;
        default: s.connect([&, i](auto const& v) { if (want && &v != want) fail("slot %d received a copy", i); ++seen; }); break;
        }
    }
    T before = obj;
    s(obj);
    if (!eqv(obj, before)) fail("a const reference argument was changed");
    want = nullptr;
    s(T(obj));
    if (seen != 2 * n) fail("%d of %d invocations", seen, 2 * n);
    if (n >= 2) vp::nontrivial();
}
// Not copyable, passed by reference.
static void byRefUnique()
{
    sig::signal<void(std::unique_ptr<int>&, const std::unique_ptr<int>&)> s;
    auto a = std::make_unique<int>(1), b = std::make_unique<int>(2);
    int* pb = b.get();
    int n = range(1, 5), taken = 0;
    for (int i = 0; i < n; ++i)
        s.connect([&, i](std::unique_ptr<int>& x, const std::unique_ptr<int>& y)
        {
            if (&x != &a || &y != &b) fail("slot %d received other objects", i);
            if (x) { *x += 1; if (i % 2) { x.reset(); ++taken; } }
            if (!y || y.get() != pb) fail("const unique_ptr argument changed");
        });
    s(a, b);
    if (n >= 2 && a) fail("a change by a slot is not visible to the caller");
    if (n < 2 && (!a || *a != 2)) fail("a change by a slot is not visible to the caller");
    if (n >= 2) vp::nontrivial();
}
void args_g1()
{
    switch (pick(9))
    {
    case 0: byRef<Probe>(); break;
    case 1: byRef<std::string>(); break;
    case 2: byRef<int>(); break;
    case 3: byRef<std::vector<int>>(); break;
    case 4: byConstRef<Probe>(); break;
    case 5: byConstRef<std::string>(); break;
    case 6: byConstRef<int>(); break;
    case 7: byConstRef<std::shared_ptr<int>>(); break;
    default: byRefUnique(); break;
    }
}
#elif ARGS_G == 2
// Several parameters of mixed kinds, in the right places.
static void mixed()
{
    using Sig = sig::signal<int(int, std::string, std::string&, const std::vector<int>&, Probe, E, double, std::shared_ptr<int>)>;
    Sig s;
    int n = range(1, 6);
    std::string ref = "ref", refModel = ref;
    std::vector<int> vec = Make<std::vector<int>>::of(range(0, 50));
    int a = vp::anyInt();
    std::string str = Make<std::string>::of(range(0, 99));
    Probe p(range(0, 99));
    E e = Make<E>::of(range(0, 2));
    double d = vp::anyInt() / 8.0;
    auto sp = std::make_shared<int>(5);
    const int a0 = a; const std::string str0 = str; const Probe p0 = p; const E e0 = e; const double d0 = d; const auto sp0 = sp;
    int seen = 0;
    for (int i = 0; i < n; ++i)
    {
        switch (range(0, 2))
        {
        case 0:
            s.connect([&, i](int x, std::string y, std::string& z, const std::vector<int>& w, Probe q, E f, double g, std::shared_ptr<int> h)
            {
                if (x != a0 || y != str0 || &z != &ref || &w != &vec || !(q == p0) || f != e0 || g != d0 || h != sp0 || z != refModel) fail("slot %d received wrong arguments", i);
                spoil(y); spoil(q); h.reset(); x = 0; g = 0; z += "!"; refModel += "!";
                ++seen;
                return i;
            });
            break;
        case 1:
            s.connect([&, i](int x, const std::string& y, std::string& z, const std::vector<int>& w, const Probe& q, E f, double g, const std::shared_ptr<int>& h)
            {
                if (x != a0 || y != str0 || &z != &ref || &w != &vec || !(q == p0) || f != e0 || g != d0 || h != sp0 || z != refModel) fail("slot %d received wrong arguments", i);
                ++seen;
                return i;
            });
            break;
        default:
            s.connect([&, i](int x, std::string&& y, std::string& z, const std::vector<int>& w, Probe&& q, E f, double g, std::shared_ptr<int>&& h)
            {
                if (x != a0 || y != str0 || &z != &ref || &w != &vec || !(q == p0) || f != e0 || g != d0 || h != sp0 || z != refModel) fail("slot %d received wrong arguments", i);
                std::string yy = std::move(y); Probe qq = std::move(q); auto hh = std::move(h);
                ++seen;
                return i;
            });
            break;
        }
    }
    int em = range(1, 3);
    for (int q = 0; q < em; ++q)
    {
        seen = 0;
        auto r = s(a, str, ref, vec, p, e, d, sp);
        if (seen != n || !r || *r != n - 1) fail("wrong number of slots or result");
        if (a != a0 || str != str0 || !(p == p0) || e != e0 || d != d0 || sp != sp0 || ref != refModel) fail("the caller's arguments changed");
        r = s(a0, std::string(str0), ref, vec, Probe(p0), e0, d0, std::shared_ptr<int>(sp0));
        if (seen != 2 * n) fail("wrong number of slots");
    }
    if (n >= 2) vp::nontrivial();
}
// Same type many times: positions must not be mixed up.
static void positions()
{
    sig::signal<void(int, int, int, int, int, int, int, int, int, int)> s;
    int v[10];
    for (int& x : v) x = vp::anyInt();
    int n = range(1, 4), seen = 0;
    for (int i = 0; i < n; ++i)
        s.connect([&](int a, int b, int c, int d, int e, int f, int g, int h, int k, int l)
        {
            int w[10] = { a, b, c, d, e, f, g, h, k, l };
            for (int j = 0; j < 10; ++j) if (w[j] != v[j]) fail("argument %d is wrong", j);
            ++seen;
        });
    s(v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9]);
    if (seen != n) fail("wrong number of slots");
    sig::signal<int()> none;
    for (int i = 0; i < n; ++i) none.connect([i] { return i; });
    auto r = none();
    if (!r || *r != n - 1) fail("emission without arguments is wrong");
    sig::signal<void(std::string, std::string, std::string&, std::string)> st;
    std::string a = Make<std::string>::of(v[0] & 63), b = Make<std::string>::of(v[1] & 63), c = Make<std::string>::of(v[2] & 63), d = Make<std::string>::of(v[3] & 63);
    int got = 0;
    for (int i = 0; i < n; ++i)
        st.connect([&](std::string w, std::string x, std::string& y, std::string z)
        {
            if (w != a || x != b || &y != &c || z != d) fail("string arguments mixed up");
            w.clear(); x.swap(z); y.push_back('.'); ++got;
        });
    st(a, b, c, d);
    if (got != n) fail("wrong number of slots");
    if (n >= 2) vp::nontrivial();
}
void args_g2() { if (pick(2)) mixed(); else positions(); }
#elif ARGS_G == 4
// Every kind of slot (function, object, members on every kind of pointer) with every way of passing, with and without a result.
template<class T> struct Ctx
{
    T* obj = nullptr;              // the caller's object, if slots must see it
    T expect = Make<T>::of(0);     // the current value
    bool identity = false;
    int calls = 0, change = 0;
    bool changed = false;
    void see(const T& v, bool byRef)
    {
        if (!eqv(v, expect)) fail("a slot did not receive the current value of the argument");
        if (byRef && identity && &v != obj) fail("a slot received another object than the caller's");
        ++calls;
    }
};
template<class R> struct Ret { static R of(int x) { return x; } };
template<> struct Ret<void> { static void of(int) {} };
template<class R, class T> struct Recv
{
    Ctx<T>* c;
    int tag, change;    // change: consumes or overwrites what it received
    R byVal(int k, T v, int l) { both(k, l); c->see(v, false); if (change) spoil(v); return Ret<R>::of(tag); }
    R byValC(int k, T v, int l) const { both(k, l); c->see(v, false); if (change) { T w(std::move(v)); } return Ret<R>::of(tag); }
    R byCref(int k, const T& v, int l) { both(k, l); c->see(v, true); return Ret<R>::of(tag); }
    R byCrefC(const int& k, const T& v, int l) const { both(k, l); c->see(v, true); return Ret<R>::of(tag); }
    R byRef(int k, T& v, int l) { both(k, l); c->see(v, true); if (change) { v = Make<T>::of(change); c->expect = v; c->changed = true; } return Ret<R>::of(tag); }
    R byRrefTake(int k, T&& v, int l) { both(k, l); c->see(v, true); if (change) { T w(std::move(v)); } return Ret<R>::of(tag); }
    R byRref(int k, T&& v, long l) { both(k, (int)l); c->see(v, true); return Ret<R>::of(tag); }
    static void both(int k, int l) { if (k != 12345 || l != -7) fail("the other arguments are wrong"); }
};
// How the signal takes T: 0 by value, 1 T&, 2 const T&, 3 T&&
template<class R, class T, class P, int How> static void kinds()
{
    using Rc = Recv<R, T>;
    using Sig = sig::signal<R(int, P, int)>;
    using Slot = sig::slot<R(int, P, int)>;
    Ctx<T> c;
    c.identity = How != 0;
    Sig s;
    int n = range(1, 7);
    std::vector<std::shared_ptr<Rc>> rs;
    bool consumes = false;
    for (int i = 0; i < n; ++i)
    {
        rs.push_back(std::make_shared<Rc>(Rc{ &c, i, (int)pick(2) * range(1, 99) }));
        auto& r = rs.back();
        consumes |= r->change != 0;
        int how = (int)pick(8);
        auto conn = [&](auto m)
        {
            Rc* raw = r.get();
            switch (how)
            {
            case 0: s.connect([raw, m](int a, P b, int d) { return (raw->*m)(a, std::forward<P>(b), d); }); break;
            case 1: s.connect(m, raw); break;
            case 2: s.connect(m, std::ref(*raw)); break;
            case 3: s.connect(m, *raw); break;
            case 4: s.connect(m, r); break;
            case 5: { std::weak_ptr<Rc> w(r); s.connect(Slot(m, w)); break; }
            case 6: { Slot t(m, r); s.connect(t); break; }
            default: { std::function<R(int, P, int)> f = [raw, m](int a, P b, int d) { return (raw->*m)(a, std::forward<P>(b), d); }; s.connect(f); break; }
            }
        };
        int which = (int)pick(5);
        trace("slot %d: passing %d, slot kind %d, change %d", i, which, how, r->change);
        if constexpr (How == 0)
            switch (which) { case 0: conn(&Rc::byVal); break; case 1: conn(&Rc::byCref); break; case 2: conn(&Rc::byRrefTake); break; case 3: conn(&Rc::byValC); break; default: conn(&Rc::byRref); break; }
        else if constexpr (How == 1)
            switch (which) { case 0: conn(&Rc::byVal); break; case 1: conn(&Rc::byCref); break; case 2: conn(&Rc::byCrefC); break; case 3: conn(&Rc::byValC); break; default: conn(&Rc::byRef); break; }
        else if constexpr (How == 2)
            switch (which) { case 0: conn(&Rc::byVal); break; case 1: conn(&Rc::byCref); break; case 2: conn(&Rc::byValC); break; default: conn(&Rc::byCrefC); break; }
        else
            switch (which) { case 0: conn(&Rc::byRref); break; case 1: conn(&Rc::byCref); break; default: conn(&Rc::byCrefC); break; }
    }
    int em = range(1, 3);
    for (int q = 0; q < em; ++q)
    {
        T obj = Make<T>::of(range(0, 99));
        c.obj = &obj;
        c.expect = obj;
        c.calls = 0;
        auto result = [&](auto&& r)
        {
            if constexpr (!std::is_void<R>::value) { if (!r || *r != n - 1) fail("the result is wrong"); }
            else if (r) fail("the result of a void signal is engaged");
        };
        if constexpr (How == 0) { T before = obj; if (pick(2)) { result(s(12345, obj, -7)); if (!eqv(obj, before)) fail("the caller's object was changed"); } else result(s(12345, std::move(obj), -7)); }
        else if constexpr (How == 1) { result(s(12345, obj, -7)); if (!eqv(obj, c.expect)) fail("the caller does not see the last change"); }
        else if constexpr (How == 2) { T before = obj; result(s(12345, obj, -7)); if (!eqv(obj, before)) fail("the caller's const object was changed"); }
        else { T before = obj; result(s(12345, std::move(obj), -7)); if (!eqv(obj, before)) fail("an object passed by rvalue reference was changed although no slot changed it"); }
        if (c.calls != n) fail("%d of %d slots invoked", c.calls, n);
    }
    if (n >= 2 && (consumes || How == 3)) vp::nontrivial();
}
template<class R, class T> static void hows()
{
    switch (pick(4))
    {
    case 0: kinds<R, T, T, 0>(); break;
    case 1: kinds<R, T, T&, 1>(); break;
    case 2: kinds<R, T, const T&, 2>(); break;
    default: kinds<R, T, T&&, 3>(); break;
    }
}
void args_g4()
{
    switch (pick(4))
    {
    case 0: hows<int, Probe>(); break;
    case 1: hows<void, Probe>(); break;
    case 2: hows<int, std::string>(); break;
    default: hows<void, std::string>(); break;
    }
}
#else
// Conversions are those of a direct call.
struct FromLong { long v; FromLong(long x) : v(x) {} };
struct ToInt { int v; operator int() const { return v; } };
struct B0 { int x = 1; virtual ~B0() = default; virtual int f() const { return x; } };
struct B1 { int y = 2; virtual ~B1() = default; virtual int g() const { return y; } };
struct D0 : B0, B1 { int z = 3; int f() const override { return z; } int g() const override { return z + 1; } };
static double got[8];
static int nGot;
static int tChar(unsigned char c) { got[nGot++] = c; return c; }
static long tShort(short c) { got[nGot++] = c; return c; }
static double tDouble(double d) { got[nGot++] = d; return d / 2; }
static int tBool(bool b) { got[nGot++] = b; return b ? 7 : 8; }
static unsigned tFrom(FromLong f) { got[nGot++] = (double)f.v; return (unsigned)f.v; }
static float tFloat(const float& f) { got[nGot++] = f; return f; }
static long long tLL(long long v) { got[nGot++] = (double)v; return v; }
static int tConstRef(const long long& v) { got[nGot++] = (double)v; return (int)v; }
static void numeric()
{
    // The value passed is restricted so that the direct call is well defined.
    sig::signal<long long(long long)> s;
    int n = range(1, 8);
    std::vector<int> k(n);
    for (int i = 0; i < n; ++i)
    {
        k[i] = range(0, 7);
        switch (k[i])
        {
        case 0: s.connect(tChar); break;
        case 1: s.connect(&tShort); break;
        case 2: s.connect(tDouble); break;
        case 3: s.connect(&tBool); break;
        case 4: s.connect(tFrom); break;
        case 5: s.connect(tFloat); break;
        case 6: s.connect(tLL); break;
        default: s.connect(tConstRef); break;
        }
    }
    int em = range(1, 3);
    for (int q = 0; q < em; ++q)
    {
        long long v = pick(2) ? vp::anyInt() : (long long)range(-300, 300);
        double want[8];
        long long last = 0;
        nGot = 0;
        for (int i = 0; i < n; ++i)
        {
            switch (k[i])
            {
            case 0: last = tChar(v); break;
            case 1: last = tShort(v); break;
            case 2: last = tDouble(v); break;
            case 3: last = tBool(v); break;
            case 4: last = tFrom(v); break;
            case 5: last = (long long)tFloat(v); break;
            case 6: last = tLL(v); break;
            default: last = tConstRef(v); break;
            }
        }
        memcpy(want, got, sizeof got);
        nGot = 0;
        opt::optional<long long> r;
        int how = range(0, 2);
        if (how == 0) r = s(v);
        else if (how == 1 && v == (short)v) r = s((short)v);
        else if (how == 2 && v == (int)v) r = s(ToInt{ (int)v });
        else { const long long c = v; r = s(c); }
        if (nGot != n) fail("wrong number of slots");
        for (int i = 0; i < n; ++i)
            if (want[i] != got[i]) fail("slot %d (kind %d) received %g, a direct call %g", i, k[i], got[i], want[i]);
        if (!r || *r != last) fail("result differs from a direct call");
    }
    if (n >= 2) vp::nontrivial();
}
static void bases()
{
    sig::signal<int(D0&)> s;
    D0 d;
    d.x = range(0, 9); d.y = range(10, 19); d.z = range(20, 29);
    int n = range(1, 6), seen = 0;
    for (int i = 0; i < n; ++i)
        switch (range(0, 4))
        {
        case 0: s.connect([&](B0& b) { if (&b != &d || b.f() != d.z) fail("base reference is wrong"); ++seen; return 1; }); break;
        case 1: s.connect([&](const B1& b) { if (&b != &d || b.g() != d.z + 1 || b.y != d.y) fail("second base reference is wrong"); ++seen; return 2; }); break;
        case 2: s.connect([&](B1 b) { if (b.g() != d.y) fail("sliced copy is wrong"); b.y = 99; ++seen; return 3; }); break;
        case 3: s.connect([&](const D0& x) { if (&x != &d) fail("reference is wrong"); ++seen; return 4; }); break;
        default: s.connect([&](B1& b) { b.y += 1; ++seen; return 5; }); break;
        }
    int y0 = d.y;
    s(d);
    if (seen != n || d.y < y0) fail("wrong number of slots");
    // Pointers
    sig::signal<void(D0*, const char*)> p;
    int got2 = 0;
    const char* text = "text";
    for (int i = 0; i < n; ++i)
        switch (range(0, 2))
        {
        case 0: p.connect([&](B1* b, std::string t) { if (b != &d || t != text) fail("converted pointer is wrong"); ++got2; }); break;
        case 1: p.connect([&](const D0* b, const char* t) { if (b != &d || t != text) fail("pointer is wrong"); ++got2; }); break;
        default: p.connect([&](bool b, const std::string& t) { if (!b || t != text) fail("pointer to bool is wrong"); ++got2; }); break;
        }
    p(&d, text);
    if (got2 != n) fail("wrong number of slots");
    if (n >= 2) vp::nontrivial();
}
// Emission of implicitly converted arguments into a by-value class parameter.
static void implicitArgs()
{
    sig::signal<void(std::string, const std::string&, FromLong)> s;
    int n = range(1, 5), seen = 0;
    long l = range(-50, 50);
    const char* a = "a literal longer than the small string buffer";
    const char* b = pick(2) ? "" : "b";
    for (int i = 0; i < n; ++i)
        switch (range(0, 1))
        {
        case 0: s.connect([&](std::string x, std::string y, FromLong f) { if (x != a || y != b || f.v != l) fail("converted arguments are wrong"); x.clear(); y += "z"; ++seen; }); break;
        default: s.connect([&](std::string&& x, const std::string& y, const FromLong& f) { if (x != a || y != b || f.v != l) fail("converted arguments are wrong"); std::string g(std::move(x)); ++seen; }); break;
        }
    s(a, b, l);
    if (seen != n) fail("wrong number of slots");
    if (n >= 2) vp::nontrivial();
}
void args_g3() { switch (pick(4)) { case 0: case 1: numeric(); break; case 2: bases(); break; default: implicitArgs(); break; } }
#endif
#endif

#ifdef ARGS_MAIN
void args_g0(), args_g1(), args_g2(), args_g3(), args_g4();
namespace vp
{
    const char* const rule =
        "A case connects 1-8 slots, each taking the parameters in a random way (by value, moving from it, overwriting it, by const/mutable/rvalue reference, generic, "
        "converted type), to a signal with one of twenty parameter lists (by value of five class types, by reference, by const reference, move-only by reference, ten ints, "
        "eight mixed kinds, base classes, arithmetic and user conversions; member functions on raw, wrapped, copied, shared and weak objects with by-value, reference, const and rvalue reference parameters, with and without result), and emits with lvalues, const lvalues, rvalues and converted arguments; every slot compares what it "
        "received (value and address) with what was passed, and the caller's objects are compared afterwards. Non-trivial: at least two slots, and for value/reference "
        "signals one that consumes or changes its argument. Distinct: by hash of all choices.";
}
void vp::run_case()
{
    switch (vp::weighted({ 4, 3, 2, 3, 5 }))
    {
    case 0: args_g0(); break;
    case 1: args_g1(); break;
    case 2: args_g2(); break;
    case 3: args_g3(); break;
    default: args_g4(); break;
    }
}
#endif
