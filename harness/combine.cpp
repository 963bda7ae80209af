// Combiners as generated programs over slot iterators (C03).
#include <signals.hpp>
#include "vp_main.hpp"
#include <algorithm>
#include <functional>
#include <memory>
#include <numeric>
#include <string>
#include <vector>

using vp::chance;
using vp::fail;
using vp::pick;
using vp::range;
using vp::trace;

namespace vp
{
    const char* const rule =
        "A case builds a signal (result int, void, bool, string, pointer or double; argument by value or reference) with 0-8 slots (functions, members, tracked; some blocked, disconnected or expired, some that block, disconnect or "
        "connect others when invoked) and emits it 1-3 times with a combiner that runs a generated program over the iterators it is given: dereference (also twice), pre- and post-increment, copies, ==/!=, "
        "standard algorithms, stopping early; or with the default combiner. A model knows which slot each iterator stands on, and so which invocation and result each dereference must cause. Non-trivial: at least two slots were invoked "
        "and one of: an early stop, a repeated or postponed dereference, a blocked or disconnected slot passed. Distinct: by hash of all choices.";
}

template<class R> struct Val;
template<> struct Val<int> { static int of(int x) { return x - 3; } };
template<> struct Val<bool> { static bool of(int x) { return x & 1; } };
template<> struct Val<double> { static double of(int x) { return x / 4.0 - 2; } };
template<> struct Val<std::string> { static std::string of(int x) { return x % 4 == 0 ? std::string() : std::string((unsigned)x % 30, 'a' + x % 26); } };
static int targets[64];
template<> struct Val<int*> { static int* of(int x) { return x % 5 == 0 ? nullptr : &targets[x % 64]; } };
template<> struct Val<void> { static void of(int) {} };

struct Base
{
    // Model of the running emission.
    struct Slot { bool conn = true, blocked = false, tracked = false; int action = 0, arg = 0; sig::connection c; int serial = 0; };
    std::vector<std::unique_ptr<Slot>> all;
    std::vector<int> order;       // slots in the signal (also expired ones)
    std::vector<int> snap;        // slots of the emission
    int invoked = -1;             // the slot invoked by the current dereference
    int nInvoked = 0, results = 0;
    int expected = -1;            // the slot that may be invoked now
    int last = 0;                 // result number of the last invocation
    bool inEmission = false, odd = false;
    std::function<void(int)> act;

    bool live(int k) const { return all[k]->conn && !all[k]->blocked; }
    int body(int k)
    {
        if (!inEmission) fail("slot %d invoked outside an emission", k);
        if (k != expected) fail("slot %d invoked, expected %d", k, expected);
        if (invoked != -1) fail("two invocations for one dereference");
        invoked = k;
        ++nInvoked;
        ++all[k]->serial;
        int r = last = range(0, 63);
        trace("    slot %d invoked, returns %d", k, r);
        if (act) act(k);
        return r;
    }
};
static Base* W;

template<class R, class Opt> static void same(const Opt& got, bool want, int r)
{
    if (bool(got) != want) fail("the dereference yields %s result", want ? "an empty" : "a");
    if constexpr (!std::is_void<R>::value)
        if (want && !(*got == Val<R>::of(r))) fail("the dereference yields another result than the slot returned");
}
// Dereference an iterator that stands on position p.
template<class R, class It> static auto deref(It& it, int p)
{
    int k = W->snap[p];
    bool want = W->live(k);
    if (!want) W->odd = true;
    W->expected = want ? k : -1;
    W->invoked = -1;
    trace("    *it at %d", p);
    auto r = *it;
    if (W->invoked != W->expected) fail("position %d: slot %d was not invoked", p, k);
    W->expected = -1;
    same<R>(r, want && !std::is_void<R>::value, W->last);
    return r;
}
struct Out { int code = -1; std::shared_ptr<int> p; };
static Out returned;
template<class R> struct Program
{
    using result_type = Out;
    mutable int uses = 0;       // the combiner's own state
    template<class It> static void eq(const It& a, int pa, const It& b, int pb)
    {
        if ((a == b) != (pa == pb) || (a != b) != (pa != pb)) fail("comparison of iterators at %d and %d is wrong", pa, pb);
    }
    template<class It> Out operator()(It first, It last) const
    {
        int n = (int)W->snap.size();
        int mode = (int)pick(6);
        if (uses++ != 0) fail("the combiner is not a new one: it has been used %d times", uses - 1);
        trace("  combiner mode %d", mode);
        if (mode == 0)          // free program over several iterators
        {
            std::vector<std::unique_ptr<It>> it;
            std::vector<int> at;
            it.emplace_back(new It(first)); at.push_back(0);
            it.emplace_back(new It(last)); at.push_back(n);
            int ops = range(0, 14);
            for (int q = 0; q < ops; ++q)
            {
                int i = (int)pick((uint32_t)it.size()), j = (int)pick((uint32_t)it.size());
                switch (pick(6))
                {
                case 0: case 1: if (at[i] < n) { if (it.size() > 2) W->odd = true; deref<R>(*it[i], at[i]); } break;
                case 2: if (at[i] < n) { It& r = ++*it[i]; if (&r != it[i].get()) fail("++it does not return itself"); ++at[i]; } break;
                case 3: if (at[i] < n) { it.emplace_back(new It((*it[i])++)); at.push_back(at[i]++); } break;
                case 4: it.emplace_back(new It(*it[i])); at.push_back(at[i]); break;
                default: break;
                }
                eq(*it[i], at[i], *it[j], at[j]);
                eq(*it.back(), at.back(), last, n);
                if (it.size() > 8) { it.erase(it.begin() + 1); at.erase(at.begin() + 1); }
            }
        }
        else if (mode == 1)     // post-increment loop, stops early
        {
            int stop = range(0, n);
            int p = 0;
            while (first != last && p < stop) { It cur = first++; deref<R>(cur, p++); eq(first, p, last, n); }
            if (stop < n) W->odd = true;
        }
        else if (mode == 2)     // collects iterators, dereferences later in another order
        {
            std::vector<It> its;
            for (It i = first; i != last; ++i) its.push_back(i);
            if ((int)its.size() != n) fail("the range has %zu elements, %d slots are in the signal", its.size(), n);
            if (n > 1) W->odd = true;
            for (int p = n - 1; p >= 0; --p) if (!chance(1, 5)) deref<R>(its[p], p);
        }
        else if (mode == 3)     // std::distance only
        {
            int d = 0;
            for (It i = first; !(i == last); i++) ++d;
            if (d != n) fail("the range has %d elements, %d slots are in the signal", d, n);
        }
        else                    // plain loop
        {
            int p = 0;
            for (; first != last; ++first) { deref<R>(first, p); if (chance(1, 8)) { W->odd = true; deref<R>(first, p); } ++p; }
            if (p != n) fail("the range has %d elements, %d slots are in the signal", p, n);
        }
        Out o;
        o.code = range(0, 99999);
        o.p = std::make_shared<int>(o.code);
        returned = o;
        return o;
    }
};
// What the running emission passes, and what a slot receives and does with it.
static int passedInt;
static std::string passedString, *passedRef;
template<class A> static void arg(std::remove_reference_t<A>& a);
template<> void arg<int>(int& a) { if (a != passedInt) fail("a slot receives %d, %d was passed", a, passedInt); a = -1; }
template<> void arg<std::string>(std::string& a)
{
    if (a != passedString) fail("a slot receives \"%s\", \"%s\" was passed", a.c_str(), passedString.c_str());
    if (a.size() & 1) std::string taken = std::move(a);
}
template<> void arg<std::string&>(std::string& a)
{
    if (&a != passedRef) fail("a slot receives a reference to another object");
    if (a != passedString) fail("a slot does not see what earlier slots wrote");
    if (a.size() & 1) passedString = a += "x";
}
struct Obj
{
    int k;
    template<class R, class A> R f(A a) { arg<A>(a); return Val<R>::of(W->body(k)); }
    template<class A> void v(A a) { arg<A>(a); W->body(k); }
};
template<class R, class A> struct Bind { static R run(int k, A a) { arg<A>(a); return Val<R>::of(W->body(k)); } static auto member() { return &Obj::f<R, A>; } };
template<class A> struct Bind<void, A> { static void run(int k, A a) { arg<A>(a); W->body(k); } static auto member() { return &Obj::v<A>; } };

template<class R, class P, class Sig, bool Default> static void emissions()
{
    using D = std::decay_t<P>;
    Base w;
    W = &w;
    {
        Sig s;
        std::vector<std::shared_ptr<Obj>> objs;
        auto add = [&]
        {
            int k = (int)w.all.size();
            w.all.emplace_back(new Base::Slot());
            auto& x = *w.all.back();
            x.action = chance(1, 4) ? range(1, 4) : 0;
            x.arg = range(0, 9);
            int kind = (int)pick(4);
            auto o = std::make_shared<Obj>(Obj{ k });
            objs.push_back(o);
            switch (kind)
            {
            case 0: x.c = s.connect([k](P p) { return Bind<R, P>::run(k, std::forward<P>(p)); }); break;
            case 1: x.c = s.connect(Bind<R, P>::member(), o.get()); break;
            case 2: x.tracked = true; x.c = s.connect(Bind<R, P>::member(), o); break;
            default: { std::function<R(P)> f = [k](P p) { return Bind<R, P>::run(k, std::forward<P>(p)); }; x.c = s.connect(f); break; }
            }
            w.order.push_back(k);
        };
        auto removeAt = [&](int k)
        {
            for (size_t i = 0; i < w.order.size(); ++i)
                if (w.order[i] == k) { w.order[i] = w.order.back(); w.order.pop_back(); break; }
        };
        auto disturb = [&](int k, int how)
        {
            auto& x = *w.all[k];
            switch (how)
            {
            case 1: if (x.conn) { x.c.block(); x.blocked = true; } break;
            case 2: if (x.conn) { x.c.unblock(); x.blocked = false; } break;
            case 3: if (x.conn) { if (!x.c.disconnect()) fail("disconnect returned false"); x.conn = false; removeAt(k); } break;
            default: if (x.tracked && x.conn) { objs[k].reset(); x.conn = false; } break;      // expires, keeps its place
            }
        };
        int n = range(0, 8);
        for (int i = 0; i < n; ++i) add();
        for (int i = 0; i < n; ++i) if (chance(1, 5)) disturb(i, range(1, 4));
        w.act = [&](int k)
        {
            auto& x = *w.all[k];
            if (!x.action) return;
            int t = x.arg % (int)w.all.size();
            trace("      and acts: %d on %d", x.action, t);
            if (x.action == 4 && x.arg % 2) { if (w.all.size() < 16) add(); return; }
            disturb(t, x.action);
        };
        int em = range(1, 3);
        int total = 0;
        for (int q = 0; q < em; ++q)
        {
            trace("emission %d of %zu slots", q, w.order.size());
            w.snap = w.order;
            w.inEmission = true;
            w.nInvoked = 0;
            D arg{};
            if constexpr (std::is_same<D, int>::value) arg = passedInt = range(0, 1000);
            else { arg = passedString = std::string((unsigned)range(0, 40), 's'); passedRef = &arg; }
            if constexpr (Default)
            {
                // The default combiner: every slot in turn.
                std::vector<int> turn;
                w.expected = -1;
                int lastResult = 0;
                bool any = false;
                size_t pos = 0;
                auto next = [&] { while (pos < w.snap.size() && !w.live(w.snap[pos])) { ++pos; w.odd = true; } w.expected = pos < w.snap.size() ? w.snap[pos] : -1; };
                auto inner = w.act;
                w.act = [&](int k) { inner(k); any = true; lastResult = w.last; w.invoked = -1; ++pos; next(); };
                next();
                auto r = s(arg);
                w.act = inner;
                next();
                if (w.expected != -1) fail("slot %d was not invoked", w.expected);
                if constexpr (std::is_void<R>::value) { if (r) fail("the result of a void signal is engaged"); }
                else
                {
                    if (bool(r) != any) fail("the result is %s", any ? "empty" : "engaged although nothing was invoked");
                    if (r && !(*r == Val<R>::of(lastResult))) fail("the result is not that of the last invoked slot");
                }
            }
            else
            {
                Out o = s(arg);
                if (o.code != returned.code || o.p != returned.p) fail("the emission does not return what the combiner returned");
                returned = Out();
            }
            w.inEmission = false;
            if constexpr (std::is_same<D, std::string>::value) { if (arg != passedString) fail("the caller's argument was changed"); passedString = std::string(); }
            else if (arg != passedInt) fail("the caller's argument was changed");
            total += w.nInvoked;
        }
        if (total >= 2 && w.odd) vp::nontrivial();
        // Nothing is invoked after the emissions.
        w.act = nullptr;
    }
    W = nullptr;
}
template<class R> static void types()
{
    switch (pick(4))
    {
    case 0: emissions<R, int, sig::signal<R(int), Program<R>>, false>(); break;
    case 1: emissions<R, std::string, sig::signal<R(std::string), Program<R>>, false>(); break;
    case 2: emissions<R, std::string&, sig::signal<R(std::string&), Program<R>>, false>(); break;
    default: emissions<R, int, sig::signal<R(int)>, true>(); break;
    }
}
void vp::run_case()
{
    switch (pick(6))
    {
    case 0: types<int>(); break;
    case 1: types<void>(); break;
    case 2: types<bool>(); break;
    case 3: types<double>(); break;
    case 4: types<int*>(); break;
    default: types<std::string>(); break;
    }
}
