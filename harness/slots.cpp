// Slots as values (C18): a pool of slot variables against a model of their callables and flags.
#include <signals.hpp>
#include "vp_main.hpp"
#include <functional>
#include <memory>
#include <string>
#include <utility>
#include <vector>

using vp::chance;
using vp::fail;
using vp::pick;
using vp::range;
using vp::trace;

namespace vp
{
    const char* const rule =
        "A case is a history of 1-50 operations over a pool of five slot variables, of signature int(int), void(int) or string(string): construction from functions, function objects (compared by key, by key and state, "
        "not comparable, throwing), std::function, members on pointers, values, shared and weak pointers, comparable weak handles, copies, moves, assignments (also self-assignment, from empty, with a copy that throws), swaps, "
        "vectors of slots, blocking, invocation, expiry of tracked objects, disconnect. After each step every slot is compared with the model (bool, connected, blocked, live callables) and every pair with respect to ==, != "
        "in both orders. Non-trivial: a slot was invoked after being copied or moved, and a pair of distinct engaged slots was equal. Distinct: by hash of all choices.";
}

struct Boom {};
static long liveN, copyFault = -1;
static long invoked;         // total number of callable invocations
static int lastResult;       // of a void callable

enum Kind { NONE, FREE, KEY, FULL, NC, NC2, STDF, PMF, PMFC, PMV, PMFS, TRK, TRKC, TRKW, NKIND };

// State shared by all function objects: key, invocation count, validity.
struct Fn
{
    int key, n;
    unsigned magic = 0xFACADE;
    bool full = true;
    Fn(int k, int c) : key(k), n(c) { ++liveN; }
    Fn(const Fn& o) : key(o.key), n(o.n)
    {
        o.ok();
        if (!o.full) fail("a moved-from callable is copied");
        if (copyFault >= 0 && copyFault-- == 0) throw Boom();
        ++liveN;
    }
    Fn(Fn&& o) noexcept : key(o.key), n(o.n) { o.ok(); o.full = false; ++liveN; }
    Fn& operator=(const Fn&) = delete;
    ~Fn() { ok(); magic = 0; --liveN; }
    void ok() const { if (magic != 0xFACADE) fail("a callable is used outside its lifetime"); }
    void untouched() const { if (!full) fail("a named callable given to a slot was moved from"); }
    int call(int x) { ok(); if (!full) fail("a moved-from callable is invoked"); ++n; ++invoked; if (x == 13) throw Boom(); return lastResult = key * 1000 + n * 7 + (x & 255); }
};
template<class R> struct Res;
template<> struct Res<int> { using A = int; static int r(int v) { return v; } static int a(int v) { return v; } static int x(int v) { return v; } };
template<> struct Res<void> { using A = int; static void r(int) {} static int a(int v) { return v; } static int x(int v) { return v; } };
template<> struct Res<std::string>
{
    using A = std::string;
    static std::string r(int v) { return std::string(20, '.') + std::to_string(v); }
    static std::string a(int v) { return std::string(20, '-') + std::to_string(v); }
    static int x(const std::string& s) { return std::stoi(s.substr(20)); }
};
template<class R> struct Kinds
{
    using A = typename Res<R>::A;
    static R run(Fn& f, A a) { return Res<R>::r(f.call(Res<R>::x(a))); }
    struct Key : Fn { using Fn::Fn; R operator()(A a) { return run(*this, a); } bool operator==(const Key& o) const { this->ok(); o.ok(); return key == o.key; } };
    struct Full : Fn { using Fn::Fn; R operator()(A a) { return run(*this, a); } bool operator==(const Full& o) const { this->ok(); o.ok(); return key == o.key && n == o.n; } };
    struct Nc : Fn { using Fn::Fn; R operator()(A a) { return run(*this, a); } };
    struct Nc2 : Fn { using Fn::Fn; R operator()(A a) { return run(*this, a); } };
    template<int K> static R free(A a) { ++invoked; lastResult = K; if (Res<R>::x(a) == 13) throw Boom(); return Res<R>::r(lastResult = K * 31 + (Res<R>::x(a) & 255)); }
    struct Obj : Fn
    {
        using Fn::Fn;
        R f0(A a) { return run(*this, a); }
        R f1(A a) { this->ok(); n += 10; return run(*this, a); }
        virtual R f2(A a) { this->ok(); n += 20; return run(*this, a); }
        virtual ~Obj() {}
    };
    struct Val : Fn
    {
        using Fn::Fn;
        R f0(A a) { return run(*this, a); }
        R f1(A a) { this->ok(); n += 10; return run(*this, a); }
        bool operator==(const Val& o) const { return key == o.key && n == o.n; }
    };
};

// A user's own weak handle, which can be compared.
template<class O> struct Handle
{
    std::weak_ptr<O> w;
    bool expired() const { return w.expired(); }
    std::shared_ptr<O> lock() const { return w.lock(); }
    void reset() { w.reset(); }
    bool operator==(const Handle& o) const { return !w.owner_before(o.w) && !o.w.owner_before(w); }
};
template<class O> Handle<O> to_weak(const Handle<O>& h) { return h; }

template<class R> struct Pool
{
    using K = Kinds<R>;
    using A = typename Res<R>::A;
    using Slot = sig::slot<R(A)>;
    using Obj = typename K::Obj;
    struct M
    {
        Kind kind = NONE;
        int key = 0, n = 0, sub = 0, obj = 0, id = 0;   // n: state of the slot's own callable
        bool blocked = false;
        bool copied = false;
    };
    static constexpr int N = 5;
    Slot* s[N];
    M m[N];
    std::shared_ptr<Obj> obj[3];
    int objKey[3], objN[3];
    bool objAlive[4];
    int nextObj = 0;
    bool invokedCopy = false, equalPair = false;

    static bool owns(Kind k) { return k == KEY || k == FULL || k == NC || k == NC2 || k == STDF || k == PMV; }
    static bool tracked(Kind k) { return k == TRK || k == TRKC || k == TRKW; }
    // 1: equal, 0: not, -1: must throw, 2: 0 or throw
    int equal(const M& a, const M& b) const
    {
        if (a.kind == NONE || b.kind == NONE) return a.kind == b.kind;
        Kind ka = a.kind == PMFC ? PMF : a.kind, kb = b.kind == PMFC ? PMF : b.kind;
        if (ka == TRKC) ka = TRK;
        if (kb == TRKC) kb = TRK;
        if (ka != kb) return 0;
        switch (ka)
        {
        case FREE: return a.sub == b.sub;
        case KEY: return a.key == b.key;
        case FULL: return a.key == b.key && a.n == b.n;
        case NC: case NC2: case STDF: return -1;
        case PMF: return a.obj == b.obj && a.sub == b.sub;
        case TRKW: return a.id == b.id && a.sub == b.sub;
        case PMV: return a.key == b.key && a.n == b.n && a.sub == b.sub;
        default: return a.sub == b.sub ? -1 : 2;
        }
    }
    bool conn(const M& a) const { return a.kind != NONE && !(tracked(a.kind) && !objAlive[a.obj]); }

    void check(const char* after)
    {
        long live = 0;
        for (int i = 0; i < 3; ++i) live += objAlive[i];
        for (int i = 0; i < N; ++i)
        {
            const Slot& c = *s[i];
            if (bool(c) != (m[i].kind != NONE)) fail("after %s, slot %d is %s", after, i, c ? "not empty" : "empty");
            if (c.connected() != conn(m[i])) fail("after %s, slot %d is %sconnected", after, i, c.connected() ? "" : "not ");
            if (c.blocked() != m[i].blocked) fail("after %s, slot %d is %sblocked", after, i, c.blocked() ? "" : "not ");
            live += owns(m[i].kind);
        }
        if (liveN != live) fail("after %s, %ld callables and objects are alive, expected %ld", after, liveN, live);
        for (int i = 0; i < N; ++i)
            for (int j = 0; j < N; ++j)
            {
                int want = equal(m[i], m[j]);
                const Slot &a = *s[i], &b = *s[j];
                for (int op = 0; op < 2; ++op)
                {
                    int got;
                    try { got = op ? !(a != b) : a == b; }
                    catch (const sig::not_comparable_exception&) { got = -1; VP_LABEL("comparison throws"); }
                    if (got != want && !(want == 2 && got != 1) && !(want == -1 && i == j && got == 1))
                        fail("after %s, comparing slots %d and %d with %s %s", after, i, j, op ? "!=" : "==", got == -1 ? "throws" : got ? "finds them equal" : "finds them different");
                    if (got == 1 && i != j && m[i].kind) equalPair = true;
                }
            }
        for (int i = 0; i < 3; ++i)
            if (objAlive[i] && (obj[i]->key != objKey[i] || obj[i]->n != objN[i])) fail("after %s, object %d has changed", after, i);
    }

    // Makes a slot of some kind; the model goes to x.
    Slot make(M& x)
    {
        x = M();
        x.kind = (Kind)range(NONE + 1, NKIND - 1);
        x.key = range(0, 2);
        x.n = range(0, 1);
        if (x.kind == FREE)
        {
            x.sub = range(0, 2);
            switch (x.sub)
            {
            case 0: return pick(2) ? Slot(&K::template free<1>) : Slot(K::template free<1>);
            case 1: return Slot(&K::template free<2>);
            default: { R (*p)(A) = &K::template free<3>; return Slot(p); }
            }
        }
        if (x.kind == KEY) { typename K::Key f(x.key, x.n); if (pick(2)) { Slot r(f); f.untouched(); return r; } return Slot(typename K::Key(x.key, x.n)); }
        if (x.kind == FULL) { const typename K::Full f(x.key, x.n); return Slot(f); }
        if (x.kind == NC) { typename K::Nc f(x.key, x.n); Slot r(f); f.untouched(); return r; }
        if (x.kind == NC2) return Slot(typename K::Nc2(x.key, x.n));
        if (x.kind == STDF) { std::function<R(A)> f(typename K::Nc(x.key, x.n)); if (pick(2)) { Slot r(f); if (!f) fail("a named std::function given to a slot was moved from"); return r; } return Slot(std::move(f)); }
        if (x.kind == PMV)
        {
            x.sub = range(0, 1);
            typename K::Val v(x.key, x.n);
            Slot r(x.sub ? &K::Val::f1 : &K::Val::f0, v);
            v.untouched();
            return r;
        }
        x.obj = range(0, 2);
        x.sub = range(0, 2);
        if (!objAlive[x.obj])
        {
            // A dead object: only through a weak pointer to it, below.
            objKey[x.obj] = ++nextObj;
            objN[x.obj] = 0;
            obj[x.obj] = std::make_shared<Obj>(objKey[x.obj], 0);
            // Slots of the old object stay dead: they get another index.
            for (int i = 0; i < N; ++i) retire(m[i], x.obj);
            objAlive[x.obj] = true;
        }
        x.id = objKey[x.obj];
        R (Obj::*f)(A) = x.sub == 0 ? &Obj::f0 : x.sub == 1 ? &Obj::f1 : &Obj::f2;
        if (x.kind == PMF) return Slot(f, obj[x.obj].get());
        if (x.kind == PMFC) { Obj* const p = obj[x.obj].get(); R (Obj::* const g)(A) = f; return Slot(g, p); }
        if (x.kind == PMFS) { x.kind = TRK; const std::shared_ptr<Obj> p = obj[x.obj]; return Slot(f, p); }
        if (x.kind == TRK) { Slot r(f, obj[x.obj]); if (!obj[x.obj]) fail("a named shared_ptr given to a slot was moved from"); return r; }
        if (x.kind == TRKW)
        {
            Handle<Obj> h{ obj[x.obj] };
            Slot r(f, h);
            if (h.expired()) fail("a named weak handle given to a slot was moved from");
            return r;
        }
        std::weak_ptr<Obj> w = obj[x.obj];
        Slot r(f, w);
        if (w.expired()) fail("a named weak_ptr given to a slot was moved from");
        return r;
    }
    static constexpr int DEAD = 3;
    void retire(M& x, int o) { if (tracked(x.kind) && x.obj == o) x.obj = DEAD; }

    void invoke(Slot& sl, M& x, const char* what)
    {
        int arg = chance(1, 10) ? 13 : range(0, 40);
        long before = invoked;
        bool runs = conn(x) && !x.blocked;
        bool threw = false;
        bool engaged = false;
        int got = 0;
        lastResult = -1;
        try
        {
            if constexpr (std::is_void<R>::value) { auto r = sl(Res<R>::a(arg)); engaged = bool(r); got = lastResult; }
            else { auto r = sl(Res<R>::a(arg)); engaged = bool(r); if (r) { if (!(*r == Res<R>::r(lastResult))) fail("%s yields another value than its callable", what); got = lastResult; } }
        }
        catch (const Boom&) { threw = true; }
        if (invoked - before != runs) fail("%s: %ld invocations, expected %d", what, invoked - before, (int)runs);
        if (!runs)
        {
            if (threw || engaged) fail("%s is %s but has a result", what, x.blocked ? "blocked" : "not connected");
            return;
        }
        if (x.copied) invokedCopy = true;
        int want = 0, key = x.key, *n = &x.n;
        if (x.kind == PMF || x.kind == PMFC || tracked(x.kind)) { key = objKey[x.obj]; n = &objN[x.obj]; *n += x.sub * 10; }
        if (x.kind == PMV) *n += x.sub * 10;
        if (x.kind == FREE) want = (x.sub + 1) * 31 + (arg & 255);
        else { ++*n; want = key * 1000 + *n * 7 + (arg & 255); }
        if (threw != (arg == 13)) fail("%s: exception %s", what, threw ? "out of nowhere" : "lost");
        if (threw) return;
        if (engaged != !std::is_void<R>::value) fail("%s: the result is %s", what, engaged ? "engaged" : "empty");
        if (got != want) fail("%s computes %d, expected %d", what, got, want);
    }

    void run()
    {
        objAlive[3] = false;
        for (int i = 0; i < 3; ++i) objAlive[i] = false, objN[i] = objKey[i] = 0;
        for (int i = 0; i < N; ++i) s[i] = new Slot();
        check("default construction");
        int n = chance(1, 2) ? range(15, 50) : range(1, 15);
        for (int q = 0; q < n; ++q) step();
        for (int i = 0; i < N; ++i) delete s[i];
        for (int i = 0; i < 3; ++i) obj[i].reset();
        if (liveN) fail("%ld callables outlive their slots", liveN);
        if (invokedCopy && equalPair) vp::nontrivial();
    }
    M copyOf(const M& x) { M y = x; y.copied = true; return y; }

    void step()
    {
        static const char* const names[] = { "construction", "copy construction", "move construction", "copy assignment", "move assignment", "self-assignment", "swap", "block", "unblock", "invocation",
            "expiry", "disconnect", "failing copy", "assignment of empty", "temporary copy", "vector of slots", "assignment of a callable", "invocation of all" };
        int i = pick(N), j = pick(N);
        int op = vp::weighted({ 8, 4, 3, 5, 3, 1, 2, 4, 3, 12, 2, 2, 3, 1, 3, 1, 2, 2 });
        trace("%s (%d, %d)", names[op], i, j);
        switch (op)
        {
        case 0: { M x; Slot* p = new Slot(make(x)); delete s[i]; s[i] = p; m[i] = x; trace("  kind %d key %d n %d sub %d obj %d", x.kind, x.key, x.n, x.sub, x.obj); break; }
        case 1: { const Slot& c = *s[j]; Slot* p = pick(2) ? new Slot(c) : new Slot(*s[j]); delete s[i]; s[i] = p; m[i] = copyOf(m[j]); m[j].copied = true; break; }
        case 2: { if (i == j) break; Slot* p = new Slot(std::move(*s[j])); delete s[i]; s[i] = p; m[i] = copyOf(m[j]); m[j] = M(); break; }
        case 3: { Slot& r = (*s[i] = static_cast<const Slot&>(*s[j])); if (&r != s[i]) fail("assignment does not return *this"); if (i != j) { m[i] = copyOf(m[j]); m[j].copied = true; } break; }
        case 4: { if (i == j) break; Slot& r = (*s[i] = std::move(*s[j])); if (&r != s[i]) fail("move assignment does not return *this"); m[i] = copyOf(m[j]); m[j] = M(); break; }
        case 5: { Slot* volatile p = s[i]; *s[i] = *p; break; }
        case 6: { if (i == j) break; using std::swap; swap(*s[i], *s[j]); std::swap(m[i], m[j]); break; }
        case 7: s[i]->block(); if (m[i].kind) m[i].blocked = true; break;
        case 8: s[i]->unblock(); m[i].blocked = false; break;
        case 9: invoke(*s[i], m[i], "a slot"); break;
        case 10:
            i = pick(3);
            if (!objAlive[i]) break;
            // Slots with plain pointers to it are dropped first.
            for (int k = 0; k < N; ++k)
                if ((m[k].kind == PMF || m[k].kind == PMFC) && m[k].obj == i) { *s[k] = Slot(); m[k] = M(); }
            obj[i].reset();
            objAlive[i] = false;
            VP_LABEL("object expired");
            break;
        case 11: // A slot that is in no signal
            if (s[i]->disconnect()) fail("disconnecting a slot that is in no signal returns true");
            break;
        case 12:
        {
            if (!owns(m[j].kind)) break;
            bool threw = false;
            copyFault = 0;
            try
            {
                if (i != j && pick(2)) *s[i] = static_cast<const Slot&>(*s[j]);
                else { Slot t(static_cast<const Slot&>(*s[j])); }
            }
            catch (const Boom&) { threw = true; VP_LABEL("copy throws"); }
            if (copyFault == 0) fail("copying a slot does not copy its callable");
            copyFault = -1;
            if (!threw) fail("an exception from copying the callable is lost");
            break;
        }
        case 13: { Slot e; if (pick(2)) *s[i] = e; else *s[i] = Slot(); m[i] = M(); break; }
        case 14:
        {
            M x = copyOf(m[i]), y;
            Slot t(*s[i]);
            if (t.blocked() != x.blocked || t.connected() != conn(x) || bool(t) != (x.kind != NONE)) fail("a copy's state differs from the original's");
            Slot u(std::move(t));
            if (t || t.connected() || t.blocked()) fail("a moved-from slot is not empty");
            y = x;
            invoke(t, x = M(), "a moved-from slot");
            int k = range(0, 2);
            for (int z = 0; z < k; ++z) invoke(u, y, "a copy");
            if (pick(2)) { u.block(); if (y.kind) y.blocked = true; }
            else { u.unblock(); y.blocked = false; }
            if (u.blocked() != y.blocked) fail("block state of a copy is wrong");
            break;
        }
        case 15:
        {
            std::vector<Slot> v;
            std::vector<M> w;
            for (int k = 0; k < N; ++k) { v.push_back(*s[k]); w.push_back(copyOf(m[k])); }
            v.erase(v.begin() + i); w.erase(w.begin() + i);
            v.insert(v.begin(), *s[j]); w.insert(w.begin(), copyOf(m[j]));
            for (size_t k = 0; k < v.size(); ++k)
            {
                if (bool(v[k]) != (w[k].kind != NONE) || v[k].connected() != conn(w[k]) || v[k].blocked() != w[k].blocked) fail("a slot in a vector has the wrong state");
                invoke(v[k], w[k], "a slot in a vector");
            }
            break;
        }
        case 16: { M x; *s[i] = make(x); m[i] = x; break; }
        default:
            for (int k = 0; k < N; ++k) invoke(*s[k], m[k], "a slot");
            break;
        }
        check(names[op]);
    }
};

void vp::run_case()
{
    liveN = invoked = 0;
    copyFault = -1;
    switch (pick(3))
    {
    case 0: { std::unique_ptr<Pool<int>> p(new Pool<int>()); p->run(); break; }
    case 1: { std::unique_ptr<Pool<void>> p(new Pool<void>()); p->run(); break; }
    default: { std::unique_ptr<Pool<std::string>> p(new Pool<std::string>()); p->run(); break; }
    }
}
