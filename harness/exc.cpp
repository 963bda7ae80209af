// Exceptions of many types, thrown by slots of every kind at every depth (C14).
#include <signals.hpp>
#include "vp_main.hpp"
#include <cxxabi.h>
#include <functional>
#include <memory>
#include <stdexcept>
#include <string>
#include <system_error>
#include <typeinfo>
#include <vector>

using vp::chance;
using vp::fail;
using vp::pick;
using vp::range;
using vp::trace;

namespace vp
{
    const char* const rule =
        "A case builds 1-3 signals (result void, int or string; argument int, string reference or a by-value type whose copies can fail; default combiner, one that loops, one that catches) with 0-7 slots each "
        "(lambda, function object, std::function, member of an object by pointer, reference wrapper, value, shared or weak pointer) whose bodies follow generated scripts: emit another signal (catching or not), change connections, throw "
        "one of 19 exception types with a generated payload; and emits 1-6 times, also from a destructor during unwinding. After every emission the dynamic type and payload of what was caught, the slots invoked, every connection's state, "
        "the stored callables' own state and number, and the owners of tracked objects are compared with a model. Non-trivial: an exception left an emission after at least one other slot was invoked, or passed through a nested emission. "
        "Distinct: by hash of all choices.";
}

// ---- exceptions -------------------------------------------------------------
struct Boom { int n; };
struct Derived : std::runtime_error { int n; std::shared_ptr<int> p; Derived(int k) : std::runtime_error("derived " + std::to_string(k)), n(k), p(std::make_shared<int>(k)) {} };
struct Opaque : Derived { Opaque(int k) : Derived(k + 1), m(k) {} int m; const char* what() const noexcept override { return "opaque"; } };
struct Virt : virtual std::exception { int n; Virt(int k) : n(k) {} };
struct Virt2 : Virt, virtual std::exception { Virt2(int k) : Virt(k) {} };
struct MoveOnly { std::unique_ptr<int> p; MoveOnly(int k) : p(new int(k)) {} MoveOnly(MoveOnly&&) = default; };
struct Priv : private std::runtime_error { int n; Priv(int k) : std::runtime_error("x"), n(k) {} };
struct NC : sig::not_comparable_exception { int n; NC(int k) : n(k) {} };
enum class En { a = 3, b = 1000 };
struct ArgBoom { int n; };
enum { KINDS = 20, K_ARG = 19 };

static const std::type_info& typeOf(int kind)
{
    switch (kind)
    {
    case 0: return typeid(Boom);
    case 1: return typeid(int);
    case 2: return typeid(const char*);
    case 3: return typeid(Derived);
    case 4: return typeid(Opaque);
    case 5: return typeid(std::logic_error);
    case 6: return typeid(std::bad_alloc);
    case 7: return typeid(sig::not_comparable_exception);
    case 8: return typeid(opt::bad_optional_access);
    case 9: return typeid(std::bad_weak_ptr);
    case 10: return typeid(std::bad_function_call);
    case 11: return typeid(std::system_error);
    case 12: return typeid(Virt2);
    case 13: return typeid(MoveOnly);
    case 14: return typeid(std::exception);
    case 15: return typeid(En);
    case 16: return typeid(std::string);
    case 17: return typeid(Priv);
    case 18: return typeid(NC);
    default: return typeid(ArgBoom);
    }
}
static const char* const texts[4] = { "", "a", "bb", "ccc" };
[[noreturn]] static void throwIt(int kind, int n)
{
    switch (kind)
    {
    case 0: throw Boom{ n };
    case 1: throw n;
    case 2: throw texts[n & 3];
    case 3: throw Derived(n);
    case 4: throw Opaque(n);
    case 5: throw std::logic_error(std::to_string(n));
    case 6: throw std::bad_alloc();
    case 7: throw sig::not_comparable_exception();
    case 8: { opt::optional<int> e; (void)e.value(); break; }
    case 9: { std::weak_ptr<int> w; std::shared_ptr<int> s(w); break; }
    case 10: { std::function<int()> f; f(); break; }
    case 11: throw std::system_error(n & 0xff, std::generic_category(), std::to_string(n));
    case 12: throw Virt2(n);
    case 13: throw MoveOnly(n);
    case 14: throw std::exception();
    case 15: throw n & 1 ? En::a : En::b;
    case 16: throw std::string((unsigned)n % 50, 'x');
    case 17: throw Priv(n);
    case 18: throw NC(n);
    default: throw ArgBoom{ n };
    }
    fail("the exception was not thrown");
}
// In a handler: is the current exception of that kind, with that payload?
static void verify(int kind, int n)
{
    const std::type_info* t = abi::__cxa_current_exception_type();
    if (!t || *t != typeOf(kind)) fail("an exception of type %s was thrown and one of type %s arrives", typeOf(kind).name(), t ? t->name() : "foreign");
    bool ok = true;
    switch (kind)
    {
    case 0: try { throw; } catch (Boom& e) { ok = e.n == n; } break;
    case 1: try { throw; } catch (int& e) { ok = e == n; } break;
    case 2: try { throw; } catch (const char*& e) { ok = e == texts[n & 3]; } break;
    case 3: try { throw; } catch (Derived& e) { ok = e.n == n && *e.p == n && e.what() == "derived " + std::to_string(n); } break;
    case 4: try { throw; } catch (Opaque& e) { ok = e.m == n && e.n == n + 1 && *e.p == n + 1; } break;
    case 5: try { throw; } catch (std::logic_error& e) { ok = e.what() == std::to_string(n); } break;
    case 11: try { throw; } catch (std::system_error& e) { ok = e.code().value() == (n & 0xff) && std::string(e.what()).rfind(std::to_string(n), 0) == 0; } break;
    case 12: try { throw; } catch (Virt& e) { ok = e.n == n && dynamic_cast<Virt2*>(&e); } break;
    case 13: try { throw; } catch (MoveOnly& e) { ok = e.p && *e.p == n; } break;
    case 15: try { throw; } catch (En& e) { ok = e == (n & 1 ? En::a : En::b); } break;
    case 16: try { throw; } catch (std::string& e) { ok = e == std::string((unsigned)n % 50, 'x'); } break;
    case 17: try { throw; } catch (Priv& e) { ok = e.n == n; } break;
    case 18: try { throw; } catch (NC& e) { ok = e.n == n; } break;
    case K_ARG: try { throw; } catch (ArgBoom& e) { ok = e.n == n; } break;
    default: break;
    }
    if (!ok) fail("an exception of type %s arrives with another content than thrown", t->name());
}

// ---- world ------------------------------------------------------------------
enum { LAMBDA, FUNCTOR, STDFUNC, PMF_PTR, PMF_REF, PMF_VAL, PMF_SHARED, PMF_WEAK, NKIND };
struct Step { int op, a, b; };      // what a body does
enum { S_EMIT, S_EMIT_CATCH, S_THROW, S_BLOCK, S_UNBLOCK, S_DISCONNECT, S_UNWIND, S_EXPIRE };
struct Obj;
struct SlotM
{
    int sig = 0, kind = 0, serial = 0, running = 0;
    bool conn = true, blocked = false;
    std::vector<Step> script;
    sig::connection c;
    std::shared_ptr<Obj> obj;
};
struct Frame { int sig; size_t pos; std::vector<int> snap; bool catching; };
struct World
{
    std::vector<std::unique_ptr<SlotM>> all;
    std::vector<int> order[3];
    std::vector<Frame*> stack;
    bool pend = false, passed = false;
    int pendKind = 0, pendN = 0;
    int invokedInTop = 0;
    int unwinding = 0;
    int budget = 0;
    long argFault = -1;
    bool argArmed = false;
    std::function<void(int, bool)> emit;      // signal, guarded
    bool live(int k) const { return all[k]->conn && !all[k]->blocked; }
    void next(Frame& f) const { while (f.pos < f.snap.size() && !live(f.snap[f.pos])) ++f.pos; }
    void unlist(int k)
    {
        auto& o = order[all[k]->sig];
        for (size_t i = 0; i < o.size(); ++i) if (o[i] == k) { o[i] = o.back(); o.pop_back(); return; }
    }
    int body(int k, int n, bool objOk);
};
static World* W;
struct Live
{
    static int live;
    Live() { ++live; }
    Live(const Live&) { ++live; }
    Live& operator=(const Live&) = default;
    ~Live() { --live; }
};
int Live::live = 0;

struct Pop
{
    World* w;
    Frame f;
    Pop(int s, bool catching) : w(W) { f = Frame{ s, 0, W->order[s], catching }; w->stack.push_back(&f); }
    ~Pop() { w->stack.pop_back(); }
};
static void raise(int kind, int n)
{
    W->pend = true;
    W->pendKind = kind;
    W->pendN = n;
    trace("      throws %s(%d)", typeOf(kind).name(), n);
    VP_LABEL("throw");
    throwIt(kind, n);
}
// A handler of the harness caught something.
static void caught(const char* where)
{
    if (!W->pend) fail("%s: an exception arrives that no slot threw", where);
    verify(W->pendKind, W->pendN);
    W->pend = false;
    trace("      caught (%s)", where);
}
struct Unwind
{
    int sig;
    ~Unwind()
    {
        // Emit while the exception that is being thrown unwinds the stack.
        bool p = W->pend;
        int a = W->pendKind, b = W->pendN;
        if (!p || W->budget <= 0) return;
        W->pend = false;
        ++W->unwinding;
        VP_LABEL("emission during unwinding");
        W->emit(sig, true);
        --W->unwinding;
        W->pend = p; W->pendKind = a; W->pendN = b;
    }
};
int World::body(int k, int n, bool objOk)
{
    if (stack.empty()) fail("slot %d invoked outside an emission", k);
    Frame& f = *stack.back();
    if (pend) fail("slot %d invoked after an exception was thrown and before it was caught", k);
    next(f);
    if (f.pos >= f.snap.size() || f.snap[f.pos] != k) fail("slot %d of signal %d invoked, expected %d", k, f.sig, f.pos < f.snap.size() ? f.snap[f.pos] : -1);
    ++f.pos;
    SlotM& m = *all[k];
    if (!objOk) fail("slot %d called on a wrong object", k);
    if (n != m.serial) fail("slot %d has been invoked %d times, its own state says %d", k, m.serial, n);
    ++m.serial;
    struct Run { int& r; Run(int& x) : r(x) { ++r; } ~Run() { --r; } } run(m.running);
    ++invokedInTop;
    trace("    slot %d invoked (depth %zu)", k, stack.size());
    for (size_t i = 0; i < m.script.size(); ++i)
    {
        Step s = m.script[i];
        int t = s.a % (int)all.size();
        trace("      step %d on %d", s.op, t);
        switch (s.op)
        {
        case S_EMIT: if (budget > 0 && stack.size() < 4) { VP_LABEL("nested"); emit(s.a % 3, false); } break;
        case S_EMIT_CATCH: if (budget > 0 && stack.size() < 4) { VP_LABEL("nested, caught"); emit(s.a % 3, true); } break;
        case S_BLOCK: if (all[t]->conn) { all[t]->c.block(); all[t]->blocked = true; } break;
        case S_UNBLOCK: if (all[t]->conn) { all[t]->c.unblock(); all[t]->blocked = false; } break;
        case S_DISCONNECT:
            if (all[t]->conn) { VP_LABEL("disconnect before the throw"); if (!all[t]->c.disconnect()) fail("disconnect returned false"); all[t]->conn = false; unlist(t); }
            break;
        case S_EXPIRE:
            if (all[t]->kind >= PMF_SHARED && all[t]->conn && !all[t]->running) { all[t]->obj.reset(); all[t]->conn = false; }
            break;
        case S_UNWIND: { Unwind u{ s.a % 3 }; if (stack.size() > 1) passed = true; raise(s.b % K_ARG, s.a); }
        default: if (stack.size() > 1) passed = true; raise(s.b % K_ARG, s.a);
        }
    }
    return k * 100 + n;
}

template<class R> struct Ret;
template<> struct Ret<void> { static void of(int) {} };
template<> struct Ret<int> { static int of(int x) { return x; } };
template<> struct Ret<std::string> { static std::string of(int x) { return std::to_string(x); } };

struct Arg
{
    int v = 5;
    Arg() = default;
    Arg(const Arg& o) : v(o.v) { tick(); }
    Arg(Arg&& o) : v(o.v) { }
    static void tick()
    {
        if (W && W->argArmed && W->argFault >= 0 && W->argFault-- == 0)
        {
            VP_LABEL("argument copy fails");
            if (W->stack.size() > 1) W->passed = true;
            raise(K_ARG, 77);
        }
    }
};
struct Obj
{
    int k, n = 0;
    int magic = 0x5ca1ab1e;
    Live l;
    Obj(int k) : k(k) {}
    Obj(const Obj& o) : k(o.k), n(o.n) {}
    ~Obj() { magic = 0; }
    template<class R, class P> R f(P) { int c = n++; return Ret<R>::of(W->body(k, c, magic == 0x5ca1ab1e)); }
};
template<class R, class P> struct Functor
{
    int k, n = 0;
    Live l;
    Functor(int k) : k(k) {}
    R operator()(P) { int c = n++; return Ret<R>::of(W->body(k, c, true)); }
};

// Loops over the iterators; what it returns does not matter here.
struct Loop
{
    using result_type = int;
    template<class It> int operator()(It first, It last) const
    {
        int n = 0;
        for (; first != last; ++first) { auto r = *first; ++n; }
        return n;
    }
};
// Catches what a slot throws and continues with the next one.
struct Catcher
{
    using result_type = int;
    template<class It> int operator()(It first, It last) const
    {
        int n = 0;
        for (; first != last; ++first, ++n)
        {
            try { auto r = *first; }
            catch (...)
            {
                caught("combiner");
                VP_LABEL("caught by combiner");
                W->passed = true;
                W->stack.back()->pos = n + 1;   // a slot whose argument could not be copied has had its turn
            }
        }
        return n;
    }
};

template<class R, class P, class C> static void scenario()
{
    using Sig = sig::signal<R(P), C>;
    using D = std::decay_t<P>;
    World w;
    W = &w;
    int base = Live::live;
    {
        Sig sigs[3];
        int ns = range(1, 3);
        auto add = [&](int s)
        {
            int k = (int)w.all.size();
            w.all.emplace_back(new SlotM());
            SlotM& m = *w.all.back();
            m.sig = s;
            m.kind = (int)pick(NKIND);
            int len = vp::weighted({ 5, 4, 2, 1 });
            for (int i = 0; i < len; ++i)
            {
                static const int w8[] = { 3, 3, 8, 1, 1, 1, 1, 1 };
                m.script.push_back(Step{ vp::weighted(w8, 8), (int)pick(64), (int)pick(K_ARG) });
            }
            if (m.kind >= PMF_PTR) m.obj = std::make_shared<Obj>(k);
            Sig& g = sigs[s];
            switch (m.kind)
            {
            case LAMBDA: { Functor<R, P> f(k); m.c = g.connect([f](P p) mutable -> R { return f(p); }); break; }
            case FUNCTOR: m.c = g.connect(Functor<R, P>(k)); break;
            case STDFUNC: { std::function<R(P)> f = Functor<R, P>(k); m.c = g.connect(f); break; }
            case PMF_PTR: m.c = g.connect(&Obj::f<R, P>, m.obj.get()); break;
            case PMF_REF: m.c = g.connect(&Obj::f<R, P>, std::ref(*m.obj)); break;
            case PMF_VAL: m.c = g.connect(&Obj::f<R, P>, *m.obj); m.obj.reset(); break;
            case PMF_SHARED: m.c = g.connect(&Obj::f<R, P>, m.obj); break;
            default: { std::weak_ptr<Obj> wp = m.obj; m.c = g.connect(sig::slot<R(P)>(&Obj::f<R, P>, wp)); break; }
            }
            w.order[s].push_back(k);
            trace("  slot %d in signal %d, kind %d, %zu steps", k, s, m.kind, m.script.size());
        };
        for (int s = 0; s < ns; ++s) { int n = range(0, 7); for (int i = 0; i < n; ++i) add(s); }
        w.emit = [&](int s, bool guarded)
        {
            --w.budget;
            Pop p(s, false);
            trace("    emission of signal %d (%zu slots)%s", s, p.f.snap.size(), guarded ? ", guarded" : "");
            D arg{};
            if (guarded)
            {
                try { sigs[s](arg); }
                catch (...) { caught("emission"); if (w.invokedInTop > 1) w.passed = true; return; }
            }
            else sigs[s](arg);
            if (w.pend) fail("the exception was swallowed: the emission of signal %d returns", s);
            w.next(p.f);
            if (p.f.pos < p.f.snap.size()) fail("slot %d was not invoked", p.f.snap[p.f.pos]);
        };
        auto state = [&]
        {
            int lives = base;
            for (size_t k = 0; k < w.all.size(); ++k)
            {
                SlotM& m = *w.all[k];
                if (m.c.connected() != m.conn) fail("slot %zu: connected() is %d", k, !m.conn);
                if (m.conn && m.c.blocked() != m.blocked) fail("slot %zu: blocked() is %d", k, !m.blocked);
                if (m.kind <= STDFUNC || m.kind == PMF_VAL) lives += m.conn;
                else if (m.obj)
                {
                    ++lives;
                    if (m.obj.use_count() != 1) fail("the object of slot %zu has %ld owners", k, m.obj.use_count());
                }
            }
            if (Live::live != lives) fail("%d callables and objects exist, expected %d", Live::live - base, lives - base);
        };
        int em = range(1, 6);
        for (int q = 0; q < em; ++q)
        {
            if (w.all.size() < 30 && chance(1, 4)) add((int)pick(ns));
            w.budget = 12;
            w.invokedInTop = 0;
            w.argArmed = std::is_same<P, Arg>::value && chance(1, 3);
            w.argFault = w.argArmed ? range(0, 6) : -1;
            int s = (int)pick(ns);
            trace("emit %d", s);
            w.emit(s, true);
            w.argArmed = false;
            state();
            if (!w.stack.empty()) fail("harness: frames left");
            // Scripts change, so that later emissions pass the places that threw.
            for (auto& m : w.all) if (!m->script.empty() && chance(1, 3)) m->script.clear();
        }
        if (w.passed) vp::nontrivial();
    }
    w.all.clear();
    if (Live::live != base) fail("%d callables or objects are left", Live::live - base);
    W = nullptr;
}
template<class R, class P> static void combiner()
{
    switch (pick(3))
    {
    case 0: scenario<R, P, sig::optional_last_value<R>>(); break;
    case 1: scenario<R, P, Loop>(); break;
    default: scenario<R, P, Catcher>(); break;
    }
}
void vp::run_case()
{
    switch (pick(7))
    {
    case 0: combiner<void, int>(); break;
    case 1: combiner<int, int>(); break;
    case 2: combiner<std::string, int>(); break;
    case 3: combiner<void, Arg>(); break;
    case 4: combiner<int, Arg>(); break;
    case 5: combiner<void, std::string&>(); break;
    default: combiner<std::string, std::string&>(); break;
    }
}
