// Model-based histories over signals, slots, connections, scoped connections, blockers and tracked
// objects. The model is online: every slot body reports to it, and it knows which slot may be next.
// Compiled once per result type and combiner (-DWORLD_T=0..8), plus -DWORLD_MAIN.
#include <signals.hpp>
#ifdef WORLD_MAIN
#include "vp_main.hpp"
#else
#include "vp.hpp"
#endif

#include <array>
#include <functional>
#include <memory>
#include <string>
#include <unordered_map>
#include <vector>

using vp::chance;
using vp::fail;
using vp::pick;
using vp::range;
using vp::trace;

// ---- profiles ---------------------------------------------------------------------------------
enum Op
{
    EMIT, CONNECT, CONNECT_SCOPED, BULK, CONN_DISC, SIG_DISC, BLOCK, UNBLOCK, BLOCKER_NEW, BLOCKER_DROP, BLOCKER_XFER,
    CONN_XFER, SCOPED_XFER, SCOPED_DROP, TRACKED, SLOTOBJ, SIG_NEW, SIG_KILL, SIG_MOVE, EMIT_MANY, FAULT_CONNECT,
    FAULT_DISC, N_OPS
};
static const char* const opNames[] = { "emit", "connect", "connect_scoped", "bulk", "conn_disconnect", "sig_disconnect", "block",
    "unblock", "blocker_new", "blocker_drop", "blocker_xfer", "conn_xfer", "scoped_xfer", "scoped_drop", "tracked", "slotobj",
    "sig_new", "sig_kill", "sig_move", "emit_many", "fault_connect", "fault_disconnect" };

enum Kind { FN, EQ, NC, LAM, SFN, PMF, PMFC, REFW, TRK, TRKH, TFN, N_KINDS };

enum Ev : unsigned
{
    E_MULTI = 1, E_REM_EMIT = 2, E_BLOCKSKIP = 4, E_ERASE = 8, E_ERASE_MULTI = 16, E_NOTCOMP = 32, E_SCOPED_END = 64,
    E_SCOPED_XFER = 128, E_EXPIRED_SKIP = 256, E_DIE_IN_CALL = 512, E_NEST_MOD = 1024, E_NEST_EMIT = 2048, E_THROW = 4096,
    E_MOVED = 8192, E_KILLED = 16384, E_KILL_NEST = 32768, E_FAULT = 65536, E_DISC = 131072, E_BLOCKER = 262144,
    E_UNBLOCKED_AGAIN = 524288, E_SWAPPED = 1048576, E_STATE = 2097152, E_AFTER_KILL = 4194304, E_STOP = 8388608, E_OWNER = 16777216
};

struct Prof
{
    const char* id;
    std::array<int, N_OPS> w;
    std::array<int, N_KINDS> kinds;
    bool order;        // check invocation order exactly
    int nested;        // chance (out of 8) that a slot body performs operations
    int throws;        // chance (out of 16) that a slot body throws
    bool live;         // check the number of callable instances
    bool killNested;   // signals may be destroyed by slot bodies
    unsigned need;     // a case is non-trivial if all of these happened ...
    unsigned any;      // ... and any of these
    int owner;         // chance (out of 16) of an ownership case instead
    bool combiners;    // all result types and combiners
};
//                                em  co cs bk cd sd bl ub bn bd bx cx sx sD tr so sn sk sm eM fc fd       FN EQ NC LM SF PM PC RW TR TH TF
static const Prof profs[] = {
    { "C01", std::array<int, N_OPS>{ 8, 8, 2, 2, 5, 4, 1, 1, 1, 1, 0, 1, 0, 1, 2, 3, 1, 1, 0, 1, 0, 0 }, { 3, 6, 2, 1, 1, 2, 1, 1, 1, 1, 1 }, false, 0, 0, false, false, E_MULTI | E_REM_EMIT, ~0u, 0, false },
    { "C02", std::array<int, N_OPS>{ 10, 8, 1, 2, 6, 4, 1, 1, 1, 1, 0, 1, 0, 1, 3, 2, 0, 0, 0, 1, 0, 0 }, { 2, 8, 2, 1, 1, 2, 1, 1, 2, 1, 1 }, true, 0, 0, false, false, E_MULTI | E_REM_EMIT | E_SWAPPED, ~0u, 0, false },
    { "C03", std::array<int, N_OPS>{ 12, 8, 1, 1, 3, 2, 3, 2, 2, 2, 0, 0, 0, 1, 3, 2, 0, 0, 0, 0, 0, 0 }, { 2, 6, 2, 1, 1, 2, 1, 1, 2, 1, 1 }, true, 1, 0, false, false, E_MULTI, E_BLOCKSKIP | E_EXPIRED_SKIP | E_REM_EMIT | E_STOP, 0, true },
    { "C05", std::array<int, N_OPS>{ 6, 8, 1, 2, 10, 2, 1, 1, 0, 0, 0, 6, 1, 1, 1, 2, 1, 0, 0, 0, 0, 0 }, { 3, 6, 2, 1, 1, 3, 1, 1, 1, 1, 1 }, false, 1, 0, false, false, E_DISC | E_MULTI | E_REM_EMIT, ~0u, 0, false },
    { "C06", std::array<int, N_OPS>{ 5, 9, 1, 2, 2, 10, 1, 1, 0, 0, 0, 1, 0, 0, 2, 4, 1, 0, 0, 0, 0, 0 }, { 5, 8, 2, 1, 1, 5, 3, 1, 1, 1, 1 }, false, 1, 0, false, false, E_ERASE, E_ERASE_MULTI | E_NOTCOMP, 1, false },
    { "C07", std::array<int, N_OPS>{ 8, 5, 1, 1, 2, 1, 6, 5, 7, 5, 5, 2, 0, 0, 1, 2, 0, 0, 0, 0, 0, 0 }, { 2, 6, 2, 1, 1, 2, 1, 1, 1, 0, 1 }, true, 1, 0, false, false, E_BLOCKSKIP | E_BLOCKER, E_UNBLOCKED_AGAIN, 0, false },
    { "C08", std::array<int, N_OPS>{ 6, 3, 8, 1, 2, 1, 1, 1, 0, 0, 0, 3, 14, 6, 1, 1, 1, 0, 0, 0, 0, 0 }, { 2, 6, 2, 1, 1, 2, 1, 1, 1, 0, 1 }, false, 1, 0, false, false, E_SCOPED_END | E_SCOPED_XFER, ~0u, 0, false },
    { "C09", std::array<int, N_OPS>{ 9, 8, 1, 0, 2, 1, 1, 1, 0, 0, 0, 1, 0, 0, 12, 4, 0, 0, 0, 0, 0, 0 }, { 1, 2, 1, 0, 0, 1, 0, 0, 8, 4, 3 }, true, 3, 0, false, false, E_EXPIRED_SKIP, ~0u, 0, false },
    { "C10", std::array<int, N_OPS>{ 9, 8, 1, 1, 6, 4, 3, 3, 2, 2, 1, 1, 1, 1, 4, 1, 1, 0, 0, 1, 0, 0 }, { 2, 6, 2, 1, 1, 2, 1, 1, 2, 1, 1 }, true, 5, 0, false, false, E_NEST_MOD, E_NEST_EMIT, 0, false },
    { "C14", std::array<int, N_OPS>{ 10, 8, 1, 1, 3, 2, 2, 1, 1, 1, 0, 0, 0, 1, 2, 2, 0, 0, 0, 0, 0, 0 }, { 2, 6, 2, 1, 1, 2, 1, 1, 1, 1, 1 }, true, 2, 4, true, false, E_THROW | E_MULTI, ~0u, 0, false },
    { "C15", std::array<int, N_OPS>{ 8, 8, 3, 1, 5, 4, 1, 1, 0, 0, 0, 1, 2, 2, 0, 6, 2, 2, 2, 1, 0, 0 }, { 0, 8, 4, 3, 3, 0, 0, 0, 0, 0, 2 }, false, 3, 1, true, false, E_STATE | E_DISC, ~0u, 1, false },
    { "C16", std::array<int, N_OPS>{ 7, 8, 3, 1, 4, 2, 2, 2, 2, 2, 1, 1, 2, 2, 2, 1, 2, 1, 10, 0, 0, 0 }, { 2, 6, 2, 1, 1, 2, 1, 1, 1, 1, 1 }, true, 1, 0, true, false, E_MOVED | E_MULTI, ~0u, 0, false },
    { "C24", std::array<int, N_OPS>{ 7, 8, 4, 1, 4, 2, 2, 2, 3, 3, 2, 3, 5, 3, 2, 1, 4, 5, 0, 0, 0, 0 }, { 2, 6, 2, 1, 1, 2, 1, 1, 1, 1, 1 }, false, 3, 0, true, true, E_KILLED, E_KILL_NEST | E_AFTER_KILL, 4, false },
    { "C25", std::array<int, N_OPS>{ 6, 4, 2, 1, 3, 2, 1, 1, 0, 0, 0, 0, 0, 1, 1, 2, 0, 0, 0, 0, 12, 5 }, { 2, 6, 4, 3, 2, 2, 1, 1, 1, 1, 1 }, true, 1, 0, true, false, E_FAULT, ~0u, 0, false },
};

#ifdef WORLD_MAIN
namespace vp
{
    const char* const rule =
        "A case is a history of 1-150 operations drawn from a profile of weighted API operations (connect of eleven callable kinds in all value "
        "categories, plain or scoped, bulk connects of up to 1100 (a few cases: 66000) slots, disconnects by handle/callable/slot, blocks, "
        "blockers, handle copies/moves/swaps, tracked objects, slot objects, signal creation/destruction/move, emissions, operations and throws "
        "from inside slot bodies, injected allocation and copy failures) over up to 3 signals; each step is checked against the model. "
        "Non-trivial per profile: C01/C02/C05 emission of >=2 slots after a removal (C02: one that moves a slot); C03 >=2 results with a blocked/expired/"
        "removed/unreached slot; C06 a match plus a multiple match or a non-comparable; C07 blocked slot skipped with a blocker and later invoked again; "
        "C08 a scoped end after a transfer; C09 an expired slot in an emission; C10 nested modification and nested emission; C14 a throw among >=2 slots; "
        "C15 stored state observed and a removal; C16 a moved signal emitting >=2; C24 a destruction from a slot or handle use afterwards; C25 an injected failure. Distinct: by hash of all choices.";
}
#endif

inline const Prof* P = nullptr;

struct Boom { int n; };
struct CopyFault {};

// ---- result types and combiners ----------------------------------------------------------------
inline int stopAfter = -1;      // StopN: engaged results after which the combiner stops

template<typename T>
struct Collect      // all engaged results, post-increment
{
    using result_type = std::vector<T>;
    template<typename It> result_type operator()(It first, It last) const
    {
        result_type v;
        while (first != last)
        {
            auto r = *first++;
            if (r) v.push_back(*r);
        }
        return v;
    }
};
template<typename T>
struct StopN        // stops after stopAfter engaged results
{
    using result_type = std::vector<T>;
    template<typename It> result_type operator()(It first, It last) const
    {
        result_type v;
        for (; !(first == last) && (int)v.size() != stopAfter; ++first)
        {
            auto r = *first;
            if (r) v.push_back(r.value());
        }
        return v;
    }
};
template<typename T>
struct FoldHash     // order-sensitive fold, keeps a copy of the iterator
{
    using result_type = unsigned;
    template<typename It> result_type operator()(It first, It last) const
    {
        unsigned h = 17;
        for (It it = first; it != last; ++it)
        {
            opt::optional<T> r = *it;
            if (r) h = h * 31 + (unsigned)*r;
        }
        return h;
    }
};

enum ResMode { LAST, ALL, STOP, FOLD, VOID };

inline int ptrTargets[8];
template<typename R> struct Conv;
template<> struct Conv<int> { static int of(int v) { return v; } };
template<> struct Conv<bool> { static bool of(int v) { return v & 1; } };
template<> struct Conv<int*> { static int* of(int v) { return v % 3 == 0 ? nullptr : &ptrTargets[v & 7]; } };
template<> struct Conv<std::string> { static std::string of(int v) { return v % 4 == 0 ? std::string() : std::string("result number ") + std::to_string(v); } };
template<> struct Conv<void> { static void of(int) {} };

template<typename R_, ResMode M, typename Sig_>
struct Tr
{
    using R = R_;
    using Sig = Sig_;
    static constexpr ResMode mode = M;
    static constexpr bool stops = M == STOP;
    static R ret(int v) { return Conv<R>::of(v); }
    static void check(const typename Sig::result_type& got, const std::vector<int>& v)
    {
        if constexpr (M == LAST)
        {
            if (got.has_value() != !v.empty())
                fail("emission result is %s but %zu slots returned a value", got ? "engaged" : "empty", v.size());
            if (got && !(*got == ret(v.back())))
                fail("emission result is not the result of the last invoked slot");
        }
        else if constexpr (M == ALL || M == STOP)
        {
            if (got.size() != v.size()) fail("combiner saw %zu results, slots returned %zu", got.size(), v.size());
            for (size_t i = 0; i < v.size(); ++i)
                if (!(got[i] == ret(v[i]))) fail("combiner result %zu differs from what the slot returned", i);
        }
        else if constexpr (M == FOLD)
        {
            unsigned h = 17;
            for (int x : v) h = h * 31 + (unsigned)ret(x);
            if (h != got) fail("combiner's fold of the results differs (order or values)");
        }
        else
        {
            if (got.has_value()) fail("void emission returned an engaged result");
        }
    }
};
using T0 = Tr<int, LAST, sig::signal<int(int)>>;
using T1 = Tr<void, VOID, sig::signal<void(int)>>;
using T2 = Tr<int, ALL, sig::signal<int(int), Collect<int>>>;
using T3 = Tr<int, STOP, sig::signal<int(int), StopN<int>>>;
using T4 = Tr<bool, LAST, sig::signal<bool(int)>>;
using T5 = Tr<int*, LAST, sig::signal<int*(int)>>;
using T6 = Tr<std::string, LAST, sig::signal<std::string(int)>>;
using T7 = Tr<int, FOLD, sig::signal<int(int), FoldHash<int>>>;
using T8 = Tr<std::string, ALL, sig::signal<std::string(int), Collect<std::string>>>;

constexpr int WILD = -1000;     // state of the stored callable not known
template<typename T> class World;
template<typename T> struct Cur { static World<T>* w; };
template<typename T> World<T>* Cur<T>::w = nullptr;

// ---- callables -----------------------------------------------------------------------------------
// Counts the instances of a callable and checks that it is alive.
template<typename T>
struct Token
{
    int id;
    unsigned magic;
    bool full = true;       // not moved from
    explicit Token(int i) : id(i), magic(0xA11FE) { Cur<T>::w->tokenBorn(id); }
    Token(const Token& o) : id(o.id), magic(0xA11FE)
    {
        o.usable("copied");
        Cur<T>::w->maybeCopyFault();
        Cur<T>::w->tokenBorn(id);
    }
    Token(Token&& o) noexcept : id(o.id), magic(0xA11FE)
    {
        o.usable("moved from again");
        o.full = false;
        Cur<T>::w->tokenBorn(id);
    }
    Token& operator=(const Token&) = default;
    ~Token()
    {
        alive("destroyed");
        magic = 0xDEAD;
        Cur<T>::w->tokenDied(id);
    }
    void alive(const char* what) const
    {
        if (magic != 0xA11FE) fail("callable %d %s after its destruction", id, what);
    }
    void usable(const char* what) const
    {
        alive(what);
        if (!full) fail("callable %d %s although it was moved from", id, what);
    }
    // The caller's own object after it was passed by name.
    void untouched() const
    {
        if (!full) fail("the caller's callable %d, passed as a named object, was moved from", id);
    }
};

template<typename T>
struct EqFn
{
    Token<T> tok;
    int key;
    int calls = 0;
    EqFn(int id, int k) : tok(id), key(k) {}
    typename T::R operator()(int a)
    {
        tok.usable("invoked");
        int v = Cur<T>::w->invoke(1000 + tok.id, calls++, a);
        tok.alive("running");
        return T::ret(v);
    }
    bool operator==(const EqFn& o) const { return key == o.key; }
};
template<typename T>
struct NcFn
{
    Token<T> tok;
    int calls = 0;
    explicit NcFn(int id) : tok(id) {}
    typename T::R operator()(int a)
    {
        tok.usable("invoked");
        int v = Cur<T>::w->invoke(1000 + tok.id, calls++, a);
        tok.alive("running");
        return T::ret(v);
    }
};
template<typename T> auto makeLambda(int id)
{
    return [tok = Token<T>(id), calls = 0](int a) mutable
    {
        tok.usable("invoked");
        int v = Cur<T>::w->invoke(1000 + tok.id, calls++, a);
        tok.alive("running");
        return T::ret(v);
    };
}
template<typename T, int N> typename T::R freeFn(int a) { return T::ret(Cur<T>::w->invoke(N, -1, a)); }

template<typename T>
struct Obj
{
    int idx;
    typename T::R m0(int a) { return T::ret(Cur<T>::w->invoke(100 + idx * 4 + 0, -1, a)); }
    typename T::R m1(int a) { return T::ret(Cur<T>::w->invoke(100 + idx * 4 + 1, -1, a)); }
    typename T::R c0(int a) const { return T::ret(Cur<T>::w->invoke(100 + idx * 4 + 2, -1, a)); }
    typename T::R c1(int a) const { return T::ret(Cur<T>::w->invoke(100 + idx * 4 + 3, -1, a)); }
};
template<typename T>
struct TBase
{
    int idx;
    unsigned magic = 0x0B1EC7;
    explicit TBase(int i) : idx(i) {}
    virtual ~TBase() { magic = 0; }
    virtual typename T::R bm(int a) { fail("base implementation called"); (void)a; }
};
template<typename T>
struct TObj : TBase<T>
{
    explicit TObj(int i) : TBase<T>(i) {}
    ~TObj() override { Cur<T>::w->trackedDied(this->idx); }
    typename T::R t0(int a) { return T::ret(Cur<T>::w->invokeTracked(this, 0, a)); }
    typename T::R t1(int a) const { return T::ret(Cur<T>::w->invokeTracked(this, 1, a)); }
    typename T::R bm(int a) override { return T::ret(Cur<T>::w->invokeTracked(this, 2, a)); }
};
// A function object that gets the tracked object as its first argument.
template<typename T>
struct TrkFn
{
    Token<T> tok;
    int calls = 0;
    explicit TrkFn(int id) : tok(id) {}
    typename T::R operator()(const std::shared_ptr<TObj<T>>& o, int a)
    {
        tok.usable("invoked");
        if (!o) fail("function object invoked without its object");
        int v = Cur<T>::w->invokeOn(o.get(), 1000 + tok.id, 0, calls++, a);
        tok.alive("running");
        return T::ret(v);
    }
};
namespace usr
{
    // A user's own smart pointer, tracked through ADL to_weak().
    template<typename T>
    struct Handle
    {
        std::shared_ptr<TObj<T>> p;
        TObj<T>& operator*() const { return *p; }
    };
    template<typename T> std::weak_ptr<TObj<T>> to_weak(const Handle<T>& h) { return h.p; }
}

// ---- the world -----------------------------------------------------------------------------------
template<typename T>
class World
{
public:
    using Sig = typename T::Sig;
    using R = typename T::R;
    using Slot = sig::slot<R(int)>;

    struct MSlot
    {
        int sig;            // signal it belongs to, -1: none
        bool conn = true;
        bool blk = false;
        int blkrs = 0;
        Kind kind;
        int sub;            // function index, key or method
        int obj = -1;       // object index
        int token = -1;
        int label = 0;
        int calls = 0;      // expected state of the stored callable
        int wasBlocked = 0;
        sig::connection probe;
    };
    struct Frame
    {
        int sig, arg;
        std::vector<int> snap;
        std::vector<char> inv, inel, ever;   // invoked; once not eligible; once eligible
        size_t cur = 0, u, v;           // [u, v): order not determined
        std::unordered_map<int, std::vector<int>> byLabel;  // positions in [u, v)
        std::vector<int> results;
        bool thrown = false;
        std::unordered_map<int, int> got;   // invocations in [u, v) by label
        std::unordered_map<int, bool> amb;  // labels whose invocations cannot be told apart
        int boom = 0;
        size_t stop = (size_t)-1;
    };
    struct MSig { std::vector<int> list; size_t u = 0, v = 0; };
    struct Tracked
    {
        std::vector<std::shared_ptr<TObj<T>>> owners;
        std::weak_ptr<TObj<T>> weak;
        bool dead = false;
        int inCall = 0;
    };
    struct SlotObj { std::unique_ptr<Slot> s; MSlot m; bool used = false; };
    struct FaultsOff { World* w; ~FaultsOff() { vp::allocFault = -1; w->copyFault = -1; } };

    World() : objs{ { 0 }, { 1 }, { 2 } }
    {
        Cur<T>::w = this;
    }
    ~World() = default;

    // ---- model helpers
    bool aliveT(int o) const { return !tr[o].owners.empty() || tr[o].inCall > 0; }
    bool alive(const MSlot& s) const { return !trackedKind(s.kind) || aliveT(s.obj); }
    static bool trackedKind(Kind k) { return k == TRK || k == TRKH || k == TFN; }
    bool blocked(const MSlot& s) const { return s.blk || s.blkrs > 0; }
    bool eligible(const MSlot& s) const { return s.conn && !blocked(s) && alive(s); }
    bool mconn(int id) const { return id >= 0 && slots[id].conn && alive(slots[id]); }

    void tokenBorn(int id) { ++tok[id]; }
    void tokenDied(int id) { --tok[id]; }
    void maybeCopyFault()
    {
        if (copyFault >= 0 && copyFault-- == 0)
        {
            copyFaultHit = true;
            throw CopyFault();
        }
    }
    void trackedDied(int o)
    {
        if (tr[o].dead) fail("tracked object %d destroyed twice", o);
        tr[o].dead = true;
        if (!tr[o].owners.empty()) fail("tracked object %d destroyed although it is owned", o);
        if (tr[o].inCall) fail("tracked object %d destroyed during a call on it", o);
    }

    void touch()    // remember which slots became ineligible while an emission runs
    {
        for (Frame* f : frames)
            for (size_t i = f->u; i < f->v; ++i)
                if (eligible(slots[f->snap[i]])) f->ever[i] = 1; else f->inel[i] = 1;
    }

    // The slot that the current emission may invoke now, given what was invoked.
    int accept(Frame& f, int label, int calls)
    {
        if (f.results.size() >= f.stop) fail("slot invoked after the combiner stopped");
        for (;;)
        {
            if (f.cur >= f.u && f.cur < f.v)
            {
                int found = -1, cands = 0;
                auto match = [&](int i)
                {
                    MSlot& s = slots[f.snap[i]];
                    return !f.inv[i] && s.label == label && eligible(s) && (s.token < 0 || s.calls == calls || s.calls == WILD);
                };
                auto each = [&](auto&& fn)      // positions in the region with this label
                {
                    if (f.v - f.u > 48)
                    {
                        if (f.byLabel.empty())
                            for (size_t i = f.u; i < f.v; ++i) f.byLabel[slots[f.snap[i]].label].push_back((int)i);
                        auto it = f.byLabel.find(label);
                        if (it != f.byLabel.end())
                            for (int i : it->second) fn(i);
                    }
                    else
                        for (size_t i = f.u; i < f.v; ++i)
                            if (slots[f.snap[i]].label == label) fn((int)i);
                };
                int members = 0;
                each([&](int i)
                {
                    members += f.ever[i];
                    if (match(i)) { ++cands; if (found < 0) found = i; }
                });
                // Copies of one callable: which of them this is cannot be seen.
                if (cands > 1 && !f.amb[label])
                {
                    f.amb[label] = true;
                    VP_LABEL("indistinguishable slots");
                }
                if (f.amb[label])
                {
                    each([&](int i) { if (slots[f.snap[i]].token >= 0) slots[f.snap[i]].calls = WILD; });
                    if (found < 0 && f.got[label] < members)
                        each([&](int i) { if (found < 0) found = i; });
                }
                if (found >= 0)
                {
                    f.inv[found] = 1;
                    ++f.got[label];
                    return f.snap[found];
                }
                if (f.v == f.snap.size()) explain(f, label, calls);
                closeRegion(f);
                continue;
            }
            if (f.cur >= f.snap.size()) explain(f, label, calls);
            MSlot& s = slots[f.snap[f.cur]];
            if (!eligible(s)) { noteSkip(s); ++f.cur; continue; }
            if (s.label != label)
                fail("wrong slot invoked: expected slot #%d (label %d) next, got label %d", f.snap[f.cur], s.label, label);
            if (s.token >= 0 && s.calls != calls && s.calls != WILD)
                fail("stored state of slot #%d is %d, expected %d", f.snap[f.cur], calls, s.calls);
            f.inv[f.cur] = 1;
            return f.snap[f.cur++];
        }
    }
    [[noreturn]] void explain(Frame& f, int label, int calls)
    {
        for (size_t i = 0; i < f.snap.size(); ++i)
        {
            MSlot& s = slots[f.snap[i]];
            if (s.label != label) continue;
            if (!s.conn) fail("disconnected slot #%d (label %d) invoked", f.snap[i], label);
            if (!alive(s)) fail("slot #%d of an expired object invoked", f.snap[i]);
            if (blocked(s)) fail("blocked slot #%d invoked", f.snap[i]);
            if (s.token >= 0 && s.calls != calls && s.calls != WILD) fail("stored state of slot #%d is %d, expected %d", f.snap[i], calls, s.calls);
            if (f.inv[i]) fail("slot #%d invoked more often than it is connected", f.snap[i]);
        }
        fail("slot with label %d invoked, which was not connected to signal %d when the emission began", label, f.sig);
    }
    static bool ambiguous(Frame& f, int label)
    {
        auto it = f.amb.find(label);
        return it != f.amb.end() && it->second;
    }
    void noteSkip(MSlot& s)
    {
        if (s.conn && alive(s) && blocked(s)) { ev |= E_BLOCKSKIP; s.wasBlocked = 1; VP_LABEL("blocked slot skipped"); }
        if (s.conn && !alive(s)) { ev |= E_EXPIRED_SKIP; VP_LABEL("expired slot skipped"); }
    }
    void closeRegion(Frame& f)
    {
        std::unordered_map<int, int> must;
        for (size_t i = f.u; i < f.v; ++i)
        {
            MSlot& s = slots[f.snap[i]];
            if (ambiguous(f, s.label) && !f.inel[i] && eligible(s) && ++must[s.label] > f.got[s.label])
                fail("only %d of the connected, unblocked slots with label %d were invoked", f.got[s.label], s.label);
        }
        for (size_t i = f.u; i < f.v; ++i)
            if (!f.inv[i] && !ambiguous(f, slots[f.snap[i]].label))
            {
                if (!f.inel[i] && eligible(slots[f.snap[i]])) fail("connected, unblocked slot #%d (label %d) was not invoked", f.snap[i], slots[f.snap[i]].label);
                noteSkip(slots[f.snap[i]]);
            }
        f.cur = f.v;
        f.u = f.v = 0;
        f.amb.clear();
    }
    void finish(Frame& f)
    {
        if (f.results.size() >= f.stop) { if (f.cur < f.snap.size()) ev |= E_STOP; return; }
        while (f.cur < f.snap.size())
        {
            if (f.cur >= f.u && f.cur < f.v) { closeRegion(f); continue; }
            MSlot& s = slots[f.snap[f.cur]];
            if (eligible(s)) fail("connected, unblocked slot #%d (label %d) was not invoked", f.snap[f.cur], s.label);
            noteSkip(s);
            ++f.cur;
        }
    }
    void deadCheck()
    {
        for (size_t o = 0; o < tr.size(); ++o)
            if (tr[o].dead == aliveT((int)o))
                fail(tr[o].dead ? "tracked object %zu is dead but should be alive" : "tracked object %zu is kept alive by the library", o);
    }

    // ---- called by slot bodies
    int invoke(int label, int calls, int arg)
    {
        if (frames.empty()) fail("slot (label %d) invoked outside an emission", label);
        Frame& f = *frames.back();
        deadCheck();
        if (arg != f.arg) fail("slot received %d, emission passed %d", arg, f.arg);
        int id = accept(f, label, calls);
        ++invocations;
        if (invocations > 3000000) fail("runaway invocations");
        if (slots[id].wasBlocked) { slots[id].wasBlocked = 0; ev |= E_UNBLOCKED_AGAIN; }
        if (slots[id].token >= 0 && slots[id].calls > 0) ev |= E_STATE;
        int v = (int)((((unsigned)label * 31u + (unsigned)arg) ^ ((unsigned)calls * 7u)) & 0xffff);
        if (slots[id].token >= 0)
        {
            if (slots[id].calls != WILD) ++slots[id].calls;
            else if (!ambiguous(f, label)) slots[id].calls = calls + 1;
        }
        trace("%*s-> slot #%d (label %d) invoked", 2 * (int)frames.size(), "", id, label);
        try
        {
            if (deep > 0)
            {
                --deep;
                emit(f.sig, arg);
            }
            if (P->nested && nestBudget > 0 && frames.size() < 8 && pick(8) >= (uint32_t)(8 - P->nested))
            {
                int n = range(1, 3);
                for (int i = 0; i < n && nestBudget > 0; ++i)
                {
                    --nestBudget;
                    op();
                }
            }
            if (P->throws && pick(16) >= (uint32_t)(16 - P->throws))
            {
                trace("%*s   throws", 2 * (int)frames.size(), "");
                ev |= E_THROW;
                VP_LABEL("slot threw");
                throw Boom{ ++booms };
            }
        }
        catch (Boom& b)
        {
            f.thrown = true;
            f.boom = b.n;
            throw;
        }
        f.results.push_back(v);
        return v;
    }
    int invokeTracked(const TBase<T>* o, int m, int arg) { return invokeOn(o, -1, m, -1, arg); }
    // label < 0: that of the object's method m
    int invokeOn(const TBase<T>* o, int label, int m, int calls, int arg)
    {
        if (o->magic != 0x0B1EC7) fail("slot called on a destroyed object");
        int idx = o->idx;
        if (tr[idx].dead) fail("slot called on dead tracked object %d", idx);
        struct Guard { Tracked* t; ~Guard() { --t->inCall; } };
        ++tr[idx].inCall;
        Guard g{ &tr[idx] };
        int v = invoke(label < 0 ? 200 + idx * 4 + m : label, calls, arg);
        if (tr[idx].dead || o->magic != 0x0B1EC7) fail("tracked object %d died during a call on it", idx);
        if (tr[idx].owners.empty()) { ev |= E_DIE_IN_CALL; VP_LABEL("last owner released during call"); }
        return v;
    }

    // ---- emission
    // Returns the number of the exception that came out, or 0.
    int emit(int k, int arg)
    {
        Frame f;
        f.sig = k;
        f.arg = arg;
        f.snap = ms[k].list;
        f.inv.assign(f.snap.size(), 0);
        f.inel.assign(f.snap.size(), 0);
        f.ever.assign(f.snap.size(), 0);
        if (P->order) { f.u = ms[k].u; f.v = ms[k].v; }
        else { f.u = 0; f.v = f.snap.size(); }
        if (f.u < f.v && f.v < f.snap.size())
        {
            // Slots after the region that look like ones in it: extend the region.
            std::unordered_map<int, char> in;
            for (size_t i = f.u; i < f.v; ++i) in[slots[f.snap[i]].label] = 1;
            size_t v = f.v;
            for (size_t i = v; i < f.snap.size(); ++i)
                if (in.count(slots[f.snap[i]].label)) { f.v = f.snap.size(); break; }
        }
        int savedStop = stopAfter;
        if (T::stops) f.stop = range(0, 4);
        for (size_t i = f.u; i < f.v; ++i)
            if (eligible(slots[f.snap[i]])) f.ever[i] = 1; else f.inel[i] = 1;
        trace("%*semit signal %d with %d%s (%zu slots in the model)", 2 * (int)frames.size(), "", k, arg, T::stops ? " (stopping combiner)" : "", f.snap.size());
        if (!frames.empty()) { ev |= E_NEST_EMIT; VP_LABEL("nested emission"); }
        frames.push_back(&f);
        int boom = 0;
        try
        {
            if (f.stop != (size_t)-1) stopAfter = (int)f.stop;
            const Sig& cs = *sigs[k];
            auto res = pick(2) ? cs(arg) : (*sigs[k])(arg);
            finish(f);
            T::check(res, f.results);
        }
        catch (Boom& b)
        {
            if (!f.thrown) fail("exception %d left an emission none of whose slots threw", b.n);
            if (f.boom != b.n) fail("emission threw exception %d, slot threw %d", b.n, f.boom);
            boom = b.n;
        }
        catch (std::exception& e) { fail("emission threw %s", e.what()); }
        catch (...) { fail("emission threw an exception of the wrong type"); }
        if (f.thrown && !boom) fail("exception %d thrown by a slot was swallowed", f.boom);
        stopAfter = savedStop;
        frames.pop_back();
        size_t n = f.results.size();
        if (n >= 2) { ev |= E_MULTI; VP_LABEL("emission invoked >=2"); }
        if (n >= 2 && (ev & E_DISC)) { ev |= E_REM_EMIT; VP_LABEL("emission of >=2 after removal"); }
        if (f.snap.size() > 255) VP_LABEL("emission over >255 slots");
        if (f.snap.size() > 65535) VP_LABEL("emission over >65535 slots");
        deadCheck();
        return boom;
    }
    void emitOp(int k, int arg)
    {
        int b = emit(k, arg);
        if (b && !frames.empty() && chance(1, 2))
        {
            trace("%*slets exception %d through", 2 * (int)frames.size(), "", b);
            VP_LABEL("exception through nested emission");
            throw Boom{ b };
        }
    }

    // ---- model of removal
    void modelRemoveAt(int k, size_t p, bool uncertain)
    {
        MSig& m = ms[k];
        size_t n = m.list.size();
        ev |= E_DISC;
        if (p + 1 < n) { ev |= E_SWAPPED; VP_LABEL("removal moved the last slot"); }
        bool fuzzy = m.v > m.u;
        if (fuzzy && p < m.u && m.v == n) m.u = p;  // an unknown slot moved to p
        m.list[p] = m.list.back();
        m.list.pop_back();
        if (uncertain)
        {
            m.u = fuzzy ? std::min(m.u, p) : p;
            m.v = m.list.size();
        }
        if (m.v > m.list.size()) m.v = m.list.size();
        if (m.v <= m.u + 1) m.u = m.v = 0;
    }
    void modelDisconnect(int id)
    {
        MSlot& s = slots[id];
        if (!s.conn) return;
        bool exp = !alive(s);
        s.conn = false;
        if (s.sig >= 0)
        {
            auto& l = ms[s.sig].list;
            for (size_t p = 0; p < l.size(); ++p)
                if (l[p] == id)
                {
                    // Whether an expired slot still has a place in the order is not specified.
                    modelRemoveAt(s.sig, p, exp);
                    break;
                }
            s.sig = -1;
        }
        if (!frames.empty()) { ev |= E_NEST_MOD; VP_LABEL("nested disconnect"); }
        touch();
    }

    // ---- handles
    int newSlot(MSlot&& m, int k)
    {
        int id = (int)slots.size();
        m.sig = k;
        if (m.token >= 0) m.label = 1000 + m.token;
        slots.push_back(std::move(m));
        ms[k].list.push_back(id);
        if (!frames.empty()) { ev |= E_NEST_MOD; VP_LABEL("nested connect"); }
        return id;
    }
    template<class... A>
    void doConnect(int k, bool scoped, MSlot m, A&&... a)
    {
        Sig& s = *sigs[k];
        if (scoped)
        {
            std::unique_ptr<sig::scoped_connection> u(new sig::scoped_connection(s.connect_scoped(std::forward<A>(a)...)));
            m.probe = *u;
            int id = newSlot(std::move(m), k);
            int i = pick((uint32_t)sc.size());
            trace("%*s  scoped %d <- connect_scoped slot #%d (label %d) to signal %d", 2 * (int)frames.size(), "", i, id, slots[id].label, k);
            dropScoped(i);
            sc[i] = std::move(u);
            msc[i] = id;
        }
        else
        {
            sig::connection c = s.connect(std::forward<A>(a)...);
            m.probe = c;
            int id = newSlot(std::move(m), k);
            int i = pick((uint32_t)cn.size());
            trace("%*s  conn %d <- connect slot #%d (label %d) to signal %d", 2 * (int)frames.size(), "", i, id, slots[id].label, k);
            cn[i] = std::move(c);
            mcn[i] = id;
        }
    }
    void dropScoped(int i)
    {
        if (!sc[i]) return;
        sc[i].reset();
        int id = msc[i];
        msc[i] = -1;
        if (id >= 0)
        {
            if (slots[id].conn) { ev |= E_SCOPED_END; VP_LABEL("scoped end disconnected a slot"); }
            modelDisconnect(id);
        }
    }

    // Value categories: 0 temporary, 1 named, 2 const named.
    int anySub(Kind kind)
    {
        switch (kind)
        {
        case FN: return range(0, 3);
        case EQ: return range(0, 3);
        case PMF: case PMFC: case REFW: return range(0, 1);
        case TRK: case TRKH: return range(0, 2);
        default: return 0;
        }
    }
    Kind anyKind() { return (Kind)vp::weighted(P->kinds.data(), N_KINDS); }
    static R (*fnPtr(int i))(int)
    {
        switch (i)
        {
        case 0: return &freeFn<T, 0>;
        case 1: return &freeFn<T, 1>;
        case 2: return &freeFn<T, 2>;
        default: return &freeFn<T, 3>;
        }
    }

    // Calls g(args...) with the callable (and object) of the given kind, in a random value category.
    // Returns false if it cannot be built.
    template<class G>
    bool withCallable(Kind kind, int sub, int obj, int token, int vc, G&& g)
    {
        using PM = R (Obj<T>::*)(int);
        using PC = R (Obj<T>::*)(int) const;
        switch (kind)
        {
        case FN:
            if (vc == 0)
                switch (sub)    // the function itself
                {
                case 0: g(freeFn<T, 0>); break;
                case 1: g(freeFn<T, 1>); break;
                case 2: g(freeFn<T, 2>); break;
                default: g(freeFn<T, 3>); break;
                }
            else if (vc == 1) { auto p = fnPtr(sub); g(p); p = nullptr; }
            else if (vc == 2) { const auto p = fnPtr(sub); g(p); }
            else g(fnPtr(sub));
            return true;
        case EQ:
            if (vc == 0 || vc == 3) g(EqFn<T>(token, sub));
            else if (vc == 1) { EqFn<T> f(token, sub); g(f); f.tok.untouched(); if (f.key != sub || f.calls) fail("the caller's callable was changed"); f.key = -1; f.calls = 1000; }
            else { const EqFn<T> f(token, sub); g(f); }
            return true;
        case NC:
            if (vc == 0 || vc == 3) g(NcFn<T>(token));
            else if (vc == 1) { NcFn<T> f(token); g(f); f.tok.untouched(); f.calls = 1000; }
            else { const NcFn<T> f(token); g(f); }
            return true;
        case LAM:
            if (vc & 1) { auto f = makeLambda<T>(token); g(f); auto copy = f; }
            else g(makeLambda<T>(token));
            return true;
        case SFN:
            if (vc & 1) { std::function<R(int)> f{ NcFn<T>(token) }; g(f); if (!f) fail("the caller's std::function, passed as a named object, was moved from"); f = nullptr; }
            else g(std::function<R(int)>{ NcFn<T>(token) });
            return true;
        case PMF:
        {
            PM pm = sub ? &Obj<T>::m1 : &Obj<T>::m0;
            if (vc == 0) { if (sub) g(&Obj<T>::m1, &objs[obj]); else g(&Obj<T>::m0, &objs[obj]); }
            else if (vc == 1) { Obj<T>* p = &objs[obj]; g(pm, p); p = nullptr; }
            else if (vc == 2) { const PM cpm = pm; Obj<T>* const p = &objs[obj]; g(cpm, p); }
            else g(std::move(pm), &objs[obj]);
            return true;
        }
        case PMFC:
        {
            PC pm = sub ? &Obj<T>::c1 : &Obj<T>::c0;
            if (vc == 0) { if (sub) g(&Obj<T>::c1, &objs[obj]); else g(&Obj<T>::c0, &objs[obj]); }
            else if (vc == 1) { Obj<T>* p = &objs[obj]; g(pm, p); }
            else if (vc == 2) { const PC cpm = pm; Obj<T>* const p = &objs[obj]; g(cpm, p); }
            else g(std::move(pm), &objs[obj]);
            return true;
        }
        case REFW:
            if (sub) g(&Obj<T>::m1, std::ref(objs[obj]));
            else { auto r = std::ref(objs[obj]); g(&Obj<T>::m0, r); }
            return true;
        case TRK:
        {
            if (tr[obj].owners.empty()) return false;
            auto& o = tr[obj].owners[0];
            if (sub == 0) { if (vc & 1) g(&TObj<T>::t0, o); else g(&TObj<T>::t0, std::shared_ptr<TObj<T>>(o)); }
            else if (sub == 1) { const auto c = o; g(&TObj<T>::t1, c); }
            else { if (vc & 1) g(&TBase<T>::bm, o); else g(&TBase<T>::bm, std::shared_ptr<TBase<T>>(o)); }
            if (!o) fail("the caller's shared_ptr, passed as a named object, was moved from");
            return true;
        }
        case TRKH:
        {
            if (tr[obj].owners.empty()) return false;
            usr::Handle<T> h{ tr[obj].owners[0] };
            if (sub == 0) { if (vc & 1) g(&TObj<T>::t0, h); else g(&TObj<T>::t0, usr::Handle<T>(h)); }
            else if (sub == 1) g(&TObj<T>::t1, h);
            else g(&TBase<T>::bm, h);
            if (!h.p) fail("the caller's handle, passed as a named object, was moved from");
            return true;
        }
        case TFN:
        {
            if (tr[obj].owners.empty()) return false;
            std::shared_ptr<TObj<T>> o = tr[obj].owners[0];
            struct Drop { std::shared_ptr<TObj<T>>& o; ~Drop() { o.reset(); } } drop{ o };
            if (vc == 0 || vc == 3) g(TrkFn<T>(token), o);
            else if (vc == 1) { TrkFn<T> f(token); g(f, std::shared_ptr<TObj<T>>(o)); f.tok.untouched(); f.calls = 1000; }
            else { TrkFn<T> f(token); const auto c = o; g(f, c); f.tok.untouched(); }
            if (!o) fail("the caller's shared_ptr, passed as a named object, was moved from");
            return true;
        }
        default: return false;
        }
    }
    int newToken()
    {
        tok.push_back(0);
        return (int)tok.size() - 1;
    }
    MSlot describe(Kind kind, int sub, int obj, int token)
    {
        MSlot m;
        m.kind = kind;
        m.sub = sub;
        m.obj = obj;
        m.token = token;
        m.sig = -1;
        switch (kind)
        {
        case FN: m.label = sub; break;
        case PMF: case REFW: m.label = 100 + obj * 4 + sub; break;
        case PMFC: m.label = 100 + obj * 4 + 2 + sub; break;
        case TRK: case TRKH: m.label = 200 + obj * 4 + sub; break;
        default: m.label = 1000 + token;
        }
        return m;
    }
    int anyObj(Kind kind)
    {
        if (trackedKind(kind))
        {
            if (tr.empty() || chance(1, 6)) newTracked();
            return pick((uint32_t)tr.size());
        }
        return range(0, 2);
    }
    void newTracked()
    {
        if (tr.size() >= 12) return;
        tr.emplace_back();
        auto o = std::make_shared<TObj<T>>((int)tr.size() - 1);
        tr.back().weak = o;
        tr.back().owners.push_back(std::move(o));
    }
    static bool hasToken(Kind k) { return k == EQ || k == NC || k == LAM || k == SFN || k == TFN; }

    void connectOp(int k, bool scoped)
    {
        Kind kind = anyKind();
        int sub = anySub(kind), obj = anyObj(kind);
        int token = hasToken(kind) ? newToken() : -1;
        int vc = range(0, 3);
        MSlot m = describe(kind, sub, obj, token);
        withCallable(kind, sub, obj, token, vc, [&](auto&&... a) { doConnect(k, scoped, m, std::forward<decltype(a)>(a)...); });
    }
    void bulkOp(int k)
    {
        if (slots.size() > 2600) return;
        int n;
        switch (vp::weighted({ 12, 6, 3, 1 }))
        {
        case 0: n = range(2, 12); break;
        case 1: n = range(13, 70); break;
        case 2: n = range(120, 300); break;
        default: n = frames.empty() ? range(500, 1100) : 20; break;
        }
        bulk(k, n, range(1, 4));
    }
    void bulk(int k, int n, int keys)
    {
        trace("%*s  bulk: connect %d functors to signal %d", 2 * (int)frames.size(), "", n, k);
        for (int i = 0; i < n; ++i)
        {
            int token = newToken();
            MSlot m = describe(EQ, i % keys, -1, token);
            m.probe = sigs[k]->connect(EqFn<T>(token, i % keys));
            newSlot(std::move(m), k);
        }
    }

    // ---- disconnect by callable
    static int typeOf(const MSlot& s)
    {
        switch (s.kind)
        {
        case TRK: case TRKH: return 100 + s.sub;    // t0, t1, bm have different member pointer types
        default: return s.kind;
        }
    }
    static bool comparable(Kind k) { return k == FN || k == EQ || k == PMF || k == PMFC; }
    bool equal(const MSlot& a, const MSlot& b) const
    {
        if (a.kind != b.kind || !comparable(a.kind)) return false;
        switch (a.kind)
        {
        case FN: case EQ: return a.sub == b.sub;
        default: return a.sub == b.sub && a.obj == b.obj;
        }
    }
    // Performs the call; q describes the query.
    template<class F>
    void disconnectBy(int k, const MSlot& q, F&& call)
    {
        auto& l = ms[k].list;
        std::vector<size_t> pos;
        bool must = false, may = false;
        for (size_t i = 0; i < l.size(); ++i)
        {
            MSlot& s = slots[l[i]];
            if (comparable(q.kind)) { if (equal(s, q)) pos.push_back(i); }
            else if (typeOf(s) == typeOf(q))
            {
                // Objects are not comparable; for different members the outcome may be decided without them.
                // Nor is it specified when slots for a base and a derived pointer are of the same type.
                if ((q.kind == REFW || q.kind == TRK || q.kind == TRKH) && (s.sub != q.sub || s.kind != q.kind)) may = true;
                else if ((q.kind == TRK || q.kind == TRKH) && q.sub == 2) may = true;
                else must = true;
            }
        }
        bool threw = false, oom = false;
        size_t n = 0;
        try { n = call(); }
        catch (sig::not_comparable_exception&) { threw = true; }
        catch (std::bad_alloc&) { if (!vp::allocFaultHit) fail("disconnect threw bad_alloc"); oom = true; }
        catch (CopyFault&) { if (!copyFaultHit) fail("unexpected CopyFault"); oom = true; }
        catch (...) { fail("disconnect threw an exception of the wrong type"); }
        vp::allocFault = -1;
        copyFault = -1;
        if (oom) { resync(k, pos); return; }
        trace("%*s  signal %d disconnect(kind %d sub %d obj %d) -> %s%zu", 2 * (int)frames.size(), "", k, q.kind, q.sub, q.obj, threw ? "not_comparable " : "", n);
        if (threw && !must && !may) fail("not_comparable_exception although every slot can be compared with the callable");
        if (!threw && must) fail("no not_comparable_exception for a callable that cannot be compared");
        if (threw) { ev |= E_NOTCOMP; VP_LABEL("not comparable"); return; }
        if (n != pos.size()) fail("disconnect returned %zu, %zu equal slots were connected", n, pos.size());
        if (n) { ev |= E_ERASE; VP_LABEL("disconnect by callable removed"); }
        if (n > 1) { ev |= E_ERASE_MULTI; VP_LABEL("disconnect by callable removed several"); }
        if (n == 1) modelDisconnect(l[pos[0]]);
        else if (n > 1)
        {
            size_t first = pos[0];
            std::vector<int> ids;
            for (size_t p : pos) ids.push_back(l[p]);
            removeMany(k, ids, first);
        }
    }
    void removeMany(int k, const std::vector<int>& ids, size_t first)
    {
        for (int id : ids) { slots[id].conn = false; slots[id].sig = -1; }
        auto& l = ms[k].list;
        std::vector<int> rest;
        for (int id : l)
            if (slots[id].conn) rest.push_back(id);
        l = rest;
        MSig& m = ms[k];
        bool fuzzy = m.v > m.u;
        m.u = fuzzy ? std::min(m.u, first) : first;
        m.v = l.size();
        if (m.v <= m.u + 1) m.u = m.v = 0;
        ev |= E_DISC;
        if (!frames.empty()) { ev |= E_NEST_MOD; VP_LABEL("nested disconnect"); }
        touch();
    }
    // After a failed disconnect: only slots that match may be gone.
    void resync(int k, const std::vector<size_t>& pos)
    {
        ev |= E_FAULT;
        VP_LABEL("disconnect failed by injection");
        std::vector<int> gone;
        size_t first = 0;
        for (size_t p : pos)
        {
            int id = ms[k].list[p];
            if (!slots[id].probe.connected())
            {
                if (gone.empty()) first = p;
                gone.push_back(id);
            }
        }
        trace("    failed; %zu of %zu matching slots are gone", gone.size(), pos.size());
        if (!gone.empty()) removeMany(k, gone, first);
    }
    void sigDiscOp(int k, long fault)
    {
        // Query: usually something connected, else anything.
        Kind kind;
        int sub, obj = -1;
        auto& l = ms[k].list;
        if (!l.empty() && pick(4) != 3)
        {
            MSlot& s = slots[l[pick((uint32_t)l.size())]];
            kind = s.kind;
            sub = s.sub;
            obj = s.obj;
            if (obj >= 0 && chance(1, 6)) obj = anyObj(kind);
        }
        else
        {
            kind = anyKind();
            sub = anySub(kind);
            obj = anyObj(kind);
        }
        int token = hasToken(kind) ? newToken() : -1;
        int vc = range(0, 3);
        bool asSlot = chance(1, 4);
        MSlot q = describe(kind, sub, obj, token);
        withCallable(kind, sub, obj, token, vc, [&](auto&&... a)
        {
            disconnectBy(k, q, [&]() -> size_t
            {
                FaultsOff off{ this };
                if (asSlot)
                {
                    Slot s(std::forward<decltype(a)>(a)...);
                    vp::allocFaultHit = copyFaultHit = false;
                    vp::allocFault = fault;
                    return sigs[k]->disconnect(s);
                }
                vp::allocFaultHit = copyFaultHit = false;
                vp::allocFault = fault;
                return sigs[k]->disconnect(std::forward<decltype(a)>(a)...);
            });
        });
    }

    // ---- injected failures
    void faultConnectOp(int k)
    {
        Kind kind = anyKind();
        int sub = anySub(kind), obj = anyObj(kind);
        int token = hasToken(kind) ? newToken() : -1;
        int vc = range(0, 3);
        bool viaSlot = chance(1, 3), scoped = chance(1, 4);
        bool copy = token >= 0 && chance(1, 2);
        int at = copy ? range(0, 4) : range(0, 8);
        MSlot m = describe(kind, sub, obj, token);
        withCallable(kind, sub, obj, token, vc, [&](auto&&... a)
        {
            std::unique_ptr<Slot> so;
            if (viaSlot) so.reset(new Slot(a...));
            slots.reserve(slots.size() + 4);
            ms[k].list.reserve(ms[k].list.size() + 4);
            bool failed = false;
            sig::connection c;
            inCallable = true;
            try
            {
                FaultsOff off{ this };
                vp::allocFaultHit = copyFaultHit = false;
                if (copy) copyFault = at; else vp::allocFault = at;
                if (viaSlot)
                {
                    if (scoped) c = sigs[k]->connect_scoped(*so).release(); else c = sigs[k]->connect(*so);
                }
                else
                {
                    if (scoped) c = sigs[k]->connect_scoped(a...).release(); else c = sigs[k]->connect(a...);
                }
            }
            catch (CopyFault&) { failed = true; if (!copyFaultHit) fail("unexpected CopyFault"); }
            catch (std::bad_alloc&) { failed = true; if (!vp::allocFaultHit) fail("connect threw bad_alloc"); }
            catch (...) { fail("connect threw an exception of the wrong type"); }
            trace("    connect with %s failure at %d: %s", copy ? "copy" : "allocation", at, failed ? "failed" : "succeeded");
            if (!failed && (copyFaultHit || vp::allocFaultHit)) { VP_LABEL("connect absorbed a failure"); }
            if (failed)
            {
                ev |= E_FAULT;
                VP_LABEL("connect failed by injection");
                verify();
                if (chance(1, 2)) { inCallable = false; return; }
                if (viaSlot) c = sigs[k]->connect(*so); else c = sigs[k]->connect(a...);
            }
            inCallable = false;
            m.probe = c;
            int id = newSlot(std::move(m), k);
            int i = pick((uint32_t)cn.size());
            cn[i] = c;
            mcn[i] = id;
        });
    }

    // ---- the operations
    int anySig()
    {
        int n = (int)sigs.size();
        int s = pick(n);
        for (int i = 0; i < n; ++i)
            if (sigs[(s + i) % n]) return (s + i) % n;
        return -1;
    }
    void op()
    {
        const auto& w = P->w;
        Op o = (Op)vp::weighted(w.data(), N_OPS);
        VP_LABEL("operations");
        trace("%*s%s", 2 * (int)frames.size(), "", opNames[o]);
        bool nested = !frames.empty();
        int k = -1;
        if (o == EMIT || o == CONNECT || o == CONNECT_SCOPED || o == BULK || o == SIG_DISC || o == SLOTOBJ || o == SIG_KILL || o == SIG_MOVE
            || o == EMIT_MANY || o == FAULT_CONNECT || o == FAULT_DISC)
        {
            k = anySig();
            if (k < 0) { o = SIG_NEW; }
        }
        switch (o)
        {
        case EMIT: emitOp(k, vp::anyInt()); break;
        case CONNECT: connectOp(k, false); break;
        case CONNECT_SCOPED: connectOp(k, true); break;
        case BULK: bulkOp(k); break;
        case CONN_DISC:
        {
            int i, id;
            sig::connection* c;
            if (chance(1, 4) && !slots.empty())     // any slot, through a fresh copy of its connection
            {
                id = pick((uint32_t)slots.size());
                sig::connection t = slots[id].probe;
                trace("%*s  copy of a connection to slot #%d: disconnect", 2 * (int)frames.size(), "", id);
                checkDisc(t.disconnect(), id);
                break;
            }
            i = pick((uint32_t)cn.size());
            c = &cn[i];
            id = mcn[i];
            trace("%*s  conn %d (slot #%d): disconnect", 2 * (int)frames.size(), "", i, id);
            checkDisc(c->disconnect(), id);
            break;
        }
        case SIG_DISC: sigDiscOp(k, -1); break;
        case BLOCK: case UNBLOCK:
        {
            int i = pick((uint32_t)cn.size() + (uint32_t)sc.size());
            sig::connection* c;
            int id;
            if (i < (int)cn.size()) { c = &cn[i]; id = mcn[i]; }
            else
            {
                i -= (int)cn.size();
                if (!sc[i]) break;
                c = sc[i].get();
                id = msc[i];
            }
            trace("%*s  slot #%d", 2 * (int)frames.size(), "", id);
            if (o == BLOCK) c->block(); else c->unblock();
            if (id >= 0)
            {
                slots[id].blk = o == BLOCK;
                if (nested) ev |= E_NEST_MOD;
                touch();
            }
            break;
        }
        case BLOCKER_NEW:
        {
            int i = pick((uint32_t)cn.size()), j = pick((uint32_t)bl.size());
            trace("%*s  blocker %d <- conn %d (slot #%d)", 2 * (int)frames.size(), "", j, i, mcn[i]);
            std::unique_ptr<sig::connection_blocker> b(new sig::connection_blocker(cn[i].blocker()));
            int id = mcn[i];
            if (id >= 0) { ++slots[id].blkrs; ev |= E_BLOCKER; }
            touch();
            dropBlocker(j);
            bl[j] = std::move(b);
            mbl[j] = id;
            if (P->need & E_BLOCKER && chance(1, 40) && id >= 0)
            {
                // Many blockers at once.
                int n = chance(1, 12) ? range(65537, 65600) : range(2, 300);
                std::vector<sig::connection_blocker> v;
                v.reserve(n);
                const sig::connection own = cn[i];   // the emission's slots may change cn[i], and unblock or remove the slot
                for (int q = 0; q < n; ++q)
                {
                    v.push_back(cn[i].blocker());
                    if (!own.blocked() && own.valid()) fail("slot #%d is not blocked with %d blockers", id, slots[id].blkrs + q + 1);
                }
                slots[id].blkrs += n;
                verify();
                int sg = anySig();
                if (sg >= 0 && !nested) emit(sg, 5);
                while (v.size() > 1)
                {
                    v.pop_back();
                    if (!own.blocked() && own.valid()) fail("slot #%d is not blocked with %zu blockers", id, slots[id].blkrs - n + v.size());
                }
                slots[id].blkrs -= n - 1;
                verify();
                v.clear();
                slots[id].blkrs -= 1;
                touch();
            }
            break;
        }
        case BLOCKER_DROP: dropBlocker(pick((uint32_t)bl.size())); break;
        case BLOCKER_XFER:
        {
            int i = pick((uint32_t)bl.size()), j = pick((uint32_t)bl.size());
            int how = range(0, 3);
            if (!bl[i]) { bl[i].reset(new sig::connection_blocker()); mbl[i] = -1; }
            if (!bl[j]) { bl[j].reset(new sig::connection_blocker()); mbl[j] = -1; }
            trace("%*s  %s blockers %d (slot #%d), %d (slot #%d)", 2 * (int)frames.size(), "", how == 0 ? "move-assign" : how == 1 ? "relocate" : "swap", i, mbl[i], j, mbl[j]);
            if (how == 0)
            {
                if (i == j) break;
                *bl[i] = std::move(*bl[j]);
                unblockBy(i);
                mbl[i] = mbl[j];
                mbl[j] = -1;
            }
            else if (how == 1)
            {
                std::unique_ptr<sig::connection_blocker> b(new sig::connection_blocker(std::move(*bl[i])));
                bl[i] = std::move(b);
            }
            else
            {
                if (how == 2) bl[i]->swap(*bl[j]); else { using sig::swap; swap(*bl[i], *bl[j]); }
                std::swap(mbl[i], mbl[j]);
            }
            break;
        }
        case CONN_XFER: connXfer(); break;
        case SCOPED_XFER: scopedXfer(); break;
        case SCOPED_DROP: dropScoped(pick((uint32_t)sc.size())); break;
        case TRACKED: trackedOp(); break;
        case SLOTOBJ: slotObjOp(k); break;
        case SIG_NEW:
            for (auto& s : sigs)
                if (!s) { s.reset(new Sig()); ms[&s - &sigs[0]] = MSig(); break; }
            break;
        case SIG_KILL:
            if (nested && !P->killNested) break;
            if (!nested && chance(1, 2)) break;
            trace("%*s  destroy signal %d", 2 * (int)frames.size(), "", k);
            killSig(k);
            break;
        case SIG_MOVE:
            if (!nested) moveSig(k);
            break;
        case EMIT_MANY:
        {
            if (nested && P->nested)
            {
                deep = chance(1, 12) && ms[k].list.size() < 60 ? range(40, 600) : range(1, 40);
                emitOp(k, 3);
                deep = 0;
                VP_LABEL("deep recursion");
                break;
            }
            if (ms[k].list.size() > 40) break;
            int n = range(2, 300);
            int nb = nestBudget;
            nestBudget = 0;
            for (int i = 0; i < n; ++i) emit(k, i);
            nestBudget = nb;
            break;
        }
        case FAULT_CONNECT: faultConnectOp(k); break;
        case FAULT_DISC: sigDiscOp(k, range(0, 5)); break;
        default: break;
        }
        deadCheck();
        verify();
    }
    void checkDisc(bool r, int id)
    {
        if (id < 0)
        {
            if (r) fail("disconnect on an empty connection returned true");
            return;
        }
        MSlot& s = slots[id];
        if (alive(s) && r != s.conn) fail("disconnect on slot #%d returned %d, it was %sconnected", id, r, s.conn ? "" : "not ");
        if (!s.conn && r) fail("disconnect on slot #%d returned true, it was not connected", id);
        if (s.conn) ev |= E_DISC;
        if (ev & E_KILLED) ev |= E_AFTER_KILL;
        modelDisconnect(id);
    }
    void unblockBy(int j)
    {
        if (mbl[j] >= 0) { --slots[mbl[j]].blkrs; touch(); }
        mbl[j] = -1;
    }
    void dropBlocker(int j)
    {
        if (!bl[j]) return;
        trace("%*s  drop blocker %d (slot #%d)", 2 * (int)frames.size(), "", j, mbl[j]);
        bl[j].reset();
        unblockBy(j);
    }
    void connXfer()
    {
        int i = pick((uint32_t)cn.size()), j = pick((uint32_t)cn.size());
        int how = range(0, 6);
        trace("%*s  how %d, conns %d (slot #%d), %d (slot #%d)", 2 * (int)frames.size(), "", how, i, mcn[i], j, mcn[j]);
        switch (how)
        {
        case 0: cn[i] = cn[j]; mcn[i] = mcn[j]; break;
        case 1: if (i != j) { cn[i] = std::move(cn[j]); mcn[i] = mcn[j]; mcn[j] = -1; } break;
        case 2: cn[i].swap(cn[j]); std::swap(mcn[i], mcn[j]); break;
        case 3: { using sig::swap; swap(cn[i], cn[j]); std::swap(mcn[i], mcn[j]); break; }
        case 4: cn[i] = sig::connection(); mcn[i] = -1; break;
        case 5: { sig::connection t(cn[j]); cn[i] = std::move(t); mcn[i] = mcn[j]; break; }
        default:
            if (i != j)
            {
                sig::connection t(std::move(cn[j]));
                if (cn[j].connected() || cn[j].valid()) fail("moved-from connection still refers to a slot");
                cn[i] = t;
                mcn[i] = mcn[j];
                mcn[j] = -1;
            }
            break;
        }
    }
    void scopedXfer()
    {
        int i = pick((uint32_t)sc.size()), j = pick((uint32_t)sc.size()), c = pick((uint32_t)cn.size());
        int how = range(0, 11);
        trace("%*s  how %d, scoped %d (slot #%d), %d (slot #%d), conn %d (slot #%d)", 2 * (int)frames.size(), "", how, i, msc[i], j, msc[j], c, mcn[c]);
        auto ensure = [&](int x) { if (!sc[x]) { sc[x].reset(new sig::scoped_connection()); msc[x] = -1; } };
        auto xfer = [&](int id) { if (mconn(id)) { ev |= E_SCOPED_XFER; VP_LABEL("scoped transfer of a connected slot"); } };
        auto ended = [&](int id)
        {
            if (id < 0) return;
            if (slots[id].conn) { ev |= E_SCOPED_END; VP_LABEL("scoped end disconnected a slot"); }
            modelDisconnect(id);
        };
        switch (how)
        {
        case 0: // move-assign scoped from scoped
            if (i == j) break;
            ensure(i); ensure(j);
            { int old = msc[i]; xfer(msc[j]); *sc[i] = std::move(*sc[j]); msc[i] = msc[j]; msc[j] = -1; ended(old); }
            break;
        case 1: // relocate (container growth)
            ensure(i);
            {
                std::vector<sig::scoped_connection> v;
                v.push_back(std::move(*sc[i]));
                if (sc[i]->connected()) fail("moved-from scoped connection still refers to a slot");
                xfer(msc[i]);
                int n = range(1, 5);
                for (int q = 0; q < n; ++q) v.emplace_back();
                verifyId(v[0], msc[i]);
                sc[i].reset(new sig::scoped_connection(std::move(v[0])));
            }
            break;
        case 2: // new from copy of a connection
            { std::unique_ptr<sig::scoped_connection> u(new sig::scoped_connection(cn[c])); int id = mcn[c]; dropScoped(i); sc[i] = std::move(u); msc[i] = id; xfer(id); }
            break;
        case 3: // new from moved connection
            { std::unique_ptr<sig::scoped_connection> u(new sig::scoped_connection(std::move(cn[c]))); int id = mcn[c]; mcn[c] = -1; dropScoped(i); sc[i] = std::move(u); msc[i] = id; xfer(id); }
            break;
        case 4: // assign a connection
            ensure(i);
            { int old = msc[i]; int id = mcn[c]; if (old == id && id >= 0) break; *sc[i] = cn[c]; msc[i] = id; xfer(id); ended(old); }
            break;
        case 5: // release into a connection
            ensure(i);
            { xfer(msc[i]); cn[c] = sc[i]->release(); mcn[c] = msc[i]; msc[i] = -1; if (sc[i]->connected()) fail("released scoped connection still refers to a slot"); }
            break;
        case 6: ensure(i); ensure(j); { using sig::swap; swap(*sc[i], *sc[j]); std::swap(msc[i], msc[j]); xfer(msc[i]); xfer(msc[j]); } break;
        case 7: ensure(i); { sc[i]->swap(cn[c]); std::swap(msc[i], mcn[c]); xfer(msc[i]); } break;
        case 8: ensure(i); { bool r = sc[i]->disconnect(); checkDisc(r, msc[i]); } break;
        case 9: ensure(i); { cn[c] = *sc[i]; mcn[c] = msc[i]; } break;
        case 10: ensure(i); { xfer(msc[i]); cn[c] = std::move(*sc[i]); mcn[c] = msc[i]; msc[i] = -1; } break;
        default: ensure(i); ensure(j); if (i != j) { sc[i]->swap(*sc[j]); std::swap(msc[i], msc[j]); xfer(msc[i]); } break;
        }
    }
    void trackedOp()
    {
        int how = vp::weighted({ 3, 2, 6, 2 });
        if (tr.empty() || how == 0) { newTracked(); return; }
        int o = pick((uint32_t)tr.size());
        auto& t = tr[o];
        if (t.owners.empty()) return;
        if (how == 1) t.owners.push_back(t.owners[0]);
        else
        {
            trace("%*s  release %s of tracked object %d", 2 * (int)frames.size(), "", how == 3 ? "all owners" : "an owner", o);
            auto victims = std::make_unique<std::vector<std::shared_ptr<TObj<T>>>>();
            if (how == 3) victims->swap(t.owners);
            else { victims->push_back(std::move(t.owners.back())); t.owners.pop_back(); }
            if (!frames.empty() && t.owners.empty()) { ev |= E_NEST_MOD; VP_LABEL("nested expiry"); }
            victims.reset();
            touch();
        }
    }
    void slotObjOp(int k)
    {
        int i = pick((uint32_t)so.size());
        int how = vp::weighted({ 4, 6, 1, 1, 2 });
        if (!so[i].s) how = 0;
        if (how == 0)
        {
            Kind kind = anyKind();
            int sub = anySub(kind), obj = anyObj(kind);
            int token = hasToken(kind) ? newToken() : -1;
            int vc = range(0, 3);
            so[i].s.reset();
            MSlot m = describe(kind, sub, obj, token);
            if (kind == TRK && chance(1, 2))
            {
                // From a weak pointer, possibly expired.
                if (sub == 0) so[i].s.reset(new Slot(&TObj<T>::t0, tr[obj].weak));
                else if (sub == 1) so[i].s.reset(new Slot(&TObj<T>::t1, tr[obj].weak));
                else so[i].s.reset(new Slot(&TBase<T>::bm, tr[obj].weak));
            }
            else if (!withCallable(kind, sub, obj, token, vc, [&](auto&&... a) { so[i].s.reset(new Slot(std::forward<decltype(a)>(a)...)); }))
                return;
            so[i].m = m;
            trace("%*s  slot object %d (label %d)", 2 * (int)frames.size(), "", i, m.label);
        }
        else if (how == 1)
        {
            MSlot m = so[i].m;
            doConnect(k, chance(1, 5), m, static_cast<const Slot&>(*so[i].s));
        }
        else if (how == 2) { so[i].s->block(); so[i].m.blk = true; }
        else if (how == 3) { so[i].s->unblock(); so[i].m.blk = false; }
        else
        {
            MSlot q = so[i].m;
            disconnectBy(k, q, [&]() -> size_t { return sigs[k]->disconnect(*so[i].s); });
        }
    }
    void killSig(int k)
    {
        std::vector<int> l = ms[k].list;
        bool running = false;
        for (Frame* f : frames)
            if (f->sig == k) running = true;
        // The model goes first: destructors of callables run inside.
        for (int id : l) { slots[id].conn = false; slots[id].sig = -1; }
        ms[k] = MSig();
        touch();
        std::unique_ptr<Sig> dying = std::move(sigs[k]);
        dying.reset();
        ev |= E_KILLED;
        if (running) { ev |= E_KILL_NEST; VP_LABEL("signal destroyed during its emission"); }
    }
    void moveSig(int k)
    {
        int j = pick((uint32_t)sigs.size());
        trace("  move signal %d to %d (%s)", k, j, sigs[j] ? "assign" : "construct");
        if (j == k)
        {
            // Self-move must not lose anything.
            Sig& a = *sigs[k];
            Sig* volatile b = sigs[k].get();
            a = std::move(*b);
            VP_LABEL("self move");
            return;
        }
        bool fresh = false;
        if (sigs[j] && chance(1, 3)) { killSig(j); fresh = true; }
        if (!sigs[j])
        {
            sigs[j].reset(new Sig(std::move(*sigs[k])));
            fresh = true;
        }
        else
        {
            Sig& r = (*sigs[j] = std::move(*sigs[k]));
            if (&r != sigs[j].get()) fail("move assignment does not return the target");
        }
        if (!fresh)
            for (int id : ms[j].list) { slots[id].conn = false; slots[id].sig = -1; }
        if (!ms[k].list.empty()) { ev |= E_MOVED; VP_LABEL("moved a non-empty signal"); }
        ms[j] = ms[k];
        for (int id : ms[j].list) slots[id].sig = j;
        ms[k] = MSig();
        if (chance(1, 2)) { killSig(k); }
        else if (chance(1, 2)) emit(k, 1);
        emit(j, 2);
    }

    // ---- invariants after every operation
    void verifyId(const sig::connection& c, int id)
    {
        bool e = mconn(id);
        if (c.connected() != e)
            fail("connection to slot #%d reports %s, expected %s", id, e ? "disconnected" : "connected", e ? "connected" : "disconnected");
        if (e && !c.valid()) fail("connection to connected slot #%d is not valid", id);
        if (e && c.blocked() != blocked(slots[id]))
            fail("connection to slot #%d reports %sblocked, expected the opposite", id, blocked(slots[id]) ? "not " : "");
        if (id < 0 && c.blocked()) fail("empty connection reports blocked");
    }
    void verify()
    {
        for (size_t i = 0; i < cn.size(); ++i) verifyId(cn[i], mcn[i]);
        for (size_t i = 0; i < sc.size(); ++i)
            if (sc[i]) verifyId(*sc[i], msc[i]);
        if (slots.size() <= 96)
            for (size_t i = 0; i < slots.size(); ++i) verifyId(slots[i].probe, (int)i);
        else
            for (size_t i = slots.size() - 48; i < slots.size(); ++i) verifyId(slots[i].probe, (int)i);
        if (frames.empty() && P->live && slots.size() <= 400) verifyLive();
    }
    void verifyLive()
    {
        std::vector<int> exp(tok.size(), 0), slack(tok.size(), 0);    // slack: slots whose object is gone may be removed at any time
        for (auto& s : slots)
            if (s.conn && s.sig >= 0 && s.token >= 0) { ++exp[s.token]; if (!alive(s)) ++slack[s.token]; }
        for (auto& o : so)
            if (o.s && o.m.token >= 0) ++exp[o.m.token];
        if (inCallable) return;
        for (size_t t = 0; t < tok.size(); ++t)
            if (tok[t] > exp[t] || tok[t] < exp[t] - slack[t])
                fail("%d instances of callable %zu exist, expected %d", tok[t], t, exp[t]);
    }

    // ---- one case
    void run()
    {
        sigs.resize(3);
        ms.resize(3);
        sigs[0].reset(new Sig());
        if (chance(1, 2)) sigs[1].reset(new Sig());
        cn.resize(8); mcn.assign(8, -1);
        sc.resize(5); msc.assign(5, -1);
        bl.resize(5); mbl.assign(5, -1);
        so.resize(4);
        int n;
        switch (vp::weighted({ 3, 4, 2 }))
        {
        case 0: n = range(1, 10); break;
        case 1: n = range(8, 40); break;
        default: n = range(40, 150); break;
        }
        nestBudget = 40;
        for (int i = 0; i < n; ++i) op();
        // Every surviving signal, once more.
        int nb = nestBudget;
        (void)nb;
        nestBudget = 0;
        for (size_t k = 0; k < sigs.size(); ++k)
            if (sigs[k]) emit((int)k, 77);
        for (size_t i = 0; i < slots.size(); ++i) verifyId(slots[i].probe, (int)i);
        if (P->live) verifyLive();
        teardown();
        if ((ev & P->need) == P->need && (P->any == ~0u || (ev & P->any))) vp::nontrivial();
    }
    // A very large signal: positions beyond 8 and 16 bits.
    void runHuge()
    {
        sigs.resize(3);
        ms.resize(3);
        sigs[0].reset(new Sig());
        cn.resize(8); mcn.assign(8, -1);
        sc.resize(5); msc.assign(5, -1);
        bl.resize(5); mbl.assign(5, -1);
        so.resize(4);
        nestBudget = 0;
        int n = range(65530, 66200);
        slots.reserve(n + 100);
        bulk(0, n, 30000);
        emit(0, 1);
        for (int i = 0; i < 30; ++i)
        {
            int p;
            switch (range(0, 3))
            {
            case 0: p = range(0, 400); break;
            case 1: p = range(65400, n - 1); break;
            default: p = range(0, n - 1); break;
            }
            sig::connection c = slots[p].probe;
            checkDisc(c.disconnect(), p);
        }
        emit(0, 2);
        connectOp(0, false);
        MSlot q = describe(EQ, range(0, 29999), -1, newToken());
        disconnectBy(0, q, [&]() -> size_t { EqFn<T> f(q.token, q.sub); return sigs[0]->disconnect(f); });
        emit(0, 3);
        for (size_t i = 0; i < slots.size(); ++i) verifyId(slots[i].probe, (int)i);
        VP_LABEL("huge cases");
        teardown();
        vp::nontrivial();
    }
    void teardown()
    {
        // In random order: handles may outlive signals.
        int order = range(0, 2);
        auto handles = [&]
        {
            for (size_t i = 0; i < bl.size(); ++i) dropBlocker((int)i);
            for (size_t i = 0; i < sc.size(); ++i) dropScoped((int)i);
        };
        auto signals = [&]
        {
            for (size_t k = 0; k < sigs.size(); ++k)
                if (sigs[k]) killSig((int)k);
        };
        if (order == 1) handles();
        signals();
        verify();
        if (order != 1) handles();
        for (auto& o : so) o.s.reset();
        for (size_t t = 0; t < tok.size(); ++t)
            if (tok[t] != 0) fail("%d instances of callable %zu exist after all signals and slots are gone", tok[t], t);
        for (auto& t : tr) { auto v = std::move(t.owners); t.owners.clear(); v.clear(); }
        deadCheck();
    }

    unsigned ev = 0;
    int nestBudget = 0, deep = 0, booms = 0;
    long invocations = 0;
    long copyFault = -1;
    bool copyFaultHit = false;
    bool inCallable = false;
    Obj<T> objs[3];
    std::vector<int> tok;
    std::vector<Tracked> tr = reserveTracked();
    static std::vector<Tracked> reserveTracked() { std::vector<Tracked> v; v.reserve(16); return v; }
    std::vector<MSlot> slots;
    std::vector<MSig> ms;
    std::vector<Frame*> frames;
    std::vector<std::unique_ptr<Sig>> sigs;
    std::vector<sig::connection> cn;
    std::vector<int> mcn;
    std::vector<std::unique_ptr<sig::scoped_connection>> sc;
    std::vector<int> msc;
    std::vector<std::unique_ptr<sig::connection_blocker>> bl;
    std::vector<int> mbl;
    std::vector<SlotObj> so;
};

#ifdef WORLD_T
#define WORLD_CAT2(a, b) a##b
#define WORLD_CAT(a, b) WORLD_CAT2(a, b)
void WORLD_CAT(world_run_, WORLD_T)(bool huge)
{
    using T = WORLD_CAT(T, WORLD_T);
    World<T> w;
    if (huge) w.runHuge(); else w.run();
    Cur<T>::w = nullptr;
}
#endif

#ifdef WORLD_MAIN
// ---- callables that own handles to other slots of the same signal ---------------------------------
namespace owner
{
    struct Box { sig::scoped_connection sc[2]; };
    static int live[32], born;
    static bool running[32];
    struct Fn
    {
        int id, key;
        std::shared_ptr<Box> box;
        Fn(int i, int k) : id(i), key(k), box(std::make_shared<Box>()) { ++live[id]; }
        Fn(const Fn& o) : id(o.id), key(o.key), box(o.box) { ++live[id]; }
        ~Fn() { --live[id]; }
        bool operator==(const Fn& o) const { return key == o.key; }
        void operator()(int a);
    };
    static std::vector<int> log;
    static std::function<void(int)>* action = nullptr;
    void Fn::operator()(int)
    {
        log.push_back(id);
        int before = live[id];
        if (action && *action) (*action)(id);
        if (live[id] < 1 || before < 1) fail("callable %d destroyed while it is running", id);
    }
    static void run()
    {
        using Sig = sig::signal<void(int)>;
        for (int i = 0; i < 32; ++i) live[i] = 0;
        log.clear();
        std::function<void(int)> act;
        action = &act;
        int n = range(2, 8);
        std::vector<std::vector<int>> owns(n);
        std::vector<sig::connection> c(n);
        std::vector<char> conn(n, 1);
        auto s = std::make_unique<Sig>();
        {
            std::vector<std::shared_ptr<Box>> boxes;
            for (int i = 0; i < n; ++i)
            {
                Fn f(i, range(0, 2));
                boxes.push_back(f.box);
                c[i] = s->connect(f);
            }
            for (int i = 0; i < n; ++i)
                for (int q = 0; q < 2; ++q)
                    if (chance(1, 2))
                    {
                        int j = range(0, n - 1);
                        trace("callable %d owns a scoped connection to slot %d", i, j);
                        boxes[i]->sc[q] = c[j];
                        owns[i].push_back(j);
                    }
        }
        // keys are needed by the model
        std::vector<int> keys(n);
        {
            // recover the keys by asking equality through the model's own record
        }
        std::function<void(int)> gone = [&](int i)
        {
            if (!conn[i]) return;
            conn[i] = 0;
            for (int j : owns[i]) gone(j);
        };
        auto check = [&](const char* when)
        {
            for (int i = 0; i < n; ++i)
            {
                if (c[i].connected() != (bool)conn[i]) fail("slot %d reports %s %s", i, conn[i] ? "disconnected" : "connected", when);
                if (live[i] != (conn[i] ? 1 : 0)) fail("%d instances of callable %d exist %s, expected %d", live[i], i, when, conn[i]);
            }
            if (!s) return;
            log.clear();
            (*s)(1);
            std::vector<int> got(n, 0);
            for (int i : log) ++got[i];
            for (int i = 0; i < n; ++i)
                if (got[i] != conn[i]) fail("slot %d invoked %d times %s, expected %d", i, got[i], when, conn[i]);
        };
        check("at first");
        int steps = range(1, 4);
        for (int q = 0; q < steps && s; ++q)
        {
            switch (range(0, 3))
            {
            case 0:
            {
                int i = range(0, n - 1);
                trace("disconnect slot %d by handle", i);
                bool r = c[i].disconnect();
                if (r != (bool)conn[i]) fail("disconnect returned %d", r);
                gone(i);
                check("after disconnecting a slot whose callable owns connections");
                break;
            }
            case 1:
            {
                // by callable: equality on the id of a fresh query object with the same key
                int i = range(0, n - 1);
                if (!conn[i]) break;
                int key = range(0, 2);
                Fn query(31, key);
                std::vector<char> was = conn;
                trace("disconnect all with key %d", key);
                size_t r = s->disconnect(query);
                // Which slots matched follows from the keys; take them from the handles and check the closure.
                std::vector<char> now(n);
                size_t removed = 0;
                for (int x = 0; x < n; ++x) { now[x] = c[x].connected(); removed += was[x] && !now[x]; }
                if (r > removed) fail("disconnect returned %zu but %zu slots went away", r, removed);
                for (int x = 0; x < n; ++x)
                    if (was[x] && !now[x])
                        for (int y : owns[x])
                            if (now[y]) fail("slot %d is still connected although its owner, callable %d, is gone", y, x);
                conn = now;
                live[31] = 0;
                check("after disconnecting callables that own connections");
                break;
            }
            case 2:
            {
                int at = range(0, n - 1);
                bool byHandle = chance(1, 2);
                trace("slot %d destroys %s during its invocation", at, byHandle ? "its own slot" : "the signal");
                if (!conn[at]) break;
                act = [&](int id)
                {
                    if (id != at) return;
                    act = nullptr;
                    if (byHandle) c[at].disconnect(); else s.reset();
                };
                std::function<void(int)> keep;
                auto body = act;
                bool done = false;
                act = [&](int id)
                {
                    if (id != at || done) return;
                    done = true;
                    if (byHandle) c[at].disconnect();
                    else { auto d = std::move(s); d.reset(); for (auto& x : c) { if (x.connected()) fail("connection outlives its signal"); x.disconnect(); x.block(); } }
                };
                log.clear();
                Sig* raw = s.get();
                (*raw)(2);
                if (byHandle) gone(at);
                else
                {
                    for (int x = 0; x < n; ++x) conn[x] = 0;
                    if (log.empty() || log.back() != at) fail("slots invoked after the signal was destroyed by a slot");
                    VP_LABEL("signal with owning callables destroyed by a slot");
                }
                act = nullptr;
                check("after a destruction during the emission");
                break;
            }
            default:
                trace("destroy the signal");
                s.reset();
                for (int x = 0; x < n; ++x) conn[x] = 0;
                VP_LABEL("signal with owning callables destroyed");
                check("after the signal was destroyed");
                break;
            }
        }
        s.reset();
        for (int i = 0; i < n; ++i) conn[i] = 0;
        check("at the end");
        action = nullptr;
        log = std::vector<int>();
        VP_LABEL("ownership cases");
        vp::nontrivial();
    }
}


void world_run_0(bool), world_run_1(bool), world_run_2(bool), world_run_6(bool);
#ifdef WORLD_ALL
void world_run_3(bool), world_run_4(bool), world_run_5(bool), world_run_7(bool), world_run_8(bool);
#endif
void vp::run_case()
{
    static const Prof* base = nullptr;
    static Prof cur;
    if (!base)
    {
        for (auto& p : profs)
            if (!strcmp(p.id, vp::profile)) base = &p;
        if (!base) { fprintf(stderr, "unknown profile %s\n", vp::profile); exit(2); }
    }
    cur = *base;
    P = &cur;
    // Half of the cases shift the weights, so that some histories consist of few kinds of operations.
    if (chance(1, 2))
    {
        static const int factor[] = { 1, 1, 0, 4 };
        for (int i = 0; i < N_OPS; ++i)
            if (cur.w[i]) { int f = factor[pick(4)]; if (i == EMIT || i == CONNECT) f = f ? f : 1; cur.w[i] *= f; }
        int sum = 0;
        for (int i = 0; i < N_KINDS; ++i)
            if (cur.kinds[i]) sum += cur.kinds[i] *= factor[pick(4)];
        if (!sum) cur.kinds = base->kinds;
    }
    // One case in eight draws from all operations and callables, so that no property depends on histories of its own kind only.
    if (chance(1, 8))
    {
        for (int i = 0; i < FAULT_CONNECT; ++i) cur.w[i] = std::max(cur.w[i], 1);
        for (auto& k : cur.kinds) k = std::max(k, 1);
        cur.nested = std::max(cur.nested, 2);
        cur.throws = std::max(cur.throws, 1);
    }
    if (P->owner && pick(16) >= (uint32_t)(16 - P->owner)) { owner::run(); return; }
    bool huge = P->w[BULK] >= 2 && vp::pick(4000) == 3999;
    int t = P->combiners ? range(0, 8) : vp::weighted({ 5, 3, 2, 0, 0, 0, 1, 0, 0 });
    switch (t)
    {
    case 0: world_run_0(huge); break;
    case 1: world_run_1(huge); break;
    case 2: world_run_2(huge); break;
    case 6: world_run_6(huge); break;
#ifdef WORLD_ALL
    case 3: world_run_3(huge); break;
    case 4: world_run_4(huge); break;
    case 5: world_run_5(huge); break;
    case 7: world_run_7(huge); break;
    case 8: world_run_8(huge); break;
#endif
    }
}
#endif
