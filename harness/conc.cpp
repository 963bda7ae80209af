// C11, C12, C13: histories of several threads over one or two signals, under a generated schedule.
// Oracle: every emission, query and disconnect is compared with the real-time intervals of the operations on each slot
// (what must, may and must not be the case during the interval). Data races, deadlocks and accesses to freed memory are
// found by the runtime (sched_rt.cpp).
#define VP_OWN_RUNTIME
#include "vp.hpp"
#include "vp_main.hpp"
#include "sched_rt.hpp"
#include <signals.hpp>
#include <map>

using namespace vp;
using rt::Loud;
using rt::Quiet;
typedef uint64_t Time;
static const Time kNever = ~0ull;

namespace
{
    typedef sig::signal<int(int)> Signal;
    typedef sig::signal<void(int)> VSignal;     // has implementations of its own throughout
    const int kMaxSlots = 200, kMaxEm = 160, kMaxEv = 400, kObjs = 4, kPobjs = 2, kKeys = 3;

    struct Boom { int em; };

    enum Kind { KFn, KTracked, KPtr };

    enum OpK { Emit, Conn, ConnT, ConnP, ConnS, Disc, Erase, EraseP, Block, Unblock, Blkr, BlkrD, QConn, QBlk, ScD, ScRel, Reset, Copy, nOps };
    const char* const opName[] = { "emit", "connect", "connect tracked", "connect member", "connect scoped", "disconnect", "disconnect callable", "disconnect member",
        "block", "unblock", "blocker", "end blocker", "connected?", "blocked?", "end scoped", "release scoped", "drop owner", "copy connection" };

    struct Action { int op; int target; };

    // What the body of a slot will do; drawn with the operation that connects it.
    struct Plan { int n; Action a[2]; bool throws; };
    // A thread's program. Every step takes the same number of choices, so that shrinking can delete steps.
    struct Step { int op, target; Plan plan; };

    struct SlotRec
    {
        int sig; Kind kind; int key;            // key: callable value, tracked object or member object
        Time cb, ce;
        sig::connection c;
        Action script[2]; int nScript;
        bool throws;
        bool isScoped;
        int budget;
    };
    struct Em { int sig; Time b, e; bool threw, thrown; int thread; unsigned char count[kMaxSlots]; int last; bool any; int prev; };
    struct Removal { int slot; int sig; Kind kind; int key; Time b, e; int result; bool handle; };   // slot >= 0: through a handle
    struct BlockEv { int slot; bool on; Time b, e; };
    struct BlockerEv { int slot; Time cb, ce, db, de; };
    struct Query { int slot; bool blocked; Time b, e; bool value; };

    struct World
    {
        int nSlots, nEm, nRem, nBlk, nBlkr, nQ, nSig;
        SlotRec slot[kMaxSlots];
        Em em[kMaxEm];
        Removal rem[kMaxEv];
        BlockEv blk[kMaxEv];
        BlockerEv blkr[kMaxEv];
        Query q[kMaxEv];
        Time dropB[kObjs], dead[kObjs];
        int fnLive;
        int retSerial;
        int weights[nOps];
        Step prog[rt::kThreads][12];
        int nProg[rt::kThreads];
        bool allowThrow;
    };
    World W;
    // Which property is being decided. Races, deadlocks, accesses to freed memory and slots that run twice, on destroyed
    // objects or for the wrong signal are reported whatever it is (after them nothing can be relied on); of the rest,
    // only what the property is about.
    int scope;
    enum { JEmit = 1, JBlock = 2, JResult = 4, JConnQ = 8, JBlkQ = 16, JHandle = 32, JErase = 64, JFinal = 128, JFinalEmit = 256, JLeft = 512, JOrder = 1024, JThrow = 2048 };
    struct Judged { int scope, what; };
    const Judged judged[] = {
        { 1, JEmit | JBlock | JFinalEmit }, { 2, JOrder }, { 3, JResult }, { 5, JConnQ | JHandle | JFinal }, { 6, JErase | JFinal | JLeft }, { 7, JBlock | JBlkQ | JFinalEmit }, { 8, JConnQ | JFinal },
        { 9, JEmit | JBlock | JConnQ | JBlkQ | JFinal | JFinalEmit }, { 11, JEmit | JBlock | JResult | JConnQ | JBlkQ | JFinal | JFinalEmit | JLeft },
        { 12, JEmit | JBlock | JConnQ | JBlkQ | JHandle | JErase | JFinal | JFinalEmit | JLeft }, { 14, JThrow },
    };
    int what;       // what is judged
    bool about(int s);
    alignas(8) char sigMem[2][sizeof(void*)];
    Signal* S[2];
    VSignal* V[2];
    bool isVoid;
#define ON(sg, call) (isVoid ? V[sg]->call : S[sg]->call)

    struct Obj
    {
        int id;
        int alive;
        explicit Obj(int i) : id(i), alive(1) {}
        ~Obj() { alive = 0; Quiet q; W.dead[id] = rt::now(); trace("  [%d] object %d dies", rt::self, id); }
        int member(int em);
    };
    std::shared_ptr<Obj> owner[kObjs];
    Obj* pobj[kPobjs];

    struct Held { int rec; sig::connection_blocker b; };
    struct HeldS { int slot; sig::scoped_connection s; };
    std::vector<Held>* blockers[rt::kThreads];
    std::vector<HeldS>* scoped[rt::kThreads];

    int depth[rt::kThreads];
    int bodyOf(int slot, int em);

    // The stored callable. Equal keys compare equal. Its members live in tracked memory.
    struct Fn
    {
        int slot, key;
        Fn(int s, int k) : slot(s), key(k) { Quiet q; ++W.fnLive; }
        Fn(const Fn& o) : slot(o.slot), key(o.key) { Quiet q; ++W.fnLive; }
        ~Fn() { slot = -1; Quiet q; --W.fnLive; }
        int operator()(int em) const
        {
            int s = slot;
            Quiet q;
            if (s < 0) fail("a destroyed callable is invoked");
            int r = bodyOf(s, em);
            Loud l;
            if (slot != s) { l.~Loud(); fail("the callable of slot %d was destroyed while it ran", s); }
            return r;
        }
        bool operator==(const Fn& o) const { return key == o.key; }
    };

    void doOp(int op, int target, int who, const Plan& plan);
    extern const Plan noPlan;

    int bodyOf(int s, int em)
    {
        SlotRec& r = W.slot[s];
        Em& e = W.em[em];
        int me = rt::self;
        trace("  [%d]   slot %d runs in emission %d", me, s, em);
        if (e.thread != me || e.e != kNever) fail("slot %d runs outside its emission %d", s, em);
        if (r.sig != e.sig) fail("emission %d of signal %d invokes slot %d, which is connected to signal %d", em, e.sig, s, r.sig);
        if (++e.count[s] > 1) fail("emission %d invokes slot %d twice", em, s);
        if (what & JThrow && e.thrown) fail("emission %d goes on with slot %d after an exception", em, s);
        if (what & JOrder)
        {
            // Without removals the order is that of the connects.
            int removals = 0;
            for (int i = 0; i < W.nRem; ++i) removals += W.rem[i].sig == e.sig;
            if (!removals && e.prev >= 0 && r.ce < W.slot[e.prev].cb) fail("emission %d invokes slot %d after slot %d, which was connected later", em, s, e.prev);
            if (!removals && e.prev >= 0) VP_LABEL("order compared");
            e.prev = s;
        }
        { Loud l; rt::yield(); }
        if (r.nScript && r.budget > 0 && depth[me] < 3)
        {
            --r.budget;
            VP_LABEL("operation inside a slot");
            for (int i = 0; i < r.nScript; ++i)
            {
                doOp(r.script[i].op, r.script[i].target, me, noPlan);
                Loud l;
                rt::yield();
            }
        }
        if (r.throws) { VP_LABEL("slot throws"); e.thrown = true; throw Boom{ em }; }
        e.any = true;
        e.last = ++W.retSerial;
        return e.last;
    }
    int Obj::member(int em)
    {
        int a = alive;
        Quiet q;
        if (!a) fail("a slot is invoked on a destroyed object");
        int s = -1;
        for (int i = 0; i < W.nSlots; ++i)
            if (W.slot[i].kind != KFn && (W.slot[i].kind == KTracked ? id < 100 && W.slot[i].key == id : W.slot[i].key + 100 == id) && W.slot[i].sig == W.em[em].sig) s = i;
        if (s < 0) fail("a member slot that was never connected is invoked");
        int r = bodyOf(s, em);
        Loud l;
        if (!alive) { l.~Loud(); fail("the tracked object of slot %d was destroyed while the slot ran", s); }
        return r;
    }

    Plan drawPlan()
    {
        static const int w[nOps] = { 3, 3, 0, 0, 0, 5, 2, 0, 3, 3, 1, 1, 1, 1, 1, 1, 2, 0 };
        Plan p;
        p.n = weighted({ 6, 2, 2 });
        for (int j = 0; j < 2; ++j) { p.a[j].op = weighted(w, nOps); p.a[j].target = (int)pick(64); }
        p.throws = chance(1, 12) && W.allowThrow;
        return p;
    }
    Step drawStep()
    {
        Step s;
        s.op = weighted(W.weights, nOps);
        // Half of the time a target among the first few, so that threads meet.
        int small = (int)pick(2), t = (int)pick(64);
        s.target = small ? t : t % 6;
        s.plan = drawPlan();
        return s;
    }
    const Plan noPlan = {};

    int newSlot(int sg, Kind k, int key, const Plan& plan)
    {
        if (W.nSlots == kMaxSlots) return -1;
        int i = W.nSlots++;
        SlotRec& r = W.slot[i];
        r.sig = sg; r.kind = k; r.key = key;
        r.cb = rt::now();
        r.ce = kNever;
        r.nScript = plan.n;
        for (int j = 0; j < plan.n; ++j) r.script[j] = plan.a[j];
        r.throws = plan.throws;
        r.isScoped = false;
        r.budget = 2;
        return i;
    }
    void connected(int s, const sig::connection& c, const char* how)
    {
        SlotRec& r = W.slot[s];
        r.c = c;
        r.ce = rt::now();
        rt::publish(&r);
        trace("  [%d] slot %d: %s to signal %d, key %d%s", rt::self, s, how, r.sig, r.key, r.throws ? ", throws" : "");
        for (int j = 0; j < r.nScript; ++j) trace("  [%d]     its body will: %s, target %d", rt::self, opName[r.script[j].op], r.script[j].target);
    }

    // A slot whose connect has completed, or -1.
    int pickSlot(int target)
    {
        int ok[kMaxSlots], n = 0;
        for (int i = 0; i < W.nSlots; ++i)
            if (W.slot[i].ce != kNever) ok[n++] = i;
        if (!n) return -1;
        int s = ok[target % n];
        rt::observe(&W.slot[s]);
        return s;
    }

    bool roomEv(int n) { return n < kMaxEv - 1; }

    void emitOn(int sg, int who)
    {
        if (W.nEm >= kMaxEm) return;
        int k = W.nEm++;
        Em& e = W.em[k];
        memset(&e, 0, sizeof e);
        e.sig = sg;
        e.thread = who;
        e.e = kNever;
        e.prev = -1;
        trace("  [%d] emission %d of signal %d begins", who, k, sg);
        e.b = rt::now();
        ++depth[who];
        opt::optional<int> r;
        try
        {
            Loud l;
            if (isVoid) { if ((*V[sg])(k)) r = 0; }
            else r = (*S[sg])(k);
        }
        catch (const Boom& b)
        {
            // The exception of this emission, or of one nested in it.
            e.threw = true;
            if (what & JThrow)
            {
                if (b.em != k) fail("emission %d throws the exception of emission %d", k, b.em);
            }
        }
        --depth[who];
        if (what & JThrow && e.thrown && !e.threw) fail("emission %d swallows an exception", k);
        e.e = rt::now();
        trace("  [%d] emission %d ends%s", who, k, e.threw ? " with an exception" : "");
        if (isVoid && r) fail("emission %d of a void signal has a result", k);
        if (!e.threw && what & JResult && !isVoid)
        {
            if (bool(r) != e.any) fail("emission %d: the result is %s although %s slot returned", k, r ? "engaged" : "empty", e.any ? "a" : "no");
            if (r && *r != e.last) fail("emission %d: the result is %d, the last slot returned %d", k, *r, e.last);
        }
    }

    void handleDisc(int s, int who, sig::connection& c)
    {
        if (!roomEv(W.nRem)) return;
        int k = W.nRem++;
        Removal& r = W.rem[k];
        r.slot = s; r.handle = true; r.sig = W.slot[s].sig; r.e = kNever; r.result = -1;
        r.b = rt::now();
        bool v;
        { Loud l; v = c.disconnect(); }
        W.rem[k].result = v;
        W.rem[k].e = rt::now();
        trace("  [%d] disconnect slot %d: %d", who, s, (int)v);
    }

    void doOp(int op, int target, int who, const Plan& plan)
    {
        switch (op)
        {
        case Emit: emitOn(target % W.nSig, who); break;
        case Conn:
        {
            int key = (target / 2) % kKeys;
            int s = newSlot(target % W.nSig, KFn, key, plan);
            if (s < 0) return;
            trace("  [%d] slot %d: connecting", who, s);
            sig::connection c;
            { Loud l; c = ON(W.slot[s].sig, connect(Fn(s, key))); }
            connected(s, c, "connected");
            break;
        }
        case ConnS:
        {
            int key = (target / 2) % kKeys;
            int s = newSlot(target % W.nSig, KFn, key, plan);
            if (s < 0) return;
            HeldS h;
            h.slot = s;
            W.slot[s].isScoped = true;
            { Loud l; h.s = ON(W.slot[s].sig, connect_scoped(Fn(s, key))); }
            connected(s, h.s, "scoped connection");
            scoped[who]->push_back(std::move(h));
            break;
        }
        case ConnT:
        {
            int o = target % kObjs, sg = (target / kObjs) % W.nSig;
            for (int i = 0; i < W.nSlots; ++i) if (W.slot[i].kind == KTracked && W.slot[i].key == o && W.slot[i].sig == sg) return;
            if (!owner[o]) return;
            int s = newSlot(sg, KTracked, o, plan);
            if (s < 0) return;
            sig::connection c;
            {
                // An owner of our own for the duration of the connect: another thread may drop the original.
                std::shared_ptr<Obj> p = owner[o];
                Loud l;
                if (target & 32)
                {
                    std::weak_ptr<Obj> w(p);
                    if (isVoid) c = V[sg]->connect(sig::slot<void(int)>(&Obj::member, w));
                    else c = S[sg]->connect(sig::slot<int(int)>(&Obj::member, w));
                }
                else c = ON(sg, connect(&Obj::member, p));
                std::shared_ptr<Obj>().swap(p);
            }
            connected(s, c, "tracked");
            break;
        }
        case ConnP:
        {
            int o = target % kPobjs, sg = (target / kPobjs) % W.nSig;
            for (int i = 0; i < W.nSlots; ++i) if (W.slot[i].kind == KPtr && W.slot[i].key == o && W.slot[i].sig == sg) return;
            int s = newSlot(sg, KPtr, o, plan);
            if (s < 0) return;
            sig::connection c;
            { Loud l; c = ON(sg, connect(&Obj::member, pobj[o])); }
            connected(s, c, "member");
            break;
        }
        case Disc:
        {
            int s = pickSlot(target);
            if (s < 0) return;
            sig::connection c;
            { Loud l; c = W.slot[s].c; }
            handleDisc(s, who, c);
            break;
        }
        case Erase:
        case EraseP:
        {
            if (!roomEv(W.nRem)) return;
            int k = W.nRem++;
            Removal& r = W.rem[k];
            r.slot = -1; r.handle = false; r.kind = op == Erase ? KFn : KPtr; r.e = kNever;
            r.sig = target % W.nSig;
            r.key = (target / 2) % (op == Erase ? kKeys : kPobjs);
            int sg = r.sig, key = r.key;
            trace("  [%d] disconnecting key %d from signal %d", who, key, sg);
            r.b = rt::now();
            size_t n;
            if (op == Erase) { Loud l; n = ON(sg, disconnect(Fn(1000, key))); }
            else { Loud l; n = ON(sg, disconnect(&Obj::member, pobj[key])); }
            W.rem[k].result = (int)n;
            W.rem[k].e = rt::now();
            trace("  [%d] disconnect key %d from signal %d: %d", who, key, sg, (int)n);
            break;
        }
        case Block:
        case Unblock:
        {
            int s = pickSlot(target);
            if (s < 0 || !roomEv(W.nBlk)) return;
            int k = W.nBlk++;
            W.blk[k].slot = s; W.blk[k].on = op == Block; W.blk[k].e = kNever;
            sig::connection c;
            { Loud l; c = W.slot[s].c; }
            trace("  [%d] %s slot %d begins", who, opName[op], s);
            W.blk[k].b = rt::now();
            { Loud l; op == Block ? c.block() : c.unblock(); }
            W.blk[k].e = rt::now();
            trace("  [%d] %s slot %d", who, opName[op], s);
            break;
        }
        case Blkr:
        {
            int s = pickSlot(target);
            if (s < 0 || !roomEv(W.nBlkr)) return;
            int k = W.nBlkr++;
            W.blkr[k].slot = s; W.blkr[k].ce = W.blkr[k].db = W.blkr[k].de = kNever;
            Held h;
            h.rec = k;
            W.blkr[k].cb = rt::now();
            { Loud l; h.b = W.slot[s].c.blocker(); }
            W.blkr[k].ce = rt::now();
            trace("  [%d] blocker %d for slot %d", who, k, s);
            blockers[who]->push_back(std::move(h));
            break;
        }
        case BlkrD:
        {
            if (blockers[who]->empty()) return;
            size_t i = target % blockers[who]->size();
            std::swap((*blockers[who])[i], blockers[who]->back());
            Held h = std::move(blockers[who]->back());
            blockers[who]->pop_back();
            trace("  [%d] blocker %d for slot %d ends ...", who, h.rec, W.blkr[h.rec].slot);
            W.blkr[h.rec].db = rt::now();
            { Loud l; h.b = sig::connection_blocker(); }
            W.blkr[h.rec].de = rt::now();
            trace("  [%d] ... blocker %d has ended", who, h.rec);
            break;
        }
        case QConn:
        case QBlk:
        {
            int s = pickSlot(target);
            if (s < 0 || !roomEv(W.nQ)) return;
            int k = W.nQ++;
            W.q[k].slot = s; W.q[k].blocked = op == QBlk;
            W.q[k].b = rt::now();
            bool v;
            { Loud l; v = op == QBlk ? W.slot[s].c.blocked() : W.slot[s].c.connected(); }
            W.q[k].value = v;
            W.q[k].e = rt::now();
            trace("  [%d] slot %d %s %d", who, s, opName[op], (int)v);
            break;
        }
        case ScD:
        {
            if (scoped[who]->empty() || !roomEv(W.nRem)) return;
            size_t i = target % scoped[who]->size();
            std::swap((*scoped[who])[i], scoped[who]->back());
            HeldS h = std::move(scoped[who]->back());
            scoped[who]->pop_back();
            int k = W.nRem++;
            Removal& r = W.rem[k];
            r.slot = h.slot; r.sig = W.slot[h.slot].sig; r.handle = true; r.result = -1; r.e = kNever;
            r.b = rt::now();
            { Loud l; h.s = sig::scoped_connection(); }
            W.rem[k].e = rt::now();
            trace("  [%d] scoped connection of slot %d ends", who, h.slot);
            break;
        }
        case ScRel:
        {
            if (scoped[who]->empty()) return;
            HeldS h = std::move(scoped[who]->back());
            scoped[who]->pop_back();
            { Loud l; sig::connection c = h.s.release(); }
            trace("  [%d] scoped connection of slot %d released", who, h.slot);
            break;
        }
        case Reset:
        {
            int o = target % kObjs;
            if (!owner[o]) return;
            std::shared_ptr<Obj> p;
            p.swap(owner[o]);
            trace("  [%d] the owner of object %d lets go", who, o);
            W.dropB[o] = rt::now();
            { Loud l; p.reset(); }
            rt::now();
            break;
        }
        case Copy:
        {
            int s = pickSlot(target);
            if (s < 0) return;
            Loud l;
            sig::connection a = W.slot[s].c, b(a), c(std::move(a));
            b = c;
            break;
        }
        }
    }

    void threadBody(int me)
    {
        for (int i = 0; i < W.nProg[me]; ++i)
        {
            const Step& st = W.prog[me][i];
            doOp(st.op, st.target, me, st.plan);
            Loud l;
            rt::yield();
        }
    }

    // ---- oracle --------------------------------------------------------------------------------------------------
    bool aims(const Removal& r, int s)
    {
        const SlotRec& k = W.slot[s];
        return r.handle ? r.slot == s : r.sig == k.sig && r.kind == k.kind && r.key == k.key;
    }
    // The earliest moment at which something could have removed the slot, and the latest at which it is gone for good.
    Time mayBeGone(int s)
    {
        const SlotRec& k = W.slot[s];
        Time t = kNever;
        for (int i = 0; i < W.nRem; ++i)
            if (aims(W.rem[i], s) && W.rem[i].e > k.cb && W.rem[i].b < t) t = W.rem[i].b;
        if (k.kind == KTracked && W.dropB[k.key] < t) t = W.dropB[k.key];
        return t;
    }
    Time mustBeGone(int s)
    {
        const SlotRec& k = W.slot[s];
        Time t = kNever;
        for (int i = 0; i < W.nRem; ++i)
            if (aims(W.rem[i], s) && W.rem[i].b > k.ce && W.rem[i].e < t) t = W.rem[i].e;
        if (k.kind == KTracked && W.dead[k.key] < t) t = W.dead[k.key];
        return t;
    }
    // Could the slot be blocked at some moment of [b, e]?
    bool mayBeBlocked(int s, Time b, Time e)
    {
        for (int i = 0; i < W.nBlk; ++i)
        {
            if (W.blk[i].slot != s || !W.blk[i].on) continue;
            Time end = kNever;
            for (int j = 0; j < W.nBlk; ++j)
                if (W.blk[j].slot == s && !W.blk[j].on && W.blk[j].b > W.blk[i].e && W.blk[j].e < end) end = W.blk[j].e;
            if (W.blk[i].b < e && end > b) return true;
        }
        for (int i = 0; i < W.nBlkr; ++i)
            if (W.blkr[i].slot == s && W.blkr[i].cb < e && W.blkr[i].de > b) return true;
        return false;
    }
    // Is the slot blocked throughout [b, e]?
    bool mustBeBlocked(int s, Time b, Time e)
    {
        // Intervals in which it certainly is; they may take turns.
        Time from = b;
        for (bool grew = true; grew && from <= e; )
        {
            grew = false;
            for (int i = 0; i < W.nBlk; ++i)
            {
                if (W.blk[i].slot != s || !W.blk[i].on) continue;
                Time end = kNever;
                for (int j = 0; j < W.nBlk; ++j)
                    if (W.blk[j].slot == s && !W.blk[j].on && W.blk[j].e > W.blk[i].b && W.blk[j].b < end) end = W.blk[j].b;
                if (W.blk[i].e <= from && end > from) { from = end; grew = true; }
            }
            for (int i = 0; i < W.nBlkr; ++i)
                if (W.blkr[i].slot == s && W.blkr[i].ce <= from && W.blkr[i].db > from) { from = W.blkr[i].db; grew = true; }
        }
        return from > e;
    }

    bool about(int s)
    {
        if (scope == 6) return W.slot[s].kind != KTracked;
        if (scope == 8) return W.slot[s].isScoped;
        if (scope == 9) return W.slot[s].kind == KTracked;
        return what != 0;
    }

    void judge()
    {
        for (int s = 0; s < W.nSlots; ++s)
        {
            SlotRec& k = W.slot[s];
            if (!about(s)) continue;
            Time may = mayBeGone(s), must = mustBeGone(s);
            for (int i = 0; i < W.nEm; ++i)
            {
                Em& e = W.em[i];
                if (e.sig != k.sig) continue;
                if (!(what & (JEmit | JBlock))) continue;
                if (e.count[s])
                {
                    if (k.cb > e.e) fail("emission %d invokes slot %d, connected after it ended", i, s);
                    if (must < e.b && what & JEmit) fail("emission %d invokes slot %d, whose removal had completed before it began", i, s);
                    if (mustBeBlocked(s, e.b, e.e)) fail("emission %d invokes slot %d, which is blocked all the time", i, s);
                    if (may < e.e) VP_LABEL("invoked while it is being removed");
                    if (k.ce > e.b) VP_LABEL("invoked while it is being connected");
                }
                else if (k.ce < e.b && may > e.e && !e.threw)
                {
                    if (!mayBeBlocked(s, e.b, e.e)) fail("emission %d does not invoke slot %d, which is connected and not blocked all the time", i, s);
                }
                else if (k.ce < e.b && may < e.e && must > e.b) VP_LABEL("not invoked while it is being removed");
            }
            int calls = 0, yes = 0, other = 0;
            for (int i = 0; i < W.nRem; ++i)
            {
                const Removal& r = W.rem[i];
                if (!aims(r, s)) continue;
                if (r.handle && r.result >= 0) { ++calls; yes += r.result; }
                else if (r.e > k.cb) ++other;
            }
            if (k.kind == KTracked && W.dropB[k.key] != kNever) ++other;
            if (!(what & JHandle)) continue;
            if (yes > 1) fail("%d disconnect calls on slot %d return true", yes, s);
            if (calls && !other && yes != 1) fail("none of %d disconnect calls on slot %d returns true", calls, s);
            if (calls > 1) VP_LABEL("several disconnects of one slot");
        }
        for (int i = 0; i < W.nQ; ++i)
        {
            const Query& q = W.q[i];
            if (!about(q.slot)) continue;
            if (q.blocked && what & JBlkQ)
            {
                if (q.value && !mayBeBlocked(q.slot, q.b, q.e)) fail("blocked() of slot %d is true although nothing blocks it", q.slot);
                if (!q.value && mustBeBlocked(q.slot, q.b, q.e) && mayBeGone(q.slot) > q.e) fail("blocked() of slot %d is false although it is blocked", q.slot);
            }
            if (!q.blocked && what & JConnQ)
            {
                if (q.value && mustBeGone(q.slot) < q.b) fail("connected() of slot %d is true after its removal", q.slot);
                if (!q.value && mayBeGone(q.slot) > q.e) fail("connected() of slot %d is false although nobody removed it", q.slot);
            }
        }
        // How many slots a disconnect by callable removed.
        for (int i = 0; i < W.nRem && what & JErase; ++i)
        {
            const Removal& r = W.rem[i];
            if (r.handle) continue;
            int lo = 0, hi = 0;
            for (int s = 0; s < W.nSlots; ++s)
            {
                if (!aims(r, s)) continue;
                const SlotRec& k = W.slot[s];
                // removed by something else?
                bool mayBefore = false, mustBefore = false;
                for (int j = 0; j < W.nRem; ++j)
                {
                    const Removal& o = W.rem[j];
                    if (j == i || !aims(o, s)) continue;
                    if (o.b < r.e && o.e > k.cb) mayBefore = true;
                    if (o.b > k.ce && o.e < r.b)
                    {
                        // A handle whose call returns false leaves the removal to whoever was first, possibly still at it.
                        if (!o.handle || o.result == 1) mustBefore = true;
                    }
                }
                if (k.ce < r.b && !mayBefore) ++lo;
                if (k.cb < r.e && !mustBefore) ++hi;
            }
            if (r.result < lo || r.result > hi)
                fail("disconnecting key %d from signal %d returns %d, but between %d and %d slots match", r.key, r.sig, r.result, lo, hi);
            if (r.result > 0) VP_LABEL("disconnect by callable removes");
            if (lo != hi) VP_LABEL("disconnect by callable overlaps a change");
        }
    }

    void run()
    {
        rt::begin_case();
        scope = atoi(profile + 1);
        what = 0;
        for (const Judged& j : judged) if (j.scope == scope) what = j.what;
        int seen = W.nSlots;
        for (int i = 0; i < seen; ++i) W.slot[i].c = sig::connection();
        W.nSlots = W.nEm = W.nRem = W.nBlk = W.nBlkr = W.nQ = 0;
        W.fnLive = 0;
        W.retSerial = 0;
        for (int i = 0; i < kObjs; ++i) W.dropB[i] = W.dead[i] = kNever;

        static const int w11[nOps] = { 12, 3, 1, 1, 1, 4, 2, 1, 3, 3, 2, 3, 1, 1, 1, 1, 1, 0 };
        static const int w12[nOps] = { 2, 6, 0, 2, 3, 7, 5, 2, 0, 0, 0, 0, 2, 0, 4, 1, 0, 1 };
        static const int w09[nOps] = { 8, 1, 4, 1, 0, 2, 0, 0, 1, 1, 0, 0, 2, 0, 0, 0, 4, 1 };
        static const int w13[nOps] = { 6, 3, 2, 1, 2, 3, 2, 1, 2, 2, 2, 2, 2, 2, 2, 1, 2, 2 };
        static const int w02[nOps] = { 9, 6, 2, 1, 1, 0, 0, 0, 1, 1, 1, 1, 1, 1, 0, 0, 1, 1 };
        static const int w07[nOps] = { 6, 2, 1, 1, 1, 1, 1, 0, 5, 5, 6, 6, 1, 4, 1, 0, 1, 1 };
        static const int w08[nOps] = { 2, 3, 0, 1, 6, 3, 2, 0, 1, 1, 0, 0, 2, 0, 6, 3, 0, 1 };
        const bool p09 = scope == 9, p12 = scope == 12 || scope == 5 || scope == 6 || scope == 8;
        memcpy(W.weights, p09 ? w09 : scope == 2 ? w02 : scope == 7 ? w07 : scope == 8 ? w08 : p12 ? w12 : scope == 13 || scope == 15 || scope == 10 ? w13 : w11, sizeof W.weights);
        // Focus: a few operations only, so that threads meet at the same ones.
        if (chance(1, 2))
        {
            for (int i = 1; i < nOps; ++i) if (chance(3, 5)) W.weights[i] = 0;
            if (W.weights[BlkrD] && !W.weights[Blkr]) W.weights[Blkr] = 2;
            if ((W.weights[ScD] || W.weights[ScRel]) && !W.weights[ConnS]) W.weights[ConnS] = 2;
        }
        W.nSig = 1 + (int)(scope == 13 ? chance(1, 2) : chance(1, 6));
        isVoid = chance(1, 3);
        W.allowThrow = !p12 && (scope == 14 ? chance(4, 5) : chance(1, 5));
        int threads = 2 + weighted({ 5, 3, 1 });
        static const int gaps[] = { 3, 10, 30, 80 };
        int gap = gaps[pick(4)];
        int maxOps = thorough ? 8 : 6;
        for (int i = 0; i < rt::kThreads; ++i)
        {
            depth[i] = 0;
            blockers[i] = new std::vector<Held>();
            scoped[i] = new std::vector<HeldS>();
        }
        {
            Loud l;
            for (int i = 0; i < W.nSig; ++i) if (isVoid) V[i] = new VSignal(); else S[i] = new Signal();
            for (int i = 0; i < kObjs; ++i) owner[i] = std::make_shared<Obj>(i);
        }
        for (int i = 0; i < kPobjs; ++i) { Loud l; pobj[i] = new Obj(100 + i); }
        int few = chance(1, 12) ? range(16, 30) : 0;    // now and then a longer list
        if (chance(1, 60))                              // or one that had many more slots before
            for (int i = range(4, 140); i > 0; --i)
            {
                Loud l;
                if (i % 3) ON(0, connect(Fn(2000, 0))).disconnect();
                else { ON(0, connect(Fn(2000, kKeys))); ON(0, disconnect(Fn(2000, kKeys))); }
            }
        if (chance(1, 200))                             // or a long one
            for (int i = range(31, 150); i > 0; --i) { VP_LABEL("long list"); doOp(Conn, i, 0, noPlan); }
        for (int i = 0; i < few || (i < 8 && pick(5)); ++i)
        {
            int kind = weighted({ 5, p12 ? 0 : p09 ? 5 : 1, 1 });
            int target = (int)pick(64);
            Plan plan = drawPlan();
            doOp(kind == 0 ? Conn : kind == 1 ? ConnT : ConnP, target, 0, plan);
        }
        for (int i = 1; i < rt::kThreads; ++i)
        {
            W.nProg[i] = 0;
            if (i > threads) continue;
            do W.prog[i][W.nProg[i]++] = drawStep();
            while (W.nProg[i] < maxOps && pick(5));
        }
        trace("  %d threads", threads);
        rt::run_threads(threads, threadBody, gap);
        trace("  all threads are done");

        // The final state, seen by one thread.
        int before = W.nEm;
        for (int g = 0; g < W.nSig; ++g)
        {
            // No operations or exceptions in the final emissions.
            for (int s = 0; s < W.nSlots; ++s) { W.slot[s].budget = 0; W.slot[s].throws = false; }
            W.nEm = std::min(W.nEm, kMaxEm - 4);
            emitOn(g, 0);
            Em& e = W.em[W.nEm - 1];
            for (int s = 0; s < W.nSlots; ++s)
            {
                if (W.slot[s].sig != g || !about(s)) continue;
                bool c, b;
                { Loud l; c = W.slot[s].c.connected(); b = W.slot[s].c.blocked(); }
                if (what & JFinalEmit && e.count[s] != (c && !b))
                    fail("in the end slot %d is %sinvoked, but its connection says %sconnected, %sblocked", s, e.count[s] ? "" : "not ", c ? "" : "not ", b ? "" : "not ");
                if (!(what & JFinal)) continue;
                if (c && mustBeGone(s) != kNever) fail("in the end slot %d is connected although its removal has completed", s);
                if (!c && mayBeGone(s) == kNever) fail("in the end slot %d is not connected although nobody removed it", s);
            }
        }
        judge();
        bool interesting = rt::stats.switches >= 2 && (W.nRem + W.nBlk + W.nBlkr > 0 || scope == 2) && before > 0;
        if (p12) interesting = rt::stats.switches >= 2 && W.nRem > 0;
        if (interesting) nontrivial();
        if (rt::stats.switches >= 10) VP_LABEL("10 or more context switches");
        if (rt::stats.blocked > 0) VP_LABEL("a thread waits for a lock");
        if (rt::stats.forced > 0) VP_LABEL("forced switch");

        // Everything that is left can still be disconnected, exactly once.
        for (int s = 0; s < W.nSlots; ++s)
        {
            bool c, d, d2;
            { Loud l; c = W.slot[s].c.connected(); d = W.slot[s].c.disconnect(); d2 = W.slot[s].c.disconnect(); }
            bool expired = W.slot[s].kind == KTracked && W.dead[W.slot[s].key] != kNever;
            if (!(what & JHandle)) continue;
            if (!expired && d != c) fail("after all, disconnecting slot %d returns %d, but connected() was %d", s, (int)d, (int)c);
            if (d2) fail("after all, a second disconnect of slot %d returns true", s);
        }
        for (int g = 0; g < W.nSig; ++g)
        {
            emitOn(g, 0);
            if (W.em[W.nEm - 1].any && what & JLeft) fail("signal %d still invokes a slot after all were disconnected", g);
        }
        for (int i = 0; i < rt::kThreads; ++i)
        {
            Loud l;
            delete blockers[i];
            delete scoped[i];
        }
        if (W.fnLive) fail("%d callables exist after all slots were removed", W.fnLive);
        for (int g = 0; g < W.nSig; ++g) { Loud l; if (isVoid) delete V[g]; else delete S[g]; }
        for (int s = 0; s < W.nSlots; ++s) { Loud l; W.slot[s].c = sig::connection(); }
        for (int i = 0; i < kObjs; ++i) { Loud l; owner[i].reset(); }
        for (int i = 0; i < kPobjs; ++i) { Loud l; delete pobj[i]; }
        if (rt::arena_live()) fail("leak: %ld allocations are never freed", rt::arena_live());
    }
}

const char* const vp::rule =
    "A case is a number of initial slots (with generated actions in their bodies), 2-4 threads with generated operations each, and a schedule: where the "
    "running thread is preempted (at any atomic, lock or yield point) and by whom. Non-trivial: at least two context switches, at least one removal "
    "(or block) and, except where only membership is judged, at least one emission by a thread.";
void vp::run_case() { run(); }
