// C23 with threads: copy-on-write handles that share objects across threads, under a generated schedule.
// Every thread uses handles of its own; shared cells are guarded by a mutex each. Oracle: the value each handle
// must have; races, deadlocks and accesses to freed memory are found by the runtime (sched_rt.cpp).
#define VP_OWN_RUNTIME
#include "vp.hpp"
#include "vp_main.hpp"
#include "sched_rt.hpp"
#include <signals.hpp>
#include <mutex>

using namespace vp;
using rt::Loud;
using rt::Quiet;

namespace
{
    struct Val
    {
        int n, twice;
        explicit Val(int x) : n(x), twice(2 * x) {}
        Val(const Val& o) : n(o.n), twice(0)
        {
            rt::yield();
            twice = o.twice;
        }
        void set(int x)
        {
            n = x;
            rt::yield();
            twice = 2 * x;
        }
        ~Val() { n = twice = -7; }
    };
    typedef sig::detail::cow_ptr<Val> Cow;
    const int kH = 3, kCells = 2;
    const int kNull = -1000000;

    struct Cell { std::mutex m; Cow c; int model; };
    Cell* cell[kCells];
    Cow* h[rt::kThreads][kH];
    int model[rt::kThreads][kH];
    int serial, shared, sole;

    enum OpK { Read, Write, Take, Store, WriteCell, ReadCell, Copy, Move, Swap, Drop, Fresh, Temp, nOps };
    const char* const opName[] = { "read", "write", "take from cell", "store to cell", "write cell", "read cell", "copy", "move", "swap", "drop", "fresh", "temporary copy" };
    struct Step { int op, a, b, c; };
    Step prog[rt::kThreads][14];
    int nProg[rt::kThreads];

    void look(const Cow& c, int want, const char* what, int me)
    {
        int n = kNull, t = 2 * kNull;
        if (c)
        {
            const Val& v = c.read();
            n = v.n;
            rt::yield();
            t = v.twice;
        }
        Quiet q;
        if (n != want || (want != kNull && t != 2 * want)) fail("%s of thread %d reads %d (%d), expected %d", what, me, n, t, want);
    }
    void put(Cow& c, int v, int how)
    {
        if (how == 0) c.write().set(v);
        else if (how == 1) c->set(v);
        else (*c).set(v);
    }

    void step(int me, const Step& s)
    {
        int i = s.a % kH, j = s.b % kH, k = s.b % kCells;
        trace("  [%d] %s %d, %d", me, opName[s.op], i, s.b);
        Loud l;
        Cow& x = *h[me][i];
        int& mx = model[me][i];
        switch (s.op)
        {
        case Read: look(x, mx, "handle", me); break;
        case Write:
            if (mx == kNull) break;
            {
                int v;
                { Quiet q; v = ++serial; VP_LABEL("write through a handle"); ++shared; }
                put(x, v, s.c % 3);
                mx = v;
                look(x, mx, "written handle", me);
            }
            break;
        case Take: { std::lock_guard<std::mutex> g(cell[k]->m); x = cell[k]->c; { Quiet q; mx = cell[k]->model; VP_LABEL("object shared between threads"); } break; }
        case Store:
            if (mx == kNull) break;
            { std::lock_guard<std::mutex> g(cell[k]->m); cell[k]->c = x; { Quiet q; cell[k]->model = mx; } }
            break;
        case WriteCell:
        {
            std::lock_guard<std::mutex> g(cell[k]->m);
            int v;
            { Quiet q; v = ++serial; VP_LABEL("write through a cell"); ++shared; }
            put(cell[k]->c, v, s.c % 3);
            { Quiet q; cell[k]->model = v; }
            break;
        }
        case ReadCell:
        {
            // As the signal does: a copy under the lock, read without it.
            Cow t;
            int want;
            { std::lock_guard<std::mutex> g(cell[k]->m); t = cell[k]->c; Quiet q; want = cell[k]->model; }
            look(t, want, "copy of a cell", me);
            break;
        }
        case Copy: x = *h[me][j]; mx = model[me][j]; break;
        case Move:
            if (i == j) break;
            x = std::move(*h[me][j]);
            mx = model[me][j];
            *h[me][j] = Cow();
            model[me][j] = kNull;
            break;
        case Swap: std::swap(x, *h[me][j]); std::swap(mx, model[me][j]); break;
        case Drop: x = Cow(); mx = kNull; break;
        case Fresh: { int v; { Quiet q; v = ++serial; } x = sig::detail::make_cow<Val>(v); mx = v; break; }
        default:
        {
            Cow t(x);
            rt::yield();
            look(t, mx, "temporary copy", me);
            if (s.c % 2 && mx != kNull)
            {
                int v;
                { Quiet q; v = ++serial; }
                put(t, v, s.c % 3);
                look(t, v, "written temporary copy", me);
                look(x, mx, "handle", me);
            }
            break;
        }
        }
    }
    void body(int me)
    {
        for (int i = 0; i < nProg[me]; ++i)
        {
            step(me, prog[me][i]);
            Loud l;
            rt::yield();
        }
    }
}
const char* const vp::rule =
    "A case is 2-4 threads with generated operations on three handles each and two cells guarded by a mutex each (copy, move, swap, write and read through the "
    "accessors, take from and store to a cell), and a schedule: where the running thread is preempted and by whom. Non-trivial: at least two context switches and one write.";
void vp::run_case()
{
    rt::begin_case();
    serial = shared = sole = 0;
    int threads = 2 + weighted({ 5, 3, 1 });
    static const int gaps[] = { 2, 5, 12, 40 };
    int gap = gaps[pick(4)];
    int weights[nOps] = { 3, 5, 4, 3, 3, 2, 3, 2, 1, 2, 1, 2 };
    if (chance(1, 2)) for (int i = 2; i < nOps; ++i) if (chance(1, 2)) weights[i] = 0;
    for (int k = 0; k < kCells; ++k)
    {
        Loud l;
        cell[k] = new Cell();
        int v;
        { Quiet q; v = ++serial; cell[k]->model = v; }
        cell[k]->c = Cow(new Val(v));
    }
    for (int t = 0; t < rt::kThreads; ++t)
        for (int i = 0; i < kH; ++i)
        {
            int from = range(0, kCells);
            Loud l;
            h[t][i] = from < kCells ? new Cow(cell[from]->c) : new Cow();
            model[t][i] = from < kCells ? cell[from]->model : kNull;
        }
    for (int t = 1; t < rt::kThreads; ++t)
    {
        nProg[t] = 0;
        if (t > threads) continue;
        do
        {
            Step& s = prog[t][nProg[t]++];
            s.op = weighted(weights, nOps);
            s.a = (int)pick(6); s.b = (int)pick(6); s.c = (int)pick(6);
        } while (nProg[t] < (thorough ? 14 : 10) && pick(6));
    }
    // The main thread's handles would keep every object shared.
    if (pick(4)) for (int i = 0; i < kH; ++i) { Loud l; *h[0][i] = Cow(); model[0][i] = kNull; }
    trace("  %d threads", threads);
    rt::run_threads(threads, body, gap);
    trace("  all threads are done");
    for (int t = 0; t < rt::kThreads; ++t)
        for (int i = 0; i < kH; ++i) { Loud l; look(*h[t][i], model[t][i], "in the end, a handle", t); }
    for (int k = 0; k < kCells; ++k) { Loud l; look(cell[k]->c, cell[k]->model, "in the end, a cell", 0); }
    if (rt::stats.switches >= 2 && shared) nontrivial();
    if (rt::stats.switches >= 10) VP_LABEL("10 or more context switches");
    if (rt::stats.blocked > 0) VP_LABEL("a thread waits for a lock");
    for (int t = 0; t < rt::kThreads; ++t)
        for (int i = 0; i < kH; ++i) { Loud l; delete h[t][i]; }
    for (int k = 0; k < kCells; ++k) { Loud l; delete cell[k]; }
    if (rt::arena_live()) fail("leak: %ld allocations are never freed", rt::arena_live());
}
