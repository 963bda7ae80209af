// See sched_rt.hpp. Compiled without instrumentation.
//
//  * Scheduling: the token holder runs; at every atomic operation, lock operation and rt::yield it may pass the
//    token on. Preemptions come from the tape (a gap and a target each; gap 0 = never again, so that the simplest
//    tape is the sequential schedule). A thread that runs kForce points in a row without an end is preempted
//    (spin loops), which keeps every schedule fair.
//  * Data races: vector clocks (happens-before) with the C++11 rules for acquire, release, relaxed, fences, release
//    sequences, and locks, per byte of the heap arena and of the static data. Stacks are not tracked.
//  * Memory: allocations of the code under test come from an arena that reuses nothing within a case, so an access
//    to freed or unallocated memory is always recognised.
//  * Deadlock: no thread can run. Livelock: kMaxPoints.
#include "sched_rt.hpp"
#include "vp.hpp"
#include <cerrno>
#include <climits>
#include <linux/futex.h>
#include <new>
#include <pthread.h>
#include <sched.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <time.h>

extern "C" char __data_start, _end;

namespace rt
{
    thread_local int loud = 0;
    thread_local int self = 0;
    Stats stats;

    namespace
    {
        constexpr int N = kThreads;
        constexpr uint64_t kForce = 300, kMaxPoints = 2000000;
        constexpr size_t kArena = 8u << 20, kGap = 32;

        struct VC
        {
            uint32_t c[N];
            void join(const VC& o) { for (int i = 0; i < N; ++i) if (o.c[i] > c[i]) c[i] = o.c[i]; }
        };

        struct Cell     // one byte of memory
        {
            uint32_t gen;
            uint8_t state;      // 0 unallocated, 1 live, 2 freed
            uint8_t wt;         // last plain write: thread
            uint8_t ft;         // freed by
            uint32_t wc;        // last plain write: clock
            uint32_t r[N], ar[N], aw[N];
            uint32_t pc;
        };

        char* arena;
        Cell* cells;            // of the arena
        Cell* gcells;           // of the static data
        size_t bump;
        uint32_t gen = 0;
        long live;
        uint64_t clockNow;

        VC C[N], Facq[N], Frel[N];

        struct Sync { uintptr_t addr; uint32_t gen; VC vc; };
        constexpr size_t kSync = 1u << 14;
        Sync* syncs;

        // ---- threads ---------------------------------------------------------
        enum St { Idle, Ready, Blocked, Done };
        St st[N];
        const void* waitOn[N];
        int token = 0;          // futex word: who runs
        int nThreads = 0;
        int nextRun = 0;        // worker generation
        void (*bodyFn)(int);
        uint32_t gapLeft;       // 0: no more preemptions
        int meanGap;
        uint64_t inRow;
        bool started = false;
        bool running = false;
        bool inactive() { return !vp::st || gen == 0; }

        long futex(int* a, int op, int v) { return syscall(SYS_futex, a, op | FUTEX_PRIVATE_FLAG, v, nullptr, nullptr, 0); }

        void waitToken(int me)
        {
            for (;;)
            {
                int t = __atomic_load_n(&token, __ATOMIC_ACQUIRE);
                if (t == me) return;
                futex(&token, FUTEX_WAIT, t);
            }
        }
        void giveToken(int to)
        {
            __atomic_store_n(&token, to, __ATOMIC_RELEASE);
            futex(&token, FUTEX_WAKE, INT_MAX);
        }

        void drawGap()
        {
            // 0: no more preemptions. Otherwise a gap around meanGap.
            uint32_t k = vp::pick(16);
            if (k == 0) { gapLeft = 0; return; }
            gapLeft = 1 + vp::pick((uint32_t)meanGap * 2);
        }

        void switchTo(int t)
        {
            if (t == self) return;
            ++stats.switches;
            inRow = 0;
            int me = self;
            if (vp::tracing) vp::trace("        -- thread %d runs", t);
            giveToken(t);
            waitToken(me);
        }

        int enabledOthers(int* out)
        {
            int n = 0;
            for (int i = 1; i <= nThreads; ++i)
            {
                int t = (self + i - 1) % nThreads + 1;      // starting after self
                if (t != self && st[t] == Ready) out[n++] = t;
            }
            return n;
        }

        // The current thread can't go on: someone else has to.
        void mustSwitch()
        {
            int o[N], n = enabledOthers(o);
            if (n == 0)
            {
                char b[256]; int k = 0;
                for (int i = 1; i <= nThreads; ++i)
                    if (st[i] == Blocked) k += snprintf(b + k, sizeof b - k, " thread %d", i);
                vp::fail("deadlock: every unfinished thread waits for a lock:%s", b);
            }
            int t = o[vp::pick(n)];
            ++stats.blocked;
            switchTo(t);
        }

        void point()
        {
            if (!loud || !running || self == 0) return;
            Quiet quiet;
            if (++stats.points > kMaxPoints) vp::fail("livelock: the threads do not finish");
            if (++inRow > kForce)
            {
                int o[N], n = enabledOthers(o);
                inRow = 0;
                if (n) { ++stats.forced; switchTo(o[0]); }
                return;
            }
            if (gapLeft && --gapLeft == 0)
            {
                int o[N], n = enabledOthers(o);
                if (n) { int t = o[vp::pick(n)]; drawGap(); switchTo(t); }
                else drawGap();
            }
        }

        void* worker(void* p)
        {
            int me = (int)(intptr_t)p;
            self = me;
            for (;;)
            {
                waitToken(me);
                bodyFn(me);
                st[me] = Done;
                int o[N], n = enabledOthers(o);
                if (n)
                {
                    int t = o[vp::pick(n)];
                    inRow = 0;
                    if (vp::tracing) vp::trace("        -- thread %d is done, thread %d runs", me, t);
                    giveToken(t);
                }
                else
                {
                    for (int i = 1; i <= nThreads; ++i)
                        if (st[i] == Blocked) vp::fail("deadlock: thread %d waits for a lock nobody will release", i);
                    giveToken(0);
                }
            }
            return nullptr;
        }

        // ---- happens-before --------------------------------------------------
        void resetCell(Cell& c, uint8_t state)
        {
            memset(&c, 0, sizeof c);
            c.gen = gen;
            c.state = state;
        }

        // The cell of a tracked byte, or null.
        inline Cell* cellOf(uintptr_t a)
        {
            if (arena && a - (uintptr_t)arena < kArena)
            {
                Cell& c = cells[a - (uintptr_t)arena];
                if (c.gen != gen) resetCell(c, 0);
                return &c;
            }
            if (a >= (uintptr_t)&__data_start && a < (uintptr_t)&_end)
            {
                Cell& c = gcells[a - (uintptr_t)&__data_start];
                if (c.gen != gen) resetCell(c, 1);
                return &c;
            }
            return nullptr;
        }

        Sync& syncOf(uintptr_t a)
        {
            size_t h = (a * 0x9E3779B97F4A7C15ull) >> 50;
            for (size_t i = 0; i < kSync; ++i)
            {
                Sync& s = syncs[(h + i) & (kSync - 1)];
                if (s.gen != gen) { s.gen = gen; s.addr = a; memset(&s.vc, 0, sizeof s.vc); return s; }
                if (s.addr == a) return s;
            }
            abort();
        }

        void where(uintptr_t pc)
        {
            if (!vp::tracing || !pc) return;
            char cmd[256];
            snprintf(cmd, sizeof cmd, "addr2line -ifCe /proc/%d/exe %lx 2>/dev/null | grep -v '^??' | head -12", (int)getpid(), (long)pc - 1);
            FILE* f = popen(cmd, "r");
            if (!f) return;
            char line[400];
            while (fgets(line, sizeof line, f))
            {
                line[strcspn(line, "\n")] = 0;
                if (strlen(line) > 160) strcpy(line + 157, "...");
                vp::trace("          at %s", line);
            }
            pclose(f);
        }

        __attribute__((noinline)) void raceFound(const Cell& c, const char* what, int other, const char* otherWhat, uintptr_t pc)
        {
            loud = 0;
            vp::trace("          the access:");
            where(pc);
            vp::trace("          last plain access to this memory:");
            where(c.pc);
            vp::fail("data race: %s by thread %d is unordered with an earlier %s by thread %d of the same memory", what, self, otherWhat, other);
        }

        __attribute__((noinline)) void badAccess(const Cell& c, const char* what, uintptr_t pc)
        {
            loud = 0;
            where(pc);
            if (c.state == 2) vp::fail("use after free: %s by thread %d of memory freed by thread %d", what, self, c.ft);
            vp::fail("out of bounds: %s by thread %d of unallocated heap memory", what, self);
        }

        enum Kind { Read, Write, ARead, AWrite, Free };
        const char* const names[] = { "a read", "a write", "an atomic read", "an atomic write", "a deallocation" };

        void access(const void* p, size_t n, Kind k, uintptr_t pc)
        {
            uintptr_t a = (uintptr_t)p;
            const int t = self;
            const VC& v = C[t];
            for (size_t i = 0; i < n; ++i)
            {
                Cell* cp = cellOf(a + i);
                if (!cp) return;
                Cell& c = *cp;
                if (c.state != 1) badAccess(c, names[k], pc);
                if (c.wc > v.c[c.wt] && c.wt != t) raceFound(c, names[k], c.wt, "write", pc);
                if (k != ARead && k != AWrite)
                    for (int u = 0; u < N; ++u)
                        if (u != t && c.aw[u] > v.c[u]) raceFound(c, names[k], u, "atomic write", pc);
                if (k == Write || k == Free || k == AWrite)
                    for (int u = 0; u < N; ++u)
                        if (u != t && c.r[u] > v.c[u]) raceFound(c, names[k], u, "read", pc);
                if (k == Write || k == Free)
                    for (int u = 0; u < N; ++u)
                        if (u != t && c.ar[u] > v.c[u]) raceFound(c, names[k], u, "atomic read", pc);
                switch (k)
                {
                case Read: c.r[t] = v.c[t]; c.pc = (uint32_t)pc; break;
                case Write: c.wt = (uint8_t)t; c.wc = v.c[t]; c.pc = (uint32_t)pc; break;
                case ARead: c.ar[t] = v.c[t]; break;
                case AWrite: c.aw[t] = v.c[t]; break;
                case Free: c.state = 2; c.ft = (uint8_t)t; break;
                }
            }
        }

        bool acquires(int o) { return o == __ATOMIC_ACQUIRE || o == __ATOMIC_CONSUME || o == __ATOMIC_ACQ_REL || o == __ATOMIC_SEQ_CST; }
        bool releases(int o) { return o == __ATOMIC_RELEASE || o == __ATOMIC_ACQ_REL || o == __ATOMIC_SEQ_CST; }

        template<typename F>
        void eachSync(const volatile void* p, size_t n, F f)
        {
            f(syncOf((uintptr_t)p).vc);
            for (size_t i = 4; i < n; i += 4) f(syncOf((uintptr_t)p + i).vc);
        }
        void onLoad(const volatile void* p, size_t n, int o, uintptr_t pc)
        {
            access((const void*)p, n, ARead, pc);
            eachSync(p, n, [&](VC& l) { (acquires(o) ? C[self] : Facq[self]).join(l); });
        }
        void onStore(volatile void* p, size_t n, int o, uintptr_t pc)
        {
            access((const void*)p, n, AWrite, pc);
            eachSync(p, n, [&](VC& l) { l = releases(o) ? C[self] : Frel[self]; });
            if (releases(o)) ++C[self].c[self];
        }
        void onRmw(volatile void* p, size_t n, int o, uintptr_t pc)
        {
            access((const void*)p, n, ARead, pc);
            access((const void*)p, n, AWrite, pc);
            eachSync(p, n, [&](VC& l) {
                (acquires(o) ? C[self] : Facq[self]).join(l);
                l.join(releases(o) ? C[self] : Frel[self]);
            });
            if (releases(o)) ++C[self].c[self];
        }
        void onFence(int o)
        {
            if (acquires(o)) C[self].join(Facq[self]);
            if (releases(o)) { Frel[self] = C[self]; ++C[self].c[self]; }
        }
        void acquireLock(const void* m) { C[self].join(syncOf((uintptr_t)m).vc); }
        void releaseLock(const void* m) { syncOf((uintptr_t)m).vc.join(C[self]); ++C[self].c[self]; }

        // ---- locks -----------------------------------------------------------
        // State is kept in the lock object itself (zero: free), which constant initialisation also produces.
        void blockOn(const void* m)
        {
            if (!running || self == 0) vp::fail("deadlock: a lock is never released");
            Quiet quiet;
            st[self] = Blocked;
            waitOn[self] = m;
            mustSwitch();
        }
        void wake(const void* m)
        {
            for (int i = 1; i <= nThreads; ++i)
                if (st[i] == Blocked && waitOn[i] == m) st[i] = Ready;
        }
        void touch(const void* m, size_t n, uintptr_t pc)
        {
            if (!loud) return;
            for (size_t i = 0; i < n; ++i)
            {
                Cell* c = cellOf((uintptr_t)m + i);
                if (!c) return;
                if (c->state != 1) badAccess(*c, "a lock operation", pc);
                if (c->wc > C[self].c[c->wt] && c->wt != self) raceFound(*c, "a lock operation", c->wt, "write (initialisation)", pc);
            }
        }
    }

    void begin_case()
    {
        if (!started)
        {
            started = true;
            arena = (char*)mmap(nullptr, kArena, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
            cells = (Cell*)mmap(nullptr, kArena * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
            gcells = (Cell*)mmap(nullptr, (&_end - &__data_start) * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
            syncs = (Sync*)mmap(nullptr, kSync * sizeof(Sync), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
            // All threads of this process on one CPU: passing the token is then a plain context switch.
            cpu_set_t have, one;
            if (sched_getaffinity(0, sizeof have, &have) == 0)
            {
                int n = CPU_COUNT(&have), want = n ? getpid() % n : 0;
                for (int i = 0; i < CPU_SETSIZE; ++i)
                    if (CPU_ISSET(i, &have) && want-- == 0)
                    {
                        CPU_ZERO(&one);
                        CPU_SET(i, &one);
                        sched_setaffinity(0, sizeof one, &one);
                        break;
                    }
            }
            for (int i = 1; i < N; ++i)
            {
                pthread_t th;
                if (pthread_create(&th, nullptr, worker, (void*)(intptr_t)i)) abort();
            }
        }
        ++gen;
        bump = kGap;
        live = 0;
        clockNow = 0;
        memset(C, 0, sizeof C);
        memset(Facq, 0, sizeof Facq);
        memset(Frel, 0, sizeof Frel);
        for (int i = 0; i < N; ++i) { C[i].c[i] = 1; st[i] = Idle; }
        running = false;
    }

    void run_threads(int n, void (*body)(int), int gap)
    {
        stats = Stats{};
        nThreads = n;
        bodyFn = body;
        meanGap = gap;
        inRow = 0;
        for (int i = 1; i <= n; ++i)
        {
            st[i] = Ready;
            C[i].join(C[0]);
        }
        ++C[0].c[0];
        running = true;
        drawGap();
        int first = 1 + (int)vp::pick(n);
        giveToken(first);
        waitToken(0);
        running = false;
        for (int i = 1; i <= n; ++i) C[0].join(C[i]);
    }

    void yield() { point(); }
    void publish(const void* k) { releaseLock(k); }
    void observe(const void* k) { acquireLock(k); }
    long arena_live() { return live; }
    uint64_t now() { return ++clockNow; }

    void* allocate(size_t n, size_t al)
    {
        if (!loud)
        {
            void* p = al > 16 ? aligned_alloc(al, (n + al - 1) / al * al) : malloc(n ? n : 1);
            if (p) ++vp::liveAllocs;
            return p;
        }
        if (al < 16) al = 16;
        bump = (bump + al - 1) / al * al;
        if (bump + n + 64 + kGap > kArena) vp::fail("out of memory: the case uses more than %zu bytes", kArena);
        char* p = arena + bump;
        // the size lives in the gap before the block
        ((size_t*)p)[-1] = n;
        memset(p, 0xA5, n);
        for (size_t i = 0; i < n; ++i) resetCell(cells[bump + i], 1);
        bump += n + kGap;
        ++live;
        ++vp::liveAllocs;
        return p;
    }
    void release(void* p)
    {
        if (!p) return;
        uintptr_t a = (uintptr_t)p;
        --vp::liveAllocs;
        if (!arena || a - (uintptr_t)arena >= kArena) { free(p); return; }
        size_t n = ((size_t*)p)[-1];
        Cell* c = cellOf(a);
        if (n && c->state == 2) vp::fail("double free by thread %d", self);
        access(p, n, Free, (uintptr_t)__builtin_return_address(0));
        --live;
    }
}

using namespace rt;
#define PC ((uintptr_t)__builtin_return_address(0))
typedef unsigned char u8; typedef unsigned short u16; typedef unsigned u32; typedef unsigned long long u64; typedef __int128 u128;

void* operator new(size_t n) { return allocate(n, 0); }
void* operator new[](size_t n) { return allocate(n, 0); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return allocate(n, 0); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return allocate(n, 0); }
void* operator new(size_t n, std::align_val_t a) { return allocate(n, (size_t)a); }
void* operator new[](size_t n, std::align_val_t a) { return allocate(n, (size_t)a); }
void operator delete(void* p) noexcept { release(p); }
void operator delete[](void* p) noexcept { release(p); }
void operator delete(void* p, size_t) noexcept { release(p); }
void operator delete[](void* p, size_t) noexcept { release(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { release(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { release(p); }
void operator delete(void* p, std::align_val_t) noexcept { release(p); }
void operator delete[](void* p, std::align_val_t) noexcept { release(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { release(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { release(p); }

extern "C"
{
    void __tsan_init() {}
    void __tsan_func_entry(void*) {}
    void __tsan_func_exit() {}
    void __tsan_ignore_thread_begin() {}
    void __tsan_ignore_thread_end() {}
#define RW(n) \
    void __tsan_read##n(void* p) { if (loud) access(p, n, Read, PC); } \
    void __tsan_write##n(void* p) { if (loud) access(p, n, Write, PC); } \
    void __tsan_unaligned_read##n(void* p) { if (loud) access(p, n, Read, PC); } \
    void __tsan_unaligned_write##n(void* p) { if (loud) access(p, n, Write, PC); } \
    void __tsan_read_write##n(void* p) { if (loud) { access(p, n, Read, PC); access(p, n, Write, PC); } } \
    void __tsan_unaligned_read_write##n(void* p) { if (loud) { access(p, n, Read, PC); access(p, n, Write, PC); } } \
    void __tsan_volatile_read##n(void* p) { if (loud) access(p, n, Read, PC); } \
    void __tsan_volatile_write##n(void* p) { if (loud) access(p, n, Write, PC); } \
    void __tsan_unaligned_volatile_read##n(void* p) { if (loud) access(p, n, Read, PC); } \
    void __tsan_unaligned_volatile_write##n(void* p) { if (loud) access(p, n, Write, PC); }
    RW(1) RW(2) RW(4) RW(8) RW(16)
    void __tsan_read_range(void* p, size_t n) { if (loud) access(p, n, Read, PC); }
    void __tsan_write_range(void* p, size_t n) { if (loud) access(p, n, Write, PC); }
    void __tsan_vptr_read(void** p) { if (loud) access(p, 8, Read, PC); }
    void __tsan_vptr_update(void** p, void* v) { if (loud && *p != v) access(p, 8, Write, PC); }
    void* __tsan_memcpy(void* d, const void* s, size_t n) { if (loud) { access(s, n, Read, PC); access(d, n, Write, PC); } return memcpy(d, s, n); }
    void* __tsan_memmove(void* d, const void* s, size_t n) { if (loud) { access(s, n, Read, PC); access(d, n, Write, PC); } return memmove(d, s, n); }
    void* __tsan_memset(void* d, int c, size_t n) { if (loud) access(d, n, Write, PC); return memset(d, c, n); }

    // clang passes LLVM's ABI orders, which are the C11 ones.
#define AT(bits, T) \
    T __tsan_atomic##bits##_load(const volatile T* p, int o) { if (loud) { point(); onLoad(p, sizeof(T), o, PC); } return *p; } \
    void __tsan_atomic##bits##_store(volatile T* p, T v, int o) { if (loud) { point(); onStore(p, sizeof(T), o, PC); } *p = v; } \
    T __tsan_atomic##bits##_exchange(volatile T* p, T v, int o) { if (loud) { point(); onRmw(p, sizeof(T), o, PC); } T r = *p; *p = v; return r; } \
    T __tsan_atomic##bits##_fetch_add(volatile T* p, T v, int o) { if (loud) { point(); onRmw(p, sizeof(T), o, PC); } T r = *p; *p = r + v; return r; } \
    T __tsan_atomic##bits##_fetch_sub(volatile T* p, T v, int o) { if (loud) { point(); onRmw(p, sizeof(T), o, PC); } T r = *p; *p = r - v; return r; } \
    T __tsan_atomic##bits##_fetch_and(volatile T* p, T v, int o) { if (loud) { point(); onRmw(p, sizeof(T), o, PC); } T r = *p; *p = r & v; return r; } \
    T __tsan_atomic##bits##_fetch_or(volatile T* p, T v, int o) { if (loud) { point(); onRmw(p, sizeof(T), o, PC); } T r = *p; *p = r | v; return r; } \
    T __tsan_atomic##bits##_fetch_xor(volatile T* p, T v, int o) { if (loud) { point(); onRmw(p, sizeof(T), o, PC); } T r = *p; *p = r ^ v; return r; } \
    T __tsan_atomic##bits##_fetch_nand(volatile T* p, T v, int o) { if (loud) { point(); onRmw(p, sizeof(T), o, PC); } T r = *p; *p = ~(r & v); return r; } \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile T* p, T* e, T v, int o, int fo) { \
        if (loud) point(); \
        if (*p == *e) { if (loud) onRmw(p, sizeof(T), o, PC); *p = v; return 1; } \
        if (loud) onLoad(p, sizeof(T), fo, PC); *e = *p; return 0; } \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile T* p, T* e, T v, int o, int fo) { return __tsan_atomic##bits##_compare_exchange_strong(p, e, v, o, fo); } \
    T __tsan_atomic##bits##_compare_exchange_val(volatile T* p, T e, T v, int o, int fo) { __tsan_atomic##bits##_compare_exchange_strong(p, &e, v, o, fo); return e; }
    AT(8, u8) AT(16, u16) AT(32, u32) AT(64, u64) AT(128, u128)
    void __tsan_atomic_thread_fence(int o) { if (loud) { point(); onFence(o); } }
    void __tsan_atomic_signal_fence(int) {}

    // ---- locks ---------------------------------------------------------------
    int pthread_mutex_lock(pthread_mutex_t* m)
    {
        auto& d = m->__data;
        if (inactive()) { d.__lock = 1; return 0; }
        point();
        touch(m, sizeof *m, PC);
        int kind = d.__kind & 3;
        while (d.__lock)
        {
            if (d.__owner == self + 1)
            {
                if (kind == PTHREAD_MUTEX_RECURSIVE) { ++d.__count; return 0; }
                if (kind == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK;
                vp::fail("deadlock: thread %d locks a mutex it already holds", self);
            }
            blockOn(m);
            touch(m, sizeof *m, PC);
        }
        d.__lock = 1;
        d.__owner = self + 1;
        acquireLock(m);
        return 0;
    }
    int pthread_mutex_trylock(pthread_mutex_t* m)
    {
        auto& d = m->__data;
        if (inactive()) { if (d.__lock) return EBUSY; d.__lock = 1; return 0; }
        point();
        touch(m, sizeof *m, PC);
        if (d.__lock)
        {
            if (d.__owner == self + 1 && (d.__kind & 3) == PTHREAD_MUTEX_RECURSIVE) { ++d.__count; return 0; }
            return EBUSY;
        }
        d.__lock = 1;
        d.__owner = self + 1;
        acquireLock(m);
        return 0;
    }
    int pthread_mutex_unlock(pthread_mutex_t* m)
    {
        auto& d = m->__data;
        if (inactive()) { d.__lock = 0; return 0; }
        touch(m, sizeof *m, PC);
        if (!d.__lock || d.__owner != self + 1) vp::fail("thread %d unlocks a mutex it does not hold", self);
        if (d.__count) { --d.__count; return 0; }
        releaseLock(m);
        d.__lock = 0;
        d.__owner = 0;
        wake(m);
        point();
        return 0;
    }
    // Timed locks time out only where waiting could not help.
    int pthread_mutex_timedlock(pthread_mutex_t* m, const timespec*)
    {
        auto& d = m->__data;
        if (!inactive() && d.__lock && d.__owner == self + 1 && (d.__kind & 3) != PTHREAD_MUTEX_RECURSIVE) { point(); return ETIMEDOUT; }
        return pthread_mutex_lock(m);
    }
    int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t, const timespec* t) { return pthread_mutex_timedlock(m, t); }

    // Conditions: no spurious wakeups (they only hide lost ones); timed waits always time out.
    int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
    {
        if (inactive()) return 0;
        touch(c, sizeof *c, PC);
        auto& d = m->__data;
        if (!d.__lock || d.__owner != self + 1) vp::fail("thread %d waits for a condition without its mutex", self);
        releaseLock(m);
        d.__lock = 0;
        d.__owner = 0;
        wake(m);
        blockOn(c);
        return pthread_mutex_lock(m);
    }
    int pthread_cond_timedwait(pthread_cond_t*, pthread_mutex_t* m, const timespec*)
    {
        if (inactive()) return ETIMEDOUT;
        pthread_mutex_unlock(m);
        sched_yield();
        pthread_mutex_lock(m);
        return ETIMEDOUT;
    }
    int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const timespec* t) { return pthread_cond_timedwait(c, m, t); }
    int pthread_cond_broadcast(pthread_cond_t* c)
    {
        if (inactive()) return 0;
        point();
        touch(c, sizeof *c, PC);
        wake(c);
        return 0;
    }
    int pthread_cond_signal(pthread_cond_t* c)
    {
        if (inactive()) return 0;
        point();
        touch(c, sizeof *c, PC);
        for (int k = 1; k <= nThreads; ++k)
        {
            int i = (self + k - 1) % nThreads + 1;
            if (st[i] == Blocked && waitOn[i] == c) { st[i] = Ready; break; }
        }
        return 0;
    }
    int pthread_cond_destroy(pthread_cond_t*) { return 0; }

    // 0 not begun, 1 running, 2 done (only within a case: a once_flag of the code under test).
    int pthread_once(pthread_once_t* o, void (*f)())
    {
        if (inactive())
        {
            if (*o == 0) { *o = 1; f(); *o = 2; }
            return 0;
        }
        point();
        while (*o == 1) blockOn(o);
        if (*o == 2) { acquireLock(o); return 0; }
        *o = 1;
        try { f(); }
        catch (...) { *o = 0; wake(o); throw; }
        *o = 2;
        releaseLock(o);
        wake(o);
        return 0;
    }

    // Readers are counted in __readers, the writer is __cur_writer.
    int pthread_rwlock_rdlock(pthread_rwlock_t* m)
    {
        auto& d = m->__data;
        if (inactive()) return 0;
        point();
        touch(m, sizeof *m, PC);
        while (d.__cur_writer)
        {
            if (d.__cur_writer == self + 1) return EDEADLK;
            blockOn(m);
        }
        ++d.__readers;
        acquireLock(m);
        return 0;
    }
    int pthread_rwlock_wrlock(pthread_rwlock_t* m)
    {
        auto& d = m->__data;
        if (inactive()) return 0;
        point();
        touch(m, sizeof *m, PC);
        while (d.__cur_writer || d.__readers)
        {
            if (d.__cur_writer == self + 1) vp::fail("deadlock: thread %d locks a rwlock it already holds", self);
            blockOn(m);
        }
        d.__cur_writer = self + 1;
        acquireLock(m);
        return 0;
    }
    int pthread_rwlock_tryrdlock(pthread_rwlock_t* m)
    {
        if (!inactive()) point();
        return m->__data.__cur_writer ? EBUSY : pthread_rwlock_rdlock(m);
    }
    int pthread_rwlock_trywrlock(pthread_rwlock_t* m)
    {
        if (!inactive()) point();
        return m->__data.__cur_writer || m->__data.__readers ? EBUSY : pthread_rwlock_wrlock(m);
    }
    int pthread_rwlock_unlock(pthread_rwlock_t* m)
    {
        auto& d = m->__data;
        if (inactive()) return 0;
        touch(m, sizeof *m, PC);
        releaseLock(m);
        if (d.__cur_writer == self + 1) d.__cur_writer = 0;
        else if (d.__readers) --d.__readers;
        else vp::fail("thread %d unlocks a rwlock nobody holds", self);
        wake(m);
        point();
        return 0;
    }
    int pthread_spin_lock(pthread_spinlock_t* m)
    {
        point();
        while (*m) blockOn((const void*)m);
        *m = 1;
        acquireLock((const void*)m);
        return 0;
    }
    int pthread_spin_trylock(pthread_spinlock_t* m)
    {
        point();
        if (*m) return EBUSY;
        *m = 1;
        acquireLock((const void*)m);
        return 0;
    }
    int pthread_spin_unlock(pthread_spinlock_t* m)
    {
        releaseLock((const void*)m);
        *m = 0;
        wake((const void*)m);
        point();
        return 0;
    }
    int sched_yield()
    {
        if (running && loud && self)
        {
            Quiet quiet;
            int o[N], n = enabledOthers(o);
            if (++stats.points > kMaxPoints) vp::fail("livelock: the threads do not finish");
            if (n) { ++stats.forced; switchTo(o[0]); }
        }
        return 0;
    }
    int pthread_rwlock_timedrdlock(pthread_rwlock_t* m, const timespec*) { return pthread_rwlock_rdlock(m); }
    int pthread_rwlock_timedwrlock(pthread_rwlock_t* m, const timespec*) { return m->__data.__cur_writer == self + 1 ? ETIMEDOUT : pthread_rwlock_wrlock(m); }
    int pthread_rwlock_clockrdlock(pthread_rwlock_t* m, clockid_t, const timespec*) { return pthread_rwlock_rdlock(m); }
    int pthread_rwlock_clockwrlock(pthread_rwlock_t* m, clockid_t, const timespec* t) { return pthread_rwlock_timedwrlock(m, t); }
    int nanosleep(const timespec*, timespec*) { return sched_yield(); }
    int clock_nanosleep(clockid_t, int, const timespec*, timespec*) { return sched_yield(); }

    // Initialisation of function-local statics.
    int __cxa_guard_acquire(u64* g)
    {
        char* b = (char*)g;
        if (loud) point();
        for (;;)
        {
            if (b[0]) { if (!inactive()) acquireLock(g); return 0; }
            if (!b[1]) { b[1] = 1; return 1; }
            if (!running || self == 0) vp::fail("recursive initialisation of a static");
            blockOn(g);
        }
    }
    void __cxa_guard_release(u64* g)
    {
        char* b = (char*)g;
        b[0] = 1;
        b[1] = 0;
        if (!inactive()) { releaseLock(g); wake(g); }
    }
    void __cxa_guard_abort(u64* g)
    {
        ((char*)g)[1] = 0;
        if (!inactive()) wake(g);
    }
}
