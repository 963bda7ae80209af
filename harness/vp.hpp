// Property-based testing engine: tape of choices, tracing, coverage counters, failure reporting.
// A harness defines vp::run_case(); main() is in vp_main.hpp.
#pragma once
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <initializer_list>
#include <unistd.h>

namespace vp
{
    // ---- shared status page (survives a crash of this process) -------------
    struct Status
    {
        uint64_t caseIdx;
        uint32_t len;           // tape length of the current case
        uint32_t state;         // 0 running, 1 finished, 2 failed
        char msg[4096];
        uint32_t tape[1u << 20];
    };
    inline Status* st = nullptr;
    constexpr uint32_t kMaxTape = 1u << 20;

    inline uint64_t rngState = 0;
    inline bool replaying = false;
    inline uint32_t* replayTape = nullptr;
    inline uint32_t replayLen = 0;
    inline uint32_t replayPos = 0;
    inline bool tracing = false;
    inline bool traceNow = false;   // trace straight to stdout (a crash loses nothing)
    inline char* traceBuf = nullptr;
    inline size_t traceLen = 0, traceCap = 0;
    inline uint64_t caseHash = 0;
    inline bool isNontrivial = false;
    inline char profile[16] = "";
    inline bool thorough = false;

    inline uint64_t splitmix(uint64_t& s)
    {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }

    inline void mix(uint64_t v)
    {
        caseHash = (caseHash ^ v) * 0x100000001B3ull;
        caseHash ^= caseHash >> 29;
    }

    // Draw from [0, n). 0 is the simplest choice.
    inline uint32_t pick(uint32_t n)
    {
        if (n <= 1) return 0;
        uint32_t v;
        if (replaying)
        {
            v = replayPos < replayLen ? replayTape[replayPos] % n : 0;
            ++replayPos;
        }
        else
            v = (uint32_t)((splitmix(rngState) >> 11) % n);
        if (st->len < kMaxTape) st->tape[st->len++] = v;
        mix(v + 1);
        return v;
    }
    inline int range(int lo, int hi) { return lo + (int)pick((uint32_t)(hi - lo + 1)); }
    // True with probability num/den (the simplest choice is false).
    inline bool chance(uint32_t num, uint32_t den) { return pick(den) >= den - num; }
    inline int weighted(const int* w, int n)
    {
        uint32_t tot = 0;
        for (int i = 0; i < n; ++i) tot += w[i];
        uint32_t v = pick(tot);
        for (int i = 0; i < n; ++i)
        {
            if (v < (uint32_t)w[i]) return i;
            v -= w[i];
        }
        return n - 1;
    }
    inline int weighted(std::initializer_list<int> w) { return weighted(w.begin(), (int)w.size()); }
    // Interesting integers, boundaries included.
    inline int anyInt()
    {
        static const int b[] = { 0, 1, -1, 2, 7, 127, 128, 255, 256, -128, 1000, 32767, 65535, 65536, 2147483647, -2147483647 - 1 };
        if (pick(2) == 0) return b[pick(16)];
        return (int)pick(0x7fffffff) - (int)pick(2) * 0x40000000;
    }

    __attribute__((format(printf, 1, 2))) inline void trace(const char* f, ...)
    {
        if (!tracing) return;
        if (traceNow)
        {
            va_list b;
            va_start(b, f);
            vprintf(f, b);
            va_end(b);
            putchar('\n');
            fflush(stdout);
            return;
        }
        if (traceCap - traceLen < 1024)
        {
            if (traceCap > (8u << 20)) return;
            traceCap = traceCap * 2 + 65536;
            traceBuf = (char*)realloc(traceBuf, traceCap);
        }
        va_list a;
        va_start(a, f);
        int k = vsnprintf(traceBuf + traceLen, traceCap - traceLen, f, a);
        va_end(a);
        if (k > 1000) k = 1000;
        traceLen += k;
        traceBuf[traceLen++] = '\n';
        traceBuf[traceLen] = 0;
    }

    // Report a violation of the property; does not return.
    __attribute__((format(printf, 1, 2), noreturn)) inline void fail(const char* f, ...)
    {
        va_list a;
        va_start(a, f);
        vsnprintf(st->msg, sizeof st->msg, f, a);
        va_end(a);
        st->state = 2;
        if (tracing && traceBuf) { fwrite(traceBuf, 1, traceLen, stdout); }
        fprintf(stdout, "FAIL: %s\n", st->msg);
        fflush(stdout);
        _exit(77);
    }

    // ---- coverage labels ----------------------------------------------------
    struct Label { const char* name; uint64_t n; uint64_t lastCase; uint64_t cases; };
    inline Label labels[256];
    inline int nLabels = 0;
    inline uint64_t caseSerial = 0;
    inline int labelId(const char* s)
    {
        for (int i = 0; i < nLabels; ++i)
            if (!strcmp(labels[i].name, s)) return i;
        labels[nLabels] = { s, 0, ~0ull, 0 };
        return nLabels++;
    }
    inline void hit(int id)
    {
        Label& l = labels[id];
        ++l.n;
        if (l.lastCase != caseSerial) { l.lastCase = caseSerial; ++l.cases; }
    }
#define VP_LABEL(str) do { static const int vp_id_ = ::vp::labelId(str); ::vp::hit(vp_id_); } while (0)
    inline void nontrivial() { isNontrivial = true; }

    // ---- allocation accounting ---------------------------------------------
    inline long liveAllocs = 0;
    inline long allocFault = -1;     // throw bad_alloc at this many more allocations; -1: never
    inline bool allocFaultHit = false;

    void run_case();                 // one case; every choice from the tape
    extern const char* const rule;   // how cases are made and what is non-trivial
}
