// Driver: included once per harness. See vp.hpp.
#pragma once
#include "vp.hpp"
#include <chrono>
#include <cerrno>
#include <csignal>
#include <exception>
#include <fcntl.h>
#include <new>
#include <string>
#include <sys/mman.h>
#include <sys/time.h>
#include <vector>

#ifndef VP_OWN_RUNTIME
#include <dlfcn.h>
#include <pthread.h>
// One thread only: a lock that is not available now never will be.
extern "C" int pthread_mutex_lock(pthread_mutex_t* m)
{
    int r = pthread_mutex_trylock(m);
    if (r == EBUSY && vp::st) vp::fail("deadlock: the thread locks a mutex it already holds");
    return r;
}
extern "C" int pthread_rwlock_wrlock(pthread_rwlock_t* m)
{
    int r = pthread_rwlock_trywrlock(m);
    if (r == EBUSY && vp::st) vp::fail("deadlock: the thread locks a rwlock it already holds");
    return r;
}
extern "C" int pthread_rwlock_rdlock(pthread_rwlock_t* m)
{
    int r = pthread_rwlock_tryrdlock(m);
    if (r == EBUSY && vp::st) vp::fail("deadlock: the thread locks a rwlock it already holds");
    return r;
}

namespace vp
{
    inline void* allocate(size_t n, size_t al)
    {
        if (allocFault >= 0 && allocFault-- == 0)
        {
            allocFaultHit = true;
            return nullptr;
        }
        void* p = al ? aligned_alloc(al, (n + al - 1) / al * al) : malloc(n ? n : 1);
        if (p) ++liveAllocs;
        return p;
    }
    inline void release(void* p)
    {
        if (p) { --liveAllocs; free(p); }
    }
}
void* operator new(size_t n) { void* p = vp::allocate(n, 0); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { void* p = vp::allocate(n, 0); if (!p) throw std::bad_alloc(); return p; }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return vp::allocate(n, 0); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return vp::allocate(n, 0); }
void* operator new(size_t n, std::align_val_t a) { void* p = vp::allocate(n, (size_t)a); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n, std::align_val_t a) { void* p = vp::allocate(n, (size_t)a); if (!p) throw std::bad_alloc(); return p; }
void operator delete(void* p) noexcept { vp::release(p); }
void operator delete[](void* p) noexcept { vp::release(p); }
void operator delete(void* p, size_t) noexcept { vp::release(p); }
void operator delete[](void* p, size_t) noexcept { vp::release(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { vp::release(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { vp::release(p); }
void operator delete(void* p, std::align_val_t) noexcept { vp::release(p); }
void operator delete[](void* p, std::align_val_t) noexcept { vp::release(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { vp::release(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { vp::release(p); }
#endif

namespace vp
{
    inline void onHang(int)
    {
        static const char m[] = "hang: the case used 30 s of CPU time";
        if (st) { memcpy(st->msg, m, sizeof m); st->state = 2; }
        _exit(78);
    }
    inline void onTerminate()
    {
        fail("terminate called (exception left a noexcept function, or double exception)");
    }

    inline void arm(int s)
    {
        itimerval t{};
        t.it_value.tv_sec = s;
        setitimer(ITIMER_PROF, &t, nullptr);
    }

    inline void one(bool checkLeak)
    {
        st->len = 0;
        st->state = 0;
        st->msg[0] = 0;
        caseHash = 1469598103934665603ull;
        isNontrivial = false;
        replayPos = 0;
        allocFault = -1;
        ++caseSerial;
        arm(30);
        long before = liveAllocs;
        run_case();
        if (checkLeak && liveAllocs != before)
        {
            // Run the same tape again: static initialisation allocates only once.
            std::vector<uint32_t> t(st->tape, st->tape + st->len);
            bool r0 = replaying; uint32_t* rt = replayTape; uint32_t rl = replayLen;
            replaying = true; replayTape = t.data(); replayLen = (uint32_t)t.size(); replayPos = 0;
            st->len = 0;
            allocFault = -1;
            long b2 = liveAllocs;
            run_case();
            if (liveAllocs != b2) fail("leak: %ld allocations outlive the case", liveAllocs - b2);
            replaying = r0; replayTape = rt; replayLen = rl;
        }
        arm(0);
        st->state = 1;
    }

    inline uint64_t seedFor(uint64_t seed, uint64_t idx)
    {
        uint64_t s = seed * 0x9E3779B97F4A7C15ull + 0x1234567;
        for (const char* c = profile; *c; ++c) s = (s ^ (unsigned char)*c) * 0x100000001B3ull;
        s ^= idx * 0xD1B54A32D192ED03ull;
        splitmix(s);
        return splitmix(s);
    }

    inline void jsonStr(FILE* f, const char* s)
    {
        fputc('"', f);
        for (; *s; ++s)
        {
            if (*s == '"' || *s == '\\') { fputc('\\', f); fputc(*s, f); }
            else if (*s == '\n') fputs("\\n", f);
            else if ((unsigned char)*s < 32) fprintf(f, "\\u%04x", *s);
            else fputc(*s, f);
        }
        fputc('"', f);
    }
}

#ifdef VP_FUZZ
extern "C" int LLVMFuzzerTestOneInput(const uint8_t* data, size_t size)
{
    using namespace vp;
    if (!st)
    {
        st = (Status*)mmap(nullptr, sizeof(Status), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        const char* p = getenv("VP_PROFILE");
        snprintf(profile, sizeof profile, "%s", p ? p : "C01");
        thorough = true;
        std::set_terminate(onTerminate);
        if (const char* t = getenv("VP_TAPE_OUT"))
        {
            int fd = open(t, O_RDWR | O_CREAT, 0600);
            if (fd >= 0 && ftruncate(fd, sizeof(Status)) == 0)
                st = (Status*)mmap(nullptr, sizeof(Status), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        }
    }
    std::vector<uint32_t> t;
    for (size_t i = 0; i + 1 < size; i += 2) t.push_back(data[i] | data[i + 1] << 8);
    replaying = true; replayTape = t.data(); replayLen = (uint32_t)t.size();
    // A case stops being interesting when the input is used up: zeros follow.
    one(true);
    return 0;
}
#else
// usage:
//   H gen PROFILE SEED FROM STEP COUNT TIME_S OUTPREFIX     generate and run cases
//   H run PROFILE TAPEFILE STATUSFILE [trace]               run one tape
int main(int argc, char** argv)
{
    using namespace vp;
    if (argc < 5) return 2;
    snprintf(profile, sizeof profile, "%s", argv[2]);
    thorough = getenv("VERIF_TIER") && !strcmp(getenv("VERIF_TIER"), "thorough");
    bool gen = !strcmp(argv[1], "gen");
    std::string stf = gen ? std::string(argv[8]) + ".status" : std::string(argv[4]);
    int fd = open(stf.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600);
    if (fd < 0 || ftruncate(fd, sizeof(Status)) != 0) { perror("status"); return 2; }
    st = (Status*)mmap(nullptr, sizeof(Status), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    if (st == MAP_FAILED) return 2;
    signal(SIGPROF, onHang);
    std::set_terminate(onTerminate);

    if (gen)
    {
        uint64_t seed = strtoull(argv[3], 0, 10), from = strtoull(argv[4], 0, 10), step = strtoull(argv[5], 0, 10), count = strtoull(argv[6], 0, 10);
        double limit = atof(argv[7]);
        std::string pre = argv[8];
        auto t0 = std::chrono::steady_clock::now();
        uint64_t evals = 0, nontriv = 0;
        FILE* hf = fopen((pre + ".hash").c_str(), "wb");
        std::vector<uint64_t> sampleIdx;
        for (uint64_t i = from; i < count; i += step)
        {
            st->caseIdx = i;
            rngState = seedFor(seed, i);
            one(true);
            ++evals;
            if (isNontrivial)
            {
                ++nontriv;
                fwrite(&caseHash, 8, 1, hf);
                if (sampleIdx.size() < 2 && from == 0 && st->len < 400) sampleIdx.push_back(i);
            }
            if ((evals & 15) == 0 && std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > limit) break;
        }
        fclose(hf);
        uint64_t lastLabels[256]; int nl = nLabels;
        uint64_t lastCases[256];
        for (int i = 0; i < nl; ++i) { lastLabels[i] = labels[i].n; lastCases[i] = labels[i].cases; }
        FILE* f = fopen((pre + ".json").c_str(), "w");
        fprintf(f, "{\"evaluations\":%llu,\"nontrivial\":%llu,\"labels\":{", (unsigned long long)evals, (unsigned long long)nontriv);
        for (int i = 0; i < nl; ++i)
            fprintf(f, "%s\"%s\":[%llu,%llu]", i ? "," : "", labels[i].name, (unsigned long long)lastLabels[i], (unsigned long long)lastCases[i]);
        fprintf(f, "},\"rule\":");
        jsonStr(f, rule);
        fprintf(f, ",\"samples\":[");
        bool first = true;
        for (uint64_t i : sampleIdx)
        {
            tracing = true;
            traceLen = 0;
            st->caseIdx = i;
            rngState = seedFor(seed, i);
            one(false);
            std::string t(traceBuf ? traceBuf : "", traceLen > 4000 ? 4000 : traceLen);
            fprintf(f, "%s{\"case\":%llu,\"trace\":", first ? "" : ",", (unsigned long long)i);
            jsonStr(f, t.c_str());
            fputs("}", f);
            first = false;
        }
        fprintf(f, "]}\n");
        fclose(f);
        return 0;
    }
    // run
    FILE* f = fopen(argv[3], "r");
    if (!f) return 2;
    std::vector<uint32_t> t;
    char line[64];
    while (fgets(line, sizeof line, f))
        if (line[0] >= '0' && line[0] <= '9') t.push_back((uint32_t)strtoul(line, 0, 10));
    fclose(f);
    replaying = true; replayTape = t.data(); replayLen = (uint32_t)t.size();
    tracing = traceNow = argc > 5;
    one(true);
    if (tracing && traceBuf) fwrite(traceBuf, 1, traceLen, stdout);
    puts("PASS");
    return 0;
}
#endif
