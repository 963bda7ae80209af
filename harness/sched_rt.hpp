// Runtime that owns the schedule. Code compiled with -fsanitize=thread calls the __tsan_* functions of
// sched_rt.cpp. Threads are real threads of which exactly one runs at a time; who runs next is a choice
// on the tape. See sched_rt.cpp.
#pragma once
#include <cstdint>

namespace rt
{
    constexpr int kThreads = 5;             // 0: main, 1..4: workers

    extern thread_local int loud;           // 0: harness code, invisible to the scheduler and race detector
    extern thread_local int self;

    struct Loud { int s; Loud() : s(loud) { loud = 1; } ~Loud() { loud = s; } };
    struct Quiet { int s; Quiet() : s(loud) { loud = 0; } ~Quiet() { loud = s; } };

    void begin_case();                                       // a fresh arena and fresh clocks
    void run_threads(int n, void (*body)(int), int meanGap); // runs body(1..n) to completion, then returns
    void yield();                                            // a point at which the schedule may change
    long arena_live();                                       // allocations of instrumented code that are alive
    void publish(const void* key);                           // hand something over to another thread ...
    void observe(const void* key);                           // ... which takes it
    uint64_t now();                                          // logical time, unique and increasing

    struct Stats { uint64_t points, switches, forced, blocked; };
    extern Stats stats;                     // of the last run_threads
}
