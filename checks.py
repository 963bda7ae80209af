"""The harnesses and which of them decides which property."""
SAN = ["-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize=vptr", "-fno-sanitize-recover=all"]


def world(ts, extra):
    return [("world.cpp", ["-DWORLD_MAIN"] + extra, "main")] + [("world.cpp", ["-DWORLD_T=%d" % t], "t%d" % t) for t in ts]


HARNESSES = {
    "world": {"flags": SAN, "units": world([0, 1, 2, 6], [])},
    "world_all": {"flags": SAN, "units": world(range(9), ["-DWORLD_ALL"])},
    "opt": {"flags": SAN, "units": [("opt.cpp", ["-DOPT_MAIN"], "main")] + [("opt.cpp", ["-DOPT_G=%d" % g], "g%d" % g) for g in range(7)]},
    "cow": {"flags": SAN, "units": [("cow.cpp", [], "cow")]},
    "args": {"flags": SAN, "units": [("args.cpp", ["-DARGS_MAIN"], "main")] + [("args.cpp", ["-DARGS_G=%d" % g], "g%d" % g) for g in range(5)]},
    "callable": {"flags": SAN, "units": [("callable.cpp", ["-DCALL_MAIN"], "main")] + [("callable.cpp", ["-DCALL_G=%d" % g], "g%d" % g) for g in range(7)]},
    "combine": {"flags": SAN, "units": [("combine.cpp", [], "combine")]},
    "exc": {"flags": SAN, "units": [("exc.cpp", [], "exc")]},
    "slots": {"flags": SAN, "units": [("slots.cpp", [], "slots")]},
    "conc": {"flags": ["-O1", "-g1"], "link_flags": ["-no-pie"], "libs": ["-lpthread"],
             "units": [("conc.cpp", ["-fsanitize=thread"], "conc"), ("sched_rt.cpp", ["-O2"], "rt")]},
    "cowconc": {"flags": ["-O1", "-g1"], "link_flags": ["-no-pie"], "libs": ["-lpthread"],
                "units": [("cowconc.cpp", ["-fsanitize=thread"], "cowconc"), ("sched_rt.cpp", ["-O2"], "rt")]},
}

CHECKS = {}


def add(pid, level, technique, note, parts, **kw):
    CHECKS[pid] = dict(level=level, technique=technique, note=note, parts=parts, **kw)


SEQ = ("Held on all generated cases of the run (count in the evidence); no claim beyond them. The oracle is an independent reference model that is told of every "
       "slot invocation as it happens. Trusts clang 18 with address and undefined-behaviour sanitizers, and libstdc++. ")
CONC = ("Held on all generated histories and schedules of the run. The schedule is an input: the harness's own runtime decides every switch at atomics, locks and "
        "marked points; 2-4 threads, short programs. Values are sequentially consistent (a weak-memory value is never returned), but missing synchronization shows as a data race "
        "by vector clocks, which honour the memory orders and fences actually used. Trusts clang's thread-sanitizer instrumentation; code inside libstdc++.so is not instrumented (mutex and shared_ptr are intercepted). ")
MB = "model-based stateful property testing"
# (cases, seconds)
W = {
    "C01": "Histories over up to three signals and up to some hundred slots, every removal path.",
    "C02": "The order after a removal of several slots at once is checked only before the first one removed, as the property says.",
    "C05": "Copies, moves, swaps of connections, duplicates of equal callables; the result for an expired tracked slot is left open.",
    "C06": "Functions, comparable and non-comparable function objects, members, slots as arguments; passed as named, temporary, const.",
    "C07": "block/unblock and any nesting of blockers on any copy of the connection.",
    "C08": "Self-move of a scoped connection is out of scope.",
    "C10": "Slot bodies run generated scripts (connect, disconnect, block, emit, to a depth bound).",
    "C15": "Counts live callables after every step, and allocations after every case.",
    "C16": "Construction and assignment, also during an emission of neither signal.",
    "C24": "Signals destroyed before, and by slots during, an emission.",
    "C25": "Each history contains operations whose n-th allocation or callable copy fails, n generated over all points of the operation. By-handle disconnect is noexcept and left out.",
}
THREADS = "A second part checks the property in histories of several threads under generated schedules. "
MBC = MB + " and of concurrent histories under generated schedules"
CONC_PART = {"harness": "conc", "quick": (800000, 20), "thorough": (8000000, 150)}
for pid in W:
    conc = pid not in ("C16", "C24", "C25")
    add(pid, "fault_enumeration" if pid == "C25" else "exploration", MB + " with injected allocation and copy faults" if pid == "C25" else MBC if conc else MB,
        SEQ + (THREADS if conc else "") + W[pid],
        [{"harness": "world", "quick": (400000, 60), "thorough": (8000000, 650 if conc else 850)}] + ([CONC_PART] if conc else []))
add("C03", "exploration", MBC, SEQ + THREADS + "Nine signal types (result types, argument types, custom combiners that stop early, skip, dereference twice or collect).",
    [{"harness": "combine", "quick": (300000, 40), "thorough": (8000000, 320)}, {"harness": "world_all", "quick": (120000, 40), "thorough": (2000000, 320)}, CONC_PART])
add("C14", "exploration", MBC, SEQ + THREADS + "Throws at every place of an emission, nested emissions, combiners and unwinding included; 19 exception types. The caught object's dynamic type and payload are compared, not its address.",
    [{"harness": "exc", "quick": (160000, 40), "thorough": (8000000, 320)}, {"harness": "world", "quick": (120000, 40), "thorough": (2000000, 320)}, CONC_PART])
O = {
    "C19": "Seven groups of value types: scalars, class, move-only, over-aligned, references, convertible pairs.",
    "C20": "All operators in both operand orders over generated pairs; types with consistent comparison operators.",
    "C21": "Values register every construction and destruction; each history injects exceptions in constructors, copies, moves, conversions and assignments.",
    "C22": "References to base and derived objects, const and non-const; optional<void> through every operation.",
}
for pid in O:
    add(pid, "fault_enumeration" if pid == "C21" else "exploration", "model-based property testing against std::optional" if pid in ("C19", "C20") else "model-based property testing with object-lifetime accounting",
        "Held on all generated histories of the run; no claim beyond them. Trusts clang 18 with sanitizers and std::optional as reference. " + O[pid],
        [{"harness": "opt", "quick": (1000000, 45), "thorough": (40000000, 850)}])
add("C23", "exploration", MBC, SEQ + "Six handles over one counted value type. A second part lets 2-4 threads write, read and copy handles of their own that share objects, under generated schedules.",
    [{"harness": "cow", "quick": (1500000, 40), "thorough": (40000000, 500)}, {"harness": "cowconc", "quick": (800000, 20), "thorough": (20000000, 300)}])
add("C04", "exploration", MBC, SEQ + THREADS + "Signatures by value, reference, const reference, pointer, mixed, convertible; slots that move from, modify or keep their arguments; combiners that invoke a slot twice.",
    [{"harness": "args", "quick": (800000, 60), "thorough": (4000000, 450)}, {"harness": "combine", "quick": (200000, 30), "thorough": (4000000, 200)}, CONC_PART])
T = {
    "C11": "Per slot, the interval of its connection and blocking is compared with each emission's interval.",
    "C12": "Results and final membership are compared with what the completed calls allow.",
    "C13": "Oracle: happens-before race detection, deadlock and livelock detection, and an arena that never reuses memory.",
}
for pid in T:
    add(pid, "exploration", "property testing of concurrent histories under generated schedules", CONC + T[pid], [{"harness": "conc", "quick": (2400000, 60), "thorough": (40000000, 850)}])
add("C09", "exploration", MB + " and of concurrent histories under generated schedules", SEQ + "A second part lets another thread drop the last owner during invocations, under generated schedules.",
    [{"harness": "world", "quick": (240000, 60), "thorough": (4000000, 600)}, {"harness": "conc", "quick": (800000, 30), "thorough": (20000000, 250)}])
add("C17", "exploration", "differential property testing against the direct call",
    "Held on all generated cases: about 140 combinations of callable, object passing and result type, fixed at compile time; arguments, ways of construction and call counts generated. "
    "Callables whose result needs a user-defined conversion do not compile in the library and are not covered. Trusts clang 18 with sanitizers and std::invoke as reference.",
    [{"harness": "callable", "quick": (400000, 60), "thorough": (8000000, 850)}])
add("C18", "exploration", MB, SEQ + "Three signatures; self-move is out of scope; slots whose types cannot be compared must throw when compared.",
    [{"harness": "slots", "quick": (240000, 60), "thorough": (4000000, 850)}])
