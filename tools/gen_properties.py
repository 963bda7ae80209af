#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (source of truth for the property texts)."""
import json, os
S = "signals.hpp"; O = "optional.hpp"
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=()):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files,
        "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
        "mechanism": [{"name": n, "where": w} for n, w in mech],
        "observe_at": observe, "hook_needed": None}})

prop("C01", "Each emission invokes exactly the connected, unblocked slots, once each",
 "Emitting a signal invokes every slot that is connected to it and not blocked exactly once, and invokes nothing else, after any history of connects, disconnects (by handle, by callable, by scope), blocks and emissions on any number of signals and for any number of slots. Signals are independent: an operation on one never changes which slots another invokes, also when both were given the same slot or callable.",
 ["histories", "inputs"], "every sequence of API operations on several signals, for every number of connected slots",
 "The tests run a dozen fixed scripts with at most four slots; index bookkeeping errors need particular removal orders, sizes or mixes of the removal paths.",
 [S], [("copy-on-write slot list and swap-with-last removal", "signal::add_slot/remove_slot/erase"), ("snapshot emission", "signal::operator()")],
 ["slot bodies (invocation log)", "signal::operator()"],
 [("m_Slots", "slots in invocation order", "signal"), ("m_Index", "position of a slot in the list", "detail::slot_state")])

prop("C02", "Invocation order is connection order, with the documented removal rule",
 "Slots are invoked in the order in which they were connected. Removing a single slot, through its connection or by callable, moves at most the last slot, into the place of the removed one, and keeps every other slot's position; removing several at once leaves the slots before the first removed one in place.",
 ["histories"], "every sequence of connects, single and multiple removals, blocks and emissions",
 "The order is only visible with several distinguishable slots after specific removals; the tests check counts or a maximum, never the order.",
 [S, "README.md"], [("push_back on connect, swap-with-last on removal", "signal::add_slot/remove_slot/erase")],
 ["slot bodies (invocation log)"])

prop("C03", "The emission result is what the combiner makes of the slots' results",
 "A combiner is given the results of the invoked slots in invocation order, each one produced by invoking that slot when its iterator is dereferenced, with an empty result for a slot that is blocked or disconnected, and what the combiner, newly made for that emission, returns is what the emission returns. The default combiner returns the last non-empty result, and an empty optional if there is none; for void signals the result is always empty. A combiner that stops early leaves the remaining slots uninvoked.",
 ["histories", "inputs", "programs"], "all histories of slots, all slot results, and all combiners over the iterator pair",
 "The tests use one maximum combiner over four constants; which result wins depends on order, blocked and expired slots and on the result type.",
 [S, O], [("slot_iterator", "detail::slot_iterator"), ("optional_last_value", "sig::optional_last_value"), ("Combiner call", "signal::operator()")],
 ["return value of signal::operator()", "custom combiners"])

prop("C04", "Every slot receives the emission's arguments intact",
 "For every emission, each invoked slot receives the arguments that were passed to the emission: a by-value argument arrives with the value that was passed, whatever the other slots did with theirs (moved from it, modified it), and the caller's own object is not changed; a reference argument refers to the caller's object for every slot, so changes made by earlier slots are visible to later ones and to the caller. Conversions between the signal's and the slot's parameter types are those of a direct call.",
 ["inputs", "histories"], "all argument types, values, categories and arities, and all combinations of consuming and non-consuming slots",
 "The tests pass ints and counters by reference; a by-value argument of class type never reaches a second slot in them.",
 [S], [("argument tuple and per-slot forwarding", "detail::slot_iterator::do_invoke, slot::operator(), invoke_helper::call")],
 ["parameters received by slot bodies", "caller's argument objects after the emission"])

prop("C05", "A connection disconnects exactly its own slot, once",
 "Disconnecting through a connection removes exactly the slot it was obtained for, even if equal callables are connected several times, and no other slot changes state. The call that disconnects returns true and every later one, through any copy, returns false; connected() is true from the connect until the slot is disconnected by any means, and copies, moves and swaps of connections refer to the same slot as the original did.",
 ["histories"], "every sequence of connects, handle copies/moves/swaps/assignments, and disconnects by any route",
 "Tests disconnect one or two handles in a fixed order; removing the wrong slot needs stale positions after other removals.",
 [S], [("weak slot handle and position index", "connection, slot::disconnect, signal::remove_slot"), ("identity check on removal", "signal::remove_slot")],
 ["connection::connected/disconnect", "invocation log"])

prop("C06", "Disconnecting by callable removes all and only equivalent slots",
 "Disconnecting a callable (or callable and object, or slot) removes from that signal every slot bound to an equal one and no other, returns how many were removed, and their connections report disconnected. Equality is that of the callables' types and values, both the member and the object for member pointers, and does not depend on whether they were passed as named objects, temporaries, const objects, functions or function pointers, and the named objects themselves are left as they were. If a slot of the same type cannot be compared, not_comparable_exception is thrown and no slot is removed.",
 ["histories", "inputs"], "all multisets of connected callables of mixed kinds and all queries, in all value categories",
 "The tests remove one callable kind at a time, always passed the same way and with few duplicates.",
 [S], [("type-erased equality", "slot_func/slot_pmf::equals, try_equals"), ("linear removal", "signal::erase")],
 ["signal::disconnect return value", "invocation log", "connection::connected"])

prop("C07", "Blocking suspends exactly one slot, for exactly as long as requested",
 "A slot is blocked while block() was called on a connection to it without a later unblock(), or while any connection_blocker obtained for it is alive, however blockers are nested, moved, swapped or assigned. A blocked slot is not invoked but stays connected and keeps its position; all other slots are unaffected, and once nothing blocks it any more it is invoked again. blocked() reports this state on every copy of the connection.",
 ["histories"], "every interleaving of block, unblock, blocker creation, move, swap, assignment and destruction with emissions and disconnects",
 "Tests block and unblock two slots once, and no test uses connection_blocker.",
 [S], [("block flag and blocker count", "detail::slot_state"), ("RAII blocker", "connection_blocker")],
 ["connection::blocked", "invocation log"])

prop("C08", "A scoped connection disconnects its slot exactly when its ownership ends",
 "A slot held by a scoped connection stays connected until the scoped connection is destroyed or assigned another connection, and is disconnected at that moment. Moving, swapping or releasing a scoped connection transfers that responsibility completely: the source no longer disconnects anything, and a released slot stays connected. No other slot is affected.",
 ["histories"], "every sequence of constructions, moves, assignments, swaps, releases, explicit disconnects and destructions of scoped and plain connections",
 "Tests cover one move and one release each; ownership errors need chains of moves, assignments over live connections and container growth.",
 [S], [("RAII disconnect, move and release", "scoped_connection")],
 ["connection::connected", "invocation log"])

prop("C09", "Tracked objects are never kept alive, never called dead, and alive during calls",
 "A slot bound to an object through a shared or weak pointer (or a type convertible to one) does not keep the object alive. Once the object is gone the slot reports disconnected and is never invoked, and other slots still are; while it exists the slot is invoked. During an invocation the object is kept alive until the slot returns, even if its last owner lets go meanwhile.",
 ["histories", "schedules"], "every moment of expiry relative to connects, emissions, copies of the slot and the invocation itself, from the same or another thread",
 "Tests reset the pointer once between two emissions; expiry inside the callback or during the emission is never exercised.",
 [S], [("weak pointer locked for the call", "slot_pmf_tracked::operator()/connected"), ("to_weak", "sig::to_weak")],
 ["slot bodies", "object destructor", "connection::connected"])

prop("C10", "Slots may change and re-emit the signal during an emission",
 "While a signal is being emitted, its slots may connect, disconnect, block or unblock any slot (including themselves) and emit again, to any depth, without deadlock or corruption. A slot connected during an emission is first invoked by the next one; a slot disconnected, blocked or expired before its turn is not invoked; all others are invoked exactly once, and nested emissions see the state at their own start.",
 ["histories"], "every tree of nested emissions and every operation performed from within any slot at any position",
 "No test modifies a signal from within its own slot except a nested emission on another signal.",
 [S], [("snapshot of the copy-on-write list", "signal::read_slots/operator(), cow_ptr::detach"), ("disconnected flag checked at invocation", "slot::operator()"), ("no lock held while user code runs", "signal")],
 ["slot bodies (invocation log)", "termination"])

prop("C11", "Concurrent emissions reach every slot connected throughout",
 "When threads emit, connect, disconnect and block on one signal concurrently, every emission invokes exactly once each slot that was connected before it began and neither removed nor blocked before it ended, and never a slot whose removal or blocking had completed before it began (and lasted), or that was connected after it ended, or any slot twice. After all threads are done, the slots invoked are exactly those whose connections report connected and not blocked.",
 ["schedules", "histories"], "every interleaving of the threads' API calls",
 "Three threaded tests run a handful of accidental interleavings and two of them check no result.",
 [S], [("list mutex and copy-on-write snapshots", "signal::read_slots/add_slot/remove_slot/erase"), ("atomic slot state", "detail::slot_state")],
 ["slot bodies", "connection::connected"])

prop("C12", "Concurrent membership changes are neither lost, duplicated nor misdirected",
 "When threads connect and disconnect slots of one signal concurrently, through connections, scoped connections or by callable, every completed connect is in effect until a disconnect aimed at that slot, every completed disconnect is in effect for good, and no slot is removed that nobody disconnected. Of all the disconnect calls on the same slot's connections at most one returns true, and if nothing else removes the slot exactly one does.",
 ["schedules", "histories"], "every interleaving of concurrent connects and disconnects",
 "ThreadedConnect's concurrent half asserts nothing; stale positions and lost updates need specific interleavings.",
 [S], [("mutex around list updates, index maintenance, identity check", "signal::add_slot/remove_slot/erase"), ("atomic exchange of the connected flag", "detail::slot_state::disconnect")],
 ["connection::disconnect return values", "final emission"])

prop("C13", "No interleaving of API calls races, deadlocks or touches freed memory",
 "In every interleaving of emissions, connects, disconnects, blocks and state queries from several threads on live signals, including operations performed by slots during emissions and emissions crossing between signals, all threads finish, no two threads access the same memory without synchronization with at least one writing, and no freed object is accessed.",
 ["schedules"], "every interleaving",
 "The threaded tests run uninstrumented, so races and use-after-free pass silently, and only one lock order is tried.",
 [S], [("mutex discipline", "signal"), ("atomic slot state", "detail::slot_state"), ("acquire before in-place modification", "cow_ptr::detach")],
 ["instrumented memory accesses, atomics and locks"])

prop("C14", "An exception thrown by a slot reaches the caller and leaves the signal intact",
 "If a slot throws, the same exception propagates out of the emission (also through nested emissions), slots after it in that emission are not invoked, and those before it have been invoked exactly once. Connections, order, blocked states and stored callables are unchanged, and later emissions behave as if the exception had not happened.",
 ["histories", "fault_sequences"], "a throw from any slot at any invocation, in any history, nested or not",
 "No test has a throwing slot.",
 [S], [("RAII snapshot, no partial state during emission", "signal::operator()")],
 ["exceptions leaving signal::operator()", "later emissions"])

prop("C15", "A signal owns its callables: own copy, alive while used, released exactly once",
 "Connecting stores the signal's own copy of the callable (or slot): a named original is left as it was, later changes to it do not affect the copy, and its own state persists from one emission to the next. The stored callable exists until its slot is removed or the signal destroyed, and at least until a running invocation of it returns; then it is destroyed, exactly once, and nothing is leaked.",
 ["histories"], "every history, including removal of a slot from within its own or a nested invocation",
 "No test counts callable instances or removes a slot while it is running.",
 [S], [("unique ownership of the implementation", "slot"), ("shared ownership by list and snapshots", "signal, cow_ptr")],
 ["constructor/destructor counts of callables", "allocation balance"])

prop("C16", "Moving a signal carries its slots and connections along",
 "After moving a signal into another, by construction or assignment, the target invokes exactly the slots the source had, in the same order and with the same blocked states, and all existing connections, scoped connections and blockers keep controlling them. Slots the target held before an assignment are disconnected, and the source is empty and usable.",
 ["histories"], "every history with moves at any point, including chains of moves and self-move",
 "No test moves a signal.",
 [S], [("move construction and assignment, slot re-targeting", "signal::signal(signal&&), signal::operator=(signal&&)")],
 ["invocation log", "connection state"])

prop("C17", "A callable behaves the same through a slot or signal as called directly",
 "For every supported kind of callable (functions, function objects, lambdas, bind expressions, std::function, pointers to member functions and to member data, with the object given by pointer, reference wrapper, value, shared or weak pointer), invoking it through a slot or a signal has the same effects and yields the same value as calling it directly with those arguments, including virtual dispatch, overloads on constness and results that convert implicitly, as an engaged optional. An exception thrown by the callable is the one the caller sees. For void callables the result is an empty optional.",
 ["inputs", "programs"], "all callable kinds, signatures, objects and argument values",
 "The tests try each kind with one value and compare a constant.",
 [S, O], [("invoke_helper, slot_func, slot_pmf, slot_pmf_tracked", "namespace sig::detail")],
 ["slot::operator()", "signal::operator()"])

prop("C18", "Slots are values",
 "A slot that holds a callable is connected until its tracked object (if any) is gone, and invoking it yields the callable's result unless it is blocked or disconnected, when nothing is invoked and the result is empty. Copies, also by assignment and of empty slots, start with the original's callable state and blocked flag, are equal to it, and share neither with it afterwards; a copy whose callable fails to copy leaves its target as it was. Moving transfers the callable and leaves the source empty. An empty slot is false, not connected, invokes nothing, and equals only empty slots. Between comparable callables equality is reflexive, symmetric and transitive, and inequality its negation; slots of one type that cannot be compared throw not_comparable_exception.",
 ["histories", "inputs"], "all sequences of constructions, copies, moves, assignments, blocks and invocations over several slots",
 "Tests compare pairs of fresh slots; copying a named slot or assigning one is never exercised.",
 [S], [("clone-based copies, move, equality", "sig::slot")],
 ["slot operations"])

prop("C19", "An optional is either empty or holds exactly the last value given to it",
 "After any sequence of constructions, assignments (from values, optionals of the same or a convertible type, or the empty tag), emplacements, resets, swaps, copies and moves, an optional is engaged exactly when the last such operation gave it a value, and every accessor then yields that value; an empty one yields the fallback, a null pointer, or throws bad_optional_access from value(). It agrees with the standard optional for scalar, class, move-only and over-aligned types.",
 ["histories", "inputs"], "all operation sequences over several optionals and all values",
 "optional.hpp has no tests of its own; the signal tests only read freshly returned optionals.",
 [O], [("optional_base and tc_optional_base storage", "opt::detail"), ("assign/construct/destroy", "opt::optional")],
 ["accessors of opt::optional"])

prop("C20", "Optional comparisons are consistent, with empty below every value",
 "Comparing two optionals, an optional with a value, or an optional with the empty tag, in either operand order and for every comparison operator, gives the result of comparing the contained values where both exist, and otherwise treats empty as equal to empty and less than every value (for types whose own comparison operators are consistent with one another).",
 ["inputs"], "all pairs of states and values, all operators and operand orders, including references",
 "Tests compare engaged optionals with constants by == only.",
 [O], [("relational operators", "namespace opt")],
 ["comparison operators"])

prop("C21", "An optional constructs and destroys its value exactly once, also on exceptions",
 "Every value an optional constructs is destroyed exactly once, at reset, replacement or the optional's end, and never used outside its lifetime; copies copy and moves move, without spurious extra objects. If constructing, copying or converting the value throws, the exception reaches the caller, nothing is leaked, the optional is either empty or holds a valid value, and it is empty after a failed emplace.",
 ["histories", "fault_sequences"], "all operation sequences with an exception injected at any constructor, assignment or conversion",
 "Nothing tests lifetimes or exceptions of optional.",
 [O], [("m_initialized guarded storage", "opt::detail::optional_base")],
 ["instance counts and identity of contained objects"])

prop("C22", "Optional references alias, and optional void is always empty",
 "An optional reference is empty or refers to exactly the object it was last bound to: assignment and emplace rebind and never write through, copies and swaps exchange referents, and access reads and writes the referred object. An optional of void is empty after every operation and throws bad_optional_access from value().",
 ["histories"], "all sequences of bindings, assignments, swaps, resets and writes over several referents",
 "No test uses an optional reference.",
 [O], [("optional<T&>, optional<void>", "opt")],
 ["accessors"])

prop("C23", "Copy-on-write handles never see each other's writes",
 "After any sequence of copies, moves, assignments and writes over copy-on-write handles, every handle reads the value that value semantics dictate: a write through one handle is never visible through another, and reads never separate handles. A write through a handle that shares its object leaves the others sharing the old one, and a handle that is the only owner is modified in place, without a copy.",
 ["histories"], "all operation sequences over several handles and every access path (dereference, arrow, data, conversion, read, write)",
 "Two tests perform one write each, through one access path.",
 [S], [("detach on non-const access", "detail::cow_ptr")],
 ["values, addresses and copy counts through each handle"])

prop("C24", "Handles that outlive their signal are inert",
 "Once a signal is destroyed, connections, scoped connections and blockers obtained from it report not connected, and using, copying, moving or destroying them has no effect and is safe. This also holds if the signal is destroyed by one of its own slots during an emission, or by destroying a callable that owns handles to other slots of the same signal: the emission ends without invoking further slots, and the running slot's callable stays alive until it returns.",
 ["histories"], "every history followed by destruction of the signal at any point, including from within a slot",
 "No test uses a handle after its signal is gone.",
 [S], [("weak handles", "connection, connection_blocker"), ("slots disconnected at destruction", "signal::~signal")],
 ["handle operations after destruction, under address checking"])

prop("C25", "A failed connect or disconnect leaves the signal unchanged",
 "If connecting fails because copying the callable throws or memory runs out at any point, the exception reaches the caller, the signal invokes exactly the slots it did before, in the same order, existing connections keep working, and nothing is leaked; a retry then succeeds. If memory runs out when disconnecting by callable, the exception reaches the caller and no slot is removed that does not match.",
 ["fault_sequences", "histories"], "every allocation or copy at which a connect or disconnect can fail, in every state of the signal",
 "No test injects a failure.",
 [S], [("slot built before the list is changed; list growth is atomic", "signal::connect/add_slot")],
 ["exceptions leaving connect/disconnect", "later emissions", "allocation balance"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
if __name__ == "__main__":
    for p in P: assert len(p["title"]) <= 80, p["id"]
    print(len(P))
