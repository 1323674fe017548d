#!/usr/bin/env python3
"""Regenerates properties.jsonl (kept here so the text can be edited readably)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
      quantifier=dict(over=over, text=text), why_tests_cant=why,
      anchors=dict(files=list(files),
        state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
        mechanism=[dict(name=a, where=b) for a, b in mech],
        observe_at=list(observe), hook_needed=None)))
AT = "ristra/atomics/src/"
p("C01", "Compare-and-swap atomic updates are linearizable",
  "Every update of an atomic variable through a compare-and-swap scheme (strong, weak and their punned forms; any operation, function/member/operator form, scheme override or memory-order argument) takes effect exactly once at a single instant between its call and its return. The value it returns is the one its own update produced (or, for post-increment/decrement, replaced), whatever other threads do in between and however often a weak compare-and-swap fails spuriously.",
  ["schedules", "histories", "programs", "fault_sequences"],
  "all interleavings of concurrent updates, reads and stores on one variable; every operation, element type and calling form; any pattern of spurious compare-and-swap failures",
  "The unit tests apply each operation from one thread only, and the multithreaded examples only compare one final total under whatever schedule the machine happens to run; retries and return values under contention are never checked.",
  [AT+"atomics.h", AT+"atomics-macro-class.h", AT+"atomics-macro-class-prepost.h", AT+"atomics-macro-function.h", AT+"atomics-macro-function-prepost.h", AT+"atomics-macro-member.h", AT+"atomics-macro-member-prepost.h", AT+"atomics-macro-operator.h", AT+"atomics-macro-operator-prepost.h"],
  [("compare-and-swap retry loop", AT+"atomics.h: internal::apply(strong|weak), internal::apply_pun"), ("type-punned compare-and-swap", AT+"atomics.h: punxstrong/punxweak")],
  [("old/neu/ret", "value read, value to publish, value to return", AT+"atomics.h apply()")],
  ["returned values and final value of an atomic<T,strong|weak|pun>"])
p("C02", "Native-scheme atomic updates are linearizable, returned value included",
  "An update through the native C++ scheme (integers and pointers: add, sub, and, or, xor, and the four increments/decrements) takes effect exactly once at a single instant between call and return. The value it returns is the one its own update produced (or, for post-forms, replaced), never a value made by another thread's update, also when mixed with compare-and-swap updates of the same variable.",
  ["schedules", "histories", "programs"],
  "all interleavings of concurrent native-scheme updates, mixed with compare-and-swap updates, loads and stores of the same variable",
  "Single-threaded tests cannot tell the value produced by the caller's own update from a later read of the variable.",
  [AT+"atomics.h", AT+"atomics-macro-class.h", AT+"atomics-macro-class-prepost.h"],
  [("std::atomic fetch_* / ++ / --", AT+"atomics-macro-class.h: operator()(STDATOMIC&,cpp)")])
p("C03", "Lock-scheme updates are linearizable and never leave a lock behind",
  "Updates made through the lock scheme to one variable (all updaters using that scheme) are linearizable, including returned values, and every such call releases what it acquired, so no sequence of calls deadlocks, also while another thread is preempted inside its update. Variables declared with different mutex numbers do not block each other.",
  ["schedules", "histories", "programs"],
  "all interleavings of lock-scheme updates on one or several variables of the same or different type or mutex number, including first use from several threads and threads stalled inside an update",
  "Contention on the hidden mutex, first-use races and stalled holders never occur in single-threaded unit tests.",
  [AT+"atomics.h"],
  [("per-type singleton mutex + lock_guard", AT+"atomics.h: singleton_mutex::instance, internal::apply(lock)")],
  [("singleton mutex", "one mutex per atomic<T,SCHEME,NMUX>", AT+"atomics.h")])
p("C04", "Atomic updates order memory as strongly as requested",
  "Data written before an update with release (or stronger) order is visible to any thread whose acquire (or stronger) update, or later read of that variable, observes that update's value; without an order argument every atomic scheme behaves sequentially consistently. When separate success and failure orders are given, a completed update has the success order.",
  ["schedules", "histories", "programs"],
  "all executions the C++ memory model allows (stale relaxed reads included) of publication, message-passing-chain and store-buffering programs built from these updates",
  "The test machine is x86, on which every read-modify-write is already a full barrier, so an order that is dropped or weakened cannot fail a test there.",
  [AT+"atomics.h", AT+"atomics-macro-function.h", AT+"atomics-macro-member.h", AT+"atomics-macro-class.h"],
  [("order arguments forwarded to compare_exchange / fetch_*", AT+"atomics.h apply(...)"), ("default memory_order_seq_cst", AT+"atomics.h apply(...)")])
p("C05", "Lock-free schemes make progress whatever other threads do",
  "An update through a compare-and-swap or native scheme completes in a bounded number of its own steps once no other thread is running, even if other threads are stopped forever in the middle of their own updates of the same variable. Spurious compare-and-swap failures delay but never block it, and whenever several threads contend some update completes.",
  ["schedules", "fault_sequences", "programs"],
  "every point at which one or more other threads may be suspended for good inside an update; any finite burst of spurious failures",
  "Tests never suspend a thread mid-update, so a hidden lock or a wait for another thread goes unnoticed.",
  [AT+"atomics.h"],
  [("optimistic retry loop without waiting", AT+"atomics.h apply(strong|weak|cpp)")])
p("C06", "An atomic update touches nothing but its own variable",
  "Concurrent updates of neighbouring atomic variables, of any element size and scheme, never change, lose or revert each other's values or adjacent ordinary data. Each variable's history is explained by the updates to that variable alone.",
  ["schedules", "programs", "inputs"],
  "all interleavings of updates to adjacent variables of every supported size (1 to 16 bytes), every scheme and operation",
  "Tests use isolated variables from one thread, so a wider-than-declared exchange or a shared scratch value is invisible.",
  [AT+"atomics.h"],
  [("pun type selected by exact size", AT+"atomics.h: atomics_make_apply"), ("object-sized compare_exchange", AT+"atomics.h")])
L = "ristra/embedded/embed_lua.h"
p("C10", "A failed Lua operation is reported and leaves the interpreter usable",
  "When a Lua operation fails at any point (script error, missing value, non-function called, missing table key, wrong result type or count, memory exhaustion inside the script), the C++ caller gets an exception, and afterwards the interpreter behaves exactly as if only the script's own completed effects had happened. Every later operation gives the same result as on an interpreter where the failed operation was never attempted, and no number of failures uses up interpreter resources.",
  ["histories", "fault_sequences", "inputs"],
  "all sequences of Lua calls, lookups, conversions and script loads, with an error or allocation failure at any VM instruction",
  "Tests run each operation once from a fresh interpreter and only check that a failure throws; what a failure leaves behind shows only in later operations.",
  [L], [("protected call + stack discipline", L+": lua_result_t, lua_t::run_string, operator()"), ("references held in the registry", L+": lua_ref_t")],
  [("Lua stack", "values left by an operation are visible to the next", L)])
p("C11", "Lua values held by C++ survive any collection and are released",
  "A Lua value, table element or function held by C++ (including one wrapped as a std::function) keeps denoting the same Lua object through any copies, assignments and garbage collections at any instant, for as long as some C++ handle to it exists, also after the variable it came from was reassigned. Once the last handle is gone, the object can be collected and its registry slot is reusable.",
  ["histories", "schedules", "fault_sequences"],
  "all histories of obtaining, copying, calling, dropping handles and reassigning variables, with collector steps or full collections at any point",
  "Unit tests hold a handle for a few lines and the collector never runs in between.",
  [L], [("shared registry reference", L+": lua_ref_t / std::shared_ptr deleter"), ("shared interpreter state", L+": lua_base_t")])
p("C12", "Loading a Lua script under file faults is all-or-error",
  "Loading a script file either runs the whole file or raises an error; if the file cannot be opened, read completely or parsed, none of it is executed and the values defined earlier are unchanged. After a failed load, a later load of a good file on the same interpreter succeeds completely.",
  ["fault_sequences", "histories"],
  "open failure, read error or end of data at any byte, short reads of any size, syntax errors, run-time errors at any instruction",
  "Tests load one good file from disk.",
  [L, "ristra/initialization/input.h"], [("loadfile status check", L+": lua_t::loadfile"), ("protected run of the chunk", L)])
I = "ristra/initialization/"
p("C20", "Inputs resolve to the right source in every history",
  "For every sequence of hard-coded values, Lua tables, target declarations, resolutions and re-resolutions, each declared input gets the value the Lua input supplies for its key (when there is a Lua input with that key) and otherwise the hard-coded value, and resolving again without changes gives the same answer. Resolution reports success exactly when every declared target got a value and otherwise names exactly the targets it could not resolve; an input that no source has provided yields an error, never a default value, and an instant lookup that no source can answer is an error too. A failure while resolving (a script that does not load, a value of the wrong type, a failed allocation or copy) is reported, leaves each input with its old or its new value, and the next undisturbed resolution is right.",
  ["histories", "inputs", "fault_sequences"],
  "all orders and repetitions of registration, declaration, resolution and retrieval, for all supported types, with a failing script, wrong type, allocation or copy at any point",
  "Tests resolve one fixed configuration once per process.",
  [I+"input_engine.h", I+"input_source.h", I+"input.h", I+"inputs_impl.h"],
  [("resolution walk over registered targets", I+"input_engine.h: resolve_inputs"), ("source precedence", I+"input_engine.h / input_source.h")],
  [("registries of targets, values, failures", "what has been declared, resolved, failed", I+"input_engine.h")])
p("C21", "A declared initial value is usable only after valid resolution",
  "An initial-value object yields a value only if resolution found one and its validity predicate accepts it; in every other state (unresolved, missing, rejected, or its predicate throws) asking for the value raises an error. Its answer does not depend on how often or in which order its status is queried.",
  ["histories", "fault_sequences"],
  "all sequences of queries, retrievals and resolutions; predicates that reject or throw at any call",
  "Tests query one object once after one resolution.",
  [I+"init_value.h", I+"input_engine.h"], [("cached status", I+"init_value.h")])
p("C22", "Each command line is processed on its own, as declared",
  "For every sequence of option registrations and processed command lines, each result holds exactly the options given on that command line with their values (long or short form, value joined or separate, in any order, among unknown options and extra words), gives the caller's default for every other option, and flags an error exactly when a value is missing, malformed, given to a flag, or an option is given twice. Processing quietly writes nothing; otherwise a help request or an error prints a usage text naming every option. Earlier command lines, failing output and failed allocations never change later results, and later ones never change earlier results.",
  ["histories", "inputs", "fault_sequences"],
  "all sequences of registrations and command lines, with a failed allocation or failing output at any point",
  "One test processes one command line once per process.",
  [I+"arguments.h"], [("option tables and parsing", I+"arguments.h: process_arguments"), ("values and defaults", I+"arguments.h: command_line_variables_t")])
U = "ristra/utils/"
p("C30", "String and utility functions may be called concurrently",
  "Threads that call the string and utility functions (splitting, joining, replacing, case conversion, path and file-name handling, error formatting, time formatting) at the same time on their own data each get exactly the result the call gives when it runs alone. No call influences another through hidden shared state.",
  ["schedules", "inputs"],
  "all interleavings of concurrent calls with independent arguments, down to individual memory accesses",
  "Every unit test is single-threaded.",
  [U+"string_utils.h", U+"time_utils.h", U+"trivial_string.h", U+"const_string.h", U+"algorithm.h", "ristra/assertions/errors.h", "ristra/assertions/here.h"],
  [("no shared mutable state", U+"string_utils.h")])
p("C31", "Math, geometry and element functions may be called concurrently",
  "Threads that evaluate vector, matrix, geometry and finite-element functions at the same time on their own data each get exactly the result the call gives when it runs alone. No call influences another through hidden shared state, lazily built tables or leftover memory.",
  ["schedules", "inputs"],
  "all interleavings of concurrent calls with independent arguments, including the very first call in the process",
  "Every unit test is single-threaded, and first use happens once.",
  ["ristra/math/general.h", "ristra/math/array.h", "ristra/math/matrix.h", "ristra/math/multi_array.h", "ristra/geometry/area.h", "ristra/geometry/centroid.h", "ristra/geometry/normal.h", "ristra/elements/elements.h", "ristra/elements/elements.cc"],
  [("value semantics, no globals", "ristra/math, ristra/geometry, ristra/elements")])
p("C32", "Contract failures are reported correctly from every thread",
  "When threads violate contract checks at the same time, each violation is reported in its own thread exactly once, as the configured action (exception or notice), with its own expression, location and message, a notice as one uninterrupted piece; and a satisfied check is never reported. A throwing check leaves later checks in any thread unaffected.",
  ["schedules", "histories"],
  "all interleavings of passing and failing checks of every kind, with either action, over any history of earlier failures",
  "Tests fail one check at a time in one thread.",
  ["ristra/assertions/dbc.h", "ristra/assertions/dbc_impl.h", "ristra/assertions/dbc_impl.cc", "ristra/assertions/errors.h", "ristra/assertions/exceptions.h"],
  [("per-call message assembly", "ristra/assertions/dbc_impl.cc"), ("runtime assertions", "ristra/assertions/errors.h")])
p("C33", "Objects a thread has for itself stay its own",
  "Separate objects (Lua interpreters with their values, input parameter tables, fixed-capacity vectors, timer sets, in-memory logs, command-line option tables) used by different threads at the same moment, or one after another in the same thread, never influence each other: every object's history gives exactly what the same history gives when it is the only one, including the first use in the process and objects created after others were destroyed.",
  ["schedules", "histories"],
  "all interleavings of independent objects' histories, down to individual memory accesses",
  "Every unit test is single-threaded and uses one object at a time.",
  ["ristra/embedded/embed_lua.h", I+"input.h", I+"arguments.h", U+"fixed_vector.h", "ristra/io/catalyst/utils/insituTimer.hpp", "ristra/io/catalyst/utils/insituLog.hpp"],
  [("state held per object, none shared", "ristra/embedded/embed_lua.h: lua_t, lua_result_t"), ("no function-local or global caches", U+"fixed_vector.h, "+I+"arguments.h")])
p("C40", "A fixed-capacity vector behaves as a vector under any history",
  "For every sequence of operations within its capacity, a fixed-capacity vector holds the same elements in the same order as a standard vector, also for element types that own resources. If copying or assigning an element throws during an operation, the vector stays valid (size within capacity, every element alive), an append leaves it unchanged, and later operations work. (The values of elements added by a resize without a value are unspecified.)",
  ["histories", "inputs", "fault_sequences"],
  "all operation sequences (insert, erase, push, pop, resize, assign, clear, compare) with an exception at any element copy, move or assignment",
  "Tests use one short sequence on ints and never throw.",
  [U+"fixed_vector.h"], [("length + fixed storage", U+"fixed_vector.h")])
p("C41", "Iteration helpers visit every element exactly once, in order",
  "The loop and zip helpers invoke the callback exactly once per element, in order, with references to the elements themselves; if a callback throws at some element, the exception reaches the caller, elements before it are processed exactly once and later ones are untouched. Nested and interleaved loops, from one or several threads, do not disturb each other.",
  ["histories", "schedules", "fault_sequences", "inputs"],
  "all range lengths, numbers of zipped ranges, nesting and throw points; concurrent loops over disjoint data",
  "Tests iterate a few fixed ranges with callbacks that never throw.",
  [U+"tasks.h", U+"zip.h", U+"zip_impl.h", U+"tuple_for_each.h", U+"static_for.h"],
  [("lock-step iterators", U+"zip_impl.h"), ("index loop", U+"tasks.h")])
Z = "ristra/io/catalyst/utils/"
p("C50", "Log files hold exactly what was logged, through disk faults",
  "A log written in one piece leaves the file holding exactly the text logged so far; one appended leaves the old content followed by exactly the new text, once and in order. A disk fault during one write never corrupts data already in the file from earlier completed appends, never affects the in-memory log, and does not stop later writes once the disk works again. Texts appended to one shared log by several threads each arrive whole and once, each thread's in order.",
  ["fault_sequences", "histories", "crash_points"],
  "all sequences and interleavings of logging, writing, appending and clearing with open failures, errors, short or interrupted writes at any byte, and a process crash inside any write",
  "There are no tests of the log helpers, and no test meets a failing disk.",
  [Z+"insituLog.hpp"], [("buffer + explicit flush", Z+"insituLog.hpp")])
p("C51", "File queries never give a wrong answer, whatever the disk does",
  "The file helpers answer for the real contents: files and images compare as identical only if they are (images in PNG or PNM form: at most 2 % of the values differ), an existing file is found, and the script list read from an input file is exactly the one it contains. When reading fails, or a file is cut short, the answer is an error or 'not identical', never a wrong 'identical' and never a wrong or partial list.",
  ["fault_sequences", "inputs", "histories"],
  "all file contents and sizes, with open failures, read errors, short or interrupted reads and truncation at any byte",
  "There are no tests of these helpers, and no test meets a failing disk.",
  [Z+"catalystUtils.hpp"], [("block-wise comparison", Z+"catalystUtils.hpp"), ("script list parsing", Z+"catalystUtils.hpp")])
p("C52", "Timers report the simulated time that passed, per named timer",
  "For every history of starts and stops of named timers, each timer's reported duration is the clock time between its own start and stop and is unaffected by other timers, by re-reading, or by adjustments of the wall clock. Starting a name again begins a new measurement. The wall-clock helper follows the system clock and reports an error when the clock cannot be read.",
  ["histories", "schedules", "fault_sequences"],
  "all interleavings of starts, stops and queries of several named timers on a clock that may jump",
  "No test controls the clock.",
  [Z+"insituTimer.hpp", U+"time_utils.h"], [("start/end points per name", Z+"insituTimer.hpp")])
p("C60", "A failing Python call is reported and leaves the interpreter clean",
  "When an embedded Python operation fails (missing module or attribute, a raising function, a result of the wrong type, failed memory allocation), the C++ caller gets an exception, no error stays pending in the interpreter and no object is leaked. Later operations then give the same results as if the failed one had not been attempted.",
  ["histories", "fault_sequences", "inputs"],
  "all sequences of imports, lookups, calls and conversions, with an exception or allocation failure at any point",
  "Tests make a few successful calls; leaked references and pending errors only affect later operations.",
  ["ristra/embedded/embed_python.h"], [("status checks after each call", "ristra/embedded/embed_python.h: python_check"), ("reference ownership", "ristra/embedded/embed_python.h")])
p("C70", "Process-wide instances are created once under concurrent first use",
  "When several threads use a process-wide service for the first time at the same moment (the input machinery, the command-line options, the per-type lock of the atomics), exactly one instance is created, every thread gets that same fully constructed instance, and nothing registered by any thread through its own later turn is lost.",
  ["schedules"],
  "all interleavings of the first use, down to individual memory accesses",
  "First use happens once per test process, in one thread.",
  [I+"input.h", I+"input_engine.h", I+"arguments.h", AT+"atomics.h"], [("function-local statics", I+"input.h, "+I+"arguments.h, "+AT+"atomics.h")])
# -- not decided by this technique
p("N01", "Numerical results of math, geometry and quadrature are correct",
  "Areas, centroids, normals, matrix inverses, determinants, quadrature and shape-function values agree with their mathematical definitions up to rounding.",
  ["inputs"], "all finite inputs", "Tests sample a few inputs.",
  ["ristra/math/matrix.h", "ristra/geometry/area_impl.h", "ristra/elements/elements.h"], [("closed-form formulas", "ristra/math, ristra/geometry, ristra/elements")])
p("N02", "Views and index types address exactly the elements they denote",
  "Every multi-dimensional array, view, slice and section maps each in-bounds index to exactly one distinct element of the underlying storage.",
  ["inputs"], "all ranks, bounds, strides and indices", "Tests sample a few shapes.",
  [U+"array_view.h", U+"array_ref.h", U+"dimensioned_array.h", "ristra/math/multi_array.h"], [("offset computation", U+"array_view_impl.h")])
p("N04", "In-situ adaptor output matches the simulation mesh",
  "What the Catalyst adaptor hands to the visualisation pipeline is the mesh and the fields of the simulation at that step.",
  ["inputs", "histories"], "all meshes and steps", "Not built: needs VTK/ParaView.",
  ["ristra/io/catalyst/adaptor.h"], [("VTK data objects", "ristra/io/catalyst")])
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P), "properties")
