"""What each check builds and runs."""
import os, glob
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
H = os.path.join(VERIF, "harness")

INSTR = "-std=gnu++17 -O1 -fsanitize=thread -D_GLIBCXX_EXTERN_TEMPLATE=0 -w".split()
PLAIN = "-std=gnu++17 -O1 -w".split()
SIMF = "-std=gnu++17 -O2 -fno-threadsafe-statics -w".split()

# group -> list of (source, flags) ; link flags
def src(*names): return [os.path.join(H, n) for n in names]
GROUPS = {
  "atomics": dict(
    instr=sorted(glob.glob(os.path.join(H, "atomics_k_*.cc"))), instr_flags="-std=gnu++17 -O1 -fsanitize=thread -w".split(),
    plain=src("atomics.cc"), link=["-pthread", "-ldl"]),
  "reent": dict(
    instr=src("reent_str.cc", "reent_math.cc", "reent_math2.cc", "reent_geom.cc", "reent_geom2.cc", "reent_elem.cc", "reent_err.cc", "reent_once.cc", "reent_own.cc") + sorted(glob.glob(os.path.join(H, "reent_dbc_*.cc"))),
    repo_instr=["ristra/elements/elements.cc", "ristra/assertions/dbc_impl.cc"],
    plain=src("reent.cc"), inc=["-I/usr/include/lua5.3"], link=["-pthread", "-ldl", "-llua5.3", "-lboost_program_options"]),
  "cont": dict(plain=src("cont.cc"), plain_flags="-std=gnu++17 -O1 -w -D_GLIBCXX_ASSERTIONS".split(), instr=src("cont_loops.cc"), link=["-pthread", "-ldl"]),
  "io": dict(plain=src("io.cc", "io_files.cc"), plain_flags="-std=gnu++17 -O1 -w -fno-threadsafe-statics".split(), instr=src("io_log.cc", "io_timer.cc"), link=["-pthread", "-ldl"]),
  "python": dict(plain=src("python.cc"), plain_flags="-std=gnu++17 -O1 -w".split(), inc=["-I/usr/include/python3.12"], link=["-pthread", "-ldl", "-lpython3.12"] + ["-Wl,--wrap=" + f for f in "PyUnicode_DecodeFSDefault PyImport_Import PyLong_FromLong PyFloat_FromDouble PyTuple_New PyNumber_Long PyObject_GetAttrString PyObject_CallObject PyList_Insert PySys_GetObject PySys_SetObject PyTuple_SetItem PyTuple_GetItem".split()]),
  "input": dict(plain=src("input.cc"), plain_flags="-std=gnu++17 -O1 -w -D_GLIBCXX_ASSERTIONS".split(), repo_instr=["ristra/assertions/dbc_impl.cc"], repo_instr_flags=PLAIN, inc=["-I/usr/include/lua5.3"], link=["-pthread", "-ldl", "-llua5.3"]),
  "args": dict(plain=src("args.cc"), plain_flags="-std=gnu++17 -O1 -w -D_GLIBCXX_ASSERTIONS".split(), link=["-pthread", "-ldl", "-lboost_program_options"]),
  "lua": dict(plain=src("lua.cc"), plain_flags="-std=gnu++17 -O1 -w -D_GLIBCXX_ASSERTIONS".split(), inc=["-I/usr/include/lua5.3"],
    link=["-pthread", "-ldl", "-llua5.3"] + ["-Wl,--wrap=" + f for f in "luaL_newstate lua_close lua_pushlstring lua_pushstring luaL_ref lua_getglobal lua_getfield lua_gettable lua_createtable lua_pushcclosure lua_tolstring lua_pcallk luaL_loadstring luaL_loadbufferx lua_checkstack".split()]),
}

SCHED = "every shared memory access, atomic operation and lock operation of the instrumented library code is a scheduling point; a seeded scheduler (random walk, PCT priorities or few preemptions, chosen per run) decides who runs"
REAL_AT = ["ristra/atomics/src/*.h (all of it)", "libstdc++ std::atomic / std::mutex wrappers"]
STUB_AT = ["hardware atomic instructions and pthread mutexes (performed by the simulator)", "thread scheduling"]
PROPS = {
  "C01": dict(group="atomics", quick=240000, thorough=6000000, faults="schedule, spurious weak compare-and-swap failures",
    rule="a run is one generated program (2-4 threads, up to 9 updates/loads/stores on 1-2 variables of a random type and scheme, every call form) under one seeded schedule; non-trivial: at least two operations of different threads on one variable overlapped; distinct by the hash of the sequence of (thread, access kind, object, switch) events",
    real=REAL_AT, stub=STUB_AT, oracle="linearizability of returned values and final value against a sequential model of each operation"),
  "C02": dict(group="atomics", quick=240000, thorough=6000000, faults="schedule, spurious weak compare-and-swap failures",
    rule="as C01 with native-scheme variables, or native-scheme overrides, on integer and pointer types mixed with compare-and-swap updates",
    real=REAL_AT, stub=STUB_AT, oracle="linearizability of returned values and final value against a sequential model of each operation"),
  "C03": dict(group="atomics", quick=200000, thorough=5000000, faults="schedule, thread suspended inside its update",
    rule="lock-scheme updates on 1-3 variables; in part of the runs thread 0 is suspended for good inside an update of a variable with another mutex number; non-trivial: overlapping operations of different threads on one variable",
    real=REAL_AT, stub=STUB_AT, oracle="linearizability, deadlock freedom, every lock released at quiescence, independence of mutex numbers"),
  "C04": dict(group="atomics", quick=240000, thorough=6000000, faults="schedule, stale loads allowed by the C++ memory model, spurious failures",
    rule="message passing, transitive chain, contended publication, store buffering and IRIW programs built from random update forms and orders; non-trivial: the publication was observed, or a store-buffering/IRIW program completed",
    real=REAL_AT, stub=STUB_AT + ["memory system (view-based C++ memory model with vector clocks)"], oracle="happens-before of published data; absence of non-sequentially-consistent outcomes with default orders"),
  "C05": dict(group="atomics", quick=160000, thorough=4000000, faults="threads suspended for good inside an update, spurious failures, schedule",
    rule="2-4 threads updating one variable, threads suspended at random points inside their update until all others are done; non-trivial: overlapping operations",
    real=REAL_AT, stub=STUB_AT, oracle="every unsuspended operation completes within 4000 own steps once alone; nobody blocks on a suspended thread; global step cap"),
  "C06": dict(group="atomics", quick=200000, thorough=5000000, faults="schedule, spurious failures",
    rule="2-5 adjacent variables of one random kind, with or without ordinary data between them, updated by 2-4 threads; non-trivial: every such run",
    real=REAL_AT, stub=STUB_AT, oracle="per-variable linearizability; ordinary neighbours equal to what their only writer left; guard bytes intact"),
}

REAL_RE = ["ristra/utils, ristra/math, ristra/geometry, ristra/elements, ristra/assertions (instrumented)", "libstdc++ string and stream templates (instrumented)"]
STUB_RE = ["thread scheduling, pthread mutexes, local-static guards", "std::cerr / std::cout / stdout sinks (record each piece and its writer)"]
PROPS.update({
  "C30": dict(group="reent", quick=100000, thorough=1200000, faults="schedule",
    rule="2-4 threads make 2-6 calls drawn from the catalogue of string and utility functions with arguments of their own; most runs concentrate on one or two functions; non-trivial: calls of different threads overlapped",
    real=REAL_RE, stub=STUB_RE, oracle="each call's serialised result, including exceptions, against the same call executed alone in a copy of the fresh process"),
  "C31": dict(group="reent", quick=100000, thorough=1200000, faults="schedule, uninitialised memory with arbitrary content",
    rule="as C30 over the math, geometry and element catalogue; objects live in memory with arbitrary old content that differs between the two executions",
    real=REAL_RE, stub=STUB_RE, oracle="bit-wise equality with the same call executed alone in a copy of the fresh process"),
  "C32": dict(group="reent", quick=100000, thorough=1200000, faults="schedule, violated contracts",
    rule="2-4 threads run passing and failing checks of every kind under the throwing, notifying, ignoring and disabled configurations, and the error macros; non-trivial: checks of different threads overlapped",
    real=REAL_RE, stub=STUB_RE, oracle="count, kind, location, text and atomicity of each report; equality with the report the check gives alone"),
  "C33": dict(group="reent", quick=60000, thorough=900000, faults="schedule, failing operations",
    rule="2-4 threads each run a history of their own on objects of their own: Lua interpreters (also several per thread, reborn ones, handles outliving the interpreter object), fixed-capacity vectors, timers, in-memory logs, option tables with malformed command lines; non-trivial: histories of different threads overlapped",
    real=["ristra/embedded/embed_lua.h, ristra/initialization/input.h and arguments.h, ristra/utils/fixed_vector.h, ristra/io/catalyst/utils (instrumented)", "the Lua 5.3 interpreter and boost::program_options (not instrumented: no scheduling points inside)"], stub=STUB_RE, oracle="each step's serialised outcome, including exceptions and their text, against the same history executed alone in a copy of the fresh process"),
  "C70": dict(group="reent", quick=120000, thorough=2000000, faults="schedule, allocation failures during creation",
    rule="2-4 threads make the first use of input_t, a typed registry, the hard-coded data registry or the lazily created lock; non-trivial: two first uses overlapped",
    real=["ristra/initialization/*.h, ristra/atomics (instrumented)"], stub=STUB_RE, oracle="one address per instance, nothing registered gets lost, updates through a lazily created lock all count"),
})

REAL_LUA = ["ristra/embedded/embed_lua.h", "ristra/initialization/input.h and input_source.h (C12)", "the Lua 5.3 interpreter"]
STUB_LUA = ["Lua's memory allocator (every block moves on growth, old memory is overwritten)", "std::cerr / std::cout sinks"]
PROPS.update({
  "C10": dict(group="lua", quick=60000, thorough=3000000, faults="error at any VM instruction, memory exhaustion inside scripts (transient or lasting), stack that cannot grow, no interpreter state, collections",
    rule="2-10 operations (scripts of up to 6 statements, typed lookups, element accesses, calls with every argument and result form, held handles, wrapped functions, strict globals; some repeated 24-60 times) on one interpreter; non-trivial: at least one operation failed and at least one succeeded",
    real=REAL_LUA, stub=STUB_LUA, oracle="executable model of the globals and functions: outcome of each operation, state equal to the model's (after an injected fault: to that of some completed prefix), no growth of stack, registry or memory with repetition, caller's own stack values intact"),
  "C11": dict(group="lua", quick=100000, thorough=4000000, faults="full collections at any VM instruction or allocating API call",
    rule="3-24 operations on 5 handles, 3 std::function wrappers and 4 variables over closures, tables, sub-tables and strings; non-trivial: a handle or wrapper was used",
    real=REAL_LUA, stub=STUB_LUA, oracle="model of which object each handle denotes; finaliser record: never collected while held, collected once unheld; registry and memory back to their initial size"),
  "C12": dict(group="lua", quick=60000, thorough=3000000, faults="open failure, read error at any read, short reads, files cut at any byte, errors and memory exhaustion while running",
    rule="2-10 loads of generated files through lua_t::loadfile, input_t::load and lua_source_t, mixed with other operations; non-trivial: at least one operation failed and at least one succeeded",
    real=REAL_LUA, stub=STUB_LUA + ["fopen/fread path for the script files (real scratch files behind a fault layer)"], oracle="as C10; after a file fault nothing of the file has run"),
})

REAL_IN = ["ristra/initialization/*.h", "ristra/embedded/embed_lua.h", "the Lua 5.3 interpreter"]
STUB_IN = ["operator new (may fail)", "std::cout / std::cerr / stdout sinks"]
PROPS.update({
  "C20": dict(group="input", quick=150000, thorough=2500000, faults="failed allocations, value copies that throw, Lua inputs that do not load, Lua values of the wrong type",
    rule="8-45 operations (setting, changing and removing hard-coded values and sources, loading Lua inputs, registering Lua keys and tables, declaring, resolving, re-resolving, retrieving, instant values, clearing, kept functions) on two engines over nine value types; non-trivial: at least one resolution ran",
    real=REAL_IN, stub=STUB_IN, oracle="executable model of sources, precedence and registries; after a fault each input has its old or its new value or none, and after the next undisturbed resolution exactly the right one"),
  "C21": dict(group="input", quick=150000, thorough=2500000, faults="predicates that throw, failed allocations, value copies that throw, Lua inputs that do not load",
    rule="as C20 with four initial-value objects whose status and value are queried in random order between changes, resolutions and faults; non-trivial: at least one resolution ran",
    real=REAL_IN, stub=STUB_IN, oracle="a value is given exactly when the model has one and the predicate accepts it; resolved() and valid() agree with the model whatever was asked before"),
})

PROPS.update({
  "C22": dict(group="args", quick=200000, thorough=2000000, faults="failed allocations, output that cannot be written, malformed command lines",
    rule="3-18 operations on one option table (an own one or the process-wide one): registering options of every kind along the way, groups, command lines of 0-5 items in every form (long, short, abbreviated, joined or separate value, unknown options, extra words, missing, malformed or repeated values), usage messages, a fresh table; non-trivial: at least two command lines were processed",
    real=["ristra/initialization/arguments.h", "boost::program_options"], stub=["operator new (may fail)", "std::cout / std::cerr sinks (may fail)"], oracle="the options each generated command line contains, by construction; after a fault an exception, a flagged error or the right answer, and later lines are unaffected"),
})
PROPS.update({
  "C40": dict(group="cont", quick=300000, thorough=10000000, faults="element copies, moves and assignments that throw, failed allocations",
    rule="2-40 operations on two vectors of one of seven element type/capacity combinations; non-trivial: at least one operation was applicable",
    real=["ristra/utils/fixed_vector.h", "ristra/utils/algorithm.h"], stub=["element type (owns a heap cell, checks its lifetime, fails on demand)", "operator new (may fail)"], oracle="std::vector with the same history; after a failure a valid vector, unchanged by appends, with every element alive; live elements counted"),
  "C41": dict(group="cont", quick=150000, thorough=3000000, faults="callbacks that throw at any element, schedule",
    rule="1-3 threads run 1-3 loops each over ranges of 0-14 elements with up to two nested loops inside callbacks; non-trivial: at least one loop finished",
    real=["ristra/utils/tasks.h, zip.h, zip_impl.h, static_for.h, tuple_for_each.h, tuple_visit.h, tuple_zip.h (instrumented)"], stub=["thread scheduling"], oracle="addresses, order and number of the calls; hits per element; exception identity"),
})

STUB_IO = ["open/read/write/writev/fopen/fwrite (real scratch files behind a fault layer)", "thread scheduling", "std::cout sink"]
PROPS.update({
  "C50": dict(group="io", quick=100000, thorough=3000000, faults="open failures, write errors, short and interrupted writes, process crash inside a write, schedule",
    rule="1-3 threads make 2-14 logging, writing, appending, renaming and clearing calls with texts of 0-20000, now and then up to 200000 bytes, of any content on own files and one shared log; non-trivial: every run",
    real=["ristra/io/catalyst/utils/insituLog.hpp (instrumented)", "libstdc++ file streams"], stub=STUB_IO, oracle="byte-exact file contents; after a fault old content plus a beginning of the new; in-memory log; whole texts in order in the shared log"),
  "C51": dict(group="io", quick=60000, thorough=2000000, faults="open failures, read errors, short and interrupted reads, files cut before or while they are read",
    rule="5-15 operations creating, copying, changing, cutting and comparing files of 0-30000, now and then up to 200000 bytes, script lists and images (PNM, PNG, whole or cut); non-trivial: at least one query ran",
    real=["ristra/io/catalyst/utils/catalystUtils.hpp with its json and image readers", "libstdc++ file streams"], stub=STUB_IO, oracle="comparison of the real contents; under faults never a wrong 'identical', never a wrong or partial list"),
  "C52": dict(group="io", quick=150000, thorough=4000000, faults="wall clock jumps, failing clock calls, schedule",
    rule="1-2 threads make 3-40 starts, stops, reads, waits and copies on own timer sets with four names on a simulated clock; non-trivial: every run",
    real=["ristra/io/catalyst/utils/insituTimer.hpp, ristra/utils/time_utils.h (instrumented)"], stub=["clock_gettime, gettimeofday, time (simulated clock)", "thread scheduling"], oracle="elapsed simulated time between own start and stop"),
})

PROPS.update({
  "C60": dict(group="python", quick=60000, thorough=1500000, faults="every Python C-API call of the library fails for lack of memory, scripts that raise at any of their steps",
    rule="5-42 operations (scripts, imports, path changes, attribute lookups, calls with 0-3 arguments of every form, conversions, tuple accesses, frees; some repeated 40 times) on five held objects; non-trivial: at least one operation failed and at least one succeeded",
    real=["ristra/embedded/embed_python.h", "the CPython 3.12 interpreter"], stub=["C-API calls of the library (real calls behind a fault layer)", "sys.stdout / sys.stderr, std::cerr sinks"], oracle="executable model of globals, log, sys.path and held objects: outcome and value of each operation, no pending error, reference counts unchanged, no growth of live memory blocks with repetition"),
})
