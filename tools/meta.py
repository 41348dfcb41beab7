"""Per property metadata: what one evaluation is, what is real and what is simulated."""

REAL = [
    "tiro compiler (lexer, parser, semantic analysis, IR passes, bytecode generation) from /repo's working tree",
    "tiro virtual machine (interpreter, coroutines, heap, collector, builtins, module loader) from /repo's working tree",
    "tiro C API (src/api), through which every scenario drives the system",
    "tiro C++ interface (include/tiropp), in the scenarios named *.cpp",
]
STUB = [
    "system allocator: deterministic arena with guard bytes, quarantine, layout randomisation and fault policy (malloc, free, aligned_alloc, operator new)",
    "clock: std::chrono::steady_clock::now is the simulator's clock",
    "garbage collection moments: extra collections at allocations, decided by the scheduler (guarded hooks in src/vm/heap)",
    "host application: generated driver that starts coroutines, completes asynchronous calls, holds handles",
]
ASSUMPTIONS = [
    "A clean batch of simulated runs is evidence, not proof: schedules, faults and programs are sampled from seeds.",
    "tiro is single threaded per virtual machine; interleavings are those of coroutines, host operations and several machines on one thread.",
    "Build: -O1 with assertions as in the repository's own build; TIRO_SIM_HOOKS adds collector seams only.",
]

PROPS = {
    "C01": {"rule": "Generated concurrent programs run in lockstep with a reference interpreter that has no heap, while collections are forced at scheduled allocations and freed cells are overwritten; a second scenario does the same to every operation of the standard library, with a reference model of the values."},
    "C02": {"rule": "Long histories of allocations and releases of every size, mirrored by a model that knows what is reachable; after collections the heap statistics must equal the reachable objects, garbage must never exhaust a limit that holds the live data, coroutines waiting in loops hold the same memory after any number of iterations, and destruction returns every byte."},
    "C03": {"rule": "Random host operations create, copy, release and collect native objects of all sizes; every finalizer call is checked against the object graph of the model; the same for C++ objects in tiro::native of the C++ interface: each is constructed and destroyed once, after its last use and before the userdata of its machine, whatever allocation is refused."},
    "C04": {"rule": "Heap limits and page sizes are drawn per run and the history is driven into the limit by the host and by scripts; memory taken from the system never exceeds the limit, failures are reported as allocation errors and the model still holds afterwards."},
    "C05": {"rule": "Operations run while the system allocator refuses memory at scheduled points; each either succeeds or reports an allocation failure and leaves the modelled objects as they were; the same for operations of scripts on containers and strings, which may fail in the middle of the main loop."},
    "C06": {"rule": "Generated programs with many coroutines, launches, yields, tokens and timers; every turn of the main loop is compared with a FIFO reference scheduler."},
    "C07": {"rule": "Asynchronous calls completed by the host in any order, with values and panics, early, late and after machine destruction, through the C and the C++ interface; completion tokens of all kinds are passed around, completed twice and too late, and only the token of the current suspension may resume a coroutine."},
    "C08": {"rule": "Completion callbacks with and without cleanup are registered, replaced, refused and invoked for coroutines that finish, panic, overflow, wait or are lost; callbacks use the API themselves; machines are destroyed at any moment; every call of a callback or cleanup is checked against the state of its coroutine; callback objects of the C++ interface are invoked and destroyed exactly once, also when registering them fails."},
    "C09": {"rule": "Generated nests of loops, defers, catches, panics, early exits and suspensions, compared step by step with a reference interpreter."},
    "C10": {"rule": "Generated resumable native functions take random state transitions, call scripts, natives, asynchronous and other resumable functions through several kinds of frames, return and panic; a model of every activation predicts state, arguments, closure, locals, call results and outcome at each entry."},
    "C11": {"rule": "Long operation histories on arrays, maps, sets, builders and records through the API and scripts, mirrored by sequential models and compared after every step; workers that share values of all kinds perform every operation of the library (iteration under modification, methods as values, wrong instances, panics in the middle), each outcome is the one of a reference model; containers of more than 2^16 entries pass through every size class.", "quick_time": 45},
    "C12": {"rule": "Two or three machines, each with its own reference, driven in a scheduled interleaving with failing, exhausted and destroyed other machines."},
    "C13": {"rule": "Handles are allocated, assigned, copied and freed in random order with collections and failures in between; every handle is compared with the model; the same for tiro::handle and its typed subclasses: copies, moves, casts, self-assignment and handles that outlive failed calls; freed handles are reused before memory for more is requested."},
    "C14": {"rule": "Generated graphs of modules with initializers, imports, missing dependencies, cycles and failing initializers are loaded, requested and used in random order, from the host and from running natives, by one or two machines; a model of the registry predicts every outcome, the order of initializers and every exported value."},
    "C15": {"rule": "Generated, handwritten and mutated sources are compiled several times in one run: at shifted addresses, with other dumps requested, with allocations refused at scheduled points, with message callbacks that abort or use the API, nested in the callback of another compilation and inside a running machine; all outcomes must agree with the first, a module exists exactly if the run reported success, and all memory is returned at whatever stage the compiler is released.",
            "assumptions": ["Allocations inside of absl hash tables and inside the destructor of nlohmann::json are never refused: these dependencies are not safe against that."]},
    "C16": {"rule": "Generated chains of functions with different frame layouts (parameters, locals, closures, catch and native frames, bound methods, handlers, loops, varargs) recurse to scheduled depths, suspend, panic or never stop while collections are forced; results come from a model without a stack, endless recursion must be reported exactly once, and long loops must leave live memory unchanged."},
    "C17": {"rule": "One to four machines run turns, nested turns of other machines and initializer requests while a simulated monotonic clock stalls, jumps, ticks coarsely and moves at reads, allocations and native calls and the wall clock jumps; every timestamp a script reads is compared with the clock model: fixed within a turn, monotonic, within a millisecond of the elapsed time."},
    "C18": {"rule": "Wrong kinds, indices, null pointers and states are passed to the API between valid operations; the documented error must be reported and the object graph must be unchanged. Every function of the interface is called with one argument missing, of the wrong kind, out of range or in a state that does not permit it, from the host, from natives of every kind and from callbacks, with error slots absent, empty or occupied; error code, results, ready queue and the contents of all objects are compared."},
    "C19": {"rule": "The runner's real main() reads generated source files from a simulated file system (short reads, transient and lasting read errors, interrupted reads, files that cannot be opened, vanish, grow while they are read or report a wrong or absurd size), writes to a simulated stdout that fills up, and compiles while allocations are refused; what was executed must be exactly the complete files or nothing, and the exit status must be 0 exactly if all that was requested succeeded."},
    "C20": {"rule": "Generated programs that suspend inside every kind of expression and loop, compared with the uninterrupted reference semantics; workers that suspend in the middle of literals, calls, iterations and deferred statements while others change the same values."},
}

HOOK_COMMITS = ["0182ee5"]
TECHNIQUE = "deterministic simulation with fault injection: seeded schedule search against an executable reference model, replayable minimised traces"
NOTE = ("Sampled, not exhaustive: seeded runs of the real compiler and virtual machine inside a simulator that owns memory, clock, "
        "collector moments, host scheduling and faults; every violation is replayed in a fresh process before it is reported.")

NOT_APPLICABLE = {
    "C30": "Parsing is a pure function of the source text: no schedule, clock, fault or interleaving can influence it (refused memory while compiling is covered by C05 and C15).",
    "C31": "Code generation for a sequential program is a pure function of the source; only its combination with suspension, collection and unwinding meets nondeterminism, and that is decided under C01, C09 and C20.",
    "C32": "Bytecode verification is a pure function of the bytecode module.",
    "C33": "Arithmetic, comparison and hashing are pure functions of their operands.",
    "C34": "Formatting and disassembly are pure functions of their input (their independence from memory addresses is decided under C15).",
}
