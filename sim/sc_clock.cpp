// C17: the loop timestamp. One or more machines run turns while the simulated clock stalls, jumps, ticks coarsely and moves
// at every read, allocation and native call. The model knows only the clock and when turns begin.
#include "host.hpp"

#include <algorithm>
#include <deque>
using namespace sim;

namespace {

constexpr i64 MS = 1000000;

struct World;

struct Machine {
    World* w = nullptr;
    u32 id = 0;
    i64 created_lo = 0, created_hi = 0;
    std::unique_ptr<Vm> vm;
    // current turn
    bool in_turn = false;
    i64 entry_ns = 0;
    bool seen = false;
    i64 value = 0;
    i64 last_init = -1;
    // history
    i64 last = 0;
    u64 turns = 0;
    u64 marks = 0;
    bool fail_next = false;
    bool aborted = false;
    u32 modules_loaded = 0;
    u32 budget = 0; // worker steps left in the run
    std::deque<tiro_async_token_t> naps;
    u64 started = 0, completed = 0, lost = 0;
    // for natives that run a whole nested turn
    u32 depth = 0;
};

struct World {
    Stream* s;
    Stream* c;
    i64 true_ns = 0;
    i64 quantum = 1;
    u32 read_drift = 0;  // clock advance per read
    u32 style = 0;
    std::vector<std::unique_ptr<Machine>> machines;
    u32 native_depth = 0;
    u32 next_id = 0;

    void set() { clock_ns = true_ns / quantum * quantum; }

    void advance(i64 ns) {
        if (true_ns > (i64) 4e18 - ns)
            return;
        true_ns += ns;
        set();
        trace("clock +%lld ns", (long long) ns);
    }

    // Some kind of advance, drawn
    void pass() {
        switch (c->weighted({3, 3, 4, 3, 2, 2, 1, 1})) {
        case 0: fault("clock_stall"); break;
        case 1: advance(c->pick(1000)); break;                              // less than a microsecond
        case 2: advance(c->range(1, 999) * 1000 + c->pick(1000)); break;    // less than a millisecond
        case 3: advance(c->range(1, 40) * MS + c->pick(MS)); break;
        case 4: advance(c->range(1, 3600) * 1000 * MS + c->pick(MS)); break; // seconds to an hour
        case 5: advance(MS - true_ns % MS - c->pick(2)); break;              // onto or just before the next millisecond
        case 6:
            advance((i64) c->range(1, 5000) * 86400 * 1000 * MS); // days to years
            fault("clock_large_jump");
            break;
        case 7:
            wall_ns += c->chance(1, 2) ? -(i64) c->pick(2000000) * 1000 * MS : (i64) c->pick(2000000) * 1000 * MS;
            fault("wall_clock_jump");
            break;
        }
    }
};

World* world = nullptr;

void mark(Machine& m, i64 id, i64 ts, bool init) {
    SIM_CHECK(m.in_turn, "wrong-turn", "machine %u runs code outside of a turn", m.id);
    ++m.marks;
    if (init && id != m.last_init) { // every initializer may have a turn of its own
        m.last_init = id;
        m.seen = false;
    }
    SIM_CHECK(ts >= 0, "wrong-timestamp", "machine %u: negative loop timestamp %lld", m.id, (long long) ts);
    SIM_CHECK(ts >= m.last, "not-monotonic", "machine %u: the loop timestamp went from %lld to %lld", m.id, (long long) m.last, (long long) ts);
    if (m.seen) {
        SIM_CHECK(ts == m.value, "changed-in-turn", "machine %u: the loop timestamp changed from %lld to %lld within one turn (%s %lld)", m.id,
            (long long) m.value, (long long) ts, init ? "initializer" : "worker", (long long) id);
    } else {
        // elapsed time between the creation of the machine and some moment between the begin of the turn and now
        const i64 lo = (m.entry_ns - m.created_hi) / MS - 1;
        const i64 hi = (clock_ns - m.created_lo) / MS + 1;
        SIM_CHECK(ts >= lo && ts <= hi, "wrong-timestamp", "machine %u: the loop timestamp is %lld, but %lld to %lld ms passed since the machine was created", m.id,
            (long long) ts, (long long) lo + 1, (long long) hi - 1);
        m.seen = true;
        m.value = ts;
        sim_time((u64) (ts - m.last));
    }
    m.last = ts;
    trace("m%u %s %lld: %lld", m.id, init ? "init" : "mark", (long long) id, (long long) ts);
}

const char* source =
    "import std;\nimport host;\n"
    "func note(id) { host.mark(id, std.loop_timestamp()); return null; }\n"
    "export func worker(id) {\n"
    "  const read = std.loop_timestamp;\n"
    "  host.mark(id, read());\n"
    "  var going = true;\n"
    "  while going {\n"
    "    const before = std.loop_timestamp();\n"
    "    host.mark(id, before);\n"
    "    const what = host.next(id);\n"
    "    if what == 0 { going = false; }\n"
    "    if what == 1 { host.work(id); }\n"
    "    if what == 2 { std.dispatch(); host.mark(id, read()); }\n"
    "    if what == 3 { host.nap(id); }\n"
    "    if what == 4 { host.launch(id); std.launch(worker, host.fresh()); }\n"
    "    if what == 5 { std.catch_panic(func() { defer note(id); host.work(id); std.panic(\"x\"); }); }\n"
    "    if what == 6 { host.nested(id); }\n"
    "    if what == 7 { const b = []; for var k = 0; k < 30; k += 1 { b.append(\"x${k}\"); } }\n"
    "    if what == 8 { host.other(id); }\n"
    "    if what == 9 { host.abort(id); const x = [id]; host.survived(x); }\n"
    "    if what == 10 { const x = [std.loop_timestamp(), host.work(id), std.loop_timestamp()]; host.mark(id, x[0]); host.mark(id, x[2]); }\n"
    "    note(id);\n"
    "  }\n"
    "  return id;\n}\n";

void run_turn(Machine& m);
Machine& create(World& w);
void start(Machine& m);

struct Native {
    Machine& m;
    explicit Native(Machine& m)
        : m(m) {
        ++m.w->native_depth;
    }
    ~Native() { --m.w->native_depth; }
};

i64 int_arg(tiro_vm_t v, tiro_sync_frame_t f, size_t i) {
    Err e;
    H a(v);
    api::sync_frame_arg(f, i, a.get(), &e);
    expect_ok(e, "sync_frame_arg");
    SIM_CHECK(api::value_kind(v, a.get()) == TIRO_KIND_INTEGER, "wrong-timestamp", "expected an integer");
    return api::integer_value(v, a.get());
}

void return_int(tiro_vm_t v, tiro_sync_frame_t f, i64 x) {
    Err e;
    H a(v);
    api::make_integer(v, x, a.get(), &e);
    expect_ok(e, "make_integer");
    api::sync_frame_return_value(f, a.get(), &e);
    expect_ok(e, "sync_frame_return_value");
}

void finish_naps(Machine& m, u32 n) {
    while (n-- > 0 && !m.naps.empty()) {
        auto t = m.naps.front();
        m.naps.pop_front();
        H v(m.vm->vm);
        Err e;
        api::async_token_return_value(t, v.get(), &e);
        expect_ok(e, "async_token_return_value");
        api::async_token_free(t);
    }
}

void setup(Machine& m) {
    World& w = *m.w;
    Vm& vm = *m.vm;
    std::vector<std::pair<std::string, H>> f;
    auto sync = [&](const char* name, size_t argc, SyncFn fn) { f.emplace_back(name, make_sync(vm, name, argc, std::move(fn))); };
    sync("mark", 2, [&m](tiro_vm_t v, tiro_sync_frame_t f) { mark(m, int_arg(v, f, 0), int_arg(v, f, 1), false); });
    sync("init", 2, [&m](tiro_vm_t v, tiro_sync_frame_t f) {
        i64 id = int_arg(v, f, 0);
        mark(m, id, int_arg(v, f, 1), true);
        m.w->pass();
        return_int(v, f, id);
    });
    sync("next", 1, [&m, &w](tiro_vm_t v, tiro_sync_frame_t f) {
        Seg seg(*w.s);
        u32 what = 0;
        if (m.budget > 0 && w.s->chance(4, 5)) {
            --m.budget;
            what = 1 + w.s->weighted({5, 4, 4, 2, 2, 2, 2, w.machines.size() < 4 ? 3u : 1u, 1, 2});
        }
        return_int(v, f, what);
    });
    sync("work", 1, [&m, &w](tiro_vm_t v, tiro_sync_frame_t f) {
        w.pass();
        if (w.s->chance(1, 4))
            finish_naps(m, 1);
    });
    f.emplace_back("nap", make_async(vm, "nap", 1, [&m, &w](tiro_vm_t v, tiro_async_frame_t f) {
        Err e;
        auto t = api::async_frame_token(f, &e);
        expect_ok(e, "async_frame_token");
        api::async_frame_yield(f, &e);
        expect_ok(e, "async_frame_yield");
        m.naps.push_back(t);
    }));
    sync("launch", 1, [&m](tiro_vm_t, tiro_sync_frame_t) { ++m.started; });
    sync("fresh", 0, [&m](tiro_vm_t v, tiro_sync_frame_t f) { return_int(v, f, m.w->next_id++); });
    sync("nested", 1, [&m, &w](tiro_vm_t v, tiro_sync_frame_t f) {
        Err e;
        w.pass();
        api::vm_run_ready(v, &e);
        SIM_CHECK(!e.ok(), "nested-turn", "a nested turn of the same machine was accepted");
        fault("nested_turn_attempt");
        trace("m%u nested turn refused", m.id);
    });
    sync("other", 1, [&m, &w](tiro_vm_t, tiro_sync_frame_t) {
        w.pass();
        if (w.native_depth > 3)
            return;
        Native guard(m);
        std::vector<Machine*> idle;
        for (auto& o : w.machines)
            if (o.get() != &m && o->vm && !o->in_turn)
                idle.push_back(o.get());
        if (w.machines.size() < 4 && (idle.empty() || w.s->chance(1, 3))) {
            Machine& n = create(w);
            start(n);
            probe("machine_created_inside_turn");
        } else if (!idle.empty()) {
            Machine& o = *idle[w.s->pick(idle.size())];
            if (w.s->chance(1, 2))
                start(o);
            run_turn(o);
            probe("turn_inside_turn_of_other_machine");
        }
        w.pass();
    });
    sync("abort", 1, [&m](tiro_vm_t, tiro_sync_frame_t) {
        m.fail_next = true;
        m.w->pass();
    });
    sync("survived", 1, [](tiro_vm_t, tiro_sync_frame_t) { fail("wrong-turn", "a refused allocation went unnoticed"); });
    make_module(vm, "host", std::move(f));
    vm.load_source("prog", source);
    m.budget = 5 + w.s->pick(60);
}

Machine& create(World& w) {
    VmOptions o;
    o.page_size = (size_t) 1 << 16;
    auto mp = std::make_unique<Machine>();
    Machine& m = *mp;
    m.w = &w;
    m.id = w.machines.size();
    w.machines.push_back(std::move(mp));
    w.pass();
    m.created_lo = clock_ns;
    m.vm = std::make_unique<Vm>(o);
    m.created_hi = clock_ns;
    trace("m%u created", m.id);
    setup(m);
    return m;
}

void load_library(Machine& m) {
    // A module whose initializer reads the timestamp, importing another one
    u32 i = m.modules_loaded++;
    std::string imp = i % 2 ? strf("import lib%u;\n", i - 1) : "";
    m.vm->load_source(strf("lib%u", i), strf("import std;\nimport host;\n%sexport const a = host.init(%u, std.loop_timestamp());\nexport const b = host.init(%u, std.loop_timestamp());\n", imp.c_str(), i, i));
}

void begin_turn(Machine& m) {
    m.in_turn = true;
    m.entry_ns = clock_ns;
    m.seen = false;
    m.last_init = -1;
    m.aborted = false;
    ++m.turns;
    trace("m%u turn %llu", m.id, (unsigned long long) m.turns);
}

void end_turn(Machine& m, const Err& e) {
    m.in_turn = false;
    if (m.aborted) {
        SIM_CHECK(!e.ok() && e.code() == TIRO_ERROR_ALLOC, "unexpected-error", "machine %u: a refused allocation is reported as %s", m.id, e.str().c_str());
        ++m.lost;
        probe("turn_aborted");
    } else {
        expect_ok(e, "turn");
    }
}

void run_turn(Machine& m) {
    Err e;
    begin_turn(m);
    api::vm_run_ready(m.vm->vm, &e);
    end_turn(m, e);
}

void start(Machine& m) {
    H fn = m.vm->fn("prog", "worker");
    H coro(m.vm->vm), args(m.vm->vm), id(m.vm->vm);
    Err e;
    api::make_integer(m.vm->vm, m.w->next_id++, id.get(), &e);
    expect_ok(e, "make_integer");
    api::make_tuple(m.vm->vm, 1, args.get(), &e);
    expect_ok(e, "make_tuple");
    api::tuple_set(m.vm->vm, args.get(), 0, id.get(), &e);
    expect_ok(e, "tuple_set");
    api::make_coroutine(m.vm->vm, fn.get(), args.get(), coro.get(), &e);
    expect_ok(e, "make_coroutine");
    api::coroutine_set_callback(
        m.vm->vm, coro.get(),
        +[](tiro_vm_t, tiro_handle_t, void* ud) {
            InHost in;
            auto* m = static_cast<Machine*>(ud);
            ++m->completed;
            m->w->pass();
            if (m->budget > 0 && m->w->s->chance(1, 3)) { // more work for the same turn
                start(*m);
                probe("started_by_callback");
            }
        },
        (tiro_coroutine_cleanup_t) nullptr, (void*) &m, &e);
    expect_ok(e, "coroutine_set_callback");
    api::coroutine_start(m.vm->vm, coro.get(), &e);
    expect_ok(e, "coroutine_start");
    ++m.started;
}

} // namespace

SCENARIO(c17_clock, "C17.clock", "C17", 1) {
    World w;
    world = &w;
    w.s = &stream("ops");
    w.c = &stream("clock");
    Stream& k = stream("knobs");
    const i64 quanta[] = {1, 1000, MS, 10 * MS, 15625000, 1000 * MS, 60000 * MS};
    w.quantum = quanta[k.weighted({6, 2, 2, 2, 2, 1, 1})];
    probe("coarse_clock", w.quantum > MS);
    w.true_ns = std::vector<i64>{0, 1, 999999, 12345678901234, 1000 * MS}[k.pick(5)] + (i64) k.pick(2) * 3000000000000000000;
    w.set();
    const bool moves = k.chance(1, 2);
    on_clock_read = [&] {
        if (moves && w.c->chance(1, 3))
            w.pass();
    };
    const bool alloc_moves = k.chance(1, 3);
    u64 allocs = 0;
    on_heap_alloc = [&](void* heap, size_t) -> int {
        ++allocs;
        if (alloc_moves && allocs % 16 == 0)
            w.pass();
        for (auto& m : w.machines)
            if (m->vm && m->vm->heap == heap && m->fail_next) {
                m->fail_next = false;
                m->aborted = true;
                fault("allocation_refused");
                return 2;
            }
        return 0;
    };
    if (k.chance(1, 2))
        gc_setup("gc", GcMode::Gaps, 100, 100);

    create(w);
    const u32 steps = 4 + w.s->pick(30);
    for (u32 i = 0; i < steps; ++i) {
        Seg seg(*w.s);
        std::vector<Machine*> live;
        for (auto& m : w.machines)
            if (m->vm)
                live.push_back(m.get());
        if (live.empty()) {
            create(w);
            continue;
        }
        Machine& m = *live[w.s->pick(live.size())];
        switch (w.s->weighted({5, 4, 3, 2, 2, 1, 1, 1})) {
        case 0: run_turn(m); break;
        case 1: start(m); break;
        case 2: w.pass(); break;
        case 3: finish_naps(m, 1 + w.s->pick(3)); break;
        case 4: { // a request that runs initializers
            u32 n = 1 + w.s->pick(2);
            for (u32 j = 0; j < n; ++j)
                load_library(m);
            H h(m.vm->vm);
            Err e;
            begin_turn(m);
            api::vm_get_export(m.vm->vm, ts(strf("lib%u", m.modules_loaded - 1)), ts("b"), h.get(), &e);
            end_turn(m, e);
            probe("initializer_turn");
            break;
        }
        case 5:
            if (w.machines.size() < 4)
                create(w);
            break;
        case 6: gc_now(m.vm->heap); break;
        case 7: // an empty turn
            run_turn(m);
            run_turn(m);
            break;
        }
    }
    // Machines can give each other work, and create further machines
    bool busy = true;
    for (int round = 0; round < 3000 && busy; ++round) {
        busy = false;
        for (size_t i = 0; i < w.machines.size(); ++i) {
            Machine& m = *w.machines[i];
            if (!m.vm)
                continue;
            finish_naps(m, 100);
            if (!api::vm_has_ready(m.vm->vm) && m.naps.empty())
                continue;
            busy = true;
            w.pass();
            run_turn(m);
        }
    }
    u64 marks = 0;
    for (auto& m : w.machines) {
        SIM_CHECK(!api::vm_has_ready(m->vm->vm) && m->naps.empty(), "no-progress", "machine %u does not come to an end", m->id);
        marks += m->marks;
        stat("turns", m->turns);
        // release with the tokens of aborted coroutines
    }
    stat("marks", marks);
    on_heap_alloc = nullptr;
    on_clock_read = nullptr;
    for (auto& m : w.machines)
        m->vm->destroy();
    w.machines.clear();
    natives.sync.clear();
    natives.async.clear();
    natives.res.clear();
    arena_check();
    SIM_CHECK(mem.live_blocks == 0, "leak", "%s", arena_leaks(5).c_str());
}
