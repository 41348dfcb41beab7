// Scenarios based on generated concurrent programs.
#include "prog.hpp"

#include <algorithm>
using namespace sim;
using namespace sim::prog;

static VmOptions random_vm(Stream& s) {
    VmOptions o;
    o.page_size = (size_t) 1 << (16 + s.pick(5));
    o.stack_trace = s.chance(1, 6);
    return o;
}

static void random_gc(Stream& k) {
    u32 gap = std::vector<u32>{150, 30, 7, 2, 1}[k.pick(5)];
    gc_setup("gc", GcMode::Gaps, gap, gap < 5 ? 3000 : 400);
}

// C01: arbitrary programs, collections at arbitrary allocations
SCENARIO(c01_programs, "C01.programs", "C01", 6) {
    Stream& k = stream("knobs");
    Config c = random_config(k);
    VmOptions o = random_vm(k);
    random_gc(k);
    lockstep(c, o, "divergence");
}

// C06: scheduling: many coroutines, tokens, launches
SCENARIO(c06_programs, "C06.programs", "C06", 3) {
    Stream& k = stream("knobs");
    Config c = random_config(k);
    c.suspend = c.launch = true;
    c.w_suspend = 4 + k.pick(4);
    c.w_container = k.pick(2);
    c.containers = c.w_container > 0;
    c.max_ops = 40;
    VmOptions o = random_vm(k);
    if (k.chance(1, 3))
        random_gc(k);
    lockstep(c, o, "schedule");
}

// C07: asynchronous calls completed in any order, with values and panics
SCENARIO(c07_programs, "C07.programs", "C07", 2) {
    Stream& k = stream("knobs");
    Config c = random_config(k);
    c.suspend = c.panics = true;
    c.w_suspend = 5;
    c.max_ops = 40;
    VmOptions o = random_vm(k);
    if (k.chance(1, 3))
        random_gc(k);
    lockstep(c, o, "async-result");
}

// C09: defers, catches and panics
SCENARIO(c09_programs, "C09.programs", "C09", 8) {
    Stream& k = stream("knobs");
    Config c = random_config(k);
    c.panics = c.defers = true;
    c.w_defer = 3 + k.pick(4);
    c.w_catch = 3 + k.pick(4);
    c.w_suspend = k.pick(4);
    c.suspend = c.w_suspend > 0;
    c.w_container = k.pick(2);
    c.containers = c.w_container > 0;
    c.w_loop = 2 + k.pick(2);
    c.depth = 3;
    VmOptions o = random_vm(k);
    if (k.chance(1, 4))
        random_gc(k);
    lockstep(c, o, "unwinding");
}

// C20: computations interrupted by suspensions everywhere
SCENARIO(c20_programs, "C20.programs", "C20", 6) {
    Stream& k = stream("knobs");
    Config c = random_config(k);
    c.suspend = c.closures = c.callbacks = true;
    c.w_suspend = 5 + k.pick(6);
    c.w_loop = 2 + k.pick(2);
    c.w_defer = k.pick(2);
    c.w_catch = k.pick(2);
    c.depth = 3;
    c.max_ops = 50;
    VmOptions o = random_vm(k);
    if (k.chance(1, 4))
        random_gc(k);
    lockstep(c, o, "computation");
}

// C12: several machines, each with its own reference, driven in any interleaving; other machines come, fail,
// exhaust their heap and go in between.
static void bully(Stream& k) {
    Seg seg(k);
    VmOptions o;
    o.page_size = 1 << 16;
    switch (k.weighted({2, 3, 3, 2, 2})) {
    case 0:
        trace("compile garbage");
        compile("bad", k.chance(1, 2) ? "func f( { return" : "export func f() { return undefined_name; }");
        fault("failed_compilation");
        break;
    case 1: {
        trace("exhaust another machine");
        o.max_heap = (size_t) (1 + k.pick(4)) << 20;
        Vm v(o);
        v.load_source("bomb", "import std; export func f() { const a = []; while true { a.append(std.new_buffer(1000 + a.size())); } }\n"
                              "export func g() { var s = \"x\"; while true { s = \"${s}${s}\"; if s.size() == 0 { return s; } } }");
        {
            H fn = v.fn("bomb", k.chance(1, 2) ? "f" : "g");
            H co(v);
            Err e;
            api::make_coroutine(v, fn, nullptr, co.get(), &e);
            expect_ok(e, "make_coroutine");
            api::coroutine_start(v, co, &e);
            expect_ok(e, "coroutine_start");
            api::vm_run_ready(v, &e);
            check_not_assert(e, "vm_run_ready");
            SIM_CHECK(mem.aligned_bytes > 0, "setup", "no memory");
        }
        fault("heap_exhausted");
        break;
    }
    case 2: {
        trace("destroy a machine with pending work");
        auto v = std::make_unique<Vm>(o);
        v->load_source("w", "import std; export func f() { std.dispatch(); std.yield_coroutine(); return 1; }");
        {
            H fn = v->fn("w", "f");
            H co(*v);
            Err e;
            u32 n = 1 + k.pick(4);
            for (u32 i = 0; i < n; ++i) {
                api::make_coroutine(*v, fn, nullptr, co.get(), &e);
                expect_ok(e, "make_coroutine");
                api::coroutine_start(*v, co, &e);
                expect_ok(e, "coroutine_start");
            }
            if (k.chance(1, 2)) {
                api::vm_run_ready(*v, &e);
                expect_ok(e, "vm_run_ready");
            }
        }
        v->destroy();
        fault("machine_destroyed_with_pending_work");
        break;
    }
    case 3: {
        trace("panic and failing module in another machine");
        Vm v(o);
        Compiled m = compile("m", "import std; import nowhere; export func f() { return 1; }");
        Err e;
        SIM_CHECK(m.module != nullptr, "setup", "does not compile");
        v.load(m.module);
        api::module_free(m.module);
        {
            H fn(v);
            api::vm_get_export(v, ts("m"), ts("f"), fn, &e);
            SIM_CHECK(!e.ok(), "missing-import", "a module with a missing import was initialized");
            check_not_assert(e, "vm_get_export");
        }
        fault("failing_module");
        break;
    }
    default: {
        trace("machine creation refused");
        tiro_vm_settings_t st;
        api::vm_settings_init(&st);
        st.page_size = 1 << 16;
        oom_after = (i64) k.pick(400);
        oom_count = 1;
        Err e;
        tiro_vm_t v = api::vm_new(&st, &e);
        oom_reset();
        if (v)
            api::vm_free(v);
        else
            fault("machine_creation_failed");
        break;
    }
    }
}

SCENARIO(c12_machines, "C12.machines", "C12", 6) {
    Stream& k = stream("knobs");
    Stream& sched = stream("sched");
    {
        const u32 n = 2 + k.pick(2);
        std::vector<std::unique_ptr<Lockstep>> ms;
        for (u32 i = 0; i < n; ++i) {
            Config c = random_config(k);
            c.stmts = std::min(c.stmts, 5u);
            if (i == 1 && k.chance(1, 2)) {
                // the same sources in two machines
            }
            ms.push_back(std::make_unique<Lockstep>(c, random_vm(k), "interference", strf("%u", i)));
        }
        if (k.chance(1, 2))
            random_gc(k);
        // Native functions of a running machine drive the other ones.
        std::vector<Lockstep*> active;
        auto drive = [&](Lockstep* m) {
            active.push_back(m);
            m->step();
            active.pop_back();
        };
        struct Reset {
            ~Reset() { in_native = nullptr; }
        } reset;
        u32 budget = 0;
        if (k.chance(1, 2)) {
            budget = 1 + k.pick(40);
            in_native = [&] {
                if (active.empty() || !budget || !sched.chance(1, 3))
                    return;
                --budget;
                Seg seg(sched);
                std::vector<Lockstep*> idle;
                for (auto& m : ms)
                    if (std::find(active.begin(), active.end(), m.get()) == active.end())
                        idle.push_back(m.get());
                fault("driven_from_native_of_other_machine");
                if (idle.empty() || sched.chance(1, 6))
                    bully(sched);
                else
                    drive(idle[sched.pick((u32) idle.size())]);
            };
        }
        const u32 ops = 10 + k.pick(50);
        for (u32 i = 0; i < ops && !ms.empty(); ++i) {
            Seg seg(sched);
            u32 w = sched.weighted({12, 2, 1});
            if (w == 0) {
                drive(ms[sched.pick((u32) ms.size())].get());
            } else if (w == 1) {
                bully(sched);
            } else if (ms.size() > 1 && sched.chance(1, 4)) {
                u32 j = sched.pick((u32) ms.size());
                ms[j]->destroy();
                ms.erase(ms.begin() + j);
                fault("machine_destroyed_midway");
            }
        }
        for (auto& m : ms)
            m->drain();
        while (!ms.empty()) {
            u32 j = sched.pick((u32) ms.size());
            ms[j]->destroy();
            ms.erase(ms.begin() + j);
            for (auto& m : ms)
                m->turn("turn after another machine was destroyed");
        }
    }
    SIM_CHECK(mem.live_blocks == 0, "leak", "%llu blocks (%llu bytes) are still allocated after all machines were destroyed: %s",
        (unsigned long long) mem.live_blocks, (unsigned long long) mem.live_bytes, arena_leaks(4).c_str());
}
