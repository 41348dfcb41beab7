// C14: module initialization.
//
// A universe of modules with random imports (chains, diamonds, cycles, missing modules) is loaded in any order
// at any time, while the host and running coroutines request exports. Initializers report to the host, panic,
// suspend, yield or request other modules. The model knows for every module whether it is initialized and
// predicts the outcome of every request and the values exported.
#include "host.hpp"

#include <algorithm>
#include <set>

using namespace sim;

namespace {

enum Kind { Script, Plain, Native };
enum Act { Fine, PanicBegin, PanicEnd, PanicBody, Suspend, NestedRequest, CollectNow, ActCount };

struct Mod {
    std::string name;
    Kind kind = Script;
    std::vector<int> imports;
    bool dispatches = false;
    bool loaded = false;
    bool initialized = false; // according to the events seen
    int attempts = 0;         // initializer runs that were begun
    bool running = false;     // begun, not ended, in the current request
    int good_attempt = 0;
    std::vector<Act> plan; // behaviour of the first initializer runs
    i64 tag = 0;
    bool used = false; // may have been initialized (plain modules have no events)
};

constexpr i64 modulus = 1000003;

struct World {
    Vm vm;
    std::vector<Mod> mods;
    Stream& s;
    bool in_request = false;
    bool failed_event = false; // an initializer panicked or suspended in the current request
    int begun = 0;
    int pending = -1; // its initializer has returned its last value but the request has not continued yet
    int budget = 60;  // nested requests

    World(Stream& s, const VmOptions& o)
        : vm(o)
        , s(s) {}

    int index(const std::string& n) {
        for (size_t i = 0; i < mods.size(); ++i)
            if (mods[i].name == n)
                return (int) i;
        fail("setup", "unknown module %s", n.c_str());
    }

    // Everything that still needs initialization in order to use module m.
    // Returns false if that is impossible (missing or cyclic imports).
    bool closure(int m, std::set<int>& out, std::set<int>& path) {
        if (path.count(m))
            return false;
        if (!mods[m].loaded)
            return false;
        if (mods[m].initialized || mods[m].kind == Native)
            return true;
        if (out.count(m))
            return true;
        path.insert(m);
        bool ok = true;
        for (int i : mods[m].imports)
            ok &= closure(i, out, path);
        path.erase(m);
        out.insert(m);
        return ok;
    }
    bool closure(int m, std::set<int>& out) {
        std::set<int> path;
        return closure(m, out, path);
    }

    i64 value(int m) {
        Mod& x = mods[m];
        if (x.kind == Native)
            return 7 + m;
        if (x.kind == Script)
            return x.tag;
        i64 v = 100 + m;
        for (int i : x.imports)
            v = (v * 31 + value(i)) % modulus;
        return v;
    }

    // The initializer of the pending module was accepted.
    void commit() {
        if (pending >= 0) {
            mods[pending].running = false;
            mods[pending].initialized = true;
        }
        pending = -1;
        settle();
    }

    // A plain module counts as initialized as soon as everything it needs is.
    void settle() {
        bool any = true;
        while (any) {
            any = false;
            for (auto& x : mods) {
                if (x.kind != Plain || x.initialized || !x.used || !x.loaded)
                    continue;
                bool all = true;
                for (int i : x.imports)
                    all &= mods[i].loaded && (mods[i].initialized || mods[i].kind == Native);
                if (all)
                    x.initialized = any = true;
            }
        }
    }

    static H str_arg(tiro_vm_t v, tiro_sync_frame_t f, std::string& out) {
        Err e;
        H a(v);
        api::sync_frame_arg(f, 0, a.get(), &e);
        expect_ok(e, "sync_frame_arg");
        tiro_string_t t;
        api::string_value(v, a.get(), &t, &e);
        expect_ok(e, "string_value");
        out = str(t);
        return a;
    }

    struct NoOom {
        i64 a = oom_after, c = oom_count;
        NoOom() { oom_after = -1; }
        ~NoOom() { oom_after = a, oom_count = c; }
    };

    void panic(tiro_sync_frame_t f, const char* msg) {
        Err e;
        api::sync_frame_panic_msg(f, ts(msg), &e);
        expect_ok(e, "sync_frame_panic_msg");
    }

    void return_int(tiro_vm_t v, tiro_sync_frame_t f, i64 n) {
        Err e;
        H r(v);
        api::make_integer(v, n, r.get(), &e);
        expect_ok(e, "make_integer");
        api::sync_frame_return_value(f, r.get(), &e);
        expect_ok(e, "sync_frame_return_value");
    }

    Act act(Mod& m) {
        size_t i = (size_t) m.attempts - 1;
        return i < m.plan.size() ? m.plan[i] : Fine;
    }

    void on_begin(tiro_vm_t v, tiro_sync_frame_t f) {
        NoOom pause;
        std::string n;
        str_arg(v, f, n);
        Mod& m = mods[index(n)];
        trace("begin %s", n.c_str());
        commit();
        SIM_CHECK(in_request, "stray-initializer", "the initializer of %s runs although no module was requested", n.c_str());
        SIM_CHECK(!failed_event, "initializer-after-failure", "the initializer of %s runs after another initializer failed in the same request", n.c_str());
        SIM_CHECK(m.loaded, "not-loaded", "the initializer of %s runs before it was loaded", n.c_str());
        SIM_CHECK(!m.initialized, "initialized-twice", "the initializer of %s runs again after it completed", n.c_str());
        SIM_CHECK(!m.running, "initialized-twice", "the initializer of %s is started while it is already running", n.c_str());
        settle();
        for (int i : m.imports) {
            std::set<int> need;
            bool ok = closure(i, need);
            for (int j : need)
                if (mods[j].kind == Script)
                    ok = false;
            SIM_CHECK(ok, "initialized-too-early", "the initializer of %s runs before its import %s is completely initialized", n.c_str(),
                mods[i].name.c_str());
        }
        for (auto& x : mods)
            SIM_CHECK(!x.running, "overlap", "the initializer of %s runs while %s is still being initialized", n.c_str(), x.name.c_str());
        m.running = true;
        m.attempts += 1;
        ++begun;
        stat("initializers_begun");
        switch (act(m)) {
        case PanicBegin:
            fault("initializer_panics");
            failed_event = true;
            return panic(f, "begin");
        case NestedRequest:
            nested(s.pick((u32) mods.size()));
            break;
        case CollectNow:
            gc_now(vm.heap);
            break;
        case Suspend:
            fault("initializer_suspends");
            failed_event = true;
            break;
        default:
            break;
        }
        return_int(v, f, m.attempts);
    }

    // body of the initializer: returns whether it must suspend (1), panic (2)
    void on_body(tiro_vm_t v, tiro_sync_frame_t f) {
        NoOom pause;
        std::string n;
        str_arg(v, f, n);
        Mod& m = mods[index(n)];
        Act a = act(m);
        if (a == PanicBody) {
            fault("initializer_panics");
            failed_event = true;
        }
        return_int(v, f, a == Suspend ? 1 : a == PanicBody ? 2 : 0);
    }

    void on_end(tiro_vm_t v, tiro_sync_frame_t f) {
        NoOom pause;
        std::string n;
        str_arg(v, f, n);
        int i = index(n);
        Mod& m = mods[i];
        trace("end %s", n.c_str());
        SIM_CHECK(m.running, "stray-initializer", "the initializer of %s continues although its attempt is over", n.c_str());
        if (act(m) == PanicEnd) {
            fault("initializer_panics");
            failed_event = true;
            return panic(f, "end");
        }
        pending = i;
        i64 t = m.attempts * 1000 + i;
        for (int k : m.imports)
            t = (t * 31 + value(k)) % modulus;
        m.tag = t;
        return_int(v, f, 0);
    }

    // A request from inside a running native function. No coroutine can be run here, so only modules whose
    // initializers do not have to run are available.
    void nested(int target) {
        if (budget-- <= 0)
            return;
        settle();
        std::set<int> need;
        bool ok = closure(target, need);
        for (int j : need)
            if (mods[j].kind == Script)
                ok = false;
        trace("nested request %s", mods[target].name.c_str());
        fault("nested_request");
        Err e;
        H x(vm);
        NoOom pause;
        if (ok)
            for (int j : need)
                mods[j].used = true;
        api::vm_get_export(vm, ts(mods[target].name), ts("get"), x.get(), &e);
        check_not_assert(e, "nested get_export");
        SIM_CHECK(e.ok() == ok, "nested-request", "a request for %s from inside a native function %s, expected %s", mods[target].name.c_str(),
            e.ok() ? "succeeded" : e.str().c_str(), ok ? "success" : "failure");
        settle();
    }

    // Calls an exported function.
    i64 call(H& fn, const std::string& name) {
        Err e;
        H co(vm), r(vm);
        api::make_coroutine(vm, fn.get(), nullptr, co.get(), &e);
        expect_ok(e, "make_coroutine");
        api::coroutine_start(vm, co.get(), &e);
        expect_ok(e, "coroutine_start");
        api::vm_run_ready(vm, &e);
        expect_ok(e, "run_ready");
        SIM_CHECK(api::coroutine_completed(vm, co.get()), "value", "%s.get() did not complete", name.c_str());
        api::coroutine_result(vm, co.get(), r.get(), &e);
        expect_ok(e, "coroutine_result");
        if (!api::result_is_success(vm, r.get()))
            fail("value", "%s.get() panicked: %s", name.c_str(), render(vm, r).c_str());
        api::result_value(vm, r.get(), r.get(), &e);
        expect_ok(e, "result_value");
        SIM_CHECK(api::value_kind(vm, r.get()) == TIRO_KIND_INTEGER, "value", "%s.get() is %s", name.c_str(), render(vm, r).c_str());
        return api::integer_value(vm, r.get());
    }

    void request(int m, const char* name, i64 oom_at) {
        Mod& x = mods[m];
        settle();
        std::set<int> need;
        bool possible = closure(m, need);
        bool was_initialized = x.initialized || x.kind == Native;
        trace("request %s.%s%s", x.name.c_str(), name, oom_at >= 0 ? " with failing allocations" : "");
        for (int j : need)
            mods[j].used = true;
        in_request = true;
        failed_event = false;
        begun = 0;
        H fn(vm);
        Err e;
        u64 failed0 = mem.failed;
        if (oom_at >= 0) {
            oom_after = oom_at;
            oom_count = 1 + s.pick(3);
        }
        api::vm_get_export(vm, ts(x.name), ts(name), fn.get(), &e);
        oom_reset();
        in_request = false;
        check_not_assert(e, "get_export");
        bool refused = mem.failed > failed0;
        if (refused && !e.ok() && pending >= 0)
            uncertain();
        else
            commit();
        for (auto& y : mods)
            y.running = false;
        stat("requests");
        bool exists = std::string(name) == "get";
        if (refused && !e.ok() && e.code() == TIRO_ERROR_ALLOC) {
            fault("allocation_refused_in_request");
            return;
        }
        if (refused)
            probe("request_survived_refused_allocation");
        bool ok = possible && !failed_event;
        // a refused allocation inside an initializer surfaces as its failure
        if (!ok) {
            SIM_CHECK(!e.ok(), "bogus-success", "%s.%s is available although %s", x.name.c_str(), name,
                failed_event ? "an initializer failed" : "it depends on missing or cyclic modules");
            if (!x.loaded)
                SIM_CHECK(e.code() == TIRO_ERROR_MODULE_NOT_FOUND, "wrong-error", "requesting %s, which was never loaded: %s", x.name.c_str(), e.str().c_str());
            if (!possible)
                probe(x.loaded ? "blocked_by_imports" : "module_not_loaded");
            return;
        }
        settle();
        for (int j : need)
            SIM_CHECK(mods[j].initialized, refused ? "bogus-success" : "not-initialized",
                "the request for %s returned (%s) although %s was not completely initialized", x.name.c_str(), e.ok() ? "success" : e.str().c_str(), mods[j].name.c_str());
        if (was_initialized)
            SIM_CHECK(begun == 0, "initialized-twice", "a request for the initialized module %s ran initializers", x.name.c_str());
        if (!exists) {
            SIM_CHECK(e.code() == TIRO_ERROR_EXPORT_NOT_FOUND, "wrong-error", "requesting the missing export %s.%s: %s", x.name.c_str(), name, e.ok() ? "ok" : e.str().c_str());
            return;
        }
        SIM_CHECK(e.ok(), "bogus-failure", "requesting %s.%s failed although everything it needs can be initialized: %s", x.name.c_str(), name, e.str().c_str());
        if (need.size() > 1)
            probe("initialized_with_imports");
        i64 v = call(fn, x.name);
        SIM_CHECK(v == value(m), "value", "%s.get() is %lld, expected %lld", x.name.c_str(), (long long) v, (long long) value(m));
    }

    // The request failed for lack of memory after the last action of an initializer: it may or may not have
    // been accepted. Ask again to find out.
    void uncertain() {
        int m = pending;
        for (auto& y : mods)
            y.running = false;
        pending = -1;
        in_request = true;
        failed_event = false;
        begun = 0;
        Err e;
        H fn(vm);
        trace("request %s again", mods[m].name.c_str());
        api::vm_get_export(vm, ts(mods[m].name), ts("get"), fn.get(), &e);
        check_not_assert(e, "get_export");
        in_request = false;
        if (begun == 0) {
            SIM_CHECK(e.ok(), "bogus-failure", "requesting %s: %s", mods[m].name.c_str(), e.str().c_str());
            mods[m].initialized = true;
        }
        commit();
        probe("memory_refused_after_initializer");
    }

    std::string source(int m) {
        Mod& x = mods[m];
        std::string out = "import std;\nimport host;\n";
        for (int i : x.imports)
            out += "import " + mods[i].name + ";\n";
        std::string e;
        if (x.kind == Plain) {
            out += strf("export func get() {\n    var v = %d;\n", 100 + m);
            for (int i : x.imports)
                out += "    v = (v * 31 + " + mods[i].name + ".get()) % 1000003;\n";
            return out + "    return v;\n}\n";
        }
        out += strf("const attempt = host.begin(\"%s\");\n", x.name.c_str());
        if (x.dispatches)
            out += "const dispatched = std.dispatch();\n";
        out += strf("func compute() {\n    const mode = host.body(\"%s\");\n    if (mode == 1) { std.yield_coroutine(); }\n    if (mode == 2) { std.panic(\"body\"); }\n", x.name.c_str());
        out += strf("    var v = attempt * 1000 + %d;\n", m);
        for (int i : x.imports)
            out += "    v = (v * 31 + " + mods[i].name + ".get()) % 1000003;\n";
        out += "    return v;\n}\n";
        out += "const value = compute();\n";
        out += strf("const done = host.end(\"%s\");\n", x.name.c_str());
        out += "export func get() { return value; }\n";
        return out;
    }

    void load(int m) {
        Mod& x = mods[m];
        Err e;
        trace("load %s", x.name.c_str());
        if (x.kind == Native) {
            std::vector<std::pair<std::string, H>> members;
            i64 c = 7 + m;
            members.emplace_back("get", make_sync(vm, "get", 0, [this, c](tiro_vm_t v, tiro_sync_frame_t f) { return_int(v, f, c); }));
            if (!x.loaded) {
                make_module(vm, x.name.c_str(), std::move(members));
                x.loaded = true;
                return;
            }
            return;
        }
        Compiled c = compile(x.name, source(m));
        SIM_CHECK(c.module != nullptr, "setup", "module does not compile: %s\n%s", c.messages.empty() ? "" : c.messages[0].text.c_str(), source(m).c_str());
        api::vm_load_bytecode(vm, c.module, &e);
        api::module_free(c.module);
        if (x.loaded) {
            SIM_CHECK(e.code() == TIRO_ERROR_MODULE_EXISTS, "wrong-error", "loading %s twice: %s", x.name.c_str(), e.ok() ? "ok" : e.str().c_str());
            fault("module_loaded_twice");
            return;
        }
        expect_ok(e, "load_bytecode");
        x.loaded = true;
    }
};

} // namespace

SCENARIO(c14_modules, "C14.modules", "C14", 4) {
    Stream& k = stream("knobs");
    Stream& s = stream("ops");
    {
        VmOptions o;
        o.page_size = (size_t) 1 << (16 + k.pick(3));
        World w(s, o);
        if (k.chance(1, 3))
            gc_setup("gc", GcMode::Gaps, 20 + k.pick(400), 300);
        bool with_oom = k.chance(1, 3);
        bool failing = k.chance(2, 3);
        bool cyclic = k.chance(1, 3);
        const u32 n = 1 + k.pick(k.chance(1, 6) ? 40 : 9);
        bool chain = n > 12;
        for (u32 i = 0; i < n; ++i) {
            Seg seg(k);
            Mod m;
            m.name = strf("m%u", i);
            m.kind = k.weighted({6, 3, 1}) == 0 ? Script : k.chance(3, 4) ? Plain : Native;
            if (m.kind != Native) {
                if (chain && i > 0)
                    m.imports.push_back((int) i - 1);
                u32 c = k.pick(4);
                for (u32 j = 0; j < c && !chain; ++j) {
                    int t = -1;
                    if (cyclic && k.chance(1, 5))
                        t = (int) k.pick(n);
                    else if (i > 0)
                        t = (int) k.pick(i);
                    if (t >= 0 && std::find(m.imports.begin(), m.imports.end(), t) == m.imports.end())
                        m.imports.push_back(t);
                }
            }
            m.dispatches = m.kind == Script && !with_oom && k.chance(1, 4);
            if (failing) {
                u32 c = k.pick(3);
                for (u32 j = 0; j < c; ++j)
                    m.plan.push_back((Act) k.pick(ActCount));
            }
            w.mods.push_back(m);
        }
        {
            std::vector<std::pair<std::string, H>> m;
            m.emplace_back("begin", make_sync(w.vm, "begin", 1, [&](tiro_vm_t v, tiro_sync_frame_t f) { w.on_begin(v, f); }));
            m.emplace_back("body", make_sync(w.vm, "body", 1, [&](tiro_vm_t v, tiro_sync_frame_t f) { w.on_body(v, f); }));
            m.emplace_back("end", make_sync(w.vm, "end", 1, [&](tiro_vm_t v, tiro_sync_frame_t f) { w.on_end(v, f); }));
            m.emplace_back("request", make_sync(w.vm, "request", 1, [&](tiro_vm_t, tiro_sync_frame_t) { w.nested((int) s.pick((u32) w.mods.size())); }));
            make_module(w.vm, "host", std::move(m));
        }
        w.vm.load_source("driver", "import std; import host;\nexport func run(n) {\n    var i = 0;\n    while (i < n) { std.dispatch(); host.request(0); i += 1; }\n}\n");
        H driver = w.vm.fn("driver", "run");
        const u32 ops = 3 + s.pick(30);
        for (u32 i = 0; i < ops; ++i) {
            Seg seg(s);
            switch (s.weighted({6, 8, 2, 2, 1})) {
            case 0:
                w.load((int) s.pick(n));
                break;
            case 1: {
                i64 oom_at = with_oom && s.chance(1, 2) ? (i64) s.pick(s.chance(1, 2) ? 40 : 1500) : -1;
                w.request((int) s.pick(n), s.chance(7, 8) ? "get" : "nope", oom_at);
                break;
            }
            case 2: {
                // coroutines that request modules while the main loop runs
                if (with_oom)
                    break;
                Err e;
                H args(w.vm), c(w.vm), x(w.vm);
                api::make_tuple(w.vm, 1, args.get(), &e);
                expect_ok(e, "make_tuple");
                api::make_integer(w.vm, s.pick(6), x.get(), &e);
                expect_ok(e, "make_integer");
                api::tuple_set(w.vm, args.get(), 0, x.get(), &e);
                expect_ok(e, "tuple_set");
                api::make_coroutine(w.vm, driver.get(), args.get(), c.get(), &e);
                expect_ok(e, "make_coroutine");
                trace("start driver");
                api::coroutine_start(w.vm, c.get(), &e);
                expect_ok(e, "coroutine_start");
                if (s.chance(1, 2)) {
                    api::vm_run_ready(w.vm, &e);
                    expect_ok(e, "run_ready");
                }
                break;
            }
            case 3: {
                Err e;
                H x(w.vm);
                trace("request of an unknown module");
                api::vm_get_export(w.vm, ts("unknown"), ts("get"), x.get(), &e);
                SIM_CHECK(e.code() == TIRO_ERROR_MODULE_NOT_FOUND, "wrong-error", "requesting an unknown module: %s", e.ok() ? "ok" : e.str().c_str());
                break;
            }
            default:
                gc_now(w.vm.heap);
                break;
            }
        }
        // Faults have stopped: everything is loaded, and every module without a cycle becomes usable.
        for (u32 i = 0; i < n; ++i) {
            w.mods[i].plan.clear();
            if (!w.mods[i].loaded)
                w.load((int) i);
        }
        for (u32 i = 0; i < n; ++i)
            w.request((int) i, "get", -1);
        for (u32 i = 0; i < n; ++i)
            if (w.mods[i].initialized || w.mods[i].kind == Native)
                w.request((int) i, "get", -1);
    }
    SIM_CHECK(mem.live_blocks == 0, "leak", "%llu blocks (%llu bytes) are still allocated after the machine was destroyed: %s",
        (unsigned long long) mem.live_blocks, (unsigned long long) mem.live_bytes, arena_leaks(4).c_str());
}
