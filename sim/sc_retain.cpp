// C02/C13: what is kept. A coroutine that waits in the middle of a loop holds the same memory after one iteration and after
// thousands of them, whatever the loop does; a completed coroutine holds nothing of the stack it needed; handles and tokens
// that were given back are used again.
#include "host.hpp"
using namespace sim;

namespace {

const char* bodies[] = {
    "const x = [i, i + 1, [i]];",
    "const x = (i, (i, i));",
    "const x = set{i, i + 1};",
    "const x = map{i: i, \"a\": i};",
    "const x = \"a${i}b${i}\";",
    "ident(i, ident(i, i));",
    "host.echo(i, host.echo(i, 2));",
    "const x = (a: i, b: (c: i));",
    "const r = std.catch_panic(func() { fails(i); });",
    "if i % 3 == 1 { continue; } const y = [i];",
    "const f = func(y) { return y + i; }; f(i);",
    "[i].append(i);",
    "const m = [i].append; m(i); m(m);",
    "for x in [1, 2, i] { if (x == 2) { break; } }",
    "const (x, y) = (i, [i]); [x, y];",
    "const x = none?.b ?? [none?[0] ?? i];",
    "std.dispatch();",
    "host.now(i);",
    "host.steps(i);",
    "std.launch(ident, i, i);",
    "const x = \"abcdef\".slice_first(2).slice_last(1).to_string();",
    "deep(50);",
    "{ defer ident(i, i); [i]; }",
    "const x = if i % 2 == 0 { [i]; } else { (i,); };",
    "const z = map{1: i, 2: i}; for (k, v) in z { if v == k { continue; } const y = [k, v]; }",
    "std.catch_panic(func() { defer fails(1); fails(2); });",
    "std.catch_panic(host.bad);",
    "std.catch_panic(func() { return [1, 2, (3, 4, fails(i))]; });",
    "std.catch_panic(func() { return map{1: 2, 3: fails(i)}; });",
    "const b = std.new_string_builder(); b.append(\"a\", i, \"b\"); b.to_string();",
    "var j = 0; while true { j += 1; if j > 3 { break; } const y = [j]; }",
    "const s = set{i}; s.insert(i + 1); s.remove(i); s.contains(i);",
};
constexpr u32 body_count = std::size(bodies);

std::string source() {
    std::string s = R"(
import std;
import host;
const none = null;
func ident(x, y) { return x; }
func fails(x) { std.panic("failed"); }
export func deep(n) { if n == 0 { return 0; } const r = deep(n - 1); return r + 1; }
export func deep_wait(n, m) {
    if n == 0 { host.wait(); return deep(m); }
    const r = deep_wait(n - 1, m);
    return r;
}
export func deep_panic(n) { if n == 0 { std.panic("deep"); } const r = deep_panic(n - 1); return r; }
export func deep_native(n) { if n == 0 { return 0; } const r = host.call(deep_native, n - 1); return 0; }
)";
    for (u32 i = 0; i < body_count; ++i)
        s += strf("export func body%u(n, m) {\n  for var i = 0; i < n; i += 1 { %s }\n  host.wait();\n  for var i = 0; i < m; i += 1 { %s }\n  return 0;\n}\n", i,
            bodies[i], bodies[i]);
    return s;
}

struct Coro {
    std::unique_ptr<H> h;
    u32 kind;    // body_count + x: deep ones
    bool waiting;
};

} // namespace

SCENARIO(c02_retain, "C02.retain", "C02", 3) {
    Stream& k = stream("knobs");
    Stream& s = stream("ops");
    VmOptions o;
    o.page_size = (size_t) 1 << (16 + k.pick(3));
    std::vector<tiro_async_token_t> tokens;
    {
        Vm vm(o);
        Err e;
        std::vector<std::pair<std::string, H>> m;
        m.emplace_back("echo", make_sync(vm.vm, "echo", 2, [](tiro_vm_t v, tiro_sync_frame_t f) {
            Err e;
            H x(v);
            api::sync_frame_arg(f, (size_t) 0, x.get(), &e);
            expect_ok(e, "sync_frame_arg");
            api::sync_frame_return_value(f, x.get(), &e);
            expect_ok(e, "sync_frame_return_value");
        }));
        m.emplace_back("bad", make_sync(vm.vm, "bad", 0, [](tiro_vm_t, tiro_sync_frame_t f) {
            Err e;
            api::sync_frame_panic_msg(f, ts("bad"), &e);
            expect_ok(e, "sync_frame_panic_msg");
        }));
        m.emplace_back("now", make_async(vm.vm, "now", 1, [](tiro_vm_t v, tiro_async_frame_t f) {
            Err e;
            H x(v);
            api::async_frame_arg(f, (size_t) 0, x.get(), &e);
            expect_ok(e, "async_frame_arg");
            api::async_frame_return_value(f, x.get(), &e);
            expect_ok(e, "async_frame_return_value");
        }));
        m.emplace_back("wait", make_async(vm.vm, "wait", 0, [&](tiro_vm_t, tiro_async_frame_t f) {
            Err e;
            tokens.push_back(api::async_frame_token(f, &e));
            expect_ok(e, "async_frame_token");
            api::async_frame_yield(f, &e);
            expect_ok(e, "async_frame_yield");
        }));
        m.emplace_back("steps", make_resumable(vm.vm, "steps", 1, 2, [](tiro_vm_t v, tiro_resumable_frame_t f) {
            Err e;
            H x(v);
            const int state = api::resumable_frame_state(f);
            api::resumable_frame_arg(f, (size_t) 0, x.get(), &e);
            expect_ok(e, "resumable_frame_arg");
            if (state < 3) {
                api::resumable_frame_set_local(f, (size_t) (state % 2), x.get(), &e);
                expect_ok(e, "resumable_frame_set_local");
                api::resumable_frame_set_state(f, state + 1, &e);
                expect_ok(e, "resumable_frame_set_state");
            } else {
                api::resumable_frame_return_value(f, x.get(), &e);
                expect_ok(e, "resumable_frame_return_value");
            }
        }));
        m.emplace_back("call", make_resumable(vm.vm, "call", 2, 0, [](tiro_vm_t v, tiro_resumable_frame_t f) {
            Err e;
            H x(v), args(v);
            if (api::resumable_frame_state(f) == 0) {
                api::resumable_frame_arg(f, (size_t) 1, x.get(), &e);
                expect_ok(e, "resumable_frame_arg");
                api::make_tuple(v, (size_t) 1, args.get(), &e);
                expect_ok(e, "make_tuple");
                api::tuple_set(v, args.get(), (size_t) 0, x.get(), &e);
                expect_ok(e, "tuple_set");
                api::resumable_frame_arg(f, (size_t) 0, x.get(), &e);
                expect_ok(e, "resumable_frame_arg");
                api::resumable_frame_invoke(f, 1, x.get(), args.get(), &e);
                expect_ok(e, "resumable_frame_invoke");
            } else {
                api::resumable_frame_invoke_return(f, x.get(), &e);
                expect_ok(e, "resumable_frame_invoke_return");
                api::resumable_frame_return_value(f, x.get(), &e);
                expect_ok(e, "resumable_frame_return_value");
            }
        }));
        make_module(vm.vm, "host", std::move(m));
        m.clear();
        vm.load_source("main", source());
        static const char* deep_names[] = {"deep", "deep_wait", "deep_panic", "deep_native"};
        const u32 kinds = body_count + 4;
        std::vector<H> fns;
        for (u32 i = 0; i < kinds; ++i)
            fns.push_back(vm.fn("main", i < body_count ? strf("body%u", i) : deep_names[i - body_count]));

        auto run = [&] {
            api::vm_run_ready(vm.vm, &e);
            expect_ok(e, "run_ready");
        };
        auto measure = [&] {
            gc_now(vm.heap);
            return heap_info(vm.heap);
        };
        auto start = [&](u32 kind, i64 n, i64 after) {
            auto h = std::make_unique<H>(vm.vm);
            H args(vm.vm), x(vm.vm);
            const bool two = kind < body_count || kind == body_count + 1;
            api::make_tuple(vm.vm, (size_t) (two ? 2 : 1), args.get(), &e);
            expect_ok(e, "make_tuple");
            for (size_t i = 0; i < (two ? 2u : 1u); ++i) {
                api::make_integer(vm.vm, i ? after : n, x.get(), &e);
                expect_ok(e, "make_integer");
                api::tuple_set(vm.vm, args.get(), i, x.get(), &e);
                expect_ok(e, "tuple_set");
            }
            api::make_coroutine(vm.vm, fns[kind].get(), args.get(), h->get(), &e);
            expect_ok(e, "make_coroutine");
            api::coroutine_start(vm.vm, h->get(), &e);
            expect_ok(e, "coroutine_start");
            return h;
        };
        auto done = [&](tiro_async_token_t t) {
            H x(vm.vm);
            api::async_token_return_value(t, x.get(), &e);
            expect_ok(e, "async_token_return_value");
            api::async_token_free(t);
        };
        auto waits = [&](u32 kind) { return kind <= body_count + 1 && kind != body_count; };

        // The first of each kind tells what it holds while it waits and after it is done.
        std::vector<u64> held(kinds, 0), kept(kinds, 0);
        std::vector<u32> used;
        for (u32 i = 0, n = 1 + k.pick(5); i < n; ++i)
            used.push_back(k.chance(1, 3) ? body_count + k.pick(4) : k.pick(body_count));
        for (u32 kind : used) {
            for (int round = 0; round < 2; ++round) {
                HeapInfo before = measure();
                auto h = start(kind, 1, 1);
                run();
                held[kind] = measure().allocated - before.allocated;
                if (waits(kind)) {
                    SIM_CHECK(tokens.size() == 1, "setup", "kind %u does not wait", kind);
                    done(tokens.back());
                    tokens.clear();
                    run();
                }
                SIM_CHECK(api::coroutine_completed(vm.vm, h->get()), "setup", "kind %u does not complete", kind);
                kept[kind] = measure().allocated - before.allocated;
            }
        }
        gc_setup("gc", GcMode::Gaps, 500, 60);
        HeapInfo base = measure();
        const u32 ops = 4 + k.pick(12);
        u64 budget = thorough() ? 60000 : 12000;
        std::vector<Coro> live;
        // the order of completion is random: tokens belong to the coroutine at the same index
        std::vector<std::pair<tiro_async_token_t, u32>> pending;
        u32 id = 0;
        std::vector<u32> ids;
        for (u32 i = 0; i < ops && budget > 0; ++i) {
            Seg seg(s);
            if (live.empty() || s.chance(1, 2)) {
                u32 kind = used[s.pick((u32) used.size())];
                // deep recursion of waiting coroutines needs a larger stack: that one is measured when it is done
                i64 limit = kind == body_count + 1 ? 1 : kind >= body_count ? 3000 : 1500;
                i64 n = s.pick(2) ? 1 + (i64) s.pick((u32) limit) : 1;
                i64 after = s.pick(2) ? 1 + (i64) s.pick(kind >= body_count ? 3000 : 300) : 1;
                budget -= std::min<u64>(budget, (u64) (n + after));
                trace("start %u (%lld, %lld)", kind, (long long) n, (long long) after);
                auto h = start(kind, n, after);
                run();
                SIM_CHECK(waits(kind) ? tokens.size() == 1 : tokens.empty(), "no-progress", "kind %u is in a wrong state", kind);
                SIM_CHECK(api::coroutine_completed(vm.vm, h->get()) == !waits(kind), "no-progress", "kind %u is in a wrong state", kind);
                if (waits(kind)) {
                    pending.emplace_back(tokens.back(), id);
                    tokens.clear();
                }
                live.push_back({std::move(h), kind, waits(kind)});
                ids.push_back(id++);
            } else if (!pending.empty() && s.chance(2, 3)) {
                u32 j = s.pick((u32) pending.size());
                auto [t, who] = pending[j];
                pending.erase(pending.begin() + j);
                done(t);
                run();
                for (size_t x = 0; x < live.size(); ++x) {
                    if (ids[x] != who)
                        continue;
                    trace("complete %u", live[x].kind);
                    SIM_CHECK(api::coroutine_completed(vm.vm, live[x].h->get()), "no-progress", "kind %u does not complete", live[x].kind);
                    live[x].waiting = false;
                }
            } else {
                u32 j = s.pick((u32) live.size());
                if (live[j].waiting)
                    continue;
                trace("release %u", live[j].kind);
                live.erase(live.begin() + j);
                ids.erase(ids.begin() + j);
            }
            u64 expect = base.allocated;
            std::string what;
            for (auto& c : live) {
                expect += c.waiting ? held[c.kind] : kept[c.kind];
                what += strf(" %u%s", c.kind, c.waiting ? " (waiting)" : "");
            }
            HeapInfo now = measure();
            SIM_CHECK(now.allocated == expect, "retained", "coroutines%s hold %lld bytes instead of %lld", what.c_str(),
                (long long) (now.allocated - base.allocated), (long long) (expect - base.allocated));
            stat("coroutines_measured", live.size());
        }
        for (auto& p : pending)
            done(p.first);
        run();
        live.clear();
        HeapInfo end = measure();
        SIM_CHECK(end.allocated == base.allocated && end.objects == base.objects, "retained", "%lld bytes in %lld objects remain",
            (long long) (end.allocated - base.allocated), (long long) (end.objects - base.objects));
        trace("end");
        fns.clear();
        vm.destroy();
    }
    natives.sync.clear();
    natives.async.clear();
    natives.res.clear();
    arena_check();
    SIM_CHECK(mem.live_blocks == 0, "leak", "%llu blocks are still allocated: %s", (unsigned long long) mem.live_blocks, arena_leaks(4).c_str());
}

// Handles and tokens that were given back are used again before more memory is requested.
SCENARIO(c13_reuse, "C13.reuse", "C13", 1) {
    Stream& k = stream("knobs");
    Stream& s = stream("ops");
    VmOptions o;
    o.page_size = (size_t) 1 << (16 + k.pick(3));
    {
        Vm vm(o);
        Err e;
        std::vector<tiro_handle_t> live;
        u64 high = 0;      // most handles that were ever used at once
        u64 high_bytes = mem.live_bytes; // memory at that time (a few pages of internal structures aside)
        const u32 rounds = 8 + k.pick(30);
        const u32 size = std::vector<u32>{20, 200, 2000}[k.pick(3)];
        const bool refuse = k.chance(1, 3);
        H keep(vm.vm);
        api::make_integer(vm.vm, (int64_t) 5, keep.get(), &e);
        expect_ok(e, "make_integer");
        for (u32 r = 0; r < rounds; ++r) {
            Seg seg(s);
            u32 n = 1 + s.pick(size);
            if (s.pick(2)) {
                trace("allocate %u", n);
                for (u32 i = 0; i < n; ++i) {
                    const bool now = refuse && s.chance(1, 50);
                    if (now) {
                        oom_after = s.pick(2);
                        oom_count = 1;
                    }
                    auto h = api::global_new(vm.vm, &e);
                    oom_reset();
                    if (!h) {
                        SIM_CHECK(now && e.code() == TIRO_ERROR_ALLOC, "wrong-error", "global_new failed: %s", e.str().c_str());
                        fault("system_allocation_refused");
                        continue;
                    }
                    expect_ok(e, "global_new");
                    SIM_CHECK(api::value_kind(vm.vm, h) == TIRO_KIND_NULL, "wrong-value", "a new handle holds %s", render(vm.vm, h).c_str());
                    api::value_copy(vm.vm, keep.get(), h, &e);
                    expect_ok(e, "value_copy");
                    live.push_back(h);
                }
            } else {
                n = s.chance(1, 4) ? (u32) live.size() : std::min<u32>(n, (u32) live.size());
                trace("release %u", n);
                for (u32 i = 0; i < n; ++i) {
                    u32 j = s.pick((u32) live.size());
                    std::swap(live[j], live.back());
                    api::global_free(live.back());
                    live.pop_back();
                }
            }
            if (s.chance(1, 4))
                gc_now(vm.heap);
            e.clear();
            for (auto h : live)
                SIM_CHECK(api::integer_value(vm.vm, h) == 5, "wrong-value", "a handle changed to %s", render(vm.vm, h).c_str());
            const u64 bytes = mem.live_bytes;
            if (live.size() > high) {
                high = live.size();
                high_bytes = std::max(bytes, high_bytes);
            } else {
                SIM_CHECK(bytes <= high_bytes + 8192, "retained", "%zu handles need %llu bytes of memory, %llu handles needed %llu before", live.size(),
                    (unsigned long long) bytes, (unsigned long long) high, (unsigned long long) high_bytes);
            }
        }
        for (auto h : live)
            api::global_free(h);
        trace("%llu handles", (unsigned long long) high);
    }
    arena_check();
    SIM_CHECK(mem.live_blocks == 0, "leak", "%llu blocks are still allocated: %s", (unsigned long long) mem.live_blocks, arena_leaks(4).c_str());
}
