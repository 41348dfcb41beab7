// C08: completion callbacks and their cleanup, in every outcome.
#include "host.hpp"

#include <deque>

using namespace sim;

namespace {
constexpr const char* source = R"(
import std;
import host;
export func ret(x) { return x + 1; }
export func boom(x) { std.panic("boom"); }
export func disp(x) { std.dispatch(); const a = [x]; std.dispatch(); return a[0] + 1; }
export func nap(x) { return host.nap(x) + 1; }
export func two(x) { const a = host.nap(x); std.dispatch(); return host.nap(a) + 1; }
export func guarded(x) { defer host.touch(x); return host.nap(x) + 1; }
export func lost(x) { std.yield_coroutine(); return x; }
export func spin(x) { var s = 0; var i = 0; while i < 40 { const t = [i, x]; s += t[0]; i += 1; } return x + 1; }
export func child(x) { std.launch(ret, x); return x + 1; }
export func deep(x) { return deep(x + 1) + 1; }
)";

enum Fn { Ret, Boom, Disp, Nap, Two, Guarded, Lost, Spin, Child, Deep, FnCount };
const char* fn_names[] = {"ret", "boom", "disp", "nap", "two", "guarded", "lost", "spin", "child", "deep"};

struct Sim8;
struct Reg {
    Sim8* sim;
    u32 id;
    int coro;         // index, -1: none
    bool ok = false;  // registration succeeded
    bool has_cleanup;
    bool replaced = false;
    u32 action = 0, param = 0;
    u32 called = 0, cleaned = 0;
    bool in_call = false;
};
struct Coro {
    std::unique_ptr<H> h;
    int fn;
    i64 arg;
    bool started = false, done = false, failed = false, abandoned = false;
    bool doomed = false; // an injected failure hit the machine while the coroutine was ready
    u32 naps = 0; // completions delivered
    Reg* current = nullptr;
    Reg* expected = nullptr; // callback that must have been called
};
struct Pending {
    tiro_async_token_t token;
    int coro;
};

struct Sim8 {
    Stream& s;
    Vm vm;
    std::deque<Coro> coros;
    std::deque<Reg> regs;
    std::vector<Pending> pend;
    std::vector<H> fns;
    std::unique_ptr<H> t1, t2;
    bool running = false, dead = false;
    bool faulty_run = false;
    i64 next_arg = 1;
    bool deep_allowed = false;
    u32 deep_count = 0; // every overflowed stack has 16 MiB

    explicit Sim8(Stream& k, Stream& s_, const VmOptions& o)
        : s(s_)
        , vm(o) {
        (void) k;
        {
            std::vector<std::pair<std::string, H>> m;
            m.emplace_back("nap", make_async(vm, "nap", 1, [this](tiro_vm_t v, tiro_async_frame_t f) { nap(v, f); }));
            m.emplace_back("touch", make_sync(vm, "touch", 1, [](tiro_vm_t, tiro_sync_frame_t) {}));
            make_module(vm, "host", std::move(m));
        }
        vm.load_source("cb", source);
        for (int i = 0; i < FnCount; ++i)
            fns.push_back(vm.fn("cb", fn_names[i]));
        t1 = std::make_unique<H>(vm);
        t2 = std::make_unique<H>(vm);
    }

    void nap(tiro_vm_t v, tiro_async_frame_t f) {
        H a(v);
        Err e;
        api::async_frame_arg(f, 0, a.get(), &e);
        expect_ok(e, "async_frame_arg");
        i64 x = api::integer_value(v, a);
        int idx = -1;
        for (size_t i = 0; i < coros.size(); ++i)
            if (coros[i].arg == x)
                idx = (int) i;
        tiro_async_token_t t = api::async_frame_token(f, &e);
        if (!e.ok()) {
            SIM_CHECK(faulty_run && e.code() == TIRO_ERROR_ALLOC, "token", "async_frame_token: %s", e.str().c_str());
            return; // returns null, addition panics
        }
        api::async_frame_yield(f, &e);
        expect_ok(e, "async_frame_yield");
        pend.push_back({t, idx});
    }

    static void on_callback(tiro_vm_t v, tiro_handle_t coro, void* ud) {
        InHost in;
        Reg* r = (Reg*) ud;
        r->sim->callback(v, coro, r);
    }
    static void on_cleanup(void* ud) {
        InHost in;
        Reg* r = (Reg*) ud;
        Sim8& w = *r->sim;
        trace("cleanup %u", r->id);
        SIM_CHECK(!r->in_call, "early-cleanup", "the cleanup of registration %u ran while its callback was running", r->id);
        ++r->cleaned;
        SIM_CHECK(r->cleaned == 1, "double-cleanup", "the cleanup of registration %u ran %u times", r->id, r->cleaned);
        SIM_CHECK(r->has_cleanup, "wrong-cleanup", "a cleanup function ran for registration %u, which has none", r->id);
        // while the coroutine can still complete, its callback must stay alive
        if (r->ok && !r->replaced && r->coro >= 0 && !w.dead && r->called == 0) {
            Coro& c = w.coros[(size_t) r->coro];
            SIM_CHECK(c.done || !w.reachable(r->coro), "early-cleanup",
                "the cleanup of registration %u ran although coroutine %d has not completed and is still in use", r->id, r->coro);
        }
    }

    bool reachable(int i) {
        Coro& c = coros[(size_t) i];
        if (c.h)
            return true;
        if (c.abandoned || c.doomed)
            return false;
        if (!c.started)
            return false;
        for (auto& p : pend)
            if (p.coro == i)
                return true;
        return c.fn != Lost && !c.done;
    }

    void callback(tiro_vm_t v, tiro_handle_t coro, Reg* r) {
        trace("callback %u coroutine %d", r->id, r->coro);
        SIM_CHECK(!dead, "late-callback", "the callback of registration %u ran after the machine was destroyed", r->id);
        SIM_CHECK(running, "outside-run", "the callback of registration %u ran outside of run_ready", r->id);
        SIM_CHECK(v == (tiro_vm_t) vm, "wrong-vm", "the callback received another machine");
        SIM_CHECK(r->ok, "not-registered", "the callback of the failed registration %u was invoked", r->id);
        ++r->called;
        SIM_CHECK(r->called == 1, "double-callback", "the callback of registration %u ran %u times", r->id, r->called);
        SIM_CHECK(r->cleaned == 0, "callback-after-cleanup", "the callback of registration %u ran after its cleanup", r->id);
        Coro& c = coros[(size_t) r->coro];
        SIM_CHECK(c.current == r, "stale-callback", "the replaced registration %u was invoked", r->id);
        SIM_CHECK(!c.done, "double-completion", "coroutine %d completed twice", r->coro);
        r->in_call = true;
        c.done = true;
        c.expected = r;
        if (c.h)
            SIM_CHECK(api::value_same(v, coro, c.h->get()), "wrong-coroutine", "the callback of coroutine %d received another object", r->coro);
        check_result(r->coro, coro);
        act(r, coro);
        r->in_call = false;
        stat("callbacks");
    }

    void check_result(int i, tiro_handle_t coro) {
        Coro& c = coros[(size_t) i];
        SIM_CHECK(api::coroutine_completed(vm, coro), "not-completed", "coroutine %d is not completed in its callback", i);
        H r(vm);
        Err e;
        api::coroutine_result(vm, coro, r.get(), &e);
        expect_ok(e, "coroutine_result");
        bool good = api::result_is_success(vm, r);
        if (faulty_run || c.doomed)
            return;
        bool want = c.fn != Boom && c.fn != Deep && !c.failed;
        SIM_CHECK(good == want, "wrong-result", "coroutine %d (%s) completed with %s", i, fn_names[c.fn], render(vm, r).c_str());
        if (good) {
            H x(vm);
            api::result_value(vm, r, x.get(), &e);
            SIM_CHECK(api::integer_value(vm, x) == c.arg + 1, "wrong-result", "coroutine %d (%s) returned %s instead of %lld", i, fn_names[c.fn],
                render(vm, x).c_str(), (long long) c.arg + 1);
        }
    }

    // what the callback does: a few things in a row
    void act(Reg* r, tiro_handle_t coro) {
        act(r, coro, r->action);
        const u32 n = s.weighted({5, 3, 1, 1});
        for (u32 i = 0; i < n; ++i)
            act(r, coro, s.weighted({0, 2, 3, 1, 1, 3, 1, 1, 2}));
    }
    void act(Reg* r, tiro_handle_t coro, u32 action) {
        Err e;
        switch (action) {
        case 0:
            break;
        case 1:
            for (u32 i = 0; i < 6; ++i)
                api::make_tuple(vm, 10 + r->param, t1->get(), &e);
            break;
        case 2:
            gc_now(vm.heap);
            probe("collection_in_callback");
            break;
        case 3: { // nested run
            api::vm_run_ready(vm, &e);
            SIM_CHECK(!e.ok(), "nested-run", "a nested run_ready succeeded");
            probe("nested_run_ready");
            break;
        }
        case 4: // forget the handle of the coroutine
            coros[(size_t) r->coro].h.reset();
            probe("handle_freed_in_callback");
            break;
        case 5: // register another callback at the completed coroutine
            set_callback_at(r->coro, coro, 0);
            probe("registration_in_callback");
            break;
        case 6:
            if (!coros.empty()) {
                int j = (int) (r->param % coros.size());
                if (coros[(size_t) j].h)
                    set_callback_at(j, coros[(size_t) j].h->get(), 0);
            }
            break;
        case 7:
            for (size_t i = 0; i < coros.size(); ++i)
                if (coros[i].h && !coros[i].started) {
                    start((int) i);
                    probe("start_in_callback");
                    break;
                }
            break;
        case 8:
            if (!pend.empty()) {
                complete(r->param % pend.size(), r->param & 1);
                probe("completion_in_callback");
            }
            break;
        }
    }

    void set_callback_at(int i, tiro_handle_t coro, u32 misuse) {
        Reg& r = regs.emplace_back();
        r.sim = this;
        r.id = (u32) regs.size();
        r.coro = i;
        r.has_cleanup = !s.chance(1, 5);
        r.action = s.pick(9);
        r.param = s.pick(16);
        Err e;
        tiro_coroutine_cleanup_t cl = r.has_cleanup ? on_cleanup : nullptr;
        tiro_errc_t want = TIRO_OK;
        trace("register %u at coroutine %d, cleanup %d misuse %u", r.id, i, r.has_cleanup, misuse);
        Coro* c = i >= 0 ? &coros[(size_t) i] : nullptr;
        if (c && !c->done && api::coroutine_completed(vm, coro)) { // it had no callback to tell us
            SIM_CHECK(!c->current, "callback-missing", "coroutine %d completed but its callback (registration %u) was not invoked", i, c->current->id);
            c->done = true;
        }
        Reg* old = c ? c->current : nullptr;
        switch (misuse) {
        case 1:
            api::coroutine_set_callback(vm, coro, (tiro_coroutine_callback_t) nullptr, cl, (void*) &r, &e);
            want = TIRO_ERROR_BAD_ARG;
            break;
        case 2:
            api::coroutine_set_callback(vm, (tiro_handle_t) nullptr, on_callback, cl, (void*) &r, &e);
            want = TIRO_ERROR_BAD_ARG;
            break;
        case 3: {
            api::make_integer(vm, 5, t1->get(), &e);
            expect_ok(e, "make_integer");
            api::coroutine_set_callback(vm, t1->get(), on_callback, cl, (void*) &r, &e);
            want = TIRO_ERROR_BAD_TYPE;
            break;
        }
        case 4: {
            api::coroutine_set_callback((tiro_vm_t) nullptr, coro, on_callback, cl, (void*) &r, &e);
            want = TIRO_ERROR_BAD_ARG;
            break;
        }
        default: {
            if (old)
                old->replaced = !c->done;
            api::coroutine_set_callback(vm, coro, on_callback, cl, (void*) &r, &e);
            if (e.code() == TIRO_ERROR_ALLOC) {
                SIM_CHECK(mem.failed > 0 || in_fault, "alloc-error", "allocation failure without a refused allocation");
                if (old)
                    old->replaced = false;
                probe("registration_refused_memory");
            } else {
                expect_ok(e, "coroutine_set_callback");
                r.ok = true;
                SIM_CHECK(r.cleaned == 0, "early-cleanup", "the cleanup of registration %u ran although it succeeded", r.id);
                if (old && !c->done)
                    probe("callback_replaced");
                if (!c->done)
                    c->current = &r;
                else {
                    r.replaced = true; // may be cleaned at any time, will never be called
                    probe("registered_after_completion");
                }
            }
        }
        }
        if (want != TIRO_OK) {
            SIM_CHECK(e.code() == want, "misuse", "set_callback with misuse %u returned %s", misuse, e.str().c_str());
            fault("bad_registration");
        }
        if (!r.ok) {
            SIM_CHECK(r.cleaned == (r.has_cleanup ? 1u : 0u), "failed-registration", "registration %u failed but its cleanup ran %u times", r.id, r.cleaned);
            if (old && !old->replaced && !old->called)
                SIM_CHECK(old->cleaned == 0, "failed-registration", "the failed registration %u removed the registered callback %u", r.id, old->id);
        }
    }

    bool in_fault = false;

    void start(int i) {
        Err e;
        Coro& c = coros[(size_t) i];
        trace("start %d", i);
        api::coroutine_start(vm, c.h->get(), &e);
        if (c.started) {
            SIM_CHECK(e.code() == TIRO_ERROR_BAD_STATE, "double-start", "starting coroutine %d twice returned %s", i, e.str().c_str());
            return;
        }
        expect_ok(e, "coroutine_start");
        c.started = true;
    }

    void complete(size_t k, bool panic) {
        Pending p = pend[k];
        pend.erase(pend.begin() + (long) k);
        Err e;
        trace("complete token of coroutine %d panic %d", p.coro, panic);
        Coro* c = p.coro >= 0 ? &coros[(size_t) p.coro] : nullptr;
        if (panic) {
            api::async_token_panic_msg(p.token, ts("late"), &e);
            if (c)
                c->failed = true;
        } else {
            H v(vm);
            api::make_integer(vm, c ? c->arg : 0, v.get(), &e);
            api::async_token_return_value(p.token, v.get(), &e);
        }
        expect_ok(e, "token completion");
        api::async_token_free(p.token);
    }

    void run_ready(bool with_oom) {
        Err e;
        trace("run_ready%s", with_oom ? " with refused memory" : "");
        const u64 failed = mem.failed;
        faulty_run = with_oom;
        if (with_oom) {
            oom_after = (i64) s.pick(30);
            oom_count = 1 + s.pick(2);
        }
        running = true;
        api::vm_run_ready(vm, &e);
        for (int i = 0; i < 64 && !e.ok() && e.code() == TIRO_ERROR_INTERNAL && e.details().find("stack overflow") != std::string::npos; ++i) {
            // the offender is lost, everybody else continues
            bool deep = false;
            for (auto& c : coros)
                if (c.fn == Deep && c.started) {
                    deep = true;
                    if (c.h && !api::coroutine_completed(vm, c.h->get()))
                        c.abandoned = c.doomed = true;
                    else if (!c.h)
                        c.abandoned = c.doomed = true;
                }
            SIM_CHECK(deep, "run-error", "stack overflow without deep recursion");
            probe("stack_overflow");
            api::vm_run_ready(vm, &e);
        }
        running = false;
        oom_reset();
        faulty_run = false;
        if (!e.ok()) {
            SIM_CHECK(with_oom && mem.failed > failed && e.code() == TIRO_ERROR_ALLOC, "run-error", "run_ready failed: %s", e.str().c_str());
            fault("run_refused_memory");
            probe("run_interrupted");
            // the interrupted coroutine is abandoned, the others stay ready
            for (auto& c : coros)
                if (c.started && !c.done)
                    c.doomed = true;
        } else {
            if (with_oom && mem.failed > failed)
                for (auto& c : coros)
                    if (c.started && !c.done)
                        c.doomed = true;
            SIM_CHECK(!api::vm_has_ready(vm), "still-ready", "coroutines are ready after run_ready");
        }
        for (auto& r : regs)
            if (r.called)
                SIM_CHECK(r.cleaned == (r.has_cleanup ? 1u : 0u), "cleanup-missing", "the callback of registration %u ran but its cleanup did not", r.id);
        for (size_t i = 0; i < coros.size(); ++i)
            check_coro((int) i);
    }

    void check_coro(int i) {
        Coro& c = coros[(size_t) i];
        if (c.h) {
            bool done = api::coroutine_completed(vm, c.h->get());
            if (!done && c.done)
                fail("wrong-state", "coroutine %d called its callback but is not completed", i);
            if (done && !c.done) {
                SIM_CHECK(!c.current, "callback-missing", "coroutine %d completed but its callback (registration %u) was not invoked", i, c.current->id);
                c.done = true;
            }
            SIM_CHECK(api::coroutine_started(vm, c.h->get()) == c.started, "wrong-state", "coroutine %d: started is wrong", i);
        }
        if (c.doomed || !c.started || c.done)
            return;
        // progress: everything that is not waiting for the host must be done
        bool waits = c.fn == Lost;
        for (auto& p : pend)
            if (p.coro == i)
                waits = true;
        if (!waits && (c.h || c.current)) {
            SIM_CHECK(!c.current, "callback-missing", "coroutine %d (%s) has run but its callback (registration %u) was not invoked", i, fn_names[c.fn],
                c.current->id);
            SIM_CHECK(!c.h, "stuck", "coroutine %d (%s) did not complete", i, fn_names[c.fn]);
        }
    }

    int some_coro() {
        std::vector<int> have;
        for (size_t i = 0; i < coros.size(); ++i)
            if (coros[i].h)
                have.push_back((int) i);
        return have.empty() ? -1 : have[s.pick((u32) have.size())];
    }

    void step(u32 oom) {
        Seg seg(s);
        Err e;
        const bool f = oom && s.chance(1, oom);
        switch (s.weighted({6, 7, 5, 4, 3, 2, 1, 1})) {
        case 0: {
            if (coros.size() > 60)
                return;
            u32 fn = s.pick(deep_allowed && deep_count < 2 ? FnCount : Deep);
            deep_count += fn == Deep;
            i64 arg = next_arg++ * 10;
            H args(vm), a(vm);
            api::make_tuple(vm, 1, args.get(), &e);
            api::make_integer(vm, arg, a.get(), &e);
            api::tuple_set(vm, args.get(), 0, a.get(), &e);
            auto h = std::make_unique<H>(vm);
            if (f) {
                oom_after = s.pick(4);
                oom_count = 1;
            }
            api::make_coroutine(vm, fns[fn].get(), args.get(), h->get(), &e);
            oom_reset();
            if (f && e.code() == TIRO_ERROR_ALLOC) {
                fault("coroutine_refused_memory");
                return;
            }
            expect_ok(e, "make_coroutine");
            trace("coroutine %zu = %s(%lld)", coros.size(), fn_names[fn], (long long) arg);
            Coro& c = coros.emplace_back();
            c.h = std::move(h);
            c.fn = (int) fn;
            c.arg = arg;
            break;
        }
        case 1: {
            int i = some_coro();
            if (i < 0)
                return;
            u32 misuse = s.chance(1, 6) ? 1 + s.pick(4) : 0;
            if (f && !misuse) {
                oom_after = s.pick(3);
                oom_count = 1;
                in_fault = true;
            }
            if (f && s.chance(1, 3) && !misuse) { // a refused heap allocation without system allocation
                oom_reset();
                int left = (int) s.pick(2);
                on_heap_alloc = [left](void*, size_t) mutable { return left-- == 0 ? 2 : 0; };
            }
            set_callback_at(i, coros[(size_t) i].h->get(), misuse);
            on_heap_alloc = nullptr;
            oom_reset();
            in_fault = false;
            break;
        }
        case 2: {
            int i = some_coro();
            if (i >= 0)
                start(i);
            break;
        }
        case 3:
            run_ready(f);
            break;
        case 4:
            if (!pend.empty()) {
                u32 k = s.pick((u32) pend.size());
                complete(k, s.chance(1, 4));
            }
            break;
        case 5: {
            int i = some_coro();
            if (i >= 0) {
                trace("free handle of coroutine %d", i);
                coros[(size_t) i].h.reset();
            }
            break;
        }
        case 6:
            trace("collect");
            gc_now(vm.heap);
            break;
        case 7:
            if (!pend.empty() && s.chance(1, 2)) { // a completion that will never come
                u32 k = s.pick((u32) pend.size());
                trace("token of coroutine %d is lost", pend[k].coro);
                int ci = pend[k].coro;
                api::async_token_free(pend[k].token);
                pend.erase(pend.begin() + k);
                if (ci >= 0)
                    coros[(size_t) ci].abandoned = coros[(size_t) ci].doomed = true;
                fault("completion_lost");
            }
            break;
        }
    }

    void destroy() {
        trace("destroy");
        bool tokens_first = s.chance(1, 2);
        if (tokens_first) {
            for (auto& p : pend)
                api::async_token_free(p.token);
            pend.clear();
        }
        for (auto& c : coros)
            if (c.h) {
                if (!tokens_first)
                    c.h->release(); // remaining handles are released by the machine
                c.h.reset();
            }
        t1.reset();
        t2.reset();
        fns.clear();
        u32 waiting = 0;
        for (auto& c : coros)
            waiting += c.started && !c.done;
        if (waiting)
            fault("machine_destroyed_with_waiting_coroutines");
        dead = true;
        vm.destroy();
        for (auto& r : regs) {
            if (r.has_cleanup)
                SIM_CHECK(r.cleaned == 1, "cleanup-missing", "the cleanup of registration %u ran %u times although the machine is gone", r.id, r.cleaned);
        }
    }
};
} // namespace

SCENARIO(c08_callbacks, "C08.callbacks", "C08", 6) {
    Stream& k = stream("knobs");
    Stream& s = stream("ops");
    VmOptions o;
    o.page_size = (size_t) 1 << (16 + k.pick(4));
    u32 oom = std::vector<u32>{0, 12, 5}[k.pick(3)];
    u32 steps = 10 + k.pick(120);
    {
        Sim8 w(k, s, o);
        w.deep_allowed = k.chance(1, 14);
        if (k.chance(1, 2))
            gc_setup("gc", GcMode::Gaps, std::vector<u32>{100, 20, 4, 1}[k.pick(4)], 600);
        for (u32 i = 0; i < steps; ++i)
            w.step(oom);
        if (s.chance(1, 3)) { // let everything finish
            w.run_ready(false);
            while (!w.pend.empty()) {
                while (!w.pend.empty())
                    w.complete(s.pick((u32) w.pend.size()), false);
                w.run_ready(false);
            }
        }
        w.destroy();
    }
    SIM_CHECK(mem.live_blocks == 0, "leak", "%llu blocks (%llu bytes) are still allocated after the machine was destroyed: %s",
        (unsigned long long) mem.live_blocks, (unsigned long long) mem.live_bytes, arena_leaks(4).c_str());
}
