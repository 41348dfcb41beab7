// C07: asynchronous native calls and their tokens. Workers suspend in asynchronous functions, park with tokens of their
// own, dispatch and run; the host completes tokens in any order, too early, twice, too late, and from everywhere.
#include "host.hpp"

#include <algorithm>
#include <deque>
using namespace sim;

namespace {

struct Epoch { // one suspension of one worker (or the one it may enter next)
    u32 worker;
};
using EpochP = std::shared_ptr<Epoch>;

enum State { Ready, Running, Async, Park, Done };

struct Expect {
    enum Kind { Null, Int, Object, Panic } kind = Null;
    i64 value = 0;
    std::shared_ptr<H> object;
    std::string message;
};

struct Worker {
    u32 id = 0;
    State state = Ready;
    EpochP epoch;
    Expect expect;
    bool direct = false;   // the coroutine's function is the asynchronous function itself
    bool helper = false;
    u32 budget = 0;
    u32 depth = 0;
    u32 ticks = 0, want_ticks = 0;
    std::unique_ptr<H> coro;
    u32 callbacks = 0;
};

struct Token {
    tiro_async_token_t raw;
    EpochP epoch;
    u64 uses = 0;
};
struct ScriptToken {
    std::unique_ptr<H> value;
    EpochP epoch;
};

const char* SOURCE = R"(
import std;
import host;
func deep(id, n) {
    if n == 0 { return host.async(id); }
    const r = deep(id, n - 1);
    return r;
}
func act(id, what) {
    if what == 1 { return host.async(id); }
    if what == 2 { host.token(id, std.coroutine_token()); }
    if what == 3 { host.token(id, std.coroutine_token()); host.parking(id); std.yield_coroutine(); }
    if what == 4 { host.dispatching(id); std.dispatch(); }
    if what == 5 { host.parking(id); std.yield_coroutine(); }
    if what == 6 {
        const r = [id, host.async(id), id + 1];
        if r[0] != id || r[2] != id + 1 { host.corrupt(id); }
        return r[1];
    }
    if what == 7 { defer host.tick(id); return deep(id, id % 40); }
    if what == 8 { const t = host.pick(id); if t != null { host.resumed(id, t.valid(), t.resume()); } }
    if what == 9 { const f = func(x) { return host.async(x, 1, 2); }; return f(id); }
    if what == 10 { return host.via(id, host.async); }
    if what == 11 {
        // a token that was acquired before the call
        const t = std.coroutine_token();
        host.token(id, t);
        const r = host.async(id);
        host.check(id, t.valid());
        return r;
    }
    return null;
}
export func worker(id) {
    var going = true;
    while going {
        const what = host.next(id);
        if what == 0 {
            going = false;
        } else {
            const r = std.catch_panic(func() { return act(id, what); });
            if r.is_error() { host.panicked(id, r.error().message()); } else { host.result(id, r.value()); }
        }
    }
    return id;
}
export func helper(id) {
    const t = host.pick(id);
    if t != null { host.resumed(id, t.valid(), t.resume()); }
    host.next(id);
    return id;
}
)";

struct World {
    Stream& s;
    Vm vm;
    std::deque<Worker> workers;
    std::deque<u32> queue; // ready workers
    i64 current = -1;
    std::deque<Token> tokens;
    std::deque<ScriptToken> script_tokens;
    bool draining = false;
    bool in_run = false;
    i64 next_value = 1000;
    u32 depth = 0;
    u32 oom = 0;
    EpochP picked;
    u64 cleanups = 0, registered = 0;
    std::unique_ptr<H> fn_worker, fn_helper, fn_async;

    World(Stream& s, const VmOptions& o)
        : s(s)
        , vm(o)
        , fn_worker(std::make_unique<H>(vm.vm))
        , fn_helper(std::make_unique<H>(vm.vm))
        , fn_async(std::make_unique<H>(vm.vm)) {}

    Worker& w(i64 id) {
        SIM_CHECK(id >= 0 && (size_t) id < workers.size(), "corrupt", "a worker has the identity %lld", (long long) id);
        return workers[(size_t) id];
    }

    void make_ready(Worker& x) {
        x.epoch = nullptr;
        x.state = Ready;
        queue.push_back(x.id);
    }

    // A worker executes: it either continues or is the next one of the ready queue.
    Worker& enter(i64 id) {
        Worker& x = w(id);
        SIM_CHECK(in_run, "order", "worker %lld runs outside of the main loop", (long long) id);
        if (current != id) {
            SIM_CHECK(current < 0 || w(current).state != Running, "order", "worker %lld runs although worker %lld did not stop", (long long) id, (long long) current);
            SIM_CHECK(x.state == Ready, "unexpected-resume", "worker %u runs although it is %s", x.id,
                x.state == Async ? "waiting in an asynchronous function that was not completed"
                : x.state == Park ? "parked and was not resumed"
                                  : "finished");
            SIM_CHECK(!queue.empty() && queue.front() == x.id, "order", "worker %u runs, but worker %u became ready before", x.id, queue.empty() ? 0 : queue.front());
        }
        if (x.state == Ready) {
            // (also a worker that dispatched and is the next one itself)
            SIM_CHECK(!queue.empty() && queue.front() == x.id, "order", "worker %u runs, but worker %u became ready before", x.id, queue.empty() ? 0 : queue.front());
            queue.pop_front();
            x.state = Running;
            x.epoch = nullptr;
            current = id;
            trace("w%u runs", x.id);
        }
        SIM_CHECK(x.state == Running, "unexpected-resume", "worker %u continues although it was suspended", x.id);
        return x;
    }

    // ------------------------------------------------------------ completion
    void complete(size_t i) {
        Token& t = tokens[i];
        Worker& x = w(t.epoch->worker);
        const bool ok = x.epoch == t.epoch && (x.state == Async || x.state == Park);
        SIM_CHECK(!ok || x.state == Async, "model", "token of an asynchronous call is valid for a parked worker");
        const bool panic = s.chance(1, 4);
        Err e;
        Expect ex;
        const bool f = oom && !draining && s.chance(1, oom);
        const u64 failed = mem.failed;
        H v(vm.vm);
        if (panic) {
            ex.kind = Expect::Panic;
            ex.message = strf("panic %lld", (long long) next_value++);
        } else {
            switch (s.pick(4)) {
            case 0:
            case 1:
                ex.kind = Expect::Int;
                ex.value = next_value++;
                api::make_integer(vm, ex.value, v.get(), &e);
                expect_ok(e, "make_integer");
                break;
            case 2:
                ex.kind = Expect::Object;
                ex.object = std::make_shared<H>(vm.vm);
                api::make_array(vm, 0, v.get(), &e);
                expect_ok(e, "make_array");
                api::value_copy(vm, v.get(), ex.object->get(), &e);
                expect_ok(e, "value_copy");
                break;
            case 3:
                break;
            }
        }
        if (f) {
            oom_after = s.pick(4);
            oom_count = s.chance(1, 2) ? 1 : -1;
        }
        if (panic)
            api::async_token_panic_msg(t.raw, ts(ex.message), &e);
        else
            api::async_token_return_value(t.raw, v.get(), &e);
        oom_reset();
        ++t.uses;
        check_not_assert(e, "completion of a token");
        trace("complete token %zu of w%u (%s): %s", i, x.id, panic ? "panic" : "value", e.ok() ? "ok" : tiro_errc_name(e.code()));
        if (f && mem.failed > failed && e.code() == TIRO_ERROR_ALLOC) {
            fault("completion_refused_memory");
            return; // not resumed
        }
        if (ok) {
            SIM_CHECK(e.ok(), "refused", "worker %u waits for this completion, but the token is refused: %s", x.id, e.str().c_str());
            x.expect = ex;
            make_ready(x);
            fault(panic ? "completion_with_panic" : i == 0 ? "completion_in_order" : "completion_out_of_order");
        } else {
            SIM_CHECK(!e.ok(), "accepted", "a token of worker %u is accepted although %s", x.id,
                x.state == Running ? "the worker runs"
                : x.state == Ready ? "the worker was resumed already"
                : x.state == Done  ? "the worker is finished"
                : x.state == Park  ? "the worker parked itself"
                                   : "the worker waits in a different call");
            fault(x.state == Running ? "token_too_early" : x.state == Async ? "token_of_other_call" : x.state == Park ? "token_while_parked" : t.uses > 1 ? "token_used_twice" : "token_too_late");
        }
    }

    void bad_arguments() {
        Err e;
        H v(vm.vm);
        Token& t = tokens[s.pick((u32) tokens.size())];
        switch (s.pick(4)) {
        case 0: api::async_token_return_value(t.raw, nullptr, &e); break;
        case 1: api::async_token_return_value(nullptr, v.get(), &e); break;
        case 2: api::async_token_panic_msg(t.raw, tiro_string_t{nullptr, 3}, &e); break;
        case 3: api::async_token_panic_msg(nullptr, ts("x"), &e); break;
        }
        SIM_CHECK(e.code() == TIRO_ERROR_BAD_ARG, "misuse", "bad arguments are answered with %s", e.ok() ? "success" : e.str().c_str());
        fault("bad_arguments");
    }

    void free_token(size_t i) {
        trace("free token %zu", i);
        api::async_token_free(tokens[i].raw);
        tokens.erase(tokens.begin() + (long) i);
    }

    // something the host may do at any moment, also inside native functions
    void meddle() {
        if (draining || depth > 2)
            return;
        ++depth;
        switch (s.weighted({4, 5, 1, 1, 1})) {
        case 0: break;
        case 1:
            if (!tokens.empty())
                complete(s.pick((u32) tokens.size()));
            break;
        case 2:
            if (!tokens.empty() && s.chance(1, 2))
                free_token(s.pick((u32) tokens.size()));
            break;
        case 3:
            if (!tokens.empty())
                bad_arguments();
            break;
        case 4:
            gc_now(vm.heap);
            fault("forced_collection");
            break;
        }
        --depth;
    }

    void start_worker(u32 kind) { // 0 worker, 1 direct, 2 helper
        if (workers.size() >= 40)
            return;
        Err e;
        workers.emplace_back();
        Worker& x = workers.back();
        x.id = (u32) workers.size() - 1;
        x.budget = 3 + s.pick(14);
        x.direct = kind == 1;
        x.helper = kind == 2;
        H args(vm.vm), v(vm.vm);
        x.coro = std::make_unique<H>(vm.vm);
        api::make_tuple(vm, 1, args.get(), &e);
        expect_ok(e, "make_tuple");
        api::make_integer(vm, x.id, v.get(), &e);
        api::tuple_set(vm, args, 0, v, &e);
        expect_ok(e, "tuple_set");
        api::make_coroutine(vm, kind == 0 ? *fn_worker : kind == 1 ? *fn_async : *fn_helper, args, x.coro->get(), &e);
        expect_ok(e, "make_coroutine");
        ++registered;
        api::coroutine_set_callback(vm, *x.coro, done, cleanup, new std::pair<World*, u32>(this, x.id), &e);
        expect_ok(e, "coroutine_set_callback");
        api::coroutine_start(vm, *x.coro, &e);
        expect_ok(e, "coroutine_start");
        trace("start %s w%u", kind == 0 ? "worker" : kind == 1 ? "direct" : "helper", x.id);
        make_ready(x);
        if (s.chance(1, 3))
            x.coro.reset();
    }

    void verify(Worker& x, tiro_handle_t value, bool panic, const std::string& message) {
        Expect ex = std::move(x.expect);
        x.expect = {};
        if (ex.kind == Expect::Panic) {
            SIM_CHECK(panic, "wrong-outcome", "worker %u received a value (%s) instead of the panic '%s'", x.id, render(vm, value).c_str(), ex.message.c_str());
            SIM_CHECK(message == ex.message, "wrong-outcome", "worker %u received the panic '%s' instead of '%s'", x.id, message.c_str(), ex.message.c_str());
            return;
        }
        SIM_CHECK(!panic, "wrong-outcome", "worker %u received the panic '%s' instead of a value", x.id, message.c_str());
        bool same = false;
        if (ex.kind == Expect::Null)
            same = api::value_kind(vm, value) == TIRO_KIND_NULL;
        else if (ex.kind == Expect::Int)
            same = api::value_kind(vm, value) == TIRO_KIND_INTEGER && api::integer_value(vm, value) == ex.value;
        else
            same = api::value_same(vm, value, ex.object->get());
        SIM_CHECK(same, "wrong-outcome", "worker %u received %s instead of %s", x.id, render(vm, value).c_str(),
            ex.kind == Expect::Null  ? "null"
            : ex.kind == Expect::Int ? strf("%lld", (long long) ex.value).c_str()
                                     : "the object that was provided");
    }

    static void done(tiro_vm_t vm, tiro_handle_t coro, void* ud) {
        InHost h;
        auto* p = (std::pair<World*, u32>*) ud;
        World& me = *p->first;
        Worker& x = me.w(p->second);
        SIM_CHECK(++x.callbacks == 1, "callback-count", "the callback of worker %u ran %u times", x.id, x.callbacks);
        Err e;
        H r(vm), v(vm);
        api::coroutine_result(vm, coro, r.get(), &e);
        expect_ok(e, "coroutine_result");
        if (x.direct) {
            if (x.state == Ready) { // its native function was continued
                me.enter(x.id);
            }
            SIM_CHECK(x.state == Running, "unexpected-resume", "direct worker %u finished although it was not resumed", x.id);
            x.state = Done;
            x.epoch = nullptr;
            const bool ok = api::result_is_success(vm, r);
            std::string message;
            if (ok) {
                api::result_value(vm, r, v.get(), &e);
            } else {
                api::result_error(vm, r, v.get(), &e);
                H m(vm);
                api::exception_message(vm, v, m.get(), &e);
                tiro_string_t t;
                api::string_value(vm, m, &t, &e);
                message = str(t);
            }
            me.verify(x, v, !ok, message);
        } else {
            SIM_CHECK(x.state == Done, "unexpected-completion", "worker %u completed: %s", x.id, render(vm, r).c_str());
            api::result_value(vm, r, v.get(), &e);
            SIM_CHECK(e.ok() && api::integer_value(vm, v) == x.id, "wrong-outcome", "worker %u completed with %s", x.id, render(vm, r).c_str());
            SIM_CHECK(x.ticks == x.want_ticks, "deferred", "worker %u: %u of %u deferred calls ran", x.id, x.ticks, x.want_ticks);
        }
        trace("w%u done", x.id);
        me.meddle();
    }
    static void cleanup(void* ud) {
        InHost h;
        auto* p = (std::pair<World*, u32>*) ud;
        ++p->first->cleanups;
        delete p;
    }

    // ------------------------------------------------------------ natives
    static i64 int_arg(tiro_vm_t vm, tiro_sync_frame_t f, size_t i) {
        Err e;
        H a(vm);
        api::sync_frame_arg(f, i, a.get(), &e);
        expect_ok(e, "sync_frame_arg");
        return api::integer_value(vm, a);
    }

    void async(tiro_vm_t v, tiro_async_frame_t f) {
        Err e;
        H a(v);
        api::async_frame_arg(f, 0, a.get(), &e);
        expect_ok(e, "async_frame_arg");
        Worker& x = enter(api::integer_value(v, a));
        x.expect = {};
        EpochP outer = x.epoch;
        x.epoch = nullptr;
        const u32 style = draining ? 1 : s.weighted({1, 8, 3, 1});
        u32 n = s.weighted({6, 2, 1});
        if (style == 0) // suspends without a token: lost
            n = 0;
        else if (style == 1)
            n += 1;
        for (u32 i = 0; i < n; ++i) {
            const bool refuse = oom && !draining && s.chance(1, oom);
            const u64 failed = mem.failed;
            if (refuse) {
                oom_after = s.pick(3);
                oom_count = 1;
            }
            auto t = api::async_frame_token(f, &e);
            oom_reset();
            if (refuse && mem.failed > failed && e.code() == TIRO_ERROR_ALLOC) {
                fault("token_refused_memory");
                SIM_CHECK(!t, "error-and-token", "tiro_async_frame_token fails and returns a token");
                continue;
            }
            expect_ok(e, "async_frame_token");
            SIM_CHECK(t, "no-token", "tiro_async_frame_token returns NULL");
            if (!x.epoch)
                x.epoch = std::make_shared<Epoch>(Epoch{x.id});
            tokens.push_back({t, x.epoch});
            trace("w%u acquires token %zu", x.id, tokens.size() - 1);
            if (!draining && s.chance(1, 6))
                complete(tokens.size() - 1); // too early
        }
        if (s.chance(1, 6))
            meddle();
        switch (style) {
        case 0:
        case 1:
            api::async_frame_yield(f, &e);
            expect_ok(e, "async_frame_yield");
            x.state = Async;
            trace("w%u waits", x.id);
            probe("suspended_in_async");
            probe("suspended_below_own_token", outer != nullptr);
            break;
        case 2: { // returns at once, perhaps with tokens left
            H r(v);
            x.expect.kind = Expect::Int;
            x.expect.value = next_value++;
            api::make_integer(v, x.expect.value, r.get(), &e);
            expect_ok(e, "make_integer");
            api::async_frame_return_value(f, r, &e);
            expect_ok(e, "async_frame_return_value");
            probe("returned_with_token", x.epoch != nullptr);
            x.epoch = outer;
            trace("w%u returns", x.id);
            break;
        }
        case 3:
            x.expect.kind = Expect::Panic;
            x.expect.message = strf("immediate %lld", (long long) next_value++);
            api::async_frame_panic_msg(f, ts(x.expect.message), &e);
            expect_ok(e, "async_frame_panic_msg");
            x.epoch = outer;
            trace("w%u panics", x.id);
            break;
        }
    }

    void setup() {
        std::vector<std::pair<std::string, H>> m;
        m.emplace_back("async", make_async(vm, "async", 1, [this](tiro_vm_t v, tiro_async_frame_t f) { async(v, f); }));
        Err e;
        api::value_copy(vm, m[0].second.get(), fn_async->get(), &e);
        expect_ok(e, "value_copy");
        auto sync = [&](const char* name, size_t argc, SyncFn fn) { m.emplace_back(name, make_sync(vm, name, argc, std::move(fn))); };
        auto ret_int = [](tiro_vm_t v, tiro_sync_frame_t f, i64 n) {
            Err e;
            H r(v);
            api::make_integer(v, n, r.get(), &e);
            api::sync_frame_return_value(f, r, &e);
            expect_ok(e, "sync_frame_return_value");
        };
        sync("next", 1, [this, ret_int](tiro_vm_t v, tiro_sync_frame_t f) {
            Worker& x = enter(int_arg(v, f, 0));
            meddle();
            u32 what = 0;
            if (x.budget && !x.helper && !draining) {
                --x.budget;
                what = 1 + s.weighted({8, 2, 4, 2, 1, 3, 3, 3, 2, 2, 4});
            }
            trace("w%u next %u", x.id, what);
            x.expect = {};
            if (what == 7)
                ++x.want_ticks;
            if (what == 0) {
                x.state = Done;
                x.epoch = nullptr;
            }
            ret_int(v, f, what);
        });
        sync("token", 2, [this](tiro_vm_t v, tiro_sync_frame_t f) {
            Worker& x = enter(int_arg(v, f, 0));
            if (!x.epoch)
                x.epoch = std::make_shared<Epoch>(Epoch{x.id});
            Err e;
            auto h = std::make_unique<H>(v);
            api::sync_frame_arg(f, 1, h->get(), &e);
            expect_ok(e, "sync_frame_arg");
            for (auto& t : script_tokens)
                SIM_CHECK(api::value_same(v, t.value->get(), h->get()) == (t.epoch == x.epoch), "token-identity",
                    "std.coroutine_token() of worker %u %s", x.id, t.epoch == x.epoch ? "is not the token that was returned before" : "returns an old token");
            if (script_tokens.size() > 30)
                script_tokens.pop_front();
            script_tokens.push_back({std::move(h), x.epoch});
            trace("w%u publishes a token", x.id);
            meddle();
        });
        sync("parking", 1, [this](tiro_vm_t v, tiro_sync_frame_t f) {
            Worker& x = enter(int_arg(v, f, 0));
            meddle();
            x.state = Park; // std.yield_coroutine() follows
            trace("w%u parks", x.id);
        });
        sync("dispatching", 1, [this](tiro_vm_t v, tiro_sync_frame_t f) {
            Worker& x = enter(int_arg(v, f, 0));
            meddle();
            make_ready(x);
            trace("w%u dispatches", x.id);
        });
        sync("corrupt", 1, [](tiro_vm_t v, tiro_sync_frame_t f) {
            fail("corrupt", "worker %lld: a partially evaluated expression changed", (long long) int_arg(v, f, 0));
        });
        sync("tick", 1, [this](tiro_vm_t v, tiro_sync_frame_t f) {
            Worker& x = enter(int_arg(v, f, 0));
            ++x.ticks;
        });
        sync("pick", 1, [this](tiro_vm_t v, tiro_sync_frame_t f) {
            enter(int_arg(v, f, 0));
            picked = nullptr;
            if (script_tokens.empty() || draining)
                return;
            auto& t = script_tokens[script_tokens.size() - 1 - s.pick((u32) script_tokens.size())];
            Err e;
            api::sync_frame_return_value(f, t.value->get(), &e);
            expect_ok(e, "sync_frame_return_value");
            picked = t.epoch;
        });
        sync("resumed", 3, [this](tiro_vm_t v, tiro_sync_frame_t f) {
            Worker& me = w(int_arg(v, f, 0));
            SIM_CHECK(picked, "model", "no token was picked");
            Worker& x = w(picked->worker);
            Err e;
            H a(v), b(v);
            api::sync_frame_arg(f, 1, a.get(), &e);
            api::sync_frame_arg(f, 2, b.get(), &e);
            const bool valid = api::boolean_value(v, a), ok = api::boolean_value(v, b);
            const bool want_valid = x.epoch == picked;
            const bool want = want_valid && x.state == Park;
            trace("w%u resumes w%u: %d %d", me.id, x.id, valid, ok);
            SIM_CHECK(valid == want_valid, "token-valid", "a token of worker %u is reported as %s", x.id, valid ? "valid" : "invalid");
            SIM_CHECK(ok == want, ok ? "accepted" : "refused", "resuming worker %u with a token of its own returns %s", x.id, ok ? "true" : "false");
            if (ok)
                make_ready(x);
            fault(ok ? "script_resume" : want_valid ? "script_resume_too_early" : "script_resume_stale");
            enter(me.id);
        });
        sync("check", 2, [this](tiro_vm_t v, tiro_sync_frame_t f) {
            Worker& x = enter(int_arg(v, f, 0));
            Err e;
            H a(v);
            api::sync_frame_arg(f, 1, a.get(), &e);
            const bool valid = api::boolean_value(v, a);
            // still valid only if the worker was not suspended in between
            SIM_CHECK(valid == (x.epoch != nullptr), "token-valid", "worker %u: the token acquired before the call is %s", x.id, valid ? "valid" : "invalid");
        });
        sync("result", 2, [this](tiro_vm_t v, tiro_sync_frame_t f) {
            Worker& x = enter(int_arg(v, f, 0));
            Err e;
            H a(v);
            api::sync_frame_arg(f, 1, a.get(), &e);
            expect_ok(e, "sync_frame_arg");
            verify(x, a, false, "");
            trace("w%u result", x.id);
        });
        sync("panicked", 2, [this](tiro_vm_t v, tiro_sync_frame_t f) {
            Worker& x = enter(int_arg(v, f, 0));
            Err e;
            H a(v);
            api::sync_frame_arg(f, 1, a.get(), &e);
            expect_ok(e, "sync_frame_arg");
            tiro_string_t t;
            api::string_value(v, a, &t, &e);
            expect_ok(e, "string_value");
            verify(x, a, true, str(t));
            trace("w%u panicked", x.id);
        });
        m.emplace_back("via", make_resumable(vm, "via", 2, 0, [](tiro_vm_t v, tiro_resumable_frame_t f) {
            Err e;
            H a(v), b(v);
            if (api::resumable_frame_state(f) == TIRO_RESUMABLE_STATE_START) {
                H args(v);
                api::resumable_frame_arg(f, 0, b.get(), &e);
                api::resumable_frame_arg(f, 1, a.get(), &e);
                expect_ok(e, "resumable_frame_arg");
                api::make_tuple(v, 1, args.get(), &e);
                api::tuple_set(v, args, 0, b, &e);
                expect_ok(e, "tuple_set");
                api::resumable_frame_invoke(f, 1, a, args, &e);
                expect_ok(e, "resumable_frame_invoke");
            } else if (api::resumable_frame_state(f) == 1) {
                api::resumable_frame_invoke_return(f, a.get(), &e);
                expect_ok(e, "resumable_frame_invoke_return");
                api::resumable_frame_return_value(f, a, &e);
                expect_ok(e, "resumable_frame_return_value");
            }
        }));
        make_module(vm, "host", std::move(m));
        vm.load_source("prog", SOURCE);
        *fn_worker = vm.fn("prog", "worker");
        *fn_helper = vm.fn("prog", "helper");
    }

    void turn() {
        trace("turn");
        Err e;
        current = -1;
        in_run = true;
        api::vm_run_ready(vm, &e);
        in_run = false;
        expect_ok(e, "run_ready");
        SIM_CHECK(!api::vm_has_ready(vm), "no-progress", "coroutines are ready after the main loop returned");
        SIM_CHECK(queue.empty(), "lost-resume", "worker %u is ready but did not run", queue.front());
        for (auto& x : workers) {
            SIM_CHECK(x.state != Running, "lost", "worker %u neither finished nor suspended", x.id);
            SIM_CHECK(x.callbacks == (x.state == Done), "callback-count", "worker %u is %s, its callback ran %u times", x.id,
                x.state == Done ? "finished" : "waiting", x.callbacks);
            if (x.coro)
                SIM_CHECK(api::coroutine_completed(vm, *x.coro) == (x.state == Done), "completion", "worker %u is reported as %s", x.id,
                    x.state == Done ? "not completed" : "completed");
        }
    }

    void step() {
        Seg seg(s);
        switch (s.weighted({3, 6, 5, 2, 1, 1})) {
        case 0: start_worker(s.weighted({5, 2, 1})); break;
        case 1:
            if (!tokens.empty())
                complete(s.pick((u32) tokens.size()));
            break;
        case 2: turn(); break;
        case 3: meddle(); break;
        case 4:
            if (!script_tokens.empty()) {
                trace("drop a script token");
                script_tokens.erase(script_tokens.begin() + s.pick((u32) script_tokens.size()));
            }
            break;
        case 5:
            if (!script_tokens.empty())
                start_worker(2);
            break;
        }
    }
};

} // namespace

SCENARIO(c07_tokens, "C07.tokens", "C07", 3) {
    Stream& k = stream("knobs");
    Stream& s = stream("ops");
    VmOptions o;
    o.page_size = (size_t) 1 << (16 + k.pick(3));
    o.stack_trace = k.chance(1, 8);
    {
        World w(s, o);
        w.setup();
        if (k.chance(1, 2))
            gc_setup("gc", GcMode::Gaps, 60, 300);
        if (k.chance(1, 3))
            w.oom = 2 + k.pick(6);
        const u32 steps = 10 + k.pick(thorough() ? 200 : 80);
        for (u32 i = 0; i < steps; ++i)
            w.step();
        if (k.chance(3, 4)) {
            // misuse and faults have stopped: everybody somebody still holds a token of finishes
            w.draining = true;
            trace("drain");
            w.turn();
            for (u32 round = 0; round < 200; ++round) {
                bool any = false;
                for (size_t i = 0; i < w.tokens.size(); ++i) {
                    Worker& x = w.w(w.tokens[i].epoch->worker);
                    if (x.epoch == w.tokens[i].epoch && x.state == Async) {
                        w.complete(i);
                        any = true;
                    }
                }
                if (!any)
                    break;
                w.turn();
            }
            u32 unfinished = 0;
            for (auto& x : w.workers) {
                for (auto& t : w.tokens)
                    SIM_CHECK(x.state == Done || x.epoch != t.epoch, "no-progress", "worker %u does not finish", x.id);
                unfinished += x.state != Done;
            }
            probe(unfinished ? "lost_workers" : "all_finished");
        }
        while (!w.tokens.empty())
            w.free_token(w.tokens.size() - 1);
        if (s.chance(1, 2))
            gc_now(w.vm.heap);
        for (auto& x : w.workers) {
            x.coro.reset();
            x.expect = {};
        }
        w.script_tokens.clear();
        w.fn_worker.reset();
        w.fn_helper.reset();
        w.fn_async.reset();
        w.vm.destroy();
        SIM_CHECK(w.cleanups == w.registered, "cleanup-count", "%llu callbacks were registered, %llu cleanups ran", (unsigned long long) w.registered,
            (unsigned long long) w.cleanups);
        trace("%zu workers", w.workers.size());
    }
    natives.sync.clear();
    natives.async.clear();
    natives.res.clear();
    arena_check();
    SIM_CHECK(mem.live_blocks == 0, "leak", "%llu blocks (%llu bytes) are still allocated after the machine was destroyed: %s",
        (unsigned long long) mem.live_blocks, (unsigned long long) mem.live_bytes, arena_leaks(4).c_str());
}
