// C10: resumable native functions against a model of their activations.
#include "host.hpp"

#include <deque>
#include <map>

using namespace sim;

namespace {
constexpr const char* source = R"(
import std;
import host;
export func zero() { return 7; }
export func echo(x) { return x; }
export func pair(a, b) { return [a, b]; }
export func pause(x) { const k = [x]; std.dispatch(); std.dispatch(); return k[0]; }
export func wait(id) { const k = [id]; const r = host.nap(id); if k[0] != id { std.panic("lost"); } return r; }
export func boom(msg) { std.panic(msg); }
export func through(f, id, a, b) { const x = [id]; const r = f(id, a, b); return [x[0], r]; }
export func method(f, id, a, b) { const o = (run: f, other: id); const r = o.run(id, a, b); return [o.other, r]; }
export func extra(f, id, a, b) { return f(id, a, b, "extra", id); }
export func guard(f, id, a, b) {
    const r = std.catch_panic(func() { return f(id, a, b); });
    if r.is_success() { return [0, r.value()]; }
    return [1, r.error().message()];
}
export func dig(f, id, a, b, n) {
    if n == 0 { return f(id, a, b); }
    const k = [n];
    const r = dig(f, id, a, b, n - 1);
    if k[0] != n { std.panic("frame lost"); }
    return r;
}
export func sum(f, id, a, b) { return id + 1 - 1 - id + f(id, a, b); }
export func clean(f, id, a, b) { defer host.mark(id); return f(id, a, b); }
export func spawn(f, id, a, b) { std.launch(f, id, a, b); return 1; }
)";

struct Val {
    enum K { Null, Int, Str, Arr } k = Null;
    i64 i = 0;
    std::string s;
    std::vector<Val> kids;
    static Val integer(i64 x) { Val v; v.k = Int; v.i = x; return v; }
    static Val string(std::string x) { Val v; v.k = Str; v.s = std::move(x); return v; }
    static Val array(std::vector<Val> x) { Val v; v.k = Arr; v.kids = std::move(x); return v; }
    std::string str() const {
        switch (k) {
        case Null: return "null";
        case Int: return strf("%lld", (long long) i);
        case Str: return "\"" + s.substr(0, 30) + "\"";
        case Arr: {
            std::string r = "[";
            for (auto& x : kids)
                r += (r.size() > 1 ? ", " : "") + x.str();
            return r + "]";
        }
        }
        return "?";
    }
};
struct Outcome {
    bool ok = true;
    Val v; // value or message
};

enum Wrap { Direct, Through, Method, Extra, Guard, Dig, Sum, Clean, WrapCount };
const char* wrap_names[] = {"", "through", "method", "extra", "guard", "dig", "sum", "clean"};

struct Act;
struct Coro10 {
    std::unique_ptr<H> h;
    bool over = false; // the model knows the outcome
    Outcome want;
    bool checked = false;
};
struct Parent {
    Act* act = nullptr;
    Coro10* coro = nullptr; // both null: launched, nobody looks
    Wrap wrap = Direct;
};
struct Act {
    i64 id;
    u32 fn;
    std::vector<Val> args, locals;
    int state = 0;
    int depth = 0;
    u32 left = 0;     // entries left
    bool entered = false, dead = false, ended = false, waiting = false, has_ret = false;
    Val ret;
    Parent parent;
};
struct Fn {
    size_t argc, locals;
    Val closure;
    std::unique_ptr<H> h;
};
struct Pend {
    tiro_async_token_t token;
    i64 id;
};

struct Sim10;
Sim10* current = nullptr;

struct Sim10 {
    Stream& s;
    Vm vm;
    std::deque<Act> acts;
    std::map<i64, Act*> by_id;
    std::deque<Coro10> coros;
    std::vector<Fn> fns;
    std::map<std::string, std::unique_ptr<H>> script;
    std::vector<Pend> pend;
    std::map<i64, u32> marks;
    i64 next_id = 1000;
    u32 max_depth = 4, max_entries = 5;
    u64 entries = 0;

    Sim10(Stream& k, Stream& st, const VmOptions& o)
        : s(st)
        , vm(o) {
        current = this;
        Err e;
        {
            std::vector<std::pair<std::string, H>> m;
            m.emplace_back("nap", make_async(vm, "nap", 1, [this](tiro_vm_t v, tiro_async_frame_t f) { nap(v, f); }));
            m.emplace_back("mark", make_sync(vm, "mark", 1, [this](tiro_vm_t v, tiro_sync_frame_t f) {
                H a(v);
                Err er;
                api::sync_frame_arg(f, 0, a.get(), &er);
                expect_ok(er, "sync_frame_arg");
                marks[api::integer_value(v, a)]++;
            }));
            make_module(vm, "host", std::move(m));
        }
        vm.load_source("res", source);
        for (auto* n : {"zero", "echo", "pair", "pause", "wait", "boom", "through", "method", "extra", "guard", "dig", "sum", "clean", "spawn"})
            script[n] = std::make_unique<H>(vm.fn("res", n));
        script["nap"] = std::make_unique<H>(make_async(vm, "nap2", 1, [this](tiro_vm_t v, tiro_async_frame_t f) { nap(v, f); }));
        script["sync"] = std::make_unique<H>(make_sync(vm, "sync", 1, [this](tiro_vm_t v, tiro_sync_frame_t f) {
            H a(v);
            Err er;
            api::sync_frame_arg(f, 0, a.get(), &er);
            expect_ok(er, "sync_frame_arg");
            api::sync_frame_return_value(f, a.get(), &er);
            expect_ok(er, "sync_frame_return_value");
        }));
        const u32 n = 1 + k.pick(4);
        for (u32 i = 0; i < n; ++i) {
            Fn f;
            f.argc = k.chance(1, 6) ? 0 : 1 + k.pick(3);
            f.locals = k.pick(k.chance(1, 8) ? 400 : 6);
            f.closure = value(k);
            f.h = std::make_unique<H>(vm);
            H name(vm), cl(vm), x(vm);
            api::make_string(vm, ts(strf("res%u", i)), name.get(), &e);
            expect_ok(e, "make_string");
            api::make_tuple(vm, 2, cl.get(), &e);
            expect_ok(e, "make_tuple");
            api::make_integer(vm, i, x.get(), &e);
            api::tuple_set(vm, cl.get(), 0, x.get(), &e);
            put(f.closure, x);
            api::tuple_set(vm, cl.get(), 1, x.get(), &e);
            tiro_resumable_frame_desc_t d{};
            d.name = name.get();
            d.arg_count = f.argc;
            d.local_count = f.locals;
            d.closure = cl.get();
            d.func = trampoline;
            api::make_resumable_function(vm, &d, f.h->get(), &e);
            expect_ok(e, "make_resumable_function");
            fns.push_back(std::move(f));
        }
    }
    ~Sim10() { current = nullptr; }

    Val value(Stream& st, int depth = 1) {
        switch (st.pick(depth > 0 ? 5 : 4)) {
        case 0: return {};
        case 1: return Val::integer(st.pick(100));
        case 2: return Val::integer((i64) st.pick(1000) * 100000000000000ll / 7);
        case 3: return Val::string(std::string(st.pick(40), 'v') + strf("%u", st.pick(1000)));
        default: {
            std::vector<Val> kids;
            const u32 n = st.pick(4);
            for (u32 i = 0; i < n; ++i)
                kids.push_back(value(st, depth - 1));
            return Val::array(std::move(kids));
        }
        }
    }
    void put(const Val& v, const H& h) {
        Err e;
        switch (v.k) {
        case Val::Null: api::make_null(vm, h.get()); return;
        case Val::Int: api::make_integer(vm, v.i, h.get(), &e); break;
        case Val::Str: api::make_string(vm, ts(v.s), h.get(), &e); break;
        case Val::Arr: {
            api::make_array(vm, 0, h.get(), &e);
            expect_ok(e, "make_array");
            H x(vm);
            for (auto& kid : v.kids) {
                put(kid, x);
                api::array_push(vm, h.get(), x.get(), &e);
                expect_ok(e, "array_push");
            }
            return;
        }
        }
        expect_ok(e, "make value");
    }
    bool equal(const Val& v, tiro_handle_t h) {
        Err e;
        if (v.k == Val::Str && v.s == "*") // any message
            return true;
        switch (v.k) {
        case Val::Null: return api::value_kind(vm, h) == TIRO_KIND_NULL;
        case Val::Int: return api::value_kind(vm, h) == TIRO_KIND_INTEGER && api::integer_value(vm, h) == v.i;
        case Val::Str: {
            if (api::value_kind(vm, h) != TIRO_KIND_STRING)
                return false;
            tiro_string_t st{};
            api::string_value(vm, h, &st, &e);
            return str(st) == v.s;
        }
        case Val::Arr: {
            if (api::value_kind(vm, h) != TIRO_KIND_ARRAY || api::array_size(vm, h) != v.kids.size())
                return false;
            H x(vm);
            for (size_t i = 0; i < v.kids.size(); ++i) {
                api::array_get(vm, h, i, x.get(), &e);
                expect_ok(e, "array_get");
                if (!equal(v.kids[i], x))
                    return false;
            }
            return true;
        }
        }
        return false;
    }
    void check(const Act& a, const char* what, size_t i, const Val& want, tiro_handle_t got) {
        if (!equal(want, got))
            fail(what, "activation %lld of res%u (state %d): %s %zu is %s instead of %s", (long long) a.id, a.fn, a.state, what, i,
                render(vm, got).c_str(), want.str().c_str());
    }

    // ---- outcomes travel up the model's stack
    void deliver(const Parent& p, Outcome o, i64 id) {
        switch (p.wrap) {
        case Through:
        case Method:
            if (o.ok)
                o.v = Val::array({Val::integer(id), o.v});
            break;
        case Guard:
            o.v = Val::array({Val::integer(o.ok ? 0 : 1), o.v});
            o.ok = true;
            break;
        case Sum:
            if (o.ok && o.v.k != Val::Int)
                o = {false, Val::string("*")};
            break;
        case Clean:
            want_marks[id]++;
            break;
        default:
            break;
        }
        if (p.act) {
            Act& a = *p.act;
            if (o.ok) {
                a.ret = o.v;
                a.has_ret = true;
                a.waiting = false;
            } else {
                a.dead = true;
                deliver(a.parent, o, a.id);
            }
        } else if (p.coro) {
            SIM_CHECK(!p.coro->over, "double-end", "activation %lld ended its coroutine a second time", (long long) id);
            p.coro->over = true;
            p.coro->want = o;
        }
    }
    std::map<i64, u32> want_marks;

    void finish(Act& a, Outcome o) {
        a.ended = true;
        deliver(a.parent, o, a.id);
    }

    // ---- native side
    static void trampoline(tiro_vm_t v, tiro_resumable_frame_t f) {
        InHost in;
        current->enter(v, f);
    }

    Act& new_act(u32 fn, const Parent& p, int depth, bool extra, std::vector<Val>& call_args) {
        Act& a = acts.emplace_back();
        a.id = next_id++;
        a.fn = fn;
        a.parent = p;
        a.depth = depth;
        a.left = 1 + s.pick(max_entries);
        call_args = {Val::integer(a.id), value(s), value(s)};
        a.args = call_args;
        if (extra) {
            a.args.push_back(Val::string("extra"));
            a.args.push_back(Val::integer(a.id));
        }
        a.locals.resize(fns[fn].locals);
        by_id[a.id] = &a;
        return a;
    }

    void enter(tiro_vm_t v, tiro_resumable_frame_t f) {
        Err e;
        H x(v);
        ++entries;
        SIM_CHECK(api::resumable_frame_arg_count(f) >= 3, "arguments", "a frame has %zu arguments", api::resumable_frame_arg_count(f));
        api::resumable_frame_arg(f, 0, x.get(), &e);
        expect_ok(e, "resumable_frame_arg");
        SIM_CHECK(api::value_kind(v, x) == TIRO_KIND_INTEGER && by_id.count(api::integer_value(v, x)), "arguments",
            "argument 0 of a frame is %s, which is no activation", render(v, x).c_str());
        Act& a = *by_id[api::integer_value(v, x)];
        trace("enter %lld state %d", (long long) a.id, api::resumable_frame_state(f));
        SIM_CHECK(!a.ended, "entered-after-end", "activation %lld was entered after its end", (long long) a.id);
        SIM_CHECK(!a.dead, "entered-after-panic", "activation %lld was entered after a panic had passed it", (long long) a.id);
        SIM_CHECK(!a.waiting, "early-entry", "activation %lld was entered although its callee has not returned", (long long) a.id);
        SIM_CHECK(api::resumable_frame_state(f) == a.state, "state", "activation %lld is entered in state %d instead of %d", (long long) a.id,
            api::resumable_frame_state(f), a.state);
        a.entered = true;
        SIM_CHECK(api::resumable_frame_arg_count(f) == a.args.size(), "arguments", "activation %lld has %zu arguments instead of %zu", (long long) a.id,
            api::resumable_frame_arg_count(f), a.args.size());
        SIM_CHECK(api::resumable_frame_local_count(f) == a.locals.size(), "locals", "activation %lld has %zu locals instead of %zu", (long long) a.id,
            api::resumable_frame_local_count(f), a.locals.size());
        for (size_t i = 0; i < a.args.size(); ++i) {
            api::resumable_frame_arg(f, i, x.get(), &e);
            expect_ok(e, "resumable_frame_arg");
            check(a, "argument", i, a.args[i], x);
        }
        for (size_t i = 0; i < a.locals.size(); ++i) {
            api::resumable_frame_local(f, i, x.get(), &e);
            expect_ok(e, "resumable_frame_local");
            check(a, "local", i, a.locals[i], x);
        }
        api::resumable_frame_closure(f, x.get(), &e);
        expect_ok(e, "resumable_frame_closure");
        {
            H c(v);
            api::tuple_get(v, x.get(), 0, c.get(), &e);
            expect_ok(e, "closure");
            check(a, "closure", 0, Val::integer(a.fn), c);
            api::tuple_get(v, x.get(), 1, c.get(), &e);
            expect_ok(e, "closure");
            check(a, "closure", 1, fns[a.fn].closure, c);
        }
        if (a.has_ret) {
            const u32 reads = 1 + s.pick(2);
            for (u32 i = 0; i < reads; ++i) {
                api::resumable_frame_invoke_return(f, x.get(), &e);
                expect_ok(e, "resumable_frame_invoke_return");
                check(a, "invoke result", i, a.ret, x);
            }
            stat("invoke_results");
        }
        a.has_ret = false;
        // locals
        const u32 writes = a.locals.empty() ? 0 : s.pick(3);
        for (u32 i = 0; i < writes; ++i) {
            u32 j = s.pick((u32) a.locals.size());
            a.locals[j] = value(s);
            put(a.locals[j], x);
            api::resumable_frame_set_local(f, j, x.get(), &e);
            expect_ok(e, "resumable_frame_set_local");
        }
        if (s.chance(1, 6))
            misuse(v, f, a);
        if (s.chance(1, 10))
            gc_now(vm.heap);
        if (a.left == 0 || entries > 600)
            return end(v, f, a);
        --a.left;
        switch (s.weighted({2, 3, 12})) {
        case 0:
            return end(v, f, a);
        case 1:
            a.state = 1 + (int) s.pick(1000);
            if (s.chance(1, 6))
                a.state = (int) 0x7fffffff;
            trace("state %d", a.state);
            api::resumable_frame_set_state(f, a.state, &e);
            expect_ok(e, "resumable_frame_set_state");
            return;
        default:
            return invoke(v, f, a);
        }
    }

    void end(tiro_vm_t v, tiro_resumable_frame_t f, Act& a) {
        Err e;
        H x(v);
        switch (s.weighted({5, 2, 1})) {
        case 0: {
            Val r = value(s);
            trace("return %s", r.str().c_str());
            put(r, x);
            api::resumable_frame_return_value(f, x.get(), &e);
            expect_ok(e, "resumable_frame_return_value");
            finish(a, {true, r});
            break;
        }
        case 1: {
            std::string m = strf("panic of %lld", (long long) a.id);
            trace("panic");
            api::resumable_frame_panic_msg(f, ts(m), &e);
            expect_ok(e, "resumable_frame_panic_msg");
            finish(a, {false, Val::string(m)});
            break;
        }
        default:
            trace("end state");
            api::resumable_frame_set_state(f, TIRO_RESUMABLE_STATE_END, &e);
            expect_ok(e, "resumable_frame_set_state");
            finish(a, {true, Val{}});
            break;
        }
    }

    void misuse(tiro_vm_t v, tiro_resumable_frame_t f, Act& a) {
        Err e;
        H x(v);
        fault("frame_misuse");
        switch (s.pick(5)) {
        case 0:
            api::resumable_frame_local(f, a.locals.size() + s.pick(3), x.get(), &e);
            SIM_CHECK(e.code() == TIRO_ERROR_OUT_OF_BOUNDS, "misuse", "local out of bounds: %s", e.str().c_str());
            break;
        case 1:
            api::resumable_frame_set_local(f, a.locals.size() + s.pick(3), x.get(), &e);
            SIM_CHECK(e.code() == TIRO_ERROR_OUT_OF_BOUNDS, "misuse", "set_local out of bounds: %s", e.str().c_str());
            break;
        case 2:
            api::resumable_frame_arg(f, a.args.size() + s.pick(3), x.get(), &e);
            SIM_CHECK(e.code() == TIRO_ERROR_OUT_OF_BOUNDS, "misuse", "arg out of bounds: %s", e.str().c_str());
            break;
        case 3: // the state must not change
            api::make_integer(v, 3, x.get(), &e);
            api::resumable_frame_invoke(f, 77, x.get(), (tiro_handle_t) nullptr, &e);
            SIM_CHECK(e.code() == TIRO_ERROR_BAD_TYPE, "misuse", "invoke of an integer: %s", e.str().c_str());
            break;
        case 4:
            api::make_integer(v, 3, x.get(), &e);
            api::resumable_frame_invoke(f, 77, script["echo"]->get(), x.get(), &e);
            SIM_CHECK(e.code() == TIRO_ERROR_BAD_TYPE, "misuse", "invoke with integer arguments: %s", e.str().c_str());
            break;
        }
        SIM_CHECK(api::resumable_frame_state(f) == a.state, "misuse", "a refused call changed the state");
    }

    tiro_handle_t tuple(const H& t, const std::vector<Val>& vs, tiro_handle_t first = nullptr) {
        Err e;
        H x(vm);
        size_t n = vs.size() + (first ? 1 : 0), at = 0;
        api::make_tuple(vm, n, t.get(), &e);
        expect_ok(e, "make_tuple");
        if (first) {
            api::tuple_set(vm, t.get(), at++, first, &e);
            expect_ok(e, "tuple_set");
        }
        for (auto& v : vs) {
            put(v, x);
            api::tuple_set(vm, t.get(), at++, x.get(), &e);
            expect_ok(e, "tuple_set");
        }
        return t.get();
    }

    void invoke(tiro_vm_t v, tiro_resumable_frame_t f, Act& a) {
        Err e;
        H args(v);
        int next = 1 + (int) s.pick(50);
        tiro_handle_t fn = nullptr, ar = nullptr;
        a.waiting = true;
        auto ok = [&](Val r) {
            a.waiting = false;
            a.has_ret = true;
            a.ret = std::move(r);
        };
        std::string label;
        bool panics = false;
        Val msg;
        switch (s.weighted({2, 2, 2, 2, 2, 2, 1, 2, 8, 1, 1})) {
        case 0:
            fn = script["zero"]->get();
            label = "zero";
            if (s.chance(1, 3)) {
                api::make_null(v, args.get());
                ar = args.get();
            } else if (s.chance(1, 2))
                ar = tuple(args, {});
            ok(Val::integer(7));
            break;
        case 1: {
            Val x = value(s);
            fn = script["echo"]->get();
            label = "echo";
            ar = tuple(args, {x});
            ok(x);
            break;
        }
        case 2: {
            Val x = value(s), y = value(s);
            fn = script["pair"]->get();
            label = "pair";
            ar = tuple(args, {x, y});
            ok(Val::array({x, y}));
            break;
        }
        case 3: {
            Val x = value(s);
            fn = script["pause"]->get();
            label = "pause";
            ar = tuple(args, {x});
            ok(x);
            break;
        }
        case 4:
            fn = script["wait"]->get();
            label = "wait";
            ar = tuple(args, {Val::integer(a.id)});
            break;
        case 5:
            fn = script["nap"]->get();
            label = "nap";
            ar = tuple(args, {Val::integer(a.id)});
            break;
        case 6: {
            msg = Val::string(strf("boom %lld", (long long) a.id));
            fn = script["boom"]->get();
            label = "boom";
            ar = tuple(args, {msg});
            panics = true;
            break;
        }
        case 7: {
            Val x = value(s);
            fn = script["sync"]->get();
            label = "sync";
            ar = tuple(args, {x});
            ok(x);
            break;
        }
        case 9:
            label = "missing arguments";
            fn = script["pair"]->get();
            ar = tuple(args, {Val::integer(1)});
            panics = true;
            msg = Val::string("*");
            break;
        case 10: {
            label = "spawn";
            fn = script["spawn"]->get();
            std::vector<Val> ca;
            u32 g = s.pick((u32) fns.size());
            Act& n = new_act(g, Parent{}, max_depth - 1, false, ca);
            (void) n;
            ar = tuple(args, ca, fns[g].h->get());
            ok(Val::integer(1));
            probe("launched");
            break;
        }
        default: {
            if (a.depth + 1 >= (int) max_depth || acts.size() > 150) {
                fn = script["zero"]->get();
                label = "zero";
                ok(Val::integer(7));
                break;
            }
            u32 g = s.pick((u32) fns.size());
            Wrap w = (Wrap) s.pick(WrapCount);
            std::vector<Val> ca;
            Parent p;
            p.act = &a;
            p.wrap = w;
            Act& n = new_act(g, p, a.depth + 1, w == Extra, ca);
            label = strf("%s %lld", w == Direct ? "res" : wrap_names[w], (long long) n.id);
            if (w == Direct) {
                fn = fns[g].h->get();
                ar = tuple(args, ca);
            } else {
                fn = script[wrap_names[w]]->get();
                if (w == Dig)
                    ca.push_back(Val::integer(s.pick(s.chance(1, 4) ? 200 : 12)));
                ar = tuple(args, ca, fns[g].h->get());
            }
            stat("nested_activations");
            break;
        }
        }
        trace("invoke %s then state %d", label.c_str(), next);
        api::resumable_frame_invoke(f, next, fn, ar, &e);
        expect_ok(e, "resumable_frame_invoke");
        a.state = next;
        if (!a.locals.empty() && s.chance(1, 4)) { // locals may be written after the call was requested
            u32 j = s.pick((u32) a.locals.size());
            H x(v);
            a.locals[j] = value(s);
            put(a.locals[j], x);
            api::resumable_frame_set_local(f, j, x.get(), &e);
            expect_ok(e, "resumable_frame_set_local");
        }
        if (s.chance(1, 4)) { // the handles are reused before the call happens
            api::make_null(v, args.get());
            if (s.chance(1, 2))
                gc_now(vm.heap);
        }
        if (panics) {
            a.dead = true;
            deliver(a.parent, {false, msg}, a.id);
        }
    }

    void nap(tiro_vm_t v, tiro_async_frame_t f) {
        Err e;
        H x(v);
        api::async_frame_arg(f, 0, x.get(), &e);
        expect_ok(e, "async_frame_arg");
        i64 id = api::integer_value(v, x);
        SIM_CHECK(by_id.count(id), "arguments", "nap was called with %s", render(v, x).c_str());
        if (s.chance(1, 5)) {
            Val r = value(s);
            put(r, x);
            api::async_frame_return_value(f, x.get(), &e);
            expect_ok(e, "async_frame_return_value");
            resolve(id, {true, r});
            return;
        }
        tiro_async_token_t t = api::async_frame_token(f, &e);
        expect_ok(e, "async_frame_token");
        api::async_frame_yield(f, &e);
        expect_ok(e, "async_frame_yield");
        pend.push_back({t, id});
    }
    void resolve(i64 id, Outcome o) {
        Act& a = *by_id[id];
        if (o.ok) {
            a.waiting = false;
            a.has_ret = true;
            a.ret = o.v;
        } else {
            a.dead = true;
            deliver(a.parent, o, a.id);
        }
    }

    // ---- host side
    void start() {
        if (coros.size() > 12)
            return;
        Err e;
        u32 g = s.pick((u32) fns.size());
        Wrap w = (Wrap) s.pick(WrapCount);
        Coro10& c = coros.emplace_back();
        c.h = std::make_unique<H>(vm);
        Parent p;
        p.coro = &c;
        p.wrap = w;
        std::vector<Val> ca;
        Act& a = new_act(g, p, 0, w == Extra, ca);
        H args(vm);
        tiro_handle_t fn;
        if (w == Direct) {
            fn = fns[g].h->get();
            tuple(args, ca);
        } else {
            fn = script[wrap_names[w]]->get();
            if (w == Dig)
                ca.push_back(Val::integer(s.pick(12)));
            tuple(args, ca, fns[g].h->get());
        }
        trace("start coroutine %zu: %s activation %lld of res%u", coros.size() - 1, wrap_names[w], (long long) a.id, g);
        api::make_coroutine(vm, fn, args.get(), c.h->get(), &e);
        expect_ok(e, "make_coroutine");
        api::coroutine_start(vm, c.h->get(), &e);
        expect_ok(e, "coroutine_start");
    }
    void turn() {
        Err e;
        trace("run");
        api::vm_run_ready(vm, &e);
        expect_ok(e, "vm_run_ready");
        for (size_t i = 0; i < coros.size(); ++i) {
            Coro10& c = coros[i];
            bool done = api::coroutine_completed(vm, c.h->get());
            SIM_CHECK(done == c.over, "completion", "coroutine %zu is %s although its activations have %s", i, done ? "completed" : "not completed",
                c.over ? "ended" : "not ended");
            if (!done || c.checked)
                continue;
            c.checked = true;
            H r(vm), x(vm), m(vm);
            api::coroutine_result(vm, c.h->get(), r.get(), &e);
            expect_ok(e, "coroutine_result");
            bool good = api::result_is_success(vm, r);
            SIM_CHECK(good == c.want.ok, "outcome", "coroutine %zu ended with %s instead of %s %s", i, render(vm, r, 5).c_str(), c.want.ok ? "value" : "panic",
                c.want.v.str().c_str());
            if (good)
                api::result_value(vm, r, x.get(), &e);
            else {
                api::result_error(vm, r, m.get(), &e);
                expect_ok(e, "result_error");
                api::exception_message(vm, m.get(), x.get(), &e);
            }
            expect_ok(e, "result");
            SIM_CHECK(equal(c.want.v, x), "outcome", "coroutine %zu ended with %s instead of %s", i, render(vm, r, 6).c_str(), c.want.v.str().c_str());
            stat("coroutines_checked");
        }
        for (auto& a : acts)
            SIM_CHECK(a.entered || a.parent.act || !a.parent.coro, "never-entered", "activation %lld was never entered", (long long) a.id);
        for (auto& [id, n] : want_marks)
            SIM_CHECK(marks[id] == n, "marks", "deferred code of activation %lld ran %u times instead of %u", (long long) id, marks[id], n);
    }
    void complete() {
        if (pend.empty())
            return;
        u32 i = s.pick((u32) pend.size());
        Pend p = pend[i];
        pend.erase(pend.begin() + i);
        Err e;
        if (s.chance(1, 5)) {
            std::string m = strf("late %lld", (long long) p.id);
            trace("complete %lld with panic", (long long) p.id);
            api::async_token_panic_msg(p.token, ts(m), &e);
            expect_ok(e, "token_panic");
            resolve(p.id, {false, Val::string(m)});
        } else {
            Val r = value(s);
            H x(vm);
            put(r, x);
            trace("complete %lld with %s", (long long) p.id, r.str().c_str());
            api::async_token_return_value(p.token, x.get(), &e);
            expect_ok(e, "token_return");
            resolve(p.id, {true, r});
        }
        api::async_token_free(p.token);
    }
    void step() {
        Seg seg(s);
        switch (s.weighted({4, 6, 5, 1})) {
        case 0: return start();
        case 1: return turn();
        case 2: return complete();
        case 3: trace("collect"); gc_now(vm.heap); return;
        }
    }
    void destroy() {
        if (s.chance(1, 2))
            for (auto& p : pend)
                api::async_token_free(p.token);
        else if (!pend.empty())
            fault("machine_destroyed_with_waiting_coroutines");
        pend.clear();
        coros.clear();
        script.clear();
        fns.clear();
        vm.destroy();
    }
};
} // namespace

SCENARIO(c10_resumable, "C10.resumable", "C10", 6) {
    Stream& k = stream("knobs");
    Stream& s = stream("ops");
    VmOptions o;
    o.page_size = (size_t) 1 << (16 + k.pick(4));
    {
        Sim10 w(k, s, o);
        w.max_depth = 2 + k.pick(6);
        w.max_entries = 1 + k.pick(8);
        if (k.chance(2, 3))
            gc_setup("gc", GcMode::Gaps, std::vector<u32>{100, 20, 4, 1}[k.pick(4)], 1500);
        const u32 steps = 6 + k.pick(50);
        for (u32 i = 0; i < steps; ++i)
            w.step();
        if (s.chance(2, 3)) {
            w.turn();
            while (!w.pend.empty()) {
                while (!w.pend.empty())
                    w.complete();
                w.turn();
            }
            for (size_t i = 0; i < w.coros.size(); ++i)
                SIM_CHECK(w.coros[i].over, "completion", "coroutine %zu did not end", i);
        }
        w.destroy();
    }
    SIM_CHECK(mem.live_blocks == 0, "leak", "%llu blocks (%llu bytes) are still allocated after the machine was destroyed: %s",
        (unsigned long long) mem.live_blocks, (unsigned long long) mem.live_bytes, arena_leaks(4).c_str());
}
