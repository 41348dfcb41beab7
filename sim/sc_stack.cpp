// C16: stacks grow transparently and overflow is contained.
//
// Generated chains of functions with different frame layouts call each other through every kind of call to a chosen
// depth, suspend, panic or never stop; the expected results come from a model that knows no stack.
#include "host.hpp"

#include <algorithm>
#include <deque>
using namespace sim;

namespace {

constexpr i64 M = 1000003;

enum Form { Direct, ViaRecord, ViaLambda, ViaCatch, ViaNative, WithBound, WithSum, WithDefer, WithLoop, WithDispatch, WithBuilder, ViaCatchExtra, WithString, FormCount };
const char* form_names[] = {"direct", "record", "lambda", "catch", "native", "bound", "sum", "defer", "loop", "dispatch", "builder", "catch-extra", "string"};

struct Fn {
    Form form = Direct;
    u32 params = 1;
    u32 locals = 0;
    u32 next = 0;
    u32 extra = 0; // form specific
};

struct Chain {
    std::vector<Fn> fns;
    std::string source;
};

std::string call_args(const Chain& c, const Fn& f, const std::string& depth) {
    std::string r = depth + ", b";
    for (u32 j = 0; j < c.fns[f.next].params; ++j)
        r += f.locals ? strf(", (l%u + %u) %% %lld", j % f.locals, j, (long long) M) : strf(", (a%u + %u) %% %lld", j % f.params, j, (long long) M);
    return r;
}

void print(Chain& c) {
    std::string s = "import std;\nimport host;\n"
                    "func ignore(x) { return null; }\n"
                    "func bottom(b, x) {\n"
                    "  if b == 1 { std.panic(\"boom\"); }\n"
                    "  if b == 2 { std.dispatch(); }\n"
                    "  if b == 3 { return host.nap(x); }\n"
                    "  if b == 4 { std.catch_panic(func() { std.panic(\"inner\"); }); }\n"
                    "  return (x + 1) % 1000003;\n}\n"
                    "export func bound(n) { const x = []; for var i = 0; i < n; i += 1 { x.append(i); } return x.size; }\n"
                    "export func bound_contains(k) { const m = map{1: 2, 3: 4}; return m.contains; }\n"
                    "export func thunk(v) { return func() { return v; }; }\n";
    for (size_t i = 0; i < c.fns.size(); ++i) {
        const Fn& f = c.fns[i];
        s += strf("export func k%zu(d, b", i);
        for (u32 a = 0; a < f.params; ++a)
            s += strf(", a%u", a);
        s += ") {\n";
        for (u32 l = 0; l < f.locals; ++l)
            s += strf("  const l%u = (a%u * %u + d * %u + 7) %% %lld;\n", l, l % f.params, l + 3, l + 1, (long long) M);
        s += "  var r = 0;\n  if d <= 0 {\n    r = bottom(b, a0);\n  } else {\n";
        std::string g = strf("k%u", f.next), args = call_args(c, f, "d - 1");
        switch (f.form) {
        case Direct: s += strf("    r = %s(%s);\n", g.c_str(), args.c_str()); break;
        case ViaRecord: s += strf("    const o = (x: d, run: %s, y: 1);\n    r = o.run(%s) + o.x - d;\n", g.c_str(), args.c_str()); break;
        case ViaLambda: s += strf("    const f = func(z) { return %s(%s) + z; };\n    r = f(0);\n", g.c_str(), args.c_str()); break;
        case ViaCatch:
            s += strf("    const c = std.catch_panic(func() { return %s(%s); });\n    if c.is_success() { r = c.value(); } else { r = 7; }\n", g.c_str(), args.c_str());
            break;
        case ViaCatchExtra:
            s += strf("    const c = std.catch_panic(func() { return %s(%s); }", g.c_str(), args.c_str());
            for (u32 i = 0; i < f.extra % 9 + 1; ++i)
                s += strf(", %u", i);
            s += ");\n    if c.is_success() { r = c.value(); } else { r = 7; }\n";
            break;
        case ViaNative: s += strf("    r = host.through%u(%s, %s);\n", f.extra % 4, g.c_str(), args.c_str()); break;
        case WithBound:
            s += strf("    const x = [d, d, d];\n    const m = x.size;\n    r = %s(%s) + m();\n", g.c_str(), args.c_str());
            break;
        case WithSum: {
            s += strf("    r = (%s(%s) + host.sum(1, 2", g.c_str(), args.c_str());
            for (u32 i = 0; i < f.extra; ++i)
                s += strf(", %u", i % 10);
            s += ")) % 1000003;\n";
            break;
        }
        case WithDefer: s += strf("    defer host.tick(1);\n    r = %s(%s);\n", g.c_str(), args.c_str()); break;
        case WithLoop: s += strf("    for k in [2, 1] { if k == 1 { continue; } r = %s(%s); }\n", g.c_str(), args.c_str()); break;
        case WithDispatch: s += strf("    std.dispatch();\n    r = %s(%s);\n    std.dispatch();\n", g.c_str(), args.c_str()); break;
        case WithBuilder: s += strf("    const w = std.new_string_builder();\n    const put = w.append;\n    put(\"abc\");\n    r = %s(%s);\n    put(\"de\");\n    r = r + w.size();\n", g.c_str(), args.c_str()); break;
        case WithString: s += strf("    const t = \"${%s(%s) %% 10}-${d}\";\n    r = t.size();\n", g.c_str(), args.c_str()); break;
        case FormCount: break;
        }
        s += "  }\n  return (r * 31 + d";
        for (u32 l = 0; l < f.locals; ++l)
            s += strf(" + l%u * %u", l, l + 1);
        for (u32 a = 0; a < f.params; ++a)
            s += strf(" + a%u", a);
        s += strf(") %% %lld;\n}\n", (long long) M);
    }
    // Loops over all forms, for the check that calls leave nothing on the stack
    s += "export func loops(n, b, a0) {\n  const d = 1;\n  var sum = 0;\n  const l0 = a0;\n  for var i = 0; i < n; i += 1 {\n";
    s += "    if i == 40 { host.mark(0); }\n";
    for (size_t i = 0; i < c.fns.size(); ++i) {
        const Fn& f = c.fns[i];
        std::string args = "1, b";
        for (u32 j = 0; j < f.params; ++j)
            args += ", a0";
        s += strf("    const c%zu = std.catch_panic(func() { return k%zu(%s); });\n    if c%zu.is_success() { sum = (sum + c%zu.value()) %% 1000003; } else { sum += 1; }\n", i, i, args.c_str(), i, i);
        if (f.form != ViaCatch && f.form != ViaCatchExtra)
            s += strf("    if b != 1 { const o%zu = (run: k%zu, v: 1); sum = (sum + o%zu.run(%s)) %% 1000003; }\n", i, i, i, args.c_str());
    }
    s += "  }\n  host.mark(1);\n  return sum;\n}\n";
    c.source = s;
}

struct Expect {
    bool panics = false;
    i64 value = 0;
    u64 ticks = 0;
};

i64 local_value(i64 a, u32 l, i64 d) { return (a * (l + 3) + d * (l + 1) + 7) % M; }

Expect model(const Chain& c, u32 fn, i64 depth, int b, std::vector<i64> args) {
    struct Frame {
        u32 fn;
        i64 d;
        std::vector<i64> a;
    };
    std::vector<Frame> stack;
    Expect e;
    u32 f = fn;
    i64 d = depth;
    while (true) {
        stack.push_back({f, d, args});
        if (d <= 0)
            break;
        const Fn& k = c.fns[f];
        std::vector<i64> next;
        for (u32 j = 0; j < c.fns[k.next].params; ++j)
            next.push_back((k.locals ? local_value(args[(j % k.locals) % k.params], j % k.locals, d) + j : args[j % k.params] + j) % M);
        args = next;
        f = k.next;
        --d;
    }
    bool panicking = b == 1;
    i64 r = (stack.back().a[0] + 1) % M;
    for (size_t i = stack.size(); i-- > 0;) {
        Frame& x = stack[i];
        const Fn& k = c.fns[x.fn];
        if (i + 1 < stack.size()) { // r is the result of the call
            switch (k.form) {
            case ViaCatch:
            case ViaCatchExtra:
                if (panicking)
                    panicking = false, r = 7;
                break;
            case WithBound: r += 3; break;
            case WithSum: {
                for (u32 j = 0; j < k.extra; ++j)
                    r += j % 10;
                r = (r + 3) % M;
                break;
            }
            case WithDefer: ++e.ticks; break;
            case WithBuilder: r += 5; break;
            case WithString:
                if (!panicking)
                    r = 2 + std::to_string(x.d).size();
                break;
            default: break;
            }
        }
        if (panicking)
            continue;
        i64 v = r * 31 + x.d;
        for (u32 l = 0; l < k.locals; ++l)
            v += local_value(x.a[l % k.params], l, x.d) * (l + 1);
        for (i64 a : x.a)
            v += a;
        r = v % M;
    }
    e.panics = panicking;
    e.value = r;
    return e;
}

struct Run {
    enum Kind { Normal, Overflow, Simple } kind = Normal;
    Expect want;
    std::string label;
    std::unique_ptr<H> coro;
    bool completed = false;
    bool checked = false;
};

struct World {
    explicit World(const VmOptions& o)
        : vm(o) {}
    Vm vm;
    Chain chain;
    u64 ticks = 0;
    struct Nap {
        tiro_async_token_t token;
        i64 value;
    };
    std::deque<Nap> naps;
    std::vector<std::unique_ptr<Run>> runs;
    u64 marks[2] = {};
    u64 mark_count = 0;
    u32 through_locals = 0;
};

void setup(World& w) {
    std::vector<std::pair<std::string, H>> m;
    m.emplace_back("sum", make_sync(w.vm, "sum", 0, [](tiro_vm_t v, tiro_sync_frame_t f) {
        Err e;
        H a(v);
        i64 s = 0;
        size_t n = api::sync_frame_arg_count(f);
        for (size_t i = 0; i < n; ++i) {
            api::sync_frame_arg(f, i, a.get(), &e);
            expect_ok(e, "sync_frame_arg");
            SIM_CHECK(api::value_kind(v, a.get()) == TIRO_KIND_INTEGER, "lost-value", "argument %zu of %zu is not an integer", i, n);
            s += api::integer_value(v, a.get());
        }
        api::make_integer(v, s, a.get(), &e);
        expect_ok(e, "make_integer");
        api::sync_frame_return_value(f, a.get(), &e);
        expect_ok(e, "sync_frame_return_value");
    }));
    m.emplace_back("tick", make_sync(w.vm, "tick", 1, [&w](tiro_vm_t, tiro_sync_frame_t) { ++w.ticks; }));
    m.emplace_back("mark", make_sync(w.vm, "mark", 1, [&w](tiro_vm_t v, tiro_sync_frame_t f) {
        Err e;
        i64 x;
        {
            H a(v);
            api::sync_frame_arg(f, 0, a.get(), &e);
            expect_ok(e, "sync_frame_arg");
            x = api::integer_value(v, a.get());
        }
        gc_now(w.vm.heap);
        w.marks[x] = heap_info(w.vm.heap).allocated;
        ++w.mark_count;
    }));
    m.emplace_back("nap", make_async(w.vm, "nap", 1, [&w](tiro_vm_t v, tiro_async_frame_t f) {
        Err e;
        H a(v);
        api::async_frame_arg(f, 0, a.get(), &e);
        expect_ok(e, "async_frame_arg");
        i64 x = api::integer_value(v, a.get());
        auto t = api::async_frame_token(f, &e);
        expect_ok(e, "async_frame_token");
        api::async_frame_yield(f, &e);
        expect_ok(e, "async_frame_yield");
        w.naps.push_back({t, x});
    }));
    for (u32 variant = 0; variant < 4; ++variant) {
        u32 locals = variant * w.through_locals;
        std::string name = strf("through%u", variant);
        m.emplace_back(name, make_resumable(w.vm, name.c_str(), 1 + variant, locals, [locals](tiro_vm_t v, tiro_resumable_frame_t f) {
            Err e;
            H a(v);
            int state = api::resumable_frame_state(f);
            if (state == TIRO_RESUMABLE_STATE_START) {
                size_t n = api::resumable_frame_arg_count(f);
                H args(v), fn(v);
                for (u32 l = 0; l < locals; ++l) {
                    api::make_integer(v, 1000 + l, a.get(), &e);
                    api::resumable_frame_set_local(f, l, a.get(), &e);
                    expect_ok(e, "resumable_frame_set_local");
                }
                api::make_tuple(v, n - 1, args.get(), &e);
                expect_ok(e, "make_tuple");
                for (size_t i = 1; i < n; ++i) {
                    api::resumable_frame_arg(f, i, a.get(), &e);
                    expect_ok(e, "resumable_frame_arg");
                    api::tuple_set(v, args.get(), i - 1, a.get(), &e);
                    expect_ok(e, "tuple_set");
                }
                api::resumable_frame_arg(f, 0, fn.get(), &e);
                expect_ok(e, "resumable_frame_arg");
                api::resumable_frame_invoke(f, 5, fn.get(), args.get(), &e);
                expect_ok(e, "resumable_frame_invoke");
                return;
            }
            if (state == TIRO_RESUMABLE_STATE_END)
                return;
            SIM_CHECK(state == 5, "lost-value", "resumable frame state is %d", state);
            for (u32 l = 0; l < locals; ++l) {
                api::resumable_frame_local(f, l, a.get(), &e);
                expect_ok(e, "resumable_frame_local");
                SIM_CHECK(api::value_kind(v, a.get()) == TIRO_KIND_INTEGER && api::integer_value(v, a.get()) == 1000 + l, "lost-value", "local %u of a resumable frame changed", l);
            }
            api::resumable_frame_invoke_return(f, a.get(), &e);
            expect_ok(e, "resumable_frame_invoke_return");
            api::resumable_frame_return_value(f, a.get(), &e);
            expect_ok(e, "resumable_frame_return_value");
        }));
    }
    make_module(w.vm, "host", std::move(m));
}

void on_done(tiro_vm_t, tiro_handle_t, void* ud) {
    InHost in;
    auto* r = static_cast<Run*>(ud);
    SIM_CHECK(!r->completed, "completed-twice", "%s completed twice", r->label.c_str());
    SIM_CHECK(r->kind != Run::Overflow, "overflow-lost", "%s completed although its recursion does not end", r->label.c_str());
    r->completed = true;
}

Run& launch(World& w, Run::Kind kind, tiro_handle_t func, const std::vector<H>& args, const std::string& label) {
    auto run = std::make_unique<Run>();
    run->kind = kind;
    run->label = label;
    Err e;
    H tuple(w.vm);
    if (!args.empty()) {
        api::make_tuple(w.vm.vm, args.size(), tuple.get(), &e);
        expect_ok(e, "make_tuple");
        for (size_t i = 0; i < args.size(); ++i) {
            api::tuple_set(w.vm.vm, tuple.get(), i, args[i].get(), &e);
            expect_ok(e, "tuple_set");
        }
    }
    run->coro = std::make_unique<H>(w.vm);
    api::make_coroutine(w.vm.vm, func, tuple.get(), run->coro->get(), &e);
    expect_ok(e, "make_coroutine");
    api::coroutine_set_callback(w.vm.vm, run->coro->get(), on_done, (tiro_coroutine_cleanup_t) nullptr, (void*) run.get(), &e);
    expect_ok(e, "coroutine_set_callback");
    api::coroutine_start(w.vm.vm, run->coro->get(), &e);
    expect_ok(e, "coroutine_start");
    trace("start %s", label.c_str());
    w.runs.push_back(std::move(run));
    return *w.runs.back();
}

void check(World& w, Run& r) {
    if (!r.completed || r.checked)
        return;
    r.checked = true;
    H res(w.vm), x(w.vm);
    Err e;
    api::coroutine_result(w.vm.vm, r.coro->get(), res.get(), &e);
    expect_ok(e, "coroutine_result");
    bool ok = api::result_is_success(w.vm.vm, res.get());
    std::string got = render(w.vm, res);
    SIM_CHECK(ok == !r.want.panics, "wrong-result", "%s: %s instead of %s", r.label.c_str(), got.c_str(), r.want.panics ? "a panic" : "a value");
    if (ok) {
        api::result_value(w.vm.vm, res.get(), x.get(), &e);
        expect_ok(e, "result_value");
        std::string v = render(w.vm, x);
        std::string want = std::to_string(r.want.value);
        if (r.label.rfind("contains", 0) == 0)
            want = r.want.value ? "true" : "false";
        if (r.label.rfind("catch", 0) == 0)
            want = "success(" + want + ")";
        SIM_CHECK(v == want, "wrong-result", "%s: result %s instead of %s", r.label.c_str(), v.c_str(), want.c_str());
    } else {
        SIM_CHECK(got == "error(exception(\"boom\"))", "wrong-result", "%s: unexpected panic %s", r.label.c_str(), got.c_str());
    }
    trace("done %s: %s", r.label.c_str(), got.substr(0, 60).c_str());
    r.coro.reset();
}

H integer(World& w, i64 x) {
    H h(w.vm);
    Err e;
    api::make_integer(w.vm.vm, x, h.get(), &e);
    expect_ok(e, "make_integer");
    return h;
}

H call_now(World& w, const char* fn, i64 arg) {
    H f = w.vm.fn("prog", fn);
    H tuple(w.vm), coro(w.vm), res(w.vm);
    Err e;
    H a = integer(w, arg);
    api::make_tuple(w.vm.vm, 1, tuple.get(), &e);
    api::tuple_set(w.vm.vm, tuple.get(), 0, a.get(), &e);
    api::make_coroutine(w.vm.vm, f.get(), tuple.get(), coro.get(), &e);
    expect_ok(e, "make_coroutine");
    api::coroutine_start(w.vm.vm, coro.get(), &e);
    expect_ok(e, "coroutine_start");
    api::vm_run_ready(w.vm.vm, &e);
    expect_ok(e, "run_ready");
    api::coroutine_result(w.vm.vm, coro.get(), res.get(), &e);
    expect_ok(e, "coroutine_result");
    api::result_value(w.vm.vm, res.get(), res.get(), &e);
    expect_ok(e, "result_value");
    return res;
}

} // namespace

SCENARIO(c16_stacks, "C16.stacks", "C16", 1) {
    Stream& k = stream("knobs");
    Stream& p = stream("prog");
    Stream& s = stream("ops");
    VmOptions o;
    o.page_size = (size_t) 1 << (16 + k.pick(5));
    o.stack_trace = k.chance(1, 8);
    o.max_heap = 512 << 20;
    World w(o);
    w.through_locals = k.pick(5);
    setup(w);
    u32 n = 1 + p.pick(5);
    for (u32 i = 0; i < n; ++i) {
        Seg seg(p);
        Fn f;
        f.form = (Form) p.pick(FormCount);
        f.params = 1 + (p.chance(1, 8) ? p.pick(40) : p.pick(6));
        f.locals = p.chance(1, 8) ? p.pick(60) : p.pick(8);
        f.extra = p.chance(1, 4) ? p.pick(130) : p.pick(8);
        f.next = p.pick(n);
        w.chain.fns.push_back(f);
        note("k%u: %s, %u params, %u locals, extra %u -> k%u", i, form_names[f.form], f.params, f.locals, f.extra, f.next);
    }
    print(w.chain);
    note_text(w.chain.source);
    w.vm.load_source("prog", w.chain.source);
    if (k.chance(2, 3)) {
        u32 gap = std::vector<u32>{200, 50, 10, 3}[k.pick(4)];
        gc_setup("gc", GcMode::Gaps, gap, 300);
    }

    u64 overflows = 0;
    bool want_overflow = k.chance(1, 12);
    u32 count = 1 + s.pick(8);
    std::vector<H> bound;
    bound.push_back(call_now(w, "bound", 6));
    bound.push_back(call_now(w, "bound_contains", 0));
    bound.push_back(call_now(w, "thunk", 4711)); // while nothing else runs
    u64 expected_ticks = 0;
    auto start_one = [&] {
        Seg seg(s);
        switch (s.weighted({8, 3, 2, 2, 1, want_overflow ? 2u : 0u})) {
        case 0: {
            u32 f = s.pick(n);
            i64 depth = std::vector<i64>{s.range(0, 12), s.range(0, 60), s.range(0, 400), s.range(400, 3000)}[s.weighted({4, 4, 2, 1})];
            int b = s.weighted({4, 2, 1, 2, 1});
            std::vector<i64> a;
            std::vector<H> args;
            args.push_back(integer(w, depth));
            args.push_back(integer(w, b));
            for (u32 i = 0; i < w.chain.fns[f].params; ++i) {
                a.push_back(s.pick(1000));
                args.push_back(integer(w, a.back()));
            }
            Expect want = model(w.chain, f, depth, b, a);
            expected_ticks += want.ticks;
            u32 via = s.pick(5);
            std::string label = strf("k%u depth %lld bottom %d", f, (long long) depth, b);
            if (via == 4) { // a native function as the function of the coroutine
                H host = w.vm.fn("host", strf("through%u", s.pick(2)));
                H fn = w.vm.fn("prog", strf("k%u", f));
                args.insert(args.begin(), std::move(fn));
                launch(w, Run::Normal, host.get(), args, "native " + label).want = want;
            } else {
                H fn = w.vm.fn("prog", strf("k%u", f));
                launch(w, Run::Normal, fn.get(), args, label).want = want;
            }
            probe("depth_at_least_100", depth >= 100);
            probe("suspended_at_depth", (b == 2 || b == 3) && depth > 5);
            probe("panic_at_depth", b == 1 && depth > 5);
            break;
        }
        case 1: { // bound methods with any number of arguments
            u32 extra = s.pick(2) ? s.pick(130) : s.pick(12);
            bool contains = s.chance(1, 2);
            std::vector<H> args;
            i64 key = s.pick(5);
            if (contains)
                args.push_back(integer(w, key));
            for (u32 i = 0; i < extra; ++i)
                args.push_back(integer(w, i));
            Run& r = launch(w, Run::Simple, bound[contains].get(), args, strf("%s with %u more arguments", contains ? "contains" : "size", extra));
            r.want.value = contains ? key == 1 || key == 3 : 6;
            probe("bound_method_coroutine");
            break;
        }
        case 2: { // native functions with any number of arguments
            u32 extra = s.pick(200);
            H f = w.vm.fn("host", "sum");
            std::vector<H> args;
            i64 sum = 0;
            for (u32 i = 0; i < extra; ++i) {
                sum += i;
                args.push_back(integer(w, i));
            }
            launch(w, Run::Simple, f.get(), args, strf("sum of %u arguments", extra)).want.value = sum;
            break;
        }
        case 3: { // catch_panic as the function of the coroutine
            H f = w.vm.fn("std", "catch_panic");
            std::vector<H> args;
            H t(w.vm);
            Err e;
            api::value_copy(w.vm.vm, bound[2].get(), t.get(), &e);
            expect_ok(e, "value_copy");
            args.push_back(std::move(t));
            u32 extra = s.chance(1, 2) ? s.pick(130) : 0;
            for (u32 i = 0; i < extra; ++i)
                args.push_back(integer(w, i));
            launch(w, Run::Simple, f.get(), args, strf("catch with %u more arguments", extra)).want.value = 4711;
            break;
        }
        case 4: {
            gc_now(w.vm.heap);
            fault("gc_forced_by_host");
            break;
        }
        case 5: { // recursion without end
            if (overflows >= 2)
                break;
            ++overflows;
            u32 f = s.pick(n);
            std::vector<H> args;
            args.push_back(integer(w, 1000000000));
            args.push_back(integer(w, 0));
            for (u32 i = 0; i < w.chain.fns[f].params; ++i)
                args.push_back(integer(w, s.pick(1000)));
            H fn = w.vm.fn("prog", strf("k%u", f));
            launch(w, Run::Overflow, fn.get(), args, strf("endless k%u", f));
            fault("endless_recursion");
            break;
        }
        }
    };
    u64 errors = 0;
    auto turn = [&] {
        Err e;
        api::vm_run_ready(w.vm.vm, &e);
        if (!e.ok()) {
            ++errors;
            trace("run_ready: %s", ::tiro_error_name(e.raw()));
            SIM_CHECK(errors <= overflows, "unexpected-error", "run_ready failed without an endless recursion: %s", e.str().c_str());
            SIM_CHECK(e.code() == TIRO_ERROR_INTERNAL && e.str().find("stack overflow") != std::string::npos, "unexpected-error", "endless recursion is reported as %s", e.str().c_str());
            probe("overflow_reported");
        }
        for (auto& r : w.runs)
            check(w, *r);
    };
    for (u32 i = 0; i < count; ++i) {
        if (overflows == errors || s.chance(1, 2))
            start_one();
        if (s.chance(1, 3))
            turn();
        if (!w.naps.empty() && s.chance(1, 2)) {
            size_t at = s.pick(w.naps.size());
            auto nap = w.naps[at];
            w.naps.erase(w.naps.begin() + at);
            H v = integer(w, (nap.value + 1) % M);
            Err e;
            api::async_token_return_value(nap.token, v.get(), &e);
            expect_ok(e, "async_token_return_value");
            api::async_token_free(nap.token);
        }
    }
    // everything ends
    for (int round = 0; round < 60; ++round) {
        while (!w.naps.empty()) {
            auto nap = w.naps.front();
            w.naps.pop_front();
            H v = integer(w, (nap.value + 1) % M);
            Err e;
            api::async_token_return_value(nap.token, v.get(), &e);
            expect_ok(e, "async_token_return_value");
            api::async_token_free(nap.token);
        }
        if (!api::vm_has_ready(w.vm.vm) && w.naps.empty())
            break;
        turn();
    }
    for (auto& r : w.runs)
        if (r->kind != Run::Overflow)
            SIM_CHECK(r->completed, "lost-coroutine", "%s never completed", r->label.c_str());
    SIM_CHECK(errors == overflows, "overflow-lost", "%llu endless recursions, %llu reported", (unsigned long long) overflows, (unsigned long long) errors);
    SIM_CHECK(w.ticks == expected_ticks, "wrong-result", "%llu deferred calls ran instead of %llu", (unsigned long long) w.ticks, (unsigned long long) expected_ticks);

    // Later calls are unaffected, and loops leave nothing on the stack
    {
        i64 b = s.pick(2);
        u32 iterations = 60 + s.pick(s.chance(1, 4) ? 3000 / n : 200);
        std::vector<H> args;
        args.push_back(integer(w, iterations));
        args.push_back(integer(w, b));
        args.push_back(integer(w, 5));
        i64 sum = 0;
        for (u32 i = 0; i < iterations; ++i)
            for (u32 f = 0; f < n; ++f) {
                const Fn& x = w.chain.fns[f];
                static thread_local std::vector<Expect> cache;
                if (i == 0) {
                    if (f == 0)
                        cache.clear();
                    cache.push_back(model(w.chain, f, 1, (int) b, std::vector<i64>(x.params, 5)));
                }
                Expect& e = cache[f];
                sum = e.panics ? sum + 1 : (sum + e.value) % M;
                if (x.form != ViaCatch && x.form != ViaCatchExtra && b != 1)
                    sum = (sum + e.value) % M;
            }
        H fn = w.vm.fn("prog", "loops");
        Run& r = launch(w, Run::Normal, fn.get(), args, strf("loops of %u", iterations));
        r.want.value = sum;
        Err e;
        for (int i = 0; i < 10 && !r.completed; ++i) {
            api::vm_run_ready(w.vm.vm, &e);
            expect_ok(e, "run_ready");
        }
        SIM_CHECK(r.completed, "lost-coroutine", "%s never completed", r.label.c_str());
        check(w, r);
        SIM_CHECK(w.mark_count == 2, "wrong-result", "the loop did not run as expected");
        SIM_CHECK(w.marks[1] <= w.marks[0] + 256, "stack-leak", "live memory grew from %llu to %llu bytes during %u iterations", (unsigned long long) w.marks[0],
            (unsigned long long) w.marks[1], iterations);
    }
    stat("coroutines", w.runs.size());
    bound.clear();
    w.runs.clear();
    w.vm.destroy();
    natives.sync.clear();
    SIM_CHECK(mem.live_blocks == 0, "leak", "memory left after the machine was destroyed: %s", arena_leaks(5).c_str());
}
