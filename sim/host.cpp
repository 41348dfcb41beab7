#include "host.hpp"

#include <cstring>

namespace sim {

NativeTable natives;

void check_not_assert(const Err& e, const char* where) {
    if (e.ok())
        return;
    std::string d = e.details();
    if (d.find("Assertion `") != std::string::npos || d.find("Unreachable code") != std::string::npos) {
        size_t p = d.find("(in ");
        (void) p;
        fail("internal-assertion", "%s: internal assertion surfaced: %s", where, d.c_str());
    }
}

void expect_ok(const Err& e, const char* what) {
    check_not_assert(e, what);
    if (!e.ok())
        fail(strf("unexpected-error:%s", what).c_str(), "%s failed: %s", what, e.str().c_str());
}

H::H(tiro_vm_t vm) {
    Err e;
    h_ = api::global_new(vm, &e);
    if (!h_)
        fail("unexpected-error", "tiro_global_new failed: %s", e.str().c_str());
}

static bool collect_message(const tiro_compiler_message_t* m, void* ud) {
    InHost h;
    static_cast<std::vector<Message>*>(ud)->push_back(
        {m->severity, str(m->file), str(m->text), m->line, m->column});
    return true;
}

Compiled compile(const std::string& module, const std::vector<std::pair<std::string, std::string>>& files) {
    Compiled r;
    Err e;
    auto* c = api::compiler_new(ts(module), &e);
    expect_ok(e, "tiro_compiler_new");
    api::compiler_set_message_callback(c, collect_message, &r.messages, &e);
    expect_ok(e, "set_message_callback");
    for (auto& f : files) {
        api::compiler_add_file(c, ts(f.first), ts(f.second), &e);
        expect_ok(e, "add_file");
    }
    api::compiler_run(c, &e);
    check_not_assert(e, "tiro_compiler_run");
    r.code = e.code();
    r.details = e.details();
    if (e.ok()) {
        api::compiler_take_module(c, &r.module, &e);
        expect_ok(e, "take_module");
    }
    api::compiler_free(c);
    return r;
}

Compiled compile(const std::string& module, const std::string& source) {
    std::vector<std::pair<std::string, std::string>> files;
    files.emplace_back(module + ".tiro", source);
    return compile(module, files);
}

static void vm_print(tiro_string_t s, void* ud) {
    InHost h;
    static_cast<Vm*>(ud)->out.push_back(str(s));
}

Vm::Vm(const VmOptions& o) {
    tiro_vm_settings_t st;
    api::vm_settings_init(&st);
    st.page_size = o.page_size;
    st.max_heap_size = o.max_heap;
    st.userdata = this;
    st.print_stdout = vm_print;
    st.enable_panic_stack_trace = o.stack_trace;
    Err e;
    last_heap = nullptr;
    vm = api::vm_new(&st, &e);
    expect_ok(e, "tiro_vm_new");
    heap = last_heap;
    if (o.std) {
        api::vm_load_std(vm, &e);
        expect_ok(e, "tiro_vm_load_std");
    }
}

void Vm::destroy() {
    if (vm) {
        api::vm_free(vm);
        vm = nullptr;
        heap = nullptr;
    }
}

void Vm::load(tiro_module_t m, const char* what) {
    Err e;
    api::vm_load_bytecode(vm, m, &e);
    expect_ok(e, what);
}

void Vm::load_source(const std::string& module, const std::string& source) {
    Compiled c = compile(module, source);
    if (!c.module) {
        std::string m;
        for (auto& x : c.messages)
            m += strf("%u:%u %s; ", x.line, x.column, x.text.c_str());
        note("%s", source.c_str());
        fail("unexpected-error:compile", "generated program does not compile: %s %s", c.details.c_str(), m.c_str());
    }
    load(c.module, "tiro_vm_load_bytecode");
    api::module_free(c.module);
}

H Vm::fn(const std::string& module, const std::string& name) {
    H h(vm);
    Err e;
    api::vm_get_export(vm, ts(module), ts(name), h.get(), &e);
    expect_ok(e, ("get_export " + name).c_str());
    return h;
}

std::string render(tiro_vm_t vm, tiro_handle_t v, int depth) {
    Err e;
    switch (api::value_kind(vm, v)) {
    case TIRO_KIND_NULL:
        return "null";
    case TIRO_KIND_BOOLEAN:
        return api::boolean_value(vm, v) ? "true" : "false";
    case TIRO_KIND_INTEGER:
        return strf("%lld", (long long) api::integer_value(vm, v));
    case TIRO_KIND_FLOAT:
        return strf("%.17g", api::float_value(vm, v));
    case TIRO_KIND_STRING: {
        tiro_string_t s;
        api::string_value(vm, v, &s, &e);
        return "\"" + str(s) + "\"";
    }
    case TIRO_KIND_TUPLE: {
        size_t n = api::tuple_size(vm, v);
        if (depth <= 0)
            return strf("tuple[%zu]", n);
        H x(vm);
        std::string r = "(";
        for (size_t i = 0; i < n; ++i) {
            api::tuple_get(vm, v, i, x.get(), &e);
            r += (i ? ", " : "") + render(vm, x, depth - 1);
        }
        return r + ")";
    }
    case TIRO_KIND_ARRAY: {
        size_t n = api::array_size(vm, v);
        if (depth <= 0)
            return strf("array[%zu]", n);
        H x(vm);
        std::string r = "[";
        for (size_t i = 0; i < n; ++i) {
            api::array_get(vm, v, i, x.get(), &e);
            r += (i ? ", " : "") + render(vm, x, depth - 1);
        }
        return r + "]";
    }
    case TIRO_KIND_RECORD: {
        if (depth <= 0)
            return "record";
        H keys(vm), k(vm), x(vm);
        api::record_keys(vm, v, keys.get(), &e);
        size_t n = api::array_size(vm, keys.get());
        std::string r = "(";
        for (size_t i = 0; i < n; ++i) {
            api::array_get(vm, keys.get(), i, k.get(), &e);
            api::record_get(vm, v, k.get(), x.get(), &e);
            r += (i ? ", " : "") + render(vm, k, 1) + ": " + render(vm, x, depth - 1);
        }
        return r + ")";
    }
    case TIRO_KIND_RESULT: {
        H x(vm);
        if (api::result_is_success(vm, v)) {
            api::result_value(vm, v, x.get(), &e);
            return "success(" + render(vm, x, depth) + ")";
        }
        api::result_error(vm, v, x.get(), &e);
        return "error(" + render(vm, x, depth) + ")";
    }
    case TIRO_KIND_EXCEPTION: {
        H x(vm);
        api::exception_message(vm, v, x.get(), &e);
        return "exception(" + render(vm, x, depth) + ")";
    }
    case TIRO_KIND_BUFFER:
        return strf("buffer[%zu]", api::buffer_size(vm, v));
    case TIRO_KIND_COROUTINE:
        return "coroutine";
    case TIRO_KIND_FUNCTION:
        return "function";
    case TIRO_KIND_MODULE:
        return "module";
    case TIRO_KIND_TYPE:
        return "type";
    case TIRO_KIND_NATIVE:
        return strf("native[%zu]", api::native_size(vm, v));
    case TIRO_KIND_RECORD_SCHEMA:
        return "schema";
    case TIRO_KIND_INTERNAL: {
        H x(vm);
        api::value_to_string(vm, v, x.get(), &e);
        tiro_string_t s{};
        api::string_value(vm, x.get(), &s, &e);
        std::string r = str(s);
        // drop addresses
        size_t p = r.find("0x");
        if (p != std::string::npos)
            r = r.substr(0, p);
        return r;
    }
    case TIRO_KIND_INVALID:
        return "invalid";
    }
    return "?";
}

static i64 closure_index(tiro_vm_t vm, tiro_handle_t h) { return api::integer_value(vm, h); }

static void sync_trampoline(tiro_vm_t vm, tiro_sync_frame_t frame) {
    InHost in;
    i64 idx;
    {
        H c(vm);
        Err e;
        api::sync_frame_closure(frame, c.get(), &e);
        expect_ok(e, "sync_frame_closure");
        idx = closure_index(vm, c);
    }
    natives.sync[(size_t) idx](vm, frame);
}

static void async_trampoline(tiro_vm_t vm, tiro_async_frame_t frame) {
    InHost in;
    i64 idx;
    {
        H c(vm);
        Err e;
        api::async_frame_closure(frame, c.get(), &e);
        expect_ok(e, "async_frame_closure");
        idx = closure_index(vm, c);
    }
    natives.async[(size_t) idx](vm, frame);
}

static void res_trampoline(tiro_vm_t vm, tiro_resumable_frame_t frame) {
    InHost in;
    i64 idx;
    {
        H c(vm);
        Err e;
        api::resumable_frame_closure(frame, c.get(), &e);
        expect_ok(e, "resumable_frame_closure");
        idx = closure_index(vm, c);
    }
    natives.res[(size_t) idx](vm, frame);
}

H make_sync(tiro_vm_t vm, const char* name, size_t argc, SyncFn fn) {
    Err e;
    H n(vm), c(vm), r(vm);
    api::make_string(vm, ts(name), n.get(), &e);
    expect_ok(e, "make_string");
    api::make_integer(vm, (i64) natives.sync.size(), c.get(), &e);
    natives.sync.push_back(std::move(fn));
    api::make_sync_function(vm, n.get(), sync_trampoline, argc, c.get(), r.get(), &e);
    expect_ok(e, "make_sync_function");
    return r;
}

H make_async(tiro_vm_t vm, const char* name, size_t argc, AsyncFn fn) {
    Err e;
    H n(vm), c(vm), r(vm);
    api::make_string(vm, ts(name), n.get(), &e);
    expect_ok(e, "make_string");
    api::make_integer(vm, (i64) natives.async.size(), c.get(), &e);
    natives.async.push_back(std::move(fn));
    api::make_async_function(vm, n.get(), async_trampoline, argc, c.get(), r.get(), &e);
    expect_ok(e, "make_async_function");
    return r;
}

H make_resumable(tiro_vm_t vm, const char* name, size_t argc, size_t locals, ResFn fn) {
    Err e;
    H n(vm), c(vm), r(vm);
    api::make_string(vm, ts(name), n.get(), &e);
    expect_ok(e, "make_string");
    api::make_integer(vm, (i64) natives.res.size(), c.get(), &e);
    natives.res.push_back(std::move(fn));
    tiro_resumable_frame_desc_t d{};
    d.name = n.get();
    d.arg_count = argc;
    d.local_count = locals;
    d.closure = c.get();
    d.func = res_trampoline;
    api::make_resumable_function(vm, &d, r.get(), &e);
    expect_ok(e, "make_resumable_function");
    return r;
}

void make_module(tiro_vm_t vm, const char* name, std::vector<std::pair<std::string, H>> members) {
    std::vector<tiro_module_member_t> m;
    for (auto& x : members)
        m.push_back({ts(x.first), x.second.get()});
    H mod(vm);
    Err e;
    api::make_module(vm, ts(name), m.data(), m.size(), mod.get(), &e);
    expect_ok(e, "tiro_make_module");
    api::vm_load_module(vm, mod.get(), &e);
    expect_ok(e, "tiro_vm_load_module");
}

// Runs before the first fork with the regular allocator: initialises lazily created static state so that
// runs start alike and leak accounting only sees what a run allocated.
void warmup() {
    Compiled c = compile("warmup", "import std; export func main(a) { "
                                   "var m = map{\"a\": 1}; const r = std.catch_panic(func() { std.panic(\"x\"); }); "
                                   "return \"${a}${m.size()}\"; }");
    if (!c.module)
        return;
    Vm vm;
    vm.load(c.module);
    api::module_free(c.module);
    H f = vm.fn("warmup", "main");
    H args(vm), coro(vm);
    Err e;
    api::make_tuple(vm.vm, 1, args.get(), &e);
    api::make_coroutine(vm.vm, f.get(), args.get(), coro.get(), &e);
    api::coroutine_start(vm.vm, coro.get(), &e);
    api::vm_run_ready(vm.vm, &e);
    render(vm, coro);
}

} // namespace sim
