// C18: every function of the interface, called with one argument missing, of the wrong kind, out of range, or in a state that
// does not permit it: from the host, from native functions of every kind and from completion callbacks, while collections run
// and memory is refused. Such calls report the documented error and leave everything as it was.
#include "host.hpp"

#include <cstring>
using namespace sim;

namespace {

enum Kind {
    Null, Bool, Int, Float, Str, Buffer, Tuple, Record, Schema, Func, Array, Success, Failure, Exc, CoroNew, CoroWait, CoroDone, Mod, Type,
    Native, Kinds
};
using Mask = u32;
constexpr Mask bit(Kind k) { return 1u << k; }
constexpr Mask AnyKind = (1u << Kinds) - 1;
const Mask Results = bit(Success) | bit(Failure);
const Mask Coros = bit(CoroNew) | bit(CoroWait) | bit(CoroDone);

const char* SOURCE = R"(
import std;
import host;
export func double(x) { return x * 2; }
export func fails() { host.fail(); }
export func waits() { return host.wait(); }
export func calls(n) {
    var r = [];
    for var i = 0; i < n; i += 1 {
        r.append(host.sync(i));
        r.append(host.async(i));
        r.append(host.resumable(i));
    }
    return r;
}
export func bystander(n) {
    var sum = 0;
    for var i = 0; i < n; i += 1 { sum += i; std.dispatch(); }
    return sum;
}
)";

struct World;

// The arguments of one call: exactly one of them may be spoiled.
struct Args {
    World& w;
    int index = 0;       // arguments seen so far
    int spoil = -1;      // which one is spoiled
    bool missing = true; // missing, or of the wrong kind
    tiro_errc_t expect = TIRO_OK;

    tiro_vm_t vm();
    tiro_handle_t in(Kind k, Mask accept);
    tiro_handle_t in(Kind k) { return in(k, bit(k)); }
    tiro_handle_t any() { return in(Int, AnyKind); }
    tiro_handle_t out();
    tiro_string_t text(const char* s, bool may_be_empty);
    template<typename T>
    T ptr(T p) {
        if (index++ == spoil) {
            missing = true;
            expect = TIRO_ERROR_BAD_ARG;
            return nullptr;
        }
        return p;
    }
};

struct Entry {
    const char* name;
    int args;
    void (*call)(Args&, tiro_error_t*);
};

struct World {
    Stream& s;
    Vm vm;
    std::vector<H> obj;
    H dest, marker, scratch;
    std::string before;
    u64 calls = 0;
    u32 oom = 0;
    u32 nested = 0;
    std::string where = "host";
    tiro_sync_frame_t sync = nullptr;
    tiro_async_frame_t async = nullptr;
    tiro_resumable_frame_t res = nullptr;
    tiro_async_token_t waiting = nullptr;
    std::vector<tiro_async_token_t> pending;
    tiro_native_type_t type{};
    tiro_vm_settings_t settings{};
    u64 cleanups = 0, expected_cleanups = 0, callbacks = 0;
    u64 expected_callbacks = 0;

    World(Stream& s, const VmOptions& o)
        : s(s)
        , vm(o)
        , dest(vm.vm)
        , marker(vm.vm)
        , scratch(vm.vm) {}

    void setup();
    std::string fingerprint();
    void spoil_call();
    void state_call();
    void accessor();
    void compiler();
    bool run(const std::string& name, const std::function<void(tiro_error_t*)>& fn, const tiro_errc_t& expect);
    void misuse();
    void some() {
        for (u32 n = s.pick(4); n; --n)
            misuse();
    }
    H make(Kind k);
    void check_dest(const char* name);
};

tiro_vm_t Args::vm() { return ptr((tiro_vm_t) w.vm.vm); }
tiro_handle_t Args::out() { return ptr(w.dest.get()); }
tiro_handle_t Args::in(Kind k, Mask accept) {
    if (index++ != spoil)
        return w.obj[k];
    if (accept != AnyKind && w.s.chance(2, 3)) {
        u32 x;
        do
            x = w.s.pick(Kinds);
        while (accept & (1u << x));
        missing = false;
        expect = TIRO_ERROR_BAD_TYPE;
        return w.obj[x];
    }
    missing = true;
    expect = TIRO_ERROR_BAD_ARG;
    return nullptr;
}
tiro_string_t Args::text(const char* s, bool may_be_empty) {
    if (index++ != spoil)
        return ts(s);
    missing = true;
    expect = TIRO_ERROR_BAD_ARG;
    if (!may_be_empty && w.s.chance(1, 2))
        return {s, 0};
    return {nullptr, 1 + w.s.pick(100)};
}

void sync_nop(tiro_vm_t, tiro_sync_frame_t) {}
void async_nop(tiro_vm_t, tiro_async_frame_t) {}
void res_nop(tiro_vm_t, tiro_resumable_frame_t) {}
void never(tiro_vm_t, tiro_handle_t, void*) { fail("misuse-effect", "a callback that was refused is invoked"); }
void count_cleanup(void* p) {
    InHost h;
    ++static_cast<World*>(p)->cleanups;
}

// Arguments are evaluated into variables: their order decides which one is spoiled.
#define V auto v = a.vm();
#define R auto r = a.out();
const Entry entries[] = {
    {"vm_load_std", 1, [](Args& a, tiro_error_t* e) { V api::vm_load_std(v, e); }},
    {"vm_load_bytecode", 2, [](Args& a, tiro_error_t* e) {
        V static Compiled dummy;
        auto m = a.ptr((tiro_module_t) &dummy); // never dereferenced: one of both is missing
        api::vm_load_bytecode(v, m, e);
    }},
    {"vm_load_module", 2, [](Args& a, tiro_error_t* e) { V auto m = a.in(Mod); api::vm_load_module(v, m, e); }},
    {"vm_get_export", 4, [](Args& a, tiro_error_t* e) {
        V auto m = a.text("main", false);
        auto x = a.text("double", false);
        R api::vm_get_export(v, m, x, r, e);
    }},
    {"vm_run_ready", 1, [](Args& a, tiro_error_t* e) { V api::vm_run_ready(v, e); }},
    {"global_new", 1, [](Args& a, tiro_error_t* e) {
        V auto h = api::global_new(v, e);
        SIM_CHECK(!h, "misuse-effect", "global_new without a machine returns a handle");
    }},
    {"make_sync_function", 4, [](Args& a, tiro_error_t* e) {
        V auto n = a.in(Str);
        auto f = a.ptr((tiro_sync_function_t) sync_nop);
        R api::make_sync_function(v, n, f, (size_t) 1, (tiro_handle_t) nullptr, r, e);
    }},
    {"make_async_function", 4, [](Args& a, tiro_error_t* e) {
        V auto n = a.in(Str);
        auto f = a.ptr((tiro_async_function_t) async_nop);
        R api::make_async_function(v, n, f, (size_t) 1, (tiro_handle_t) nullptr, r, e);
    }},
    {"make_resumable_function", 5, [](Args& a, tiro_error_t* e) {
        V tiro_resumable_frame_desc_t d{};
        d.name = a.in(Str);
        d.func = a.ptr((tiro_resumable_function_t) res_nop);
        auto p = a.ptr((const tiro_resumable_frame_desc_t*) &d);
        R api::make_resumable_function(v, p, r, e);
    }},
    {"value_type", 3, [](Args& a, tiro_error_t* e) { V auto x = a.any(); R api::value_type(v, x, r, e); }},
    {"value_to_string", 3, [](Args& a, tiro_error_t* e) { V auto x = a.any(); R api::value_to_string(v, x, r, e); }},
    {"value_copy", 3, [](Args& a, tiro_error_t* e) { V auto x = a.any(); R api::value_copy(v, x, r, e); }},
    {"kind_type", 2, [](Args& a, tiro_error_t* e) { V R api::kind_type(v, TIRO_KIND_STRING, r, e); }},
    {"make_boolean", 2, [](Args& a, tiro_error_t* e) { V R api::make_boolean(v, true, r, e); }},
    {"make_integer", 2, [](Args& a, tiro_error_t* e) { V R api::make_integer(v, (int64_t) 1 << 62, r, e); }},
    {"make_float", 2, [](Args& a, tiro_error_t* e) { V R api::make_float(v, 1.5, r, e); }},
    {"make_string", 3, [](Args& a, tiro_error_t* e) { V auto t = a.text("text", true); R api::make_string(v, t, r, e); }},
    {"string_value", 3, [](Args& a, tiro_error_t* e) {
        V auto x = a.in(Str);
        tiro_string_t t{"unchanged", 9};
        auto p = a.ptr(&t);
        api::string_value(v, x, p, e);
        SIM_CHECK(str(t) == "unchanged", "misuse-effect", "string_value fails and changes its result");
    }},
    {"string_cstr", 3, [](Args& a, tiro_error_t* e) {
        V auto x = a.in(Str);
        char c;
        char* t = &c;
        auto p = a.ptr(&t);
        api::string_cstr(v, x, p, e);
        SIM_CHECK(t == &c, "misuse-effect", "string_cstr fails and changes its result");
    }},
    {"make_buffer", 2, [](Args& a, tiro_error_t* e) { V R api::make_buffer(v, (size_t) 16, r, e); }},
    {"make_tuple", 2, [](Args& a, tiro_error_t* e) { V R api::make_tuple(v, (size_t) 3, r, e); }},
    {"tuple_get", 3, [](Args& a, tiro_error_t* e) { V auto x = a.in(Tuple); R api::tuple_get(v, x, (size_t) 0, r, e); }},
    {"tuple_set", 3, [](Args& a, tiro_error_t* e) { V auto x = a.in(Tuple); auto y = a.any(); api::tuple_set(v, x, (size_t) 1, y, e); }},
    {"make_record_schema", 3, [](Args& a, tiro_error_t* e) { V auto x = a.in(Array); R api::make_record_schema(v, x, r, e); }},
    {"make_record", 3, [](Args& a, tiro_error_t* e) { V auto x = a.in(Schema); R api::make_record(v, x, r, e); }},
    {"record_keys", 3, [](Args& a, tiro_error_t* e) { V auto x = a.in(Record); R api::record_keys(v, x, r, e); }},
    {"record_get", 4, [](Args& a, tiro_error_t* e) { V auto x = a.in(Record); auto k = a.in(Str); R api::record_get(v, x, k, r, e); }},
    {"record_set", 4, [](Args& a, tiro_error_t* e) {
        V auto x = a.in(Record);
        auto k = a.in(Str);
        auto y = a.any();
        api::record_set(v, x, k, y, e);
    }},
    {"make_array", 2, [](Args& a, tiro_error_t* e) { V R api::make_array(v, (size_t) 7, r, e); }},
    {"array_get", 3, [](Args& a, tiro_error_t* e) { V auto x = a.in(Array); R api::array_get(v, x, (size_t) 0, r, e); }},
    {"array_set", 3, [](Args& a, tiro_error_t* e) { V auto x = a.in(Array); auto y = a.any(); api::array_set(v, x, (size_t) 0, y, e); }},
    {"array_push", 3, [](Args& a, tiro_error_t* e) { V auto x = a.in(Array); auto y = a.any(); api::array_push(v, x, y, e); }},
    {"array_pop", 2, [](Args& a, tiro_error_t* e) { V auto x = a.in(Array); api::array_pop(v, x, e); }},
    {"array_clear", 2, [](Args& a, tiro_error_t* e) { V auto x = a.in(Array); api::array_clear(v, x, e); }},
    {"make_success", 3, [](Args& a, tiro_error_t* e) { V auto x = a.any(); R api::make_success(v, x, r, e); }},
    {"make_error", 3, [](Args& a, tiro_error_t* e) { V auto x = a.any(); R api::make_error(v, x, r, e); }},
    {"result_value", 3, [](Args& a, tiro_error_t* e) { V auto x = a.in(Success, Results); R api::result_value(v, x, r, e); }},
    {"result_error", 3, [](Args& a, tiro_error_t* e) { V auto x = a.in(Failure, Results); R api::result_error(v, x, r, e); }},
    {"exception_message", 3, [](Args& a, tiro_error_t* e) { V auto x = a.in(Exc); R api::exception_message(v, x, r, e); }},
    {"exception_trace", 3, [](Args& a, tiro_error_t* e) { V auto x = a.in(Exc); R api::exception_trace(v, x, r, e); }},
    {"make_coroutine", 3, [](Args& a, tiro_error_t* e) { V auto x = a.in(Func); R api::make_coroutine(v, x, (tiro_handle_t) nullptr, r, e); }},
    {"coroutine_start", 2, [](Args& a, tiro_error_t* e) { V auto x = a.in(CoroNew, Coros); api::coroutine_start(v, x, e); }},
    {"coroutine_result", 3, [](Args& a, tiro_error_t* e) { V auto x = a.in(CoroDone, Coros); R api::coroutine_result(v, x, r, e); }},
    {"coroutine_set_callback", 3, [](Args& a, tiro_error_t* e) {
        V auto x = a.in(CoroWait, Coros);
        auto f = a.ptr((tiro_coroutine_callback_t) never);
        ++a.w.expected_cleanups;
        api::coroutine_set_callback(v, x, f, (tiro_coroutine_cleanup_t) count_cleanup, (void*) &a.w, e);
        SIM_CHECK(a.w.cleanups == a.w.expected_cleanups, "misuse-effect", "a refused callback was not cleaned up exactly once");
    }},
    {"make_module", 3, [](Args& a, tiro_error_t* e) {
        V auto n = a.text("other", false);
        R api::make_module(v, n, (tiro_module_member_t*) nullptr, (size_t) 0, r, e);
    }},
    {"make_module with members", 5, [](Args& a, tiro_error_t* e) {
        V auto n = a.text("other", false);
        tiro_module_member_t m[2] = {{ts("first"), a.w.obj[Int]}, {a.text("second", false), a.ptr(a.w.obj[Str].get())}};
        auto p = a.ptr(&m[0]);
        api::make_module(v, n, p, (size_t) 2, a.w.dest.get(), e);
    }},
    {"module_get_export", 4, [](Args& a, tiro_error_t* e) {
        V auto x = a.in(Mod);
        auto t = a.text("member", false);
        R api::module_get_export(v, x, t, r, e);
    }},
    {"type_name", 3, [](Args& a, tiro_error_t* e) { V auto x = a.in(Type); R api::type_name(v, x, r, e); }},
    {"make_native", 3, [](Args& a, tiro_error_t* e) {
        V auto t = a.ptr((const tiro_native_type_t*) &a.w.type);
        R api::make_native(v, t, (size_t) 8, r, e);
    }},
    {"compiler_new", 1, [](Args& a, tiro_error_t* e) {
        auto n = a.text("module", false);
        auto c = api::compiler_new(n, e);
        SIM_CHECK(!c, "misuse-effect", "compiler_new fails but returns a compiler");
    }},
    {"async_token_return_value", 2, [](Args& a, tiro_error_t* e) {
        auto t = a.ptr(a.w.waiting);
        auto x = a.any();
        api::async_token_return_value(t, x, e);
    }},
    {"async_token_panic_msg", 2, [](Args& a, tiro_error_t* e) {
        auto t = a.ptr(a.w.waiting);
        auto x = a.text("message", true);
        api::async_token_panic_msg(t, x, e);
    }},
};
const Entry sync_entries[] = {
    {"sync_frame_arg", 2, [](Args& a, tiro_error_t* e) { auto f = a.ptr(a.w.sync); R api::sync_frame_arg(f, (size_t) 0, r, e); }},
    {"sync_frame_closure", 2, [](Args& a, tiro_error_t* e) { auto f = a.ptr(a.w.sync); R api::sync_frame_closure(f, r, e); }},
    {"sync_frame_return_value", 2, [](Args& a, tiro_error_t* e) { auto f = a.ptr(a.w.sync); auto x = a.any(); api::sync_frame_return_value(f, x, e); }},
    {"sync_frame_panic_msg", 2, [](Args& a, tiro_error_t* e) { auto f = a.ptr(a.w.sync); auto t = a.text("m", true); api::sync_frame_panic_msg(f, t, e); }},
};
const Entry async_entries[] = {
    {"async_frame_arg", 2, [](Args& a, tiro_error_t* e) { auto f = a.ptr(a.w.async); R api::async_frame_arg(f, (size_t) 0, r, e); }},
    {"async_frame_closure", 2, [](Args& a, tiro_error_t* e) { auto f = a.ptr(a.w.async); R api::async_frame_closure(f, r, e); }},
    {"async_frame_return_value", 2, [](Args& a, tiro_error_t* e) { auto f = a.ptr(a.w.async); auto x = a.any(); api::async_frame_return_value(f, x, e); }},
    {"async_frame_panic_msg", 2, [](Args& a, tiro_error_t* e) { auto f = a.ptr(a.w.async); auto t = a.text("m", true); api::async_frame_panic_msg(f, t, e); }},
    {"async_frame_token", 1, [](Args& a, tiro_error_t* e) {
        auto f = a.ptr(a.w.async);
        auto t = api::async_frame_token(f, e);
        SIM_CHECK(!t, "misuse-effect", "async_frame_token fails but returns a token");
    }},
    {"async_frame_yield", 1, [](Args& a, tiro_error_t* e) { auto f = a.ptr(a.w.async); api::async_frame_yield(f, e); }},
};
const Entry res_entries[] = {
    {"resumable_frame_arg", 2, [](Args& a, tiro_error_t* e) { auto f = a.ptr(a.w.res); R api::resumable_frame_arg(f, (size_t) 0, r, e); }},
    {"resumable_frame_local", 2, [](Args& a, tiro_error_t* e) { auto f = a.ptr(a.w.res); R api::resumable_frame_local(f, (size_t) 0, r, e); }},
    {"resumable_frame_set_local", 2, [](Args& a, tiro_error_t* e) {
        auto f = a.ptr(a.w.res);
        auto x = a.any();
        api::resumable_frame_set_local(f, (size_t) 0, x, e);
    }},
    {"resumable_frame_closure", 2, [](Args& a, tiro_error_t* e) { auto f = a.ptr(a.w.res); R api::resumable_frame_closure(f, r, e); }},
    {"resumable_frame_set_state", 1, [](Args& a, tiro_error_t* e) { auto f = a.ptr(a.w.res); api::resumable_frame_set_state(f, 77, e); }},
    {"resumable_frame_invoke", 2, [](Args& a, tiro_error_t* e) {
        auto f = a.ptr(a.w.res);
        auto x = a.in(Func);
        api::resumable_frame_invoke(f, 77, x, (tiro_handle_t) nullptr, e);
    }},
    {"resumable_frame_invoke_return", 2, [](Args& a, tiro_error_t* e) { auto f = a.ptr(a.w.res); R api::resumable_frame_invoke_return(f, r, e); }},
    {"resumable_frame_return_value", 2, [](Args& a, tiro_error_t* e) {
        auto f = a.ptr(a.w.res);
        auto x = a.any();
        api::resumable_frame_return_value(f, x, e);
    }},
    {"resumable_frame_panic_msg", 2, [](Args& a, tiro_error_t* e) {
        auto f = a.ptr(a.w.res);
        auto t = a.text("m", true);
        api::resumable_frame_panic_msg(f, t, e);
    }},
};
#undef V
#undef R

H World::make(Kind k) {
    H h(vm.vm);
    Err e;
    auto set_ok = [&](const char* what) { expect_ok(e, what); };
    auto finished = [&](const char* name) {
        H f = vm.fn("main", name);
        H co(vm.vm);
        api::make_coroutine(vm.vm, f.get(), (tiro_handle_t) nullptr, co.get(), &e);
        set_ok("make_coroutine");
        api::coroutine_start(vm.vm, co.get(), &e);
        set_ok("coroutine_start");
        api::vm_run_ready(vm.vm, &e);
        set_ok("run_ready");
        return co;
    };
    switch (k) {
    case Null: break;
    case Bool: api::make_boolean(vm.vm, true, h.get(), &e); break;
    case Int: api::make_integer(vm.vm, (int64_t) 41, h.get(), &e); break;
    case Float: api::make_float(vm.vm, 2.5, h.get(), &e); break;
    case Str: api::make_string(vm.vm, ts("unknown"), h.get(), &e); break;
    case Buffer:
        api::make_buffer(vm.vm, (size_t) 24, h.get(), &e);
        set_ok("make_buffer");
        std::memset(api::buffer_data(vm.vm, h.get()), 0x5a, 24);
        break;
    case Tuple: api::make_tuple(vm.vm, (size_t) 3, h.get(), &e); break;
    case Schema:
    case Record: {
        H keys(vm.vm), name(vm.vm), schema(vm.vm);
        api::make_array(vm.vm, (size_t) 0, keys.get(), &e);
        set_ok("make_array");
        for (const char* n : {"alpha", "beta"}) {
            api::make_string(vm.vm, ts(n), name.get(), &e);
            set_ok("make_string");
            api::array_push(vm.vm, keys.get(), name.get(), &e);
            set_ok("array_push");
        }
        api::make_record_schema(vm.vm, keys.get(), schema.get(), &e);
        set_ok("make_record_schema");
        if (k == Schema)
            return schema;
        api::make_record(vm.vm, schema.get(), h.get(), &e);
        set_ok("make_record");
        api::record_set(vm.vm, h.get(), name.get(), obj[Int].get(), &e);
        break;
    }
    case Func: return vm.fn("main", "double");
    case Array:
        api::make_array(vm.vm, (size_t) 0, h.get(), &e);
        set_ok("make_array");
        for (int i = 0; i < 3; ++i) {
            api::array_push(vm.vm, h.get(), obj[i == 1 ? Str : Int].get(), &e);
            set_ok("array_push");
        }
        break;
    case Success: api::make_success(vm.vm, obj[Int].get(), h.get(), &e); break;
    case Failure: api::make_error(vm.vm, obj[Str].get(), h.get(), &e); break;
    case Exc: {
        H co = finished("fails");
        H r(vm.vm);
        api::coroutine_result(vm.vm, co.get(), r.get(), &e);
        set_ok("coroutine_result");
        api::result_error(vm.vm, r.get(), h.get(), &e);
        break;
    }
    case CoroNew: {
        H f = vm.fn("main", "waits");
        api::make_coroutine(vm.vm, f.get(), (tiro_handle_t) nullptr, h.get(), &e);
        break;
    }
    case CoroWait: return finished("waits");
    case CoroDone: return finished("fails");
    case Mod: {
        tiro_module_member_t m[1] = {{ts("member"), obj[Array].get()}};
        api::make_module(vm.vm, ts("held"), (tiro_module_member_t*) m, (size_t) 1, h.get(), &e);
        break;
    }
    case Type: api::kind_type(vm.vm, TIRO_KIND_STRING, h.get(), &e); break;
    case Native:
        api::make_native(vm.vm, (const tiro_native_type_t*) &type, (size_t) 32, h.get(), &e);
        set_ok("make_native");
        std::memset(api::native_data(vm.vm, h.get()), 0x33, 32);
        break;
    case Kinds: break;
    }
    set_ok("create a value");
    return h;
}

void World::setup() {
    type.name = ts("surface");
    type.alignment = 8;
    auto sync_fn = [this](tiro_vm_t v, tiro_sync_frame_t f) {
        std::string saved = where;
        auto saved_frame = sync;
        where = "sync function";
        sync = f;
        Err e;
        H x(v);
        api::sync_frame_arg(f, (size_t) 0, x.get(), &e);
        expect_ok(e, "sync_frame_arg");
        some();
        bool early = s.pick(2);
        H r(v);
        api::make_integer(v, api::integer_value(v, x.get()) + 100, r.get(), &e);
        expect_ok(e, "make_integer");
        api::sync_frame_return_value(f, r.get(), &e);
        expect_ok(e, "sync_frame_return_value");
        if (early)
            some(); // the value that was returned is not affected
        sync = saved_frame;
        where = saved;
    };
    auto async_fn = [this](tiro_vm_t v, tiro_async_frame_t f) {
        std::string saved = where;
        auto saved_frame = async;
        where = "async function";
        async = f;
        Err e;
        H x(v);
        api::async_frame_arg(f, (size_t) 0, x.get(), &e);
        expect_ok(e, "async_frame_arg");
        some();
        H r(v);
        api::make_integer(v, api::integer_value(v, x.get()) + 200, r.get(), &e);
        expect_ok(e, "make_integer");
        if (s.pick(2)) {
            api::async_frame_return_value(f, r.get(), &e);
            expect_ok(e, "async_frame_return_value");
        } else {
            auto t = api::async_frame_token(f, &e);
            expect_ok(e, "async_frame_token");
            // too early: the frame does not wait yet
            if (s.pick(2))
                run("async_token_return_value before the frame yields",
                    [&](tiro_error_t* p) { api::async_token_return_value(t, r.get(), p); }, TIRO_ERROR_INTERNAL);
            api::async_frame_yield(f, &e);
            expect_ok(e, "async_frame_yield");
            pending.push_back(t);
        }
        some();
        async = saved_frame;
        where = saved;
    };
    auto res_fn = [this](tiro_vm_t v, tiro_resumable_frame_t f) {
        std::string saved = where;
        auto saved_frame = res;
        where = "resumable function";
        res = f;
        Err e;
        H x(v), r(v);
        some();
        const int state = api::resumable_frame_state(f);
        SIM_CHECK(state == 0 || state == 5, "misuse-effect", "the frame is in state %d", state);
        if (state == 0) {
            api::resumable_frame_arg(f, (size_t) 0, x.get(), &e);
            expect_ok(e, "resumable_frame_arg");
            api::resumable_frame_set_local(f, (size_t) 1, x.get(), &e);
            expect_ok(e, "resumable_frame_set_local");
            H args(v), fn = vm.fn("main", "double");
            api::make_tuple(v, (size_t) 1, args.get(), &e);
            expect_ok(e, "make_tuple");
            api::tuple_set(v, args.get(), (size_t) 0, x.get(), &e);
            expect_ok(e, "tuple_set");
            api::resumable_frame_invoke(f, 5, fn.get(), args.get(), &e);
            expect_ok(e, "resumable_frame_invoke");
        } else {
            api::resumable_frame_local(f, (size_t) 1, x.get(), &e);
            expect_ok(e, "resumable_frame_local");
            api::resumable_frame_local(f, (size_t) 0, r.get(), &e);
            expect_ok(e, "resumable_frame_local");
            SIM_CHECK(api::value_kind(v, r.get()) == TIRO_KIND_NULL, "misuse-effect", "a local changed that nobody assigned");
            api::resumable_frame_invoke_return(f, r.get(), &e);
            expect_ok(e, "resumable_frame_invoke_return");
            SIM_CHECK(api::integer_value(v, r.get()) == 2 * api::integer_value(v, x.get()), "misuse-effect", "double(%lld) returned %s",
                (long long) api::integer_value(v, x.get()), render(v, r.get()).c_str());
            api::resumable_frame_return_value(f, r.get(), &e);
            expect_ok(e, "resumable_frame_return_value");
        }
        some();
        res = saved_frame;
        where = saved;
    };
    std::vector<std::pair<std::string, H>> m;
    m.emplace_back("sync", make_sync(vm.vm, "sync", 1, sync_fn));
    m.emplace_back("async", make_async(vm.vm, "async", 1, async_fn));
    m.emplace_back("resumable", make_resumable(vm.vm, "resumable", 1, 2, res_fn));
    m.emplace_back("wait", make_async(vm.vm, "wait", 0, [this](tiro_vm_t, tiro_async_frame_t f) {
        Err e;
        SIM_CHECK(!waiting, "misuse-effect", "the waiting coroutine runs twice");
        waiting = api::async_frame_token(f, &e);
        expect_ok(e, "async_frame_token");
        api::async_frame_yield(f, &e);
        expect_ok(e, "async_frame_yield");
    }));
    m.emplace_back("fail", make_sync(vm.vm, "fail", 0, [](tiro_vm_t, tiro_sync_frame_t f) {
        Err e;
        api::sync_frame_panic_msg(f, ts("failure"), &e);
        expect_ok(e, "sync_frame_panic_msg");
    }));
    make_module(vm.vm, "host", std::move(m));
    vm.load_source("main", SOURCE);
    for (int k = 0; k < Kinds; ++k)
        obj.emplace_back(vm.vm);
    for (int k : {Null, Bool, Int, Float, Str, Buffer, Tuple, Schema, Record, Func, Array, Success, Failure, Exc, CoroNew, CoroWait, CoroDone, Mod,
             Type, Native})
        obj[k] = make((Kind) k);
    SIM_CHECK(waiting, "setup", "the waiting coroutine does not wait");
    Err e;
    api::make_string(vm.vm, ts("marker"), marker.get(), &e);
    expect_ok(e, "make_string");
    api::value_copy(vm.vm, marker.get(), dest.get(), &e);
    expect_ok(e, "value_copy");
    before = fingerprint();
}

// Everything the objects contain, as far as it can be seen without allocating in the machine.
std::string World::fingerprint() {
    std::string f;
    tiro_vm_t v = vm.vm;
    Err e;
    auto item = [&](const char* name, auto get, size_t n) {
        f += name;
        f += strf("[%zu]:", n);
        for (size_t i = 0; i < n; ++i) {
            get(i);
            expect_ok(e, name);
            for (int k = 0; k < Kinds; ++k)
                if (api::value_same(v, scratch.get(), obj[k].get()))
                    f += strf("%d ", k);
            f += strf("kind%d %lld;", (int) api::value_kind(v, scratch.get()), (long long) api::integer_value(v, scratch.get()));
        }
    };
    item("tuple", [&](size_t i) { api::tuple_get(v, obj[Tuple].get(), i, scratch.get(), &e); }, api::tuple_size(v, obj[Tuple].get()));
    item("array", [&](size_t i) { api::array_get(v, obj[Array].get(), i, scratch.get(), &e); }, api::array_size(v, obj[Array].get()));
    for (Kind k : {CoroNew, CoroWait, CoroDone})
        f += strf("coro %d %d;", api::coroutine_started(v, obj[k].get()), api::coroutine_completed(v, obj[k].get()));
    const uint8_t* b = (const uint8_t*) api::buffer_data(v, obj[Buffer].get());
    const uint8_t* n = (const uint8_t*) api::native_data(v, obj[Native].get());
    f += strf("buffer %zu %d native %zu %d;", api::buffer_size(v, obj[Buffer].get()), b && b[0] == 0x5a && b[23] == 0x5a,
        api::native_size(v, obj[Native].get()), n && n[0] == 0x33 && n[31] == 0x33);
    f += strf("%d%d%lld %g", api::result_is_success(v, obj[Success].get()), api::result_is_error(v, obj[Failure].get()),
        (long long) api::integer_value(v, obj[Int].get()), api::float_value(v, obj[Float].get()));
    for (int k = 0; k < Kinds; ++k)
        f += strf(" %d", (int) api::value_kind(v, obj[k].get()));
    api::make_null(v, scratch.get());
    return f;
}

void World::check_dest(const char* name) {
    SIM_CHECK(api::value_same(vm.vm, dest.get(), marker.get()), "misuse-effect", "%s (%s) failed but assigned its result", name, where.c_str());
}

// Runs a call that must fail with the given code. Returns whether memory was refused instead.
bool World::run(const std::string& title, const std::function<void(tiro_error_t*)>& fn, const tiro_errc_t& expect) {
    ++calls;
    fault("api_misuse");
    const u64 failed = mem.failed;
    const bool refuse = oom && s.chance(1, oom);
    const u32 mode = s.pick(6); // 0: no error slot, 1: occupied error slot
    const char* name = title.c_str();
    auto armed = [&](tiro_error_t* e) {
        if (refuse) {
            oom_after = s.pick(3);
            oom_count = 1 + s.pick(4);
        }
        fn(e);
        oom_reset();
        name = title.c_str();
    };
    const bool ready = api::vm_has_ready(vm.vm);
    if (mode == 0) {
        armed(nullptr);
    } else if (mode == 1) {
        Err first;
        api::compiler_new(tiro_string_t{nullptr, 0}, &first);
        SIM_CHECK(first.code() == TIRO_ERROR_BAD_ARG, "wrong-error", "compiler_new without a name: %s", first.str().c_str());
        tiro_error_t held = first.raw();
        const std::string text = first.str();
        armed(first.slot());
        SIM_CHECK(first.raw() == held && first.str() == text, "error-overwritten", "%s (%s) replaced an error that had been reported before", name,
            where.c_str());
    } else {
        Err e;
        armed(&e);
        SIM_CHECK(!e.ok(), "misuse-accepted", "%s (%s) succeeded but must fail with %s", name, where.c_str(), tiro_errc_name(expect));
        if (expect != TIRO_ERROR_INTERNAL)
            check_not_assert(e, name);
        const bool refused = mem.failed != failed && e.code() == TIRO_ERROR_ALLOC;
        SIM_CHECK(refused || e.code() == expect, "wrong-error", "%s (%s) failed with %s, expected %s", name,
            where.c_str(), e.str().c_str(), tiro_errc_name(expect));
    }
    if (mem.failed != failed)
        fault("system_allocation_refused");
    SIM_CHECK(api::vm_has_ready(vm.vm) == ready, "misuse-effect", "%s (%s) changed the ready queue", name, where.c_str());
    check_dest(name);
    std::string now = fingerprint();
    SIM_CHECK(now == before, "misuse-effect", "%s (%s) changed an object: %s became %s", name, where.c_str(), before.c_str(), now.c_str());
    return mem.failed != failed;
}

void World::spoil_call() {
    struct Table {
        const Entry* e;
        u32 n;
    };
    const Table tables[4] = {
        {entries, (u32) std::size(entries)},
        {sync_entries, (u32) std::size(sync_entries)},
        {async_entries, (u32) std::size(async_entries)},
        {res_entries, (u32) std::size(res_entries)},
    };
    const u32 which = s.chance(1, 3) ? (sync ? 1 : async ? 2 : res ? 3 : 1 + s.pick(3)) : 0;
    const Entry& x = tables[which].e[s.pick(tables[which].n)];
    const bool have_frame = which == 0 || (which == 1 && sync) || (which == 2 && async) || (which == 3 && res);
    Args a{*this};
    a.spoil = have_frame ? (int) s.pick((u32) x.args) : 0;
    trace("%s: %s, argument %d", where.c_str(), x.name, a.spoil);
    // The kind of damage is decided inside of the call: name and expectation are known afterwards.
    std::string name = x.name;
    run(name, [&](tiro_error_t* e) {
        x.call(a, e);
        SIM_CHECK(a.index == x.args, "setup", "%s has %d arguments", x.name, a.index);
        name = strf("%s with argument %d %s", x.name, a.spoil, a.missing ? "missing" : "of the wrong kind");
    }, a.expect);
}

void World::state_call() {
    tiro_vm_t v = vm.vm;
    auto d = dest.get();
    const u32 what = s.pick(23);
    trace("%s: state %u", where.c_str(), what);
    switch (what) {
    case 0:
        run("coroutine_start of a started coroutine", [&](tiro_error_t* e) { api::coroutine_start(v, obj[s.pick(2) ? CoroWait : CoroDone].get(), e); },
            TIRO_ERROR_BAD_STATE);
        break;
    case 1:
        run("coroutine_result of a coroutine that did not complete",
            [&](tiro_error_t* e) { api::coroutine_result(v, obj[s.pick(2) ? CoroWait : CoroNew].get(), d, e); }, TIRO_ERROR_BAD_STATE);
        break;
    case 2: run("result_value of an error", [&](tiro_error_t* e) { api::result_value(v, obj[Failure].get(), d, e); }, TIRO_ERROR_BAD_STATE); break;
    case 3: run("result_error of a success", [&](tiro_error_t* e) { api::result_error(v, obj[Success].get(), d, e); }, TIRO_ERROR_BAD_STATE); break;
    case 4:
        if (sync || async || res || nested)
            run("run_ready within run_ready", [&](tiro_error_t* e) { api::vm_run_ready(v, e); }, TIRO_ERROR_INTERNAL);
        break;
    case 5: run("load_std again", [&](tiro_error_t* e) { api::vm_load_std(v, e); }, TIRO_ERROR_MODULE_EXISTS); break;
    case 6: {
        static const char* names[] = {"main", "host", "std"};
        H m(v);
        {
            Err e;
            api::make_module(v, ts(names[s.pick(3)]), (tiro_module_member_t*) nullptr, (size_t) 0, m.get(), &e);
            expect_ok(e, "make_module");
        }
        run("load_module with the name of another module", [&](tiro_error_t* e) { api::vm_load_module(v, m.get(), e); }, TIRO_ERROR_MODULE_EXISTS);
        break;
    }
    case 7:
        run("get_export of an unknown module", [&](tiro_error_t* e) { api::vm_get_export(v, ts(s.pick(2) ? "held" : "nothing"), ts("double"), d, e); },
            TIRO_ERROR_MODULE_NOT_FOUND);
        break;
    case 8:
        run("get_export of an unknown member", [&](tiro_error_t* e) { api::vm_get_export(v, ts("main"), ts("nothing"), d, e); },
            TIRO_ERROR_EXPORT_NOT_FOUND);
        break;
    case 9:
        run("module_get_export of an unknown member", [&](tiro_error_t* e) { api::module_get_export(v, obj[Mod].get(), ts("nothing"), d, e); },
            TIRO_ERROR_EXPORT_NOT_FOUND);
        break;
    case 10:
        run("record_get with an unknown key", [&](tiro_error_t* e) { api::record_get(v, obj[Record].get(), obj[Str].get(), d, e); }, TIRO_ERROR_BAD_KEY);
        break;
    case 11:
        run("record_set with an unknown key", [&](tiro_error_t* e) { api::record_set(v, obj[Record].get(), obj[Str].get(), obj[Int].get(), e); },
            TIRO_ERROR_BAD_KEY);
        break;
    case 12: {
        size_t i = 3 + (s.pick(2) ? s.pick(3) : (size_t) -4 - s.pick(3));
        run("tuple_get out of range", [&](tiro_error_t* e) { api::tuple_get(v, obj[Tuple].get(), i, d, e); }, TIRO_ERROR_OUT_OF_BOUNDS);
        run("tuple_set out of range", [&](tiro_error_t* e) { api::tuple_set(v, obj[Tuple].get(), i, obj[Int].get(), e); }, TIRO_ERROR_OUT_OF_BOUNDS);
        run("array_get out of range", [&](tiro_error_t* e) { api::array_get(v, obj[Array].get(), i, d, e); }, TIRO_ERROR_OUT_OF_BOUNDS);
        run("array_set out of range", [&](tiro_error_t* e) { api::array_set(v, obj[Array].get(), i, obj[Int].get(), e); }, TIRO_ERROR_OUT_OF_BOUNDS);
        break;
    }
    case 13: {
        size_t i = s.pick(2) ? 1 + s.pick(3) : (size_t) -1 - s.pick(3);
        if (sync)
            run("sync_frame_arg out of range", [&](tiro_error_t* e) { api::sync_frame_arg(sync, i, d, e); }, TIRO_ERROR_OUT_OF_BOUNDS);
        else if (async)
            run("async_frame_arg out of range", [&](tiro_error_t* e) { api::async_frame_arg(async, i, d, e); }, TIRO_ERROR_OUT_OF_BOUNDS);
        else if (res) {
            run("resumable_frame_arg out of range", [&](tiro_error_t* e) { api::resumable_frame_arg(res, i, d, e); }, TIRO_ERROR_OUT_OF_BOUNDS);
            size_t l = s.pick(2) ? 2 + s.pick(3) : (size_t) -1 - s.pick(3);
            run("resumable_frame_local out of range", [&](tiro_error_t* e) { api::resumable_frame_local(res, l, d, e); }, TIRO_ERROR_OUT_OF_BOUNDS);
            run("resumable_frame_set_local out of range", [&](tiro_error_t* e) { api::resumable_frame_set_local(res, l, obj[Int].get(), e); },
                TIRO_ERROR_OUT_OF_BOUNDS);
        }
        break;
    }
    case 14: {
        u32 x;
        do
            x = s.pick(Kinds);
        while (x == Tuple || x == Null);
        if (!res || s.pick(2))
            run("make_coroutine with arguments that are not a tuple",
                [&](tiro_error_t* e) { api::make_coroutine(v, obj[Func].get(), obj[x].get(), d, e); }, TIRO_ERROR_BAD_TYPE);
        else
            run("resumable_frame_invoke with arguments that are not a tuple",
                [&](tiro_error_t* e) { api::resumable_frame_invoke(res, 9, obj[Func].get(), obj[x].get(), e); }, TIRO_ERROR_BAD_TYPE);
        break;
    }
    case 15: {
        size_t argc = 1025 + (s.pick(2) ? s.pick(100) : (size_t) 1 << (20 + s.pick(40)));
        switch (s.pick(4)) {
        case 0:
            run("make_sync_function with too many parameters",
                [&](tiro_error_t* e) { api::make_sync_function(v, obj[Str].get(), (tiro_sync_function_t) sync_nop, argc, (tiro_handle_t) nullptr, d, e); },
                TIRO_ERROR_BAD_ARG);
            break;
        case 1:
            run("make_async_function with too many parameters",
                [&](tiro_error_t* e) { api::make_async_function(v, obj[Str].get(), (tiro_async_function_t) async_nop, argc, (tiro_handle_t) nullptr, d, e); },
                TIRO_ERROR_BAD_ARG);
            break;
        default: {
            tiro_resumable_frame_desc_t desc{};
            desc.name = obj[Str].get();
            desc.func = res_nop;
            if (s.pick(2))
                desc.arg_count = argc;
            else
                desc.local_count = (size_t) 1 << (20 + s.pick(40));
            run("make_resumable_function with too many parameters or locals",
                [&](tiro_error_t* e) { api::make_resumable_function(v, (const tiro_resumable_frame_desc_t*) &desc, d, e); }, TIRO_ERROR_BAD_ARG);
        }
        }
        break;
    }
    case 16: {
        tiro_native_type_t t = type;
        size_t size = 8;
        tiro_errc_t code = TIRO_ERROR_BAD_ARG;
        switch (s.pick(4)) {
        case 0: size = 0; break;
        case 1: t.alignment = s.pick(2) ? 0 : 3 + 2 * s.pick(10); break;
        case 2: t.name = tiro_string_t{nullptr, 4}; break;
        case 3:
            t.alignment = (size_t) 1 << (8 + s.pick(20));
            code = TIRO_ERROR_ALLOC;
            break;
        }
        run("make_native with an invalid type", [&](tiro_error_t* e) { api::make_native(v, (const tiro_native_type_t*) &t, size, d, e); }, code);
        break;
    }
    case 17: {
        static const int kinds[] = {TIRO_KIND_INTERNAL, TIRO_KIND_INVALID, -1, 1000};
        int k = kinds[s.pick(4)];
        run("kind_type of an invalid kind", [&](tiro_error_t* e) { api::kind_type(v, (tiro_kind_t) k, d, e); }, TIRO_ERROR_BAD_ARG);
        break;
    }
    case 18:
        run("make_record_schema with keys that are not strings", [&](tiro_error_t* e) { api::make_record_schema(v, obj[Array].get(), d, e); },
            TIRO_ERROR_BAD_TYPE);
        break;
    case 19: {
        tiro_vm_settings_t st;
        api::vm_settings_init(&st);
        static const size_t sizes[] = {1, 1000, 65537, 1 << 15, 1 << 25, (1 << 16) + (1 << 17), (size_t) 1 << 40};
        st.page_size = sizes[s.pick(7)];
        tiro_vm_t other = nullptr;
        run("vm_new with an invalid page size", [&](tiro_error_t* e) { other = api::vm_new((const tiro_vm_settings_t*) &st, e); }, TIRO_ERROR_BAD_ARG);
        SIM_CHECK(!other, "misuse-effect", "vm_new fails but returns a machine");
        break;
    }
    case 20: compiler(); break;
    default: accessor(); break;
    }
}

// Functions without an error parameter.
void World::accessor() {
    tiro_vm_t v = s.pick(3) ? vm.vm : nullptr;
    u32 x = s.pick(Kinds);
    tiro_handle_t h = s.pick(4) ? obj[x].get() : nullptr;
    auto is = [&](Kind k) { return v && h && x == (u32) k; };
    auto num = [&](i64 got, bool valid, i64 value, const char* name) {
        SIM_CHECK(got == (valid ? value : 0), "accessor", "%s(%s, kind %d) is %lld", name, v ? "vm" : "null", h ? (int) x : -1, (long long) got);
    };
    num((i64) api::tuple_size(v, h), is(Tuple), 3, "tuple_size");
    num((i64) api::array_size(v, h), is(Array), 3, "array_size");
    num((i64) api::buffer_size(v, h), is(Buffer), 24, "buffer_size");
    num((i64) api::native_size(v, h), is(Native), 32, "native_size");
    num(api::buffer_data(v, h) != nullptr, is(Buffer), 1, "buffer_data");
    num(api::native_data(v, h) != nullptr, is(Native), 1, "native_data");
    num(api::native_type_descriptor(v, h) == &type, is(Native), 1, "native_type_descriptor");
    num(api::result_is_success(v, h), is(Success), 1, "result_is_success");
    num(api::result_is_error(v, h), is(Failure), 1, "result_is_error");
    num(api::coroutine_started(v, h), is(CoroWait) || is(CoroDone), 1, "coroutine_started");
    num(api::coroutine_completed(v, h), is(CoroDone), 1, "coroutine_completed");
    num(api::integer_value(v, h), is(Int) || is(Float), x == Int ? 41 : 2, "integer_value");
    num((i64) (api::float_value(v, h) * 2), is(Int) || is(Float), x == Int ? 82 : 5, "float_value");
    num(api::boolean_value(v, h), v && h && x != (u32) Null, 1, "boolean_value");
    num(api::buffer_is_pinned(v, h), is(Buffer), 1, "buffer_is_pinned");
    api::vm_settings_init((tiro_vm_settings_t*) nullptr);
    api::make_null((tiro_vm_t) nullptr, dest.get());
    api::make_null(vm.vm, (tiro_handle_t) nullptr);
    check_dest("make_null without a machine");
    num(api::value_kind(v, (tiro_handle_t) nullptr) == TIRO_KIND_INVALID, true, 1, "value_kind(null)");
    num(api::value_same(v, h, (tiro_handle_t) nullptr), !h, 1, "value_same");
    num((i64) api::vm_page_size((tiro_vm_t) nullptr), false, 0, "vm_page_size");
    num((i64) api::vm_max_heap_size((tiro_vm_t) nullptr), false, 0, "vm_max_heap_size");
    num(api::vm_has_ready((tiro_vm_t) nullptr), false, 0, "vm_has_ready");
    num(api::vm_userdata((tiro_vm_t) nullptr) != nullptr, false, 0, "vm_userdata");
    num(api::global_get_vm((tiro_handle_t) nullptr) != nullptr, false, 0, "global_get_vm");
    num(api::global_get_vm(obj[x].get()) == vm.vm, true, 1, "global_get_vm");
    num((i64) api::sync_frame_arg_count((tiro_sync_frame_t) nullptr), false, 0, "sync_frame_arg_count");
    num((i64) api::async_frame_arg_count((tiro_async_frame_t) nullptr), false, 0, "async_frame_arg_count");
    num((i64) api::resumable_frame_arg_count((tiro_resumable_frame_t) nullptr), false, 0, "resumable_frame_arg_count");
    num((i64) api::resumable_frame_local_count((tiro_resumable_frame_t) nullptr), false, 0, "resumable_frame_local_count");
    num(api::resumable_frame_state((tiro_resumable_frame_t) nullptr), false, 0, "resumable_frame_state");
    if (sync)
        num((i64) api::sync_frame_arg_count(sync), true, 1, "sync_frame_arg_count");
    if (async)
        num((i64) api::async_frame_arg_count(async), true, 1, "async_frame_arg_count");
    if (res) {
        num((i64) api::resumable_frame_arg_count(res), true, 1, "resumable_frame_arg_count");
        num((i64) api::resumable_frame_local_count(res), true, 2, "resumable_frame_local_count");
    }
    api::global_free((tiro_handle_t) nullptr);
    api::error_free((tiro_error_t) nullptr);
    api::compiler_free((tiro_compiler_t) nullptr);
    api::module_free((tiro_module_t) nullptr);
    api::vm_free((tiro_vm_t) nullptr);
    api::async_token_free((tiro_async_token_t) nullptr);
    num(api::error_errc((tiro_error_t) nullptr), false, 0, "error_errc");
    SIM_CHECK(std::string(api::error_name((tiro_error_t) nullptr)) == "OK" && !*api::error_details((tiro_error_t) nullptr), "accessor",
        "the absent error has a name or details");
    for (int k = -1; k < 30; ++k)
        SIM_CHECK(api::kind_str((tiro_kind_t) k) && *api::kind_str((tiro_kind_t) k), "accessor", "kind %d has no name", k);
    num(api::compiler_has_module((tiro_compiler_t) nullptr), false, 0, "compiler_has_module");
    SIM_CHECK(fingerprint() == before, "misuse-effect", "an accessor changed an object");
}

// The life of a compiler, with every call that its current stage does not permit.
void World::compiler() {
    Err e;
    auto c = api::compiler_new(ts("main"), &e);
    expect_ok(e, "compiler_new");
    const bool valid = s.chance(2, 3);
    static const tiro_attachment_t attachments[] = {TIRO_ATTACHMENT_CST, TIRO_ATTACHMENT_AST, TIRO_ATTACHMENT_IR, TIRO_ATTACHMENT_BYTECODE};
    const u32 requested = s.pick(16);
    struct Messages {
        u64 count = 0, stop_at = 0;
    } messages;
    if (s.chance(1, 4))
        messages.stop_at = 1;
    bool ran = false;
    tiro_module_t m = nullptr;
    char* text = nullptr;
    auto attachment = [&] {
        for (u32 i = 0; i < 4; ++i) {
            if (!ran || !(requested & (1u << i)))
                run(strf("compiler_get_attachment of attachment %u that is not available", i),
                    [&](tiro_error_t* p) { api::compiler_get_attachment(c, attachments[i], &text, p); }, TIRO_ERROR_BAD_STATE);
        }
        run("compiler_get_attachment without a result", [&](tiro_error_t* p) { api::compiler_get_attachment(c, TIRO_ATTACHMENT_AST, (char**) nullptr, p); },
            TIRO_ERROR_BAD_ARG);
    };
    auto no_module = [&] {
        run("compiler_take_module without a module", [&](tiro_error_t* p) { api::compiler_take_module(c, &m, p); }, TIRO_ERROR_BAD_STATE);
        SIM_CHECK(!m && !api::compiler_has_module(c), "misuse-effect", "a module appears");
    };
    auto missing = [&] {
        switch (s.pick(8)) {
        case 0:
            run("compiler_add_file without a compiler",
                [&](tiro_error_t* p) { api::compiler_add_file((tiro_compiler_t) nullptr, ts("f"), ts("x"), p); }, TIRO_ERROR_BAD_ARG);
            break;
        case 1:
            run("compiler_set_message_callback without a compiler",
                [&](tiro_error_t* p) { api::compiler_set_message_callback((tiro_compiler_t) nullptr, (tiro_message_callback_t) nullptr, (void*) nullptr, p); },
                TIRO_ERROR_BAD_ARG);
            break;
        case 2:
            run("compiler_request_attachment without a compiler",
                [&](tiro_error_t* p) { api::compiler_request_attachment((tiro_compiler_t) nullptr, TIRO_ATTACHMENT_AST, p); }, TIRO_ERROR_BAD_ARG);
            break;
        case 3: run("compiler_run without a compiler", [&](tiro_error_t* p) { api::compiler_run((tiro_compiler_t) nullptr, p); }, TIRO_ERROR_BAD_ARG); break;
        case 4:
            run("compiler_take_module without arguments",
                [&](tiro_error_t* p) { s.pick(2) ? api::compiler_take_module((tiro_compiler_t) nullptr, &m, p) : api::compiler_take_module(c, (tiro_module_t*) nullptr, p); },
                TIRO_ERROR_BAD_ARG);
            break;
        case 5:
            run("compiler_get_attachment without a compiler",
                [&](tiro_error_t* p) { api::compiler_get_attachment((tiro_compiler_t) nullptr, TIRO_ATTACHMENT_AST, &text, p); }, TIRO_ERROR_BAD_ARG);
            break;
        }
        SIM_CHECK(!text, "misuse-effect", "compiler_get_attachment failed but returned a text");
    };
    no_module();
    attachment();
    missing();
    run("compiler_add_file with an invalid file", [&](tiro_error_t* p) {
        switch (s.pick(3)) {
        case 0: api::compiler_add_file(c, ts(""), ts("x"), p); break;
        case 1: api::compiler_add_file(c, tiro_string_t{nullptr, 3}, ts("x"), p); break;
        default: api::compiler_add_file(c, ts("file"), tiro_string_t{nullptr, 3}, p); break;
        }
    }, TIRO_ERROR_BAD_ARG);
    run("compiler_request_attachment of an invalid attachment", [&](tiro_error_t* p) { api::compiler_request_attachment(c, (tiro_attachment_t) 99, p); },
        TIRO_ERROR_BAD_ARG);
    api::compiler_set_message_callback(c,
        [](const tiro_compiler_message_t* m, void* p) {
            InHost h;
            auto& x = *static_cast<Messages*>(p);
            SIM_CHECK(m && m->severity == TIRO_SEVERITY_ERROR && str(m->file) == "file" && m->text.length, "accessor", "a message is incomplete");
            SIM_CHECK(!x.stop_at || x.count < x.stop_at, "misuse-effect", "a message is reported after the callback asked to stop");
            ++x.count;
            return x.count != x.stop_at;
        },
        (void*) &messages, &e);
    expect_ok(e, "compiler_set_message_callback");
    for (u32 i = 0; i < 4; ++i) {
        if (requested & (1u << i)) {
            api::compiler_request_attachment(c, attachments[i], &e);
            expect_ok(e, "compiler_request_attachment");
        }
    }
    if (s.chance(7, 8)) {
        api::compiler_add_file(c, ts("file"), ts(valid ? "export func f() { return 1; }" : "export func f( { return unknown; }"), &e);
        expect_ok(e, "compiler_add_file");
        no_module();
        api::compiler_run(c, &e);
        ran = true;
        const tiro_errc_t code = valid ? TIRO_OK : messages.stop_at ? TIRO_ERROR_BAD_STATE : TIRO_ERROR_BAD_SOURCE;
        SIM_CHECK(e.code() == code, "wrong-error", "compiler_run of %s sources: %s, expected %s", valid ? "valid" : "invalid", e.str().c_str(),
            tiro_errc_name(code));
        SIM_CHECK(valid ? !messages.count : messages.count, "wrong-error", "%llu messages for %s sources", (unsigned long long) messages.count,
            valid ? "valid" : "invalid");
        missing();
        run("compiler_run again", [&](tiro_error_t* p) { api::compiler_run(c, p); }, TIRO_ERROR_BAD_STATE);
        run("compiler_add_file after the run", [&](tiro_error_t* p) { api::compiler_add_file(c, ts("file2"), ts("export func g() {}"), p); },
            TIRO_ERROR_BAD_STATE);
        run("compiler_request_attachment after the run", [&](tiro_error_t* p) { api::compiler_request_attachment(c, TIRO_ATTACHMENT_IR, p); },
            TIRO_ERROR_BAD_STATE);
        attachment();
        run("compiler_get_attachment of an invalid attachment",
            [&](tiro_error_t* p) { api::compiler_get_attachment(c, (tiro_attachment_t) 99, &text, p); }, TIRO_ERROR_BAD_ARG);
        SIM_CHECK(!text, "misuse-effect", "compiler_get_attachment failed but returned a text");
        if (valid) {
            SIM_CHECK(api::compiler_has_module(c), "misuse-effect", "the module disappeared");
            api::compiler_take_module(c, &m, &e);
            expect_ok(e, "compiler_take_module");
            SIM_CHECK(m, "misuse-effect", "no module");
            if (s.pick(2))
                run("load_bytecode without a machine", [&](tiro_error_t* p) { api::vm_load_bytecode((tiro_vm_t) nullptr, m, p); }, TIRO_ERROR_BAD_ARG);
            else
                run("load_bytecode with the name of another module", [&](tiro_error_t* p) { api::vm_load_bytecode(vm.vm, m, p); },
                    TIRO_ERROR_MODULE_EXISTS);
            api::module_free(m);
            m = nullptr;
            for (u32 i = 0; i < 4; ++i) {
                if (!(requested & (1u << i)))
                    continue;
                api::compiler_get_attachment(c, attachments[i], &text, &e);
                expect_ok(e, "compiler_get_attachment");
                SIM_CHECK(text && *text, "misuse-effect", "attachment %u is missing", i);
                InTiro in;
                free(text);
                text = nullptr;
            }
        }
        no_module();
    }
    api::compiler_free(c);
}

void World::misuse() {
    if (s.chance(3, 5))
        spoil_call();
    else
        state_call();
}

} // namespace

SCENARIO(c18_surface, "C18.surface", "C18", 4) {
    Stream& k = stream("knobs");
    Stream& s = stream("ops");
    VmOptions o;
    o.page_size = (size_t) 1 << (16 + k.pick(3));
    o.stack_trace = k.chance(1, 4);
    {
        World w(s, o);
        w.setup();
        if (k.chance(1, 2))
            gc_setup("gc", GcMode::Gaps, 40, 300);
        if (k.chance(1, 4))
            w.oom = 1 + k.pick(6);
        const u32 steps = 10 + k.pick(thorough() ? 150 : 60);
        Err e;
        struct Run {
            std::unique_ptr<H> coro;
            i64 n;
            bool plain;
            bool called;
        };
        std::deque<Run> runs;
        for (u32 i = 0; i < steps; ++i) {
            if (s.chance(1, 6)) {
                Run r;
                r.n = 1 + s.pick(5);
                r.plain = s.pick(2);
                r.called = s.pick(2);
                r.coro = std::make_unique<H>(w.vm.vm);
                H f = w.vm.fn("main", r.plain ? "bystander" : "calls");
                H args(w.vm.vm), n(w.vm.vm);
                api::make_integer(w.vm.vm, r.n, n.get(), &e);
                expect_ok(e, "make_integer");
                api::make_tuple(w.vm.vm, (size_t) 1, args.get(), &e);
                expect_ok(e, "make_tuple");
                api::tuple_set(w.vm.vm, args.get(), (size_t) 0, n.get(), &e);
                expect_ok(e, "tuple_set");
                api::make_coroutine(w.vm.vm, f.get(), args.get(), r.coro->get(), &e);
                expect_ok(e, "make_coroutine");
                if (r.called) {
                    ++w.expected_callbacks;
                    api::coroutine_set_callback(w.vm.vm, r.coro->get(),
                        [](tiro_vm_t, tiro_handle_t, void* p) {
                            InHost h;
                            World& w = *static_cast<World*>(p);
                            ++w.callbacks;
                            ++w.expected_cleanups; // runs right after
                            --w.expected_cleanups;
                            std::string saved = w.where;
                            w.where = "callback";
                            ++w.nested;
                            w.some();
                            --w.nested;
                            w.where = saved;
                        },
                        (tiro_coroutine_cleanup_t) nullptr, (void*) &w, &e);
                    expect_ok(e, "coroutine_set_callback");
                }
                api::coroutine_start(w.vm.vm, r.coro->get(), &e);
                expect_ok(e, "coroutine_start");
                trace("start %s(%lld)", r.plain ? "bystander" : "calls", (long long) r.n);
                runs.push_back(std::move(r));
            } else if (s.chance(1, 4)) {
                trace("run");
                api::vm_run_ready(w.vm.vm, &e);
                expect_ok(e, "run_ready");
                // complete what waits, with some abuse of the tokens
                auto tokens = std::move(w.pending);
                w.pending.clear();
                for (auto t : tokens) {
                    H v(w.vm.vm);
                    api::make_integer(w.vm.vm, (int64_t) 777, v.get(), &e);
                    expect_ok(e, "make_integer");
                    api::async_token_return_value(t, v.get(), &e);
                    expect_ok(e, "async_token_return_value");
                    if (s.pick(2))
                        w.run("async_token_return_value again", [&](tiro_error_t* p) { api::async_token_return_value(t, v.get(), p); },
                            TIRO_ERROR_INTERNAL);
                    if (s.pick(2))
                        w.run("async_token_panic_msg of a used token", [&](tiro_error_t* p) { api::async_token_panic_msg(t, ts("late"), p); },
                            TIRO_ERROR_INTERNAL);
                    api::async_token_free(t);
                }
            } else {
                w.misuse();
            }
        }
        // Everything that was started completes, with the results it would have had without the misuse.
        for (u32 round = 0; round < 1000; ++round) {
            api::vm_run_ready(w.vm.vm, &e);
            expect_ok(e, "run_ready");
            if (w.pending.empty())
                break;
            auto tokens = std::move(w.pending);
            w.pending.clear();
            for (auto t : tokens) {
                H v(w.vm.vm);
                api::make_integer(w.vm.vm, (int64_t) 777, v.get(), &e);
                expect_ok(e, "make_integer");
                api::async_token_return_value(t, v.get(), &e);
                expect_ok(e, "async_token_return_value");
                api::async_token_free(t);
            }
        }
        for (auto& r : runs) {
            SIM_CHECK(api::coroutine_completed(w.vm.vm, r.coro->get()), "no-progress", "a coroutine does not complete");
            H res(w.vm.vm), v(w.vm.vm), x(w.vm.vm);
            api::coroutine_result(w.vm.vm, r.coro->get(), res.get(), &e);
            expect_ok(e, "coroutine_result");
            api::result_value(w.vm.vm, res.get(), v.get(), &e);
            expect_ok(e, "result_value");
            if (r.plain) {
                SIM_CHECK(api::integer_value(w.vm.vm, v.get()) == r.n * (r.n - 1) / 2, "misuse-effect", "bystander(%lld) returned %s", (long long) r.n,
                    render(w.vm.vm, v.get()).c_str());
                continue;
            }
            SIM_CHECK(api::array_size(w.vm.vm, v.get()) == (size_t) r.n * 3, "misuse-effect", "calls returned %s", render(w.vm.vm, v.get()).c_str());
            for (i64 i = 0; i < r.n * 3; ++i) {
                api::array_get(w.vm.vm, v.get(), (size_t) i, x.get(), &e);
                expect_ok(e, "array_get");
                const i64 got = api::value_kind(w.vm.vm, x.get()) == TIRO_KIND_INTEGER ? api::integer_value(w.vm.vm, x.get()) : -1;
                const i64 n = i / 3;
                const bool good = i % 3 == 0 ? got == n + 100 : i % 3 == 1 ? (got == n + 200 || got == 777) : got == 2 * n;
                SIM_CHECK(good, "misuse-effect", "calls(%lld) returned %s", (long long) r.n, render(w.vm.vm, v.get()).c_str());
            }
        }
        SIM_CHECK(w.callbacks == w.expected_callbacks, "misuse-effect", "%llu of %llu callbacks ran", (unsigned long long) w.callbacks,
            (unsigned long long) w.expected_callbacks);
        SIM_CHECK(w.fingerprint() == w.before, "misuse-effect", "the objects changed");
        stat("misused_calls", w.calls);
        trace("%llu calls", (unsigned long long) w.calls);
        runs.clear();
        api::async_token_free(w.waiting);
    }
    natives.sync.clear();
    natives.async.clear();
    natives.res.clear();
    arena_check();
    SIM_CHECK(mem.live_blocks == 0, "leak", "%llu blocks (%llu bytes) are still allocated after the machine was destroyed: %s",
        (unsigned long long) mem.live_blocks, (unsigned long long) mem.live_bytes, arena_leaks(4).c_str());
}
