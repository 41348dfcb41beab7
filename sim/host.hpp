// Host side helpers: wrapped C API (memory attribution), handles, compilation, VM with logging native module.
#pragma once
#include "core.hpp"

#include "tiro/api.h"

#include <deque>
#include <map>
#include <memory>
#include <string>
#include <utility>
#include <vector>

namespace api {
#define TIRO_WRAP(name) \
    template<typename... A> \
    inline auto name(const A&... a) { \
        ::sim::InTiro in; \
        return ::tiro_##name(a...); \
    }
TIRO_WRAP(error_free)
TIRO_WRAP(error_errc)
TIRO_WRAP(error_name)
TIRO_WRAP(error_message)
TIRO_WRAP(error_details)
TIRO_WRAP(vm_settings_init)
TIRO_WRAP(vm_new)
TIRO_WRAP(vm_free)
TIRO_WRAP(vm_userdata)
TIRO_WRAP(vm_page_size)
TIRO_WRAP(vm_max_heap_size)
TIRO_WRAP(vm_load_std)
TIRO_WRAP(vm_load_bytecode)
TIRO_WRAP(vm_load_module)
TIRO_WRAP(vm_get_export)
TIRO_WRAP(vm_run_ready)
TIRO_WRAP(vm_has_ready)
TIRO_WRAP(global_new)
TIRO_WRAP(global_free)
TIRO_WRAP(global_get_vm)
TIRO_WRAP(compiler_new)
TIRO_WRAP(compiler_free)
TIRO_WRAP(compiler_add_file)
TIRO_WRAP(compiler_set_message_callback)
TIRO_WRAP(compiler_request_attachment)
TIRO_WRAP(compiler_run)
TIRO_WRAP(compiler_has_module)
TIRO_WRAP(compiler_take_module)
TIRO_WRAP(compiler_get_attachment)
TIRO_WRAP(module_free)
TIRO_WRAP(sync_frame_arg_count)
TIRO_WRAP(sync_frame_arg)
TIRO_WRAP(sync_frame_closure)
TIRO_WRAP(sync_frame_return_value)
TIRO_WRAP(sync_frame_panic_msg)
TIRO_WRAP(make_sync_function)
TIRO_WRAP(async_frame_arg_count)
TIRO_WRAP(async_frame_arg)
TIRO_WRAP(async_frame_closure)
TIRO_WRAP(async_frame_return_value)
TIRO_WRAP(async_frame_panic_msg)
TIRO_WRAP(async_frame_token)
TIRO_WRAP(async_frame_yield)
TIRO_WRAP(make_async_function)
TIRO_WRAP(async_token_free)
TIRO_WRAP(async_token_return_value)
TIRO_WRAP(async_token_panic_msg)
TIRO_WRAP(resumable_frame_arg_count)
TIRO_WRAP(resumable_frame_arg)
TIRO_WRAP(resumable_frame_local_count)
TIRO_WRAP(resumable_frame_local)
TIRO_WRAP(resumable_frame_set_local)
TIRO_WRAP(resumable_frame_closure)
TIRO_WRAP(resumable_frame_state)
TIRO_WRAP(resumable_frame_set_state)
TIRO_WRAP(resumable_frame_invoke)
TIRO_WRAP(resumable_frame_invoke_return)
TIRO_WRAP(resumable_frame_return_value)
TIRO_WRAP(resumable_frame_panic_msg)
TIRO_WRAP(make_resumable_function)
TIRO_WRAP(kind_str)
TIRO_WRAP(value_kind)
TIRO_WRAP(value_same)
TIRO_WRAP(value_to_string)
TIRO_WRAP(value_copy)
TIRO_WRAP(value_type)
TIRO_WRAP(kind_type)
TIRO_WRAP(make_null)
TIRO_WRAP(make_boolean)
TIRO_WRAP(boolean_value)
TIRO_WRAP(make_integer)
TIRO_WRAP(integer_value)
TIRO_WRAP(make_float)
TIRO_WRAP(float_value)
TIRO_WRAP(make_string)
TIRO_WRAP(string_value)
TIRO_WRAP(string_cstr)
TIRO_WRAP(make_buffer)
TIRO_WRAP(buffer_is_pinned)
TIRO_WRAP(buffer_size)
TIRO_WRAP(buffer_data)
TIRO_WRAP(make_tuple)
TIRO_WRAP(tuple_size)
TIRO_WRAP(tuple_get)
TIRO_WRAP(tuple_set)
TIRO_WRAP(make_record_schema)
TIRO_WRAP(make_record)
TIRO_WRAP(record_keys)
TIRO_WRAP(record_get)
TIRO_WRAP(record_set)
TIRO_WRAP(make_array)
TIRO_WRAP(array_size)
TIRO_WRAP(array_get)
TIRO_WRAP(array_set)
TIRO_WRAP(array_push)
TIRO_WRAP(array_pop)
TIRO_WRAP(array_clear)
TIRO_WRAP(make_success)
TIRO_WRAP(make_error)
TIRO_WRAP(result_is_success)
TIRO_WRAP(result_is_error)
TIRO_WRAP(result_value)
TIRO_WRAP(result_error)
TIRO_WRAP(exception_message)
TIRO_WRAP(exception_trace)
TIRO_WRAP(make_coroutine)
TIRO_WRAP(coroutine_started)
TIRO_WRAP(coroutine_completed)
TIRO_WRAP(coroutine_result)
TIRO_WRAP(coroutine_set_callback)
TIRO_WRAP(coroutine_start)
TIRO_WRAP(make_module)
TIRO_WRAP(module_get_export)
TIRO_WRAP(type_name)
TIRO_WRAP(make_native)
TIRO_WRAP(native_type_descriptor)
TIRO_WRAP(native_data)
TIRO_WRAP(native_size)
#undef TIRO_WRAP
} // namespace api

namespace sim {

// Error slot. Any internal assertion that surfaces through an error is a violation of whatever is being checked.
class Err {
public:
    Err() = default;
    ~Err() { clear(); }
    Err(const Err&) = delete;
    Err& operator=(const Err&) = delete;
    // Clears the previous error and returns the out parameter for the next call.
    tiro_error_t* operator&() {
        clear();
        return &e_;
    }
    tiro_error_t* slot() { return &e_; } // without clearing
    tiro_errc_t code() const { return ::tiro_error_errc(e_); }
    bool ok() const { return !e_; }
    std::string details() const { return ::tiro_error_details(e_); }
    std::string str() const { return std::string(::tiro_error_name(e_)) + ": " + ::tiro_error_details(e_); }
    void clear() {
        if (e_)
            api::error_free(e_);
        e_ = nullptr;
    }
    tiro_error_t raw() const { return e_; }

private:
    tiro_error_t e_ = nullptr;
};

// Fails the run when an error is an internal assertion.
void check_not_assert(const Err& e, const char* where);
void expect_ok(const Err& e, const char* what);

inline tiro_string_t ts(const char* s) { return tiro_cstr(s); }
inline tiro_string_t ts(const std::string& s) { return {s.data(), s.size()}; }
inline std::string str(tiro_string_t s) { return std::string(s.data, s.length); }

// Owned global handle.
class H {
public:
    explicit H(tiro_vm_t vm);
    H(const H&) = delete;
    H(H&& o) noexcept
        : h_(o.h_) {
        o.h_ = nullptr;
    }
    H& operator=(H&& o) noexcept {
        std::swap(h_, o.h_);
        return *this;
    }
    ~H() {
        if (h_)
            api::global_free(h_);
    }
    operator tiro_handle_t() const { return h_; }
    tiro_handle_t get() const { return h_; }
    void release() { h_ = nullptr; } // forget (e.g. the vm is gone)

private:
    tiro_handle_t h_ = nullptr;
};

struct Message {
    tiro_severity_t severity;
    std::string file, text;
    u32 line, column;
};
struct Compiled {
    tiro_module_t module = nullptr;
    std::vector<Message> messages;
    tiro_errc_t code = TIRO_OK;
    std::string details;
};
Compiled compile(const std::string& module, const std::vector<std::pair<std::string, std::string>>& files);
Compiled compile(const std::string& module, const std::string& source);

struct VmOptions {
    size_t page_size = 1 << 16;
    size_t max_heap = 0;
    bool std = true;
    bool stack_trace = false;
};

// Creates a vm; the simulator picks page sizes etc. Fails the run if creation fails.
class Vm {
public:
    explicit Vm(const VmOptions& o = {});
    ~Vm() { destroy(); }
    void destroy();
    operator tiro_vm_t() const { return vm; }
    void load(tiro_module_t m, const char* what = "load module");
    // compile + load, must succeed
    void load_source(const std::string& module, const std::string& source);
    H fn(const std::string& module, const std::string& name);
    tiro_vm_t vm = nullptr;
    void* heap = nullptr;
    std::vector<std::string> out; // std.print output
    void* user = nullptr;
};

// Renders a value structurally (depth limited, address independent).
std::string render(tiro_vm_t vm, tiro_handle_t v, int depth = 3);

// Native functions with a host side closure. Registered in a module.
using SyncFn = std::function<void(tiro_vm_t, tiro_sync_frame_t)>;
using AsyncFn = std::function<void(tiro_vm_t, tiro_async_frame_t)>;
using ResFn = std::function<void(tiro_vm_t, tiro_resumable_frame_t)>;

// Each native function carries an index into these tables as its closure (an integer).
struct NativeTable {
    std::deque<SyncFn> sync; // stable addresses: natives may create further natives
    std::deque<AsyncFn> async;
    std::deque<ResFn> res;
};
extern NativeTable natives;
H make_sync(tiro_vm_t vm, const char* name, size_t argc, SyncFn fn);
H make_async(tiro_vm_t vm, const char* name, size_t argc, AsyncFn fn);
H make_resumable(tiro_vm_t vm, const char* name, size_t argc, size_t locals, ResFn fn);
void make_module(tiro_vm_t vm, const char* name, std::vector<std::pair<std::string, H>> members);

} // namespace sim
