#include "host.hpp"
using namespace sim;
SCENARIO(smoke, "smoke", "SMOKE", 1) {
    gc_setup("gc", GcMode::Gaps, 20, 100);
    {
    Vm vm;
    vm.load_source("m", "export func main() { var a = []; for var i = 0; i < 100; i += 1 { a.append(\"x${i}\"); } return a; }");
    H f = vm.fn("m", "main");
    H coro(vm), res(vm);
    Err e;
    api::make_coroutine(vm.vm, f.get(), nullptr, coro.get(), &e);
    expect_ok(e, "make_coroutine");
    api::coroutine_start(vm.vm, coro.get(), &e);
    api::vm_run_ready(vm.vm, &e);
    expect_ok(e, "run");
    api::coroutine_result(vm.vm, coro.get(), res.get(), &e);
    trace("%s", render(vm, res).c_str());
    }
    note("leaks: %s", arena_leaks(10).c_str());
    note("live %llu", (unsigned long long) mem.live_blocks);
}
