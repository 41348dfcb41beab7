// Seams: collector control (hooks compiled into tiro under TIRO_SIM_HOOKS) and the monotonic clock.
#include "core.hpp"
#include "shared.hpp"

#include "vm/heap/sim_hooks.hpp"

#include <chrono>
#include <ctime>
#include <sys/time.h>

namespace sim {

i64 clock_ns = 1000000000;
i64 wall_ns = 1600000000000000000;
std::function<void()> on_clock_read;
u64 clock_reads = 0;

void* last_heap = nullptr;
u64 heap_allocs = 0;
u64 collections = 0;
std::function<int(void*, size_t)> on_heap_alloc;
std::function<void(void*)> on_collected;
bool fill_freed = true;

static GcMode gc_mode = GcMode::None;
static Stream* gc_stream = nullptr;
static u32 gc_mean = 0;
static u32 gc_left = 0;
static u64 gc_countdown = 0;

static void next_gap() {
    if (gc_left == 0) {
        gc_countdown = 0; // no more
        return;
    }
    --gc_left;
    // 0: no further collections. Otherwise the number of allocations until the next one.
    u32 v = gc_stream->pick(2 * gc_mean + 1);
    gc_countdown = v;
}

void gc_setup(const char* name, GcMode mode, u32 mean_gap, u32 max_events) {
    gc_mode = mode;
    if (mode == GcMode::Gaps) {
        gc_stream = &stream(name);
        gc_mean = mean_gap ? mean_gap : 1;
        gc_left = max_events;
        next_gap();
    }
}

static int before_allocate(void* heap, size_t bytes) {
    InHost h;
    last_heap = heap;
    ++heap_allocs;
    if (on_heap_alloc) {
        if (int r = on_heap_alloc(heap, bytes))
            return r;
    }
    if (gc_mode == GcMode::Gaps && gc_countdown > 0 && --gc_countdown == 0) {
        next_gap();
        fault("gc_at_allocation");
        return 1;
    }
    return 0;
}

static void cells_freed(void* address, size_t bytes) {
    if (!fill_freed)
        return;
    auto* p = static_cast<u32*>(address);
    for (size_t i = 0, n = bytes / 4; i < n; ++i)
        p[i] = 0xDEADBEEFu;
}

static void after_collect(void* heap) {
    InHost h;
    ++collections;
    if (on_collected)
        on_collected(heap);
}

void gc_now(void* heap) {
    if (!heap)
        return;
    InTiro t;
    fault("gc_forced_by_host");
    const i64 saved = oom_after; // the hook has no error boundary
    oom_after = -1;
    tiro::sim_hooks::collect(heap);
    oom_after = saved;
}

HeapInfo heap_info(void* heap) {
    auto s = tiro::sim_hooks::stats(heap);
    return {s.total_bytes, s.allocated_bytes, s.free_bytes, s.allocated_objects, s.max_bytes};
}

void hooks_init() {
    auto& t = tiro::sim_hooks::table;
    t.before_allocate = before_allocate;
    t.cells_freed = cells_freed;
    t.after_collect = after_collect;
}

static i64 read_monotonic() {
    ++clock_reads;
    if (on_clock_read) {
        InHost h;
        on_clock_read();
    }
    return clock_ns;
}

static i64 read_wall() {
    ++clock_reads;
    if (on_clock_read) {
        InHost h;
        on_clock_read();
    }
    return wall_ns;
}

} // namespace sim

// Every clock that code under test could read. The wall clock is independent of the monotonic one.
namespace std::chrono {
inline namespace _V2 {
steady_clock::time_point steady_clock::now() noexcept { return time_point(duration(sim::read_monotonic())); }
system_clock::time_point system_clock::now() noexcept {
    return time_point(duration_cast<duration>(nanoseconds(sim::read_wall())));
}
} // namespace _V2
} // namespace std::chrono

extern "C" int __real_clock_gettime(clockid_t, timespec*);
extern "C" int __wrap_clock_gettime(clockid_t id, timespec* t) {
    if (!sim::in_tiro)
        return __real_clock_gettime(id, t);
    const sim::i64 ns = id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE ? sim::read_wall() : sim::read_monotonic();
    t->tv_sec = ns / 1000000000;
    t->tv_nsec = ns % 1000000000;
    return 0;
}
extern "C" int __real_gettimeofday(timeval*, void*);
extern "C" int __wrap_gettimeofday(timeval* t, void* tz) {
    if (!sim::in_tiro)
        return __real_gettimeofday(t, tz);
    const sim::i64 ns = sim::read_wall();
    t->tv_sec = ns / 1000000000;
    t->tv_usec = ns % 1000000000 / 1000;
    return 0;
}
extern "C" time_t __real_time(time_t*);
extern "C" time_t __wrap_time(time_t* t) {
    if (!sim::in_tiro)
        return __real_time(t);
    const time_t s = sim::read_wall() / 1000000000;
    if (t)
        *t = s;
    return s;
}
extern "C" clock_t __real_clock();
extern "C" clock_t __wrap_clock() {
    if (!sim::in_tiro)
        return __real_clock();
    return sim::read_wall() / 1000; // processor time is not the machine's clock either
}
