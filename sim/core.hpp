// Simulator core: one seed -> one execution.
//
// Everything a scenario decides is drawn from named choice streams. In search mode the values come
// from a PRNG seeded with (seed, stream name) and are recorded; in replay mode they come from a replay
// file (missing values read as 0, the simplest choice). The record of the streams *is* the execution.
#pragma once
#include <cstdarg>
#include <cstddef>
#include <cstdint>
#include <functional>
#include <string>
#include <string_view>
#include <vector>

namespace sim {

using u64 = uint64_t;
using i64 = int64_t;
using u32 = uint32_t;

// ---------------------------------------------------------------- choices
class Stream {
public:
    // value in [0, n); 0 is always the simplest alternative
    u32 pick(u32 n);
    // inclusive range
    i64 range(i64 lo, i64 hi) { return lo + (i64) pick((u32) (hi - lo + 1)); }
    // true with probability num/den. Recorded as 0 for false.
    bool chance(u32 num, u32 den);
    // index chosen by weight
    u32 weighted(std::initializer_list<u32> weights);
    bool exhausted() const;

    struct Segment {
        u32 begin, end;
    };
    std::string name;
    std::vector<u32> values;    // recorded or replayed
    std::vector<Segment> segs;  // structural units, used by the minimiser
    u64 state = 0;
    size_t pos = 0;
    bool replay = false;
    int index = -1;
    u64 next_raw();
};

Stream& stream(const char* name);

// Marks a structural unit (one statement, one operation) of a stream for the minimiser.
class Seg {
public:
    explicit Seg(Stream& s);
    ~Seg();

private:
    Stream& s_;
    size_t begin_;
};

// ---------------------------------------------------------------- trace, violations, counters
void trace(const char* fmt, ...) __attribute__((format(printf, 1, 2))); // event: hashed and logged
void note(const char* fmt, ...) __attribute__((format(printf, 1, 2)));  // logged only, not hashed
void note_text(const std::string& text); // logged only, any length
void hash_mix(u64 v);
[[noreturn]] void fail(const char* cls, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
// Ends the run without a verdict (e.g. generated workload outside of the modelled domain).
[[noreturn]] void discard(const char* why);
void probe(const char* name, u64 n = 1); // "rare condition reached" counter
void fault(const char* kind, u64 n = 1); // a fault of this kind actually fired
void stat(const char* name, u64 n = 1);  // workload counters
void sim_time(u64 ms);                   // simulated milliseconds covered

#define SIM_CHECK(cond, cls, ...) \
    do { \
        if (!(cond)) ::sim::fail(cls, __VA_ARGS__); \
    } while (0)

// ---------------------------------------------------------------- memory
// All memory that tiro code requests from the system while a run is active is served by a deterministic
// arena: fixed addresses, guard bytes, filled on free, quarantined, with an optional fault policy.
enum class Tag : uint8_t { Host = 0, Tiro = 1 };

struct MemStats {
    u64 live_blocks = 0, live_bytes = 0;           // allocations made by tiro code
    u64 aligned_blocks = 0, aligned_bytes = 0;     // of these: page sized heap chunks and large objects
    u64 peak_aligned_bytes = 0;
    u64 total_allocs = 0;
    u64 failed = 0;
};
extern MemStats mem;
void arena_begin(u64 layout_seed); // start serving from the arena
void arena_check();                // verifies guard bytes of live and quarantined blocks
std::string arena_leaks(u64 max_items);
// Allocation failure policy: number of successful tiro allocations before the next failure; -1: never.
extern i64 oom_after;
extern i64 oom_count;  // how many consecutive allocations fail (-1: all until reset)
extern size_t oom_min_size;
extern std::function<bool(size_t)> oom_filter;
void oom_reset();

extern bool in_tiro;
extern u64 api_ops;
class InTiro {
public:
    InTiro() : saved_(in_tiro) { in_tiro = true; ++api_ops; }
    ~InTiro() { in_tiro = saved_; }

private:
    bool saved_;
};
// Host callback invoked from inside tiro.
class InHost {
public:
    InHost() : saved_(in_tiro) { in_tiro = false; }
    ~InHost() { in_tiro = saved_; }

private:
    bool saved_;
};

// ---------------------------------------------------------------- simulated clock
extern i64 clock_ns; // returned by steady_clock::now()
extern i64 wall_ns;  // returned by system_clock::now() and the C time functions
extern std::function<void()> on_clock_read;
extern u64 clock_reads;

// ---------------------------------------------------------------- collector control
struct HeapInfo {
    u64 total, allocated, free, objects, max;
};
enum class GcMode { None, Gaps };
void gc_setup(const char* stream_name, GcMode mode, u32 mean_gap, u32 max_events);
void gc_now(void* heap);
HeapInfo heap_info(void* heap);
extern void* last_heap;       // heap used by the most recent allocation
extern u64 heap_allocs;       // number of heap allocations seen
extern u64 collections;       // collections seen
extern std::function<int(void* heap, size_t bytes)> on_heap_alloc; // extra decision: 0 proceed 1 collect 2 fail
extern std::function<void(void* heap)> on_collected;
extern bool fill_freed;

// ---------------------------------------------------------------- scenarios
struct Scenario {
    const char* id;      // e.g. "C06.sched"
    const char* property;
    u32 weight;
    void (*run)();
};
std::vector<Scenario>& scenarios();
struct RegisterScenario {
    RegisterScenario(const char* id, const char* property, u32 weight, void (*run)()) {
        scenarios().push_back({id, property, weight, run});
    }
};
#define SCENARIO(ident, id, prop, weight) \
    static void ident(); \
    static ::sim::RegisterScenario reg_##ident(id, prop, weight, ident); \
    static void ident()

bool thorough();
bool replaying();
std::string strf(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
u64 fnv(std::string_view s, u64 h = 1469598103934665603ull);

} // namespace sim
