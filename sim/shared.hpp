#pragma once
#include "core.hpp"
#include <atomic>

namespace sim {

constexpr u32 max_streams = 12;
constexpr u32 max_values = 1u << 17;
constexpr u32 max_segs = 1u << 14;
constexpr u32 max_trace = 1u << 18;
constexpr u32 max_counters = 1024;

enum class Status : int { None = 0, Ok = 1, Violation = 2, Discarded = 3 };

struct StreamSlot {
    char name[24];
    u32 count;     // number of values
    u32 used;      // number of values consumed by the run
    u32 seg_count;
    u32 values[max_values];
    u32 segs[max_segs][2];
};

// Channel between a run (child process) and the driver. Lives in shared memory so that it survives a crash.
struct Shared {
    Status status;
    bool replay;
    bool trace_truncated;
    u64 seed;
    u64 hash;
    u64 events;
    char cls[96];
    char msg[4096];
    u32 bt_count;
    void* bt[24];
    u32 trace_len;
    u32 stream_count;
    StreamSlot streams[max_streams];
    char trace[max_trace];
};

struct Counter {
    std::atomic<int> used;
    char name[60];
    std::atomic<u64> value;
};
struct Counters {
    Counter table[max_counters];
};

extern Shared* sh;
extern Counters* counters;
void begin_run(Shared* shared, u64 seed, bool thorough_tier);

} // namespace sim
