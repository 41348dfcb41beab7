// Host operations on values through the C API, mirrored by a plain object graph.
//
// A World owns one virtual machine and a set of global handles. Every operation is performed on the machine and
// on the model; operations may be hit by refused memory, heap limits, collections and misuse, and the model says
// which outcomes are acceptable. Everything reachable from the handles can be compared with the model at any time.
#pragma once
#include "host.hpp"

#include <deque>
#include <set>
#include <unordered_map>

namespace sim::world {

enum class K : int { Null, Bool, Int, Float, Str, Tuple, Schema, Record, Array, Result, Buffer, Native, Map, Set, Builder, Func };

struct Obj {
    K k = K::Null;
    u64 id = 0;
    bool b = false; // bool value, result success
    i64 i = 0;
    double d = 0;
    std::string s;              // string content, buffer bytes, builder content
    std::vector<Obj*> items;    // tuple, array, record values, result value
    std::vector<std::string> keys;
    std::vector<std::pair<Obj*, Obj*>> entries; // map, set
    size_t size = 0;            // native
    u64 mark = 0;
};

struct Weights {
    u32 handles = 3, primitives = 3, strings = 3, tuples = 3, arrays = 4, records = 2, results = 1, buffers = 2, natives = 2,
        maps = 3, sets = 2, builders = 1, misuse = 0, collect = 1, verify = 1, garbage = 1, burst = 0, copy = 3;
};

struct Config {
    Weights w;
    VmOptions vm;
    u32 max_slots = 24;
    u32 big = 20;        // one in `big` sizes is large
    u32 max_big = 200000;
    bool scripts = true; // maps, sets, builders through script functions
    u32 oom = 0;         // one in `oom` operations runs with refused memory (0: never)
    bool limit = false;  // heap limit may be hit
    bool fixed_names = false; // nothing may add to the interned names
    u32 max_live = 4000; // bound on reachable model objects
};

struct Slot {
    tiro_handle_t h = nullptr;
    Obj* v = nullptr;
};

class World {
public:
    World(const Config& c, Stream& s, const std::string& name = "world");
    ~World();
    World(const World&) = delete;

    void step();
    void verify_all(const char* when);
    void collect(); // forced collection
    void check_finalizers(bool exact); // exact: everything unreachable must be gone
    void drop_all();
    void destroy();
    // sum of reachable model objects
    size_t reachable();
    std::string describe(Obj* o, int depth = 2);

    // operations
    Slot& any_slot();
    Slot& dest_slot();
    Slot* slot_with(K k); // may return null
    void op_handles();
    void op_primitive();
    void op_string();
    void as_name(tiro_handle_t h, const std::string& text, Slot* record);
    void op_tuple();
    void op_array();
    void op_record();
    void op_result();
    void op_buffer();
    void op_native();
    void op_map();
    void op_set();
    void op_builder();
    void op_misuse();
    void op_garbage();
    void op_burst();
    void op_copy();

    Config c;
    Stream& s;
    std::string name;
    std::unique_ptr<Vm> vm;
    std::deque<Slot> slots;
    std::deque<Obj> objs;
    u64 next_id = 1;
    bool in_oom = false;
    u64 alloc_errors = 0, ops = 0;
    size_t max_total = 0;
    std::map<std::string, std::unique_ptr<H>> fns;
    std::unique_ptr<H> tmp_args;

    Obj* make(K k);
    void set_slot(Slot& slot, Obj* v) { slot.v = v; }
    // Runs one API call under the fault policy. Returns true when it succeeded; expect: the error it must fail with.
    bool call(const char* what, const std::function<void(tiro_error_t*)>& fn, tiro_errc_t expect = TIRO_OK, size_t bytes = 0);
    // Calls a script function; result is placed in out. Returns false if it did not complete because of refused memory.
    bool script(const char* fn, const std::vector<tiro_handle_t>& args, tiro_handle_t out);
    void verify(tiro_handle_t h, Obj* o, int depth, int& budget, const char* when, const std::string& path);
    void mismatch(const char* when, const std::string& path, const std::string& got, Obj* want);
    size_t random_size(u32 small);
    std::string random_text(size_t n);
    Obj* random_key();
    void mark_reachable();
    void compact(); // forgets unreachable model objects
    void after_limit_failure(size_t bytes);
    bool key_equal(Obj* a, Obj* b);
    tiro_handle_t temp(Obj* key); // creates a primitive in the temp handle
    std::unique_ptr<H> t1, t2, t3;
    u64 mark_epoch = 0;
    u64 last_coll = 0;
};

struct NativeInfo {
    World* owner;
    size_t size;
    u32 finalized = 0;
    bool has_finalizer = true;
    bool created = false;
};
extern std::unordered_map<u64, NativeInfo>& natives_of();

} // namespace sim::world
