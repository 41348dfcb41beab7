// C02: garbage is reclaimed and accounted for exactly. C04: the heap limit.
#include "world.hpp"

#include <cstring>

using namespace sim;
using namespace sim::world;

static const tiro_native_type_t native_type = {{"plain", 5}, 16, nullptr};

static void null_all(World& w) {
    Err e;
    for (auto& x : w.slots) {
        api::make_null(*w.vm, x.h);
        x.v = nullptr;
    }
    for (auto* t : {w.t1.get(), w.t2.get(), w.t3.get(), w.tmp_args.get()})
        api::make_null(*w.vm, t->get());
}

// Interned names are kept by the machine for good: use all of them once.
static void warm_up(World& w) {
    Err e;
    H arr(w.vm->vm), k(w.vm->vm);
    api::make_array(*w.vm, 0, arr.get(), &e);
    expect_ok(e, "make_array");
    for (int i = -1; i < 24; ++i) {
        std::string key = i < 0 ? "nokey" : strf("k%d", i);
        api::make_string(*w.vm, ts(key), k.get(), &e);
        expect_ok(e, "make_string");
        api::array_push(*w.vm, arr.get(), k.get(), &e);
        expect_ok(e, "array_push");
    }
    api::make_record_schema(*w.vm, arr, k.get(), &e);
    expect_ok(e, "make_record_schema");
    api::vm_get_export(*w.vm, ts("nomodule"), ts("x"), k.get(), &e);
    api::vm_get_export(*w.vm, ts("std"), ts("nonexistent"), k.get(), &e);
}

static void check_accounting(Vm& vm, const char* when) {
    HeapInfo i = heap_info(vm.heap);
    SIM_CHECK(i.total == mem.aligned_bytes, "accounting", "%s: the heap accounts for %llu bytes but holds %llu bytes of system memory", when,
        (unsigned long long) i.total, (unsigned long long) mem.aligned_bytes);
    SIM_CHECK(i.allocated + i.free <= i.total, "accounting", "%s: %llu bytes allocated and %llu free in a heap of %llu bytes", when,
        (unsigned long long) i.allocated, (unsigned long long) i.free, (unsigned long long) i.total);
}

static HeapInfo collected(World& w, const char* when) {
    gc_now(w.vm->heap);
    check_accounting(*w.vm, when);
    return heap_info(w.vm->heap);
}

static Config base(Stream& k) {
    Config c;
    c.vm.page_size = (size_t) 1 << (16 + k.pick(4));
    c.max_slots = 6 + k.pick(20);
    c.big = std::vector<u32>{0, 40, 15, 5}[k.pick(4)];
    c.max_big = std::vector<u32>{30000, 100000, 400000}[k.pick(3)];
    return c;
}

// After everything was released, a collection leaves exactly what was there before.
SCENARIO(c02_exact, "C02.exact", "C02", 4) {
    Stream& k = stream("knobs");
    Config c = base(k);
    c.fixed_names = true;
    c.w.handles = 0; // the number of handles stays fixed
    c.w.collect = 2;
    c.w.burst = 0;
    c.w.misuse = k.pick(2);
    c.w.garbage = 1 + k.pick(3);
    if (k.chance(1, 4))
        c.oom = 8;
    Stream& s = stream("ops");
    {
        World w(c, s);
        warm_up(w);
        const u32 warm = 10 + k.pick(30);
        for (u32 i = 0; i < warm; ++i)
            w.step();
        w.verify_all("warm");
        null_all(w);
        HeapInfo first = collected(w, "baseline");
        if (k.chance(1, 2))
            gc_setup("gc", GcMode::Gaps, std::vector<u32>{100, 20, 3}[k.pick(3)], 600);
        const u32 rounds = 1 + k.pick(4);
        for (u32 r = 0; r < rounds; ++r) {
            const u32 n = 10 + k.pick(60);
            for (u32 i = 0; i < n; ++i) {
                w.step();
                check_accounting(*w.vm, "after a step");
            }
            w.verify_all("at the end of a round");
            collected(w, "collected round");
            w.check_finalizers(true);
            null_all(w);
            HeapInfo now = collected(w, "after a round");
            w.check_finalizers(true);
            SIM_CHECK(now.objects == first.objects, "objects", "%llu objects remain after everything was released, %llu were there before",
                (unsigned long long) now.objects, (unsigned long long) first.objects);
            SIM_CHECK(now.allocated == first.allocated, "bytes", "%llu bytes remain allocated after everything was released, %llu before",
                (unsigned long long) now.allocated, (unsigned long long) first.allocated);
            stat("rounds_compared");
        }
        w.destroy();
    }
    SIM_CHECK(mem.live_blocks == 0, "leak", "%llu blocks (%llu bytes) are still allocated after the machine was destroyed: %s",
        (unsigned long long) mem.live_blocks, (unsigned long long) mem.live_bytes, arena_leaks(4).c_str());
}

// ------------------------------------------------------------------ additivity
namespace {
struct Recipe {
    u32 kind = 0;
    size_t size = 0;
    std::vector<Recipe> kids;
};
} // namespace

static Recipe random_recipe(Stream& s, int depth) {
    Recipe r;
    r.kind = s.pick(depth > 0 ? 7 : 4);
    r.size = s.chance(1, 12) ? s.pick(200000) : s.pick(300);
    if (r.kind >= 4) {
        u32 n = s.pick(5);
        for (u32 i = 0; i < n; ++i)
            r.kids.push_back(random_recipe(s, depth - 1));
    }
    return r;
}

static u64 payload(const Recipe& r) {
    u64 n = r.kind < 3 ? r.size : 8;
    for (size_t i = 0; i < r.kids.size() && (r.kind < 6 || i < 1); ++i)
        n += payload(r.kids[i]) + 8;
    return n;
}

static u64 objects(const Recipe& r) {
    u64 n = 1;
    for (size_t i = 0; i < r.kids.size() && (r.kind < 6 || i < 1); ++i)
        n += objects(r.kids[i]);
    return n;
}

static void build(Vm& vm, const Recipe& r, tiro_handle_t out) {
    Err e;
    switch (r.kind) {
    case 0: api::make_buffer(vm, r.size, out, &e); break;
    case 1: api::make_string(vm, ts(std::string(r.size, 'x')), out, &e); break;
    case 2: api::make_native(vm, &native_type, 1 + r.size, out, &e); break;
    case 3: api::make_float(vm, (double) r.size, out, &e); break;
    case 4: {
        H t(vm), x(vm);
        api::make_tuple(vm, r.kids.size(), t.get(), &e);
        expect_ok(e, "make_tuple");
        for (size_t i = 0; i < r.kids.size(); ++i) {
            build(vm, r.kids[i], x.get());
            api::tuple_set(vm, t, i, x, &e);
            expect_ok(e, "tuple_set");
        }
        api::value_copy(vm, t, out, &e);
        break;
    }
    case 5: {
        H t(vm), x(vm);
        api::make_array(vm, 0, t.get(), &e);
        expect_ok(e, "make_array");
        for (auto& k : r.kids) {
            build(vm, k, x.get());
            api::array_push(vm, t, x, &e);
            expect_ok(e, "array_push");
        }
        api::value_copy(vm, t, out, &e);
        break;
    }
    default: {
        H x(vm);
        if (r.kids.empty())
            api::make_null(vm, x.get());
        else
            build(vm, r.kids[0], x.get());
        if (r.size % 2)
            api::make_success(vm, x, out, &e);
        else
            api::make_error(vm, x, out, &e);
        break;
    }
    }
    expect_ok(e, "build");
}

// The same structure costs the same every time, wherever and whenever it is built; releasing it gives exactly that back.
SCENARIO(c02_additive, "C02.additive", "C02", 3) {
    Stream& k = stream("knobs");
    Stream& s = stream("ops");
    VmOptions o;
    o.page_size = (size_t) 1 << (16 + k.pick(4));
    {
        Vm vm(o);
        {
            std::vector<Recipe> recipes;
            const u32 n = 1 + k.pick(4);
            for (u32 i = 0; i < n; ++i) {
                Seg seg(s);
                recipes.push_back(random_recipe(s, 3));
            }
            gc_setup("gc", GcMode::Gaps, std::vector<u32>{100, 20, 3}[k.pick(3)], 600);
            auto measure = [&] {
                gc_now(vm.heap);
                return heap_info(vm.heap);
            };
            {
                // the first instance introduces types
                H warm(vm);
                for (auto& r : recipes)
                    build(vm, r, warm.get());
            }
            struct Live {
                u32 recipe;
                H h;
            };
            std::vector<Live> live;
            HeapInfo base = measure();
            std::vector<u64> bytes(n, 0), objs(n, 0);
            const u32 ops = 6 + k.pick(20);
            for (u32 i = 0; i < ops; ++i) {
                Seg seg(s);
                HeapInfo before = measure();
                if (live.empty() || s.chance(2, 3)) {
                    u32 r = s.pick(n);
                    trace("build %u", r);
                    live.push_back({r, H(vm)});
                    build(vm, recipes[r], live.back().h);
                    HeapInfo now = measure();
                    u64 db = now.allocated - before.allocated, dn = now.objects - before.objects;
                    SIM_CHECK(now.allocated >= before.allocated && now.objects >= before.objects, "accounting", "building an object made the heap smaller");
                    if (bytes[r] == 0) {
                        bytes[r] = db;
                        objs[r] = dn;
                        SIM_CHECK(db >= payload(recipes[r]), "accounting", "a structure with %llu bytes of payload is accounted with %llu bytes",
                            (unsigned long long) payload(recipes[r]), (unsigned long long) db);
                        SIM_CHECK(dn + 8 >= objects(recipes[r]), "accounting", "a structure of %llu objects is accounted as %llu objects",
                            (unsigned long long) objects(recipes[r]), (unsigned long long) dn);
                    }
                    SIM_CHECK(db == bytes[r] && dn == objs[r], "accounting",
                        "the same structure took %llu bytes in %llu objects, then %llu bytes in %llu objects", (unsigned long long) bytes[r],
                        (unsigned long long) objs[r], (unsigned long long) db, (unsigned long long) dn);
                } else {
                    u32 j = s.pick((u32) live.size());
                    u32 r = live[j].recipe;
                    trace("release %u", r);
                    live.erase(live.begin() + j);
                    HeapInfo now = measure();
                    SIM_CHECK(before.allocated - now.allocated == bytes[r] && before.objects - now.objects == objs[r], "accounting",
                        "releasing a structure of %llu bytes in %llu objects gave back %lld bytes and %lld objects", (unsigned long long) bytes[r],
                        (unsigned long long) objs[r], (long long) (before.allocated - now.allocated), (long long) (before.objects - now.objects));
                }
                stat("structures_measured");
            }
            live.clear();
            HeapInfo end = measure();
            SIM_CHECK(end.allocated == base.allocated && end.objects == base.objects, "accounting", "the heap did not return to its initial size");
        }
        vm.destroy();
    }
    SIM_CHECK(mem.live_blocks == 0, "leak", "%llu blocks are still allocated: %s", (unsigned long long) mem.live_blocks, arena_leaks(4).c_str());
}

// ------------------------------------------------------------------ bounded live data, unbounded garbage
// Any number of live objects can pin a page each (objects do not move), everything else must be found again.
SCENARIO(c02_marathon, "C02.marathon", "C02", 4) {
    Stream& k = stream("knobs");
    Stream& s = stream("ops");
    const size_t page = (size_t) 1 << (16 + k.pick(2));
    const u32 slots = 1 + k.pick(12);
    const size_t max_lob = k.chance(1, 2) ? page * (1 + k.pick(6)) : page / 2;
    // what is there before the program starts
    size_t base;
    {
        VmOptions o;
        o.page_size = page;
        Vm vm(o);
        base = heap_info(vm.heap).total;
    }
    VmOptions o;
    o.page_size = page;
    o.max_heap = base + (slots + 6) * page + (slots + 2) * (max_lob + 4096);
    {
        Vm vm(o);
        if (k.chance(1, 3))
            gc_setup("gc", GcMode::Gaps, 200, 400);
        SIM_CHECK(heap_info(vm.heap).max == o.max_heap, "limit", "the configured limit is not in effect");
        struct Live {
            H h;
            std::string content;
        };
        std::vector<Live> live;
        for (u32 i = 0; i < slots; ++i)
            live.push_back({H(vm), ""});
        const u64 target = (u64) o.max_heap * (thorough() ? 60 : 12);
        u64 produced = 0;
        u32 steps = 0;
        H t(vm);
        while (produced < target && steps < 6000) {
            ++steps;
            Seg seg(s);
            Err e;
            u32 what = s.weighted({3, 6, 2, 1});
            // sizes: tiny, medium, close to the large object threshold, large
            auto size = [&]() -> size_t {
                switch (s.pick(4)) {
                case 0: return s.pick(200);
                case 1: return s.pick((u32) page / 8);
                case 2: return page / 4 - 600 + s.pick(1000);
                default: return s.pick((u32) max_lob);
                }
            };
            if (what == 0) { // replace a live object
                u32 i = s.pick(slots);
                size_t n = size();
                std::string text(n, (char) ('a' + steps % 26));
                api::make_string(vm, ts(text), live[i].h, &e);
                SIM_CHECK(e.ok(), "not-reclaimed", "step %u: a string of %zu bytes failed with %s after %llu bytes of garbage, live data fits easily", steps,
                    n, e.str().c_str(), (unsigned long long) produced);
                live[i].content = text;
                produced += n;
            } else if (what == 1) {
                u32 n = 1 + s.pick(20);
                size_t sz = size();
                for (u32 i = 0; i < n; ++i) {
                    switch (steps % 3) {
                    case 0: api::make_buffer(vm, sz, t.get(), &e); break;
                    case 1: api::make_tuple(vm, sz / 8, t.get(), &e); break;
                    default: api::make_native(vm, &native_type, sz + 1, t.get(), &e); break;
                    }
                    SIM_CHECK(e.ok(), "not-reclaimed", "step %u: garbage of %zu bytes failed with %s after %llu bytes of garbage, live data fits easily",
                        steps, sz, e.str().c_str(), (unsigned long long) produced);
                    produced += sz;
                }
                api::make_null(vm, t.get());
            } else if (what == 2) { // many small objects
                u32 n = 200 + s.pick(800);
                for (u32 i = 0; i < n; ++i) {
                    api::make_float(vm, i, t.get(), &e);
                    SIM_CHECK(e.ok(), "not-reclaimed", "step %u: a float failed with %s after %llu bytes of garbage", steps, e.str().c_str(),
                        (unsigned long long) produced);
                }
                produced += n * 16;
            } else { // check the survivors
                for (u32 i = 0; i < slots; ++i) {
                    if (live[i].content.empty())
                        continue;
                    tiro_string_t got{};
                    api::string_value(vm, live[i].h, &got, &e);
                    expect_ok(e, "string_value");
                    SIM_CHECK(str(got) == live[i].content, "value", "live string %u was changed", i);
                }
            }
            HeapInfo hi = heap_info(vm.heap);
            SIM_CHECK(hi.total <= o.max_heap, "limit", "the heap holds %llu bytes, the limit is %zu", (unsigned long long) hi.total, o.max_heap);
        }
        stat("garbage_kib", produced / 1024);
        stat("marathon_steps", steps);
    }
    SIM_CHECK(mem.live_blocks == 0, "leak", "%llu blocks are still allocated: %s", (unsigned long long) mem.live_blocks, arena_leaks(4).c_str());
}

// The same with a program that produces garbage of every kind by itself.
static const char* CHURN = R"(import std;
func chunk(i, n) { return "${i}${n}${i}"; }
func nest(d) { if d == 0 { return []; } return [nest(d - 1), (d, d), (a: d)]; }
func spin(i) { const y = i; std.dispatch(); return func() { return y; }; }
export func churn(kind, rounds, size) {
    const keep = [];
    var k = 0;
    while k < 8 { keep.append(null); k += 1; }
    var i = 0;
    while i < rounds {
        var x = null;
        if kind == 0 { x = std.new_buffer(size + i % 7); }
        if kind == 1 { x = chunk(i, size); }
        if kind == 2 { x = nest(3); }
        if kind == 3 { x = map{i: size, "k": [i]}; var j = 0; while j < 40 { x[j] = j; j += 1; } }
        if kind == 4 { const b = std.new_string_builder(); var j = 0; while j < 30 { b.append("0123456789"); j += 1; } x = b.to_string(); }
        if kind == 5 { x = spin(i); }
        if kind == 6 { std.launch(spin, i); std.dispatch(); }
        if kind == 7 { x = std.catch_panic(func() { std.panic("p${i}"); }); }
        if kind == 8 { x = set{i, i + 1}; for v in x { keep[0] = v; } }
        keep[i % 8] = x;
        i += 1;
    }
    return i;
}
)";

SCENARIO(c02_churn, "C02.churn", "C02", 3) {
    Stream& k = stream("knobs");
    const size_t page = (size_t) 1 << (16 + k.pick(2));
    const u32 kind = k.pick(9);
    const u32 size = kind == 0 ? std::vector<u32>{100, 3000, 20000, 90000}[k.pick(4)] : k.pick(1000);
    u32 rounds = 300 + k.pick(3000);
    if (kind == 2 || kind == 3 || kind == 4 || kind == 6)
        rounds /= 3;
    size_t base;
    {
        VmOptions o;
        o.page_size = page;
        Vm vm(o);
        vm.load_source("churn", CHURN);
        H f = vm.fn("churn", "churn");
        base = heap_info(vm.heap).total;
    }
    VmOptions o;
    o.page_size = page;
    o.max_heap = base + 24 * page + 12 * (size_t) size;
    {
        Vm vm(o);
        vm.load_source("churn", CHURN);
        if (k.chance(1, 4))
            gc_setup("gc", GcMode::Gaps, 300, 300);
        {
            H f = vm.fn("churn", "churn"), args(vm), co(vm), v(vm);
            Err e;
            const u32 calls = 1 + k.pick(3);
            for (u32 c = 0; c < calls; ++c) {
                api::make_tuple(vm, 3, args.get(), &e);
                expect_ok(e, "make_tuple");
                u32 a[3] = {kind, rounds, size};
                for (u32 i = 0; i < 3; ++i) {
                    api::make_integer(vm, a[i], v.get(), &e);
                    expect_ok(e, "make_integer");
                    api::tuple_set(vm, args, i, v, &e);
                }
                api::make_coroutine(vm, f, args, co.get(), &e);
                expect_ok(e, "make_coroutine");
                api::coroutine_start(vm, co, &e);
                expect_ok(e, "coroutine_start");
                u32 turns = 0;
                while (api::vm_has_ready(vm)) {
                    api::vm_run_ready(vm, &e);
                    SIM_CHECK(e.ok(), "not-reclaimed", "kind %u size %u: the program failed with %s (limit %zu, at start %zu)", kind, size, e.str().c_str(),
                        o.max_heap, base);
                    if (++turns > 100000)
                        fail("setup", "does not finish");
                }
                api::coroutine_result(vm, co, v.get(), &e);
                expect_ok(e, "coroutine_result");
                SIM_CHECK(api::result_is_success(vm, v), "not-reclaimed", "kind %u: the program panicked: %s", kind, render(vm, v).c_str());
                api::result_value(vm, v, v.get(), &e);
                SIM_CHECK(api::integer_value(vm, v) == rounds, "value", "wrong result");
            }
            trace("kind %u rounds %u size %u calls %u", kind, rounds, size, calls);
            for (u32 i = 0; i < 10; ++i)
                trace("total %llu", (unsigned long long) heap_info(vm.heap).total);
        }
        stat("churn_rounds", rounds);
    }
    SIM_CHECK(mem.live_blocks == 0, "leak", "%llu blocks are still allocated: %s", (unsigned long long) mem.live_blocks, arena_leaks(4).c_str());
}

// ------------------------------------------------------------------ refilling a fragmented heap
// All memory of dead objects can be used again: whatever lived and died before, the heap can be filled up to its
// limit with objects of the smallest size, and if everything is released again it holds as many objects of any size
// as it did at first.
SCENARIO(c02_refill, "C02.refill", "C02", 3) {
    Stream& k = stream("knobs");
    Stream& s = stream("ops");
    const size_t page = (size_t) 1 << (16 + k.pick(2));
    const u32 pages = 2 + k.pick(5);
    const u32 slots = (u32) (page / 16) * (pages + 2);
    VmOptions o;
    o.page_size = page;
    {
        size_t base;
        {
            Vm vm(o);
            H shelf(vm.vm);
            Err e;
            api::make_array(vm, slots, shelf.get(), &e);
            expect_ok(e, "make_array");
            base = heap_info(vm.heap).total;
        }
        o.max_heap = base + pages * page;
    }
    {
        Vm vm(o);
        H shelf(vm.vm), obj(vm.vm), null(vm.vm);
        Err e;
        api::make_array(vm, slots, shelf.get(), &e);
        expect_ok(e, "make_array");
        api::make_null(vm, null);
        for (u32 i = 0; i < slots; ++i) {
            api::array_push(vm, shelf, null, &e);
            expect_ok(e, "array_push");
        }
        gc_now(vm.heap);
        if (k.chance(1, 3))
            gc_setup("gc", GcMode::Gaps, 2000, 40);

        std::vector<u32> used, unused, size_of(slots);
        for (u32 i = slots; i-- > 0;)
            unused.push_back(i);
        u64 allocations = 0;
        // size 0: a float (the smallest object), otherwise a tuple
        auto put = [&](u32 size) {
            if (unused.empty())
                fail("setup", "the shelf is full");
            ++allocations;
            if (size == 0)
                api::make_float(vm, 0.5 + (double) allocations, obj.get(), &e);
            else
                api::make_tuple(vm, size, obj.get(), &e);
            if (!e.ok()) {
                SIM_CHECK(e.code() == TIRO_ERROR_ALLOC, "error", "allocation failed with %s", e.str().c_str());
                return false;
            }
            api::array_set(vm, shelf, unused.back(), obj, &e);
            expect_ok(e, "array_set");
            size_of[unused.back()] = size;
            used.push_back(unused.back());
            unused.pop_back();
            return true;
        };
        auto drop = [&](size_t index) {
            api::array_set(vm, shelf, used[index], null, &e);
            expect_ok(e, "array_set");
            unused.push_back(used[index]);
            used[index] = used.back();
            used.pop_back();
        };
        auto drop_all = [&] {
            api::make_null(vm, obj);
            while (!used.empty())
                drop(used.size() - 1);
            gc_now(vm.heap);
        };
        auto fill = [&](u32 size) {
            u32 n = 0;
            while (put(size))
                ++n;
            return n;
        };
        auto full = [&] {
            api::make_null(vm, obj);
            gc_now(vm.heap);
            fill(0); // the last object that was held by nothing but the handle
            api::make_null(vm, obj);
            gc_now(vm.heap);
            return heap_info(vm.heap);
        };

        // What the heap holds if nothing has happened before
        fill(0);
        const HeapInfo capacity = full();
        trace("capacity %llu of %llu", (unsigned long long) capacity.allocated, (unsigned long long) capacity.total);
        const u32 largest = (u32) (page / 4 - page / 16) / 8;
        std::map<u32, u32> calibrated;
        const u32 kinds = 1 + k.pick(4);
        for (u32 i = 0; i < kinds; ++i) {
            const u32 size = k.chance(1, 4) ? 1 + k.pick(largest) : k.pick(40);
            drop_all();
            calibrated[size] = fill(size);
            trace("size %u fits %u times", size, calibrated[size]);
        }
        drop_all();

        const u32 rounds = 3 + s.pick(thorough() ? 20 : 8);
        for (u32 r = 0; r < rounds; ++r) {
            Seg seg(s);
            const u32 max_size = std::vector<u32>{0, 1, 3, 10, 100, largest}[s.pick(6)];
            u32 want = s.chance(1, 3) ? ~0u : s.pick(3000);
            u32 n = 0;
            for (; n < want; ++n)
                if (!put(max_size ? s.pick(max_size + 1) : 0))
                    break;
            // What dies: every nth object, a range or random ones
            const size_t before = used.size();
            const u32 how = s.pick(4);
            const u32 every = 2 + s.pick(5);
            if (how == 0 && before) {
                size_t len = s.pick((u32) before);
                for (size_t i = 0; i < len; ++i)
                    drop(used.size() - 1);
            } else if (how == 1) {
                for (size_t i = before; i-- > 0;)
                    if (i % every == 0)
                        drop(i);
            } else if (how == 2) {
                u32 x = s.pick(1000);
                for (size_t i = before; i-- > 0;) {
                    x = x * 1664525u + 1013904223u;
                    if ((x >> 16) % every != 0)
                        drop(i);
                }
            }
            if (s.chance(1, 3)) {
                api::make_null(vm, obj);
                gc_now(vm.heap);
            }
            trace("round %u: %u objects of up to %u, %zu of %zu remain", r, n, max_size, used.size(), before);
            check_accounting(vm, "after a round");

            const u32 check = s.weighted({2, 2, 2, 3});
            if (check == 3) {
                // Objects of one size die between others that stay: as many of the same size must fit again
                const u32 a = s.chance(1, 2) ? 1 + s.pick(100) : s.chance(1, 2) ? 1 + s.pick(largest) : s.pick(16), b = s.chance(1, 2) ? s.pick(20) : 1 + s.pick(largest);
                while (put(a) && put(b)) {
                }
                fill(a);
                if (s.chance(1, 2))
                    fill(0);
                const u32 part = s.pick(3), turns = 1 + s.pick(3);
                u32 x = s.pick(1000), died = 0, fit = 0;
                for (u32 t = 0; t < turns; ++t) {
                    died = 0;
                    for (size_t i = used.size(); i-- > 0;) {
                        x = x * 1664525u + 1013904223u;
                        if (size_of[used[i]] == a && (part == 0 || (x >> 16) % (part + 1) == 0)) {
                            drop(i);
                            ++died;
                        }
                    }
                    api::make_null(vm, obj);
                    if (s.chance(1, 2))
                        gc_now(vm.heap);
                    fit = fill(a);
                    trace("%u objects of size %u died between others of size %u, %u fit", died, a, b, fit);
                    SIM_CHECK(fit >= died, "lost-memory", "%u objects of size %u died between others, only %u objects of that size fit into the heap again (round %u)",
                        died, a, fit, r);
                }
                probe("exchanged");
            } else if (check == 1) {
                fill(0);
                HeapInfo i = full();
                trace("filled");
                SIM_CHECK(i.allocated == capacity.allocated && i.free == 0, "lost-memory",
                    "filled up to the limit, the heap of %llu bytes holds objects of %llu bytes (%llu free), a new heap holds %llu bytes (round %u)",
                    (unsigned long long) i.total, (unsigned long long) i.allocated, (unsigned long long) i.free, (unsigned long long) capacity.allocated, r);
                probe("filled_up");
            } else if (check == 2) {
                drop_all();
                for (auto& [size, count] : calibrated) {
                    u32 now = fill(size);
                    drop_all();
                    SIM_CHECK(now == count, "lost-memory", "the released heap holds %u objects of size %u, there was room for %u at first (round %u)", now, size,
                        count, r);
                }
                probe("refilled");
            }
        }
        trace("allocations %llu", (unsigned long long) allocations);
    }
    SIM_CHECK(mem.live_blocks == 0, "leak", "%llu blocks are still allocated: %s", (unsigned long long) mem.live_blocks, arena_leaks(4).c_str());
}

// ------------------------------------------------------------------ C04
static size_t base_total(size_t page) {
    Config c;
    c.vm.page_size = page;
    Stream& s = stream("ops");
    World w(c, s);
    return heap_info(w.vm->heap).total;
}

static void fits_again(World& w, size_t limit, size_t page) {
    // Everything was released: what remains is the machine itself. A buffer of the rest must fit.
    null_all(w);
    gc_now(w.vm->heap);
    HeapInfo i = heap_info(w.vm->heap);
    const size_t used = i.allocated + 2 * page + page * (i.objects > 0 ? 2 : 0);
    (void) used;
    Err e;
    H b(w.vm->vm);
    // pages pinned by the machine's own objects: found out by a first attempt that must trigger reclaiming
    size_t want = limit > i.allocated + 40 * page ? (limit - i.allocated) / 2 : 0;
    if (want == 0)
        return;
    api::make_buffer(*w.vm, want, b.get(), &e);
    SIM_CHECK(e.ok(), "does-not-recover", "a buffer of %zu bytes is refused (%s) although only %llu of %zu bytes are in use and everything was released", want,
        e.str().c_str(), (unsigned long long) i.allocated, limit);
    probe("buffer_fits_after_release");
}

static void run_limit(Config c, Stream& k, u32 steps) {
    const size_t base = base_total(c.vm.page_size);
    c.limit = true;
    c.vm.max_heap = base + c.vm.page_size * (1 + k.pick(12)) + (k.chance(1, 2) ? k.pick(c.max_big) : 0);
    const size_t limit = c.vm.max_heap;
    Stream& s = stream("ops");
    {
        World w(c, s);
        mem.peak_aligned_bytes = mem.aligned_bytes;
        for (u32 i = 0; i < steps; ++i) {
            w.step();
            SIM_CHECK(mem.peak_aligned_bytes <= limit, "limit", "the heap took %llu bytes from the system, the limit is %zu",
                (unsigned long long) mem.peak_aligned_bytes, limit);
            check_accounting(*w.vm, "after a step");
            if (s.chance(1, 40)) {
                trace("release everything");
                w.verify_all("before everything is released");
                fits_again(w, limit, c.vm.page_size);
            }
        }
        w.verify_all("at the end");
        w.check_finalizers(false);
        fits_again(w, limit, c.vm.page_size);
        w.destroy();
    }
    SIM_CHECK(mem.live_blocks == 0, "leak", "%llu blocks (%llu bytes) are still allocated after the machine was destroyed: %s",
        (unsigned long long) mem.live_blocks, (unsigned long long) mem.live_bytes, arena_leaks(4).c_str());
}

SCENARIO(c04_limit, "C04.limit", "C04", 5) {
    Stream& k = stream("knobs");
    Config c = base(k);
    c.big = std::vector<u32>{12, 6, 3}[k.pick(3)];
    c.max_big = (u32) (c.vm.page_size * (1 + k.pick(6)));
    c.w.garbage = 2;
    c.w.arrays = 6;
    c.w.maps = 5;
    c.max_slots = 8 + k.pick(30);
    if (k.chance(1, 4))
        gc_setup("gc", GcMode::Gaps, 60, 200);
    if (k.chance(1, 4))
        c.oom = 10;
    run_limit(c, k, 40 + k.pick(160));
}

// Programs that grow without bounds: the host is told, everything else keeps working.
static const char* BOMBS = R"(import std;
export func idle(n) { var i = 0; while i < n { std.dispatch(); i += 1; } return n; }
export func bomb(kind, size) {
    const keep = [];
    const m = map{};
    const s = set{};
    const b = std.new_string_builder();
    var text = "x";
    var f = null;
    var i = 0;
    while true {
        if kind == 0 { keep.append(std.new_buffer(size)); }
        if kind == 1 { text = "${text}${text}"; if text.size() == 0 { return text; } }
        if kind == 2 { m[i] = std.new_buffer(size); }
        if kind == 3 { b.append("0123456789012345678901234567890123456789012345678901234567890123456789"); b.append(b.to_string()); }
        if kind == 4 { s.insert(std.new_buffer(size)); }
        if kind == 5 { const g = f; const t = std.new_buffer(size); f = func() { return (g, t); }; }
        if kind == 6 { std.launch(hold, std.new_buffer(size), keep); std.dispatch(); }
        if kind == 7 { keep.append((i, std.new_buffer(size), (a: i))); if i % 10 == 9 { keep.clear(); } if i > 3000 { return i; } }
        if kind == 8 { defer keep.clear(); keep.append(std.new_buffer(size)); keep.append(f); f = (f, std.new_buffer(size)); }
        i += 1;
    }
}
func hold(b, keep) { keep.append(std.coroutine_token()); std.yield_coroutine(); return b; }
)";

SCENARIO(c04_bombs, "C04.bombs", "C04", 3) {
    Stream& k = stream("knobs");
    Config c = base(k);
    c.vm.page_size = (size_t) 1 << (16 + k.pick(2));
    c.max_big = (u32) c.vm.page_size * 2;
    const size_t base = base_total(c.vm.page_size);
    c.limit = true;
    c.vm.max_heap = base + c.vm.page_size * (16 + k.pick(30));
    const size_t limit = c.vm.max_heap;
    Stream& s = stream("ops");
    {
        World w(c, s);
        w.vm->load_source("bombs", BOMBS);
        {
            H bomb = w.vm->fn("bombs", "bomb"), idle = w.vm->fn("bombs", "idle");
            mem.peak_aligned_bytes = mem.aligned_bytes;
            const u32 rounds = 1 + k.pick(3);
            for (u32 r = 0; r < rounds; ++r) {
                const u32 n = s.pick(20);
                for (u32 i = 0; i < n; ++i)
                    w.step();
                w.verify_all("before a bomb");
                const u32 kind = s.pick(9);
                const u32 size = 500 + s.pick(s.chance(1, 3) ? 60000 : 3000);
                {
                    H co(*w.vm), bystander(*w.vm), args(*w.vm), v(*w.vm);
                    Err e;
                    auto start = [&](tiro_handle_t fn, std::vector<i64> a, tiro_handle_t out) {
                        api::make_tuple(*w.vm, a.size(), args.get(), &e);
                        if (e.ok())
                            for (u32 i = 0; i < a.size() && e.ok(); ++i) {
                                api::make_integer(*w.vm, a[i], v.get(), &e);
                                if (e.ok())
                                    api::tuple_set(*w.vm, args, i, v, &e);
                            }
                        if (e.ok())
                            api::make_coroutine(*w.vm, fn, args, out, &e);
                        if (e.ok())
                            api::coroutine_start(*w.vm, out, &e);
                        check_not_assert(e, "start");
                        SIM_CHECK(e.ok() || e.code() == TIRO_ERROR_ALLOC, "wrong-error", "starting a coroutine failed with %s", e.str().c_str());
                        return e.ok();
                    };
                    const bool first = s.chance(1, 2);
                    const u32 idle_turns = 1 + s.pick(6);
                    bool by = false, bo = false;
                    if (first)
                        by = start(idle, {idle_turns}, bystander.get());
                    bo = start(bomb, {kind, size}, co.get());
                    if (!first)
                        by = start(idle, {idle_turns}, bystander.get());
                    u32 failures = 0, turns = 0;
                    trace("bomb %u size %u", kind, size);
                    while (api::vm_has_ready(*w.vm) && turns++ < 3000 && failures < 40) {
                        api::vm_run_ready(*w.vm, &e);
                        if (!e.ok()) {
                            check_not_assert(e, "run_ready");
                            SIM_CHECK(e.code() == TIRO_ERROR_ALLOC, "wrong-error", "run_ready failed with %s", e.str().c_str());
                            ++failures;
                        }
                        SIM_CHECK(mem.peak_aligned_bytes <= limit, "limit", "the heap took %llu bytes from the system, the limit is %zu",
                            (unsigned long long) mem.peak_aligned_bytes, limit);
                    }
                    trace("failures %u", failures);
                    if (bo && kind != 7) {
                        SIM_CHECK(failures > 0 || (api::coroutine_completed(*w.vm, co)), "limit", "a program that allocates without bounds keeps running inside of its limit");
                        fault("heap_limit_hit_by_program");
                    }
                    if (by && failures <= 1) {
                        // the bystander only competes for memory while the bomb grows; it finishes unless it was refused memory itself
                        if (bo && failures == 1 && !api::coroutine_completed(*w.vm, bystander))
                            fail("bystander", "a coroutine that was not refused memory did not finish");
                    }
                    api::make_null(*w.vm, args.get());
                    api::make_null(*w.vm, v.get());
                }
                w.verify_all("after a bomb");
                // everything the bomb held is free again
                gc_now(w.vm->heap);
                Err e;
                H b(w.vm->vm);
                HeapInfo i = heap_info(w.vm->heap);
                if (w.reachable() < 40 && i.allocated + 14 * c.vm.page_size + c.vm.page_size / 2 < limit) {
                    size_t want = c.vm.page_size / 2;
                    api::make_buffer(*w.vm, want, b.get(), &e);
                    SIM_CHECK(e.ok(), "does-not-recover", "after an allocation bomb %zu bytes are refused (%s) although %llu of %zu bytes are in use", want,
                        e.str().c_str(), (unsigned long long) i.allocated, limit);
                    probe("recovered_after_bomb");
                }
            }
        }
        w.verify_all("at the end");
        w.destroy();
    }
    SIM_CHECK(mem.live_blocks == 0, "leak", "%llu blocks (%llu bytes) are still allocated after the machine was destroyed: %s",
        (unsigned long long) mem.live_blocks, (unsigned long long) mem.live_bytes, arena_leaks(4).c_str());
}
