// Scenarios that drive values through the C API against a plain object graph.
#include "world.hpp"
using namespace sim;
using namespace sim::world;

static Config base(Stream& k) {
    Config c;
    c.vm.page_size = (size_t) 1 << (16 + k.pick(4));
    c.max_slots = 6 + k.pick(40);
    c.big = std::vector<u32>{0, 40, 15, 5}[k.pick(4)];
    c.max_big = std::vector<u32>{30000, 100000, 400000}[k.pick(3)];
    return c;
}

static void gc(Stream& k) {
    u32 gap = std::vector<u32>{200, 40, 8, 2, 1}[k.pick(5)];
    gc_setup("gc", GcMode::Gaps, gap, gap < 5 ? 3000 : 400);
}

static void finish(World& w) {
    w.verify_all("at the end");
    w.check_finalizers(false);
    if (w.s.chance(1, 2)) {
        w.drop_all();
        w.collect();
        w.check_finalizers(true);
    }
    w.destroy();
    SIM_CHECK(mem.live_blocks == 0, "leak", "%llu blocks (%llu bytes) are still allocated after the machine was destroyed: %s",
        (unsigned long long) mem.live_blocks, (unsigned long long) mem.live_bytes, arena_leaks(4).c_str());
}

static void run(Config c, u32 steps) {
    Stream& s = stream("ops");
    {
        World w(c, s);
        for (u32 i = 0; i < steps; ++i)
            w.step();
        finish(w);
    }
}

SCENARIO(c01_world, "C01.objects", "C01", 2) {
    Stream& k = stream("knobs");
    Config c = base(k);
    gc(k);
    run(c, 40 + k.pick(120));
}

SCENARIO(c03_world, "C03.natives", "C03", 4) {
    Stream& k = stream("knobs");
    Config c = base(k);
    c.w.natives = 8 + k.pick(8);
    c.w.handles = 6;
    c.w.collect = 2;
    c.big = k.pick(2) ? 4 : 20;
    gc(k);
    if (k.chance(1, 3))
        c.oom = 6;
    run(c, 40 + k.pick(160));
}

SCENARIO(c05_world, "C05.objects", "C05", 4) {
    Stream& k = stream("knobs");
    Config c = base(k);
    c.oom = 2 + k.pick(6);
    c.w.garbage = k.pick(2);
    if (k.chance(1, 3))
        gc(k);
    run(c, 30 + k.pick(100));
}

SCENARIO(c11_world, "C11.api", "C11", 12) {
    Stream& k = stream("knobs");
    Config c = base(k);
    c.w.maps = 6 + k.pick(10);
    c.w.sets = 3 + k.pick(6);
    c.w.arrays = 4 + k.pick(6);
    c.w.builders = 2 + k.pick(3);
    c.w.natives = 0;
    c.w.handles = 1;
    c.max_slots = 6 + k.pick(8);
    if (k.chance(1, 2))
        gc(k);
    run(c, 60 + k.pick(200));
}

SCENARIO(c13_world, "C13.handles", "C13", 4) {
    Stream& k = stream("knobs");
    Config c = base(k);
    c.w.handles = 14;
    c.w.copy = 8;
    c.w.burst = 1 + k.pick(3);
    c.max_slots = 20 + k.pick(300);
    c.w.maps = c.w.sets = c.w.builders = 1;
    if (k.chance(1, 3))
        c.oom = 8;
    gc(k);
    run(c, 60 + k.pick(300));
}

SCENARIO(c18_world, "C18.misuse", "C18", 4) {
    Stream& k = stream("knobs");
    Config c = base(k);
    c.w.misuse = 20;
    c.big = 40;
    if (k.chance(1, 3))
        gc(k);
    if (k.chance(1, 5))
        c.oom = 10;
    run(c, 60 + k.pick(150));
}
