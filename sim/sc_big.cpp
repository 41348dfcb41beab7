// C11: containers that grow through all of their size classes (more than 2^16 entries) and shrink again, with keys that collide,
// holes, refills and enumerations, in several coroutines that take turns in the middle of every operation.
#include "host.hpp"

#include <unordered_map>
using namespace sim;

namespace {

const char* SOURCE = R"(
import std;
func turn(i, every) { if (every > 0 && i % every == 0) { std.dispatch(); } }
func key(i, text) { if (text) { return "k${i}"; } return i; }
func mix(h, x) { return (h * 31 + x) % 1000000007; }

export func map_new() { return map{}; }
export func map_fill(m, from, n, step, text, every) {
    for var i = 0; i < n; i += 1 { turn(i, every); m[key(from + i * step, text)] = i + 1; }
    return m.size();
}
export func map_remove(m, from, n, step, text, every) {
    for var i = 0; i < n; i += 1 { turn(i, every); m.remove(key(from + i * step, text)); }
    return m.size();
}
export func map_sum(m, from, n, step, text, every) {
    var h = 0;
    for var i = 0; i < n; i += 1 {
        turn(i, every);
        const k = key(from + i * step, text);
        const v = m[k];
        if (m.contains(k) != (v != null)) { return -1; }
        h = mix(h, v ?? 0);
    }
    return h;
}
export func map_all(m, from, n, step, text, every) {
    var h = 0;
    var i = 0;
    for (k, v) in m {
        turn(i, every);
        i += 1;
        if (m[k] != v) { return -2; }
        h = mix(h, v);
    }
    if (i != m.size()) { return -3; }
    return h;
}
export func map_views(m, from, n, step, text, every) {
    var h = 0;
    var i = 0;
    for v in m.values() { turn(i, every); i += 1; h = mix(h, v); }
    for k in m.keys() { turn(i, every); i += 1; h = mix(h, m[k]); }
    if (i != 2 * m.size()) { return -4; }
    return h;
}
export func map_clear(m, from, n, step, text, every) { m.clear(); return m.size(); }

export func set_new() { return set{}; }
export func set_fill(m, from, n, step, text, every) {
    for var i = 0; i < n; i += 1 {
        turn(i, every);
        const k = key(from + i * step, text);
        const had = m.contains(k);
        if (m.insert(k) == had) { return -5; }
    }
    return m.size();
}
export func set_remove(m, from, n, step, text, every) {
    for var i = 0; i < n; i += 1 { turn(i, every); m.remove(key(from + i * step, text)); }
    return m.size();
}
export func set_sum(m, from, n, step, text, every) {
    var h = 0;
    for var i = 0; i < n; i += 1 {
        turn(i, every);
        var hit = 0;
        if (m.contains(key(from + i * step, text))) { hit = 1; }
        h = mix(h, hit);
    }
    return h;
}
export func set_all(m, from, n, step, text, every) {
    var h = 0;
    var i = 0;
    for k in m {
        turn(i, every);
        i += 1;
        if (!m.contains(k)) { return -6; }
        if (text) { h = mix(h, k.size()); } else { h = mix(h, k % 1000003); }
    }
    if (i != m.size()) { return -7; }
    return h;
}
export func set_clear(m, from, n, step, text, every) { m.clear(); return m.size(); }

export func array_new() { return []; }
export func array_fill(a, from, n, step, text, every) {
    for var i = 0; i < n; i += 1 { turn(i, every); a.append(from + i * step); }
    return a.size();
}
export func array_sum(a, from, n, step, text, every) {
    var h = 0;
    for var i = 0; i < n; i += 1 {
        turn(i, every);
        if (from + i * step < a.size()) { h = mix(h, a[from + i * step] % 1000003); }
    }
    return h;
}
export func array_set(a, from, n, step, text, every) {
    for var i = 0; i < n; i += 1 { turn(i, every); if (from + i * step < a.size()) { a[from + i * step] = i; } }
    return a.size();
}
export func array_all(a, from, n, step, text, every) {
    var h = 0;
    var i = 0;
    for x in a { turn(i, every); i += 1; h = mix(h, x % 1000003); }
    if (i != a.size()) { return -8; }
    return h;
}
export func array_clear(a, from, n, step, text, every) { a.clear(); return a.size(); }

export func text_new() { return std.new_string_builder(); }
export func text_fill(b, from, n, step, text, every) {
    for var i = 0; i < n; i += 1 { turn(i, every); b.append("${from + i * step},"); }
    return b.size();
}
export func text_self(b, from, n, step, text, every) {
    if (b.size() < 200000) { b.append(b.to_string()); }
    return b.size();
}
export func text_all(b, from, n, step, text, every) {
    const s = b.to_string();
    if (s.size() != b.size()) { return -9; }
    var h = 0;
    var i = 0;
    for c in s.slice_last(from + n) {
        turn(i, every);
        i += 1;
        if (c == ",") { h = mix(h, i); }
    }
    return h;
}
export func text_clear(b, from, n, step, text, every) { b.clear(); return b.size(); }
)";

struct Model {
    u32 kind = 0; // map, set, array, text
    bool text = false;
    struct Entry {
        i64 key, value;
        bool dead;
    };
    std::vector<Entry> entries; // insertion order
    std::unordered_map<i64, size_t> index;
    std::vector<i64> items;
    std::string chars;

    static i64 mix(i64 h, i64 x) { return (h * 31 + x) % 1000000007; }
    void put(i64 k, i64 v) {
        auto it = index.find(k);
        if (it != index.end()) {
            entries[it->second].value = v;
            return;
        }
        index[k] = entries.size();
        entries.push_back({k, v, false});
    }
    void drop(i64 k) {
        auto it = index.find(k);
        if (it == index.end())
            return;
        entries[it->second].dead = true;
        index.erase(it);
    }
    i64 op(const std::string& name, i64 from, i64 n, i64 step) {
        i64 h = 0;
        if (kind == 3) {
            if (name == "fill") {
                for (i64 i = 0; i < n; ++i)
                    chars += std::to_string(from + i * step) + ",";
            } else if (name == "self") {
                if (chars.size() < 200000)
                    chars += std::string(chars);
            } else if (name == "clear") {
                chars.clear();
            } else {
                size_t len = std::min<size_t>(chars.size(), (size_t) (from + n));
                size_t start = chars.size() - len;
                for (size_t i = 0; i < len; ++i)
                    if (chars[start + i] == ',')
                        h = mix(h, (i64) i + 1);
                return h;
            }
            return (i64) chars.size();
        }
        if (kind == 2) {
            if (name == "fill") {
                for (i64 i = 0; i < n; ++i)
                    items.push_back(from + i * step);
            } else if (name == "clear") {
                items.clear();
            } else if (name == "all") {
                for (i64 x : items)
                    h = mix(h, x % 1000003);
                return h;
            } else {
                for (i64 i = 0; i < n; ++i) {
                    size_t p = (size_t) (from + i * step);
                    if (p >= items.size())
                        continue;
                    if (name == "set")
                        items[p] = i;
                    else
                        h = mix(h, items[p] % 1000003);
                }
                if (name == "sum")
                    return h;
            }
            return (i64) items.size();
        }
        if (name == "fill") {
            for (i64 i = 0; i < n; ++i)
                put(from + i * step, i + 1);
        } else if (name == "remove") {
            for (i64 i = 0; i < n; ++i)
                drop(from + i * step);
        } else if (name == "clear") {
            entries.clear();
            index.clear();
        } else if (name == "sum") {
            for (i64 i = 0; i < n; ++i) {
                auto it = index.find(from + i * step);
                h = mix(h, it == index.end() ? 0 : kind == 0 ? entries[it->second].value : 1);
            }
            return h;
        } else {
            for (int pass = 0; pass < (name == "views" ? 2 : 1); ++pass)
                for (auto& e : entries)
                    if (!e.dead)
                        h = mix(h, kind == 0 ? e.value : text ? (i64) std::to_string(e.key).size() + 1 : e.key % 1000003);
            return h;
        }
        return (i64) index.size();
    }
};

} // namespace

SCENARIO(c11_big, "C11.big", "C11", 1) {
    Stream& k = stream("knobs");
    Stream& s = stream("ops");
    VmOptions o;
    o.page_size = (size_t) 1 << (16 + k.pick(5));
    o.max_heap = (size_t) 1 << 29;
    static const char* prefix[] = {"map", "set", "array", "text"};
    {
        Vm vm(o);
        vm.load_source("main", SOURCE);
        Err e;
        auto integer = [&](i64 x) {
            H h(vm.vm);
            api::make_integer(vm.vm, x, h.get(), &e);
            expect_ok(e, "make_integer");
            return h;
        };
        auto launch = [&](const std::string& fn, std::vector<H*> args) {
            H f = vm.fn("main", fn.c_str());
            H tuple(vm.vm), co(vm.vm);
            api::make_tuple(vm.vm, args.size(), tuple.get(), &e);
            expect_ok(e, "make_tuple");
            for (size_t i = 0; i < args.size(); ++i) {
                api::tuple_set(vm.vm, tuple.get(), i, args[i]->get(), &e);
                expect_ok(e, "tuple_set");
            }
            api::make_coroutine(vm.vm, f.get(), tuple.get(), co.get(), &e);
            expect_ok(e, "make_coroutine");
            api::coroutine_start(vm.vm, co.get(), &e);
            expect_ok(e, "coroutine_start");
            return co;
        };
        auto value = [&](H& co, H& out, const char* what) {
            SIM_CHECK(api::coroutine_completed(vm.vm, co.get()), "no-progress", "%s does not complete", what);
            H r(vm.vm);
            api::coroutine_result(vm.vm, co.get(), r.get(), &e);
            expect_ok(e, "coroutine_result");
            SIM_CHECK(api::result_is_success(vm.vm, r.get()), "wrong-result", "%s failed: %s", what, render(vm.vm, r.get()).c_str());
            api::result_value(vm.vm, r.get(), out.get(), &e);
            expect_ok(e, "result_value");
        };
        struct Worker {
            Model model;
            std::unique_ptr<H> object;
            i64 stride = 1, base = 0;
        };
        std::vector<Worker> workers(1 + k.pick(3));
        const bool huge = k.chance(1, 3);
        for (auto& w : workers) {
            w.model.kind = (u32) k.weighted({5, 3, 1, 1});
            w.model.text = w.model.kind < 2 && k.chance(1, 3);
            static const i64 strides[] = {1, 1, 2, 3, 64, 4096, 65536, (i64) 1 << 32, 1000003};
            w.stride = w.model.kind < 2 ? strides[k.pick(9)] : 1 + (i64) k.pick(3);
            w.object = std::make_unique<H>(vm.vm);
            H co = launch(strf("%s_new", prefix[w.model.kind]), {});
            api::vm_run_ready(vm.vm, &e);
            expect_ok(e, "run_ready");
            value(co, *w.object, "new");
        }
        gc_setup("gc", GcMode::Gaps, 20000, 40);
        const u32 rounds = 3 + k.pick(thorough() ? 16 : 6);
        u64 work = 0;
        for (u32 round = 0; round < rounds && work < (thorough() ? 1000000 : 160000); ++round) {
            struct Job {
                Worker* w;
                H co;
                i64 expect;
                std::string what;
            };
            std::vector<Job> jobs;
            for (auto& w : workers) {
                if (workers.size() > 1 && s.chance(1, 5))
                    continue;
                static const std::vector<const char*> ops[4] = {
                    {"fill", "fill", "fill", "remove", "remove", "sum", "all", "views", "clear"},
                    {"fill", "fill", "fill", "remove", "remove", "sum", "all", "all", "clear"},
                    {"fill", "fill", "sum", "set", "all", "clear"},
                    {"fill", "fill", "self", "all", "clear"},
                };
                auto& list = ops[w.model.kind];
                std::string op = round == 0 ? "fill" : list[s.pick((u32) list.size())];
                if (op == "clear" && s.chance(2, 3))
                    op = "all";
                // sizes around the limits of the size classes, or anything
                static const i64 sizes[] = {100, 191, 192, 250, 255, 256, 257, 1000, 10000, 49000, 65000, 65534, 65535, 65536, 65537, 70000};
                i64 n = huge && s.pick(2) ? sizes[10 + s.pick(6)] : s.pick(2) ? sizes[s.pick(10)] : 1 + (i64) s.pick(3000);
                i64 from = w.model.kind < 2 ? w.stride * (i64) s.pick(s.pick(2) ? 4 : 40000) : (i64) s.pick(1000);
                if (round == 0)
                    from = 0;
                i64 step = w.model.kind < 2 && s.chance(1, 4) ? w.stride * 2 : w.stride;
                i64 every = s.pick(3) ? 0 : 1 + (i64) s.pick(5000);
                if (w.model.kind == 3)
                    n = std::min<i64>(n, 20000);
                std::string fn = strf("%s_%s", prefix[w.model.kind], op.c_str());
                H a = integer(from), b = integer(n), c = integer(step), d(vm.vm), f = integer(every);
                api::make_boolean(vm.vm, w.model.text, d.get(), &e);
                expect_ok(e, "make_boolean");
                H co = launch(fn, {w.object.get(), &a, &b, &c, &d, &f});
                i64 expect = w.model.op(op, from, n, step);
                std::string what = strf("%s(%lld, %lld, %lld, %d, %lld)", fn.c_str(), (long long) from, (long long) n, (long long) step,
                    (int) w.model.text, (long long) every);
                trace("%s -> %lld", what.c_str(), (long long) expect);
                work += (u64) n + (op == "all" || op == "views" ? w.model.index.size() + w.model.items.size() + w.model.chars.size() / 4 : 0);
                jobs.push_back({&w, std::move(co), expect, what});
            }
            api::vm_run_ready(vm.vm, &e);
            expect_ok(e, "run_ready");
            for (auto& j : jobs) {
                H v(vm.vm);
                value(j.co, v, j.what.c_str());
                const i64 got = api::value_kind(vm.vm, v.get()) == TIRO_KIND_INTEGER ? api::integer_value(vm.vm, v.get()) : -100;
                SIM_CHECK(got == j.expect, "wrong-result", "%s returned %s, expected %lld", j.what.c_str(), render(vm.vm, v.get()).c_str(),
                    (long long) j.expect);
            }
        }
        stat("elements", work);
    }
    arena_check();
    SIM_CHECK(mem.live_blocks == 0, "leak", "%llu blocks (%llu bytes) are still allocated after the machine was destroyed: %s",
        (unsigned long long) mem.live_blocks, (unsigned long long) mem.live_bytes, arena_leaks(4).c_str());
}
