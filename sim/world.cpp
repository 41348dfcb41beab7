#include "world.hpp"

#include <cmath>
#include <cstring>

namespace sim::world {

std::unordered_map<u64, NativeInfo>& natives_of() {
    static auto* m = new std::unordered_map<u64, NativeInfo>();
    return *m;
}

static unsigned char pattern(u64 id, size_t i) { return (unsigned char) (id * 31 + i * 7 + (i >> 8)); }

static void check_native_data(u64 expect_id, const void* data, size_t size, const char* when) {
    u64 id = 0;
    memcpy(&id, data, std::min(size, sizeof(id)));
    (void) expect_id;
    auto* p = static_cast<const unsigned char*>(data);
    for (size_t i = 8; i < size; ++i) {
        if (p[i] != pattern(expect_id, i))
            fail("native-data", "%s: byte %zu of native object %llu (size %zu) was changed", when, i, (unsigned long long) expect_id, size);
    }
}

static void native_finalizer(void* data, size_t size) {
    InHost in;
    u64 id = 0;
    SIM_CHECK(size >= 8, "finalizer", "finalizer called with size %zu", size);
    memcpy(&id, data, 8);
    if (id == 0) {
        probe("finalizer_of_unnamed_native");
        return; // garbage natives
    }
    auto& all = natives_of();
    auto it = all.find(id);
    SIM_CHECK(it != all.end(), "finalizer", "finalizer called with unknown data (id %llx)", (unsigned long long) id);
    NativeInfo& n = it->second;
    SIM_CHECK(n.size == size, "finalizer", "finalizer of native %llu called with size %zu, expected %zu", (unsigned long long) id, size, n.size);
    SIM_CHECK(n.finalized == 0, "finalizer", "native object %llu was finalized more than once", (unsigned long long) id);
    check_native_data(id, data, size, "finalizer");
    n.finalized++;
    stat("finalized");
}

static const tiro_native_type_t type_fin = {{"with_finalizer", 14}, 8, native_finalizer};
static const tiro_native_type_t type_plain = {{"plain", 5}, 16, nullptr};
static const tiro_native_type_t type_fin1 = {{"bytes", 5}, 1, native_finalizer};

static const char* SOURCE = R"(import std;
export func m_new() { return map{}; }
export func m_set(m, k, v) { m[k] = v; return null; }
export func m_get(m, k) { return m[k]; }
export func m_has(m, k) { return m.contains(k); }
export func m_size(m) { return m.size(); }
export func m_remove(m, k) { m.remove(k); return null; }
export func m_clear(m) { m.clear(); return null; }
export func m_dump(m) { const r = []; for (k, v) in m { r.append(k); r.append(v); } return r; }
export func m_keys(m) { const r = []; for k in m.keys() { r.append(k); } return r; }
export func m_values(m) { const r = []; for v in m.values() { r.append(v); } return r; }
export func s_new() { return set{}; }
export func s_insert(s, v) { return s.insert(v); }
export func s_has(s, v) { return s.contains(v); }
export func s_size(s) { return s.size(); }
export func s_remove(s, v) { s.remove(v); return null; }
export func s_clear(s) { s.clear(); return null; }
export func s_dump(s) { const r = []; for v in s { r.append(v); } return r; }
export func b_new() { return std.new_string_builder(); }
export func b_append(b, s) { b.append(s); return null; }
export func b_string(b) { return b.to_string(); }
export func b_size(b) { return b.size(); }
export func b_clear(b) { b.clear(); return null; }
export func a_append(a, v) { a.append(v); return null; }
export func a_clear(a) { a.clear(); return null; }
export func a_size(a) { return a.size(); }
export func a_set(a, i, v) { a[i] = v; return null; }
export func a_get(a, i) { return a[i]; }
export func a_dump(a) { const r = []; for v in a { r.append(v); } return r; }
export func t_size(t) { return t.size(); }
export func t_dump(t) { const r = []; for v in t { r.append(v); } return r; }
export func t_get(t, i) { return t[i]; }
export func str_size(s) { return s.size(); }
export func str_concat(a, b) { return "${a}${b}"; }
export func str_eq(a, b) { return a == b; }
export func str_slice(s, i, n) { return s.slice(i, n).to_string(); }
)";

World::World(const Config& cfg, Stream& stream, const std::string& n)
    : c(cfg)
    , s(stream)
    , name(n) {
    vm = std::make_unique<Vm>(c.vm);
    if (c.scripts) {
        vm->load_source("ops", SOURCE);
        size_t at = 0;
        std::string src = SOURCE;
        while ((at = src.find("export func ", at)) != std::string::npos) {
            at += 12;
            std::string f = src.substr(at, src.find('(', at) - at);
            fns[f] = std::make_unique<H>(vm->fn("ops", f));
        }
    }
    t1 = std::make_unique<H>(vm->vm);
    t2 = std::make_unique<H>(vm->vm);
    t3 = std::make_unique<H>(vm->vm);
    tmp_args = std::make_unique<H>(vm->vm);
    for (u32 i = 0; i < 6; ++i) {
        Err e;
        slots.push_back({api::global_new(*vm, &e), nullptr});
        expect_ok(e, "global_new");
    }
    if (c.limit && vm->heap) {
        c.vm.max_heap = heap_info(vm->heap).max;
    }
}

World::~World() { destroy(); }

Obj* World::make(K k) {
    objs.emplace_back();
    Obj* o = &objs.back();
    o->k = k;
    o->id = next_id++;
    return o;
}

std::string World::describe(Obj* o, int depth) {
    if (!o)
        return "null";
    switch (o->k) {
    case K::Null: return "null";
    case K::Bool: return o->b ? "true" : "false";
    case K::Int: return strf("%lld", (long long) o->i);
    case K::Float: return strf("%.17g", o->d);
    case K::Str: return o->s.size() < 24 ? "\"" + o->s + "\"" : strf("string[%zu]", o->s.size());
    case K::Buffer: return strf("buffer[%zu]", o->s.size());
    case K::Native: return strf("native#%llu[%zu]", (unsigned long long) o->id, o->size);
    case K::Builder: return strf("builder[%zu]", o->s.size());
    case K::Func: return "function";
    case K::Schema: return strf("schema[%zu]", o->keys.size());
    default: break;
    }
    const char* names[] = {"", "", "", "", "", "tuple", "", "record", "array", "result", "", "", "map", "set", "", ""};
    std::string r = strf("%s#%llu", names[(int) o->k], (unsigned long long) o->id);
    if (depth > 0 && o->items.size() <= 4) {
        r += "(";
        for (auto* x : o->items)
            r += describe(x, depth - 1) + " ";
        r += ")";
    }
    return r;
}

Slot& World::any_slot() { return slots[s.pick((u32) slots.size())]; }
Slot& World::dest_slot() { return any_slot(); }

Slot* World::slot_with(K k) {
    u32 n = 0;
    for (auto& x : slots)
        n += x.v && x.v->k == k;
    if (!n)
        return nullptr;
    u32 i = s.pick(n);
    for (auto& x : slots)
        if (x.v && x.v->k == k && i-- == 0)
            return &x;
    return nullptr;
}

size_t World::random_size(u32 small) {
    if (c.big && s.chance(1, c.big))
        return s.pick(c.max_big) + small;
    return s.pick(small);
}

std::string World::random_text(size_t n) {
    u32 seed = s.pick(26);
    std::string r(n, 'a');
    for (size_t i = 0; i < n; ++i)
        r[i] = (char) ('a' + (seed + i * i) % 26);
    return r;
}

// ------------------------------------------------------------------ faults
static u64 heap_requests;
static size_t last_request;
static u64 coll_at_request;
static i64 heap_fail_after = -1;
static u64 heap_failed;

static int observe_alloc(void*, size_t bytes) {
    ++heap_requests;
    last_request = bytes;
    coll_at_request = collections;
    if (heap_fail_after >= 0 && heap_fail_after-- == 0) {
        ++heap_failed;
        fault("heap_allocation_refused");
        return 2;
    }
    return 0;
}

void World::after_limit_failure(size_t) {
    HeapInfo i = heap_info(vm->heap);
    size_t r = std::max<size_t>(last_request, c.vm.page_size);
    SIM_CHECK(i.total + r + 4096 > i.max, "refused-although-it-fits",
        "an allocation of %zu bytes was refused although the heap holds only %llu of %llu bytes", last_request, (unsigned long long) i.total,
        (unsigned long long) i.max);
    if (last_request <= i.max)
        SIM_CHECK(collections > coll_at_request, "refused-without-collection",
            "an allocation of %zu bytes was refused without any attempt to reclaim garbage", last_request);
    fault("heap_limit_hit");
}

bool World::call(const char* what, const std::function<void(tiro_error_t*)>& fn, tiro_errc_t expect, size_t bytes) {
    ++ops;
    Err e;
    on_heap_alloc = observe_alloc;
    const u64 failed_before = mem.failed, hf = heap_failed;
    if (c.oom && in_oom) {
        switch (s.pick(3)) {
        case 0:
            heap_fail_after = s.pick(4);
            break;
        case 1:
            oom_after = s.pick(4);
            oom_count = 1 + s.pick(3);
            break;
        default: // everything from some point on
            oom_after = s.pick(6);
            oom_count = 1000000;
            break;
        }
    }
    fn(&e);
    oom_reset();
    heap_fail_after = -1;
    on_heap_alloc = nullptr;
    const bool hit = mem.failed != failed_before || heap_failed != hf;
    if (mem.failed != failed_before)
        fault("system_allocation_refused");
    if (vm->heap) {
        HeapInfo i = heap_info(vm->heap);
        max_total = std::max<size_t>(max_total, i.total);
        SIM_CHECK(i.total <= i.max, "limit", "%s: the heap holds %llu bytes, the limit is %llu", what, (unsigned long long) i.total,
            (unsigned long long) i.max);
    }
    if (e.ok()) {
        SIM_CHECK(expect == TIRO_OK, "misuse-accepted", "%s succeeded but must fail with %s", what, tiro_errc_name(expect));
        return true;
    }
    check_not_assert(e, what);
    if (e.code() == TIRO_ERROR_ALLOC && hit) {
        ++alloc_errors;
        stat("alloc_errors_reported");
        return false;
    }
    if (e.code() == TIRO_ERROR_ALLOC && c.limit) {
        ++alloc_errors;
        after_limit_failure(bytes);
        return false;
    }
    if (expect == TIRO_OK)
        fail("unexpected-failure", "%s failed: %s%s", what, e.str().c_str(), hit ? " (memory was refused)" : "");
    SIM_CHECK(e.code() == expect, "wrong-error", "%s failed with %s, expected %s", what, e.str().c_str(), tiro_errc_name(expect));
    return false;
}

bool World::script(const char* fn, const std::vector<tiro_handle_t>& args, tiro_handle_t out) {
    const u64 before = alloc_errors;
    H co(vm->vm);
    auto ok = [&](const char* what, const std::function<void(tiro_error_t*)>& f) { return call(what, f); };
    bool oom = in_oom;
    in_oom = false;
    if (!ok("make_tuple", [&](tiro_error_t* e) { api::make_tuple(*vm, args.size(), tmp_args->get(), e); }))
        return false;
    for (size_t i = 0; i < args.size(); ++i) {
        Err e;
        api::tuple_set(*vm, tmp_args->get(), i, args[i], &e);
        expect_ok(e, "tuple_set");
    }
    u32 where = oom ? s.pick(4) : 9;
    in_oom = where == 0;
    bool done = ok("make_coroutine", [&](tiro_error_t* e) { api::make_coroutine(*vm, fns.at(fn)->get(), tmp_args->get(), co.get(), e); });
    if (done) {
        in_oom = where == 1;
        done = ok("coroutine_start", [&](tiro_error_t* e) { api::coroutine_start(*vm, co, e); });
    }
    if (done) {
        in_oom = where >= 2 && where != 9;
        done = ok("run_ready", [&](tiro_error_t* e) { api::vm_run_ready(*vm, e); });
    }
    in_oom = oom;
    api::make_null(*vm, tmp_args->get());
    if (!done) {
        (void) before;
        probe("script_interrupted_by_refused_memory");
        return false;
    }
    SIM_CHECK(api::coroutine_completed(*vm, co), "script", "the coroutine running %s did not complete", fn);
    Err e;
    H r(vm->vm);
    api::coroutine_result(*vm, co, r.get(), &e);
    expect_ok(e, "coroutine_result");
    if (api::result_is_error(*vm, r)) {
        // allocation failures may surface as panics inside of the script
        std::string msg = render(*vm, r);
        SIM_CHECK(alloc_errors != before || c.limit || oom, "script", "%s panicked: %s", fn, msg.c_str());
        SIM_CHECK(msg.find("ssertion") == std::string::npos, "internal-assertion", "%s panicked: %s", fn, msg.c_str());
        return false;
    }
    api::result_value(*vm, r, out, &e);
    expect_ok(e, "result_value");
    return true;
}

// ------------------------------------------------------------------ verification
void World::mismatch(const char* when, const std::string& path, const std::string& got, Obj* want) {
    fail("value", "%s: %s%s is %s, expected %s", when, name.c_str(), path.c_str(), got.c_str(), describe(want).c_str());
}

static tiro_kind_t kind_of(Obj* o) {
    if (!o)
        return TIRO_KIND_NULL;
    switch (o->k) {
    case K::Null: return TIRO_KIND_NULL;
    case K::Bool: return TIRO_KIND_BOOLEAN;
    case K::Int: return TIRO_KIND_INTEGER;
    case K::Float: return TIRO_KIND_FLOAT;
    case K::Str: return TIRO_KIND_STRING;
    case K::Tuple: return TIRO_KIND_TUPLE;
    case K::Schema: return TIRO_KIND_RECORD_SCHEMA;
    case K::Record: return TIRO_KIND_RECORD;
    case K::Array: return TIRO_KIND_ARRAY;
    case K::Result: return TIRO_KIND_RESULT;
    case K::Buffer: return TIRO_KIND_BUFFER;
    case K::Native: return TIRO_KIND_NATIVE;
    case K::Func: return TIRO_KIND_FUNCTION;
    default: return TIRO_KIND_INTERNAL;
    }
}

void World::verify(tiro_handle_t h, Obj* o, int depth, int& budget, const char* when, const std::string& path) {
    tiro_kind_t kind = api::value_kind(*vm, h);
    if (kind != kind_of(o))
        mismatch(when, path, strf("of kind %s", api::kind_str(kind)), o);
    if (--budget < 0 || !o)
        return;
    Err e;
    // long sequences: the beginning, the end and a grid in between
    auto next = [](size_t i, size_t n) { return n <= 150 || i < 40 || i + 10 >= n ? i + 1 : std::min(i + 1 + n / 41, n - 10); };
    auto child = [&](const std::function<void(tiro_handle_t, tiro_error_t*)>& get, Obj* want, const std::string& sub) {
        H x(vm->vm);
        get(x.get(), &e);
        expect_ok(e, "verification read");
        verify(x, want, depth - 1, budget, when, path + sub);
    };
    auto list = [&](tiro_handle_t arr, const std::vector<Obj*>& want, const char* what) {
        size_t n = api::array_size(*vm, arr);
        if (n != want.size())
            mismatch(when, path, strf("%s with %zu entries instead of %zu", what, n, want.size()), o);
        if (depth <= 0)
            return;
        for (size_t i = 0; i < n && budget > 0; i = next(i, n))
            child([&](tiro_handle_t x, tiro_error_t* er) { api::array_get(*vm, arr, i, x, er); }, want[i], strf(".%s[%zu]", what, i));
    };
    switch (o->k) {
    case K::Null:
        break;
    case K::Bool:
        if (api::boolean_value(*vm, h) != o->b)
            mismatch(when, path, "another boolean", o);
        break;
    case K::Int:
        if (api::integer_value(*vm, h) != o->i)
            mismatch(when, path, strf("%lld", (long long) api::integer_value(*vm, h)), o);
        break;
    case K::Float: {
        double d = api::float_value(*vm, h);
        if (memcmp(&d, &o->d, 8) != 0)
            mismatch(when, path, strf("%.17g", d), o);
        break;
    }
    case K::Str: {
        tiro_string_t st{};
        api::string_value(*vm, h, &st, &e);
        expect_ok(e, "string_value");
        if (st.length != o->s.size() || memcmp(st.data, o->s.data(), st.length) != 0)
            mismatch(when, path, "string " + str(st).substr(0, 40), o);
        budget -= (int) (st.length / 2048);
        break;
    }
    case K::Buffer: {
        size_t n = api::buffer_size(*vm, h);
        if (n != o->s.size())
            mismatch(when, path, strf("buffer[%zu]", n), o);
        auto* p = api::buffer_data(*vm, h);
        if (n && memcmp(p, o->s.data(), n) != 0)
            mismatch(when, path, "a buffer with different bytes", o);
        budget -= (int) (n / 2048);
        break;
    }
    case K::Native: {
        size_t n = api::native_size(*vm, h);
        if (n != o->size)
            mismatch(when, path, strf("native[%zu]", n), o);
        auto* d = api::native_data(*vm, h);
        u64 id = 0;
        memcpy(&id, d, 8);
        if (id != o->id)
            mismatch(when, path, strf("native#%llu", (unsigned long long) id), o);
        check_native_data(o->id, d, n, when);
        SIM_CHECK(natives_of()[o->id].finalized == 0, "finalizer", "native object %llu was finalized while reachable",
            (unsigned long long) o->id);
        budget -= (int) (n / 2048);
        break;
    }
    case K::Tuple: {
        size_t n = api::tuple_size(*vm, h);
        if (n != o->items.size())
            mismatch(when, path, strf("tuple[%zu]", n), o);
        if (depth <= 0)
            break;
        for (size_t i = 0; i < n && budget > 0; i = next(i, n))
            child([&](tiro_handle_t x, tiro_error_t* er) { api::tuple_get(*vm, h, i, x, er); }, o->items[i], strf(".%zu", i));
        break;
    }
    case K::Array:
        list(h, o->items, "array");
        break;
    case K::Schema:
        break;
    case K::Record: {
        H keys(vm->vm), key(vm->vm);
        api::record_keys(*vm, h, keys.get(), &e);
        expect_ok(e, "record_keys");
        size_t n = api::array_size(*vm, keys);
        if (n != o->keys.size())
            mismatch(when, path, strf("a record with %zu keys", n), o);
        for (size_t i = 0; i < n && budget > 0; ++i) {
            api::array_get(*vm, keys, i, key.get(), &e);
            tiro_string_t st{};
            api::string_value(*vm, key, &st, &e);
            expect_ok(e, "string_value");
            if (str(st) != o->keys[i])
                mismatch(when, path, "a record with key " + str(st) + " instead of " + o->keys[i], o);
            if (depth > 0)
                child([&](tiro_handle_t x, tiro_error_t* er) { api::record_get(*vm, h, key, x, er); }, o->items[i], "." + o->keys[i]);
        }
        break;
    }
    case K::Result:
        if (api::result_is_success(*vm, h) != o->b || api::result_is_error(*vm, h) == o->b)
            mismatch(when, path, "the other kind of result", o);
        if (depth > 0)
            child([&](tiro_handle_t x, tiro_error_t* er) {
                if (o->b)
                    api::result_value(*vm, h, x, er);
                else
                    api::result_error(*vm, h, x, er);
            }, o->items[0], o->b ? ".value" : ".error");
        break;
    case K::Map:
    case K::Set:
    case K::Builder: {
        if (!c.scripts)
            break;
        bool oom = in_oom;
        in_oom = false;
        H r(vm->vm);
        const char* fn = o->k == K::Map ? "m_dump" : o->k == K::Set ? "s_dump" : "b_string";
        bool ok = script(fn, {h}, r.get());
        in_oom = oom;
        if (!ok) {
            SIM_CHECK(c.limit, "value", "%s: %s cannot be inspected", when, path.c_str());
            break;
        }
        if (o->k == K::Builder) {
            Obj t;
            t.k = K::Str;
            t.s = o->s;
            verify(r, &t, 0, budget, when, path + ".to_string()");
            break;
        }
        std::vector<Obj*> want;
        for (auto& [k, v] : o->entries) {
            want.push_back(k);
            if (o->k == K::Map)
                want.push_back(v);
        }
        list(r, want, "entries");
        break;
    }
    case K::Func:
        break;
    }
}

void World::verify_all(const char* when) {
    bool oom = in_oom;
    in_oom = false;
    for (size_t i = 0; i < slots.size(); ++i) {
        int budget = slots.size() > 100 ? 20 : 120;
        verify(slots[i].h, slots[i].v, 3, budget, when, strf("[%zu]", i));
    }
    // identity
    for (int n = 0; n < 12 && slots.size() > 1; ++n) {
        auto &a = slots[(n * 7) % slots.size()], &b = slots[(n * 13 + 1) % slots.size()];
        if (!a.v || !b.v || (int) a.v->k < (int) K::Tuple || (int) b.v->k < (int) K::Tuple)
            continue;
        bool same = api::value_same(*vm, a.h, b.h);
        SIM_CHECK(same == (a.v == b.v), "identity", "%s: two handles to %s and %s are %s", when, describe(a.v).c_str(),
            describe(b.v).c_str(), same ? "the same" : "different");
    }
    in_oom = oom;
    stat("verifications");
}

// ------------------------------------------------------------------ reachability
void World::mark_reachable() {
    ++mark_epoch;
    std::vector<Obj*> todo;
    auto visit = [&](Obj* o) {
        if (o && o->mark != mark_epoch) {
            o->mark = mark_epoch;
            todo.push_back(o);
        }
    };
    for (auto& x : slots)
        visit(x.v);
    while (!todo.empty()) {
        Obj* o = todo.back();
        todo.pop_back();
        for (auto* x : o->items)
            visit(x);
        for (auto& [k, v] : o->entries) {
            visit(k);
            visit(v);
        }
    }
}

size_t World::reachable() {
    mark_reachable();
    size_t n = 0;
    for (auto& o : objs)
        n += o.mark == mark_epoch;
    return n;
}

void World::check_finalizers(bool exact) {
    mark_reachable();
    for (auto& o : objs) {
        if (o.k != K::Native)
            continue;
        NativeInfo& n = natives_of()[o.id];
        if (!n.has_finalizer)
            continue;
        if (o.mark == mark_epoch)
            SIM_CHECK(n.finalized == 0, "finalizer", "native object %llu was finalized while reachable", (unsigned long long) o.id);
        else if (exact)
            SIM_CHECK(n.finalized == 1, "not-reclaimed", "native object %llu (size %zu) is unreachable but survived a collection",
                (unsigned long long) o.id, n.size);
    }
}

void World::collect() {
    gc_now(vm->heap);
    stat("collections");
}

void World::drop_all() {
    for (auto& x : slots)
        api::global_free(x.h);
    slots.clear();
    for (auto* t : {t1.get(), t2.get(), t3.get(), tmp_args.get()})
        api::make_null(*vm, t->get());
}

void World::destroy() {
    if (!vm)
        return;
    // remaining globals are released by the machine itself
    t1->release();
    t2->release();
    t3->release();
    tmp_args->release();
    for (auto& [_, f] : fns)
        f->release();
    vm->destroy();
    vm.reset();
    slots.clear();
    for (auto& o : objs) {
        if (o.k != K::Native)
            continue;
        NativeInfo& n = natives_of()[o.id];
        SIM_CHECK(n.finalized == (n.has_finalizer ? 1u : 0u), "finalizer", "native object %llu was finalized %u times when its machine was gone",
            (unsigned long long) o.id, n.finalized);
        natives_of().erase(o.id);
    }
    objs.clear();
}

// ------------------------------------------------------------------ operations
void World::step() {
    Seg seg(s);
    in_oom = c.oom && s.chance(1, c.oom);
    const Weights& w = c.w;
    const u32 sc = c.scripts ? 1 : 0;
    switch (s.weighted({w.primitives, w.handles, w.strings, w.tuples, w.arrays, w.records, w.results, w.buffers, w.natives, w.maps * sc,
        w.sets * sc, w.builders * sc, w.misuse, w.collect, w.verify, w.garbage, w.burst, w.copy})) {
    case 0: op_primitive(); break;
    case 1: op_handles(); break;
    case 2: op_string(); break;
    case 3: op_tuple(); break;
    case 4: op_array(); break;
    case 5: op_record(); break;
    case 6: op_result(); break;
    case 7: op_buffer(); break;
    case 8: op_native(); break;
    case 9: op_map(); break;
    case 10: op_set(); break;
    case 11: op_builder(); break;
    case 12: op_misuse(); break;
    case 13:
        trace("collect");
        collect();
        check_finalizers(true);
        break;
    case 14:
        trace("verify");
        verify_all("after a step");
        break;
    case 15: op_garbage(); break;
    case 16: op_burst(); break;
    default: op_copy(); break;
    }
    if (in_oom) {
        in_oom = false;
        verify_all("after refused memory");
    }
    in_oom = false;
}

void World::op_handles() {
    u32 what = s.pick(3);
    if (what == 0 && slots.size() < c.max_slots) {
        tiro_handle_t h = nullptr;
        trace("new handle");
        if (call("global_new", [&](tiro_error_t* e) { h = api::global_new(*vm, e); })) {
            SIM_CHECK(h != nullptr, "handle", "global_new reported success but returned no handle");
            for (auto& x : slots)
                SIM_CHECK(x.h != h, "handle", "global_new returned a handle that is still in use");
            slots.push_back({h, nullptr});
            SIM_CHECK(api::value_kind(*vm, h) == TIRO_KIND_NULL, "handle", "a new handle does not contain null");
            SIM_CHECK(api::global_get_vm(h) == vm->vm, "handle", "a handle does not know its machine");
        } else {
            SIM_CHECK(h == nullptr, "handle", "global_new failed but returned a handle");
        }
    } else if (what == 1 && slots.size() > 3) {
        u32 i = s.pick((u32) slots.size());
        trace("free handle %u", i);
        InTiro t;
        ::tiro_global_free(slots[i].h);
        slots.erase(slots.begin() + i);
    } else {
        Slot& d = any_slot();
        trace("set null");
        api::make_null(*vm, d.h);
        d.v = nullptr;
    }
}

void World::op_burst() {
    // many handles at once, in several orders
    u32 n = 1 + s.pick(400);
    u32 order = s.pick(3);
    trace("burst %u order %u", n, order);
    std::vector<tiro_handle_t> hs;
    for (u32 i = 0; i < n; ++i) {
        Err e;
        tiro_handle_t h = api::global_new(*vm, &e);
        expect_ok(e, "global_new");
        SIM_CHECK(api::value_kind(*vm, h) == TIRO_KIND_NULL, "handle", "a new handle does not contain null");
        api::make_integer(*vm, (i64) i * 1000000007 + 5, h, &e);
        if (!e.ok()) {
            SIM_CHECK(c.limit && e.code() == TIRO_ERROR_ALLOC, "unexpected-failure", "make_integer: %s", e.str().c_str());
            api::global_free(h);
            n = i;
            break;
        }
        hs.push_back(h);
    }
    if (s.chance(1, 2))
        collect();
    for (u32 i = 0; i < n; ++i)
        SIM_CHECK(api::integer_value(*vm, hs[i]) == (i64) i * 1000000007 + 5, "value", "handle %u of %u lost its value", i, n);
    u32 keep = n && slots.size() < c.max_slots ? s.pick(3) : 0;
    for (u32 k = 0; k < keep && !hs.empty(); ++k) {
        u32 i = s.pick((u32) hs.size());
        Obj* o = make(K::Int);
        o->i = api::integer_value(*vm, hs[i]);
        slots.push_back({hs[i], o});
        hs.erase(hs.begin() + i);
    }
    if (order == 1)
        std::reverse(hs.begin(), hs.end());
    if (order == 2)
        for (size_t i = 0; i + 1 < hs.size(); i += 2)
            std::swap(hs[i], hs[hs.size() - 1 - i]);
    for (auto h : hs)
        api::global_free(h);
    stat("handles", n);
}

void World::op_copy() {
    Slot& a = any_slot();
    Slot& b = any_slot();
    trace("copy %s", describe(a.v).c_str());
    if (call("value_copy", [&](tiro_error_t* e) { api::value_copy(*vm, a.h, b.h, e); }))
        b.v = a.v;
}

void World::op_primitive() {
    Slot& d = dest_slot();
    switch (s.pick(4)) {
    case 0: {
        i64 v = s.chance(1, 3) ? ((i64) s.pick(0x7fffffff) << 32) - (i64) s.pick(1000) : (i64) s.pick(200) - 100;
        trace("int %lld", (long long) v);
        if (call("make_integer", [&](tiro_error_t* e) { api::make_integer(*vm, v, d.h, e); })) {
            d.v = make(K::Int);
            d.v->i = v;
        }
        break;
    }
    case 1: {
        double v = (double) s.pick(100000) / 7.0 - 100;
        trace("float %g", v);
        if (call("make_float", [&](tiro_error_t* e) { api::make_float(*vm, v, d.h, e); })) {
            d.v = make(K::Float);
            d.v->d = v;
        }
        break;
    }
    case 2: {
        bool v = s.pick(2);
        trace("bool %d", v);
        if (call("make_boolean", [&](tiro_error_t* e) { api::make_boolean(*vm, v, d.h, e); })) {
            d.v = make(K::Bool);
            d.v->b = v;
        }
        break;
    }
    default: {
        Slot& a = any_slot();
        trace("to_string %s", describe(a.v, 0).c_str());
        H r(vm->vm);
        if (call("value_to_string", [&](tiro_error_t* e) { api::value_to_string(*vm, a.h, r.get(), e); })) {
            Obj* o = a.v;
            tiro_string_t st{};
            Err e;
            api::string_value(*vm, r, &st, &e);
            expect_ok(e, "string_value");
            std::string want;
            if (!o)
                want = "null";
            else if (o->k == K::Bool)
                want = o->b ? "true" : "false";
            else if (o->k == K::Int)
                want = strf("%lld", (long long) o->i);
            else if (o->k == K::Str)
                want = o->s;
            else
                break;
            SIM_CHECK(str(st) == want, "value", "value_to_string returned %s, expected %s", str(st).c_str(), want.c_str());
        }
        break;
    }
    }
}

// Names are interned when they are used for the first time.
void World::as_name(tiro_handle_t h, const std::string& text, Slot* record) {
    if (c.fixed_names)
        return;
    bool known = record && std::find(record->v->keys.begin(), record->v->keys.end(), text) != record->v->keys.end();
    H out(vm->vm);
    if (record && s.chance(2, 3)) {
        trace("name [%zu] looked up", text.size());
        call("record_get", [&](tiro_error_t* e) { api::record_get(*vm, record->h, h, out.get(), e); }, known ? TIRO_OK : TIRO_ERROR_BAD_KEY);
        return;
    }
    H arr(vm->vm);
    trace("name [%zu] in a schema", text.size());
    if (call("make_array", [&](tiro_error_t* e) { api::make_array(*vm, 1, arr.get(), e); })
        && call("array_push", [&](tiro_error_t* e) { api::array_push(*vm, arr.get(), h, e); }))
        call("make_record_schema", [&](tiro_error_t* e) { api::make_record_schema(*vm, arr, out.get(), e); });
}

void World::op_string() {
    Slot& d = dest_slot();
    switch (s.pick(7)) {
    case 4: { // a string object that was around for a while is used as a name
        Slot *a = slot_with(K::Str), *r = slot_with(K::Record);
        if (!a || a->v->s.size() > 400)
            return;
        as_name(a->h, a->v->s, r);
        if (!c.scripts || s.chance(1, 3))
            break;
        const bool oom = in_oom;
        in_oom = false;
        H copy(vm->vm), res(vm->vm);
        std::string text = a->v->s;
        if (call("make_string", [&](tiro_error_t* e) { api::make_string(*vm, ts(text), copy.get(), e); }, TIRO_OK, text.size())) {
            as_name(copy, text, r);
            if (script("str_eq", {a->h, copy.get()}, res.get())) {
                SIM_CHECK(api::boolean_value(*vm, res), "value", "two strings with equal contents are different");
                probe("strings_compared");
            }
        }
        in_oom = oom;
        break;
    }
    case 5:
    case 6: { // equal contents are equal objects, whether or not one of them was used as a name
        Slot *a = slot_with(K::Str), *b = slot_with(K::Str), *r = slot_with(K::Record);
        if (!a || !c.scripts || a->v->s.size() > c.max_big)
            return;
        H copy(vm->vm), res(vm->vm);
        bool same = !b || b == a || s.chance(2, 3);
        std::string left = a->v->s, right = same ? left : b->v->s;
        trace("compare [%zu] [%zu]", left.size(), right.size());
        if (same) {
            if (!call("make_string", [&](tiro_error_t* e) { api::make_string(*vm, ts(right), copy.get(), e); }, TIRO_OK, right.size()))
                return;
            if (right.size() <= 400 && s.chance(1, 2))
                as_name(copy, right, r);
        }
        if (script("str_eq", {a->h, same ? copy.get() : b->h}, res.get())) {
            SIM_CHECK(api::boolean_value(*vm, res) == (left == right), "value", "two strings with %s contents are %s", left == right ? "equal" : "different",
                left == right ? "different" : "equal");
            probe("strings_compared");
        }
        break;
    }
    default: {
        std::string t = random_text(random_size(60));
        trace("string[%zu]", t.size());
        if (call("make_string", [&](tiro_error_t* e) { api::make_string(*vm, ts(t), d.h, e); }, TIRO_OK, t.size())) {
            d.v = make(K::Str);
            d.v->s = t;
        }
        break;
    }
    case 2: {
        Slot* a = slot_with(K::Str);
        if (!a)
            return;
        trace("cstr");
        char* p = nullptr;
        if (call("string_cstr", [&](tiro_error_t* e) { api::string_cstr(*vm, a->h, &p, e); })) {
            SIM_CHECK(p && a->v->s == p, "value", "string_cstr returned a different text");
            free(p);
        } else {
            SIM_CHECK(p == nullptr, "value", "string_cstr failed but assigned its result");
        }
        break;
    }
    case 3: {
        Slot *a = slot_with(K::Str), *b = slot_with(K::Str);
        if (!a || !b || !c.scripts || a->v->s.size() + b->v->s.size() > c.max_big * 2)
            return;
        trace("concat");
        Obj *x = a->v, *y = b->v;
        if (script("str_concat", {a->h, b->h}, d.h)) {
            std::string t = x->s + y->s;
            d.v = make(K::Str);
            d.v->s = t;
        }
        break;
    }
    }
}

void World::op_tuple() {
    Slot& d = dest_slot();
    Slot* a = slot_with(K::Tuple);
    u32 what = a ? s.pick(4) : 0;
    switch (what) {
    default: {
        size_t n = random_size(12) / (s.chance(1, 2) ? 1 : 3);
        trace("tuple[%zu]", n);
        if (call("make_tuple", [&](tiro_error_t* e) { api::make_tuple(*vm, n, d.h, e); }, TIRO_OK, n * 8)) {
            d.v = make(K::Tuple);
            d.v->items.resize(n);
        }
        break;
    }
    case 1:
    case 2: {
        size_t n = a->v->items.size();
        if (!n)
            return;
        size_t i = s.pick((u32) n);
        Slot& v = any_slot();
        trace("%s.%zu = %s", describe(a->v, 0).c_str(), i, describe(v.v, 0).c_str());
        if (call("tuple_set", [&](tiro_error_t* e) { api::tuple_set(*vm, a->h, i, v.h, e); }))
            a->v->items[i] = v.v;
        break;
    }
    case 3: {
        size_t n = a->v->items.size();
        if (!n)
            return;
        size_t i = s.pick((u32) n);
        trace("get %s.%zu", describe(a->v, 0).c_str(), i);
        Obj* want = a->v->items[i];
        if (call("tuple_get", [&](tiro_error_t* e) { api::tuple_get(*vm, a->h, i, d.h, e); }))
            d.v = want;
        break;
    }
    }
}

void World::op_array() {
    Slot& d = dest_slot();
    Slot* a = slot_with(K::Array);
    u32 what = a ? s.pick(12) : 0;
    Obj* o = a ? a->v : nullptr;
    auto script_op = [&](const char* fn, const std::vector<tiro_handle_t>& args, const std::function<void(Obj*)>& apply) {
        H r(vm->vm);
        std::vector<Obj*> before = o->items;
        if (script(fn, args, r.get())) {
            apply(o);
            return;
        }
        // The operation may or may not have happened.
        size_t n = api::array_size(*vm, a->h);
        std::vector<Obj*> old = o->items;
        apply(o);
        if (n != o->items.size())
            o->items = old;
        else if (n == old.size() && n) {
            // same size: look at the difference
            int budget = 1;
            for (size_t i = 0; i < n; ++i)
                if (old[i] != o->items[i]) {
                    H x(vm->vm);
                    Err e;
                    api::array_get(*vm, a->h, i, x.get(), &e);
                    expect_ok(e, "array_get");
                    if (api::value_kind(*vm, x) != kind_of(o->items[i]))
                        o->items = old;
                    else if (o->items[i] && kind_of(old[i]) == kind_of(o->items[i]))
                        o->items = before, api::array_set(*vm, a->h, i, d.h, &e), o->items[i] = d.v; // overwrite: both are acceptable
                    break;
                }
            (void) budget;
        }
        probe("either_or");
    };
    switch (what) {
    case 0: {
        size_t n = random_size(8);
        if (n > 20000)
            n = 20000 + s.pick(20000);
        trace("array(%zu)", n);
        if (call("make_array", [&](tiro_error_t* e) { api::make_array(*vm, n, d.h, e); }, TIRO_OK, n * 8))
            d.v = make(K::Array);
        break;
    }
    default: {
        u32 n = 1 + s.pick(s.chance(1, 4) ? 40 : 3);
        for (u32 i = 0; i < n; ++i) {
            Slot& v = any_slot();
            trace("push %s %s", describe(o, 0).c_str(), describe(v.v, 0).c_str());
            if (call("array_push", [&](tiro_error_t* e) { api::array_push(*vm, a->h, v.h, e); }))
                o->items.push_back(v.v);
        }
        break;
    }
    case 4:
        trace("pop %s", describe(o, 0).c_str());
        if (call("array_pop", [&](tiro_error_t* e) { api::array_pop(*vm, a->h, e); }, o->items.empty() ? TIRO_ERROR_OUT_OF_BOUNDS : TIRO_OK))
            o->items.pop_back();
        break;
    case 5: {
        if (o->items.empty())
            return;
        size_t i = s.pick((u32) o->items.size());
        Slot& v = any_slot();
        trace("%s[%zu] = %s", describe(o, 0).c_str(), i, describe(v.v, 0).c_str());
        if (call("array_set", [&](tiro_error_t* e) { api::array_set(*vm, a->h, i, v.h, e); }))
            o->items[i] = v.v;
        break;
    }
    case 6: {
        if (o->items.empty())
            return;
        size_t i = s.pick((u32) o->items.size());
        trace("get %s[%zu]", describe(o, 0).c_str(), i);
        Obj* want = o->items[i];
        if (call("array_get", [&](tiro_error_t* e) { api::array_get(*vm, a->h, i, d.h, e); }))
            d.v = want;
        break;
    }
    case 7:
        if (!s.chance(1, 3))
            return;
        trace("clear %s", describe(o, 0).c_str());
        if (call("array_clear", [&](tiro_error_t* e) { api::array_clear(*vm, a->h, e); }))
            o->items.clear();
        break;
    case 8: {
        if (!c.scripts)
            return;
        Slot& v = any_slot();
        trace("script append");
        Obj* x = v.v;
        script_op("a_append", {a->h, v.h}, [&](Obj* q) { q->items.push_back(x); });
        break;
    }
    case 9: {
        if (!c.scripts)
            return;
        trace("script dump array");
        H r(vm->vm);
        std::vector<Obj*> want = o->items;
        if (script("a_dump", {a->h}, r.get())) {
            Obj t;
            t.k = K::Array;
            t.items = want;
            int b = 60;
            verify(r, &t, 2, b, "iteration", "array iteration");
        }
        break;
    }
    case 10: {
        if (!c.scripts || o->items.empty())
            return;
        size_t i = s.pick((u32) o->items.size());
        H idx(vm->vm);
        Err e;
        api::make_integer(*vm, (i64) i, idx.get(), &e);
        if (!e.ok())
            return;
        trace("script get [%zu]", i);
        Obj* want = o->items[i];
        H r(vm->vm);
        if (script("a_get", {a->h, idx.get()}, r.get())) {
            int b = 10;
            verify(r, want, 1, b, "script access", strf("[%zu]", i));
        }
        break;
    }
    }
}

void World::op_record() {
    Slot& d = dest_slot();
    u32 what = s.pick(6);
    switch (what) {
    case 0: {
        u32 n = s.pick(6);
        std::vector<std::string> keys;
        H arr(vm->vm), k(vm->vm);
        trace("schema %u", n);
        if (!call("make_array", [&](tiro_error_t* e) { api::make_array(*vm, 0, arr.get(), e); }))
            return;
        for (u32 i = 0; i < n; ++i) {
            std::string key = strf("k%u", (i * 3 + s.pick(3)));
            if (!call("make_string", [&](tiro_error_t* e) { api::make_string(*vm, ts(key), k.get(), e); })
                || !call("array_push", [&](tiro_error_t* e) { api::array_push(*vm, arr.get(), k.get(), e); }))
                return;
            keys.push_back(key);
        }
        if (call("make_record_schema", [&](tiro_error_t* e) { api::make_record_schema(*vm, arr, d.h, e); })) {
            d.v = make(K::Schema);
            d.v->keys = keys;
        }
        break;
    }
    case 1: {
        Slot* a = slot_with(K::Schema);
        if (!a)
            return;
        trace("record");
        auto keys = a->v->keys;
        if (call("make_record", [&](tiro_error_t* e) { api::make_record(*vm, a->h, d.h, e); })) {
            d.v = make(K::Record);
            d.v->keys = keys;
            d.v->items.resize(keys.size());
        }
        break;
    }
    default: {
        Slot* a = slot_with(K::Record);
        if (!a)
            return;
        bool bad = a->v->keys.empty() || s.chance(1, 8);
        u32 i = bad ? 0 : s.pick((u32) a->v->keys.size());
        std::string key = bad ? "nokey" : a->v->keys[i];
        H k(vm->vm);
        if (!call("make_string", [&](tiro_error_t* e) { api::make_string(*vm, ts(key), k.get(), e); }))
            return;
        if (what == 2) {
            trace("get %s", key.c_str());
            Obj* want = bad ? nullptr : a->v->items[i];
            if (call("record_get", [&](tiro_error_t* e) { api::record_get(*vm, a->h, k, d.h, e); }, bad ? TIRO_ERROR_BAD_KEY : TIRO_OK))
                d.v = want;
        } else {
            Slot& v = any_slot();
            trace("set %s %s", key.c_str(), describe(v.v, 0).c_str());
            if (call("record_set", [&](tiro_error_t* e) { api::record_set(*vm, a->h, k, v.h, e); }, bad ? TIRO_ERROR_BAD_KEY : TIRO_OK))
                a->v->items[i] = v.v;
        }
        break;
    }
    }
}

void World::op_result() {
    Slot& d = dest_slot();
    Slot* a = slot_with(K::Result);
    if (!a || s.pick(2) == 0) {
        bool okay = s.pick(2);
        Slot& v = any_slot();
        Obj* x = v.v;
        trace("result %d %s", okay, describe(x, 0).c_str());
        if (call("make_result", [&](tiro_error_t* e) {
                if (okay)
                    api::make_success(*vm, v.h, d.h, e);
                else
                    api::make_error(*vm, v.h, d.h, e);
            })) {
            d.v = make(K::Result);
            d.v->b = okay;
            d.v->items.push_back(x);
        }
    } else {
        bool okay = s.pick(2);
        Obj* o = a->v;
        trace("result access");
        if (call("result access", [&](tiro_error_t* e) {
                if (okay)
                    api::result_value(*vm, a->h, d.h, e);
                else
                    api::result_error(*vm, a->h, d.h, e);
            }, o->b == okay ? TIRO_OK : TIRO_ERROR_BAD_STATE))
            d.v = o->items[0];
    }
}

void World::op_buffer() {
    Slot& d = dest_slot();
    Slot* a = slot_with(K::Buffer);
    if (!a || s.pick(2) == 0) {
        size_t n = random_size(300);
        trace("buffer[%zu]", n);
        if (call("make_buffer", [&](tiro_error_t* e) { api::make_buffer(*vm, n, d.h, e); }, TIRO_OK, n)) {
            d.v = make(K::Buffer);
            d.v->s.assign(n, '\0');
        }
    } else {
        size_t n = a->v->s.size();
        trace("write buffer[%zu]", n);
        SIM_CHECK(api::buffer_is_pinned(*vm, a->h), "value", "a buffer is not pinned");
        auto* p = api::buffer_data(*vm, a->h);
        if (n) {
            size_t at = s.pick((u32) n), len = std::min<size_t>(n - at, 1 + s.pick(64));
            for (size_t i = 0; i < len; ++i) {
                p[at + i] = (unsigned char) (at * 3 + i);
                a->v->s[at + i] = (char) (unsigned char) (at * 3 + i);
            }
            p[0] = 1, p[n - 1] = 2;
            a->v->s[0] = 1;
            a->v->s[n - 1] = 2;
        }
    }
}

void World::op_native() {
    Slot& d = dest_slot();
    static u64 counter = 0;
    size_t n = 8 + random_size(200);
    const tiro_native_type_t* type = std::vector<const tiro_native_type_t*>{&type_fin, &type_fin1, &type_plain}[s.pick(3)];
    trace("native[%zu] %s", n, type->name.data);
    if (call("make_native", [&](tiro_error_t* e) { api::make_native(*vm, type, n, d.h, e); }, TIRO_OK, n)) {
        Obj* o = make(K::Native);
        o->id = ++counter * 1000 + o->id % 1000; // unique in the process
        o->size = n;
        NativeInfo info;
        info.owner = this;
        info.size = n;
        info.has_finalizer = type->finalizer != nullptr;
        natives_of()[o->id] = info;
        d.v = o;
        auto* p = static_cast<unsigned char*>(api::native_data(*vm, d.h));
        SIM_CHECK((uintptr_t) p % type->alignment == 0, "native-data", "native data is not aligned to %zu", type->alignment);
        SIM_CHECK(api::native_type_descriptor(*vm, d.h) == type, "native-data", "native object has the wrong type descriptor");
        memcpy(p, &o->id, 8);
        for (size_t i = 8; i < n; ++i)
            p[i] = pattern(o->id, i);
    }
}

bool World::key_equal(Obj* a, Obj* b) {
    K ka = a ? a->k : K::Null, kb = b ? b->k : K::Null;
    if (ka != kb)
        return false;
    switch (ka) {
    case K::Null: return true;
    case K::Bool: return a->b == b->b;
    case K::Int: return a->i == b->i;
    case K::Float: return a->d == b->d;
    case K::Str: return a->s == b->s;
    default: return a == b;
    }
}

void World::op_map() {
    Slot& d = dest_slot();
    Slot* a = slot_with(K::Map);
    u32 what = a ? s.pick(14) : 0;
    if (what == 0) {
        trace("new map");
        if (script("m_new", {}, d.h))
            d.v = make(K::Map);
        return;
    }
    Obj* o = a->v;
    // key: a small integer, or whatever is in some slot
    H kh(vm->vm), r(vm->vm);
    Obj* key;
    if (s.chance(3, 4)) {
        i64 v = s.pick(40);
        Err e;
        if (s.pick(3) == 0) {
            key = make(K::Str);
            key->s = strf("key%lld", (long long) v % 13);
            api::make_string(*vm, ts(key->s), kh.get(), &e);
        } else {
            key = make(K::Int);
            key->i = v;
            api::make_integer(*vm, v, kh.get(), &e);
        }
        if (!e.ok() && c.limit && e.code() == TIRO_ERROR_ALLOC)
            return;
        expect_ok(e, "make key");
    } else {
        Slot& ks = any_slot();
        if (ks.v && ks.v->k == K::Float)
            return;
        key = ks.v;
        Err e;
        api::value_copy(*vm, ks.h, kh.get(), &e);
        expect_ok(e, "value_copy");
    }
    auto find = [&]() {
        for (size_t i = 0; i < o->entries.size(); ++i)
            if (key_equal(o->entries[i].first, key))
                return (int) i;
        return -1;
    };
    int at = find();
    auto undecided = [&](const std::function<void()>& apply) {
        // refused memory: either nothing or everything happened
        auto old = o->entries;
        apply();
        H size(vm->vm);
        bool oom = in_oom;
        in_oom = false;
        if (script("m_dump", {a->h}, size.get())) {
            size_t n = api::array_size(*vm, size) / 2;
            SIM_CHECK(n == old.size() || n == o->entries.size(), "torn", "a map has %zu entries after an interrupted operation, it had %zu", n, old.size());
            if (old.size() != o->entries.size()) {
                if (n == old.size())
                    o->entries = old;
            } else if (at >= 0) {
                // update of a value: make it definite
                o->entries = old;
                H idx(vm->vm);
                if (script("m_set", {a->h, kh.get(), t1->get()}, idx.get()))
                    o->entries[at].second = nullptr;
                else
                    SIM_CHECK(c.limit, "script", "retry failed");
            }
        } else {
            SIM_CHECK(c.limit, "script", "inspection failed");
            o->entries = old;
        }
        in_oom = oom;
        probe("either_or");
    };
    switch (what) {
    default: {
        u32 n = s.chance(1, 5) ? 1 + s.pick(40) : 1;
        Slot& v = any_slot();
        Obj* x = v.v;
        trace("map %llu set %s %s x%u", (unsigned long long) o->id, describe(key, 0).c_str(), describe(x, 0).c_str(), n);
        auto apply = [&]() {
            if (at >= 0)
                o->entries[at].second = x;
            else
                o->entries.emplace_back(key, x);
        };
        if (script("m_set", {a->h, kh.get(), v.h}, r.get()))
            apply();
        else {
            undecided(apply);
            return;
        }
        for (u32 i = 1; i < n; ++i) { // a row of integer keys
            key = make(K::Int);
            key->i = 100 + s.pick(200);
            Err e;
            api::make_integer(*vm, key->i, kh.get(), &e);
            expect_ok(e, "make_integer");
            at = find();
            if (!script("m_set", {a->h, kh.get(), v.h}, r.get())) {
                undecided(apply);
                return;
            }
            apply();
        }
        break;
    }
    case 6:
    case 7: {
        trace("map %llu get %s", (unsigned long long) o->id, describe(key, 0).c_str());
        Obj* want = at >= 0 ? o->entries[at].second : nullptr;
        if (script("m_get", {a->h, kh.get()}, r.get())) {
            int b = 5;
            verify(r, want, 1, b, "map access", strf("[%s]", describe(key, 0).c_str()));
            Err e;
            api::value_copy(*vm, r, d.h, &e);
            d.v = want;
        }
        break;
    }
    case 8: {
        trace("map has %s", describe(key, 0).c_str());
        if (script("m_has", {a->h, kh.get()}, r.get()))
            SIM_CHECK(api::boolean_value(*vm, r) == (at >= 0), "value", "map.contains(%s) is wrong", describe(key, 0).c_str());
        if (script("m_size", {a->h}, r.get()))
            SIM_CHECK(api::integer_value(*vm, r) == (i64) o->entries.size(), "value", "map.size() is %lld, expected %zu",
                (long long) api::integer_value(*vm, r), o->entries.size());
        break;
    }
    case 9:
    case 10:
    case 11: {
        if (at < 0 && !o->entries.empty()) { // prefer existing keys: first, last or any
            u32 which = s.pick(3);
            at = which == 0 ? 0 : which == 1 ? (int) o->entries.size() - 1 : (int) s.pick((u32) o->entries.size());
            Obj* k2 = o->entries[at].first;
            Err e;
            if (!k2)
                api::make_null(*vm, kh.get());
            else if (k2->k == K::Int)
                api::make_integer(*vm, k2->i, kh.get(), &e);
            else if (k2->k == K::Str)
                api::make_string(*vm, ts(k2->s), kh.get(), &e);
            else
                return;
            if (!e.ok())
                return;
            key = k2;
        }
        trace("map remove %s", describe(key, 0).c_str());
        auto apply = [&]() {
            if (at >= 0)
                o->entries.erase(o->entries.begin() + at);
        };
        if (script("m_remove", {a->h, kh.get()}, r.get()))
            apply();
        else
            undecided(apply);
        break;
    }
    case 12:
        if (!s.chance(1, 3))
            return;
        trace("map clear");
        if (script("m_clear", {a->h}, r.get()))
            o->entries.clear();
        else
            undecided([&]() { o->entries.clear(); });
        break;
    case 13: {
        trace("map keys");
        Obj t;
        t.k = K::Array;
        bool vals = s.pick(2);
        for (auto& [k, v] : o->entries)
            t.items.push_back(vals ? v : k);
        if (script(vals ? "m_values" : "m_keys", {a->h}, r.get())) {
            int b = 100;
            verify(r, &t, 2, b, "iteration", vals ? "values()" : "keys()");
        }
        break;
    }
    }
}

void World::op_set() {
    Slot& d = dest_slot();
    Slot* a = slot_with(K::Set);
    u32 what = a ? s.pick(9) : 0;
    if (what == 0) {
        trace("new set");
        if (script("s_new", {}, d.h))
            d.v = make(K::Set);
        return;
    }
    Obj* o = a->v;
    H kh(vm->vm), r(vm->vm);
    Obj* key = make(K::Int);
    key->i = s.pick(30);
    Err e;
    api::make_integer(*vm, key->i, kh.get(), &e);
    expect_ok(e, "make_integer");
    int at = -1;
    for (size_t i = 0; i < o->entries.size(); ++i)
        if (key_equal(o->entries[i].first, key))
            at = (int) i;
    auto undecided = [&](const std::function<void()>& apply) {
        auto old = o->entries;
        apply();
        bool oom = in_oom;
        in_oom = false;
        if (script("s_dump", {a->h}, r.get())) {
            size_t n = api::array_size(*vm, r);
            SIM_CHECK(n == old.size() || n == o->entries.size(), "torn", "a set has %zu entries after an interrupted operation, it had %zu", n, old.size());
            if (n == old.size())
                o->entries = old;
        } else {
            SIM_CHECK(c.limit, "script", "inspection failed");
            o->entries = old;
        }
        in_oom = oom;
    };
    switch (what) {
    default: {
        trace("set insert %lld", (long long) key->i);
        auto apply = [&]() {
            if (at < 0)
                o->entries.emplace_back(key, nullptr);
        };
        if (script("s_insert", {a->h, kh.get()}, r.get())) {
            SIM_CHECK(api::boolean_value(*vm, r) == (at < 0), "value", "set.insert(%lld) returned %d", (long long) key->i, at >= 0);
            apply();
        } else
            undecided(apply);
        break;
    }
    case 5:
    case 6: {
        trace("set remove %lld", (long long) key->i);
        auto apply = [&]() {
            if (at >= 0)
                o->entries.erase(o->entries.begin() + at);
        };
        if (script("s_remove", {a->h, kh.get()}, r.get()))
            apply();
        else
            undecided(apply);
        break;
    }
    case 7:
        trace("set has %lld", (long long) key->i);
        if (script("s_has", {a->h, kh.get()}, r.get()))
            SIM_CHECK(api::boolean_value(*vm, r) == (at >= 0), "value", "set.contains(%lld) is wrong", (long long) key->i);
        if (script("s_size", {a->h}, r.get()))
            SIM_CHECK(api::integer_value(*vm, r) == (i64) o->entries.size(), "value", "set.size() is wrong");
        break;
    case 8:
        if (!s.chance(1, 3))
            return;
        trace("set clear");
        if (script("s_clear", {a->h}, r.get()))
            o->entries.clear();
        else
            undecided([&]() { o->entries.clear(); });
        break;
    }
}

void World::op_builder() {
    Slot& d = dest_slot();
    Slot* a = slot_with(K::Builder);
    u32 what = a ? s.pick(6) : 0;
    if (what == 0) {
        trace("new builder");
        if (script("b_new", {}, d.h))
            d.v = make(K::Builder);
        return;
    }
    Obj* o = a->v;
    H r(vm->vm);
    auto undecided = [&](const std::function<void()>& apply) {
        std::string old = o->s;
        apply();
        bool oom = in_oom;
        in_oom = false;
        if (script("b_size", {a->h}, r.get())) {
            size_t n = (size_t) api::integer_value(*vm, r);
            SIM_CHECK(n == old.size() || n == o->s.size(), "torn", "a builder has %zu bytes after an interrupted operation, it had %zu", n, old.size());
            if (n == old.size())
                o->s = old;
        } else {
            SIM_CHECK(c.limit, "script", "inspection failed");
            o->s = old;
        }
        in_oom = oom;
    };
    switch (what) {
    default: {
        Slot* x = slot_with(K::Str);
        if (!x || o->s.size() + x->v->s.size() > c.max_big * 2)
            return;
        std::string t = x->v->s;
        trace("builder append %zu", t.size());
        if (script("b_append", {a->h, x->h}, r.get()))
            o->s += t;
        else
            undecided([&]() { o->s += t; });
        break;
    }
    case 4:
        trace("builder size");
        if (script("b_size", {a->h}, r.get()))
            SIM_CHECK(api::integer_value(*vm, r) == (i64) o->s.size(), "value", "builder.size() is wrong");
        if (script("b_string", {a->h}, d.h)) {
            std::string t = o->s;
            d.v = make(K::Str);
            d.v->s = t;
        }
        break;
    case 5:
        trace("builder clear");
        if (script("b_clear", {a->h}, r.get()))
            o->s.clear();
        else
            undecided([&]() { o->s.clear(); });
        break;
    }
}

void World::op_garbage() {
    u32 n = 1 + s.pick(30);
    u32 kind = s.pick(5);
    size_t size = random_size(400);
    if (size > 1000)
        n = 1 + n / 8;
    trace("garbage kind %u x%u size %zu", kind, n, size);
    bool oom = in_oom;
    for (u32 i = 0; i < n; ++i) {
        in_oom = oom && i == n / 2;
        bool ok = call("garbage", [&](tiro_error_t* e) {
            switch (kind) {
            case 0: api::make_buffer(*vm, size, t2->get(), e); break;
            case 1: api::make_tuple(*vm, size / 8, t2->get(), e); break;
            case 2: api::make_string(*vm, ts(std::string(size, 'g')), t2->get(), e); break;
            case 3: api::make_array(*vm, size / 8, t2->get(), e); break;
            default:
                api::make_native(*vm, &type_fin, 8 + size, t2->get(), e);
                if (api::value_kind(*vm, t2->get()) == TIRO_KIND_NATIVE)
                    memset(api::native_data(*vm, t2->get()), 0, 8);
                break;
            }
        });
        if (!ok)
            break;
    }
    in_oom = oom;
    api::make_null(*vm, t2->get());
    stat("garbage_objects", n);
}

void World::op_misuse() {
    Slot& a = any_slot();
    Slot& d = dest_slot();
    Obj* o = a.v;
    const K k = o ? o->k : K::Null;
    const bool null_handle = s.chance(1, 5);
    const bool no_result = s.chance(1, 8);
    tiro_handle_t h = null_handle ? nullptr : a.h;
    tiro_handle_t r = no_result ? nullptr : d.h;
    const bool bad_arg = null_handle || no_result;
    const u32 what = s.pick(22);
    trace("misuse %u on %s%s%s", what, describe(o, 0).c_str(), null_handle ? " null handle" : "", no_result ? " null result" : "");
    auto result = [&](bool type_ok, tiro_errc_t otherwise = TIRO_OK) {
        return bad_arg ? TIRO_ERROR_BAD_ARG : !type_ok ? TIRO_ERROR_BAD_TYPE : otherwise;
    };
    auto in_place = [&](bool type_ok, tiro_errc_t otherwise = TIRO_OK) {
        return null_handle ? TIRO_ERROR_BAD_ARG : !type_ok ? TIRO_ERROR_BAD_TYPE : otherwise;
    };
    fault("api_misuse");
    switch (what) {
    case 0: {
        size_t n = k == K::Tuple ? o->items.size() : 0;
        size_t i = n + s.pick(3) * (s.chance(1, 2) ? 1 : ((size_t) 1 << 61));
        call("tuple_get", [&](tiro_error_t* e) { api::tuple_get(*vm, h, i, r, e); }, result(k == K::Tuple, TIRO_ERROR_OUT_OF_BOUNDS));
        break;
    }
    case 1: {
        size_t n = k == K::Tuple ? o->items.size() : 0;
        call("tuple_set", [&](tiro_error_t* e) { api::tuple_set(*vm, h, n + s.pick(3), d.h, e); }, in_place(k == K::Tuple, TIRO_ERROR_OUT_OF_BOUNDS));
        break;
    }
    case 2: {
        size_t n = k == K::Array ? o->items.size() : 0;
        call("array_get", [&](tiro_error_t* e) { api::array_get(*vm, h, n + s.pick(3), r, e); }, result(k == K::Array, TIRO_ERROR_OUT_OF_BOUNDS));
        break;
    }
    case 3: {
        size_t n = k == K::Array ? o->items.size() : 0;
        call("array_set", [&](tiro_error_t* e) { api::array_set(*vm, h, n + s.pick(3), d.h, e); }, in_place(k == K::Array, TIRO_ERROR_OUT_OF_BOUNDS));
        break;
    }
    case 4:
        if (k == K::Array && !null_handle)
            return;
        call("array_push", [&](tiro_error_t* e) { api::array_push(*vm, h, d.h, e); }, in_place(false));
        call("array_pop", [&](tiro_error_t* e) { api::array_pop(*vm, h, e); }, in_place(false));
        call("array_clear", [&](tiro_error_t* e) { api::array_clear(*vm, h, e); }, in_place(false));
        break;
    case 5:
        if (k == K::Str && !bad_arg)
            return;
        {
            tiro_string_t st{"untouched", 9};
            call("string_value", [&](tiro_error_t* e) { api::string_value(*vm, h, no_result ? (tiro_string_t*) nullptr : &st, e); }, result(k == K::Str));
            SIM_CHECK(str(st) == "untouched", "misuse-effect", "string_value failed but changed its result");
            char* p = nullptr;
            call("string_cstr", [&](tiro_error_t* e) { api::string_cstr(*vm, h, no_result ? (char**) nullptr : &p, e); }, result(k == K::Str));
            SIM_CHECK(!p, "misuse-effect", "string_cstr failed but changed its result");
        }
        break;
    case 6:
        if (k == K::Schema && !bad_arg)
            return;
        call("make_record", [&](tiro_error_t* e) { api::make_record(*vm, h, r, e); }, result(k == K::Schema));
        break;
    case 7:
        if (k == K::Array && !bad_arg) {
            bool strings = true;
            for (auto* x : o->items) {
                strings &= x && x->k == K::Str;
                if (c.fixed_names && x && x->k == K::Str)
                    return; // interned before the next element is refused
            }
            if (strings)
                return;
        }
        call("make_record_schema", [&](tiro_error_t* e) { api::make_record_schema(*vm, h, r, e); }, result(false));
        break;
    case 8:
        if (k == K::Record && !bad_arg)
            return;
        call("record_keys", [&](tiro_error_t* e) { api::record_keys(*vm, h, r, e); }, result(k == K::Record));
        break;
    case 9: { // key is whatever is there
        Slot& key = any_slot();
        K kk = key.v ? key.v->k : K::Null;
        bool bad_key = kk == K::Str;
        if (k == K::Record && bad_key)
            for (auto& x : o->keys)
                if (x == key.v->s)
                    return;
        call("record_get", [&](tiro_error_t* e) { api::record_get(*vm, h, key.h, r, e); },
            bad_arg ? TIRO_ERROR_BAD_ARG : k != K::Record || !bad_key ? TIRO_ERROR_BAD_TYPE : TIRO_ERROR_BAD_KEY);
        call("record_set", [&](tiro_error_t* e) { api::record_set(*vm, h, key.h, d.h, e); },
            null_handle ? TIRO_ERROR_BAD_ARG : k != K::Record || !bad_key ? TIRO_ERROR_BAD_TYPE : TIRO_ERROR_BAD_KEY);
        break;
    }
    case 10: {
        bool value = s.pick(2);
        if (k == K::Result && o->b == value && !bad_arg)
            return;
        call("result access", [&](tiro_error_t* e) {
            if (value)
                api::result_value(*vm, h, r, e);
            else
                api::result_error(*vm, h, r, e);
        }, result(k == K::Result, TIRO_ERROR_BAD_STATE));
        break;
    }
    case 11:
        call("exception_message", [&](tiro_error_t* e) { api::exception_message(*vm, h, r, e); }, result(false));
        call("exception_trace", [&](tiro_error_t* e) { api::exception_trace(*vm, h, r, e); }, result(false));
        break;
    case 12:
        if (k == K::Func && !bad_arg)
            return;
        call("make_coroutine", [&](tiro_error_t* e) { api::make_coroutine(*vm, h, nullptr, r, e); }, result(k == K::Func));
        break;
    case 13:
        call("coroutine_start", [&](tiro_error_t* e) { api::coroutine_start(*vm, h, e); }, in_place(false));
        call("coroutine_result", [&](tiro_error_t* e) { api::coroutine_result(*vm, h, r, e); }, result(false));
        SIM_CHECK(!api::coroutine_started(*vm, h) && !api::coroutine_completed(*vm, h), "misuse-effect", "not a coroutine but started or completed");
        break;
    case 14:
        call("vm_load_module", [&](tiro_error_t* e) { api::vm_load_module(*vm, h, e); }, in_place(false));
        call("module_get_export", [&](tiro_error_t* e) { api::module_get_export(*vm, h, ts("x"), r, e); }, result(false));
        break;
    case 15:
        call("type_name", [&](tiro_error_t* e) { api::type_name(*vm, h, r, e); }, result(false));
        break;
    case 16:
        if (h) {
            // accessors without an error channel
            SIM_CHECK(k == K::Tuple || api::tuple_size(*vm, h) == 0, "misuse-effect", "tuple_size of %s", describe(o).c_str());
            SIM_CHECK(k == K::Array || api::array_size(*vm, h) == 0, "misuse-effect", "array_size of %s", describe(o).c_str());
            SIM_CHECK(k == K::Buffer || (api::buffer_size(*vm, h) == 0 && !api::buffer_data(*vm, h) && !api::buffer_is_pinned(*vm, h)), "misuse-effect",
                "buffer accessors of %s", describe(o).c_str());
            SIM_CHECK(k == K::Native || (api::native_size(*vm, h) == 0 && !api::native_data(*vm, h) && !api::native_type_descriptor(*vm, h)),
                "misuse-effect", "native accessors of %s", describe(o).c_str());
            SIM_CHECK(k == K::Int || k == K::Float || api::integer_value(*vm, h) == 0, "misuse-effect", "integer_value of %s", describe(o).c_str());
            SIM_CHECK(k == K::Int || k == K::Float || api::float_value(*vm, h) == 0, "misuse-effect", "float_value of %s", describe(o).c_str());
            SIM_CHECK(k == K::Result || (!api::result_is_error(*vm, h) && !api::result_is_success(*vm, h)), "misuse-effect", "result accessors");
            SIM_CHECK(api::boolean_value(*vm, h) == (o && !(k == K::Bool && !o->b)), "misuse-effect", "boolean_value of %s", describe(o).c_str());
        } else {
            SIM_CHECK(api::tuple_size(*vm, h) == 0 && api::array_size(*vm, h) == 0 && api::buffer_size(*vm, h) == 0 && api::native_size(*vm, h) == 0
                          && api::integer_value(*vm, h) == 0 && api::float_value(*vm, h) == 0 && !api::buffer_data(*vm, h) && !api::native_data(*vm, h)
                          && !api::boolean_value(*vm, h) && api::value_kind(*vm, h) == TIRO_KIND_INVALID,
                "misuse-effect", "accessors of a null handle");
            api::global_free(h);
        }
        break;
    case 17:
        if (s.pick(2))
            call("vm_get_export", [&](tiro_error_t* e) { api::vm_get_export(*vm, ts("nomodule"), ts("x"), r, e); },
                no_result ? TIRO_ERROR_BAD_ARG : TIRO_ERROR_MODULE_NOT_FOUND);
        else
            call("vm_get_export", [&](tiro_error_t* e) { api::vm_get_export(*vm, ts("std"), ts("nonexistent"), r, e); },
                no_result ? TIRO_ERROR_BAD_ARG : TIRO_ERROR_EXPORT_NOT_FOUND);
        break;
    case 18: {
        tiro_native_type_t t = type_fin;
        u32 w = s.pick(3);
        if (w == 1)
            t.alignment = 3;
        call("make_native", [&](tiro_error_t* e) { api::make_native(*vm, w == 2 ? nullptr : &t, w == 0 ? 0 : 16, r, e); }, TIRO_ERROR_BAD_ARG);
        break;
    }
    case 19: {
        auto f = [](tiro_vm_t, tiro_sync_frame_t) {};
        tiro_sync_function_t fn = f;
        u32 w = s.pick(3);
        if (w == 0 && k != K::Str && !bad_arg)
            call("make_sync_function", [&](tiro_error_t* e) { api::make_sync_function(*vm, h, fn, 1, nullptr, r, e); }, TIRO_ERROR_BAD_TYPE);
        if (w == 1 && k == K::Str)
            call("make_sync_function", [&](tiro_error_t* e) { api::make_sync_function(*vm, h, fn, 1025 + s.pick(1000), nullptr, r, e); }, TIRO_ERROR_BAD_ARG);
        if (w == 2)
            call("make_sync_function", [&](tiro_error_t* e) { api::make_sync_function(*vm, h, nullptr, 1, nullptr, r, e); }, TIRO_ERROR_BAD_ARG);
        break;
    }
    case 20: {
        // An error slot that is already occupied keeps its first error.
        tiro_error_t first = nullptr;
        api::tuple_get(*vm, nullptr, 0, nullptr, &first);
        SIM_CHECK(first && api::error_errc(first) == TIRO_ERROR_BAD_ARG, "wrong-error", "tuple_get(null) reported %s", first ? tiro_error_name(first) : "nothing");
        tiro_error_t same = first;
        api::vm_get_export(*vm, ts("nomodule"), ts("x"), d.h, &first);
        SIM_CHECK(first == same && api::error_errc(first) == TIRO_ERROR_BAD_ARG, "error-overwritten", "an error that was already reported was replaced");
        api::error_free(first);
        break;
    }
    default: {
        tiro_vm_settings_t st;
        api::vm_settings_init(&st);
        st.page_size = std::vector<size_t>{1, 1000, 65537, (1 << 15), (1 << 25), (1 << 16) + (1 << 17)}[s.pick(6)];
        tiro_vm_t v = nullptr;
        call("vm_new", [&](tiro_error_t* e) { v = api::vm_new(&st, e); }, TIRO_ERROR_BAD_ARG);
        SIM_CHECK(!v, "misuse-effect", "vm_new failed but returned a machine");
        break;
    }
    }
    int b = 20;
    verify(d.h, d.v, 1, b, "after misuse", "result handle");
    verify(a.h, a.v, 2, b, "after misuse", "argument");
}

} // namespace sim::world
