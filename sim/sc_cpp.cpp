// The C++ interface (include/tiropp): an application that uses handles, native classes, functions, coroutines with
// callbacks, tokens and compilers through it, with objects whose life is observed. Exceptions are thrown where an application
// may throw them.
#define TIRO_HANDLE_CHECKS 1
#include "host.hpp"

#include "tiropp/api.hpp"

#include <algorithm>
#include <any>
#include <optional>
using namespace sim;

namespace {

struct World;
World* g = nullptr;

// Calls into tiro (including the inline code of the interface).
#define T(...) ([&]() -> decltype(auto) { InTiro in_; return __VA_ARGS__; }())

// ------------------------------------------------------------------ observed life
struct Life {
    bool alive = false;
    u32 begun = 0, ended = 0;
    bool held = false; // the model knows that it must not end
    std::string what;
};
std::map<u32, Life>* lives = nullptr;
u32 next_life = 0;
u32 new_life(const std::string& what) {
    InHost h;
    const u32 id = ++next_life;
    (*lives)[id].what = what;
    return id;
}
void life_begins(u32 id) {
    InHost h;
    auto& l = (*lives)[id];
    SIM_CHECK(!l.alive && !l.ended, "life", "object %u (%s) begins twice", id, l.what.c_str());
    l.alive = true;
    ++l.begun;
}
void life_ends(u32 id);

struct Failure : std::exception {
    std::string text;
    explicit Failure(std::string t)
        : text(std::move(t)) {}
    const char* what() const noexcept override { return text.c_str(); }
};
struct Strange {}; // not a std::exception

template<size_t N, size_t A = 8>
struct alignas(A) Tracked {
    u32 id = 0;
    char* memory = nullptr; // owned
    char pad[N];
    explicit Tracked(u32 id_)
        : id(id_) {
        memory = new char[40];
        life_begins(id);
        memset(pad, (int) (id & 0xff), N);
        memset(memory, (int) (id & 0xff), 40);
    }
    Tracked(Tracked&& o) noexcept
        : id(std::exchange(o.id, 0))
        , memory(std::exchange(o.memory, nullptr)) {
        memcpy(pad, o.pad, N);
    }
    Tracked(const Tracked&) = delete;
    ~Tracked() {
        if (id) {
            check();
            life_ends(id);
        }
        id = 0;
        delete[] std::exchange(memory, nullptr);
    }
    void check() const {
        for (size_t i = 0; i < N; ++i)
            SIM_CHECK(pad[i] == (char) (id & 0xff), "corrupt", "byte %zu of object %u is damaged", i, id);
        for (size_t i = 0; i < 40; ++i)
            SIM_CHECK(memory[i] == (char) (id & 0xff), "corrupt", "memory of object %u is damaged", id);
    }
};
using NA = Tracked<1>;
using NB = Tracked<1200>;
using NC = Tracked<30000>;
using ND = Tracked<40, 16>;
constexpr u32 NATIVE_TYPES = 4;

// ------------------------------------------------------------------ model
struct Box;
struct Val {
    tiro::value_kind k = tiro::value_kind::null;
    i64 i = 0;
    std::string s;
    std::shared_ptr<Box> box;
};
struct Box {
    std::vector<Val> items;
    std::string bytes; // buffer
    u32 type = 0;      // native
    u32 life = 0;
    bool destroyed = false;
    bool flag = false; // result
    ~Box() {
        if (life && lives)
            (*lives)[life].held = false;
    }
};
using K = tiro::value_kind;
std::string show(const Val& v) {
    switch (v.k) {
    case K::null: return "null";
    case K::boolean: return v.i ? "true" : "false";
    case K::integer: return strf("%lld", (long long) v.i);
    case K::float_: return strf("%lld.5", (long long) v.i);
    case K::string: return strf("'%.30s'", v.s.c_str());
    default: return strf("%s/%zu", tiro::to_string(v.k), v.box ? v.box->items.size() : 0);
    }
}
Val vint(i64 i) { return {K::integer, i, {}, {}}; }
Val vstr(std::string s) { return {K::string, 0, std::move(s), {}}; }

struct Outcome {
    bool known = false;
    bool panic = false;
    Val v;
    std::string text;
};

struct Task {
    u32 id = 0;
    u32 machine = 0;
    u32 fn = 0; // 0 sync 1 async 2 resumable
    u32 mode = 0; // 0 call 1 guarded 2 chain
    u32 length = 1;
    Val x;
    bool started = false, waiting = false, done = false, lost = false;
    std::vector<Outcome> outcomes;
    u32 callback_life = 0;
    u32 callbacks = 0;
    // resumable
    int state = 0;
    u32 invoked = 0;
};
struct Waiter {
    u32 task;
    tiro::async_token token;
};
struct Machine {
    u32 id = 0;
    std::optional<tiro::vm> v;
    tiro::vm* vm = nullptr; // (remains while it is destroyed)
    void* heap = nullptr;
    std::vector<std::string> printed, expected_print;
    std::optional<tiro::function> sync, async, res, call, guarded, chain, print;
    bool closing = false;
};
struct Slot {
    std::optional<tiro::handle> h;
    u32 machine = 0;
    bool valid = false;
    Val v;
};

struct World {
    Stream& s;
    std::vector<std::unique_ptr<Machine>> machines;
    std::vector<Slot> slots;
    std::map<u32, Task> tasks;
    std::vector<Waiter> waiters;
    tiro::native_type<NA> ta{"NA"};
    tiro::native_type<NB> tb{"NB"};
    tiro::native_type<NC> tc{"NC"};
    tiro::native_type<ND> td{"ND"};
    u32 next_task = 1;
    bool refuse = false;
    u64 refusals = 0;
    i64 heap_fail = -1;
    u32 depth = 0;
    u32 focus = 0; // 1 natives 2 callbacks 3 tokens 4 handles

    explicit World(Stream& s)
        : s(s) {}

    Machine& machine(u32 i) { return *machines[i]; }

    // ------------------------------------------------------------ refusals
    // Returns true if `f` failed because memory was refused; then it must not have had an effect.
    template<typename F>
    bool refused(F&& f) {
        const bool armed = refuse && s.chance(1, 3);
        const u64 before = mem.failed;
        if (armed) {
            if (s.chance(1, 2)) {
                oom_count = s.chance(1, 2) ? 1 : -1;
                oom_after = (i64) s.pick(6);
            } else {
                heap_fail = (i64) s.pick(3);
            }
        }
        bool caught = false;
        std::string text;
        try {
            InTiro in;
            f();
        } catch (const tiro::api_error& e) {
            InHost h;
            oom_reset();
            if (e.code() != tiro::api_errc::alloc)
                fail("wrong-error", "an operation fails with %s", e.what());
            text = e.what();
            caught = true;
        } catch (const std::bad_alloc&) {
            InHost h;
            oom_reset();
            text = "bad_alloc";
            caught = true;
        }
        oom_reset();
        const bool fired = mem.failed > before || heap_fail == -2;
        heap_fail = -1;
        if (fired)
            fault("refused_allocation");
        SIM_CHECK(!caught || fired, "wrong-error", "an operation fails although no memory was refused: %s", text.c_str());
        if (caught)
            ++refusals;
        return caught;
    }
    // `f` must report this error and nothing else.
    template<typename F>
    void fails(const char* what, F&& f, tiro::api_errc code) {
        try {
            InTiro in;
            f();
        } catch (const tiro::api_error& e) {
            InHost h;
            SIM_CHECK(e.code() == code, "wrong-error", "%s fails with %s", what, e.what());
            SIM_CHECK(e.message()[0] && e.name()[0] && strstr(e.what(), e.name()), "wrong-error", "%s fails with an incomplete error %s", what, e.what());
            return;
        } catch (const std::bad_alloc&) {
            fail("wrong-error", "%s fails with bad_alloc", what);
        }
        fail("wrong-error", "%s does not fail", what);
    }

    template<typename F>
    auto with_type(const Box& b, F&& f) {
        switch (b.type) {
        case 0: return f(ta, (NA*) nullptr);
        case 1: return f(tb, (NB*) nullptr);
        case 2: return f(tc, (NC*) nullptr);
        default: return f(td, (ND*) nullptr);
        }
    }
    // ------------------------------------------------------------ values
    std::string differs(Machine& m, const Val& v, const tiro::handle& h, int depth = 2) {
        tiro::vm& vm = *m.v;
        const auto kind = T(h.kind());
        if (kind != v.k)
            return strf("%s is expected, but it is a %s", show(v).c_str(), tiro::to_string(kind));
        auto no = [&](std::string got) { return strf("%s is expected, but it is %.60s", show(v).c_str(), got.c_str()); };
        switch (v.k) {
        case K::null: return T(h.is<tiro::null>()) ? "" : no("something");
        case K::boolean: return T(h.as<tiro::boolean>().value()) == (v.i != 0) ? "" : no("the other one");
        case K::integer: {
            const i64 got = T(h.as<tiro::integer>().value());
            return got == v.i ? "" : no(strf("%lld", (long long) got));
        }
        case K::float_: {
            const double got = T(h.as<tiro::float_>().value());
            return got == (double) v.i + 0.5 ? "" : no(strf("%g", got));
        }
        case K::string: {
            const std::string got = [&] { InTiro in; return h.as<tiro::string>().value(); }();
            return got == v.s ? "" : no("'" + got + "'");
        }
        case K::buffer: {
            const auto b = T(h.as<tiro::buffer>());
            const size_t n = T(b.size());
            if (n != v.box->bytes.size())
                return no(strf("a buffer of size %zu", n));
            return memcmp(T(b.data()), v.box->bytes.data(), n) ? no("a buffer with other bytes") : "";
        }
        case K::tuple: {
            const auto t = T(h.as<tiro::tuple>());
            if (T(t.size()) != v.box->items.size())
                return no("a tuple of another size");
            for (size_t i = 0; depth && i < v.box->items.size(); ++i)
                if (auto d = differs(m, v.box->items[i], T(t.get(i)), depth - 1); !d.empty())
                    return strf("element %zu: %s", i, d.c_str());
            return "";
        }
        case K::array: {
            const auto t = T(h.as<tiro::array>());
            if (T(t.size()) != v.box->items.size())
                return no(strf("an array of size %zu", T(t.size())));
            for (size_t i = 0; depth && i < v.box->items.size(); ++i)
                if (auto d = differs(m, v.box->items[i], T(t.get(i)), depth - 1); !d.empty())
                    return strf("element %zu: %s", i, d.c_str());
            return "";
        }
        case K::record: {
            const auto t = T(h.as<tiro::record>());
            for (size_t i = 0; depth && i < 2; ++i)
                if (auto d = differs(m, v.box->items[i], T(t.get(tiro::make_string(vm, i ? "y" : "x"))), depth - 1); !d.empty())
                    return strf("field %zu: %s", i, d.c_str());
            return "";
        }
        case K::result: {
            const auto t = T(h.as<tiro::result>());
            if (T(t.is_success()) != v.box->flag || T(t.is_error()) == v.box->flag)
                return no("the other kind of result");
            if (!depth)
                return "";
            return differs(m, v.box->items[0], v.box->flag ? T(t.value()) : T(t.error()), depth - 1);
        }
        case K::native: {
            const auto n = T(h.as<tiro::native>());
            if (auto d = with_type(*v.box, [&](auto& ty, auto* tag) -> std::string {
                    using N = std::remove_pointer_t<decltype(tag)>;
                    if (!T(ty.is_instance(n)))
                        return "an instance of another type";
                    if (T(ty.is_destroyed(n)) != v.box->destroyed)
                        return v.box->destroyed ? "it is not destroyed" : "it is destroyed";
                    if (v.box->destroyed) {
                        try {
                            T(ty.access(n));
                        } catch (const tiro::generic_error&) {
                            return "";
                        }
                        return "a destroyed object can be accessed";
                    }
                    N* p = T(ty.access(n));
                    if ((uintptr_t) p % alignof(N))
                        return "an object at an unaligned address";
                    p->check();
                    return p->id == v.box->life ? "" : strf("object %u instead of %u", p->id, v.box->life);
                });
                !d.empty())
                return d;
            // the other types refuse it
            if (s.chance(1, 4)) {
                const u32 other = (v.box->type + 1) % NATIVE_TYPES;
                Box b;
                b.type = other;
                return with_type(b, [&](auto& ty, auto*) -> std::string {
                    if (T(ty.is_instance(n)))
                        return "it is an instance of another type, too";
                    try {
                        T(ty.access(n));
                    } catch (const tiro::generic_error&) {
                        return "";
                    }
                    return "another type accesses it";
                });
            }
            return "";
        }
        default: return "";
        }
    }
    void check_slot(Slot& x, const char* when) {
        if (!x.valid) {
            SIM_CHECK(!x.h->valid() && !x.h->raw_handle(), "handle", "%s: a handle that was moved from is valid", when);
            return;
        }
        SIM_CHECK(x.h->valid(), "handle", "%s: the handle of %s is not valid", when, show(x.v).c_str());
        SIM_CHECK(T(x.h->raw_vm()) == machine(x.machine).v->raw_vm(), "handle", "%s: a handle belongs to another machine", when);
        if (auto d = differs(machine(x.machine), x.v, *x.h); !d.empty())
            fail("wrong-value", "%s: %s", when, d.c_str());
    }
    void check_all(const char* when) {
        for (auto& x : slots)
            check_slot(x, when);
    }
    std::string any_text() {
        static const char* const texts[] = {"", "a", "hello", "\xc3\xa4", "x\ny"};
        std::string t = texts[s.pick(5)];
        if (s.chance(1, 5))
            t += std::string(s.pick(2000), (char) ('a' + s.pick(20)));
        return t;
    }
    // Makes a value of any kind; false if memory was refused.
    bool make_value(Machine& m, std::optional<tiro::handle>& out, Val& v) {
        tiro::vm& vm = *m.v;
        out.reset();
        v = {};
        const u32 kind = focus == 1 && s.chance(1, 2) ? 9 : s.pick(11);
        const u32 n = s.pick(5);
        auto element = [&](u32 i) { return (i64) (i * 7 + n); };
        switch (kind) {
        case 0: return !refused([&] { out = tiro::make_null(vm); });
        case 1:
            v.k = K::boolean;
            v.i = s.pick(2);
            return !refused([&] { out = tiro::make_boolean(vm, v.i != 0); });
        case 2:
            v = vint((i64) s.pick(100000) * (s.chance(1, 3) ? ((i64) 1 << 35) : 1));
            return !refused([&] { out = tiro::make_integer(vm, v.i); });
        case 3:
            v.k = K::float_;
            v.i = s.pick(1000);
            return !refused([&] { out = tiro::make_float(vm, (double) v.i + 0.5); });
        case 4:
            v = vstr(any_text());
            return !refused([&] { out = tiro::make_string(vm, v.s); });
        case 5: {
            v.k = K::buffer;
            v.box = std::make_shared<Box>();
            v.box->bytes.assign(s.pick(3) ? s.pick(200) + 1 : 20000, 0);
            const size_t size = v.box->bytes.size();
            return !refused([&] { out = tiro::make_buffer(vm, size); });
        }
        case 6: {
            v.k = K::tuple;
            v.box = std::make_shared<Box>();
            for (u32 i = 0; i < n; ++i)
                v.box->items.push_back(vint(element(i)));
            return !refused([&] {
                auto t = tiro::make_tuple(vm, n);
                for (u32 i = 0; i < n; ++i)
                    t.set(i, tiro::make_integer(vm, element(i)));
                out = std::move(t);
            });
        }
        case 7: {
            v.k = K::array;
            v.box = std::make_shared<Box>();
            for (u32 i = 0; i < n; ++i)
                v.box->items.push_back(vint(element(i)));
            return !refused([&] {
                auto t = tiro::make_array(vm, n / 2);
                for (u32 i = 0; i < n; ++i)
                    t.push(tiro::make_integer(vm, element(i)));
                out = t;
            });
        }
        case 8: {
            v.k = K::record;
            v.box = std::make_shared<Box>();
            v.box->items = {vint(1), vint(2)};
            return !refused([&] {
                auto keys = tiro::make_array(vm);
                keys.push(tiro::make_string(vm, "x"));
                keys.push(tiro::make_string(vm, "y"));
                auto r = tiro::make_record(vm, tiro::make_record_schema(vm, keys));
                r.set(tiro::make_string(vm, "x"), tiro::make_integer(vm, 1));
                r.set(tiro::make_string(vm, "y"), tiro::make_integer(vm, 2));
                out = tiro::handle(r);
            });
        }
        case 9: {
            v.k = K::native;
            auto box = std::make_shared<Box>();
            box->type = s.pick(NATIVE_TYPES);
            const u32 life = new_life("native");
            const bool bad = refused([&] {
                with_type(*box, [&](auto& ty, auto* tag) {
                    using N = std::remove_pointer_t<decltype(tag)>;
                    out = ty.make(vm, N(life));
                });
            });
            const Life& l = (*lives)[life];
            if (bad) { // whatever was begun has ended
                SIM_CHECK(!l.alive, "life", "a native object that was not made is alive");
                return false;
            }
            SIM_CHECK(l.alive, "life", "a new native object is not alive");
            box->life = life;
            (*lives)[life].held = true;
            v.box = box;
            return true;
        }
        default: {
            v.k = K::result;
            v.box = std::make_shared<Box>();
            v.box->flag = s.pick(2);
            v.box->items = {vint(5)};
            const bool flag = v.box->flag;
            return !refused([&] {
                auto x = tiro::make_integer(vm, 5);
                out = flag ? tiro::make_success(vm, x) : tiro::make_error(vm, x);
            });
        }
        }
    }
    Slot* any_slot(bool valid_only) {
        std::vector<Slot*> c;
        for (auto& x : slots)
            if (x.valid || !valid_only)
                c.push_back(&x);
        return c.empty() ? nullptr : c[s.pick((u32) c.size())];
    }
    template<typename W>
    void cast(Slot& x, K kind) {
        const bool right = x.v.k == kind;
        SIM_CHECK(T(x.h->is<W>()) == right, "cast", "%s is reported as a %s", show(x.v).c_str(), tiro::to_string(kind));
        try {
            if (s.chance(1, 4)) {
                tiro::handle copy = T(tiro::handle(*x.h));
                W w = T(std::move(copy).as<W>());
                SIM_CHECK(!copy.valid() && w.valid(), "cast", "moved handle is valid");
            } else {
                W w = T(x.h->as<W>());
                SIM_CHECK(w.valid() && x.h->valid(), "cast", "copied handle is not valid");
                W z = T(W(w)); // copy, move, assign
                W y = std::move(w);
                T(w = z);
                T(z = y);
                y = std::move(w);
                if (auto d = differs(machine(x.machine), x.v, z); !d.empty())
                    fail("cast", "after copies: %s", d.c_str());
            }
            SIM_CHECK(right, "cast", "a %s is cast to a %s", tiro::to_string(x.v.k), tiro::to_string(kind));
        } catch (const tiro::bad_handle_cast& e) {
            InHost h;
            SIM_CHECK(!right, "cast", "%s", e.what());
            SIM_CHECK(strstr(e.what(), tiro::to_string(kind)) && strstr(e.details(), tiro::to_string(x.v.k)), "cast", "bad message: %s", e.what());
        }
    }

    // ------------------------------------------------------------ operations on handles and objects
    void op_value() {
        Slot x;
        x.machine = s.pick((u32) machines.size());
        if (!make_value(machine(x.machine), x.h, x.v))
            return;
        x.valid = true;
        trace("make %s on %u", show(x.v).c_str(), x.machine);
        if (slots.size() >= 14) {
            const u32 i = s.pick((u32) slots.size());
            release(slots[i].v, i);
            T(slots[i] = std::move(x));
        } else {
            slots.push_back(std::move(x));
        }
    }
    // natives of this value may be collected if nobody else refers to them
    void release(Val& v, u32) { v = {}; }

    void op_handle() {
        Slot* x = any_slot(false);
        if (!x)
            return;
        switch (s.pick(7)) {
        case 0: { // copy
            Slot n;
            n.machine = x->machine;
            if (refused([&] { n.h.emplace(*x->h); }))
                return;
            n.valid = x->valid;
            n.v = x->v;
            trace("copy %s", show(n.v).c_str());
            if (slots.size() < 16)
                slots.push_back(std::move(n));
            else {
                check_slot(n, "copy");
                T(n.h.reset());
            }
            return;
        }
        case 1: { // copy assignment, in all combinations
            Slot* y = any_slot(false);
            if (refused([&] { *y->h = *x->h; }))
                return;
            y->valid = x->valid;
            y->machine = x->machine;
            y->v = x->v;
            trace("assign %s", show(y->v).c_str());
            return;
        }
        case 2: { // move construction
            if (slots.size() >= 16)
                return;
            Slot n;
            n.machine = x->machine;
            T(n.h.emplace(std::move(*x->h)));
            n.valid = x->valid;
            n.v = std::move(x->v);
            x->v = {};
            x->valid = false;
            trace("move %s", show(n.v).c_str());
            slots.push_back(std::move(n));
            return;
        }
        case 3: { // move assignment
            Slot* y = any_slot(false);
            if (y == x)
                return;
            T(*y->h = std::move(*x->h));
            y->valid = x->valid;
            y->machine = x->machine;
            y->v = std::move(x->v);
            x->v = {};
            x->valid = false;
            trace("move assign %s", show(y->v).c_str());
            return;
        }
        case 4: { // release
            const u32 i = (u32) (x - slots.data());
            trace("release %s", show(x->v).c_str());
            x->v = {};
            T(x->h.reset());
            slots.erase(slots.begin() + i);
            return;
        }
        case 5: { // same
            Slot* y = any_slot(true);
            if (!x->valid || !y || y->machine != x->machine)
                return;
            const bool real = T(tiro::same(*machine(x->machine).v, *x->h, *y->h));
            if (x->v.box || y->v.box)
                SIM_CHECK(real == (x->v.box == y->v.box), "identity", "%s and %s are reported as %s", show(x->v).c_str(), show(y->v).c_str(), real ? "the same" : "different");
            return;
        }
        default: { // a handle that was moved from is refused
            if (x->valid)
                return;
            try {
                T(x->h->kind());
            } catch (const tiro::bad_handle_check&) {
                probe("invalid_handle_refused");
                return;
            }
            fail("handle", "a handle that was moved from can be used");
        }
        }
    }
    void op_cast() {
        Slot* x = any_slot(true);
        if (!x)
            return;
        switch (s.pick(12)) {
        case 0: cast<tiro::null>(*x, K::null); break;
        case 1: cast<tiro::boolean>(*x, K::boolean); break;
        case 2: cast<tiro::integer>(*x, K::integer); break;
        case 3: cast<tiro::float_>(*x, K::float_); break;
        case 4: cast<tiro::string>(*x, K::string); break;
        case 5: cast<tiro::buffer>(*x, K::buffer); break;
        case 6: cast<tiro::tuple>(*x, K::tuple); break;
        case 7: cast<tiro::array>(*x, K::array); break;
        case 8: cast<tiro::record>(*x, K::record); break;
        case 9: cast<tiro::result>(*x, K::result); break;
        case 10: cast<tiro::native>(*x, K::native); break;
        default: cast<tiro::coroutine>(*x, K::coroutine); break;
        }
        trace("cast of %s", show(x->v).c_str());
    }
    bool contains(const Val& v, const Box* b, std::vector<const Box*>& seen) {
        if (!v.box || std::find(seen.begin(), seen.end(), v.box.get()) != seen.end())
            return false;
        seen.push_back(v.box.get());
        if (v.box.get() == b)
            return true;
        return std::any_of(v.box->items.begin(), v.box->items.end(), [&](auto& i) { return contains(i, b, seen); });
    }
    void op_contents() {
        Slot* x = any_slot(true);
        if (!x || !x->v.box)
            return;
        Machine& m = machine(x->machine);
        tiro::vm& vm = *m.v;
        Slot* y = any_slot(true);
        if (!y || y->machine != x->machine)
            y = x;
        Box& b = *x->v.box;
        std::vector<const Box*> seen;
        if (contains(y->v, &b, seen)) // (no cycles: the model counts references)
            return;
        trace("change %s with %s", show(x->v).c_str(), show(y->v).c_str());
        const size_t n = b.items.size();
        switch (x->v.k) {
        case K::buffer: {
            const u32 i = s.pick((u32) b.bytes.size());
            b.bytes[i] = (char) s.pick(256);
            auto real = T(x->h->as<tiro::buffer>());
            T(real.data())[i] = (unsigned char) b.bytes[i];
            SIM_CHECK(T(real.is_pinned()), "buffer", "a buffer is not pinned");
            return;
        }
        case K::tuple: {
            const auto t = T(x->h->as<tiro::tuple>());
            auto u = t;
            const u32 i = s.pick((u32) n + 1);
            if (i == n) {
                fails("tuple::set", [&] { u.set(n, *y->h); }, tiro::api_errc::out_of_bounds);
                fails("tuple::get", [&] { t.get(n); }, tiro::api_errc::out_of_bounds);
                return;
            }
            if (!refused([&] { u.set(i, *y->h); }))
                b.items[i] = y->v;
            return;
        }
        case K::array: {
            auto t = T(x->h->as<tiro::array>());
            switch (s.pick(5)) {
            case 0:
            case 1:
                if (!refused([&] { t.push(*y->h); }))
                    b.items.push_back(y->v);
                return;
            case 2:
                if (n == 0) {
                    fails("array::pop", [&] { t.pop(); }, tiro::api_errc::out_of_bounds);
                    return;
                }
                T(t.pop());
                b.items.pop_back();
                return;
            case 3: {
                const u32 i = s.pick((u32) n + 1);
                if (i == n) {
                    fails("array::set", [&] { t.set(n, *y->h); }, tiro::api_errc::out_of_bounds);
                    fails("array::get", [&] { t.get(n); }, tiro::api_errc::out_of_bounds);
                    return;
                }
                T(t.set(i, *y->h));
                b.items[i] = y->v;
                return;
            }
            default:
                if (s.chance(1, 3)) {
                    T(t.clear());
                    b.items.clear();
                }
                return;
            }
        }
        case K::record: {
            auto r = T(x->h->as<tiro::record>());
            const u32 i = s.pick(3);
            if (i == 2) {
                auto key = T(tiro::make_string(vm, "z"));
                fails("record::set", [&] { r.set(key, *y->h); }, tiro::api_errc::bad_key);
                fails("record::get", [&] { r.get(key); }, tiro::api_errc::bad_key);
                SIM_CHECK(T(r.keys().size()) == 2, "record", "number of keys");
                return;
            }
            if (!refused([&] { r.set(tiro::make_string(vm, i ? "y" : "x"), *y->h); }))
                b.items[i] = y->v;
            return;
        }
        case K::result: {
            const auto r = T(x->h->as<tiro::result>());
            if (b.flag)
                fails("result::error", [&] { r.error(); }, tiro::api_errc::bad_state);
            else
                fails("result::value", [&] { r.value(); }, tiro::api_errc::bad_state);
            return;
        }
        case K::native: {
            if (!s.chance(1, 3))
                return;
            const auto nat = T(x->h->as<tiro::native>());
            const bool before = b.destroyed;
            const u32 life = b.life;
            if (life)
                (*lives)[life].held = false;
            with_type(b, [&](auto& ty, auto*) { T(ty.destroy(nat)); });
            b.destroyed = true;
            SIM_CHECK(!(*lives)[life].alive && (*lives)[life].ended == 1, "life", "the object %u is not destroyed (%d)", life, before);
            fault("destroyed_by_hand");
            return;
        }
        default: return;
        }
    }
    // A value is taken out of a container into a slot.
    void op_extract() {
        Slot* x = any_slot(true);
        if (!x || !x->v.box || x->v.box->items.empty() || slots.size() >= 16)
            return;
        const size_t i = s.pick((u32) x->v.box->items.size());
        Slot n;
        n.machine = x->machine;
        n.valid = true;
        n.v = x->v.box->items[i];
        if (refused([&] {
                switch (x->v.k) {
                case K::tuple: n.h = x->h->as<tiro::tuple>().get(i); break;
                case K::array: n.h = x->h->as<tiro::array>().get(i); break;
                case K::record: n.h = x->h->as<tiro::record>().get(tiro::make_string(*machine(x->machine).v, i ? "y" : "x")); break;
                case K::result: n.h = x->v.box->flag ? x->h->as<tiro::result>().value() : x->h->as<tiro::result>().error(); break;
                default: break;
                }
            }))
            return;
        if (!n.h)
            return;
        trace("extract %s", show(n.v).c_str());
        slots.push_back(std::move(n));
    }

    // ------------------------------------------------------------ compiling
    void op_compile() {
        const u32 kind = s.pick(4); // 0 fine 1 error 2 callback throws 3 default callback replaced
        const u32 nth = s.pick(2);
        u32 calls = 0;
        const std::string src = kind == 0 ? "export const answer = 42;" : "export func f( { return undefined_name; } func g() { return other; }";
        const std::string name = strf("compiled%u", next_task++);
        const u32 life = new_life("message callback");
        trace("compile %u", kind);
        try {
            InTiro in;
            tiro::compiler c(name);
            {
                std::shared_ptr<NA> guard = std::make_shared<NA>(life);
                c.set_message_callback([&, guard](const tiro::compiler_message& msg) {
                    InHost h;
                    SIM_CHECK(msg.severity == tiro::severity::error && !msg.text.empty() && msg.file == "a.tro" && msg.line == 1, "message", "bad message");
                    if (kind == 2 && calls++ == nth)
                        throw Failure("thrown by the callback");
                });
            }
            c.add_file("a.tro", src);
            c.request_attachment(tiro::attachment::cst);
            c.run();
            SIM_CHECK(kind == 0, "compile", "compilation of a bad program succeeds");
            SIM_CHECK(c.has_module(), "compile", "there is no module");
            auto mod = c.take_module();
            SIM_CHECK(!c.has_module(), "compile", "the module is still there");
            SIM_CHECK(!c.get_attachment(tiro::attachment::cst).empty(), "compile", "no attachment");
            Machine& m = machine(s.pick((u32) machines.size()));
            m.v->load(mod);
            auto h = tiro::get_export(*m.v, name, "answer");
            SIM_CHECK(h.as<tiro::integer>().value() == 42, "compile", "wrong export");
            try {
                m.v->load(mod);
                fail("compile", "a module is loaded twice");
            } catch (const tiro::api_error& e) {
                SIM_CHECK(e.code() == tiro::api_errc::module_exists, "wrong-error", "a module is loaded twice: %s", e.what());
            }
        } catch (const Failure& f) {
            InHost h;
            SIM_CHECK(kind == 2 && f.text == "thrown by the callback", "compile", "%s", f.what());
            fault("callback_throws");
        } catch (const tiro::api_error& e) {
            InHost h;
            SIM_CHECK(kind != 0 && e.code() == tiro::api_errc::bad_source && (kind != 2 || calls <= nth), "compile", "compilation %u fails: %s", kind, e.what());
        }
        SIM_CHECK(!(*lives)[life].alive, "life", "the message callback of a compiler is still alive");
    }

    // ------------------------------------------------------------ coroutines
    Task& task(const tiro::handle& h) {
        const i64 id = T(h.as<tiro::integer>().value());
        auto it = tasks.find((u32) id);
        SIM_CHECK(it != tasks.end(), "corrupt", "a function is called with the task %lld", (long long) id);
        return it->second;
    }
    void put(Machine& m, const Val& v, std::optional<tiro::handle>& out) {
        InTiro in;
        if (v.k == K::integer)
            out = tiro::make_integer(*m.v, v.i);
        else if (v.k == K::string)
            out = tiro::make_string(*m.v, v.s);
        else
            out = tiro::make_null(*m.v);
    }
    Val simple() { return s.chance(1, 3) ? vstr(any_text()) : vint(s.pick(1000)); }
    Outcome& next_outcome(Task& t) {
        t.outcomes.emplace_back();
        return t.outcomes.back();
    }
    void start_task(u32 machine_id) {
        Machine& m = machine(machine_id);
        tiro::vm& vm = *m.v;
        const u32 id = next_task++;
        Task& t = tasks[id];
        t.id = id;
        t.machine = machine_id;
        t.fn = focus == 3 ? 1 : s.pick(3);
        t.mode = s.pick(3);
        t.length = t.mode == 2 ? 1 + s.pick(5) : 1;
        t.x = simple();
        const u32 life = new_life("callback");
        t.callback_life = life;
        std::optional<tiro::handle> x;
        put(m, t.x, x);
        auto& f = t.fn == 0 ? *m.sync : t.fn == 1 ? *m.async : *m.res;
        bool started = false;
        const bool direct = t.mode == 0 && s.chance(1, 3);
        auto callback = [id, payload = NA(life)](tiro::vm& v, const tiro::coroutine& c) { g->completed(id, v, c, payload); };
        bool bad = false;
        std::optional<tiro::tuple> args;
        {
            InTiro in;
            args = tiro::make_tuple(vm, direct ? 2 : t.mode == 2 ? 4 : 3);
            u32 i = 0;
            if (!direct)
                args->set(i++, f);
            args->set(i++, tiro::make_integer(vm, id));
            args->set(i++, *x);
            if (t.mode == 2)
                args->set(i++, tiro::make_integer(vm, t.length));
        }
        auto& target = direct ? f : t.mode == 0 ? *m.call : t.mode == 1 ? *m.guarded : *m.chain;
        if (s.chance(1, 2)) {
            bad = refused([&] { tiro::run_async(vm, target, *args, std::move(callback)); });
            // (the start may be the refused operation: the coroutine never runs)
            started = !bad;
        } else {
            std::optional<tiro::coroutine> c;
            bad = refused([&] { c = tiro::make_coroutine(vm, target, *args); });
            if (!bad) {
                SIM_CHECK(!T(c->started()) && !T(c->completed()), "coroutine", "a new coroutine is reported as started");
                bad = refused([&] { c->set_callback(std::move(callback)); });
                if (!bad) {
                    if (s.chance(1, 6))
                        fails("coroutine::result", [&] { c->result(); }, tiro::api_errc::bad_state);
                    T(c->start());
                    SIM_CHECK(T(c->started()) && !T(c->completed()), "coroutine", "a coroutine that was started is not reported as such");
                    if (s.chance(1, 6))
                        fails("coroutine::start", [&] { c->start(); }, tiro::api_errc::bad_state);
                    started = true;
                }
            }
        }
        t.started = started;
        trace("task %u: function %u mode %u%s%s", id, t.fn, t.mode, direct ? " direct" : "", started ? "" : " refused");
        if (!started) {
            t.lost = true;
            probe("task_refused");
        } else {
            (*lives)[life].held = true;
        }
    }
    void completed(u32 id, tiro::vm& v, const tiro::coroutine& c, const NA& payload) {
        InHost host;
        auto it = tasks.find(id);
        SIM_CHECK(it != tasks.end(), "callback", "callback of an unknown task");
        Task& t = it->second;
        Machine& m = machine(t.machine);
        payload.check();
        SIM_CHECK(&v == &*m.v, "callback", "the callback of task %u gets another machine", id);
        SIM_CHECK(t.started && !t.done && t.callbacks == 0, "callback", "the callback of task %u is called in a wrong state", id);
        SIM_CHECK(payload.id == t.callback_life && (*lives)[t.callback_life].alive, "callback", "the callback of task %u was destroyed", id);
        SIM_CHECK(!t.waiting, "callback", "task %u completes while it waits", id);
        ++t.callbacks;
        t.done = true;
        (*lives)[t.callback_life].held = false;
        trace("task %u completes", id);
        SIM_CHECK(T(c.completed()) && T(c.started()), "callback", "the coroutine of task %u is not completed", id);
        const auto r = T(c.result());
        const Outcome* panic = nullptr;
        for (auto& o : t.outcomes) {
            SIM_CHECK(o.known, "callback", "task %u completes without the value it waits for", id);
            if (o.panic && !panic)
                panic = &o;
        }
        auto check_message = [&](const tiro::handle& e, const std::string& want) {
            const std::string got = [&] { InTiro in; return e.as<tiro::exception>().message().value(); }();
            SIM_CHECK(got == want, "wrong-outcome", "task %u panics with '%s' instead of '%s'", id, got.c_str(), want.c_str());
        };
        auto check_value = [&](const tiro::handle& h, const Val& want) {
            if (auto d = differs(m, want, h); !d.empty())
                fail("wrong-outcome", "task %u: %s", id, d.c_str());
        };
        if (t.mode == 1) {
            SIM_CHECK(T(r.is_success()) && t.outcomes.size() == 1, "wrong-outcome", "task %u does not succeed", id);
            const auto pair = T(r.value().as<tiro::tuple>());
            check_value(T(pair.get(0)), vstr(panic ? "panic" : "ok"));
            if (panic)
                check_message(T(pair.get(1)), panic->text);
            else
                check_value(T(pair.get(1)), t.outcomes[0].v);
        } else if (panic) {
            SIM_CHECK(T(r.is_error()) && panic == &t.outcomes.back(), "wrong-outcome", "task %u does not panic", id);
            check_message(T(r.error()), panic->text);
        } else {
            if (T(r.is_error()))
                fail("wrong-outcome", "task %u panics: %s", id, [&] { InTiro in; return r.error().as<tiro::exception>().message().value(); }().c_str());
            if (t.mode == 0) {
                SIM_CHECK(t.outcomes.size() == 1, "wrong-outcome", "task %u: %zu calls", id, t.outcomes.size());
                check_value(T(r.value()), t.outcomes[0].v);
            } else {
                const auto list = T(r.value().as<tiro::array>());
                SIM_CHECK(T(list.size()) == t.length && t.outcomes.size() == t.length, "wrong-outcome", "task %u: %zu of %u elements", id, T(list.size()), t.length);
                for (u32 i = 0; i < t.length; ++i)
                    check_value(T(list.get(i)), t.outcomes[i].v);
            }
        }
        stat("tasks_completed");
        if (s.chance(1, 6))
            start_task(t.machine);
        if (s.chance(1, 8)) {
            T(v.has_ready());
            op_handle();
        }
        if (s.chance(1, 10)) { // collected while it executes: the callback stays alive
            gc_now(m.heap);
            payload.check();
        }
    }
    void common(tiro::vm& v, Task& t) {
        SIM_CHECK(t.started && !t.done && !t.waiting, "order", "a function of task %u is called in a wrong state", t.id);
        SIM_CHECK(&v == &*machine(t.machine).v, "machine", "a function of task %u gets another machine", t.id);
        auto p = std::any_cast<std::shared_ptr<u32>>(&v.userdata());
        SIM_CHECK(p && **p == 1000 + t.machine, "machine", "the userdata of the machine is wrong");
    }
    [[noreturn]] void throw_something(Outcome& o) {
        o.known = o.panic = true;
        fault("exception");
        switch (s.pick(4)) {
        case 0: o.text = "failure"; throw Failure("failure");
        case 1: {
            o.text = std::string(s.pick(3000), 'f');
            std::string x = o.text;
            throw Failure(std::move(x));
        }
        case 2: o.text = "generic"; throw tiro::generic_error("generic");
        default: o.text = "unknown exception"; throw Strange{};
        }
    }
    template<typename Frame>
    void check_frame(Frame& f, Task& t, i64 tag, size_t argc) {
        SIM_CHECK(T(f.arg_count()) == argc, "frame", "task %u: wrong number of arguments", t.id);
        if (auto d = differs(machine(t.machine), t.x, T(f.arg(1))); !d.empty())
            fail("frame", "task %u: argument: %s", t.id, d.c_str());
        if (auto d = differs(machine(t.machine), vint(tag), T(f.closure())); !d.empty())
            fail("frame", "task %u: closure: %s", t.id, d.c_str());
        if (s.chance(1, 8))
            fails("arg", [&] { f.arg(argc); }, tiro::api_errc::out_of_bounds);
    }
    tiro::handle value_of(Task& t, Outcome& o) {
        o.known = true;
        o.v = s.chance(1, 3) ? t.x : simple();
        std::optional<tiro::handle> h;
        put(machine(t.machine), o.v, h);
        return std::move(*h);
    }
    tiro::handle sync_fn(tiro::vm& v, tiro::sync_frame& f) {
        InHost host;
        Task& t = task(T(f.arg(0)));
        common(v, t);
        check_frame(f, t, 70 + t.machine, 2);
        Outcome& o = next_outcome(t);
        trace("task %u: sync", t.id);
        if (s.chance(1, 4))
            throw_something(o);
        if (s.chance(1, 12)) { // an error of the interface itself
            o.known = o.panic = true;
            try {
                T(tiro::make_tuple(v, 1).get(7));
            } catch (const tiro::api_error& e) {
                o.text = e.what();
                throw;
            }
        }
        if (s.chance(1, 12)) {
            o.known = o.panic = true;
            o.text = "Handles that belong to different virtual machines must not be mixed";
            if (machines.size() > 1)
                return T(tiro::make_integer(*machine(1 - t.machine).v, 1));
            o.text = "Invalid virtual machine";
            o.text = "Invalid handle";
            auto h = T(tiro::make_integer(v, 1));
            auto moved = std::move(h);
            InTiro in;
            return tiro::handle(std::move(h));
        }
        if (s.chance(1, 6))
            op_handle();
        return value_of(t, o);
    }
    void async_fn(tiro::vm& v, tiro::async_frame& f) {
        InHost host;
        Task& t = task(T(f.arg(0)));
        common(v, t);
        check_frame(f, t, 80 + t.machine, 2);
        Outcome& o = next_outcome(t);
        const u32 what = s.pick(9);
        trace("task %u: async %u", t.id, what);
        switch (what) {
        case 0: {
            auto h = value_of(t, o);
            T(f.return_value(h));
            return;
        }
        case 1:
            o.known = o.panic = true;
            o.text = "panic";
            T(f.panic_msg(o.text));
            return;
        case 2: throw_something(o);
        case 3: { // exception after the token was acquired: the token is worthless
            auto token = T(f.token());
            if (s.chance(1, 2))
                throw_something(o);
            T(f.yield());
            throw_something(o);
        }
        case 4: // nothing at all
            o.known = true;
            return;
        default: {
            waiters.push_back({t.id, T(f.token())});
            if (s.chance(1, 4)) // too early
                fails("return_value", [&] { waiters.back().token.return_value(tiro::make_null(v)); }, tiro::api_errc::internal);
            T(f.yield());
            t.waiting = true;
            if (s.chance(1, 3))
                op_handle();
            return;
        }
        }
    }
    void res_fn(tiro::vm& v, tiro::resumable_frame& f) {
        InHost host;
        Task& t = task(T(f.arg(0)));
        common(v, t);
        check_frame(f, t, 90 + t.machine, 2);
        const int state = T(f.state());
        trace("task %u: resumable state %d", t.id, state);
        SIM_CHECK(T(f.local_count()) == 2, "frame", "task %u: number of locals", t.id);
        if (state == tiro::resumable_frame::start) {
            SIM_CHECK(t.outcomes.empty() || t.outcomes.back().known, "resumable", "task %u: started again before the end", t.id);
            next_outcome(t);
            t.state = 0;
            t.invoked = 0;
        }
        Outcome& o = t.outcomes.back();
        SIM_CHECK(!o.known, "resumable", "task %u: called after the end", t.id);
        SIM_CHECK(state == t.state, "resumable", "task %u: state %d instead of %d", t.id, state, t.state);
        const auto local = T(f.local(0));
        if (auto d = differs(machine(t.machine), t.invoked ? vint(t.state * 3) : Val{}, local); !d.empty())
            fail("resumable", "task %u: local: %s", t.id, d.c_str());
        if (t.invoked) {
            if (auto d = differs(machine(t.machine), vint((i64) t.invoked * 10), T(f.invoke_return())); !d.empty())
                fail("resumable", "task %u: invoke_return: %s", t.id, d.c_str());
        }
        switch (s.pick(t.invoked > 4 ? 3 : 6)) {
        case 0: {
            auto h = value_of(t, o);
            T(f.return_value(h));
            return;
        }
        case 1:
            o.known = o.panic = true;
            o.text = "resumable panic";
            T(f.panic_msg(o.text));
            return;
        case 2: throw_something(o);
        default: {
            ++t.invoked;
            t.state = 1 + (int) s.pick(5);
            InTiro in;
            f.set_local(0, tiro::make_integer(v, t.state * 3));
            auto args = tiro::make_tuple(v, 1);
            args.set(0, tiro::make_integer(v, (i64) t.invoked * 10));
            f.invoke(t.state, *machine(t.machine).print, args);
            return;
        }
        }
    }
    void op_run() {
        const u32 i = s.pick((u32) machines.size());
        Machine& m = machine(i);
        trace("run %u", i);
        T(m.v->run_ready());
        SIM_CHECK(!T(m.v->has_ready()), "progress", "something is ready after the main loop");
        for (auto& [id, t] : tasks)
            SIM_CHECK(t.machine != i || !t.started || t.done || t.waiting, "progress", "task %u neither waits nor is done", id);
    }
    void op_complete() {
        if (waiters.empty())
            return;
        const u32 i = s.pick((u32) waiters.size());
        Waiter w = std::move(waiters[i]);
        waiters.erase(waiters.begin() + i);
        Task& t = tasks.at(w.task);
        SIM_CHECK(t.waiting, "model", "waiter");
        Outcome& o = t.outcomes.back();
        Machine& m = machine(t.machine);
        switch (s.pick(10)) {
        case 0: // nobody completes it any more
            t.lost = true;
            (*lives)[t.callback_life].held = false; // it can be collected from now on
            trace("task %u is lost", t.id);
            fault("dropped_token");
            return;
        case 1:
        case 2: {
            bool bad = refused([&] { w.token.panic_msg("panic from outside"); });
            trace("task %u completed with a panic%s", t.id, bad ? " (refused)" : "");
            if (bad) {
                waiters.push_back(std::move(w));
                return;
            }
            o.panic = true;
            o.text = "panic from outside";
            break;
        }
        default: {
            o.v = simple();
            std::optional<tiro::handle> h;
            put(m, o.v, h);
            bool bad = refused([&] { w.token.return_value(*h); });
            trace("task %u completed%s", t.id, bad ? " (refused)" : "");
            if (bad) {
                waiters.push_back(std::move(w));
                return;
            }
            break;
        }
        }
        o.known = true;
        t.waiting = false;
        SIM_CHECK(T(m.v->has_ready()), "progress", "nothing is ready after a completion");
        if (s.chance(1, 3)) // once only
            fails("second completion", [&] { w.token.return_value(tiro::make_null(*m.v)); }, tiro::api_errc::internal);
    }
    void op_gc() {
        const u32 i = s.pick((u32) machines.size());
        trace("collect %u", i);
        fault("forced_collection");
        gc_now(machine(i).heap);
    }

    // ------------------------------------------------------------ machines
    void open(u32 id) {
        auto m = std::make_unique<Machine>();
        m->id = id;
        tiro::vm_settings settings;
        settings.page_size = (size_t) 1 << (16 + s.pick(3));
        settings.print_stdout = [p = m.get()](std::string_view text) {
            InHost h;
            p->printed.push_back(std::string(text));
        };
        {
            InTiro in;
            m->v.emplace(settings);
            tiro::vm& v = *m->v;
            m->vm = &v;
            v.userdata() = std::make_shared<u32>(1000 + id);
            v.load_std();
            m->heap = last_heap;
            std::vector<std::pair<std::string, tiro::handle>> exports;
            exports.emplace_back("nothing", tiro::make_null(v));
            auto mod = tiro::make_module(v, "host", exports);
            tiro::load_module(v, mod);
            SIM_CHECK(mod.get_export("nothing").is<tiro::null>(), "module", "wrong export");
            m->sync = tiro::make_sync_function<&World::call_sync>(v, tiro::make_string(v, "sync"), 2, tiro::make_integer(v, 70 + id));
            m->async = tiro::make_async_function<&World::call_async>(v, tiro::make_string(v, "async"), 2, tiro::make_integer(v, 80 + id));
            m->res = tiro::make_resumable_function<&World::call_res>(v, tiro::make_string(v, "res"), 2, 2, tiro::make_integer(v, 90 + id));
            tiro::compiler c("script");
            c.add_file("script.tro", R"(
import std;
import host;
export func call(f, id, x) { return f(id, x); }
export func guarded(f, id, x) {
    const r = std.catch_panic(func() { return f(id, x); });
    if r.is_success() { return ("ok", r.value()); }
    return ("panic", r.error());
}
export func chain(f, id, x, n) {
    const list = [];
    for var i = 0; i < n; i += 1 { list.append(f(id, x)); }
    return list;
}
export func print(x) { std.print(x); return x; }
)");
            c.run();
            v.load(c.take_module());
            auto fn = [&](const char* name) { return tiro::get_export(v, "script", name).as<tiro::function>(); };
            m->call = fn("call");
            m->guarded = fn("guarded");
            m->chain = fn("chain");
            m->print = fn("print");
            try {
                fn("missing");
                fail("module", "a missing export is found");
            } catch (const tiro::api_error& e) {
                SIM_CHECK(e.code() == tiro::api_errc::export_not_found, "wrong-error", "missing export: %s", e.what());
            }
        }
        if (id < machines.size())
            machines[id] = std::move(m);
        else
            machines.push_back(std::move(m));
    }
    void close(u32 id) {
        Machine& m = machine(id);
        trace("close %u", id);
        // handles and tokens are released first
        for (size_t i = slots.size(); i-- > 0;)
            if (slots[i].machine == id) {
                slots[i].v = {};
                T(slots[i].h.reset());
                slots.erase(slots.begin() + (long) i);
            }
        for (size_t i = waiters.size(); i-- > 0;)
            if (tasks.at(waiters[i].task).machine == id) {
                Waiter w = std::move(waiters[i]);
                waiters.erase(waiters.begin() + (long) i);
            }
        for (auto& [tid, t] : tasks)
            if (t.machine == id)
                (*lives)[t.callback_life].held = false;
        m.closing = true;
        {
            InTiro in;
            m.sync.reset();
            m.async.reset();
            m.res.reset();
            m.call.reset();
            m.guarded.reset();
            m.chain.reset();
            m.print.reset();
            m.v.reset();
            m.closing = false;
        }
        for (auto& [tid, t] : tasks) {
            if (t.machine != id)
                continue;
            const Life& l = (*lives)[t.callback_life];
            SIM_CHECK(!l.alive && l.ended == 1, "life", "the callback of task %u still lives after its machine was destroyed", tid);
        }
        for (auto it = tasks.begin(); it != tasks.end();)
            it = it->second.machine == id ? tasks.erase(it) : std::next(it);
    }
    static tiro::handle call_sync(tiro::vm& v, tiro::sync_frame& f) { return g->sync_fn(v, f); }
    static void call_async(tiro::vm& v, tiro::async_frame& f) { g->async_fn(v, f); }
    static void call_res(tiro::vm& v, tiro::resumable_frame& f) { g->res_fn(v, f); }
};

void life_ends(u32 id) {
    InHost h;
    auto it = lives->find(id);
    SIM_CHECK(it != lives->end(), "life", "an unknown object %u ends", id);
    Life& l = it->second;
    SIM_CHECK(l.alive && !l.ended, "life", "object %u (%s) ends twice", id, l.what.c_str());
    SIM_CHECK(!l.held, "life", "object %u (%s) ends although it is in use", id, l.what.c_str());
    l.alive = false;
    ++l.ended;
    // the application can still use what it attached to the machine
    if (g)
        for (auto& m : g->machines)
            if (m->closing) {
                auto p = std::any_cast<std::shared_ptr<u32>>(&m->vm->userdata());
                SIM_CHECK(p && *p && **p == 1000 + m->id, "life", "the userdata of a machine is gone before its objects");
            }
}

void run_cpp(u32 focus, bool gc, bool refuse) {
    Stream& s = stream("cpp");
    std::map<u32, Life> life_map;
    lives = &life_map;
    next_life = 0;
    {
        World w(s);
        g = &w;
        w.focus = focus;
        const u32 count = 1 + s.pick(2);
        for (u32 i = 0; i < count; ++i)
            w.open(i);
        if (gc)
            gc_setup("gc", GcMode::Gaps, 10 + s.pick(200), 300);
        on_heap_alloc = [&](void*, size_t) {
            if (w.heap_fail < 0)
                return 0;
            if (w.heap_fail-- == 0) {
                w.heap_fail = -2;
                return 2;
            }
            return 0;
        };
        w.refuse = refuse;
        const u32 steps = 60 + s.pick(240);
        static const u32 weights[5][11] = {
            {6, 10, 4, 8, 4, 1, 6, 6, 6, 3, 1},
            {12, 8, 2, 12, 6, 1, 2, 2, 2, 6, 1},
            {2, 3, 1, 2, 1, 1, 12, 8, 8, 4, 2},
            {2, 3, 1, 2, 1, 1, 10, 8, 12, 3, 1},
            {10, 16, 8, 6, 4, 2, 1, 1, 1, 4, 1},
        };
        for (u32 i = 0; i < steps; ++i) {
            u32 total = 0;
            for (u32 x : weights[focus])
                total += x;
            u32 r = s.pick(total), op = 0;
            while (r >= weights[focus][op])
                r -= weights[focus][op++];
            switch (op) {
            case 0: w.op_value(); break;
            case 1: w.op_handle(); break;
            case 2: w.op_cast(); break;
            case 3: w.op_contents(); break;
            case 4: w.op_extract(); break;
            case 5: w.op_compile(); break;
            case 6: w.start_task(s.pick((u32) w.machines.size())); break;
            case 7: w.op_run(); break;
            case 8: w.op_complete(); break;
            case 9: w.op_gc(); break;
            default:
                if (s.chance(1, 8)) { // a machine ends with everything that is pending, and a new one takes its place
                    const u32 m = s.pick((u32) w.machines.size());
                    const bool was = w.refuse;
                    w.refuse = false;
                    w.close(m);
                    w.open(m);
                    w.refuse = was;
                    fault("machine_destroyed");
                }
            }
            if (i % 8 == 0)
                w.check_all("step");
        }
        w.refuse = false;
        // progress: everything that was not lost completes
        for (u32 i = 0; i < 4000; ++i) {
            bool pending = false;
            for (u32 m = 0; m < w.machines.size(); ++m) {
                T(w.machine(m).v->run_ready());
                pending = pending || T(w.machine(m).v->has_ready());
            }
            if (w.waiters.empty() && !pending)
                break;
            w.op_complete();
        }
        for (auto& [id, t] : w.tasks)
            SIM_CHECK(!t.started || t.done || t.lost, "progress", "task %u does not complete", id);
        w.check_all("end");
        // what nobody refers to is collected
        for (auto& x : w.slots)
            if (s.chance(1, 2)) {
                x.v = {};
                x.valid = false;
                auto sink = std::move(*x.h);
                InTiro in;
                tiro::handle end(std::move(sink));
            }
        for (auto& m : w.machines)
            gc_now(m->heap);
        w.check_all("after the collection");
        for (u32 m = 0; m < w.machines.size(); ++m)
            w.close(m);
        on_heap_alloc = nullptr;
        g = nullptr;
    }
    for (auto& [id, l] : life_map)
        SIM_CHECK(!l.alive && l.ended == l.begun, "life", "object %u (%s) is never destroyed", id, l.what.c_str());
    lives = nullptr;
    stat("observed_objects", life_map.size());
    arena_check();
    SIM_CHECK(mem.live_blocks == 0, "leak", "memory is still allocated after everything was released: %s", arena_leaks(4).c_str());
}

} // namespace

SCENARIO(cpp_natives, "C03.cpp", "C03", 20) {
    const u32 m = stream("mode").pick(3);
    run_cpp(1, m > 0, m == 2);
}
SCENARIO(cpp_callbacks, "C08.cpp", "C08", 20) {
    const u32 m = stream("mode").pick(3);
    run_cpp(2, m > 0, m == 2);
}
SCENARIO(cpp_tokens, "C07.cpp", "C07", 15) {
    const u32 m = stream("mode").pick(3);
    run_cpp(3, m > 0, m == 2);
}
SCENARIO(cpp_handles, "C13.cpp", "C13", 20) {
    const u32 m = stream("mode").pick(3);
    run_cpp(4, m > 0, m == 2);
}
