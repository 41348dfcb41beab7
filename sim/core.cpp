#include "core.hpp"
#include "shared.hpp"

#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <new>
#include <unordered_map>
#include <unistd.h>

namespace sim {

Shared* sh = nullptr;      // channel of the current run
Counters* counters = nullptr;
static u64 run_seed = 0;
static bool run_thorough = false;

static u64 splitmix(u64& s) {
    u64 z = (s += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}

u64 fnv(std::string_view s, u64 h) {
    for (unsigned char c : s) {
        h ^= c;
        h *= 1099511628211ull;
    }
    return h;
}

// ---------------------------------------------------------------- streams
static std::vector<Stream*>& stream_table() {
    static std::vector<Stream*> t;
    return t;
}

void begin_run(Shared* shared, u64 seed, bool thorough_tier) {
    sh = shared;
    run_seed = seed;
    run_thorough = thorough_tier;
    for (auto* s : stream_table())
        delete s;
    stream_table().clear();
}

bool thorough() { return run_thorough; }
bool replaying() { return sh->replay; }

Stream& stream(const char* name) {
    for (auto* s : stream_table())
        if (s->name == name)
            return *s;
    auto* s = new Stream();
    s->name = name;
    s->state = fnv(name, 1469598103934665603ull ^ (run_seed * 0x9e3779b97f4a7c15ull));
    splitmix(s->state);
    s->replay = sh->replay;
    // find or create the shared slot
    for (u32 i = 0; i < sh->stream_count; ++i) {
        if (std::strcmp(sh->streams[i].name, name) == 0)
            s->index = (int) i;
    }
    if (s->index < 0) {
        if (sh->stream_count >= max_streams) {
            std::fprintf(stderr, "too many streams\n");
            _exit(3);
        }
        s->index = (int) sh->stream_count++;
        auto& slot = sh->streams[s->index];
        std::snprintf(slot.name, sizeof(slot.name), "%s", name);
        slot.count = 0;
        slot.used = 0;
        slot.seg_count = 0;
    }
    sh->streams[s->index].used = 0;
    sh->streams[s->index].seg_count = 0;
    stream_table().push_back(s);
    return *s;
}

u64 Stream::next_raw() { return splitmix(state); }

bool Stream::exhausted() const { return replay && pos >= sh->streams[index].count; }

static u32 put(Stream& s, u32 n, u32 generated) {
    auto& slot = sh->streams[s.index];
    u32 v;
    if (s.replay) {
        v = s.pos < slot.count ? slot.values[s.pos] : 0;
        if (v >= n)
            v = n - 1;
        // normalise what is stored so that the replay file shows effective values
        if (s.pos < slot.count)
            slot.values[s.pos] = v;
    } else {
        if (s.pos >= max_values)
            discard("choice stream overflow");
        v = generated;
        slot.values[s.pos] = v;
        slot.count = (u32) s.pos + 1;
    }
    ++s.pos;
    slot.used = (u32) s.pos;
    return v;
}

u32 Stream::pick(u32 n) {
    if (n <= 1)
        return 0;
    return put(*this, n, replay ? 0 : (u32) (next_raw() % n));
}

bool Stream::chance(u32 num, u32 den) {
    return put(*this, 2, replay ? 0 : (next_raw() % den < num ? 1 : 0)) != 0;
}

u32 Stream::weighted(std::initializer_list<u32> weights) {
    u32 g = 0;
    if (!replay) {
        u64 total = 0;
        for (u32 w : weights)
            total += w;
        u64 r = next_raw() % total;
        for (u32 w : weights) {
            if (r < w)
                break;
            r -= w;
            ++g;
        }
    }
    u32 v = put(*this, (u32) weights.size(), g);
    if (weights.begin()[v] == 0) { // only possible in edited replay files
        for (v = 0; v + 1 < weights.size() && weights.begin()[v] == 0;)
            ++v;
        auto& slot = sh->streams[index];
        if (pos - 1 < slot.count)
            slot.values[pos - 1] = v;
    }
    return v;
}

Seg::Seg(Stream& s)
    : s_(s)
    , begin_(s.pos) {}

Seg::~Seg() {
    auto& slot = sh->streams[s_.index];
    if (s_.pos > begin_ && slot.seg_count < max_segs) {
        slot.segs[slot.seg_count][0] = (u32) begin_;
        slot.segs[slot.seg_count][1] = (u32) s_.pos;
        ++slot.seg_count;
    }
}

// ---------------------------------------------------------------- trace
void hash_mix(u64 v) {
    sh->hash ^= v + 0x9e3779b97f4a7c15ull + (sh->hash << 6) + (sh->hash >> 2);
    sh->hash *= 0x2545F4914F6CDD1Dull;
}

static void vtrace(bool hashed, const char* fmt, va_list ap) {
    char buf[1024];
    int n = std::vsnprintf(buf, sizeof(buf), fmt, ap);
    if (n < 0)
        return;
    if (n >= (int) sizeof(buf))
        n = sizeof(buf) - 1;
    if (hashed) {
        hash_mix(fnv(std::string_view(buf, (size_t) n)));
        ++sh->events;
    }
    if (sh->trace_len + (u32) n + 1 <= max_trace) {
        std::memcpy(sh->trace + sh->trace_len, buf, (size_t) n);
        sh->trace_len += (u32) n;
        sh->trace[sh->trace_len++] = '\n';
    } else {
        sh->trace_truncated = true;
    }
}

void trace(const char* fmt, ...) {
    va_list ap;
    va_start(ap, fmt);
    vtrace(true, fmt, ap);
    va_end(ap);
}

void note(const char* fmt, ...) {
    va_list ap;
    va_start(ap, fmt);
    vtrace(false, fmt, ap);
    va_end(ap);
}

void note_text(const std::string& text) {
    if (sh->trace_len + text.size() + 1 <= max_trace) {
        std::memcpy(sh->trace + sh->trace_len, text.data(), text.size());
        sh->trace_len += (u32) text.size();
        sh->trace[sh->trace_len++] = '\n';
    } else {
        sh->trace_truncated = true;
    }
}

std::string strf(const char* fmt, ...) {
    char buf[4096];
    va_list ap;
    va_start(ap, fmt);
    const int n = std::vsnprintf(buf, sizeof(buf), fmt, ap);
    va_end(ap);
    if (n < (int) sizeof(buf))
        return buf;
    std::string r((size_t) n, '\0');
    va_start(ap, fmt);
    std::vsnprintf(r.data(), (size_t) n + 1, fmt, ap);
    va_end(ap);
    return r;
}

void fail(const char* cls, const char* fmt, ...) {
    std::snprintf(sh->cls, sizeof(sh->cls), "%s", cls);
    va_list ap;
    va_start(ap, fmt);
    std::vsnprintf(sh->msg, sizeof(sh->msg), fmt, ap);
    va_end(ap);
    sh->status = Status::Violation;
    _exit(1);
}

void discard(const char* why) {
    std::snprintf(sh->msg, sizeof(sh->msg), "%s", why);
    sh->status = Status::Discarded;
    _exit(0);
}

static Counter* counter_for(char kind, const char* name) {
    if (!counters)
        return nullptr;
    char key[64];
    std::snprintf(key, sizeof(key), "%c%s", kind, name);
    u32 h = (u32) fnv(key) % max_counters;
    for (u32 i = 0; i < max_counters; ++i) {
        Counter& c = counters->table[(h + i) % max_counters];
        if (c.used.load(std::memory_order_acquire) == 2) {
            if (std::strcmp(c.name, key) == 0)
                return &c;
            continue;
        }
        int expected = 0;
        if (c.used.compare_exchange_strong(expected, 1)) {
            std::snprintf(c.name, sizeof(c.name), "%s", key);
            c.used.store(2, std::memory_order_release);
            return &c;
        }
        while (c.used.load(std::memory_order_acquire) == 1) {
        }
        if (std::strcmp(c.name, key) == 0)
            return &c;
    }
    return nullptr;
}

void probe(const char* name, u64 n) {
    if (auto* c = counter_for('p', name))
        c->value += n;
}
void fault(const char* kind, u64 n) {
    if (auto* c = counter_for('f', kind))
        c->value += n;
}
void stat(const char* name, u64 n) {
    if (auto* c = counter_for('s', name))
        c->value += n;
}
void sim_time(u64 ms) {
    if (auto* c = counter_for('t', "simulated_ms"))
        c->value += ms;
}

std::vector<Scenario>& scenarios() {
    static std::vector<Scenario> s;
    return s;
}

} // namespace sim
