// Deterministic system allocator for simulated runs. Interposed via the linker (--wrap) for malloc and friends
// and by replacing the global operator new/delete.
#include "core.hpp"
#include "shared.hpp"

#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <execinfo.h>
#include <new>
#include <sys/mman.h>
#include <unistd.h>

extern "C" {
void* __real_malloc(size_t);
void* __real_calloc(size_t, size_t);
void* __real_realloc(void*, size_t);
void* __real_aligned_alloc(size_t, size_t);
void __real_free(void*);
}

int sim_nofail = 0; // allocations inside of hash tables of the absl library are not refused

namespace sim {

MemStats mem;
i64 oom_after = -1;
i64 oom_count = 1;
size_t oom_min_size = 0;
std::function<bool(size_t)> oom_filter;
bool in_tiro = false;
u64 api_ops = 0;

namespace {

constexpr uintptr_t small_base = 0x200000000000ull;
constexpr size_t small_size = 16ull << 30;
constexpr uintptr_t large_base = 0x300000000000ull;
constexpr size_t large_size = 256ull << 30;

struct Block {
    u32 magic;
    u32 seq;
    u64 size; // requested size
    Block* prev;
    Block* next;
    u32 cls;
    u32 tag;
    u64 check;
};
static_assert(sizeof(Block) == 48);

constexpr u32 magic_live = 0x51CA11FE;
constexpr u32 magic_free = 0xF4EEF4EE;
constexpr u64 tail = 0xC0DEC0DEA5A5A5A5ull;

bool active = false;
uintptr_t bump = 0;
uintptr_t large_bump = 0;
u64 rng = 0;
bool perturb = false;
u32 seq = 0;
Block* live_head = nullptr;
constexpr u32 class_count = 200;
Block* free_lists[class_count];
constexpr u32 quarantine_max = 256;
Block* quarantine[quarantine_max];
u32 quarantine_pos = 0;

u64 rnd() {
    rng += 0x9e3779b97f4a7c15ull;
    u64 z = rng;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}

size_t class_size(u32 cls) {
    if (cls < 64)
        return (cls + 1) * 16;
    u32 e = (cls - 64) / 4, f = (cls - 64) % 4;
    return (1024ull << e) + (size_t) (f + 1) * (256ull << e);
}

u32 class_of(size_t size) {
    if (size <= 1024)
        return size == 0 ? 0 : (u32) ((size + 15) / 16 - 1);
    for (u32 c = 64; c < class_count; ++c)
        if (class_size(c) >= size)
            return c;
    return class_count;
}

[[noreturn]] void corrupt(const char* what, Block* b) {
    InHost h;
    active = false;
    fail("memory-corruption", "%s (block #%u of %llu bytes)", what, b->seq, (unsigned long long) b->size);
}

void write_tail(Block* b) {
    std::memcpy((char*) (b + 1) + b->size, &tail, sizeof(tail));
}

void check_block(Block* b) {
    if (b->magic != magic_live || b->check != (u64) b * 31 + b->size)
        corrupt("block header of a live allocation was overwritten", b);
    if (std::memcmp((char*) (b + 1) + b->size, &tail, sizeof(tail)) != 0)
        corrupt("write past the end of an allocation", b);
}

void check_freed(Block* b) {
    auto* p = (unsigned char*) (b + 1);
    size_t n = b->size > 256 ? 256 : b->size;
    for (size_t i = 0; i < n; ++i)
        if (p[i] != 0xDD)
            corrupt("write to an allocation after it was freed", b);
}

bool should_fail(size_t size) {
    if (!in_tiro || oom_after < 0 || sim_nofail)
        return false;
    if (size < oom_min_size)
        return false;
    if (oom_filter && !oom_filter(size))
        return false;
    if (oom_after > 0) {
        --oom_after;
        return false;
    }
    // oom_after == 0
    if (oom_count > 0) {
        if (--oom_count == 0)
            oom_after = -1;
    }
    ++mem.failed;
    return true;
}

bool debug_seq(u32 s) {
    static long want = [] {
        const char* e = std::getenv("SIM_BT");
        return e ? std::atol(e) : -1;
    }();
    return want >= 0 && (long) s == want;
}

void print_bt(const char* what) {
    bool a = active;
    active = false;
    void* bt[40];
    int n = backtrace(bt, 40);
    std::fprintf(stderr, "%s\n", what);
    backtrace_symbols_fd(bt, n, 2);
    active = a;
}

void link(Block* b) {
    b->prev = nullptr;
    b->next = live_head;
    if (live_head)
        live_head->prev = b;
    live_head = b;
}
void unlink(Block* b) {
    if (b->prev)
        b->prev->next = b->next;
    else
        live_head = b->next;
    if (b->next)
        b->next->prev = b->prev;
}

constexpr u32 tag_aligned = 2; // requested via aligned_alloc (large objects)

void account(Block* b, i64 sign) {
    if (!(b->tag & (u32) Tag::Tiro))
        return;
    mem.live_blocks += (u64) sign;
    mem.live_bytes += (u64) (sign * (i64) b->size);
    if (b->tag & tag_aligned) {
        mem.aligned_blocks += (u64) sign;
        mem.aligned_bytes += (u64) (sign * (i64) b->size);
        if (mem.aligned_bytes > mem.peak_aligned_bytes)
            mem.peak_aligned_bytes = mem.aligned_bytes;
    }
}

void* small_alloc(size_t size, u32 extra_tag = 0) {
    const size_t need = size + sizeof(tail);
    const u32 cls = class_of(need);
    if (cls >= class_count)
        return nullptr;
    Block* b = free_lists[cls];
    if (b && !(perturb && (rnd() & 7) == 0)) {
        free_lists[cls] = b->next;
    } else {
        if (perturb)
            bump += (rnd() & 15) * 16;
        size_t total = sizeof(Block) + class_size(cls);
        if (bump + total > small_base + small_size)
            return nullptr;
        b = (Block*) bump;
        bump += total;
    }
    b->magic = magic_live;
    b->seq = ++seq;
    b->size = size;
    b->cls = cls;
    b->tag = (u32) (in_tiro ? Tag::Tiro : Tag::Host) | extra_tag;
    b->check = (u64) b * 31 + size;
    link(b);
    std::memset((void*) (b + 1), 0xCD, size > 4096 ? 4096 : size);
    write_tail(b);
    account(b, 1);
    if (in_tiro && debug_seq(b->seq))
        print_bt("allocated here:");
    return b + 1;
}

void small_free(void* p) {
    Block* b = (Block*) p - 1;
    if (b->magic == magic_free)
        corrupt("allocation freed twice", b);
    check_block(b);
    unlink(b);
    account(b, -1);
    b->magic = magic_free;
    std::memset((void*) (b + 1), 0xDD, b->size > 65536 ? 65536 : b->size);
    Block* out = quarantine[quarantine_pos];
    quarantine[quarantine_pos] = b;
    quarantine_pos = (quarantine_pos + 1) % quarantine_max;
    if (out) {
        check_freed(out);
        out->next = free_lists[out->cls];
        free_lists[out->cls] = out;
    }
}

// Aligned chunks (heap pages): own region, unmapped on free so that any later access faults.
struct Chunk {
    uintptr_t addr;
    size_t size;
    u32 tag;
};
constexpr u32 max_chunks = 4096;
Chunk chunks[max_chunks];
u32 chunk_count = 0;

// Smaller aligned blocks are handle storage, not heap pages.
constexpr size_t heap_chunk_min = 65536;

void* chunk_alloc(size_t align, size_t size) {
    if (chunk_count >= max_chunks)
        return nullptr;
    uintptr_t p = (large_bump + align - 1) & ~(uintptr_t) (align - 1);
    if (perturb)
        p += (rnd() & 7) * align;
    size_t msize = (size + 4095) & ~(size_t) 4095;
    if (p + msize + 4096 > large_base + large_size || size > large_size)
        return nullptr;
    void* r = mmap((void*) p, msize, PROT_READ | PROT_WRITE,
        MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED | MAP_NORESERVE, -1, 0);
    if (r == MAP_FAILED)
        return nullptr;
    large_bump = p + msize + 4096;
    std::memset((void*) p, 0xCD, size > (1u << 20) ? (1u << 20) : size);
    chunks[chunk_count++] = {p, size, (u32) (in_tiro ? Tag::Tiro : Tag::Host)};
    if (in_tiro && size >= heap_chunk_min) {
        mem.aligned_blocks++;
        mem.aligned_bytes += size;
    }
    if (in_tiro) {
        mem.live_blocks++;
        mem.live_bytes += size;
        if (mem.aligned_bytes > mem.peak_aligned_bytes)
            mem.peak_aligned_bytes = mem.aligned_bytes;
    }
    return (void*) p;
}

bool chunk_free(void* ptr) {
    for (u32 i = chunk_count; i-- > 0;) {
        if (chunks[i].addr == (uintptr_t) ptr) {
            Chunk c = chunks[i];
            chunks[i] = chunks[--chunk_count];
            if (c.tag == (u32) Tag::Tiro) {
                if (c.size >= heap_chunk_min) {
                    mem.aligned_blocks--;
                    mem.aligned_bytes -= c.size;
                }
                mem.live_blocks--;
                mem.live_bytes -= c.size;
            }
            munmap((void*) c.addr, (c.size + 4095) & ~(size_t) 4095);
            return true;
        }
    }
    return false;
}

bool in_small(void* p) { return (uintptr_t) p >= small_base && (uintptr_t) p < small_base + small_size; }
bool in_large(void* p) { return (uintptr_t) p >= large_base && (uintptr_t) p < large_base + large_size; }

void* do_alloc(size_t size) {
    if (!active)
        return __real_malloc(size);
    if (in_tiro)
        mem.total_allocs++;
    if (should_fail(size)) {
        static bool bt = std::getenv("SIM_BT_OOM") != nullptr;
        if (bt)
            print_bt("allocation refused here:");
        return nullptr;
    }
    return small_alloc(size);
}

void do_free(void* p) {
    if (!p)
        return;
    if (in_small(p)) {
        small_free(p);
    } else if (in_large(p)) {
        if (!chunk_free(p)) {
            InHost h;
            active = false;
            fail("memory-corruption", "free of an unknown or already freed chunk");
        }
    } else {
        __real_free(p);
    }
}

void* do_aligned(size_t align, size_t size) {
    if (!active)
        return __real_aligned_alloc(align, size);
    if (in_tiro)
        mem.total_allocs++;
    if (should_fail(size))
        return nullptr;
    if (align <= 16) {
        // large objects: accounted like chunks
        return small_alloc(size, tag_aligned);
    }
    return chunk_alloc(align, size);
}

} // namespace

void arena_begin(u64 layout_seed) {
    static bool mapped = false;
    if (!mapped) {
        void* r = mmap((void*) small_base, small_size, PROT_READ | PROT_WRITE,
            MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE | MAP_NORESERVE, -1, 0);
        if (r == MAP_FAILED) {
            std::perror("mmap");
            _exit(3);
        }
        mapped = true;
    }
    bump = small_base;
    large_bump = large_base;
    rng = layout_seed;
    perturb = layout_seed != 0;
    if (perturb) {
        bump += (rnd() & 0xffff) * 16;
        large_bump += (rnd() & 0xfff) << 16;
    }
    active = true;
}

void arena_check() {
    for (Block* b = live_head; b; b = b->next)
        check_block(b);
    for (auto* b : quarantine)
        if (b)
            check_freed(b);
}

std::string arena_leaks(u64 max_items) {
    std::string r;
    u64 n = 0;
    for (Block* b = live_head; b; b = b->next) {
        if ((b->tag & (u32) Tag::Tiro) && n++ < max_items)
            r += strf("#%u (%llu bytes) ", b->seq, (unsigned long long) b->size);
    }
    for (u32 i = 0; i < chunk_count; ++i)
        if (chunks[i].tag == (u32) Tag::Tiro && n++ < max_items)
            r += strf("chunk (%zu bytes) ", chunks[i].size);
    return r;
}

void oom_reset() {
    oom_after = -1;
    oom_count = 1;
    oom_min_size = 0;
    oom_filter = nullptr;
}

void arena_deactivate() { active = false; }

} // namespace sim

extern "C" {
void* __wrap_malloc(size_t size) {
    void* r = sim::do_alloc(size);
    if (!r)
        errno = ENOMEM;
    return r;
}
void* __wrap_calloc(size_t n, size_t size) {
    size_t total;
    if (__builtin_mul_overflow(n, size, &total))
        return nullptr;
    void* r = sim::do_alloc(total);
    if (r)
        std::memset(r, 0, total);
    return r;
}
void* __wrap_realloc(void* p, size_t size) {
    if (!p)
        return __wrap_malloc(size);
    if (!sim::in_small(p))
        return __real_realloc(p, size);
    void* r = sim::do_alloc(size);
    if (!r)
        return nullptr;
    size_t old = ((sim::Block*) p - 1)->size;
    std::memcpy(r, p, old < size ? old : size);
    sim::do_free(p);
    return r;
}
void __wrap_free(void* p) { sim::do_free(p); }
void* __wrap_aligned_alloc(size_t align, size_t size) { return sim::do_aligned(align, size); }
int __wrap_posix_memalign(void** out, size_t align, size_t size) {
    void* r = sim::do_aligned(align, size);
    if (!r)
        return ENOMEM;
    *out = r;
    return 0;
}
}

void* operator new(size_t size) {
    void* r = sim::do_alloc(size);
    if (!r)
        throw std::bad_alloc();
    return r;
}
void* operator new[](size_t size) { return operator new(size); }
void* operator new(size_t size, const std::nothrow_t&) noexcept { return sim::do_alloc(size); }
void* operator new[](size_t size, const std::nothrow_t&) noexcept { return sim::do_alloc(size); }
void* operator new(size_t size, std::align_val_t al) {
    void* r = (size_t) al <= 16 ? sim::do_alloc(size) : sim::do_aligned((size_t) al, size);
    if (!r)
        throw std::bad_alloc();
    return r;
}
void* operator new[](size_t size, std::align_val_t al) { return operator new(size, al); }
void operator delete(void* p) noexcept { sim::do_free(p); }
void operator delete[](void* p) noexcept { sim::do_free(p); }
void operator delete(void* p, size_t) noexcept { sim::do_free(p); }
void operator delete[](void* p, size_t) noexcept { sim::do_free(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { sim::do_free(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { sim::do_free(p); }
void operator delete(void* p, std::align_val_t) noexcept { sim::do_free(p); }
void operator delete[](void* p, std::align_val_t) noexcept { sim::do_free(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { sim::do_free(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { sim::do_free(p); }
