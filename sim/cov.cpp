// Which code the simulated runs reach (build variant "cov", tools/coverage.py): one byte per code address, shared by all
// processes of a search.
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <sys/mman.h>

extern "C" char __executable_start;
extern "C" char etext;

static unsigned char* map;
static size_t map_size;

extern "C" __attribute__((visibility("default"))) void __sanitizer_cov_trace_pc() {
    if (map)
        map[(char*) __builtin_return_address(0) - &__executable_start] = 1;
}

__attribute__((constructor)) static void cov_begin() {
    if (!std::getenv("SIM_COV"))
        return;
    map_size = (size_t) (&etext - &__executable_start) + 16;
    void* p = mmap(nullptr, map_size, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (p != MAP_FAILED)
        map = (unsigned char*) p;
}

void cov_write() {
    const char* path = std::getenv("SIM_COV");
    if (!map || !path)
        return;
    if (FILE* f = std::fopen(path, "w")) {
        for (size_t i = 0; i < map_size; ++i)
            if (map[i])
                std::fprintf(f, "%lx\n", (unsigned long) (&__executable_start + i));
        std::fclose(f);
    }
}
