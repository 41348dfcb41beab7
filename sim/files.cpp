// The file system seam of the command line runner: fopen() and the functions that report a file's size. Outside of the
// scenarios that install a file system, everything is passed through.
#include "files.hpp"

#include <cerrno>
#include <cstdio>
#include <filesystem>
#include <sys/stat.h>
using namespace sim;

namespace sim {
std::function<FILE*(const char*, const char*)> on_fopen;
std::function<i64(const char*, int&)> on_file_size;
} // namespace sim

extern "C" FILE* __real_fopen(const char*, const char*);
extern "C" FILE* __wrap_fopen(const char* p, const char* m) {
    if (!on_fopen)
        return __real_fopen(p, m);
    InHost in;
    return on_fopen(p, m);
}

// Replace the functions of the standard library.
namespace std::filesystem {

uintmax_t file_size(const path& p, error_code& ec) noexcept {
    int err = 0;
    if (on_file_size) {
        InHost in;
        i64 n = on_file_size(p.c_str(), err);
        if (n >= 0) {
            ec.clear();
            return (uintmax_t) n;
        }
    } else {
        struct stat st;
        if (::stat(p.c_str(), &st) == 0) {
            if (S_ISREG(st.st_mode)) {
                ec.clear();
                return (uintmax_t) st.st_size;
            }
            err = S_ISDIR(st.st_mode) ? EISDIR : ENOTSUP;
        } else {
            err = errno;
        }
    }
    ec.assign(err, std::generic_category());
    return (uintmax_t) -1;
}

uintmax_t file_size(const path& p) {
    error_code ec;
    auto n = file_size(p, ec);
    if (ec)
        throw filesystem_error("cannot get file size", p, ec);
    return n;
}

} // namespace std::filesystem
