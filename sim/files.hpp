#pragma once
#include "core.hpp"

#include <cstdio>
#include <functional>

namespace sim {
// Installed by scenarios. The second returns the size or -1 and an errno.
extern std::function<FILE*(const char*, const char*)> on_fopen;
extern std::function<i64(const char*, int&)> on_file_size;
} // namespace sim
