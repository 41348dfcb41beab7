#!/usr/bin/env python3
"""Builds the simulator binary from /repo's working tree and /verif/sim.

Objects are cached by the content of everything they depend on, so that a changed source is always rebuilt.
"""
import hashlib, os, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("TIRO_REPO", "/repo")
WRAP = ["fopen", "malloc", "calloc", "realloc", "free", "aligned_alloc", "posix_memalign",
        "clock_gettime", "gettimeofday", "time", "clock"]


def find_cxx():
    for c in ("g++-12", "g++"):
        for d in os.environ.get("PATH", "").split(":"):
            if os.path.exists(os.path.join(d, c)):
                return c
    raise SystemExit("no compiler")


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def digest(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:32]


def read(p):
    with open(p, "rb") as f:
        return f.read()


def listing(root, exts):
    out = []
    for d, _, fs in os.walk(root):
        for f in fs:
            if f.endswith(exts):
                out.append(os.path.join(d, f))
    return sorted(out)


PCH = """#include <algorithm>
#include <array>
#include <functional>
#include <limits>
#include <memory>
#include <new>
#include <optional>
#include <string>
#include <string_view>
#include <tuple>
#include <type_traits>
#include <unordered_map>
#include <utility>
#include <variant>
#include <vector>
#include <cmath>
#include <cstring>
#include <chrono>
#include "fmt/format.h"
#include "absl/container/flat_hash_map.h"
#include "absl/container/flat_hash_set.h"
#include "absl/container/inlined_vector.h"
"""


def version_header(builddir):
    text = read(os.path.join(REPO, "include/tiro/version.h.in")).decode()
    import re

    def sub(m):
        name = m.group(1).lower()
        return {"major": "0", "minor": "1", "patch": "0"}.get(
            next((k for k in ("major", "minor", "patch") if k in name), ""), "0")
    text = re.sub(r"@([A-Za-z_0-9]+)@", sub, text)
    text = re.sub(r"\$\{([A-Za-z_0-9]+)\}", sub, text)
    text = re.sub(r"#cmakedefine01\s+(\S+)", r"#define \1 0", text)
    text = re.sub(r"#cmakedefine\s+(\S+).*", r"/* #undef \1 */", text)
    d = os.path.join(builddir, "gen/tiro")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "version.h")
    if not os.path.exists(p) or read(p).decode() != text:
        with open(p, "w") as f:
            f.write(text)
    return text


def shadow_headers(builddir):
    """absl hash tables are not exception safe: an allocation refused inside of one destroys the table. The destructor of
    nlohmann::json allocates and terminates the process if that fails. The simulator does not refuse these allocations
    (both are dependencies, not the code under test)."""
    import re
    d = os.path.join(builddir, "shadow")
    edits = [
        ("absl/container/internal/container_memory.h", r"(void\* Allocate\(Alloc\* alloc, size_t n\) \{)"),
        ("absl/container/node_hash_map.h", r"(static value_type\* new_element\(Allocator\* alloc, Args&&\.\.\. args\) \{)"),
        ("nlohmann/json.hpp", r"(void destroy\(value_t t\)[^{;]*\{)"),
    ]
    guard = ("#ifndef SIM_NOFAIL_GUARD\n#define SIM_NOFAIL_GUARD\nextern int sim_nofail;\n"
             "struct SimNoFail { SimNoFail() { ++sim_nofail; } ~SimNoFail() { --sim_nofail; } };\n#endif\n")
    text_all = ""
    for name, pat in edits:
        text = read(os.path.join("/usr/include", name)).decode()
        new, n = re.subn(pat, r"\1 ::SimNoFail sim_no_fail_guard;", text)
        if n != 1:
            raise SystemExit("cannot instrument " + name)
        new = guard + new
        p = os.path.join(d, name)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        if not os.path.exists(p) or read(p).decode() != new:
            with open(p, "w") as f:
                f.write(new)
        text_all += new
    return text_all


def build(variant="sim", quiet=False, jobs=8):
    t0 = time.time()
    cxx = find_cxx()
    builddir = os.path.join(VERIF, "build", variant)
    cache = os.path.join(builddir, "cache")
    os.makedirs(cache, exist_ok=True)
    version = version_header(builddir)
    version += shadow_headers(builddir)
    common = ["-std=gnu++17", "-fno-rtti", "-fpermissive", "-w", "-fno-pie", "-g0",
              "-DTIRO_BUILDING_LIBRARY", "-DTIRO_SIM_HOOKS", "-DFMT_SHARED",
              "-I" + os.path.join(REPO, "src"), "-I" + os.path.join(REPO, "include"),
              "-I" + os.path.join(builddir, "gen"), "-I" + os.path.join(builddir, "shadow"),
              "-isystem", "/usr/include/utf8cpp", "-isystem", "/opt/vp/deps/cxxopts/include"]
    if variant == "asan":
        common += ["-O1", "-fsanitize=address,undefined", "-fno-omit-frame-pointer"]
    elif variant == "debug":
        common += ["-O0", "-g1"]
    elif variant == "release":
        common += ["-O2", "-DNDEBUG"]
    elif variant == "cov":
        common += ["-O1", "-g1"]
    else:
        common += ["-O1"]

    headers = listing(os.path.join(REPO, "src"), (".hpp", ".h", ".ipp", ".inl")) + \
        listing(os.path.join(REPO, "include"), (".h", ".hpp", ".in"))
    hh = digest(*[h + "\0" + digest(read(h)) for h in headers], version)
    simh = digest(*[digest(read(h)) for h in listing(os.path.join(VERIF, "sim"), (".hpp",))])
    pub = digest(*[digest(read(h)) for h in listing(os.path.join(REPO, "include"), (".h", ".hpp", ".in"))],
                 digest(read(os.path.join(REPO, "src/vm/heap/sim_hooks.hpp"))), version)

    pchdir = os.path.join(builddir, "pch")
    os.makedirs(pchdir, exist_ok=True)
    pchk = digest(PCH, " ".join(common), cxx, version)
    pchh = os.path.join(pchdir, "pch.hpp")
    stamp = os.path.join(pchdir, "stamp")
    if not os.path.exists(stamp) or read(stamp).decode() != pchk:
        with open(pchh, "w") as f:
            f.write(PCH)
        r = sh([cxx] + common + ["-x", "c++-header", pchh, "-o", pchh + ".gch"])
        if r.returncode:
            print(r.stdout)
            raise SystemExit("pch failed")
        with open(stamp, "w") as f:
            f.write(pchk)

    jobs_list = []
    for src in listing(os.path.join(REPO, "src"), (".cpp",)):
        rel = os.path.relpath(src, REPO)
        flags = list(common) + ["-include", pchh]
        if rel.startswith("src/run/"):
            flags += ["-Dmain=tiro_cli_main", "-frtti", "-fexceptions"]
            flags = [f for f in flags if f not in ("-fno-rtti", "-include", pchh)]
        if variant == "cov":
            flags += ["-fsanitize-coverage=trace-pc"]
        key = digest(digest(read(src)), hh, " ".join(flags), cxx, rel)
        jobs_list.append((src, flags, key, rel))
    for src in listing(os.path.join(VERIF, "sim"), (".cpp",)):
        rel = os.path.relpath(src, VERIF)
        flags = [f for f in common if f not in ("-w", "-fpermissive", "-DTIRO_BUILDING_LIBRARY")]
        flags += ["-Wall", "-Wno-sign-compare", "-Wno-unused-function", "-Wno-stringop-truncation", "-Wno-format-truncation", "-I" + os.path.join(VERIF, "sim")]
        key = digest(digest(read(src)), simh, pub, " ".join(flags), cxx, rel)
        jobs_list.append((src, flags, key, rel))

    todo = [j for j in jobs_list if not os.path.exists(os.path.join(cache, j[2] + ".o"))]
    todo.sort(key=lambda j: -os.path.getsize(j[0]))
    errors = []

    def compile_one(j):
        src, flags, key, rel = j
        tmp = os.path.join(cache, key + ".tmp.o")
        r = sh([cxx] + flags + ["-c", src, "-o", tmp])
        if r.returncode:
            errors.append((rel, r.stdout))
            return
        if r.stdout.strip() and not quiet and rel.startswith("sim/"):
            print(r.stdout)
        os.rename(tmp, os.path.join(cache, key + ".o"))

    with ThreadPoolExecutor(jobs) as ex:
        list(ex.map(compile_one, todo))
    if errors:
        for rel, out in errors:
            print("compile error in", rel)
            print(out[-6000:])
        raise SystemExit(2)

    objs = [os.path.join(cache, j[2] + ".o") for j in jobs_list]
    exe = os.path.join(builddir, "tirosim")
    linkkey = digest(*[j[2] for j in jobs_list], "v3")
    stamp = os.path.join(builddir, "link.stamp")
    if not os.path.exists(exe) or not os.path.exists(stamp) or read(stamp).decode() != linkkey:
        absl = []
        import glob
        for a in sorted(glob.glob("/usr/lib/x86_64-linux-gnu/libabsl_*.a")):
            absl.append(a)
        # one group: order does not matter
        rsp = os.path.join(builddir, "link.rsp")
        with open(rsp, "w") as f:
            f.write("\n".join(objs))
        cmd = [cxx, "-no-pie", "-rdynamic", "-o", exe + ".tmp", "@" + rsp]
        if variant == "asan":
            cmd += ["-fsanitize=address,undefined"]
        cmd += ["-Wl,--wrap=" + w for w in WRAP]
        cmd += ["-Wl,--start-group"] + absl + ["-Wl,--end-group", "-lfmt", "-lpthread", "-ldl"]
        r = sh(cmd)
        if r.returncode:
            print(r.stdout[-6000:])
            raise SystemExit(2)
        os.rename(exe + ".tmp", exe)
        with open(stamp, "w") as f:
            f.write(linkkey)
    # drop stale objects
    keep = {j[2] + ".o" for j in jobs_list}
    for f in os.listdir(cache):
        if f not in keep:
            os.unlink(os.path.join(cache, f))
    if not quiet:
        print("build: %d objects compiled, %d cached, %.1f s" % (len(todo), len(jobs_list) - len(todo), time.time() - t0))
    return exe


if __name__ == "__main__":
    build(sys.argv[1] if len(sys.argv) > 1 else "sim")
