// Driver: seeded search, replay and minimisation. Every run is a forked child, so that each starts from the same state.
#include "core.hpp"
#include "shared.hpp"

#include <algorithm>
#include <atomic>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <execinfo.h>
#include <fstream>
#include <map>
#include <sstream>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

namespace sim {
void hooks_init();
void arena_deactivate();
void warmup();
} // namespace sim

using namespace sim;

static bool opt_thorough = false;
static int cpu_limit_s = 20;

static double now_s() {
    timespec ts;
    clock_gettime(CLOCK_MONOTONIC, &ts);
    return (double) ts.tv_sec + (double) ts.tv_nsec * 1e-9;
}

template<typename T>
static T* shared_alloc(size_t n = 1) {
    void* p = mmap(nullptr, sizeof(T) * n, PROT_READ | PROT_WRITE,
        MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) {
        std::perror("mmap");
        std::exit(3);
    }
    return static_cast<T*>(p);
}

// ---------------------------------------------------------------- one run
struct Outcome {
    Status status = Status::None;
    std::string cls, msg;
    u64 hash = 0;
    u64 events = 0;
    u32 cpu_ms = 0;
    bool violation() const { return status == Status::Violation; }
};

static char alt_stack[1 << 16];

static void crash_handler(int sig, siginfo_t*, void*) {
    if (sh && sh->status == Status::None) {
        const char* n = sig == SIGSEGV ? "SIGSEGV"
                        : sig == SIGABRT ? "SIGABRT"
                        : sig == SIGBUS  ? "SIGBUS"
                        : sig == SIGFPE  ? "SIGFPE"
                        : sig == SIGILL  ? "SIGILL"
                        : sig == SIGPROF ? "SIGPROF"
                                         : "signal";
        if (sig == SIGPROF) {
            std::snprintf(sh->cls, sizeof(sh->cls), "hang");
            std::snprintf(sh->msg, sizeof(sh->msg), "no progress: the run used %d s of cpu time", cpu_limit_s);
        } else {
            std::snprintf(sh->cls, sizeof(sh->cls), "crash:%s", n);
            std::snprintf(sh->msg, sizeof(sh->msg), "the process crashed with %s", n);
        }
        sh->status = Status::Violation;
        arena_deactivate();
        sh->bt_count = (u32) backtrace(sh->bt, 24);
    }
    _exit(1);
}

static void terminate_handler() {
    if (sh && sh->status == Status::None) {
        arena_deactivate();
        std::snprintf(sh->cls, sizeof(sh->cls), "crash:terminate");
        std::string what = "std::terminate was called";
        if (auto p = std::current_exception()) {
            try {
                std::rethrow_exception(p);
            } catch (const std::exception& e) {
                what += std::string(" with exception: ") + e.what();
            } catch (...) {
            }
        }
        std::snprintf(sh->msg, sizeof(sh->msg), "%s", what.c_str());
        sh->status = Status::Violation;
        sh->bt_count = (u32) backtrace(sh->bt, 24);
    }
    _exit(1);
}

static const Scenario* find_scenario(const std::string& id) {
    for (auto& s : scenarios())
        if (id == s.id)
            return &s;
    return nullptr;
}

static void child_main(Shared* shared, const Scenario& sc, u64 seed) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    stack_t ss{};
    ss.ss_sp = alt_stack;
    ss.ss_size = sizeof(alt_stack);
    sigaltstack(&ss, nullptr);
    struct sigaction sa{};
    sa.sa_sigaction = crash_handler;
    sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_RESETHAND;
    for (int s : {SIGSEGV, SIGABRT, SIGBUS, SIGFPE, SIGILL, SIGPROF})
        sigaction(s, &sa, nullptr);
    std::set_terminate(terminate_handler);
    rlimit rl{0, 0};
    setrlimit(RLIMIT_CORE, &rl);
    itimerval it{};
    it.it_value.tv_sec = cpu_limit_s;
    setitimer(ITIMER_PROF, &it, nullptr);

    begin_run(shared, seed, opt_thorough);
    // every run starts in one of many address space layouts
    u32 layout = stream("layout").pick(1u << 16);
    arena_begin(layout);
    sc.run();
    arena_check();
    in_tiro = false;
    shared->status = Status::Ok;
    std::fflush(stdout);
    _exit(0);
}

static Outcome run_once(Shared* shared, const Scenario& sc, u64 seed, bool replay) {
    shared->status = Status::None;
    shared->replay = replay;
    shared->trace_truncated = false;
    shared->seed = seed;
    shared->hash = 0x12345;
    shared->events = 0;
    shared->cls[0] = shared->msg[0] = 0;
    shared->trace_len = 0;
    shared->bt_count = 0;
    if (!replay)
        shared->stream_count = 0;
    std::fflush(nullptr);
    pid_t pid = fork();
    if (pid < 0) {
        std::perror("fork");
        std::exit(3);
    }
    if (pid == 0) {
        child_main(shared, sc, seed);
        _exit(0);
    }
    int st = 0;
    rusage ru{};
    while (wait4(pid, &st, 0, &ru) < 0 && errno == EINTR) {
    }
    Outcome o;
    o.cpu_ms = (u32) (ru.ru_utime.tv_sec * 1000 + ru.ru_utime.tv_usec / 1000 + ru.ru_stime.tv_sec * 1000 + ru.ru_stime.tv_usec / 1000);
    o.status = shared->status;
    o.cls = shared->cls;
    o.msg = shared->msg;
    o.hash = shared->hash;
    o.events = shared->events;
    if (o.status == Status::None) {
        o.status = Status::Violation;
        if (WIFSIGNALED(st)) {
            o.cls = strf("crash:signal%d", WTERMSIG(st));
            o.msg = strf("the process was killed by signal %d", WTERMSIG(st));
            if (WTERMSIG(st) == SIGKILL)
                o.status = Status::None; // out of memory killer or operator: not a verdict
        } else {
            o.cls = "exit";
            o.msg = strf("the process exited unexpectedly with code %d", WEXITSTATUS(st));
            if (WEXITSTATUS(st) == 3)
                o.status = Status::None;
        }
        std::snprintf(shared->cls, sizeof(shared->cls), "%s", o.cls.c_str());
        std::snprintf(shared->msg, sizeof(shared->msg), "%s", o.msg.c_str());
    }
    return o;
}

// ---------------------------------------------------------------- replay files
struct Recording {
    std::string scenario;
    u64 seed = 0;
    std::string cls;
    std::vector<std::pair<std::string, std::vector<u32>>> streams;
    std::vector<std::vector<std::pair<u32, u32>>> segs;
};

static Recording capture(Shared* s, const std::string& scenario, u64 seed, const std::string& cls) {
    Recording r;
    r.scenario = scenario;
    r.seed = seed;
    r.cls = cls;
    for (u32 i = 0; i < s->stream_count; ++i) {
        auto& slot = s->streams[i];
        u32 n = std::min(slot.count, slot.used);
        std::vector<u32> v(slot.values, slot.values + n);
        while (!v.empty() && v.back() == 0)
            v.pop_back(); // missing values read as zero
        r.streams.emplace_back(slot.name, v);
        std::vector<std::pair<u32, u32>> sg;
        for (u32 k = 0; k < slot.seg_count; ++k)
            if (slot.segs[k][0] < v.size())
                sg.emplace_back(slot.segs[k][0], std::min<u32>(slot.segs[k][1], (u32) v.size()));
        r.segs.push_back(sg);
    }
    return r;
}

static void load_into(Shared* s, const Recording& r) {
    s->stream_count = (u32) r.streams.size();
    for (size_t i = 0; i < r.streams.size(); ++i) {
        auto& slot = s->streams[i];
        std::snprintf(slot.name, sizeof(slot.name), "%s", r.streams[i].first.c_str());
        slot.count = (u32) r.streams[i].second.size();
        slot.used = 0;
        slot.seg_count = 0;
        std::copy(r.streams[i].second.begin(), r.streams[i].second.end(), slot.values);
    }
}

static void write_replay(const std::string& path, Shared* s, const Recording& r, const Outcome& o) {
    std::ofstream f(path);
    f << "tirosim-replay 1\n";
    f << "scenario " << r.scenario << "\n";
    f << "tier " << (opt_thorough ? "thorough" : "quick") << "\n";
    f << "seed " << r.seed << "\n";
    f << "class " << o.cls << "\n";
    f << "hash " << o.hash << "\n";
    std::string m = o.msg;
    std::replace(m.begin(), m.end(), '\n', ' ');
    f << "message " << m << "\n";
    for (auto& [name, v] : r.streams) {
        f << "stream " << name;
        for (u32 x : v)
            f << ' ' << x;
        f << "\n";
    }
    if (s->bt_count) {
        f << "backtrace\n";
        char** syms = backtrace_symbols(s->bt, (int) s->bt_count);
        for (u32 i = 0; syms && i < s->bt_count; ++i)
            f << "  " << syms[i] << "\n";
        std::free(syms);
    }
    f << "trace" << (s->trace_truncated ? " (truncated)" : "") << "\n";
    f.write(s->trace, s->trace_len);
}

static bool read_replay(const std::string& path, Recording& r) {
    std::ifstream f(path);
    std::string line;
    if (!std::getline(f, line) || line.rfind("tirosim-replay", 0) != 0)
        return false;
    while (std::getline(f, line)) {
        std::istringstream is(line);
        std::string k;
        is >> k;
        if (k == "scenario")
            is >> r.scenario;
        else if (k == "seed")
            is >> r.seed;
        else if (k == "class")
            std::getline(is >> std::ws, r.cls);
        else if (k == "tier") {
            std::string t;
            is >> t;
            opt_thorough = t == "thorough";
        } else if (k == "stream") {
            std::string n;
            is >> n;
            std::vector<u32> v;
            u32 x;
            while (is >> x)
                v.push_back(x);
            r.streams.emplace_back(n, v);
        } else if (k == "trace" || k == "backtrace")
            break;
    }
    return !r.scenario.empty();
}

// ---------------------------------------------------------------- minimisation
struct Minimiser {
    Shared* shared;
    const Scenario& sc;
    Recording best;
    Outcome outcome;
    double deadline;
    u64 tried = 0, accepted = 0;

    static size_t cost(const Recording& r) {
        size_t n = 0;
        for (auto& s : r.streams)
            n += s.second.size();
        return n;
    }
    static u64 weight(const Recording& r) {
        u64 n = 0;
        for (auto& s : r.streams)
            for (u32 v : s.second)
                n += v;
        return n;
    }

    bool attempt(Recording cand) {
        if (now_s() > deadline)
            return false;
        ++tried;
        load_into(shared, cand);
        Outcome o = run_once(shared, sc, best.seed, true);
        if (!o.violation() || o.cls != best.cls)
            return false;
        Recording got = capture(shared, best.scenario, best.seed, best.cls);
        auto c1 = cost(got), c0 = cost(best);
        if (c1 > c0 || (c1 == c0 && weight(got) >= weight(best)))
            return false;
        best = got;
        outcome = o;
        ++accepted;
        return true;
    }

    bool pass() {
        bool any = false;
        // truncate
        for (size_t i = 0; i < best.streams.size(); ++i) {
            for (size_t keep = 0; keep < best.streams[i].second.size();
                 keep = keep ? keep * 2 : 1) {
                Recording c = best;
                c.streams[i].second.resize(keep);
                if (attempt(c)) {
                    any = true;
                    break;
                }
            }
        }
        // drop structural units, large ones first
        for (size_t i = 0; i < best.streams.size(); ++i) {
            bool again = true;
            while (again && now_s() < deadline) {
                again = false;
                auto sg = best.segs[i];
                std::sort(sg.begin(), sg.end(), [](auto& a, auto& b) {
                    return a.second - a.first > b.second - b.first;
                });
                for (auto& [b, e] : sg) {
                    if (e > best.streams[i].second.size())
                        continue;
                    Recording c = best;
                    auto& v = c.streams[i].second;
                    v.erase(v.begin() + b, v.begin() + e);
                    if (attempt(c)) {
                        any = again = true;
                        break;
                    }
                }
            }
        }
        // drop and zero chunks
        for (size_t i = 0; i < best.streams.size(); ++i) {
            for (size_t chunk : {64, 16, 8, 4, 3, 2, 1}) {
                for (size_t p = 0; p < best.streams[i].second.size() && now_s() < deadline;) {
                    size_t n = std::min(chunk, best.streams[i].second.size() - p);
                    Recording c = best;
                    auto& v = c.streams[i].second;
                    v.erase(v.begin() + (long) p, v.begin() + (long) (p + n));
                    if (attempt(c)) {
                        any = true;
                        continue;
                    }
                    c = best;
                    bool nonzero = false;
                    for (size_t k = p; k < p + n; ++k) {
                        nonzero |= c.streams[i].second[k] != 0;
                        c.streams[i].second[k] = 0;
                    }
                    if (nonzero && attempt(c))
                        any = true;
                    p += chunk;
                }
            }
        }
        // lower values
        for (size_t i = 0; i < best.streams.size(); ++i) {
            for (size_t p = 0; p < best.streams[i].second.size() && now_s() < deadline; ++p) {
                u32 v = best.streams[i].second[p];
                for (u32 nv : {v / 2, v - 1}) {
                    if (v == 0 || nv >= v)
                        continue;
                    Recording c = best;
                    c.streams[i].second[p] = nv;
                    if (attempt(c)) {
                        any = true;
                        break;
                    }
                }
            }
        }
        return any;
    }
};

// ---------------------------------------------------------------- search
struct Global {
    std::atomic<u64> next;
    std::atomic<u64> slowest; // cpu ms << 40 | seed offset
    std::atomic<u64> runs, ok, discarded, violations, anomalies, rechecked, nondeterministic, events, nontrivial;
    std::atomic<int> stop;
    std::atomic<u64> distinct;
    std::atomic<u32> found;
    std::atomic<u64> per_scenario[128];
};
constexpr u64 hash_slots = 1u << 21;

static bool insert_hash(std::atomic<u64>* table, u64 h) {
    if (h == 0)
        h = 1;
    for (u64 i = 0; i < 64; ++i) {
        auto& slot = table[(h + i) % hash_slots];
        u64 cur = slot.load();
        if (cur == h)
            return false;
        if (cur == 0) {
            u64 e = 0;
            if (slot.compare_exchange_strong(e, h))
                return true;
            if (e == h)
                return false;
        }
    }
    return false;
}

static std::string json_escape(const std::string& s) {
    std::string r;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') {
            r += '\\';
            r += (char) c;
        } else if (c < 0x20 || c >= 0x7f) {
            char b[8];
            std::snprintf(b, sizeof b, "\\u%04x", c);
            r += b;
        } else
            r += (char) c;
    }
    return r;
}

static const Scenario& choose(const std::vector<const Scenario*>& list, u64 seed) {
    u64 total = 0;
    for (auto* s : list)
        total += s->weight;
    u64 x = (seed * 0x9e3779b97f4a7c15ull) >> 20;
    u64 r = x % total;
    for (auto* s : list) {
        if (r < s->weight)
            return *s;
        r -= s->weight;
    }
    return *list[0];
}

static std::map<std::string, std::string> parse(int argc, char** argv, int from) {
    std::map<std::string, std::string> m;
    for (int i = from; i < argc; ++i) {
        std::string a = argv[i];
        if (a.rfind("--", 0) == 0 && i + 1 < argc && std::strncmp(argv[i + 1], "--", 2) != 0) {
            m[a.substr(2)] = argv[i + 1];
            ++i;
        } else if (a.rfind("--", 0) == 0)
            m[a.substr(2)] = "1";
        else
            m["arg" + std::to_string(m.size())] = a;
    }
    return m;
}

static int cmd_search(std::map<std::string, std::string> opt) {
    const std::string prop = opt["property"];
    const u64 base = std::strtoull(opt["seed-base"].c_str(), nullptr, 10);
    const double time_s = opt.count("time") ? std::atof(opt["time"].c_str()) : 10;
    const int jobs = opt.count("jobs") ? std::atoi(opt["jobs"].c_str()) : 8;
    const u64 max_runs = opt.count("max-runs") ? std::strtoull(opt["max-runs"].c_str(), nullptr, 10) : ~0ull;
    const u64 min_runs = opt.count("min-runs") ? std::strtoull(opt["min-runs"].c_str(), nullptr, 10) : 0;
    const std::string out = opt.count("out") ? opt["out"] : ".";
    const std::string only = opt.count("scenario") ? opt["scenario"] : "";
    const u32 max_found = opt.count("max-found") ? (u32) std::atoi(opt["max-found"].c_str()) : 4;

    std::vector<const Scenario*> list;
    for (auto& s : scenarios())
        if (only.empty() ? prop == s.property : only == s.id)
            list.push_back(&s);
    if (list.empty()) {
        std::fprintf(stderr, "no scenario for %s\n", prop.c_str());
        return 2;
    }

    auto* g = shared_alloc<Global>();
    counters = shared_alloc<Counters>();
    auto* hashes = shared_alloc<std::atomic<u64>>(hash_slots);
    const double start = now_s();
    std::vector<pid_t> workers;
    std::fflush(nullptr);
    for (int w = 0; w < jobs; ++w) {
        pid_t pid = fork();
        if (pid == 0) {
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            auto* shared = shared_alloc<Shared>();
            auto* shared2 = shared_alloc<Shared>();
            while (!g->stop) {
                u64 i = g->next++;
                if (i >= max_runs)
                    break;
                double el = now_s() - start;
                if (el > time_s && (i >= min_runs || el > time_s * 6))
                    break;
                u64 seed = base + i;
                const Scenario& sc = choose(list, seed);
                Outcome o = run_once(shared, sc, seed, false);
                g->runs++;
                g->events += o.events;
                g->per_scenario[(size_t) (&sc - scenarios().data())]++;
                if (o.status == Status::Discarded) {
                    g->discarded++;
                    continue;
                }
                if (o.status == Status::None) {
                    g->anomalies++;
                    std::fprintf(stderr, "anomaly seed %llu: %s\n", (unsigned long long) seed, o.msg.c_str());
                    continue;
                }
                {
                    u64 mine = ((u64) o.cpu_ms << 40) | ((seed - base) & ((1ull << 40) - 1)), cur = g->slowest;
                    while (mine > cur && !g->slowest.compare_exchange_weak(cur, mine)) {
                    }
                }
                if (o.events >= 8)
                    if (insert_hash(hashes, o.hash))
                        g->distinct++;
                if (o.status == Status::Ok) {
                    g->ok++;
                    if (i % 16 == 0) { // determinism self-test: same seed again, must be the same execution
                        auto* c = counters;
                        counters = nullptr;
                        Outcome o2 = run_once(shared2, sc, seed, false);
                        counters = c;
                        g->rechecked++;
                        if (o2.hash != o.hash || o2.status != o.status) {
                            g->nondeterministic++;
                            std::fprintf(stderr, "nondeterministic seed %llu (%s)\n", (unsigned long long) seed, sc.id);
                        }
                    }
                    if (i < 24) {
                        std::ofstream f(strf("%s/sample-%llu.txt", out.c_str(), (unsigned long long) i));
                        f << "scenario " << sc.id << " seed " << seed << "\n";
                        f.write(shared->trace, std::min<u32>(shared->trace_len, 1500));
                    }
                    continue;
                }
                g->violations++;
                // gate: the same seed must fail in the same way again
                auto* c = counters;
                counters = nullptr;
                Outcome o2 = run_once(shared2, sc, seed, false);
                counters = c;
                // where the time limit strikes is not part of the execution
                if (o.cls == "hang" && o2.status == Status::Ok) {
                    // close to the time limit on a busy computer: not a hang
                    g->violations--;
                    g->ok++;
                    std::fprintf(stderr, "slow: seed %llu used %u ms and finished in %u ms when repeated\n", (unsigned long long) seed, o.cpu_ms, o2.cpu_ms);
                    continue;
                }
                if (o2.status != o.status || o2.cls != o.cls || (o2.hash != o.hash && o.cls != "hang")) {
                    g->anomalies++;
                    std::fprintf(stderr, "violation of seed %llu (%s: %s) is not reproducible (%s: %s)\n",
                        (unsigned long long) seed, o.cls.c_str(), o.msg.c_str(), o2.cls.c_str(), o2.msg.c_str());
                    continue;
                }
                u32 k = g->found++;
                if (k < max_found) {
                    Recording r = capture(shared, sc.id, seed, o.cls);
                    write_replay(strf("%s/raw-%u.replay", out.c_str(), k), shared, r, o);
                }
                if (k + 1 >= max_found)
                    g->stop = 1;
            }
            _exit(0);
        }
        workers.push_back(pid);
    }
    for (pid_t p : workers) {
        int st;
        while (waitpid(p, &st, 0) < 0 && errno == EINTR) {
        }
    }
    const double wall = now_s() - start;
    std::ofstream f(out + "/summary.json");
    f << "{\n";
    f << " \"property\": \"" << prop << "\",\n \"seed_base\": " << base << ",\n";
    f << " \"runs\": " << g->runs << ",\n \"ok\": " << g->ok << ",\n \"discarded\": " << g->discarded << ",\n";
    f << " \"violations\": " << g->violations << ",\n \"found\": " << std::min<u32>(g->found, max_found) << ",\n";
    f << " \"anomalies\": " << g->anomalies << ",\n \"rechecked\": " << g->rechecked << ",\n";
    f << " \"nondeterministic\": " << g->nondeterministic << ",\n \"events\": " << g->events << ",\n";
    f << " \"slowest_ms\": " << (g->slowest >> 40) << ",\n \"slowest_seed\": " << (base + (g->slowest & ((1ull << 40) - 1))) << ",\n";
    f << " \"distinct\": " << g->distinct << ",\n \"wall_s\": " << wall << ",\n";
    f << " \"scenarios\": {";
    bool first = true;
    for (size_t i = 0; i < scenarios().size(); ++i)
        if (g->per_scenario[i]) {
            f << (first ? "" : ", ") << "\"" << scenarios()[i].id << "\": " << g->per_scenario[i];
            first = false;
        }
    f << "},\n";
    for (char kind : {'f', 'p', 's', 't'}) {
        std::map<std::string, u64> m;
        for (auto& c : counters->table)
            if (c.used == 2 && c.name[0] == kind)
                m[c.name + 1] = c.value;
        f << " \"" << (kind == 'f' ? "faults" : kind == 'p' ? "probes" : kind == 's' ? "stats" : "time") << "\": {";
        first = true;
        for (auto& [k, v] : m) {
            f << (first ? "" : ", ") << "\"" << json_escape(k) << "\": " << v;
            first = false;
        }
        f << "}" << (kind == 't' ? "\n" : ",\n");
    }
    f << "}\n";
    return g->found ? 1 : 0;
}

static int cmd_replay(std::map<std::string, std::string> opt) {
    Recording r;
    if (!read_replay(opt["file"], r)) {
        std::fprintf(stderr, "cannot read replay file\n");
        return 2;
    }
    const Scenario* sc = find_scenario(r.scenario);
    if (!sc) {
        std::fprintf(stderr, "unknown scenario %s\n", r.scenario.c_str());
        return 2;
    }
    auto* shared = shared_alloc<Shared>();
    load_into(shared, r);
    Outcome o = run_once(shared, *sc, r.seed, true);
    std::printf("RESULT status=%d class=%s hash=%llu\nmessage: %s\n", (int) o.status, o.cls.c_str(),
        (unsigned long long) o.hash, o.msg.c_str());
    if (opt.count("trace")) {
        if (shared->bt_count) {
            char** syms = backtrace_symbols(shared->bt, (int) shared->bt_count);
            for (u32 i = 0; syms && i < shared->bt_count; ++i)
                std::printf("  %s\n", syms[i]);
        }
        std::fwrite(shared->trace, 1, shared->trace_len, stdout);
    }
    if (opt.count("out")) {
        Recording got = capture(shared, r.scenario, r.seed, o.cls);
        write_replay(opt["out"], shared, got, o);
    }
    return o.violation() ? 1 : o.status == Status::Ok ? 0 : 2;
}

static int cmd_run(std::map<std::string, std::string> opt) {
    u64 seed = std::strtoull(opt["seed"].c_str(), nullptr, 10);
    const Scenario* sc = nullptr;
    std::vector<const Scenario*> list;
    if (opt.count("scenario"))
        sc = find_scenario(opt["scenario"]);
    else {
        for (auto& s : scenarios())
            if (opt["property"] == s.property)
                list.push_back(&s);
        if (!list.empty())
            sc = &choose(list, seed);
    }
    if (!sc) {
        std::fprintf(stderr, "unknown scenario\n");
        return 2;
    }
    u64 n = opt.count("count") ? std::strtoull(opt["count"].c_str(), nullptr, 10) : 1;
    auto* shared = shared_alloc<Shared>();
    int rc = 0;
    for (u64 k = 0; k < n; ++k) {
        const Scenario* s = opt.count("scenario") ? sc : &choose(list, seed + k);
        Outcome o = run_once(shared, *s, seed + k, false);
        std::printf("seed %llu scenario %s status=%d class=%s hash=%llu %s\n", (unsigned long long) (seed + k), s->id,
            (int) o.status, o.cls.c_str(), (unsigned long long) o.hash, o.msg.c_str());
        if (o.violation())
            rc = 1;
        if (opt.count("trace")) {
            if (shared->bt_count) {
                char** syms = backtrace_symbols(shared->bt, (int) shared->bt_count);
                for (u32 i = 0; syms && i < shared->bt_count; ++i)
                    std::printf("  %s\n", syms[i]);
            }
            std::fwrite(shared->trace, 1, shared->trace_len, stdout);
        }
        if (opt.count("out")) {
            Recording got = capture(shared, s->id, seed + k, o.cls);
            write_replay(opt["out"], shared, got, o);
        }
    }
    return rc;
}

static int cmd_minimise(std::map<std::string, std::string> opt) {
    Recording r;
    if (!read_replay(opt["file"], r))
        return 2;
    const Scenario* sc = find_scenario(r.scenario);
    if (!sc)
        return 2;
    const double time_s = opt.count("time") ? std::atof(opt["time"].c_str()) : 30;
    if (r.cls == "hang")
        cpu_limit_s = 5;
    auto* shared = shared_alloc<Shared>();
    load_into(shared, r);
    Outcome o = run_once(shared, *sc, r.seed, true);
    if (!o.violation() || o.cls != r.cls) {
        std::printf("NOT-REPRODUCED status=%d class=%s\n", (int) o.status, o.cls.c_str());
        return 2;
    }
    Recording start = capture(shared, r.scenario, r.seed, r.cls);
    Minimiser m{shared, *sc, start, o, now_s() + time_s};
    const size_t c0 = Minimiser::cost(start);
    while (now_s() < m.deadline && m.pass()) {
    }
    // final run of the minimised record: produces the trace of the replay file
    load_into(shared, m.best);
    Outcome fin = run_once(shared, *sc, r.seed, true);
    if (!fin.violation() || fin.cls != r.cls) {
        std::printf("NOT-REPRODUCED after minimisation\n");
        return 2;
    }
    write_replay(opt["out"], shared, capture(shared, r.scenario, r.seed, r.cls), fin);
    std::printf("MINIMISED choices %zu -> %zu, %llu candidates, %llu accepted\n", c0, Minimiser::cost(m.best),
        (unsigned long long) m.tried, (unsigned long long) m.accepted);
    return 1;
}

void cov_write(); // cov.cpp

int main(int argc, char** argv) {
    // Fixed addresses for everything the executable owns (best effort; the arena is fixed in any case).
    int persona = personality(0xffffffff);
    if (persona != -1 && !(persona & ADDR_NO_RANDOMIZE) && !std::getenv("TIROSIM_NO_REEXEC")) {
        if (personality((unsigned long) persona | ADDR_NO_RANDOMIZE) != -1) {
            setenv("TIROSIM_NO_REEXEC", "1", 1);
            execv("/proc/self/exe", argv);
        }
    }
    if (argc < 2) {
        std::fprintf(stderr, "usage: tirosim search|replay|minimise|run|list ...\n");
        return 2;
    }
    void* bt[4];
    backtrace(bt, 4); // loads libgcc before any run
    hooks_init();
    warmup();
    std::string cmd = argv[1];
    auto opt = parse(argc, argv, 2);
    if (opt.count("tier"))
        opt_thorough = opt["tier"] == "thorough";
    if (opt.count("cpu-limit"))
        cpu_limit_s = std::atoi(opt["cpu-limit"].c_str());
    if (cmd == "list") {
        for (auto& s : scenarios())
            std::printf("%s %s %u\n", s.id, s.property, s.weight);
        return 0;
    }
    if (cmd == "search") {
        int r = cmd_search(opt);
        cov_write();
        return r;
    }
    if (cmd == "replay")
        return cmd_replay(opt);
    if (cmd == "run")
        return cmd_run(opt);
    if (cmd == "minimise")
        return cmd_minimise(opt);
    return 2;
}
