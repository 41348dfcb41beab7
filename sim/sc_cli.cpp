// C19: the command line runner. The real main() runs against a simulated file system (short reads, errors, growth while
// reading, wrong or failing size queries, files that cannot be opened), a simulated terminal or disk behind stdout that can
// fill up, and refused allocations. The model knows what complete files would execute.
#include "files.hpp"
#include "host.hpp"

#include <algorithm>
#include <cerrno>
#include <cstring>
using namespace sim;

int tiro_cli_main(int argc, char** argv);

namespace {

struct Line {
    std::string text;
    int print = -1;     // prints this id when the module is initialised
    bool panic = false; // panics when the module is initialised
    bool broken = false; // does not compile
};

enum class ErrorAfter { Continue, Eof, Again };

struct File {
    std::string name;
    std::vector<Line> lines;
    std::string content;
    // plan
    int open_error = 0;
    i64 error_at = -1;
    int error_code = EIO;
    ErrorAfter after = ErrorAfter::Again;
    int size_error = 0;
    i64 size_lie = -1;
    bool size_huge = false;
    bool short_reads = false;
    i64 grow_at = -1; // the lines are appended when the reader gets here
    std::vector<Line> growth;
    // observed
    u32 opened = 0, closed = 0, errors = 0;
    bool grown = false;
};

struct World {
    Stream* s;
    Stream* f;
    std::vector<File> files;
    u32 next_print = 1;
    int newline = 0;
    // stdout
    std::string out, err;
    i64 out_limit = -1; // bytes accepted before the device fails
    bool out_transient = false;
    bool out_lost = false;
    i64 arm = -1; // allocations from the first opened file to the first refused one
};

World* world = nullptr;

std::string payload(Stream& s, u32 len) {
    static const char* pieces[] = {"a", "b7", "-", "\xc3\xa4", "\xe2\x82\xac", "\xf0\x9f\x98\x80", " ", "xyz", "#", "//", "0123456789", ";"};
    std::string r;
    while (r.size() < len)
        r += pieces[s.pick(12)];
    return r;
}

u32 length(Stream& s) {
    switch (s.weighted({6, 3, 2, 1})) {
    case 0: return s.pick(40);
    case 1: return s.pick(300);
    case 2: return s.pick(2000);
    default: return 4000 + s.pick(6000);
    }
}

Line print_line(World& w, Stream& s) {
    Line l;
    l.print = (int) w.next_print++;
    l.text = strf("const c%d = std.print(\"@@%d \"); const d%d = \"", l.print, l.print, l.print) + payload(s, length(s)) + "\";";
    if (s.chance(1, 2))
        l.text = strf("const c%d = std.print(\"@@%d ", l.print, l.print) + payload(s, length(s)) + "\");";
    return l;
}

Line random_line(World& w, Stream& s) {
    Line l;
    switch (s.weighted({8, 3, 1})) {
    case 0: return print_line(w, s);
    case 1: l.text = "// " + payload(s, length(s)); break;
    case 2: break;
    }
    return l;
}

std::string join(World& w, const std::vector<Line>& lines) {
    std::string r;
    for (auto& l : lines) {
        r += l.text;
        r += w.newline ? "\r\n" : "\n";
    }
    return r;
}

struct Cookie {
    File* file;
    size_t pos = 0;
    bool dead = false; // an error turned into a permanent state
};

ssize_t cookie_read(void* c, char* buf, size_t n) {
    InHost in;
    auto& k = *static_cast<Cookie*>(c);
    File& f = *k.file;
    Stream& s = *world->f;
    if (k.dead) {
        if (f.after == ErrorAfter::Eof)
            return 0;
        ++f.errors;
        errno = f.error_code;
        return -1;
    }
    if (f.grow_at >= 0 && !f.grown && (i64) k.pos >= f.grow_at) {
        f.grown = true;
        f.content += join(*world, f.growth);
        f.lines.insert(f.lines.end(), f.growth.begin(), f.growth.end());
        fault("file_grows_while_reading");
        trace("%s grows to %zu", f.name.c_str(), f.content.size());
    }
    size_t rest = f.content.size() - k.pos;
    size_t take = std::min(n, rest);
    if (f.short_reads && take > 1 && s.chance(2, 3)) {
        take = s.chance(1, 3) ? 1 + s.pick(std::min<size_t>(take, 16)) : 1 + s.pick(take);
        take = std::min(take, std::min(n, rest));
        fault("short_read");
    }
    if (f.grow_at >= 0 && !f.grown && (i64) (k.pos + take) > f.grow_at)
        take = (size_t) f.grow_at - k.pos; // stop exactly at the point of growth
    if (f.error_at >= 0 && (i64) (k.pos + take) >= f.error_at) {
        take = (size_t) f.error_at - k.pos;
        if (take == 0) {
            f.error_at = -1;
            ++f.errors;
            k.dead = f.after != ErrorAfter::Continue;
            fault(f.error_code == EINTR ? "read_interrupted" : "read_error");
            trace("%s read error %d at %zu", f.name.c_str(), f.error_code, k.pos);
            errno = f.error_code;
            return -1;
        }
    }
    if (f.grow_at >= 0 && !f.grown && take == 0 && n > 0 && (i64) k.pos == f.grow_at)
        return cookie_read(c, buf, n);
    memcpy(buf, f.content.data() + k.pos, take);
    k.pos += take;
    trace("%s read %zu", f.name.c_str(), take);
    return (ssize_t) take;
}

int cookie_seek(void* c, off64_t* pos, int whence) {
    InHost in;
    auto& k = *static_cast<Cookie*>(c);
    i64 base = whence == SEEK_SET ? 0 : whence == SEEK_CUR ? (i64) k.pos : (i64) k.file->content.size();
    i64 p = base + *pos;
    if (p < 0 || p > (i64) k.file->content.size())
        return -1;
    k.pos = (size_t) p;
    *pos = p;
    return 0;
}

int cookie_close(void* c) {
    InHost in;
    auto* k = static_cast<Cookie*>(c);
    ++k->file->closed;
    trace("%s closed", k->file->name.c_str());
    delete k;
    return 0;
}

File* find(const char* path) {
    for (auto& f : world->files)
        if (f.name == path)
            return &f;
    return nullptr;
}

FILE* open_file(const char* path, const char* mode) {
    File* f = find(path);
    if (!f) {
        trace("open of unknown file");
        errno = ENOENT;
        return nullptr;
    }
    if (f->open_error) {
        ++f->errors;
        fault("open_failed");
        trace("%s open error %d", path, f->open_error);
        errno = f->open_error;
        return nullptr;
    }
    ++f->opened;
    if (world->arm >= 0) {
        oom_after = world->arm; 
        oom_count = 1 + (i64) world->f->pick(2);
        world->arm = -1;
    }
    trace("%s opened", path);
    cookie_io_functions_t io{cookie_read, nullptr, cookie_seek, cookie_close};
    return fopencookie(new Cookie{f}, "rb", io);
}

i64 size_of(const char* path, int& err) {
    File* f = find(path);
    if (!f) {
        err = ENOENT;
        return -1;
    }
    if (f->size_error) {
        err = f->size_error;
        ++f->errors;
        fault("size_query_failed");
        return -1;
    }
    if (f->size_lie >= 0) {
        fault("size_differs");
        if (f->size_huge)
            ++f->errors; // refusing such a file is fine
        trace("%s size %lld", path, (long long) f->size_lie);
        return f->size_lie;
    }
    return (i64) f->content.size();
}

ssize_t write_out(void*, const char* data, size_t n) {
    InHost in;
    World& w = *world;
    if (w.out_limit >= 0) {
        if ((i64) n > w.out_limit) {
            size_t part = (size_t) w.out_limit;
            w.out.append(data, part);
            w.out_lost = true;
            w.out_limit = w.out_transient ? -1 : 0;
            fault("stdout_write_failed");
            trace("stdout fails at %zu", w.out.size());
            errno = ENOSPC;
            return part; // fewer bytes than requested: an error
        }
        w.out_limit -= (i64) n;
    }
    w.out.append(data, n);
    trace("stdout %zu", n);
    return (ssize_t) n;
}

ssize_t write_err(void*, const char* data, size_t n) {
    InHost in;
    world->err.append(data, n);
    return (ssize_t) n;
}

std::vector<std::string> executed(const std::string& out) {
    std::vector<std::string> r;
    size_t pos = 0;
    while (pos < out.size()) {
        size_t end = out.find('\n', pos);
        if (end == std::string::npos)
            break;
        if (out.compare(pos, 2, "@@") == 0)
            r.push_back(out.substr(pos, end - pos));
        pos = end + 1;
    }
    return r;
}

bool subsequence(const std::vector<std::string>& a, const std::vector<std::string>& b) {
    size_t i = 0;
    for (auto& x : b)
        if (i < a.size() && a[i] == x)
            ++i;
    return i == a.size();
}

std::string printed(const Line& l) {
    size_t begin = l.text.find("\"@@") + 1;
    return l.text.substr(begin, l.text.find('"', begin) - begin);
}

struct Model {
    bool compiles = true;
    bool success = false;
    std::vector<std::string> prints;
    bool prints_optional = false; // nothing at all would be fine as well
    std::string value;
};

enum MainKind { Returns, Panics, Suspends, Overflows, NotAFunction, Missing, NotExported, Parameter, Dispatches, Launches, MainKinds };

} // namespace

SCENARIO(c19_cli, "C19.cli", "C19", 1) {
    World w;
    world = &w;
    w.s = &stream("files");
    w.f = &stream("io");
    Stream& k = stream("knobs");
    Stream& s = *w.s;

    w.newline = k.chance(1, 4);
    const bool memory_only = k.chance(1, 6); // refused allocations are the only fault
    const bool faults = !memory_only && k.chance(2, 3);
    const u32 count = 1 + s.pick(4);
    static const char* names[] = {"a.tro", "dir/b c.tro", "\xc3\xa4.txt", "./x"};
    const u32 main_file = s.pick(count);
    const MainKind kind = (MainKind) k.weighted({8, 3, 2, 1, 1, 1, 1, 1, 2, 2});
    const std::string value = strf("7%07u", (u32) k.pick(10000000));
    std::vector<std::string> main_prints;
    const bool bad_line = k.chance(1, 10);
    const bool bad_import = k.chance(1, 30);
    const bool init_panics = k.chance(1, 10);

    for (u32 i = 0; i < count; ++i) {
        File f;
        f.name = names[i];
        Line import;
        import.text = bad_import && i == count - 1 ? "import std; import unknown_module; const uses_it = unknown_module.x;" : "import std;";
        f.lines.push_back(import);
        const u32 n = s.pick(12);
        for (u32 j = 0; j < n; ++j) {
            Seg seg(s);
            f.lines.push_back(random_line(w, s));
        }
        if (i == main_file && kind != Missing) {
            Line l;
            std::string body;
            auto add_print = [&] {
                std::string text = strf("@@%u main", w.next_print++) + payload(s, s.pick(20));
                main_prints.push_back(text);
                return "std.print(\"" + text + "\"); ";
            };
            for (u32 j = s.pick(3); j > 0; --j)
                body += add_print();
            std::string head = "export func main() {";
            switch (kind) {
            case Panics: body += "std.panic(\"stop\"); "; break;
            case Suspends: body += "std.yield_coroutine(); "; break;
            case Overflows: body += "main(); "; main_prints.clear(); body = "return 1 + main(); "; break;
            case NotExported: head = "func main() {"; break;
            case Parameter: head = "export func main(x) {"; break;
            case Dispatches: body += "std.dispatch(); " + add_print(); break;
            case Launches:
                body += "std.launch(func() { std.dispatch(); " + add_print() + "return 0; }); ";
                break;
            default: break;
            }
            l.text = kind == NotAFunction ? "export const main = 3;" : head + body + "return " + value + "; }";
            f.lines.insert(f.lines.begin() + 1 + s.pick(f.lines.size()), l);
        }
        if (bad_line && i == count - 1) {
            Line l;
            const char* bad[] = {"const q = ;", "export func", "const q = undefined_name;", "\"", "const q = 1; const q = 2;"};
            l.text = bad[s.pick(5)];
            l.broken = true;
            f.lines.insert(f.lines.begin() + 1 + s.pick(f.lines.size()), l);
        }
        if (init_panics && i == count / 2) {
            Line l;
            l.text = "const p = std.panic(\"init\");";
            l.panic = true;
            f.lines.insert(f.lines.begin() + 1 + s.pick(f.lines.size()), l);
        }
        f.content = join(w, f.lines);
        if (k.chance(1, 3)) { // up to or around the size of a chunk
            size_t unit = k.chance(1, 2) ? 4096 : 1024;
            size_t target = (f.content.size() / unit + 1) * unit + k.pick(3) - 1;
            if (target > f.content.size() + 3) {
                Line pad;
                pad.text = "//" + std::string(target - f.content.size() - 3, 'p');
                f.lines.push_back(pad);
                f.content = join(w, f.lines);
                probe("file_padded_to_chunk");
                if (w.newline)
                    f.content.resize(f.content.size() - 1);
            }
        } else if (k.chance(1, 4)) {
            f.content.resize(f.content.size() - (w.newline ? 2 : 1)); // no newline at the end
        }
        w.files.push_back(std::move(f));
    }

    // Fault plan
    std::string plan;
    bool oom = false;
    if (faults) {
        for (auto& f : w.files) {
            if (w.f->chance(1, 2))
                f.short_reads = true;
            switch (w.f->weighted({10, 4, 1, 1, 3, 2, 1})) {
            case 0: break;
            case 1:
                f.error_at = (i64) w.f->pick(f.content.size() + 1);
                f.error_code = w.f->chance(1, 4) ? EINTR : EIO;
                f.after = (ErrorAfter) w.f->pick(3);
                break;
            case 2: f.open_error = w.f->chance(1, 2) ? ENOENT : EACCES; break;
            case 3: f.size_error = ENOENT; break;
            case 4: f.size_lie = (i64) w.f->pick(3 * f.content.size()); break;
            case 5:
                if (f.content.empty() || f.content.back() != '\n')
                    break;
                f.grow_at = (i64) w.f->pick(f.content.size() + 1);
                for (u32 j = 1 + w.f->pick(3); j > 0; --j)
                    f.growth.push_back(print_line(w, *w.f));
                break;
            case 6:
                f.size_lie = (i64) 1 << (40 + w.f->pick(23));
                f.size_huge = true;
                break;
            }
        }
        if (w.f->chance(1, 5)) {
            i64 total = 0; // what the program prints if everything works
            for (auto& f : w.files)
                for (auto& l : f.lines)
                    if (l.print >= 0)
                        total += (i64) printed(l).size() + 1;
            for (auto& l : main_prints)
                total += (i64) l.size() + 1;
            switch (w.f->pick(4)) {
            case 0: w.out_limit = (i64) w.f->pick(200); break;
            case 1: w.out_limit = (i64) w.f->pick(total + 1); break;
            case 2: w.out_limit = total + (i64) w.f->pick(30); break;
            case 3: w.out_limit = (i64) w.f->pick(20000); break;
            }
            w.out_transient = w.f->chance(1, 2);
        }
        if (w.f->chance(1, 6)) {
            oom = true;
            oom_after = (i64) w.f->pick(w.f->chance(1, 2) ? 300 : 20000);
            oom_count = w.f->chance(1, 2) ? 1 + (i64) w.f->pick(3) : -1;
            if (w.f->chance(1, 2)) { // only large requests: buffers, dumps, the compiled module
                oom_min_size = std::vector<size_t>{500, 2000, 8000}[w.f->pick(3)];
                oom_after = (i64) w.f->pick(30);
            }
        }
    }

    if (memory_only)
        oom = true;

    // Command line
    std::vector<std::string> args = {"tiro_run"};
    const bool call = k.chance(9, 10);
    bool dump[4] = {};
    bool usage_error = false;
    if (k.chance(memory_only ? 3 : 1, 4)) {
        for (int i = 0; i < 4; ++i)
            dump[i] = k.chance(1, 2);
        if (k.chance(1, 4))
            std::fill(dump, dump + 4, true);
    }
    std::vector<std::string> in;
    for (auto& f : w.files)
        in.push_back(f.name);
    if (k.chance(1, 40))
        in.push_back(in[k.pick(in.size())]); // twice the same file
    const bool duplicate = in.size() > w.files.size();
    if (k.chance(1, 40)) {
        args.push_back("--unknown");
        usage_error = true;
    }
    if (k.chance(1, 40)) {
        in.clear();
        usage_error = true;
    }
    bool missing_file = false;
    if (k.chance(1, 30) && !in.empty()) {
        in.insert(in.begin() + k.pick(in.size() + 1), "not/there.tro");
        missing_file = true;
    }
    const bool call_first = k.chance(1, 2);
    auto add_call = [&] {
        if (call) {
            args.push_back("--call");
            args.push_back("main");
        }
    };
    if (call_first)
        add_call();
    static const char* dump_flags[] = {"--dump-cst", "--dump-ast", "--dump-ir", "--dump-bytecode"};
    if (dump[0] && dump[1] && dump[2] && dump[3] && k.chance(1, 2))
        args.push_back("--dump");
    else
        for (int i = 0; i < 4; ++i)
            if (dump[i])
                args.push_back(dump_flags[i]);
    args.insert(args.end(), in.begin(), in.end());
    if (!call_first)
        add_call();

    for (auto& a : args)
        note("argument %s", a.c_str());
    for (auto& f : w.files)
        note_text("--- " + f.name + "\n" + f.content);
    std::vector<char*> argv;
    for (auto& a : args)
        argv.push_back(a.data());
    argv.push_back(nullptr);

    if (oom && (memory_only || w.f->chance(1, 2))) { // aim at the end of the compilation, where dumps and the module are handed over
        oom_reset();
        Err e;
        const i64 many = (i64) 1 << 40;
        oom_after = many;
        tiro_compiler_t c = api::compiler_new(ts("main"), &e);
        constexpr tiro_attachment_t kinds[4] = {TIRO_ATTACHMENT_CST, TIRO_ATTACHMENT_AST, TIRO_ATTACHMENT_IR, TIRO_ATTACHMENT_BYTECODE};
        for (int i = 0; i < 4; ++i)
            if (dump[i])
                api::compiler_request_attachment(c, kinds[i], &e);
        for (auto& f : w.files)
            api::compiler_add_file(c, ts(f.name), ts(f.content), &e);
        Err ignored;
        api::compiler_run(c, &ignored);
        const i64 count = many - oom_after;
        oom_reset();
        api::compiler_free(c);
        w.arm = std::max<i64>(0, count - 60 + (i64) w.f->pick(90));
    }

    // Run
    on_fopen = open_file;
    on_file_size = size_of;
    on_heap_alloc = [&](void*, size_t) -> int {
        oom_reset(); // only reading and compiling meet refused allocations, C05 covers execution
        return 0;
    };
    FILE *saved_out = stdout, *saved_err = stderr;
    fflush(stdout);
    cookie_io_functions_t out_io{nullptr, write_out, nullptr, nullptr}, err_io{nullptr, write_err, nullptr, nullptr};
    stdout = fopencookie(nullptr, "w", out_io);
    stderr = fopencookie(nullptr, "w", err_io);
    setvbuf(stdout, nullptr, k.chance(1, 2) ? _IOFBF : _IOLBF, std::vector<size_t>{64, 1024, 4096, 65536}[k.pick(4)]);
    setvbuf(stderr, nullptr, _IONBF, 0);
    const u64 failed = mem.failed;
    int status;
    {
        InTiro tiro;
        status = tiro_cli_main((int) args.size(), argv.data());
    }
    oom_reset();
    on_heap_alloc = nullptr;
    const bool lost_before_exit = w.out_lost;
    fflush(stdout); // what exit() does: failures can no longer change the status
    std::swap(stdout, saved_out);
    std::swap(stderr, saved_err);
    on_fopen = nullptr;
    on_file_size = nullptr;
    trace("status %d", status);
    note_text(w.err);
    const bool refused = mem.failed > failed;
    if (refused)
        fault("allocation_refused");
    probe("output_lost_at_exit", w.out_lost && !lost_before_exit);

    const bool transient = w.out_transient;

    // What should have happened
    Model m;
    m.value = value;
    u32 errors = 0;
    bool panicked = false;
    for (auto& f : w.files) {
        errors += f.errors;
        for (auto& l : f.lines) {
            if (l.broken)
                m.compiles = false;
            if (l.panic)
                panicked = true;
            if (l.print >= 0 && !panicked)
                m.prints.push_back(printed(l));
        }
    }
    if (kind == Parameter || kind == NotAFunction || kind == Missing || kind == NotExported)
        main_prints.clear();
    if (!panicked)
        m.prints.insert(m.prints.end(), main_prints.begin(), main_prints.end());
    m.success = !panicked && (kind == Returns || kind == Dispatches || kind == Launches) && !bad_import;
    m.prints_optional = kind == NotAFunction || kind == Missing || kind == NotExported;
    const bool reaches = m.compiles && !usage_error && !duplicate && !missing_file;
    if (!call) {
        m.prints.clear();
        m.success = true;
    }
    if (!reaches || (call && bad_import)) {
        m.prints.clear();
        m.success = false;
    }

    const auto got = executed(w.out);
    stat("lines_executed", got.size());
    probe("read_fault_met", errors > 0);
    probe("success", status == 0);
    probe("execution_failed", status != 0 && !got.empty());

    // 1. Whatever was executed is what the files say: everything in order up to the end, or nothing.
    if (w.out_lost) {
        SIM_CHECK(status != 0, "lost-output", "output was lost but the exit status is 0");
        if (!transient) // otherwise lines with holes are seen
            SIM_CHECK(subsequence(got, m.prints), "wrong-execution", "executed lines that the files do not contain in this order");
        probe("stdout_failed");
    } else if (got.empty()) {
        // Not executing anything needs a reason
        if (!m.prints.empty() && !m.prints_optional)
            SIM_CHECK(errors > 0 || refused, "not-executed", "nothing was executed although all files were readable (status %d): %s", status, w.err.c_str());
    } else {
        size_t i = 0;
        while (i < got.size() && i < m.prints.size() && got[i] == m.prints[i])
            ++i;
        SIM_CHECK(i == got.size() && i == m.prints.size(), "wrong-execution", "executed %zu lines, the complete files have %zu, first difference at %zu: '%s' instead of '%s'", got.size(),
            m.prints.size(), i, i < got.size() ? got[i].substr(0, 60).c_str() : "", i < m.prints.size() ? m.prints[i].substr(0, 60).c_str() : "");
    }

    // 2. The exit status
    if (status == 0) {
        SIM_CHECK(m.success, "wrong-status", "exit status 0 although the request cannot have succeeded (main kind %d, compiles %d)", (int) kind, (int) m.compiles);
        SIM_CHECK(got.size() == m.prints.size(), "wrong-status", "exit status 0 but only %zu of %zu lines were executed", got.size(), m.prints.size());
        if (call)
            SIM_CHECK(w.out.find(m.value) != std::string::npos, "wrong-status", "exit status 0 but the result %s is not in the output", m.value.c_str());
        // All requested dumps are there
        if (dump[0] || dump[1] || dump[2] || dump[3]) {
            constexpr tiro_attachment_t kinds[4] = {TIRO_ATTACHMENT_CST, TIRO_ATTACHMENT_AST, TIRO_ATTACHMENT_IR, TIRO_ATTACHMENT_BYTECODE};
            Err e;
            tiro_compiler_t c = api::compiler_new(ts("main"), &e);
            expect_ok(e, "compiler_new");
            for (int i = 0; i < 4; ++i)
                if (dump[i])
                    api::compiler_request_attachment(c, kinds[i], &e);
            for (auto& f : w.files)
                api::compiler_add_file(c, ts(f.name), ts(f.content), &e);
            api::compiler_run(c, &e);
            expect_ok(e, "reference compilation");
            for (int i = 0; i < 4; ++i) {
                if (!dump[i])
                    continue;
                char* text = nullptr;
                api::compiler_get_attachment(c, kinds[i], &text, &e);
                expect_ok(e, "get_attachment");
                SIM_CHECK(w.out.find(text) != std::string::npos, "missing-dump", "exit status 0 but %s is not in the output", dump_flags[i]);
                InTiro t;
                free(text);
            }
            api::compiler_free(c);
            probe("dumps_complete");
        }
    } else if (m.success) {
        SIM_CHECK(errors > 0 || refused || w.out_lost, "wrong-status", "exit status %d although everything succeeded: %s", status, w.err.c_str());
        if (got.size() == m.prints.size() && !m.prints.empty() && !w.out_lost && call)
            SIM_CHECK(refused, "wrong-status", "exit status %d after a complete execution: %s", status, w.err.c_str());
    }

    for (auto& f : w.files)
        SIM_CHECK(f.opened == f.closed, "leaked-file", "%s was opened %u times and closed %u times", f.name.c_str(), f.opened, f.closed);
    natives.sync.clear();
    arena_check();
}
