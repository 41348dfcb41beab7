// C15: compilation is deterministic and leaves a module or an error, never both.
//
// One job (module name, files) is compiled several times in one run: at shifted addresses, with other attachments
// requested, while allocations are refused, with message callbacks that abort or use the API themselves, from inside
// a running machine and nested inside the callback of another compilation. All outcomes must agree with the first.
#include "grammar.hpp"
#include "prog.hpp"

#include <algorithm>
#include <cstdlib>
#include <map>
#include <set>
using namespace sim;
using namespace sim::prog;

namespace {

struct Job {
    std::string module;
    std::vector<std::pair<std::string, std::string>> files;
};

struct Outcome {
    tiro_errc_t code = TIRO_OK;
    std::string details;
    std::vector<Message> messages;
    bool has_module = false;
    std::string attachment[4];
    bool has[4] = {};
    u64 allocs = 0;
    bool ran = false;
    bool refused = false; // an allocation was refused during the attempt
};

constexpr tiro_attachment_t kinds[4] = {TIRO_ATTACHMENT_CST, TIRO_ATTACHMENT_AST, TIRO_ATTACHMENT_IR, TIRO_ATTACHMENT_BYTECODE};
constexpr const char* kind_names[4] = {"cst", "ast", "ir", "bytecode"};

struct Attempt {
    u32 mask = 15;
    int abort_at = -1;              // message index for which the callback returns false
    i64 oom_at = -1, oom_n = 1;     // refused allocations
    int stop_at = 99;               // free the compiler at this stage
    bool keep = false;              // hand the module to the caller
    bool module_first = false;      // release the module before the compiler
    bool no_callback = false;
    std::function<void(tiro_compiler_t)> in_callback;
};

struct Sink {
    Outcome* out;
    const Attempt* a;
    tiro_compiler_t comp;
};

bool on_message(const tiro_compiler_message_t* m, void* ud) {
    InHost h;
    auto& sink = *static_cast<Sink*>(ud);
    i64 saved = oom_after;
    oom_after = -1;
    sink.out->messages.push_back({m->severity, str(m->file), str(m->text), m->line, m->column});
    int index = (int) sink.out->messages.size() - 1;
    if (sink.a->in_callback)
        sink.a->in_callback(sink.comp);
    oom_after = saved;
    if (index == sink.a->abort_at) {
        fault("message_callback_aborts");
        return false;
    }
    return true;
}

// Everything that is only valid before or after a run is refused while it is in progress.
void misuse(tiro_compiler_t c) {
    Err e;
    SIM_CHECK(!api::compiler_has_module(c), "module-during-run", "a compiler has a module before its run returned");
    tiro_module_t m = nullptr;
    api::compiler_take_module(c, &m, &e);
    SIM_CHECK(e.code() == TIRO_ERROR_BAD_STATE && !m, "module-during-run", "take_module inside the message callback: %s", e.str().c_str());
    api::compiler_run(c, &e);
    SIM_CHECK(e.code() == TIRO_ERROR_BAD_STATE, "misuse", "nested run of the same compiler: %s", e.str().c_str());
    api::compiler_add_file(c, ts("late"), ts("import std;"), &e);
    SIM_CHECK(e.code() == TIRO_ERROR_BAD_STATE, "misuse", "add_file while running: %s", e.str().c_str());
    api::compiler_request_attachment(c, TIRO_ATTACHMENT_IR, &e);
    SIM_CHECK(e.code() == TIRO_ERROR_BAD_STATE, "misuse", "request_attachment while running: %s", e.str().c_str());
    probe("api_used_in_message_callback");
}

// An error of a call during which allocations may be refused.
bool allowed(const Err& e, u64 failed_before) {
    return e.ok() || (mem.failed > failed_before && e.code() == TIRO_ERROR_ALLOC);
}

Outcome attempt(const Job& job, const Attempt& a, tiro_module_t* keep = nullptr) {
    Outcome out;
    Err e;
    u64 failed = mem.failed, before = mem.total_allocs;
    auto refused = [&] { return mem.failed > failed; };
    oom_after = a.oom_at;
    oom_count = a.oom_n;
    auto finish = [&](tiro_compiler_t c) {
        oom_reset();
        api::compiler_free(c);
        out.refused = refused();
        if (out.refused)
            fault("allocation_refused_in_compilation");
        out.allocs = mem.total_allocs - before;
        return out;
    };

    tiro_compiler_t c = api::compiler_new(ts(job.module), &e);
    SIM_CHECK(allowed(e, failed), "bad-error", "compiler_new: %s", e.str().c_str());
    SIM_CHECK(e.ok() == (c != nullptr), "bad-error", "compiler_new: result and error disagree");
    if (!c) {
        out.code = e.code();
        return finish(nullptr);
    }
    Sink sink{&out, &a, c};
    if (!a.no_callback) {
        api::compiler_set_message_callback(c, on_message, &sink, &e);
        SIM_CHECK(e.ok(), "bad-error", "set_message_callback: %s", e.str().c_str());
    }
    if (a.stop_at == 0)
        return finish(c);
    for (auto& f : job.files) {
        api::compiler_add_file(c, ts(f.first), ts(f.second), &e);
        SIM_CHECK(allowed(e, failed), "bad-error", "add_file: %s", e.str().c_str());
        if (!e.ok()) { // the file was not added, adding it again must work
            api::compiler_add_file(c, ts(f.first), ts(f.second), &e);
            if (!e.ok()) {
                SIM_CHECK(allowed(e, failed), "bad-error", "add_file: %s", e.str().c_str());
                out.code = e.code();
                return finish(c);
            }
            probe("add_file_repeated_after_refusal");
        }
    }
    for (int i = 0; i < 4; ++i)
        if (a.mask >> i & 1) {
            api::compiler_request_attachment(c, kinds[i], &e);
            SIM_CHECK(e.ok(), "bad-error", "request_attachment: %s", e.str().c_str());
        }
    tiro_module_t none = nullptr;
    char* text = nullptr;
    SIM_CHECK(!api::compiler_has_module(c), "module-without-run", "a compiler that did not run has a module");
    if (a.oom_at < 0) {
        api::compiler_take_module(c, &none, &e);
        SIM_CHECK(e.code() == TIRO_ERROR_BAD_STATE && !none, "module-without-run", "take_module before run: %s", e.str().c_str());
        api::compiler_get_attachment(c, TIRO_ATTACHMENT_AST, &text, &e);
        SIM_CHECK(e.code() == TIRO_ERROR_BAD_STATE && !text, "module-without-run", "get_attachment before run: %s", e.str().c_str());
    }
    if (a.stop_at == 1)
        return finish(c);

    api::compiler_run(c, &e);
    out.ran = true;
    out.code = e.code();
    out.details = e.details();
    out.has_module = api::compiler_has_module(c);
    SIM_CHECK(e.ok() == out.has_module, "module-and-error", "tiro_compiler_run reported %s, has_module is %d", e.ok() ? "success" : e.str().c_str(),
        (int) out.has_module);
    if (a.stop_at == 2)
        return finish(c);

    // A compiler can only run once, whatever happened
    u32 seen = out.messages.size();
    {
        i64 s = oom_after, n = oom_count;
        oom_after = -1;
        api::compiler_run(c, &e);
        SIM_CHECK(e.code() == TIRO_ERROR_BAD_STATE, "misuse", "second run: %s", e.str().c_str());
        api::compiler_add_file(c, ts("late"), ts("import std;"), &e);
        SIM_CHECK(e.code() == TIRO_ERROR_BAD_STATE, "misuse", "add_file after run: %s", e.str().c_str());
        oom_after = s, oom_count = n;
    }
    SIM_CHECK(api::compiler_has_module(c) == out.has_module, "module-and-error", "a refused second run changed the module");
    SIM_CHECK(out.messages.size() == seen, "module-and-error", "a refused second run reported messages");

    for (int i = 0; i < 4; ++i) {
        text = nullptr;
        api::compiler_get_attachment(c, kinds[i], &text, &e);
        if (e.code() == TIRO_ERROR_ALLOC && refused()) {
            SIM_CHECK(!text, "bad-error", "get_attachment returned text and an error");
            api::compiler_get_attachment(c, kinds[i], &text, &e);
        }
        if (e.ok()) {
            SIM_CHECK(text, "bad-error", "get_attachment returned nothing");
            SIM_CHECK(a.mask >> i & 1, "attachment", "attachment %s was not requested", kind_names[i]);
            out.has[i] = true;
            out.attachment[i] = text;
            InTiro in;
            std::free(text);
        } else {
            SIM_CHECK(e.code() == TIRO_ERROR_BAD_STATE || (refused() && e.code() == TIRO_ERROR_ALLOC), "bad-error", "get_attachment: %s", e.str().c_str());
        }
    }
    if (a.stop_at == 3)
        return finish(c);

    tiro_module_t m = nullptr;
    api::compiler_take_module(c, &m, &e);
    if (out.has_module && e.code() == TIRO_ERROR_ALLOC && refused()) {
        SIM_CHECK(!m, "module-and-error", "take_module returned a module and an error");
        SIM_CHECK(api::compiler_has_module(c), "module-lost", "the module is gone after take_module reported %s", e.str().c_str());
        probe("take_module_refused");
        oom_reset();
        api::compiler_take_module(c, &m, &e);
    }
    if (out.has_module)
        SIM_CHECK(e.ok() && m, "module-lost", "take_module: %s", e.str().c_str());
    else
        SIM_CHECK((e.code() == TIRO_ERROR_BAD_STATE || (refused() && e.code() == TIRO_ERROR_ALLOC)) && !m, "module-and-error", "take_module after a failed run: %s", e.str().c_str());
    oom_reset();
    SIM_CHECK(!api::compiler_has_module(c), "module-twice", "has_module after the module was taken");
    tiro_module_t again = nullptr;
    api::compiler_take_module(c, &again, &e);
    SIM_CHECK(e.code() == TIRO_ERROR_BAD_STATE && !again, "module-twice", "a second module was handed out");
    api::compiler_run(c, &e);
    SIM_CHECK(e.code() == TIRO_ERROR_BAD_STATE, "misuse", "run after take_module: %s", e.str().c_str());

    if (keep) {
        *keep = m;
        return finish(c);
    }
    if (a.module_first) {
        api::module_free(m);
        return finish(c);
    }
    finish(c);
    api::module_free(m);
    return out;
}

std::string describe(const Message& m) {
    return strf("%s:%u:%u: %d %s", m.file.c_str(), m.line, m.column, (int) m.severity, m.text.c_str());
}

std::string first_difference(const std::string& a, const std::string& b) {
    size_t i = 0, line = 1, start = 0;
    while (i < a.size() && i < b.size() && a[i] == b[i]) {
        if (a[i] == '\n')
            ++line, start = i + 1;
        ++i;
    }
    auto cut = [&](const std::string& s) { return s.substr(std::min(start, s.size()), std::min<size_t>(s.find('\n', start) - start, 120)); };
    return strf("line %zu: [%s] or [%s]", line, cut(a).c_str(), cut(b).c_str());
}

// Compares an attempt with the reference outcome.
void compare(const Outcome& ref, const Outcome& o, const Attempt& a, const char* what) {
    trace("%s: ran %d, result %s, %zu messages", what, (int) o.ran, ::tiro_errc_name(o.code), o.messages.size());
    trace("mask %u, stage %d, abort at %d, refused %d, module %d", a.mask, a.stop_at, a.abort_at, (int) o.refused, (int) o.has_module);
    if (!o.ran)
        return;
    size_t n = o.messages.size();
    SIM_CHECK(n <= ref.messages.size(), "nondeterministic:messages", "%s: %zu messages instead of %zu, extra: %s", what, n, ref.messages.size(),
        describe(o.messages[ref.messages.size()]).c_str());
    for (size_t i = 0; i < n; ++i)
        SIM_CHECK(describe(o.messages[i]) == describe(ref.messages[i]), "nondeterministic:messages", "%s: message %zu is [%s] instead of [%s]", what, i,
            describe(o.messages[i]).c_str(), describe(ref.messages[i]).c_str());
    for (int i = 0; i < 4; ++i)
        if (o.has[i] && ref.has[i])
            SIM_CHECK(o.attachment[i] == ref.attachment[i], (std::string("nondeterministic:") + kind_names[i]).c_str(), "%s: different %s, %s", what, kind_names[i],
                first_difference(ref.attachment[i], o.attachment[i]).c_str());
    if (a.abort_at >= 0 && (size_t) a.abort_at < ref.messages.size()) {
        bool hit = n == (size_t) a.abort_at + 1;
        if (hit || !o.refused) {
            SIM_CHECK(hit, "abort-ignored", "%s: the callback aborted at message %d, %zu messages were reported", what, a.abort_at, n);
            SIM_CHECK(o.code == TIRO_ERROR_BAD_STATE || (o.refused && o.code == TIRO_ERROR_ALLOC), "abort-ignored", "%s: the callback aborted, result is %s", what,
                ::tiro_errc_name(o.code));
            probe("aborted_with_remaining_messages", (size_t) a.abort_at + 1 < ref.messages.size());
            probe("aborted_valid_program", ref.code == TIRO_OK);
            return;
        }
    }
    if (o.refused && o.code == TIRO_ERROR_ALLOC) {
        probe("compilation_failed_for_memory");
        return;
    }
    SIM_CHECK(o.code == ref.code, "nondeterministic:result", "%s: result %s (%s) instead of %s (%s)", what, ::tiro_errc_name(o.code), o.details.c_str(),
        ::tiro_errc_name(ref.code), ref.details.c_str());
    SIM_CHECK(n == ref.messages.size(), "nondeterministic:messages", "%s: %zu messages instead of %zu", what, n, ref.messages.size());
    for (int i = 0; i < 4; ++i)
        if (a.mask >> i & 1 && a.stop_at > 3 && !o.refused)
            SIM_CHECK(o.has[i] == ref.has[i], "nondeterministic:attachments", "%s: attachment %s is %savailable", what, kind_names[i], o.has[i] ? "" : "not ");
    if (o.refused)
        probe("compiled_in_spite_of_refusal");
}

const char* snippets[] = {
    R"(export func shape(a, b) {
    var r = (x: a, y: b, tag: "t");
    r.x = r.y + 1;
    const q = (tag: 1, y: 2, x: 3);
    const e = (alpha: 1, beta: 2, gamma: 3, delta: 4, epsilon: 5);
    const e2 = (epsilon: 1, delta: 2, gamma: 3, beta: 4, alpha: 5, zeta: 6);
    return "$r ${q.tag + e.gamma} ${e2.zeta}";
})",
    R"(export func loops(n) {
    var sum = 0;
    var label = "a";
    for (var i = 0; i < n; i += 1) {
        if (i % 3 == 0) { label = "b"; continue; }
        while (sum < 100) { sum += i; if (sum % 7 == 0) { break; } else { label = "c"; } }
        for (k, v) in map{1: 2, "x": "y"} { sum += 1; label = "$label $k"; }
    }
    return (sum, label);
})",
    R"(var counter = 0;
const limit = 3 * 4 + 2;
export var list = [1, 2, limit];
export const pairs = map{"a": 1, "b": [limit], "c": set{1, 2}};
export func next() {
    counter += 1;
    const make = func(step) { return func() { counter += step; return counter; }; };
    const twice = func(f) { f(); return f(); };
    return twice(make(limit));
})",
    R"(export func guarded(f) {
    var state = 0;
    var other = "x";
    defer state = 100;
    const r = std.catch_panic(func() { state += 1; return f(); });
    defer { other = "y"; state += 1; }
    if (r.is_error()) { state = 2; return (state, other); }
    state = 3;
    const q = std.catch_panic(func() { defer other = "z"; std.panic("no"); });
    state = 4;
    return (state, other, q.is_error());
})",
    R"(export func observe(n) {
    var a = 1; var b = 2; var c = 3;
    {
        defer std.print(a, b, c);
        a = n; b = a + n; c = b * 2;
        if (n > 10) { a = 5; std.panic("deep"); }
        var i = 0;
        while (i < n) { defer { b += c; } a += i; c = a; i += 1; if (i == 7) { continue; } b = i; }
        if (n > 3) { return a; }
        c = 9;
    }
    return a + b + c;
})",
    R"(export func optional(x, y) {
    const z = x?.size() ?? y ?? "none";
    const w = x?[1] ?? 4;
    const t = if (z == 4) 1 else if (w == 2) "two" else { const q = w; q; };
    var (m, n) = (t, w);
    (m, n) = (n, m);
    return [m, n, not (m == n) and z != null or w == #symbol];
})",
    R"(import std as s;
export func mix(args) {
    s.assert_all(args);
    const b = s.new_string_builder();
    for item in args { b.append("${item}"); }
    assert(b.size() > 0, "empty");
    return b.to_string();
})",
    R"(func unused_helper(x) { const dead = x * 2; return x; }
func fib(n) { return if (n < 2) n else fib(n - 1) + fib(n - 2); }
func even(n) { if (n == 0) { return true; } return odd(n - 1); }
func odd(n) { if (n == 0) { return false; } return even(n - 1); }
export const table = [fib(1), fib(2), even(4), odd(3)];)",
    R"(export func warned(n) {
    const a = 1 / 0;
    const b = 7 % 0;
    if (n) { return -"text"; }
    return 9223372036854775807 + 1;
})",
    R"(export const broken = "a" - 1;
export func power(n) { return (0 - 2) ** (0 - 1) + n ** 2 + 2 ** 700; })",
};
const char* vocabulary[] = {"(", ")", "{", "}", "[", "]", ";", ",", ".", "=", "==", "+", "+=", "**", "if", "else", "while", "for", "in", "func", "return", "var", "const",
    "export", "import", "defer", "break", "continue", "x", "a0", "state", "undefined_name", "1", "0x", "1.5", "\"s\"", "\"$", "'", "#", "#sym", "map{", "set{", "null", "true",
    "and", "not", "is", "as", "?.", "??", "//", "/*", "\xff", "\xc3\xa9", "@", "\\", "assert(", "_", "99999999999999999999"};

std::vector<std::string> tokens(const std::string& s) {
    std::vector<std::string> r;
    size_t i = 0;
    auto word = [](char c) { return isalnum((unsigned char) c) || c == '_'; };
    while (i < s.size()) {
        size_t j = i + 1;
        if (word(s[i]))
            while (j < s.size() && word(s[j]))
                ++j;
        else if (isspace((unsigned char) s[i]))
            while (j < s.size() && isspace((unsigned char) s[j]))
                ++j;
        r.push_back(s.substr(i, j - i));
        i = j;
    }
    return r;
}

std::string mutate(Stream& s, const std::string& src) {
    auto t = tokens(src);
    u32 n = 1 + s.pick(4);
    bool cut = s.chance(1, 6);
    u32 cut_at = cut ? s.pick((u32) src.size() + 1) : 0;
    if (cut && s.chance(1, 2))
        return src.substr(0, cut_at);
    for (u32 i = 0; i < n && !t.empty(); ++i) {
        Seg seg(s);
        size_t at = s.pick(t.size());
        switch (s.pick(6)) {
        case 0: t.erase(t.begin() + at); break;
        case 1: t.insert(t.begin() + at, std::string(" ") + vocabulary[s.pick(std::size(vocabulary))] + " "); break;
        case 2: t[at] = vocabulary[s.pick(std::size(vocabulary))]; break;
        case 3: std::swap(t[at], t[s.pick(t.size())]); break;
        case 4: t.insert(t.begin() + at, t[s.pick(t.size())]); break;
        case 5: t.resize(std::max<size_t>(1, at)); break;
        }
    }
    std::string r;
    for (auto& x : t)
        r += x;
    if (cut)
        r.resize(std::min<size_t>(cut_at, r.size()));
    return r;
}

// Gives some variables long names, so that the names of one program lie in several blocks of the compiler's storage.
std::string long_names(Stream& s, const std::string& src) {
    std::map<std::string, std::string> renamed;
    std::string r;
    for (auto& t : tokens(src)) {
        const bool variable = t.size() > 1 && t[0] == 'v' && std::all_of(t.begin() + 1, t.end(), [](unsigned char c) { return isdigit(c); });
        if (!variable) {
            r += t;
            continue;
        }
        auto [pos, added] = renamed.emplace(t, t);
        if (added && r.size() < 100000) {
            static const u32 limits[] = {1, 60, 900, 5000};
            pos->second += "_" + std::string(s.pick(limits[s.weighted({3, 3, 4, 1})]), 'x');
        }
        r += pos->second;
    }
    return r;
}

struct Pads {
    std::vector<std::vector<char>> blocks;
    void shift(Stream& s) {
        u32 n = 1 + s.pick(4);
        for (u32 i = 0; i < n; ++i) {
            blocks.emplace_back((size_t) 1 << s.pick(16));
            if (s.chance(1, 3))
                blocks.erase(blocks.begin() + s.pick(blocks.size()));
        }
    }
};

} // namespace

SCENARIO(c15_compile, "C15.compile", "C15", 1) {
    Stream& k = stream("knobs");
    Stream& s = stream("ops");
    Job job;
    job.module = k.chance(1, 6) ? "some.module.name" : "prog";
    Program p;
    bool runnable = false;
    u32 source = k.weighted({5, 3, 3, 2, 1, 14});
    if (source == 0 || source == 2) {
        Config c = random_config(k);
        generate(stream("prog"), c, p);
        job.files.emplace_back("prog.tiro", p.source);
        runnable = source == 0;
    } else if (source == 1 || source == 3) {
        u32 n = 1 + k.pick(4);
        std::set<u32> used;
        std::string all = "import std;\n";
        for (u32 i = 0; i < n; ++i) {
            u32 x = k.pick(std::size(snippets));
            if (used.insert(x).second)
                all += std::string(snippets[x]) + "\n";
        }
        job.files.emplace_back("a.tiro", all);
    } else if (source == 5) {
        static const u32 wildness[] = {0, 0, 1, 4, 24};
        grammar::Gen g(stream("prog"), wildness[k.pick(5)], 10 + (int) k.pick(120));
        job.files.emplace_back("grammar.tiro", g.module());
        probe("grammar_program");
    } else {
        switch (k.pick(6)) {
        case 0: break; // no files at all
        case 1: job.files = {{"x", "import std;"}, {"x", "func f() {}"}}; break;
        case 2: job.files = {{"x", ""}, {"y", "\n\n"}, {"z", "// comment"}}; break;
        case 3: job.files = {{"x", std::string("func a() { return \"\0\"; }", 25)}}; break;
        case 4: job.files = {{"x", "export func a() { return b(); }"}, {"y", "func b() { return c; }"}, {"z", "var c = 1; import std;"}}; break;
        case 5: job.files = {{"x", "func a() { var u; return u; } func a() {} const b; const b = c; x = 1; break;"}, {"y", "import y; import y; func f(a, a) {}"}}; break;
        }
    }
    if (source == 2 || source == 3)
        for (auto& f : job.files)
            f.second = mutate(stream("mutations"), f.second);
    if (source != 4 && k.chance(1, 3)) {
        for (auto& f : job.files)
            f.second = long_names(stream("names"), f.second);
        probe("long_names");
    }
    if (job.files.size() == 1 && k.chance(1, 4)) // the same text twice, spread over files: duplicate names
        job.files.emplace_back("second.tiro", k.chance(1, 2) ? "func extra_a() { return extra_b; }\nconst extra_b = [1, \"two\"];" : job.files[0].second);
    for (auto& f : job.files)
        note_text("file " + f.first + "\n" + f.second);

    u64 base_blocks = mem.live_blocks;
    Attempt plain;
    tiro_module_t first = nullptr;
    Outcome ref = attempt(job, plain, runnable ? &first : nullptr);
    SIM_CHECK(ref.code == TIRO_OK || ref.code == TIRO_ERROR_BAD_SOURCE || ref.code == TIRO_ERROR_BAD_ARG, "bad-error",
        "unexpected error code: %s %s", ::tiro_errc_name(ref.code), ref.details.c_str());
    if (ref.code == TIRO_ERROR_BAD_SOURCE)
        SIM_CHECK(!ref.messages.empty(), "no-message", "a compilation failed without any message");
    if (ref.code == TIRO_ERROR_BAD_ARG) {
        std::set<std::string> names;
        for (auto& f : job.files)
            names.insert(f.first);
        SIM_CHECK(job.files.empty() || names.size() < job.files.size(), "bad-error", "valid files are refused: %s", ref.details.c_str());
    }
    for (auto& m : ref.messages) { // positions lie inside the file
        if (m.file.empty())
            continue;
        bool ok = false;
        for (auto& f : job.files)
            if (f.first == m.file)
                ok |= m.line >= 1 && m.column >= 1 && m.line <= 1 + (size_t) std::count(f.second.begin(), f.second.end(), '\n') && m.column <= f.second.size() + 1;
        SIM_CHECK(ok, "bad-message", "message refers to a position outside of the sources: %s", describe(m).c_str());
    }
    for (auto& m : ref.messages)
        note("message %s", describe(m).c_str());
    trace("reference: %s, %zu messages, %016llx", ::tiro_errc_name(ref.code), ref.messages.size(),
        (unsigned long long) fnv(ref.attachment[0] + ref.attachment[1] + ref.attachment[2] + ref.attachment[3]));
    probe(ref.code == TIRO_OK ? "valid_source" : "invalid_source");
    stat("files", job.files.size());

    Pads pads;
    u32 attempts = 2 + s.pick(8);
    std::unique_ptr<Real> machine;
    tiro_module_t last = nullptr;
    for (u32 i = 0; i < attempts; ++i) {
        Seg seg(s);
        pads.shift(s);
        Attempt a;
        a.mask = s.chance(1, 2) ? 15 : s.pick(16);
        a.module_first = s.chance(1, 2);
        if (s.chance(1, 5))
            a.stop_at = s.pick(5);
        switch (s.weighted({4, 6, 3, 2, 2})) {
        case 0: {
            bool take = runnable && !last && a.stop_at > 4 && s.chance(1, 2);
            if (take)
                a.mask = s.chance(1, 2) ? 0 : a.mask;
            compare(ref, attempt(job, a, take ? &last : nullptr), a, "repeated");
            trace("repeated");
            break;
        }
        case 1: {
            a.oom_at = s.pick((u32) std::max<u64>(1, ref.allocs + 8));
            a.oom_n = s.chance(1, 4) ? -1 : 1 + s.pick(3);
            if (!ref.messages.empty() && s.chance(1, 6))
                a.abort_at = s.pick((u32) ref.messages.size());
            Outcome o = attempt(job, a);
            trace("refused at %lld: %s", (long long) a.oom_at, ::tiro_errc_name(o.code));
            compare(ref, o, a, "with refused allocations");
            break;
        }
        case 2: {
            if (ref.messages.empty())
                break;
            a.abort_at = s.pick((u32) ref.messages.size());
            if (s.chance(1, 2))
                a.in_callback = misuse;
            trace("abort at %d", a.abort_at);
            compare(ref, attempt(job, a), a, "aborted");
            break;
        }
        case 3: { // another compilation inside the message callback
            u32 depth = 0;
            Outcome inner;
            bool compared = false;
            a.in_callback = [&](tiro_compiler_t c) {
                misuse(c);
                if (depth++ == 0) {
                    Attempt b;
                    compare(ref, attempt(job, b), b, "inside a message callback");
                    compared = true;
                }
            };
            trace("nested compilation");
            compare(ref, attempt(job, a), a, "with a compilation inside");
            if (compared)
                probe("compiled_in_message_callback");
            break;
        }
        case 4: { // from inside a running machine
            Program other;
            Config c;
            c.functions = 1;
            c.stmts = 4;
            generate(stream("other"), c, other);
            VmOptions o;
            Real r(other, o, "other");
            u32 left = 2;
            in_native = [&] {
                if (left > 0) {
                    --left;
                    Attempt b;
                    b.mask = a.mask;
                    compare(ref, attempt(job, b), b, "inside a native function");
                    probe("compiled_in_native_function");
                }
            };
            r.start(0, 3, 0);
            r.run_ready();
            in_native = nullptr;
            trace("inside a machine");
            break;
        }
        }
    }

    // The modules do the same
    if (first && last) {
        std::vector<std::string> logs[2];
        for (int side = 0; side < 2; ++side) {
            VmOptions o;
            Real r(side ? last : first, o, job.module);
            for (size_t f = 0; f < p.functions.size(); ++f)
                r.start((int) f, 5, (int) f);
            r.run_ready();
            for (int i = 0; i < 200 && (r.pending() || r.has_ready()); ++i) {
                if (r.pending())
                    r.complete(0, 2, false);
                if (r.has_ready())
                    r.run_ready();
            }
            logs[side] = r.log;
        }
        SIM_CHECK(logs[0] == logs[1], "nondeterministic:behaviour", "two modules compiled from the same source behave differently");
        probe("modules_executed");
    }
    if (first)
        api::module_free(first);
    if (last)
        api::module_free(last);
    pads.blocks.clear();
    SIM_CHECK(mem.live_blocks == base_blocks, "leak", "compilation left memory behind: %s", arena_leaks(5).c_str());
}
