// The library: values of all kinds and the operations scripts perform on them. Workers execute operations chosen by the
// host (on arguments of the expected kind, and sometimes on anything at all) and report the outcome, which must be the
// one of a reference model of the values. Some operations suspend in the middle while other workers go on.
#include "host.hpp"

#include <algorithm>
#include <cmath>
#include <set>
using namespace sim;

namespace {

// ------------------------------------------------------------------ reference values
struct Obj;
using P = std::shared_ptr<Obj>;
struct V {
    enum K : u32 { Null, Bool, Int, Float, Str, Ref } k = Null;
    i64 i = 0; // Float: value is i + 0.5
    std::string s;
    P o;
    static V null() { return {}; }
    static V boolean(bool b) { return {Bool, b, {}, {}}; }
    static V integer(i64 i) { return {Int, i, {}, {}}; }
    static V flt(i64 i) { return {Float, i, {}, {}}; }
    static V str(std::string s) { return {Str, 0, std::move(s), {}}; }
    static V ref(P o) { return {Ref, 0, {}, std::move(o)}; }
};

enum T : u32 {
    TArray,
    TTuple,
    TRecord,
    TMap,
    TSet,
    TBuffer,
    TBuilder,
    TResult,
    TKeyView,
    TValueView,
    TSlice,
    TSymbol,
    TType,
    TFunc,
    TException,
    TSchema,
    TCoroutine,
    TCount
};
const char* const TYPE_NAMES[] = {"Array", "Tuple", "Record", "Map", "Set", "Buffer", "StringBuilder", "Result", "MapKeyView", "MapValueView",
    "StringSlice", "Symbol", "Type", "Function", "Exception", "RecordSchema", "Coroutine"};

enum FuncKind { FBound, FPair, FCounter, FMethod };
const char* const FIELDS[] = {"x", "y", "z"};

struct Obj {
    T t;
    u32 id = 0;
    std::vector<V> items;              // array, tuple, record (fields), set, result (one value), views (the map), bound (the instance), pair (captured)
    std::vector<std::pair<V, V>> map;  // entries
    std::string s;                     // builder, slice, symbol, exception, buffer, type name, method name
    bool flag = false;                 // result: success
    FuncKind func = FBound;
    i64 n = 0;                         // counter
    u64 version = 0;                   // structural changes of maps and sets
    std::vector<V> ever;               // maps and sets: every key that was ever contained
    std::vector<V> ever_values;
    bool pinned = false;               // keeps its handle
    std::shared_ptr<H> h;              // bound to a real object
};

struct Panic {
    std::string what;
};

bool equal(const V& a, const V& b) {
    auto text = [](const V& v) -> const std::string* {
        if (v.k == V::Str)
            return &v.s;
        if (v.k == V::Ref && v.o->t == TSlice)
            return &v.o->s;
        return nullptr;
    };
    auto ta = text(a), tb = text(b);
    if (ta && tb)
        return *ta == *tb;
    if (a.k != b.k)
        return false;
    switch (a.k) {
    case V::Null: return true;
    case V::Bool:
    case V::Int:
    case V::Float: return a.i == b.i;
    case V::Str: return a.s == b.s;
    case V::Ref: return a.o == b.o;
    }
    return false;
}
bool truthy(const V& v) { return !(v.k == V::Null || (v.k == V::Bool && !v.i)); }
std::string float_text(i64 i) { return strf("%.1f", (double) i + 0.5); }

std::string show(const V& v, int depth = 2);
std::string show(const P& o, int depth) {
    std::string r = strf("%s#%u", TYPE_NAMES[o->t], o->id);
    if (o->t == TSlice || o->t == TSymbol || o->t == TType || o->t == TException || o->t == TBuilder)
        return r + "'" + o->s + "'";
    if (depth > 0) {
        r += "{";
        for (auto& x : o->items)
            r += show(x, depth - 1) + " ";
        for (auto& [k, v] : o->map)
            r += show(k, depth - 1) + ": " + show(v, depth - 1) + " ";
        r += "}";
    }
    return r;
}
std::string show(const V& v, int depth) {
    switch (v.k) {
    case V::Null: return "null";
    case V::Bool: return v.i ? "true" : "false";
    case V::Int: return strf("%lld", (long long) v.i);
    case V::Float: return float_text(v.i);
    case V::Str: return "'" + v.s + "'";
    case V::Ref: return show(v.o, depth);
    }
    return "?";
}

// ------------------------------------------------------------------ operations
struct World;
struct Worker;
enum Kind : u32 { // what an operation expects as its argument
    KNone = 100,
    KAny,
    KInt,
    KSmall, // index
    KByte,
    KStr,
    KText, // string or slice
    KPrim,
    KContainer,
    KIterable,
    KKeyed, // map or set
    KCallable,
    KIndexed
    // or one of T
};
enum Flag { Atomic = 1, Suspends = 2, Fresh = 4 };
struct Op {
    const char* name;
    const char* script; // body of func(id, a, b, c)
    u32 args[3];
    V (*model)(World& w, Worker& k);
    u32 flags;
};

struct Worker {
    u32 id = 0;
    enum State { Ready, Running, Waiting, Done } state = Ready;
    const Op* op = nullptr;
    V a, b, c;
    u32 budget = 0;
    // suspending operations
    std::vector<V> pauses;
    bool panicked = false; // resumed with a panic
    bool wants_value = false;
    tiro_async_token_t token = nullptr;
    u64 visits = 0;
    u64 version = 0;
    std::vector<V> visited;
    std::unique_ptr<H> coro;
};

struct World {
    Stream& s;
    Vm vm;
    std::deque<Worker> workers; // (references stay valid)
    std::vector<P> pool;
    std::map<std::string, P> symbols, types, functions;
    u32 next_obj = 1;
    bool draining = false;
    bool suspend = false;
    bool misuse = false;
    u32 oom = 0;
    u32 size_limit = 12;
    std::unique_ptr<H> fn_worker;
    P dirty; // object whose state is either `before` or `after` (an operation failed)
    P before, after;
    u64 failed_before = 0;
    bool fault_armed = false;
    u64 ops_done = 0;
    i64 heap_fail = -1; // heap allocations until one fails; -2: failed
    i64 arm_after = -1, arm_count = 0;
    i64 current = -1;
    P forced;
    std::vector<P> bound_now;
    std::vector<std::weak_ptr<Obj>> all_objects;

    World(Stream& s, const VmOptions& o)
        : s(s)
        , vm(o) {}

    P make(T t) {
        auto o = std::make_shared<Obj>();
        o->t = t;
        o->id = next_obj++;
        all_objects.push_back(o);
        return o;
    }
    P symbol(const std::string& n) {
        auto& p = symbols[n];
        if (!p) {
            p = make(TSymbol);
            p->s = n;
        }
        return p;
    }
    P type(const std::string& n) {
        auto& p = types[n];
        if (!p) {
            p = make(TType);
            p->s = n;
        }
        return p;
    }
    P schema() { // of the records made by `record`
        auto& p = types["schema of x y z"];
        if (!p)
            p = make(TSchema);
        return p;
    }
    P type_function(const std::string& n) {
        auto& p = functions[n];
        if (!p) {
            p = make(TFunc);
            p->func = FMethod;
            p->s = n;
        }
        return p;
    }
    std::string type_name(const V& v) {
        switch (v.k) {
        case V::Null: return "Null";
        case V::Bool: return "Boolean";
        case V::Int: return "Integer";
        case V::Float: return "Float";
        case V::Str: return "String";
        case V::Ref: return TYPE_NAMES[v.o->t];
        }
        return "";
    }
    V list(std::vector<V> items) {
        auto o = make(TArray);
        o->items = std::move(items);
        return V::ref(o);
    }
    V tuple(std::vector<V> items) {
        auto o = make(TTuple);
        o->items = std::move(items);
        return V::ref(o);
    }
    V slice(std::string text) {
        auto o = make(TSlice);
        o->s = std::move(text);
        return V::ref(o);
    }

    // ------------------------------------------------------------ semantics
    V* map_find(Obj& m, const V& k) {
        for (auto& e : m.map)
            if (equal(e.first, k))
                return &e.second;
        return nullptr;
    }
    static void pin(const V& v) { // elements of maps and sets are searched by identity
        if (v.k == V::Ref)
            v.o->pinned = true;
    }
    void map_set(Obj& m, const V& k, const V& v) {
        pin(k);
        pin(v);
        m.ever_values.push_back(v);
        if (auto p = map_find(m, k)) {
            *p = v;
            return;
        }
        m.map.emplace_back(k, v);
        m.ever.push_back(k);
        ++m.version;
    }
    bool set_has(Obj& m, const V& k) {
        return std::any_of(m.items.begin(), m.items.end(), [&](auto& x) { return equal(x, k); });
    }
    bool set_insert(Obj& m, const V& k) {
        if (set_has(m, k))
            return false;
        pin(k);
        m.items.push_back(k);
        m.ever.push_back(k);
        ++m.version;
        return true;
    }
    std::string text(const V& v) { // string or slice
        if (v.k == V::Str)
            return v.s;
        if (v.k == V::Ref && v.o->t == TSlice)
            return v.o->s;
        throw Panic{"not a string"};
    }
    bool is_text(const V& v) { return v.k == V::Str || (v.k == V::Ref && v.o->t == TSlice); }
    std::string format(const V& v) { // primitives only
        switch (v.k) {
        case V::Null: return "null";
        case V::Bool: return v.i ? "true" : "false";
        case V::Int: return strf("%lld", (long long) v.i);
        case V::Float: return float_text(v.i);
        case V::Str: return v.s;
        case V::Ref:
            if (v.o->t == TSlice)
                return v.o->s;
            if (v.o->t == TSymbol)
                return "#" + v.o->s;
            if (v.o->t == TException)
                return "Exception: " + v.o->s;
            break;
        }
        discard("address in a string");
    }
    bool printable(const V& v) {
        return v.k != V::Ref || v.o->t == TSlice || v.o->t == TSymbol || v.o->t == TException;
    }
    static i64 clamp_size(const V& v) {
        if (v.k != V::Int)
            throw Panic{"must be an integer"};
        return v.i < 0 ? 0 : v.i;
    }
    V text_method(const V& self, const std::string& t, const std::string& name, const std::vector<V>& args) {
        auto need = [&](size_t n) {
            if (args.size() < n)
                throw Panic{"insufficient"};
        };
        const i64 n = (i64) t.size();
        if (name == "size")
            return V::integer(n);
        if (name == "contains") {
            need(1);
            return V::boolean(t.find(text(args[0])) != std::string::npos);
        }
        if (name == "slice_first") {
            need(1);
            return slice(t.substr(0, (size_t) std::min(n, clamp_size(args[0]))));
        }
        if (name == "slice_last") {
            need(1);
            const i64 k = std::min(n, clamp_size(args[0]));
            return slice(t.substr((size_t) (n - k)));
        }
        if (name == "slice") {
            need(2);
            const i64 off = std::min(n, clamp_size(args[0]));
            const i64 k = std::min(n - off, clamp_size(args[1]));
            return slice(t.substr((size_t) off, (size_t) k));
        }
        if (name == "to_string" && self.k == V::Ref)
            return V::str(t);
        throw Panic{"no such method"};
    }
    V method(const V& self, const std::string& name, const std::vector<V>& args) {
        auto need = [&](size_t n) {
            if (args.size() < n)
                throw Panic{"insufficient"};
        };
        if (is_text(self))
            return text_method(self, text(self), name, args);
        if (self.k != V::Ref)
            throw Panic{"no such method"};
        Obj& o = *self.o;
        switch (o.t) {
        case TArray:
            if (name == "size")
                return V::integer((i64) o.items.size());
            if (name == "append") {
                need(1);
                o.items.push_back(args[0]);
                return {};
            }
            if (name == "clear") {
                o.items.clear();
                return {};
            }
            break;
        case TTuple:
            if (name == "size")
                return V::integer((i64) o.items.size());
            break;
        case TMap:
            if (name == "size")
                return V::integer((i64) o.map.size());
            if (name == "contains") {
                need(1);
                return V::boolean(map_find(o, args[0]));
            }
            if (name == "keys" || name == "values") {
                auto v = make(name == "keys" ? TKeyView : TValueView);
                v->items.push_back(self);
                return V::ref(v);
            }
            if (name == "clear") {
                if (!o.map.empty())
                    ++o.version;
                o.map.clear();
                return {};
            }
            if (name == "remove") {
                need(1);
                for (size_t i = 0; i < o.map.size(); ++i)
                    if (equal(o.map[i].first, args[0])) {
                        o.map.erase(o.map.begin() + (long) i);
                        ++o.version;
                        break;
                    }
                return {};
            }
            break;
        case TSet:
            if (name == "size")
                return V::integer((i64) o.items.size());
            if (name == "contains") {
                need(1);
                return V::boolean(set_has(o, args[0]));
            }
            if (name == "insert") {
                need(1);
                return V::boolean(set_insert(o, args[0]));
            }
            if (name == "clear") {
                if (!o.items.empty())
                    ++o.version;
                o.items.clear();
                return {};
            }
            if (name == "remove") {
                need(1);
                for (size_t i = 0; i < o.items.size(); ++i)
                    if (equal(o.items[i], args[0])) {
                        o.items.erase(o.items.begin() + (long) i);
                        ++o.version;
                        break;
                    }
                return {};
            }
            break;
        case TBuffer:
            if (name == "size")
                return V::integer((i64) o.s.size());
            break;
        case TBuilder:
            if (name == "size")
                return V::integer((i64) o.s.size());
            if (name == "to_string")
                return V::str(o.s);
            if (name == "clear") {
                o.s.clear();
                return {};
            }
            if (name == "contains") {
                need(1);
                return V::boolean(o.s.find(text(args[0])) != std::string::npos);
            }
            if (name == "append") {
                for (auto& x : args)
                    o.s += format(x);
                return {};
            }
            if (name == "append_byte") {
                need(1);
                if (args[0].k != V::Int || args[0].i < 0 || args[0].i > 255)
                    throw Panic{"byte"};
                o.s.push_back((char) args[0].i);
                return {};
            }
            break;
        case TResult:
            if (name == "type")
                return V::ref(symbol(o.flag ? "success" : "error"));
            if (name == "is_success")
                return V::boolean(o.flag);
            if (name == "is_error")
                return V::boolean(!o.flag);
            if (name == "value" || name == "error") {
                if (o.flag != (name == "value"))
                    throw Panic{"other outcome"};
                return o.items[0];
            }
            break;
        case TException:
            if (name == "message")
                return V::str(o.s);
            if (name == "trace")
                return {};
            break;
        case TType: {
            // a method of the type: the instance is the first argument
            static const std::map<std::string, std::vector<const char*>> methods = {
                {"Array", {"size", "append", "clear"}}, {"Tuple", {"size"}}, {"Buffer", {"size"}},
                {"Map", {"size", "contains", "keys", "values", "clear", "remove"}},
                {"Set", {"size", "contains", "clear", "insert", "remove"}},
                {"String", {"size", "contains", "slice_first", "slice_last", "slice"}},
                {"StringSlice", {"size", "contains", "slice_first", "slice_last", "slice", "to_string"}},
                {"StringBuilder", {"size", "append", "append_byte", "clear", "contains", "to_string"}},
                {"Result", {"type", "is_success", "is_error", "value", "error"}}, {"Exception", {"message", "trace"}},
                {"Type", {"name"}}, {"Coroutine", {"name"}}};
            auto it = methods.find(o.s);
            if (it == methods.end() || std::none_of(it->second.begin(), it->second.end(), [&](auto x) { return name == x; }))
                throw Panic{"no such method"};
            need(1);
            if (type_name(args[0]) != o.s)
                throw Panic{"wrong instance"};
            if (o.s == "Type")
                return V::str(args[0].o->s);
            if (o.s == "Coroutine")
                discard("name of a coroutine");
            return method(args[0], name, {args.begin() + 1, args.end()});
        }
        default: break;
        }
        throw Panic{"no such method"};
    }
    // `x.name` as a value. A type has functions, other values have bound methods.
    V bound_call(const V& self, const std::string& name, const std::vector<V>& args) {
        if (self.k == V::Ref && self.o->t == TRecord)
            throw Panic{"no such field"};
        return method(self, name, args);
    }
    V get_index(const V& self, const V& i) {
        if (self.k == V::Ref) {
            Obj& o = *self.o;
            if (o.t == TArray || o.t == TTuple) {
                if (i.k != V::Int || i.i < 0 || i.i >= (i64) o.items.size())
                    throw Panic{"index"};
                return o.items[(size_t) i.i];
            }
            if (o.t == TBuffer) {
                if (i.k != V::Int || i.i < 0 || i.i >= (i64) o.s.size())
                    throw Panic{"index"};
                return V::integer((unsigned char) o.s[(size_t) i.i]);
            }
            if (o.t == TMap) {
                auto p = map_find(o, i);
                return p ? *p : V{};
            }
        }
        throw Panic{"not indexed"};
    }
    void set_index(const V& self, const V& i, const V& v) {
        if (self.k == V::Ref) {
            Obj& o = *self.o;
            if (o.t == TArray || o.t == TTuple) {
                get_index(self, i);
                o.items[(size_t) i.i] = v;
                return;
            }
            if (o.t == TBuffer) {
                get_index(self, i);
                if (v.k != V::Int || v.i < 0 || v.i > 255)
                    throw Panic{"byte"};
                o.s[(size_t) i.i] = (char) v.i;
                return;
            }
            if (o.t == TMap) {
                map_set(o, i, v);
                return;
            }
        }
        throw Panic{"not indexed"};
    }
    V& field(const V& self, u32 f) {
        if (self.k == V::Ref && self.o->t == TRecord)
            return self.o->items[f];
        throw Panic{"no such field"};
    }
    V& tuple_field(const V& self, size_t f) {
        if (self.k == V::Ref && self.o->t == TTuple && f < self.o->items.size())
            return self.o->items[f];
        throw Panic{"no such field"};
    }
    V call(const V& f, const std::vector<V>& args) {
        if (f.k != V::Ref || f.o->t != TFunc)
            throw Panic{"not a function"};
        Obj& o = *f.o;
        switch (o.func) {
        case FBound: return method(o.items[0], o.s, args);
        case FMethod: return method(V::ref(type(o.s.substr(0, o.s.find('.')))), o.s.substr(o.s.find('.') + 1), args);
        case FPair:
            if (args.size() != 1)
                throw Panic{"arguments"};
            return list({o.items[0], args[0]});
        case FCounter:
            if (args.size() != 1)
                throw Panic{"arguments"};
            if (args[0].k != V::Int)
                throw Panic{"operand"};
            o.n += args[0].i;
            return V::integer(o.n);
        }
        return {};
    }
    V arith(const V& a, const V& b, bool less) {
        if (less && a.k == V::Null && b.k == V::Null)
            return V::boolean(false);
        if (less && (a.k == V::Null || b.k == V::Null))
            return V::boolean(a.k == V::Null); // null is less than everything else
        const bool na = a.k == V::Int || a.k == V::Float, nb = b.k == V::Int || b.k == V::Float;
        if (!na || !nb)
            throw Panic{"operand"};
        if (less) {
            const double x = (double) a.i + (a.k == V::Float ? 0.5 : 0), y = (double) b.i + (b.k == V::Float ? 0.5 : 0);
            return V::boolean(x < y);
        }
        if (a.k == V::Float && b.k == V::Float)
            discard("float that is an integer");
        if (a.k == V::Float || b.k == V::Float)
            return V::flt(a.i + b.i);
        return V::integer(a.i + b.i);
    }
    // std.debug_repr without whitespace
    static size_t decode(std::string_view t, u32& cp) { // 0: invalid
        const auto at = [&](size_t i) { return (u32) (unsigned char) t[i]; };
        const u32 c = at(0);
        if (c < 0x80) {
            cp = c;
            return 1;
        }
        const size_t n = c >= 0xc2 && c <= 0xdf ? 2 : c >= 0xe0 && c <= 0xef ? 3 : c >= 0xf0 && c <= 0xf4 ? 4 : 0;
        if (n == 0 || t.size() < n)
            return 0;
        cp = c & (0xffu >> (n + 1));
        for (size_t i = 1; i < n; ++i) {
            if ((at(i) & 0xc0) != 0x80)
                return 0;
            cp = cp << 6 | (at(i) & 0x3f);
        }
        if (cp > 0x10ffff || (cp >= 0xd800 && cp < 0xe000) || (n == 3 && cp < 0x800) || (n == 4 && cp < 0x10000))
            return 0;
        return n;
    }
    std::string escaped(std::string_view t) {
        std::string r = "\"";
        while (!t.empty()) {
            u32 cp = 0;
            size_t n = decode(t, cp);
            if (n == 0) {
                cp = (unsigned char) t[0];
                n = 1;
            }
            switch (cp) {
            case '\n': r += "\\n"; break;
            case '\r': r += "\\r"; break;
            case '\t': r += "\\t"; break;
            case '$': r += "\\$"; break;
            case '\'': r += "\\'"; break;
            case '"': r += "\\\""; break;
            case '\\': r += "\\\\"; break;
            default:
                if (cp >= 0x20 && cp <= 0x7e)
                    r.push_back((char) cp);
                else
                    r += cp <= 0xff ? strf("\\x%02X", cp) : strf("\\u{%X}", cp);
            }
            t.remove_prefix(n);
        }
        return r + "\"";
    }
    static std::string strip(const std::string& t) {
        std::string r;
        for (char c : t)
            if (c != ' ' && c != '\n')
                r.push_back(c);
        return r;
    }
    std::string repr(const V& v, std::set<const Obj*>& seen) {
        switch (v.k) {
        case V::Str: return escaped(v.s);
        case V::Ref: break;
        default: return format(v);
        }
        const Obj& o = *v.o;
        if (!seen.insert(&o).second)
            return "{...}";
        std::string r;
        auto join = [&](const std::vector<V>& items) {
            std::string x;
            for (auto& i : items)
                x += (x.empty() ? "" : ",") + repr(i, seen);
            return x;
        };
        switch (o.t) {
        case TArray: r = "[" + join(o.items) + "]"; break;
        case TTuple: r = "(" + join(o.items) + (o.items.size() == 1 ? ",)" : ")"); break;
        case TRecord: r = "(x:" + repr(o.items[0], seen) + ",y:" + repr(o.items[1], seen) + ",z:" + repr(o.items[2], seen) + ")"; break;
        case TMap:
            for (auto& e : o.map)
                r += (r.empty() ? "" : ",") + repr(e.first, seen) + ":" + repr(e.second, seen);
            r = "map{" + r + "}";
            break;
        case TSet: r = "set{" + join(o.items) + "}"; break;
        case TResult: {
            const auto x = repr(o.items[0], seen);
            r = strf("Result{type:\"%s\",value:%s,error:%s}", o.flag ? "success" : "error", o.flag ? x.c_str() : "null", o.flag ? "null" : x.c_str());
            break;
        }
        case TSlice: r = "StringSlice{value:" + escaped(o.s) + "}"; break;
        case TSymbol: r = "#" + o.s; break;
        case TType: r = "Type{name:\"" + o.s + "\"}"; break;
        case TException: r = "Exception{message:" + escaped(o.s) + ",trace:null}"; break;
        case TSchema: r = "RecordSchema{x,y,z}"; break;
        case TCoroutine: discard("name of a coroutine");
        default: r = TYPE_NAMES[o.t];
        }
        seen.erase(&o);
        return r;
    }
    // The size of the printed value; large values are not printed.
    size_t weight(const V& v, std::set<const Obj*>& seen, size_t& budget) {
        if (budget == 0 || v.k != V::Ref)
            return budget ? --budget : 0;
        if (!seen.insert(v.o.get()).second)
            return budget;
        --budget;
        for (auto& x : v.o->items)
            weight(x, seen, budget);
        for (auto& e : v.o->map) {
            weight(e.first, seen, budget);
            weight(e.second, seen, budget);
        }
        seen.erase(v.o.get());
        return budget;
    }
    bool small(const V& v) {
        std::set<const Obj*> seen;
        size_t budget = 200;
        return weight(v, seen, budget) > 0;
    }

    // ------------------------------------------------------------ comparing with reality
    void bind(const P& o, tiro_handle_t h) {
        Err e;
        o->h = std::make_shared<H>(vm.vm);
        api::value_copy(vm, h, o->h->get(), &e);
        expect_ok(e, "value_copy");
    }
    bool text_is(tiro_handle_t h, const std::string& want) {
        Err e;
        tiro_string_t t;
        api::string_value(vm, h, &t, &e);
        return e.ok() && str(t) == want;
    }
    std::string real_type(tiro_handle_t h) {
        Err e;
        H t(vm.vm), n(vm.vm);
        api::value_type(vm, h, t.get(), &e);
        expect_ok(e, "value_type");
        api::type_name(vm, t, n.get(), &e);
        expect_ok(e, "type_name");
        tiro_string_t x;
        api::string_value(vm, n, &x, &e);
        expect_ok(e, "string_value");
        return str(x);
    }
    // empty: the same
    std::string differs(const V& v, tiro_handle_t h, int depth) {
        const auto kind = api::value_kind(vm, h);
        auto no = [&] { return strf("%s is expected, but it is %s", show(v).c_str(), render(vm, h).c_str()); };
        switch (v.k) {
        case V::Null: return kind == TIRO_KIND_NULL ? "" : no();
        case V::Bool: return kind == TIRO_KIND_BOOLEAN && api::boolean_value(vm, h) == (v.i != 0) ? "" : no();
        case V::Int: return kind == TIRO_KIND_INTEGER && api::integer_value(vm, h) == v.i ? "" : no();
        case V::Float: return kind == TIRO_KIND_FLOAT && api::float_value(vm, h) == (double) v.i + 0.5 ? "" : no();
        case V::Str: return kind == TIRO_KIND_STRING && text_is(h, v.s) ? "" : no();
        case V::Ref: break;
        }
        Obj& o = *v.o;
        if (real_type(h) != TYPE_NAMES[o.t])
            return no();
        if (o.h) {
            if (!api::value_same(vm, h, o.h->get()))
                return strf("a different object instead of %s", show(v).c_str());
        } else {
            bind(v.o, h);
            bound_now.push_back(v.o);
        }
        return depth > 0 ? contents_differ(o, h, depth - 1) : "";
    }
    // For searching: does not bind objects.
    std::string differs_quiet(const V& v, tiro_handle_t h) {
        if (v.k == V::Ref && !v.o->h)
            return real_type(h) == TYPE_NAMES[v.o->t] ? contents_quiet(*v.o, h) : "other type";
        return differs(v, h, 0);
    }
    std::string contents_quiet(Obj& o, tiro_handle_t h) {
        return o.t == TSlice || o.t == TSymbol || o.t == TType ? contents_differ(o, h, 0) : "";
    }
    std::string contents_differ(Obj& o, tiro_handle_t h, int depth) {
        Err e;
        auto who = [&](const std::string& d, const char* where, size_t i) {
            return d.empty() ? d : strf("%s %s %zu: %s", TYPE_NAMES[o.t], where, i, d.c_str());
        };
        H x(vm.vm);
        switch (o.t) {
        case TArray:
            if (api::array_size(vm, h) != o.items.size())
                return strf("array of size %zu instead of %zu", api::array_size(vm, h), o.items.size());
            for (size_t i = 0; i < o.items.size(); ++i) {
                api::array_get(vm, h, i, x.get(), &e);
                expect_ok(e, "array_get");
                if (auto d = differs(o.items[i], x, depth); !d.empty())
                    return who(d, "element", i);
            }
            return "";
        case TTuple:
            if (api::tuple_size(vm, h) != o.items.size())
                return strf("tuple of size %zu instead of %zu", api::tuple_size(vm, h), o.items.size());
            for (size_t i = 0; i < o.items.size(); ++i) {
                api::tuple_get(vm, h, i, x.get(), &e);
                expect_ok(e, "tuple_get");
                if (auto d = differs(o.items[i], x, depth); !d.empty())
                    return who(d, "element", i);
            }
            return "";
        case TRecord: {
            H k(vm.vm);
            for (size_t i = 0; i < 3; ++i) {
                api::make_string(vm, ts(FIELDS[i]), k.get(), &e);
                expect_ok(e, "make_string");
                api::record_get(vm, h, k, x.get(), &e);
                expect_ok(e, "record_get");
                if (auto d = differs(o.items[i], x, depth); !d.empty())
                    return who(d, "field", i);
            }
            return "";
        }
        case TBuffer: {
            const size_t n = api::buffer_size(vm, h);
            if (n != o.s.size())
                return strf("buffer of size %zu instead of %zu", n, o.s.size());
            const char* p = (const char*) api::buffer_data(vm, h);
            for (size_t i = 0; i < n; ++i)
                if (p[i] != o.s[i])
                    return strf("byte %zu of a buffer is %u instead of %u", i, (unsigned char) p[i], (unsigned char) o.s[i]);
            return "";
        }
        case TResult:
            if (api::result_is_success(vm, h) != o.flag)
                return "result of the other kind";
            if (o.flag)
                api::result_value(vm, h, x.get(), &e);
            else
                api::result_error(vm, h, x.get(), &e);
            expect_ok(e, "result_value");
            return who(differs(o.items[0], x, depth), "value", 0);
        case TType: {
            api::type_name(vm, h, x.get(), &e);
            expect_ok(e, "type_name");
            return text_is(x, o.s) ? "" : strf("type '%s' instead of '%s'", render(vm, x).c_str(), o.s.c_str());
        }
        case TException:
            api::exception_message(vm, h, x.get(), &e);
            expect_ok(e, "exception_message");
            return o.s.empty() || text_is(x, o.s) ? "" : strf("message %s instead of '%s'", render(vm, x).c_str(), o.s.c_str());
        case TSlice:
        case TSymbol:
            api::value_to_string(vm, h, x.get(), &e);
            expect_ok(e, "value_to_string");
            return text_is(x, o.t == TSymbol ? "#" + o.s : o.s) ? "" : strf("%s instead of '%s'", render(vm, x).c_str(), o.s.c_str());
        default: return "";
        }
    }

    // ------------------------------------------------------------ choosing
    V any_int() {
        switch (s.pick(4)) {
        case 0: return V::integer(s.pick(4));
        case 1: return V::integer((i64) s.pick(300) - 20);
        case 2: return V::integer(s.pick(2) ? (i64) 1 << (20 + s.pick(25)) : -((i64) 1 << (20 + s.pick(25))));
        default: return V::integer((i64) s.pick(20));
        }
    }
    std::string any_text() {
        static const char* const texts[] = {"", "a", "ab", "abc", "b", "hello world", "\xc3\xa4", "\xff", "$\"\\\n", "x"};
        std::string t = texts[s.pick(10)];
        if (s.chance(1, 6))
            t += std::string(s.pick(300), (char) ('a' + s.pick(26)));
        return t;
    }
    V any_prim() {
        switch (s.pick(6)) {
        case 0: return {};
        case 1: return V::boolean(s.pick(2));
        case 2: return V::flt((i64) s.pick(50) - 10);
        case 3:
        case 4: return V::str(any_text());
        default: return any_int();
        }
    }
    bool from_pool(const std::function<bool(const Obj&)>& f, V& out) {
        std::vector<P> c;
        for (auto& p : pool)
            if (f(*p))
                c.push_back(p);
        if (c.empty())
            return false;
        out = V::ref(c[s.pick((u32) c.size())]);
        return true;
    }
    // false: there is no value of this kind
    bool choose(u32 kind, V& out) {
        if (kind == KNone) {
            out = {};
            return true;
        }
        if (misuse && s.chance(1, 12))
            kind = KAny;
        switch (kind) {
        case KAny:
            if (s.chance(1, 2) && from_pool([](auto&) { return true; }, out))
                return true;
            out = any_prim();
            return true;
        case KInt: out = any_int(); return true;
        case KSmall: out = V::integer((i64) s.pick(size_limit + 2) - (s.chance(1, 8) ? 2 : 0)); return true;
        case KByte: out = V::integer((i64) s.pick(256) + (s.chance(1, 10) ? 200 : 0)); return true;
        case KStr: out = V::str(any_text()); return true;
        case KText:
            if (s.chance(1, 2) && from_pool([](auto& o) { return o.t == TSlice; }, out))
                return true;
            out = V::str(any_text());
            return true;
        case KPrim: out = any_prim(); return true;
        case KContainer: return from_pool([](auto& o) { return o.t == TArray || o.t == TTuple || o.t == TMap || o.t == TSet || o.t == TBuffer || o.t == TBuilder || o.t == TSlice; }, out);
        case KIterable:
            if (s.chance(1, 12)) {
                out = V::str(any_text());
                return true;
            }
            return from_pool([](auto& o) { return o.t == TArray || o.t == TTuple || o.t == TMap || o.t == TSet || o.t == TKeyView || o.t == TValueView || o.t == TSlice; }, out);
        case KKeyed: return from_pool([](auto& o) { return o.t == TMap || o.t == TSet; }, out);
        case KCallable: return from_pool([](auto& o) { return o.t == TFunc; }, out);
        case KIndexed: return from_pool([](auto& o) { return o.t == TArray || o.t == TTuple || o.t == TMap || o.t == TBuffer; }, out);
        default: return from_pool([&](auto& o) { return o.t == kind; }, out);
        }
    }
    void to_handle(const V& v, tiro_handle_t h) {
        Err e;
        switch (v.k) {
        case V::Null: api::make_null(vm, h); return;
        case V::Bool: api::make_boolean(vm, v.i != 0, h, &e); break;
        case V::Int: api::make_integer(vm, v.i, h, &e); break;
        case V::Float: api::make_float(vm, (double) v.i + 0.5, h, &e); break;
        case V::Str: api::make_string(vm, ts(v.s), h, &e); break;
        case V::Ref:
            SIM_CHECK(v.o->h, "model", "an object without a handle is used");
            api::value_copy(vm, v.o->h->get(), h, &e);
            break;
        }
        expect_ok(e, "to_handle");
    }

    // ------------------------------------------------------------ protocol
    Worker& worker_of(i64 id) {
        SIM_CHECK(id >= 0 && (size_t) id < workers.size(), "corrupt", "a worker has the identity %lld", (long long) id);
        return workers[(size_t) id];
    }
    void start_worker() {
        Err e;
        workers.emplace_back();
        Worker& k = workers.back();
        k.id = (u32) workers.size() - 1;
        k.budget = 10 + s.pick(50);
        H args(vm.vm), v(vm.vm);
        k.coro = std::make_unique<H>(vm.vm);
        api::make_tuple(vm, 1, args.get(), &e);
        expect_ok(e, "make_tuple");
        api::make_integer(vm, k.id, v.get(), &e);
        expect_ok(e, "make_integer");
        api::tuple_set(vm, args, 0, v, &e);
        expect_ok(e, "tuple_set");
        api::make_coroutine(vm, *fn_worker, args, k.coro->get(), &e);
        expect_ok(e, "make_coroutine");
        api::coroutine_start(vm, *k.coro, &e);
        expect_ok(e, "coroutine_start");
        trace("start w%u", k.id);
    }
    V paused(Worker& k, size_t i) {
        if (i < k.pauses.size())
            return k.pauses[i];
        if (!k.panicked)
            fail("lost", "w%u did not call the asynchronous function of '%s'", k.id, k.op->name);
        throw Panic{"resumed with a panic"};
    }
    void next(Worker& k, tiro_handle_t out);
    void done(Worker& k, tiro_handle_t r);
    void visit(Worker& k, tiro_handle_t x);
    void pause(Worker& k, tiro_handle_t x);
    void host_action();
    void complete(Worker& k);
    V resume_value(Worker& k) {
        V x;
        choose(KAny, x);
        if (x.k == V::Float)
            x = V::integer(7);
        // (it may be printed)
        if (!strcmp(k.op->name, "pause in string") || (!strcmp(k.op->name, "pause in call") && k.a.k == V::Ref && k.a.o->t != TArray))
            x = any_prim();
        k.pauses.push_back(x);
        return x;
    }
    void complete_inline(Worker& k, tiro_async_frame_t f) {
        // the call is completed before the native function returns
        Err e;
        if (!draining && s.chance(1, 8)) {
            k.panicked = true;
            api::async_frame_panic_msg(f, ts("resumed with a panic"), &e);
        } else {
            H v(vm.vm);
            if (k.wants_value)
                to_handle(resume_value(k), v.get());
            api::async_frame_return_value(f, v, &e);
        }
        expect_ok(e, "async_frame_return_value");
        probe("returned_at_once");
    }
    // A worker executes: it either did so before or it was resumed.
    void running(Worker& k) {
        if (k.state == Worker::Ready) {
            k.state = Worker::Running;
            current = (i64) k.id;
        }
        SIM_CHECK(k.state == Worker::Running, "order", "w%u continues although it was not resumed", k.id);
        SIM_CHECK(current == (i64) k.id, "order", "w%u continues while w%lld runs", k.id, (long long) current);
    }
    bool disarm();
    void failed(Worker& k);
    void release_new();
    std::string dump_differs(const P& o, tiro_handle_t r);
    void final_dump(const P& o);
};

// ------------------------------------------------------------------ the table
std::vector<V> args_of(Worker& k, int n) {
    std::vector<V> r;
    if (n > 0)
        r.push_back(k.b);
    if (n > 1)
        r.push_back(k.c);
    return r;
}
const char* type_of_op(const char* t) { return !strcmp(t, "Builder") ? "StringBuilder" : !strcmp(t, "Slice") ? "StringSlice" : t; }
#define M0(name, kind, flags) \
    {#name, "return a." #name "();", {kind, KNone, KNone}, [](World& w, Worker& k) { return w.method(k.a, #name, {}); }, flags}
#define M1(name, kind, kb, flags) \
    {#name, "return a." #name "(b);", {kind, kb, KNone}, [](World& w, Worker& k) { return w.method(k.a, #name, args_of(k, 1)); }, flags}
#define M2(name, kind, kb, kc, flags) \
    {#name, "return a." #name "(b, c);", {kind, kb, kc}, [](World& w, Worker& k) { return w.method(k.a, #name, args_of(k, 2)); }, flags}
// the method as a value, called later
#define B1(name, kind, kb) \
    {"bound " #name, "const f = a." #name "; const g = [f]; return g[0](b);", {kind, kb, KNone}, [](World& w, Worker& k) { return w.bound_call(k.a, #name, args_of(k, 1)); }, 0}
// the method of a type
#define S1(ty, name, kb) \
    {"static " #ty "." #name, "return std." #ty "." #name "(a, b);", {T##ty, kb, KNone}, [](World& w, Worker& k) { return w.method(V::ref(w.type(type_of_op(#ty))), #name, {k.a, k.b}); }, 0}
// a function object that remembers the instance
#define F0(name, kind) \
    {"function " #name, "return a." #name ";", {kind, KNone, KNone}, [](World& w, Worker& k) { return function_of(w, k.a, #name); }, 0}

V function_of(World& w, const V& self, const char* name) {
    if (self.k == V::Ref && self.o->t == TRecord)
        throw Panic{"no such field"};
    static const std::map<std::string, std::vector<const char*>> methods = {{"Array", {"size", "append"}}, {"Tuple", {"size"}}, {"Buffer", {"size"}},
        {"Map", {"size", "contains"}}, {"Set", {"size", "contains", "insert"}}, {"String", {"size", "contains"}}, {"StringSlice", {"size", "contains"}},
        {"StringBuilder", {"size", "append", "contains"}}};
    const bool of_type = self.k == V::Ref && self.o->t == TType;
    auto it = methods.find(of_type ? self.o->s : w.type_name(self));
    if (it == methods.end() || std::none_of(it->second.begin(), it->second.end(), [&](auto x) { return !strcmp(x, name); }))
        throw Panic{"no such method"};
    if (of_type)
        return V::ref(w.type_function(self.o->s + "." + name));
    auto f = w.make(TFunc);
    f->func = FBound;
    f->s = name;
    f->items.push_back(self);
    return V::ref(f);
}

V iterate_done(World& w, Worker& k);
V repr_of(World& w, const V& v) {
    std::set<const Obj*> seen;
    return V::str(World::strip(w.repr(v, seen)));
}

#define L(...) [](World& w, Worker& k) -> V { (void) w; (void) k; __VA_ARGS__ }

const Op OPS[] = {
    // construction
    {"array", "return [a, b, c];", {KAny, KAny, KAny}, L(return w.list({k.a, k.b, k.c});), Fresh},
    {"array0", "return [];", {KNone, KNone, KNone}, L(return w.list({});), Fresh},
    {"nested", "return [[a], (b,), [c, [a]]];", {KAny, KAny, KAny}, L(return w.list({w.list({k.a}), w.tuple({k.b}), w.list({k.c, w.list({k.a})})});), Fresh},
    {"tuple", "return (a, b, c);", {KAny, KAny, KAny}, L(return w.tuple({k.a, k.b, k.c});), Fresh},
    {"tuple1", "return (a,);", {KAny, KNone, KNone}, L(return w.tuple({k.a});), Fresh},
    {"tuple0", "return ();", {KNone, KNone, KNone}, L(return w.tuple({});), Fresh},
    {"record", "return (x: a, y: b, z: c);", {KAny, KAny, KAny}, L({
         auto o = w.make(TRecord);
         o->items = {k.a, k.b, k.c};
         return V::ref(o);
     }), Fresh},
    {"map", "return map{a: b, b: c};", {KAny, KAny, KAny}, L({
         auto o = w.make(TMap);
         w.map_set(*o, k.a, k.b);
         w.map_set(*o, k.b, k.c);
         return V::ref(o);
     }), Fresh},
    {"map0", "return map{};", {KNone, KNone, KNone}, L(return V::ref(w.make(TMap));), Fresh},
    {"set", "return set{a, b, c};", {KAny, KAny, KAny}, L({
         auto o = w.make(TSet);
         w.set_insert(*o, k.a);
         w.set_insert(*o, k.b);
         w.set_insert(*o, k.c);
         return V::ref(o);
     }), Fresh},
    {"set0", "return set{};", {KNone, KNone, KNone}, L(return V::ref(w.make(TSet));), Fresh},
    {"buffer", "return std.new_buffer(a);", {KByte, KNone, KNone}, L({
         if (k.a.k != V::Int || k.a.i < 0)
             throw Panic{"size"};
         auto o = w.make(TBuffer);
         o->s.assign((size_t) k.a.i, 0);
         return V::ref(o);
     }), Fresh},
    {"to_utf8", "return std.to_utf8(a);", {KStr, KNone, KNone}, L({
         if (k.a.k != V::Str)
             throw Panic{"string"};
         auto o = w.make(TBuffer);
         o->s = k.a.s;
         return V::ref(o);
     }), Fresh},
    {"builder", "return std.new_string_builder();", {KNone, KNone, KNone}, L(return V::ref(w.make(TBuilder));), Fresh},
    {"success", "return std.success(a);", {KAny, KNone, KNone}, L({
         auto o = w.make(TResult);
         o->flag = true;
         o->items = {k.a};
         return V::ref(o);
     }), Fresh},
    {"error", "return std.error(a);", {KAny, KNone, KNone}, L({
         auto o = w.make(TResult);
         o->items = {k.a};
         return V::ref(o);
     }), Fresh},
    {"symbols", "return [#red, #green, #blue][a];", {KSmall, KNone, KNone}, L({
         return w.get_index(w.list({V::ref(w.symbol("red")), V::ref(w.symbol("green")), V::ref(w.symbol("blue"))}), k.a);
     }), 0},
    {"pair", "return func(x) { return [a, x]; };", {KAny, KNone, KNone}, L({
         auto o = w.make(TFunc);
         o->func = FPair;
         o->items = {k.a};
         return V::ref(o);
     }), Fresh},
    {"counter", "var n = 0; return func(x) { n += x; return n; };", {KNone, KNone, KNone}, L({
         auto o = w.make(TFunc);
         o->func = FCounter;
         return V::ref(o);
     }), Fresh},
    // methods
    M0(size, KContainer, 0), M0(size, KContainer, 0), M0(size, KText, 0), M1(append, TArray, KAny, Atomic), M1(append, TArray, KAny, Atomic),
    M1(append, TBuilder, KPrim, Atomic), M1(append_byte, TBuilder, KByte, Atomic), M0(clear, KContainer, Atomic), M1(contains, KKeyed, KAny, 0),
    M1(contains, KText, KText, 0), M1(contains, TBuilder, KText, 0), M1(insert, TSet, KAny, Atomic), M1(insert, TSet, KAny, Atomic), M1(remove, KKeyed, KAny, Atomic),
    M0(keys, TMap, Fresh), M0(values, TMap, Fresh), M1(slice_first, KText, KSmall, Fresh), M1(slice_last, KText, KSmall, Fresh), M2(slice, KText, KSmall, KSmall, Fresh),
    M0(to_string, TSlice, 0), M0(to_string, TBuilder, 0), M0(type, TResult, 0), M0(is_success, TResult, 0), M0(is_error, TResult, 0), M0(value, TResult, 0),
    M0(error, TResult, 0), M0(message, TException, 0), M0(trace, TException, 0),
    {"append2", "return a.append(b, c);", {TBuilder, KPrim, KPrim}, L(return w.method(k.a, "append", args_of(k, 2));), 0},
    B1(append, TArray, KAny), B1(contains, KKeyed, KAny), B1(append, TBuilder, KPrim), B1(insert, TSet, KAny), B1(slice_first, KText, KSmall), B1(size, KContainer, KAny),
    S1(Array, append, KAny), S1(Map, contains, KAny), S1(Set, insert, KAny), S1(Builder, size, KAny), S1(Slice, slice_first, KSmall), S1(Result, is_error, KAny),
    S1(Tuple, size, KAny), S1(Buffer, size, KAny), S1(Exception, message, KAny), S1(Type, name, KAny), S1(Map, remove, KAny), S1(Set, remove, KAny), S1(Result, value, KAny),
    S1(Builder, append_byte, KByte), S1(Slice, to_string, KAny),
    F0(size, KContainer), F0(append, TArray), F0(contains, KKeyed), F0(insert, TSet), F0(append, TBuilder),
    {"type size", "return a.size(b);", {TType, KContainer, KNone}, L(return w.method(k.a, "size", args_of(k, 1));), 0},
    {"type append", "const f = a.append; return f(b, c);", {TType, TArray, KAny}, L(return w.bound_call(k.a, "append", args_of(k, 2));), 0},
    {"method on anything", "return a.contains(b);", {KAny, KAny, KNone}, L(return w.method(k.a, "contains", args_of(k, 1));), 0},
    {"too few", "return a.contains();", {KKeyed, KNone, KNone}, L(return w.method(k.a, "contains", {});), 0},
    // access
    {"get", "return a[b];", {KIndexed, KSmall, KNone}, L(return w.get_index(k.a, k.b);), 0},
    {"map get", "return a[b];", {TMap, KAny, KNone}, L(return w.get_index(k.a, k.b);), 0},
    {"set index", "a[b] = c; return b;", {KIndexed, KSmall, KAny}, L(w.set_index(k.a, k.b, k.c); return k.b;), Atomic},
    {"map set", "a[b] = c; return a[b];", {TMap, KAny, KAny}, L(w.set_index(k.a, k.b, k.c); return w.get_index(k.a, k.b);), Atomic},
    {"map set", "return a[b] = c;", {TMap, KAny, KAny}, L(w.set_index(k.a, k.b, k.c); return k.c;), Atomic},
    {"buffer set", "return a[b] = c;", {TBuffer, KSmall, KByte}, L(w.set_index(k.a, k.b, k.c); return k.c;), Atomic},
    {"add index", "return a[b] += c;", {KIndexed, KSmall, KInt}, L({
         auto x = w.arith(w.get_index(k.a, k.b), k.c, false);
         w.set_index(k.a, k.b, x);
         return x;
     }), Atomic},
    {"safe get", "return a?[b];", {KIndexed, KSmall, KNone}, L(return k.a.k == V::Null ? V{} : w.get_index(k.a, k.b);), 0},
    {"safe call", "return a?.size();", {KContainer, KNone, KNone}, L(return k.a.k == V::Null ? V{} : w.method(k.a, "size", {});), 0},
    {"coalesce", "return a ?? b;", {KAny, KAny, KNone}, L(return k.a.k == V::Null ? k.b : k.a;), 0},
    {"field x", "return a.x;", {TRecord, KNone, KNone}, L(return w.field(k.a, 0);), 0},
    {"field z", "return a.z;", {TRecord, KNone, KNone}, L(return w.field(k.a, 2);), 0},
    {"field w", "return a.w;", {KAny, KNone, KNone}, L(throw Panic{"no such field"};), 0},
    {"set x", "a.x = b; return a;", {TRecord, KAny, KNone}, L(w.field(k.a, 0) = k.b; return k.a;), Atomic},
    {"set y", "return a.y = b;", {TRecord, KAny, KNone}, L(w.field(k.a, 1) = k.b; return k.b;), Atomic},
    {"set w", "a.w = b;", {KAny, KAny, KNone}, L(throw Panic{"no such field"};), 0},
    {"add z", "return a.z += b;", {TRecord, KInt, KNone}, L({
         auto x = w.arith(w.field(k.a, 2), k.b, false);
         w.field(k.a, 2) = x;
         return x;
     }), Atomic},
    {"schema", "return std.schema_of(a);", {TRecord, KNone, KNone}, L({
         w.field(k.a, 0);
         return V::ref(w.schema());
     }), 0},
    {"tuple 0", "return a.0;", {TTuple, KNone, KNone}, L(return w.tuple_field(k.a, 0);), 0},
    {"tuple 2", "return a.2;", {TTuple, KNone, KNone}, L(return w.tuple_field(k.a, 2);), 0},
    {"set tuple 1", "a.1 = b; return a.1;", {TTuple, KAny, KNone}, L(w.tuple_field(k.a, 1) = k.b; return k.b;), Atomic},
    {"swap", "const t = a; (t.0, t.1) = (t.1, t.0); return t;", {TTuple, KNone, KNone}, L({
         auto x = w.tuple_field(k.a, 0), y = w.tuple_field(k.a, 1);
         w.tuple_field(k.a, 0) = y;
         w.tuple_field(k.a, 1) = x;
         return k.a;
     }), 0},
    {"destructure", "const (x, y) = a; return [y, x];", {TTuple, KNone, KNone}, L({
         auto x = w.tuple_field(k.a, 0), y = w.tuple_field(k.a, 1);
         return w.list({y, x});
     }), Fresh},
    // functions
    {"call", "return a(b);", {KCallable, KAny, KNone}, L(return w.call(k.a, args_of(k, 1));), 0},
    {"call", "return a(b);", {KCallable, KInt, KNone}, L(return w.call(k.a, args_of(k, 1));), 0},
    {"call0", "return a();", {KCallable, KNone, KNone}, L(return w.call(k.a, {});), 0},
    {"call2", "return a(b, c);", {KCallable, KAny, KPrim}, L(return w.call(k.a, args_of(k, 2));), 0},
    // values
    {"equal", "return a == b;", {KAny, KAny, KNone}, L(return V::boolean(equal(k.a, k.b));), 0},
    {"not equal", "return a != b;", {KText, KText, KNone}, L(return V::boolean(!equal(k.a, k.b));), 0},
    {"not", "return !a;", {KAny, KNone, KNone}, L(return V::boolean(!truthy(k.a));), 0},
    {"if", "if a { return b; } return c;", {KAny, KAny, KAny}, L(return truthy(k.a) ? k.b : k.c;), 0},
    {"and", "return a && b || c;", {KAny, KAny, KAny}, L({
         auto x = truthy(k.a) ? k.b : k.a;
         return truthy(x) ? x : k.c;
     }), 0},
    {"add", "return a + b;", {KInt, KPrim, KNone}, L(return w.arith(k.a, k.b, false);), 0},
    {"less", "return a < b;", {KInt, KPrim, KNone}, L(return w.arith(k.a, k.b, true);), 0},
    {"type_of", "return std.type_of(a);", {KAny, KNone, KNone}, L(return V::ref(w.type(w.type_name(k.a)));), 0},
    {"type test", "return [std.type_of(a) == std.Array, std.type_of(a) == std.Map, std.type_of(a) == std.String, std.type_of(a) == std.Function, std.type_of(a) == std.type_of(b)];", {KAny, KAny, KNone}, L({
         const auto t = w.type_name(k.a);
         return w.list({V::boolean(t == "Array"), V::boolean(t == "Map"), V::boolean(t == "String"), V::boolean(t == "Function"), V::boolean(t == w.type_name(k.b))});
     }), Fresh},
    {"format", "return \"<${a}|${b}${c}>\";", {KPrim, KPrim, KPrim}, L({
         const auto x = "<" + w.format(k.a) + "|" + w.format(k.b) + w.format(k.c) + ">";
         return V::str(x);
     }), 0},
    {"repr", "return host.strip(std.debug_repr(a));", {KAny, KNone, KNone}, L(return repr_of(w, k.a);), 0},
    {"pretty repr", "return host.strip(std.debug_repr(a, true));", {KContainer, KNone, KNone}, L(return repr_of(w, k.a);), 0},
    // errors
    {"panic", "std.panic(a);", {KPrim, KNone, KNone}, L(throw Panic{""};), 0},
    {"caught", "const r = std.catch_panic(func() { std.panic(a); }); return r.error();", {KPrim, KNone, KNone}, L({
         auto o = w.make(TException);
         if (k.a.k == V::Ref && k.a.o->t == TException)
             return k.a;
         o->s = w.format(k.a);
         return V::ref(o);
     }), Fresh},
    {"rethrow", "const r = std.catch_panic(func() { std.panic(a); }); return r.error() == a;", {TException, KNone, KNone}, L(return V::boolean(k.a.k == V::Ref && k.a.o->t == TException);), 0},
    {"caught value", "return std.catch_panic(func() { return a; });", {KAny, KNone, KNone}, L({
         auto o = w.make(TResult);
         o->flag = true;
         o->items = {k.a};
         return V::ref(o);
     }), Fresh},
    {"caught call", "const r = std.catch_panic(a); return r.is_error();", {KAny, KNone, KNone}, L({
         try {
             w.call(k.a, {});
             return V::boolean(false);
         } catch (const Panic&) {
             return V::boolean(true);
         }
     }), 0},
    {"defer", "defer { a[b] = c; }; return a[b];", {KIndexed, KSmall, KByte}, L({
         auto x = w.get_index(k.a, k.b);
         w.set_index(k.a, k.b, k.c);
         return x;
     }), 0},
    // suspended in the middle of an operation
    {"pause", "const r = [b, host.pause(id, a.size()), a.size(), c]; return r;", {KContainer, KAny, KAny}, L({
         const auto n = w.method(k.a, "size", {});
         const auto x = w.paused(k, 0);
         return w.list({k.b, x, n, k.c});
     }), Suspends | Fresh},
    {"pause in tuple", "return (a, b, host.pause(id, 0), [c, host.pause(id, 0)]);", {KAny, KAny, KAny}, L({
         const auto x = w.paused(k, 0), y = w.paused(k, 1);
         return w.tuple({k.a, k.b, x, w.list({k.c, y})});
     }), Suspends | Fresh},
    {"pause in call", "return a.append(host.pause(id, 0));", {TArray, KNone, KNone}, L({
         if (k.pauses.empty() && !k.panicked)
             return w.method(k.a, "append", {}); // panics: there is no such method
         return w.method(k.a, "append", {w.paused(k, 0)});
     }), Suspends},
    {"pause in index", "a[b] = host.pause(id, b); return null;", {KIndexed, KSmall, KNone}, L({
         const auto x = w.paused(k, 0);
         w.set_index(k.a, k.b, x);
         return {};
     }), Suspends},
    {"pause in map", "return map{a: host.pause(id, 0), b: c};", {KAny, KAny, KAny}, L({
         const auto x = w.paused(k, 0);
         auto o = w.make(TMap);
         w.map_set(*o, k.a, x);
         w.map_set(*o, k.b, k.c);
         return V::ref(o);
     }), Suspends | Fresh},
    {"pause in defer", "defer host.pause(id, 0); return [a, host.pause(id, 0)];", {KAny, KNone, KNone}, L({
         const auto x = w.paused(k, 0);
         w.paused(k, 1);
         return w.list({k.a, x});
     }), Suspends | Fresh},
    {"pause in closure", "const f = func(x) { const y = host.pause(id, 0); return [a, x, y, b]; }; return f(c);", {KAny, KAny, KAny}, L({
         const auto y = w.paused(k, 0);
         return w.list({k.a, k.c, y, k.b});
     }), Suspends | Fresh},
    {"pause in string", "return \"<${a}${host.pause(id, 0)}${b}>\";", {KPrim, KPrim, KNone}, L({
         const auto y = w.paused(k, 0);
         return V::str("<" + w.format(k.a) + w.format(y) + w.format(k.b) + ">");
     }), Suspends},
    {"iterate", "var n = 0; for x in a { host.visit(id, x); n += 1; } return n;", {KIterable, KNone, KNone}, iterate_done, Suspends},
    {"iterate", "var n = 0; for x in a { host.visit(id, x); n += 1; } return n;", {KIterable, KNone, KNone}, iterate_done, Suspends},
    {"iterate pairs", "var n = 0; for (k, v) in a { host.visit(id, (k, v)); n += 1; } return n;", {TMap, KNone, KNone}, iterate_done, Suspends},
    // many steps at once
    {"append many", "for var i = 0; i < 40; i += 1 { a.append(b); } return a.size();", {TArray, KAny, KNone}, L({
         for (int i = 0; i < 40; ++i)
             w.method(k.a, "append", {k.b});
         return w.method(k.a, "size", {});
     }), 0},
    {"map many", "for var i = 0; i < 40; i += 1 { a[b + i] = c; } return a.size();", {TMap, KInt, KAny}, L({
         for (int i = 0; i < 40; ++i)
             w.set_index(k.a, w.arith(k.b, V::integer(i), false), k.c);
         return w.method(k.a, "size", {});
     }), 0},
    {"remove many", "for var i = 0; i < 40; i += 1 { a.remove(b + i); } return a.size();", {KKeyed, KInt, KNone}, L({
         for (int i = 0; i < 40; ++i)
             w.method(k.a, "remove", {w.arith(k.b, V::integer(i), false)});
         return w.method(k.a, "size", {});
     }), 0},
    {"build many", "for var i = 0; i < 40; i += 1 { a.append(b, i); } return a.size();", {TBuilder, KPrim, KNone}, L({
         if (k.a.k == V::Ref && k.a.o->t == TArray) { // only the first argument counts
             for (int i = 0; i < 40; ++i)
                 w.method(k.a, "append", {k.b});
         } else {
             for (int i = 0; i < 40; ++i)
                 w.method(k.a, "append", {k.b, V::integer(i)});
         }
         return w.method(k.a, "size", {});
     }), 0},
};
constexpr size_t OP_COUNT = sizeof(OPS) / sizeof(OPS[0]);
const Op DUMP_MAP = {"dump map", "const r = []; for (k, v) in a { r.append(k); r.append(v); r.append(a.contains(k) && a[k] == v); } return r;", {TMap, KNone, KNone}, nullptr, 0};
const Op DUMP_SET = {"dump set", "const r = []; for k in a { r.append(k); r.append(a.contains(k)); } return r;", {TSet, KNone, KNone}, nullptr, 0};
const Op DUMP_BUILDER = {"dump builder", "return [a.to_string(), a.size()];", {TBuilder, KNone, KNone}, nullptr, 0};
const Op SAME = {"same", "return a;", {KAny, KNone, KNone}, nullptr, 0};
const Op* const DUMPS[] = {&DUMP_MAP, &DUMP_SET, &DUMP_BUILDER, &SAME};

std::string source() {
    std::string r = R"(
import std;
import host;
const OPS = [
)";
    auto add = [&](const Op& o) {
        std::string body = o.script;
        for (auto [from, to] : {std::pair<const char*, const char*>{"std.Builder.", "std.StringBuilder."}, {"std.Slice.", "std.StringSlice."}})
            if (auto p = body.find(from); p != std::string::npos)
                body.replace(p, strlen(from), to);
        r += "    func(id, a, b, c) { " + body + " },\n";
    };
    for (auto& o : OPS)
        add(o);
    for (auto o : DUMPS)
        add(*o);
    r += R"(
];
export func worker(id) {
    var going = true;
    while going {
        const op = host.next(id);
        if op.0 < 0 {
            going = false;
        } else {
            const r = std.catch_panic(func() { return OPS[op.0](id, op.1, op.2, op.3); });
            host.done(id, r);
        }
    }
    return id;
}
)";
    return r;
}

V iterate_done(World& w, Worker& k) {
    (void) w;
    if (k.panicked)
        throw Panic{"resumed with a panic"};
    auto end = [&](size_t n, const char* what) {
        SIM_CHECK(k.visits >= n, "iteration", "w%u: the iteration of %s ends after %llu of %zu elements", k.id, what, (unsigned long long) k.visits, n);
    };
    if (k.a.k == V::Str) {
        end(k.a.s.size(), "a string");
        return V::integer((i64) k.visits);
    }
    if (k.a.k != V::Ref)
        throw Panic{"not iterable"};
    Obj& o = *k.a.o;
    switch (o.t) {
    case TArray:
    case TTuple:
    case TSlice:
    case TSet:
    case TKeyView:
    case TValueView:
        if (o.t == TArray || o.t == TTuple)
            end(o.items.size(), TYPE_NAMES[o.t]);
        if (o.t == TSlice)
            end(o.s.size(), "a slice");
        if (o.t == TSet && k.version == o.version)
            end(o.items.size(), "a set");
        if ((o.t == TKeyView || o.t == TValueView) && k.version == o.items[0].o->version)
            end(o.items[0].o->map.size(), TYPE_NAMES[o.t]);
        return V::integer((i64) k.visits);
    case TMap:
        if (k.version == o.version)
            end(o.map.size(), "a map");
        return V::integer((i64) k.visits);
    default: throw Panic{"not iterable"};
    }
}

u64 version_of(const V& a) {
    if (a.k != V::Ref)
        return 0;
    return a.o->t == TKeyView || a.o->t == TValueView ? a.o->items[0].o->version : a.o->version;
}

// An element produced by an iteration.
void World::visit(Worker& k, tiro_handle_t x) {
    const u64 i = k.visits++;
    auto check = [&](const V& want) {
        if (auto d = differs(want, x, 1); !d.empty())
            fail("iteration", "w%u: element %llu of %s: %s", k.id, (unsigned long long) i, show(k.a).c_str(), d.c_str());
    };
    if (k.a.k == V::Str || k.a.o->t == TSlice) {
        const std::string& t = k.a.k == V::Str ? k.a.s : k.a.o->s;
        SIM_CHECK(i < t.size(), "iteration", "w%u: the iteration of a string of size %zu does not end", k.id, t.size());
        check(V::str(t.substr((size_t) i, 1)));
        return;
    }
    Obj& o = *k.a.o;
    if (o.t == TArray || o.t == TTuple) {
        SIM_CHECK(i < o.items.size(), "iteration", "w%u: the iteration of a container of size %zu does not end", k.id, o.items.size());
        check(o.items[(size_t) i]);
        return;
    }
    Obj& c = o.t == TKeyView || o.t == TValueView ? *o.items[0].o : o;
    const bool exact = c.version == k.version;
    if (!exact)
        probe("iterated_container_changed");
    auto matches = [&](const V& want, tiro_handle_t h) { return differs_quiet(want, h).empty(); };
    Err e;
    H key(vm.vm), value(vm.vm);
    const bool pair = o.t == TMap;
    if (pair) {
        SIM_CHECK(api::value_kind(vm, x) == TIRO_KIND_TUPLE && api::tuple_size(vm, x) == 2, "iteration", "w%u: iteration of a map produces %s", k.id, render(vm, x).c_str());
        api::tuple_get(vm, x, 0, key.get(), &e);
        api::tuple_get(vm, x, 1, value.get(), &e);
        expect_ok(e, "tuple_get");
    } else {
        api::value_copy(vm, x, o.t == TValueView ? value.get() : key.get(), &e);
        expect_ok(e, "value_copy");
    }
    const size_t bound = exact ? (c.t == TMap ? c.map.size() : c.items.size()) : SIZE_MAX;
    SIM_CHECK(i < bound, "iteration", "w%u: the iteration of %s with %zu elements does not end", k.id, TYPE_NAMES[o.t], bound);
    if (o.t != TValueView) {
        const auto& keys = c.ever;
        const V* found = nullptr;
        for (auto& y : keys)
            if (matches(y, key)) {
                found = &y;
                break;
            }
        SIM_CHECK(found, "iteration", "w%u: the iteration of %s produces the key %s, which was never contained", k.id, show(k.a).c_str(), render(vm, key).c_str());
        if (exact) {
            const bool has = c.t == TMap ? map_find(c, *found) != nullptr : set_has(c, *found);
            SIM_CHECK(has, "iteration", "w%u: the iteration of %s produces the key %s, which is not contained", k.id, show(k.a).c_str(), show(*found).c_str());
            SIM_CHECK(std::none_of(k.visited.begin(), k.visited.end(), [&](auto& y) { return equal(y, *found); }), "iteration", "w%u: the iteration of %s produces the key %s twice", k.id, show(k.a).c_str(), show(*found).c_str());
            k.visited.push_back(*found);
            if (pair) {
                const V want = *map_find(c, *found);
                if (auto d = differs(want, value, 1); !d.empty())
                    fail("iteration", "w%u: value of the key %s of %s: %s", k.id, show(*found).c_str(), show(k.a).c_str(), d.c_str());
            }
        } else if (pair) {
            SIM_CHECK(std::any_of(c.ever_values.begin(), c.ever_values.end(), [&](auto& y) { return matches(y, value); }), "iteration", "w%u: the iteration of %s produces the value %s, which was never contained", k.id, show(k.a).c_str(), render(vm, value).c_str());
        }
    } else {
        bool any = false;
        if (exact)
            any = std::any_of(c.map.begin(), c.map.end(), [&](auto& y) { return matches(y.second, value); });
        else
            any = std::any_of(c.ever_values.begin(), c.ever_values.end(), [&](auto& y) { return matches(y, value); });
        SIM_CHECK(any, "iteration", "w%u: the iteration of the values of %s produces %s, which is not contained", k.id, show(k.a).c_str(), render(vm, value).c_str());
    }
}

bool needs_text(const Op& op) {
    static const char* const names[] = {"format", "panic", "caught", "pause in string"};
    return std::any_of(std::begin(names), std::end(names), [&](auto n) { return !strcmp(op.name, n); });
}

// Removes combinations that are not modelled (printed addresses, floats that are integers).
void restrict_args(World& w, Worker& k) {
    auto builder = [&](const V& v) {
        return v.k == V::Ref && (v.o->t == TBuilder || (v.o->t == TType && v.o->s == "StringBuilder") || (v.o->t == TFunc && (v.o->s == "StringBuilder.append" || (v.o->func == FBound && v.o->items[0].k == V::Ref && v.o->items[0].o->t == TBuilder))));
    };
    V* all[] = {&k.a, &k.b, &k.c};
    const bool text = needs_text(*k.op);
    for (int i = 0; i < 3; ++i) {
        bool printed = text;
        for (int j = 0; j < i; ++j)
            printed = printed || builder(*all[j]);
        if (printed && !w.printable(*all[i]) && !(i > 0 && builder(*all[i])))
            *all[i] = w.any_prim();
        else if (printed && !w.printable(*all[i]))
            *all[i] = V{};
    }
    static const char* const numeric[] = {"add", "less", "add index", "add z", "call", "call2", "map many", "remove many"};
    if (std::any_of(std::begin(numeric), std::end(numeric), [&](auto n) { return !strcmp(k.op->name, n); })) {
        if (k.b.k == V::Float && strcmp(k.op->name, "less"))
            k.b = V::integer(3);
        if (k.c.k == V::Float)
            k.c = V::integer(4);
    }
    if (!strcmp(k.op->name, "iterate pairs") && (k.a.k == V::Str || (k.a.k == V::Ref && k.a.o->t != TMap)))
        k.a = V::integer(2); // (elements of other containers might be tuples)
    if (!strcmp(k.op->name, "buffer") && k.a.k == V::Int && k.a.i > 5000)
        k.a.i = 5000;
}

void World::next(Worker& k, tiro_handle_t out) {
    Err e;
    k.state = Worker::Running;
    current = (i64) k.id;
    k.pauses.clear();
    k.panicked = false;
    k.visits = 0;
    k.visited.clear();
    k.op = nullptr;
    i64 code = -1;
    auto dump_of = [&](const P& o) {
        k.op = o->t == TMap ? &DUMP_MAP : o->t == TSet ? &DUMP_SET : o->t == TBuilder ? &DUMP_BUILDER : &SAME;
        for (size_t i = 0; i < std::size(DUMPS); ++i)
            if (DUMPS[i] == k.op)
                code = (i64) (OP_COUNT + i);
        k.a = V::ref(o);
        k.b = k.c = {};
    };
    if (dirty) {
        dump_of(dirty);
    } else if (forced) {
        dump_of(forced);
        forced = nullptr;
    } else if (k.budget > 0 && !draining) {
        --k.budget;
        if (!pool.empty() && s.chance(1, 8)) {
            dump_of(pool[s.pick((u32) pool.size())]);
        } else {
            for (int tries = 0; tries < 6 && !k.op; ++tries) {
                const size_t i = s.pick((u32) OP_COUNT);
                const Op& op = OPS[i];
                if ((op.flags & Suspends) && !suspend)
                    continue;
                if (oom && !(op.flags & (Atomic | Fresh)))
                    continue;
                if (pool.size() > 40 && (op.flags & Fresh) && s.chance(1, 2))
                    continue;
                if (!choose(op.args[0], k.a) || !choose(op.args[1], k.b) || !choose(op.args[2], k.c))
                    continue;
                k.op = &op;
                restrict_args(*this, k);
                if ((strstr(op.name, "repr") && !small(k.a)) || (strstr(op.name, "many") && k.a.k == V::Ref && (k.a.o->items.size() > 400 || k.a.o->map.size() > 400 || k.a.o->s.size() > 20000))) {
                    k.op = nullptr;
                    continue;
                }
                code = (i64) i;
            }
            if (!k.op) { // something to begin with
                k.op = &OPS[0];
                k.a = any_prim();
                k.b = any_prim();
                k.c = any_prim();
                code = 0;
            }
        }
    }
    if (!k.op)
        k.a = k.b = k.c = {};
    k.version = version_of(k.a);
    if (k.op)
        trace("w%u: %s(%s, %s, %s)", k.id, k.op->name, show(k.a, 1).c_str(), show(k.b, 1).c_str(), show(k.c, 1).c_str());
    H v(vm.vm);
    api::make_tuple(vm, 4, out, &e);
    expect_ok(e, "make_tuple");
    api::make_integer(vm, code, v.get(), &e);
    expect_ok(e, "make_integer");
    api::tuple_set(vm, out, 0, v, &e);
    const V* all[] = {&k.a, &k.b, &k.c};
    for (size_t i = 0; i < 3; ++i) {
        to_handle(*all[i], v.get());
        api::tuple_set(vm, out, i + 1, v, &e);
        expect_ok(e, "tuple_set");
    }
    if (!k.op) {
        k.state = Worker::Done;
        trace("w%u ends", k.id);
        return;
    }
    stat("operations");
    if (oom && !dirty && k.op->flags && s.chance(1, oom)) {
        before = std::make_shared<Obj>(k.a.k == V::Ref ? *k.a.o : Obj{TArray});
        fault_armed = true;
        failed_before = mem.failed;
        if (s.chance(1, 2)) {
            arm_after = s.pick(6);
            arm_count = s.chance(1, 2) ? 1 : -1;
        } else {
            heap_fail = (i64) s.pick(12);
        }
    }
}

// The operation may have failed because of a refused allocation.
bool World::disarm() {
    const bool armed = fault_armed;
    fault_armed = false;
    oom_reset();
    const bool fired = heap_fail == -2;
    heap_fail = -1;
    if (armed && (mem.failed > failed_before || fired)) {
        fault("refused_allocation");
        return true;
    }
    return false;
}

void World::failed(Worker& k) {
    trace("w%u: %s failed", k.id, k.op->name);
    if ((k.op->flags & Atomic) && k.a.k == V::Ref) {
        // either state is fine; the next operation finds out
        dirty = k.a.o;
        try {
            k.op->model(*this, k);
        } catch (const Panic&) {
        }
    }
}

void World::release_new() {
    for (auto& p : bound_now) {
        if (std::find(pool.begin(), pool.end(), p) != pool.end())
            continue;
        if (pool.size() < 60 && s.chance(1, 3))
            pool.push_back(p);
        else if (!p->pinned)
            p->h = nullptr;
    }
    bound_now.clear();
}

std::string World::dump_differs(const P& o, tiro_handle_t r) {
    Err e;
    H x(vm.vm);
    auto get = [&](size_t i) {
        api::array_get(vm, r, i, x.get(), &e);
        expect_ok(e, "array_get");
        return x.get();
    };
    auto size_is = [&](size_t n) { return api::value_kind(vm, r) == TIRO_KIND_ARRAY && api::array_size(vm, r) == n; };
    auto is_true = [&](tiro_handle_t h) { return api::value_kind(vm, h) == TIRO_KIND_BOOLEAN && api::boolean_value(vm, h); };
    switch (o->t) {
    case TMap:
        if (!size_is(o->map.size() * 3))
            return strf("a map with %zu entries instead of %zu", api::array_size(vm, r) / 3, o->map.size());
        for (size_t i = 0; i < o->map.size(); ++i) {
            if (auto d = differs(o->map[i].first, get(i * 3), 1); !d.empty())
                return strf("key %zu: %s", i, d.c_str());
            if (auto d = differs(o->map[i].second, get(i * 3 + 1), 1); !d.empty())
                return strf("value %zu: %s", i, d.c_str());
            if (!is_true(get(i * 3 + 2)))
                return strf("key %s is not found", show(o->map[i].first).c_str());
        }
        return "";
    case TSet:
        if (!size_is(o->items.size() * 2))
            return strf("a set with %zu elements instead of %zu", api::array_size(vm, r) / 2, o->items.size());
        for (size_t i = 0; i < o->items.size(); ++i) {
            if (auto d = differs(o->items[i], get(i * 2), 1); !d.empty())
                return strf("element %zu: %s", i, d.c_str());
            if (!is_true(get(i * 2 + 1)))
                return strf("element %s is not found", show(o->items[i]).c_str());
        }
        return "";
    case TBuilder:
        if (auto d = differs(V::str(o->s), get(0), 1); !d.empty())
            return d;
        return differs(V::integer((i64) o->s.size()), get(1), 1);
    default: return differs(V::ref(o), r, 3);
    }
}

void World::done(Worker& k, tiro_handle_t r) {
    SIM_CHECK(k.op, "corrupt", "w%u reports a result without an operation", k.id);
    running(k);
    Err e;
    H v(vm.vm);
    const bool ok = api::result_is_success(vm, r);
    if (ok)
        api::result_value(vm, r, v.get(), &e);
    else
        api::result_error(vm, r, v.get(), &e);
    expect_ok(e, "result of an operation");
    if (!ok) {
        H m(vm.vm);
        api::exception_message(vm, v, m.get(), &e);
        expect_ok(e, "exception_message");
        tiro_string_t t;
        api::string_value(vm, m, &t, &e);
        expect_ok(e, "string_value");
        SIM_CHECK(t.length > 0 || !strcmp(k.op->name, "panic"), "panic", "w%u: %s panics without a message", k.id, k.op->name);
        note("    panic: %s", str(t).c_str());
    }
    const bool oom_hit = disarm();
    if (!k.op->model) { // a dump
        SIM_CHECK(ok, "wrong-outcome", "w%u: %s of %s panics: %s", k.id, k.op->name, show(k.a).c_str(), render(vm, v).c_str());
        auto d = dump_differs(k.a.o, v);
        if (!d.empty() && dirty) {
            auto first = d;
            before->h = dirty->h;
            // the operation had no effect
            auto o = *before;
            const auto version = dirty->version;
            std::swap(*dirty, o);
            dirty->version = version + 1;
            d = dump_differs(dirty, v);
            SIM_CHECK(d.empty(), "failed-operation", "after an operation that failed, %s is neither unchanged (%s) nor changed (%s)", show(k.a).c_str(), d.c_str(), first.c_str());
            probe("failed_operation_without_effect");
        } else if (dirty) {
            probe("failed_operation_with_effect");
        }
        SIM_CHECK(d.empty(), "wrong-state", "%s of %s: %s", k.op->name, show(k.a).c_str(), d.c_str());
        dirty = nullptr;
        release_new();
        return;
    }
    if (oom_hit && !ok) {
        failed(k);
        return;
    }
    V want;
    bool panics = false;
    try {
        want = k.op->model(*this, k);
    } catch (const Panic& p) {
        panics = true;
    }
    ++ops_done;
    if (panics) {
        SIM_CHECK(!ok, "wrong-outcome", "w%u: %s(%s, %s, %s) returns %s instead of a panic", k.id, k.op->name, show(k.a).c_str(), show(k.b).c_str(), show(k.c).c_str(), render(vm, v).c_str());
        stat("panics");
        return;
    }
    SIM_CHECK(ok, "wrong-outcome", "w%u: %s(%s, %s, %s) panics (%s) instead of returning %s", k.id, k.op->name, show(k.a).c_str(), show(k.b).c_str(), show(k.c).c_str(), render(vm, v).c_str(), show(want).c_str());
    auto d = differs(want, v, 3);
    SIM_CHECK(d.empty(), "wrong-outcome", "w%u: %s(%s, %s, %s): %s", k.id, k.op->name, show(k.a).c_str(), show(k.b).c_str(), show(k.c).c_str(), d.c_str());
    if (want.k == V::Ref && std::find(pool.begin(), pool.end(), want.o) == pool.end() && pool.size() < 80)
        pool.push_back(want.o);
    release_new();
}

// Called between the executions of the main loop, and while an asynchronous function executes.
void World::host_action() {
    Err e;
    switch (s.pick(8)) {
    case 0:
        if (!pool.empty()) { // forget an object
            const u32 i = s.pick((u32) pool.size());
            if (pool[i] != dirty) {
                bool used = false;
                for (auto& k : workers)
                    for (auto v : {&k.a, &k.b, &k.c})
                        used = used || (k.state != Worker::Done && v->o == pool[i]);
                if (!used) {
                    if (!pool[i]->pinned)
                        pool[i]->h = nullptr;
                    pool.erase(pool.begin() + i);
                }
            }
        }
        break;
    case 1:
        gc_now(vm.heap);
        fault("forced_collection");
        break;
    case 2:
    case 3: { // arrays are also modified by the host
        V a;
        if (dirty || !from_pool([](auto& o) { return o.t == TArray; }, a))
            break;
        V x;
        choose(KAny, x);
        H h(vm.vm);
        to_handle(x, h.get());
        auto& items = a.o->items;
        const auto arr = a.o->h->get();
        switch (s.pick(4)) {
        case 0:
            api::array_push(vm, arr, h, &e);
            expect_ok(e, "array_push");
            items.push_back(x);
            break;
        case 1:
            api::array_pop(vm, arr, &e);
            if (items.empty()) {
                SIM_CHECK(!e.ok(), "misuse", "an element is removed from an empty array");
            } else {
                expect_ok(e, "array_pop");
                items.pop_back();
            }
            break;
        case 2:
            if (!items.empty()) {
                const u32 i = s.pick((u32) items.size());
                api::array_set(vm, arr, i, h, &e);
                expect_ok(e, "array_set");
                items[i] = x;
            }
            break;
        case 3:
            if (s.chance(1, 4)) {
                api::array_clear(vm, arr, &e);
                expect_ok(e, "array_clear");
                items.clear();
            }
            break;
        }
        trace("host modifies %s", show(a, 0).c_str());
        break;
    }
    case 4: // compare an object
        if (!pool.empty() && !dirty) {
            auto p = pool[s.pick((u32) pool.size())];
            if (p->h) {
                auto d = differs(V::ref(p), p->h->get(), 3);
                SIM_CHECK(d.empty(), "wrong-state", "%s: %s", show(p, 2).c_str(), d.c_str());
                release_new();
            }
        }
        break;
    default: break;
    }
}

void World::complete(Worker& k) {
    Err e;
    const bool panic = !draining && s.chance(1, 8);
    k.state = Worker::Ready;
    auto t = k.token;
    k.token = nullptr;
    if (panic) {
        api::async_token_panic_msg(t, ts("resumed with a panic"), &e);
        k.panicked = true;
        trace("w%u resumed with a panic", k.id);
    } else {
        H v(vm.vm);
        V x;
        if (k.wants_value) {
            x = resume_value(k);
            to_handle(x, v.get());
        }
        api::async_token_return_value(t, v.get(), &e);
        trace("w%u resumed with %s", k.id, show(x, 0).c_str());
    }
    expect_ok(e, "completion");
    api::async_token_free(t);
    fault("completed_suspension");
}

void World::final_dump(const P& p) {
    Err e;
    forced = p;
    start_worker();
    current = -1;
    api::vm_run_ready(vm, &e);
    expect_ok(e, "run_ready");
    SIM_CHECK(workers.back().state == Worker::Done, "progress", "the last worker does not finish");
}

void run_library(bool gc, bool oom, bool suspend) {
    Stream& s = stream("lib");
    VmOptions o;
    o.page_size = (size_t) 1 << (16 + s.pick(3));
    World w(s, o);
    w.suspend = suspend;
    w.misuse = !oom && s.chance(2, 3);
    w.oom = oom ? 2 + s.pick(6) : 0;
    auto worker = [&](tiro_sync_frame_t f) -> Worker& {
        Err e;
        H a(w.vm.vm);
        api::sync_frame_arg(f, 0, a.get(), &e);
        expect_ok(e, "sync_frame_arg");
        return w.worker_of(api::integer_value(w.vm, a));
    };
    std::vector<std::pair<std::string, H>> members;
    auto sync = [&](const char* name, size_t argc, SyncFn fn) { members.emplace_back(name, make_sync(w.vm, name, argc, std::move(fn))); };
    sync("next", 1, [&](tiro_vm_t, tiro_sync_frame_t f) {
        Err e;
        H out(w.vm.vm);
        w.next(worker(f), out.get());
        api::sync_frame_return_value(f, out, &e);
        expect_ok(e, "return_value");
        if (w.arm_after >= 0) { // (the allocations of the host are not refused)
            oom_after = w.arm_after;
            oom_count = w.arm_count;
            w.arm_after = -1;
        }
    });
    sync("done", 2, [&](tiro_vm_t, tiro_sync_frame_t f) {
        oom_reset();
        if (w.heap_fail >= 0)
            w.heap_fail = -1;
        Err e;
        H r(w.vm.vm);
        api::sync_frame_arg(f, 1, r.get(), &e);
        expect_ok(e, "sync_frame_arg");
        w.done(worker(f), r);
    });
    sync("strip", 1, [&](tiro_vm_t, tiro_sync_frame_t f) {
        Err e;
        H a(w.vm.vm), r(w.vm.vm);
        api::sync_frame_arg(f, 0, a.get(), &e);
        expect_ok(e, "sync_frame_arg");
        tiro_string_t t;
        api::string_value(w.vm, a, &t, &e);
        expect_ok(e, "debug_repr");
        api::make_string(w.vm, ts(World::strip(str(t))), r.get(), &e);
        expect_ok(e, "make_string");
        api::sync_frame_return_value(f, r, &e);
        expect_ok(e, "return_value");
    });
    auto async = [&](bool pause) {
        return [&w, &s, pause](tiro_vm_t v, tiro_async_frame_t f) {
            Err e;
            H a(v), x(v);
            api::async_frame_arg(f, 0, a.get(), &e);
            api::async_frame_arg(f, 1, x.get(), &e);
            expect_ok(e, "async_frame_arg");
            Worker& k = w.worker_of(api::integer_value(v, a));
            w.running(k);
            if (!pause) {
                w.visit(k, x);
            } else if (!strcmp(k.op->name, "pause")) {
                V want;
                try {
                    want = w.method(k.a, "size", {});
                } catch (const Panic&) {
                    fail("wrong-outcome", "w%u: the size of %s is %s instead of a panic", k.id, show(k.a).c_str(), render(v, x).c_str());
                }
                if (auto d = w.differs(want, x, 1); !d.empty())
                    fail("wrong-outcome", "w%u: size of %s: %s", k.id, show(k.a).c_str(), d.c_str());
            }
            k.wants_value = pause;
            w.bound_now.clear();
            if (w.draining || s.chance(1, 2)) { // at once
                w.complete_inline(k, f);
                return;
            }
            k.token = api::async_frame_token(f, &e);
            expect_ok(e, "async_frame_token");
            k.state = Worker::Waiting;
            trace("w%u suspends", k.id);
            w.current = -1;
            api::async_frame_yield(f, &e);
            expect_ok(e, "async_frame_yield");
            if (s.chance(1, 4))
                w.host_action();
        };
    };
    members.emplace_back("visit", make_async(w.vm, "visit", 2, async(false)));
    members.emplace_back("pause", make_async(w.vm, "pause", 2, async(true)));
    make_module(w.vm, "host", std::move(members));
    members.clear();
    w.vm.load_source("lib", source());
    w.fn_worker = std::make_unique<H>(w.vm.fn("lib", "worker"));
    const u32 count = suspend ? 2 + s.pick(4) : 1;
    for (u32 i = 0; i < count; ++i)
        w.start_worker();
    if (gc)
        gc_setup("gc", GcMode::Gaps, 20 + s.pick(400), 400);
    if (oom)
        on_heap_alloc = [&](void*, size_t) {
            if (w.heap_fail < 0)
                return 0;
            if (w.heap_fail-- == 0) {
                w.heap_fail = -2;
                return 2;
            }
            return 0;
        };
    u32 idle = 0;
    for (u32 round = 0;; ++round) {
        Err e;
        SIM_CHECK(round < 20000, "progress", "the workers do not finish");
        w.current = -1;
        api::vm_run_ready(w.vm, &e);
        check_not_assert(e, "run_ready");
        if (!e.ok()) {
            const bool hit = w.disarm();
            SIM_CHECK(hit && e.code() == TIRO_ERROR_ALLOC, "main-loop", "the main loop fails: %s", e.str().c_str());
            SIM_CHECK(w.current >= 0, "main-loop", "the main loop fails outside of an operation: %s", e.str().c_str());
            Worker& k = w.worker_of(w.current);
            SIM_CHECK(k.op, "main-loop", "the main loop fails outside of an operation: %s", e.str().c_str());
            k.state = Worker::Done;
            k.coro = nullptr;
            w.failed(k);
            w.start_worker();
            w.workers.back().budget = k.budget;
            continue;
        }
        bool all = true;
        std::vector<Worker*> waiting;
        for (auto& k : w.workers) {
            all = all && k.state == Worker::Done;
            if (k.state == Worker::Waiting)
                waiting.push_back(&k);
            SIM_CHECK(k.state == Worker::Done || k.state == Worker::Waiting, "progress", "w%u stopped although it does not wait (%s)", k.id, k.op ? k.op->name : "");
        }
        if (all)
            break;
        w.host_action();
        while (!waiting.empty()) {
            const u32 i = s.pick((u32) waiting.size());
            w.complete(*waiting[i]);
            waiting.erase(waiting.begin() + i);
            if (s.chance(1, 2))
                break;
        }
        if (++idle > 3000)
            w.draining = true;
    }
    // everything is in the expected state
    w.draining = true;
    for (auto& p : std::vector<P>(w.pool)) {
        if (!p->h)
            continue;
        auto d = w.differs(V::ref(p), p->h->get(), 3);
        SIM_CHECK(d.empty(), "wrong-state", "at the end: %s: %s", show(p, 2).c_str(), d.c_str());
    }
    for (auto& p : std::vector<P>(w.pool)) {
        if (p->t != TMap && p->t != TSet && p->t != TBuilder)
            continue;
        w.dirty = nullptr;
        w.final_dump(p);
    }
    stat("checked_operations", w.ops_done);
    on_heap_alloc = nullptr;
    for (auto& p : w.all_objects)
        if (auto o = p.lock())
            o->h = nullptr;
    for (auto& k : w.workers)
        k.coro = nullptr;
    w.fn_worker = nullptr;
    w.before = w.dirty = w.forced = nullptr;
    w.vm.destroy();
    natives.sync.clear();
    natives.async.clear();
    natives.res.clear();
    arena_check();
    SIM_CHECK(mem.live_blocks == 0, "leak", "memory is still allocated after the vm was freed: %s", arena_leaks(4).c_str());
}

} // namespace

SCENARIO(lib_all, "C11.library", "C11", 90) {
    const u32 mode = stream("mode").pick(4);
    run_library(mode & 1, false, mode & 2);
}
SCENARIO(lib_gc, "C01.library", "C01", 15) {
    run_library(true, false, stream("mode").pick(2));
}
SCENARIO(lib_oom, "C05.library", "C05", 25) {
    run_library(stream("mode").pick(3) == 0, true, false);
}
SCENARIO(lib_suspend, "C20.library", "C20", 25) {
    run_library(stream("mode").pick(2), false, true);
}
