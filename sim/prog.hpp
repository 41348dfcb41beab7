// Generated concurrent programs and their reference interpreter.
//
// A program is generated as a typed AST from a choice stream, printed as tiro source and compiled by the real
// compiler; the same AST is executed by a small independent interpreter (cells, a FIFO of coroutines). The host
// functions of both sides record what they see; both sides are driven by the same host operations, one main
// loop turn at a time.
#pragma once
#include "host.hpp"

#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <vector>

namespace sim::prog {

enum class T : int { I, S, B, BI, AI, AS, TP, RC, MP, SE, F };

enum class Op : int {
    // expressions
    IntLit, StrLit, BoolLit, Var, Bin, Mod, Box, Unbox, BigOf, Cmp, And, Or, Not, Interp, IfX, BlockX, CallF, CallV,
    MkArr, MkTup, MkRec, MkMap, MkSet, Lambda, ArrGet, ArrSize, TupGet0, TupGet1, RecA, RecB, MapGet, MapSize, MapHas,
    SetHas, SetSize, StrSize, Sleep, Now, HostCall, HostTwice, HostEcho, FnRef, Len, StrEq, SB,
    // statements
    VarDecl, TupDecl, Assign, CompAssign, ArrSet, ArrAppend, TupSet, RecSet, MapSet, MapRemove, SetInsert, SetRemove, Clear,
    Log, If, While, For, ForEach, Block, Break, Continue, Return, Defer, Catch, Panic, Assert, Launch, Dispatch, Park,
    JumpX, // a jump as an operand
    Wake, WakeAt, ExprStmt, CompleteNow, Collect, ArrIdxPanic,
};

struct Node {
    Op op;
    T type = T::I;
    std::vector<Node*> kids;
    std::vector<Node*> body; // statements
    std::vector<Node*> body2;
    i64 n = 0;
    int var = -1, var2 = -1;
    std::string s;
    std::vector<std::string> strs;
    int fn = -1;
};

struct Function {
    int id;
    int param;
    std::vector<Node*> body;
};

struct Config {
    u32 functions = 3;     // exported entry points f0..fn-1
    u32 stmts = 6;         // statements per body
    u32 depth = 3;
    bool suspend = true;   // sleep, park, dispatch
    bool launch = true;
    bool panics = true;
    bool defers = true;
    bool closures = true;
    bool containers = true;
    bool callbacks = true; // resumable host functions
    u32 w_log = 3, w_loop = 2, w_defer = 2, w_catch = 2, w_suspend = 3, w_container = 3;
    // Operations of the host between turns
    u32 max_ops = 30;
};

struct Program {
    std::vector<Function> functions;
    std::vector<std::pair<int, T>> globals;
    std::map<int, Node*> global_init;
    std::vector<std::unique_ptr<Node>> nodes;
    std::string source;
};

void generate(Stream& s, const Config& c, Program& out);
Config random_config(Stream& s);

// Reference side
struct RefVal;
class Reference {
public:
    explicit Reference(const Program& p);
    ~Reference();
    void start(int fn, i64 arg, int tag);
    void run_ready();
    bool has_ready();
    size_t pending();
    void complete(size_t index, i64 value, bool panic);
    bool done(int tag);
    size_t unfinished();
    std::vector<std::string> log;
    struct Impl;
    std::unique_ptr<Impl> impl;
};

// Called from inside native functions while a machine runs (used to drive other machines from there).
extern std::function<void()> in_native;

// Real side
class Real {
public:
    Real(const Program& p, const VmOptions& o, const std::string& module = "prog");
    Real(tiro_module_t m, const VmOptions& o, const std::string& module);
    ~Real();
    void start(int fn, i64 arg, int tag);
    void run_ready();
    bool has_ready();
    size_t pending();
    void complete(size_t index, i64 value, bool panic);
    void shutdown(bool destroy_first);
    std::vector<std::string> log;
    Vm vm;
    struct Pending {
        tiro_async_token_t token;
        i64 value;
    };
    std::deque<Pending> pend;
    u64 callbacks = 0, cleanups = 0, started = 0;
    u64 hold_gc = 0;
    std::string module;

private:
    void setup();
    std::vector<std::unique_ptr<H>> held;
};

// Drives both sides in lockstep, compares after every turn.
struct Lockstep {
    Lockstep(const Config& c, const VmOptions& o, const char* cls, const std::string& suffix);
    void turn(const char* when);
    void step();    // one random host operation
    void drain();   // completes everything
    void destroy(); // destroys the real machine
    Config c;
    const char* cls;
    std::string label;
    Stream& ops;
    Program p;
    std::unique_ptr<Reference> ref;
    std::unique_ptr<Real> real;
    size_t seen = 0;
    int tags = 0;
};
void lockstep(const Config& c, const VmOptions& o, const char* cls);

} // namespace sim::prog
