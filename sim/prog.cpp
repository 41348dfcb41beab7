#include "prog.hpp"

#include <cstdlib>
#include <stdexcept>
#include <ucontext.h>

namespace sim::prog {

static const i64 BIG = 4611686018427387904ll;
static const char* KEYS[] = {"a", "b", "c", "d", "e", "kk"};

// ---------------------------------------------------------------- generator
namespace {

struct VarInfo {
    int id;
    T type;
    bool mut;
    u64 cost = 1; // cost of calling (functions)
};

struct Gen {
    Stream& s;
    const Config& c;
    Program& p;
    std::vector<VarInfo> vars;
    std::vector<u64> fn_cost;
    int next_var = 0;
    int next_tag = 0;
    int fn = 0;
    u64 mult = 1;
    u64 cost = 0;
    int loop_depth = 0;   // loops of the current function body
    bool in_defer = false;
    bool in_function = false;
    bool defer_code = false; // anywhere inside of a defer statement of the current function
    int lambda_depth = 0;
    int nodes_left = 260;

    Gen(Stream& s, const Config& c, Program& p)
        : s(s)
        , c(c)
        , p(p) {}

    Node* mk(Op op, T t = T::I, std::vector<Node*> kids = {}) {
        auto n = std::make_unique<Node>();
        n->op = op;
        n->type = t;
        n->kids = std::move(kids);
        p.nodes.push_back(std::move(n));
        --nodes_left;
        cost += mult;
        return p.nodes.back().get();
    }

    void declare(VarInfo v) { vars.push_back(v); }
    std::vector<VarInfo*> find(T t, bool need_mut = false) {
        std::vector<VarInfo*> r;
        for (auto& v : vars)
            if (v.type == t && (!need_mut || v.mut))
                r.push_back(&v);
        return r;
    }
    VarInfo* pick_var(T t, bool need_mut = false) {
        auto r = find(t, need_mut);
        if (r.empty())
            return nullptr;
        // prefer recent variables
        return r[r.size() - 1 - s.pick((u32) r.size())];
    }
    Node* var(VarInfo* v) {
        auto* n = mk(Op::Var, v->type);
        n->var = v->id;
        return n;
    }
    Node* lit(i64 v) {
        auto* n = mk(Op::IntLit);
        n->n = v;
        return n;
    }
    Node* strlit(const std::string& v) {
        auto* n = mk(Op::StrLit, T::S);
        n->s = v;
        return n;
    }
    Node* key() { return strlit(KEYS[s.pick(6)]); }
    std::string tag() { return strf("t%d", next_tag++); }

    // returns a variable node of a type, or a fresh value
    Node* value_of(T t, int d) {
        if (s.chance(2, 3))
            if (auto* v = pick_var(t))
                return var(v);
        return fresh(t, d);
    }

    Node* fresh(T t, int d) {
        switch (t) {
        case T::I:
            return gI(d);
        case T::S:
            return gS(d);
        case T::B:
            return gB(d);
        case T::BI: {
            return mk(Op::BigOf, T::BI, {gI(d - 1)});
        }
        case T::AI: {
            auto* n = mk(Op::MkArr, t);
            for (u32 i = 0, k = s.pick(5); i < k; ++i)
                n->kids.push_back(gI(d - 1));
            return n;
        }
        case T::AS: {
            auto* n = mk(Op::MkArr, t);
            for (u32 i = 0, k = s.pick(4); i < k; ++i)
                n->kids.push_back(gS(d - 1));
            return n;
        }
        case T::TP:
            return mk(Op::MkTup, t, {gI(d - 1), gS(d - 1)});
        case T::RC:
            return mk(Op::MkRec, t, {gI(d - 1), gS(d - 1)});
        case T::MP: {
            auto* n = mk(Op::MkMap, t);
            for (u32 i = 0, k = s.pick(4); i < k; ++i) {
                n->kids.push_back(key());
                n->kids.push_back(gI(d - 1));
            }
            return n;
        }
        case T::SE: {
            auto* n = mk(Op::MkSet, t);
            for (u32 i = 0, k = s.pick(4); i < k; ++i)
                n->kids.push_back(gI(d - 1));
            return n;
        }
        case T::F: {
            if (fn > 0 && s.chance(1, 4)) {
                u32 j = s.pick((u32) fn);
                auto* n = mk(Op::FnRef, T::F);
                n->fn = (int) j;
                n->n = (i64) fn_cost[j];
                return n;
            }
            return lambda(d);
        }
        }
        return lit(0);
    }

    Node* lambda(int d) {
        auto* n = mk(Op::Lambda, T::F);
        auto saved_vars = vars.size();
        auto saved_mult = mult;
        auto saved_cost = cost;
        auto saved_loop = loop_depth;
        auto saved_defer = in_defer;
        auto saved_code = defer_code;
        mult = 1;
        cost = 1;
        loop_depth = 0;
        in_defer = defer_code = false;
        ++lambda_depth;
        n->var = next_var++;
        declare({n->var, T::I, true});
        body(n->body, 1 + s.pick(c.stmts / 2 + 1), d - 1);
        n->body.push_back(mk(Op::Return, T::I, {gI(1)}));
        --lambda_depth;
        n->n = (i64) cost;
        vars.resize(saved_vars);
        cost = saved_cost + mult;
        mult = saved_mult;
        loop_depth = saved_loop;
        in_defer = saved_defer;
        defer_code = saved_code;
        return n;
    }

    bool affordable(u64 callee) { return mult * callee < 600 && cost + mult * callee < 4000; }

    Node* callee_value(u64& k) {
        auto* v = pick_var(T::F);
        if (!v)
            return nullptr;
        k = v->cost;
        if (!affordable(k))
            return nullptr;
        return var(v);
    }

    Node* gI(int d) {
        if (d <= 0 || nodes_left <= 0) {
            if (s.chance(1, 2))
                if (auto* v = pick_var(T::I))
                    return var(v);
            return lit(s.pick(10));
        }
        const u32 sus = c.suspend ? c.w_suspend : 0, cb = c.callbacks ? 2 : 0, co = c.containers ? c.w_container : 0;
        switch (s.weighted({4, 6, 5, 2, 2, 3, 3, co, co, co, co, co, 1, sus, 2, cb, cb, 2, co})) {
        case 0:
            return lit(s.pick(100));
        case 1:
            if (auto* v = pick_var(T::I))
                return var(v);
            return lit(s.pick(10));
        case 2: {
            auto* a = gI(d - 1);
            auto* b = gI(d - 1);
            auto* n = mk(Op::Bin, T::I, {a, b});
            n->n = s.pick(3);
            return n;
        }
        case 3:
            if (auto* v = pick_var(T::BI))
                return mk(Op::Unbox, T::I, {var(v)});
            return mk(Op::Box, T::I, {gI(d - 1)});
        case 4: {
            auto* cond = gB(d - 1);
            auto* a = gI(d - 1);
            auto* b = gI(d - 1);
            auto* n = mk(Op::IfX, T::I, {cond, a, b});
            if (s.chance(1, 5))
                if (auto* j = jump(d)) { // no value, control flow leaves the expression
                    n->kids[2] = j;
                    n->n = s.pick(6);
                    if (n->n == 5)
                        std::swap(n->kids[1], n->kids[2]);
                }
            return n;
        }
        case 5: {
            if (fn == 0)
                return mk(Op::Box, T::I, {gI(d - 1)});
            u32 j = s.pick((u32) fn);
            if (!affordable(fn_cost[j]))
                return lit(1);
            cost += mult * fn_cost[j];
            auto* n = mk(Op::CallF, T::I, {gI(d - 1)});
            n->fn = (int) j;
            return n;
        }
        case 6: {
            u64 k = 0;
            auto* f = callee_value(k);
            if (!f)
                return lit(2);
            cost += mult * k;
            return mk(Op::CallV, T::I, {f, gI(d - 1)});
        }
        case 7:
            if (auto* v = pick_var(T::AI))
                return mk(Op::ArrGet, T::I, {var(v), gI(d - 1)});
            return mk(Op::ArrSize, T::I, {fresh(T::AI, d - 1)});
        case 8:
            return mk(Op::ArrSize, T::I, {value_of(s.chance(1, 2) ? T::AI : T::AS, d - 1)});
        case 9:
            return mk(Op::TupGet0, T::I, {value_of(T::TP, d - 1)});
        case 10:
            return mk(Op::RecA, T::I, {value_of(T::RC, d - 1)});
        case 11: {
            auto* m = value_of(T::MP, d - 1);
            return mk(Op::MapGet, T::I, {m, key()});
        }
        case 12:
            return mk(Op::StrSize, T::I, {gS(d - 1)});
        case 13:
            return mk(Op::Sleep, T::I, {gI(d - 1)});
        case 14:
            return mk(Op::Now, T::I, {gI(d - 1)});
        case 15: {
            u64 k = 0;
            auto* f = callee_value(k);
            if (!f)
                return lit(3);
            cost += mult * k;
            return mk(Op::HostCall, T::I, {f, gI(d - 1)});
        }
        case 16: {
            u64 k = 0;
            auto* f = callee_value(k);
            if (!f)
                return lit(4);
            cost += 2 * mult * k;
            auto* a = gI(d - 1);
            auto* b = gI(d - 1);
            return mk(Op::HostTwice, T::I, {f, a, b});
        }
        case 17: {
            auto* n = mk(Op::BlockX, T::I);
            auto saved = vars.size();
            body(n->body, 1 + s.pick(2), d - 1);
            n->kids.push_back(gI(d - 1));
            vars.resize(saved);
            return n;
        }
        case 18: {
            bool set = s.chance(1, 2);
            return mk(set ? Op::SetSize : Op::MapSize, T::I, {value_of(set ? T::SE : T::MP, d - 1)});
        }
        }
        return lit(0);
    }

    Node* gS(int d) {
        if (d <= 0 || nodes_left <= 0) {
            if (s.chance(1, 2))
                if (auto* v = pick_var(T::S))
                    return var(v);
            return strlit(KEYS[s.pick(6)]);
        }
        const u32 co = c.containers ? c.w_container : 0;
        switch (s.weighted({3, 4, 5, co, co, 2, 2, 2})) {
        case 0:
            return strlit(strf("s%u", s.pick(50)));
        case 1:
            if (auto* v = pick_var(T::S))
                return var(v);
            return strlit("z");
        case 2: {
            auto* n = mk(Op::Interp, T::S);
            u32 k = 1 + s.pick(3);
            for (u32 i = 0; i < k; ++i) {
                switch (s.pick(3)) {
                case 0:
                    n->kids.push_back(gIx(d - 1));
                    break;
                case 1:
                    n->kids.push_back(gS(d - 1));
                    break;
                case 2:
                    n->kids.push_back(gB(d - 1));
                    break;
                }
            }
            return n;
        }
        case 3:
            return mk(Op::TupGet1, T::S, {value_of(T::TP, d - 1)});
        case 4:
            return mk(Op::RecB, T::S, {value_of(T::RC, d - 1)});
        case 5: {
            auto* cond = gB(d - 1);
            auto* a = gS(d - 1);
            auto* b = gS(d - 1);
            return mk(Op::IfX, T::S, {cond, a, b});
        }
        case 6:
            return mk(Op::HostEcho, T::S, {gS(d - 1)});
        case 7: {
            auto* a = gS(d - 1);
            auto* b = gIx(d - 1);
            return mk(Op::SB, T::S, {a, b});
        }
        }
        return strlit("y");
    }

    Node* gIx(int d) { return gI(d); }

    Node* gB(int d) {
        if (d <= 0 || nodes_left <= 0) {
            if (s.chance(1, 2))
                if (auto* v = pick_var(T::B))
                    return var(v);
            auto* n = mk(Op::BoolLit, T::B);
            n->n = s.pick(2);
            return n;
        }
        const u32 co = c.containers ? c.w_container : 0;
        switch (s.weighted({1, 3, 6, 2, 2, 2, co, co, 2})) {
        case 0: {
            auto* n = mk(Op::BoolLit, T::B);
            n->n = s.pick(2);
            return n;
        }
        case 1:
            if (auto* v = pick_var(T::B))
                return var(v);
            [[fallthrough]];
        case 2: {
            auto* a = gIx(d - 1);
            auto* b = gIx(d - 1);
            auto* n = mk(Op::Cmp, T::B, {a, b});
            n->n = s.pick(6);
            return n;
        }
        case 3: {
            auto* a = gB(d - 1);
            return mk(Op::And, T::B, {a, gB(d - 1)});
        }
        case 4: {
            auto* a = gB(d - 1);
            return mk(Op::Or, T::B, {a, gB(d - 1)});
        }
        case 5:
            return mk(Op::Not, T::B, {gB(d - 1)});
        case 6: {
            auto* m = value_of(T::MP, d - 1);
            return mk(Op::MapHas, T::B, {m, key()});
        }
        case 7: {
            auto* m = value_of(T::SE, d - 1);
            return mk(Op::SetHas, T::B, {m, gIx(d - 1)});
        }
        case 8: {
            auto* a = gS(d - 1);
            return mk(Op::StrEq, T::B, {a, gS(d - 1)});
        }
        }
        return nullptr;
    }

    Node* gen(T t, int d) {
        if (t == T::I)
            return gIx(d);
        return fresh(t, d);
    }

    T random_type() {
        const u32 co = c.containers ? 2 : 0;
        switch (s.weighted({6, 3, 2, 1, co, co, co, co, co, co, c.closures && lambda_depth < 2 ? 3u : 0u})) {
        case 0: return T::I;
        case 1: return T::S;
        case 2: return T::B;
        case 3: return T::BI;
        case 4: return T::AI;
        case 5: return T::AS;
        case 6: return T::TP;
        case 7: return T::RC;
        case 8: return T::MP;
        case 9: return T::SE;
        default: return T::F;
        }
    }

    void body(std::vector<Node*>& out, u32 n, int d) {
        for (u32 i = 0; i < n && nodes_left > 0; ++i) {
            Seg seg(s);
            stmt(out, d);
        }
    }

    // a nested block with its own scope
    void block(std::vector<Node*>& out, int d) {
        auto saved = vars.size();
        body(out, 1 + s.pick(3), d);
        vars.resize(saved);
    }

    Node* log_stmt(int d) {
        auto* n = mk(Op::Log);
        n->s = tag();
        T t;
        switch (s.weighted({6, 3, 1, 1, 1, 1, 1, 1})) {
        case 0: t = T::I; break;
        case 1: t = T::S; break;
        case 2: t = T::B; break;
        case 3: t = T::AI; break;
        case 4: t = T::AS; break;
        case 5: t = T::TP; break;
        case 6: t = T::RC; break;
        default: t = T::BI; break;
        }
        if (!c.containers && t >= T::AI)
            t = T::I;
        n->kids.push_back(t <= T::B ? gen(t, d) : value_of(t, d));
        return n;
    }

    void stmt(std::vector<Node*>& out, int d) {
        const bool nest = d > 0;
        const bool loops = loop_depth > 0 && !in_defer;
        const u32 wl = nest && mult < 30 ? c.w_loop : 0;
        const u32 sus = c.suspend ? c.w_suspend : 0;
        const u32 co = c.containers ? c.w_container : 0;
        switch (s.weighted({
            c.w_log + 1,                                       // 0 log
            5,                                                 // 1 var
            5,                                                 // 2 assign
            co * 2,                                            // 3 container mutation
            nest ? 3u : 0u,                                    // 4 if
            wl,                                                // 5 loops
            c.defers && nest ? c.w_defer : 0u,                 // 6 defer
            c.panics && nest && lambda_depth < 2 ? c.w_catch : 0u, // 7 catch
            c.panics ? 1u : 0u,                                // 8 panic
            !defer_code ? 1u : 0u,                             // 9 return
            loops ? 2u : 0u,                                   // 10 break/continue
            c.launch ? 2u : 0u,                                // 11 launch
            sus ? 2u : 0u,                                     // 12 dispatch
            sus ? 2u : 0u,                                     // 13 park
            sus ? 3u : 0u,                                     // 14 wake
            nest ? 1u : 0u,                                    // 15 block
            2,                                                 // 16 expression statement
            1,                                                 // 17 tuple destructuring
            sus ? 1u : 0u,                                     // 18 complete a pending call from inside
            1,                                                 // 19 collect
            c.defers && c.panics && nest ? c.w_defer : 0u,     // 20 assignments observed by deferred code
        })) {
        case 0:
            out.push_back(log_stmt(d));
            break;
        case 1: {
            T t = random_type();
            auto* n = mk(Op::VarDecl, t);
            auto* init = gen(t, d);
            n->kids.push_back(init);
            n->var = next_var++;
            u64 k = 1;
            if (init->op == Op::Lambda || init->op == Op::FnRef)
                k = (u64) init->n + 1;
            n->n = t == T::F ? 0 : s.chance(3, 4); // mutable
            declare({n->var, t, n->n != 0, k});
            out.push_back(n);
            break;
        }
        case 2: {
            T t = std::vector<T>{T::I, T::S, T::B, T::BI, T::AI, T::TP, T::MP}[s.weighted({8, 3, 1, 1, 1, 1, 1})];
            auto* v = pick_var(t, true);
            if (!v) {
                out.push_back(log_stmt(d));
                break;
            }
            int id = v->id;
            if (t == T::I && s.chance(1, 2)) {
                auto* n = mk(Op::CompAssign, T::I, {gIx(d)});
                n->var = id;
                n->n = s.pick(2);
                out.push_back(n);
            } else {
                auto* n = mk(Op::Assign, t, {gen(t, d)});
                n->var = id;
                out.push_back(n);
            }
            break;
        }
        case 3:
            container(out, d);
            break;
        case 4: {
            auto* n = mk(Op::If);
            n->kids.push_back(gB(d));
            block(n->body, d - 1);
            if (s.chance(1, 2))
                block(n->body2, d - 1);
            out.push_back(n);
            break;
        }
        case 5:
            loop(out, d);
            break;
        case 6: {
            auto* n = mk(Op::Defer);
            auto saved = in_defer;
            auto saved_code = defer_code;
            in_defer = defer_code = true;
            if (s.chance(1, 2)) {
                block(n->body, d - 1);
            } else {
                n->body.push_back(log_stmt(d - 1));
                n->n = 1; // expression form
            }
            in_defer = saved;
            defer_code = saved_code;
            out.push_back(n);
            break;
        }
        case 7: {
            auto* n = mk(Op::Catch);
            n->s = tag();
            n->kids.push_back(catch_body(d));
            out.push_back(n);
            break;
        }
        case 8: {
            switch (s.weighted({4, 2, 2})) {
            case 0: {
                auto* n = mk(Op::Panic);
                n->kids.push_back(gS(1));
                wrap_if(out, n, d);
                break;
            }
            case 1: {
                auto* n = mk(Op::Assert);
                auto* a = gI(0);
                auto* b = gI(0);
                n->kids.push_back(mk(Op::Cmp, T::B, {a, b}));
                n->kids[0]->n = s.pick(6);
                n->s = tag();
                out.push_back(n);
                break;
            }
            case 2: {
                auto* n = mk(Op::ArrIdxPanic);
                n->n = 1 + s.pick(5);
                wrap_if(out, n, d);
                break;
            }
            }
            break;
        }
        case 9: {
            auto* n = mk(Op::Return, T::I, {gIx(d)});
            wrap_jump(out, n, d);
            break;
        }
        case 10:
            wrap_jump(out, mk(s.chance(1, 2) ? Op::Break : Op::Continue), d);
            break;
        case 11: {
            auto* n = mk(Op::Launch);
            n->n = s.pick(2); // 0: std.launch 1: host.launch
            n->s = tag();
            u64 k = 0;
            Node* f = nullptr;
            if (s.chance(1, 2))
                f = callee_value(k);
            if (!f && fn > 0) {
                u32 j = s.pick((u32) fn);
                k = fn_cost[j];
                if (affordable(k)) {
                    f = mk(Op::FnRef, T::F);
                    f->fn = (int) j;
                }
            }
            if (!f)
                f = callee_value(k);
            if (!f) {
                out.push_back(log_stmt(d));
                break;
            }
            cost += mult * k;
            n->kids = {f, gIx(d - 1)};
            out.push_back(n);
            break;
        }
        case 12:
            out.push_back(mk(Op::Dispatch));
            break;
        case 13: {
            auto* n = mk(Op::Park);
            n->s = tag();
            out.push_back(n);
            break;
        }
        case 14: {
            if (s.chance(1, 3)) {
                auto* n = mk(Op::WakeAt);
                n->kids.push_back(gIx(d - 1));
                n->s = tag();
                out.push_back(n);
            } else {
                auto* n = mk(Op::Wake);
                n->s = tag();
                out.push_back(n);
            }
            break;
        }
        case 15: {
            auto* n = mk(Op::Block);
            block(n->body, d - 1);
            out.push_back(n);
            break;
        }
        case 16:
            out.push_back(mk(Op::ExprStmt, T::I, {gIx(d)}));
            break;
        case 17: {
            auto* n = mk(Op::TupDecl);
            n->kids.push_back(c.containers ? value_of(T::TP, d) : mk(Op::MkTup, T::TP, {gIx(d - 1), gS(d - 1)}));
            n->var = next_var++;
            n->var2 = next_var++;
            declare({n->var, T::I, true});
            declare({n->var2, T::S, true});
            out.push_back(n);
            break;
        }
        case 18: {
            auto* n = mk(Op::CompleteNow);
            n->kids.push_back(gIx(d - 1));
            n->s = tag();
            out.push_back(n);
            break;
        }
        case 19:
            out.push_back(mk(Op::Collect));
            break;
        case 20:
            observed(out, d);
            break;
        }
    }

    Node* log_var(int id) {
        auto* v = mk(Op::Var, T::I);
        v->var = id;
        auto* n = mk(Op::Log, T::I, {v});
        n->s = tag();
        return n;
    }

    // Assignments to a variable, mixed with everything that can fail, inside of scopes whose deferred code reads (and
    // changes) the variable.
    void observed(std::vector<Node*>& out, int d) {
        int id;
        auto* v = s.chance(1, 2) ? pick_var(T::I, true) : nullptr;
        if (v) {
            id = v->id;
        } else {
            auto* n = mk(Op::VarDecl, T::I, {gIx(1)});
            n->n = 1;
            id = n->var = next_var++;
            declare({id, T::I, true});
            out.push_back(n);
        }
        auto assign = [&](std::vector<Node*>& o) {
            auto* n = mk(Op::Assign, T::I, {gIx(1)});
            n->var = id;
            o.push_back(n);
        };
        auto defer = [&](std::vector<Node*>& o) {
            auto* n = mk(Op::Defer);
            auto saved = in_defer;
            auto saved_code = defer_code;
            auto saved_vars = vars.size();
            in_defer = defer_code = true;
            switch (s.pick(4)) {
            case 0: n->body.push_back(log_var(id)); n->n = 1; break;
            case 1: { // a read that nobody needs
                auto* v = mk(Op::Var, T::I);
                v->var = id;
                auto* x = mk(Op::VarDecl, T::I, {v});
                x->var = next_var++;
                n->body.push_back(x);
                break;
            }
            case 2:
                n->body.push_back(log_var(id));
                assign(n->body);
                n->body.push_back(log_var(id));
                break;
            case 3: n->body.push_back(log_stmt(d - 1)); break;
            }
            vars.resize(saved_vars);
            in_defer = saved;
            defer_code = saved_code;
            o.push_back(n);
        };
        defer(out);
        Node* inner = nullptr;
        auto saved = vars.size();
        auto saved_mult = mult;
        if (mult < 20 && s.chance(1, 2)) {
            inner = mk(s.chance(1, 2) ? Op::For : Op::While);
            inner->n = 1 + s.pick(3);
            inner->var = next_var++;
            if (inner->op == Op::While)
                inner->kids.push_back(loop_cond());
            declare({inner->var, T::I, false});
            mult *= inner->n;
            ++loop_depth;
        } else {
            inner = mk(Op::Block);
        }
        const bool sd = in_defer;
        if (inner->op != Op::Block)
            in_defer = false;
        for (u32 i = 0, n = 2 + s.pick(4); i < n && nodes_left > 0; ++i) {
            Seg seg(s);
            switch (s.weighted({4, 3, 3})) {
            case 0: assign(inner->body); break;
            case 1: defer(inner->body); break;
            case 2: stmt(inner->body, d - 1); break;
            }
        }
        in_defer = sd;
        if (inner->op != Op::Block)
            --loop_depth;
        mult = saved_mult;
        vars.resize(saved);
        out.push_back(inner);
    }

    void wrap_if(std::vector<Node*>& out, Node* n, int d) {
        auto* i = mk(Op::If);
        i->kids.push_back(gB(d > 1 ? 2 : 1));
        i->body.push_back(n);
        out.push_back(i);
    }

    // An operand that leaves the current function or loop
    Node* jump(int d) {
        if (loop_depth > 0 && !in_defer && s.chance(1, 2)) {
            auto* n = mk(Op::JumpX, T::I);
            n->n = 1 + s.pick(2);
            return n;
        }
        if (defer_code || !in_function)
            return nullptr;
        return mk(Op::JumpX, T::I, {gI(d - 1)});
    }

    // A conditional jump: one or both branches may not continue
    void wrap_jump(std::vector<Node*>& out, Node* jmp, int d) {
        wrap_if(out, jmp, d);
        auto* i = out.back();
        const bool nest = d > 1 && nodes_left > 0;
        switch (s.weighted({8, 2, 2, nest ? 3u : 0u, nest ? 3u : 0u, nest && !defer_code ? 2u : 0u})) {
        case 0: break;
        case 1: i->n = 1; break; // cond && (jump)
        case 2: { // everything that follows is dead
            Node* other = nullptr;
            if (!defer_code && s.chance(1, 2))
                other = mk(Op::Return, T::I, {gI(d - 1)});
            else if (loop_depth > 0 && !in_defer)
                other = mk(s.chance(1, 2) ? Op::Break : Op::Continue);
            if (other)
                i->body2.push_back(other);
            break;
        }
        case 3: // the other branch continues
            block(i->body2, d - 1);
            break;
        case 4: { // dead code after the jump
            block(i->body, d - 1);
            break;
        }
        case 5: { // a loop that is never left except by return
            auto* b = mk(Op::Block);
            b->n = 1 + s.pick(3);
            auto ld = loop_depth;
            auto saved = vars.size();
            loop_depth = 0;
            auto sd = in_defer;
            in_defer = false;
            body(b->body, 1 + s.pick(2), d - 1);
            b->body.push_back(mk(Op::Return, T::I, {gI(d - 1)}));
            loop_depth = ld;
            in_defer = sd;
            vars.resize(saved);
            i->body2.push_back(b);
            if (s.chance(1, 2))
                std::swap(i->body, i->body2);
            break;
        }
        }
    }

    // body of the protected function
    Node* catch_body(int d) {
        auto* n = mk(Op::Lambda, T::F);
        auto saved_vars = vars.size();
        auto saved_loop = loop_depth;
        auto saved_defer = in_defer;
        auto saved_code = defer_code;
        loop_depth = 0;
        in_defer = defer_code = false;
        ++lambda_depth;
        n->var = -1;
        body(n->body, 1 + s.pick(3), d - 1);
        if (s.chance(1, 2)) {
            auto* x = mk(Op::Panic);
            x->kids.push_back(gS(1));
            n->body.push_back(x);
        } else {
            n->body.push_back(mk(Op::Return, T::I, {gIx(1)}));
        }
        --lambda_depth;
        vars.resize(saved_vars);
        loop_depth = saved_loop;
        in_defer = saved_defer;
        defer_code = saved_code;
        return n;
    }

    Node* loop_cond() {
        if (s.chance(1, 8))
            return gB(1);
        auto* a = pick_var(T::I);
        if (!a) {
            auto* t = mk(Op::BoolLit, T::B);
            t->n = 1;
            return t;
        }
        auto* n = mk(Op::Cmp, T::B, {var(a), lit(s.pick(10))});
        n->n = s.pick(6);
        return n;
    }

    void loop(std::vector<Node*>& out, int d) {
        u32 kind = s.pick(3);
        u32 bound = 1 + s.pick(4);
        auto saved = vars.size();
        auto saved_mult = mult;
        auto saved_defer = in_defer;
        if (kind == 2) {
            auto* n = mk(Op::ForEach);
            // only fresh containers are iterated: nobody else can change them
            T t = c.containers ? std::vector<T>{T::AI, T::AS, T::MP, T::SE, T::S}[s.pick(5)] : T::AI;
            if (t == T::S)
                n->kids.push_back(strlit(std::vector<std::string>{"ab", "xyz", ""}[s.pick(3)]));
            else
                n->kids.push_back(fresh(t, d - 1));
            n->type = t;
            n->var = next_var++;
            mult *= 4;
            switch (t) {
            case T::AI:
            case T::SE:
                declare({n->var, T::I, false});
                break;
            case T::AS:
            case T::S:
                declare({n->var, T::S, false});
                break;
            case T::MP:
                n->var2 = next_var++;
                declare({n->var, T::S, false});
                declare({n->var2, T::I, false});
                break;
            default:
                break;
            }
            ++loop_depth;
            in_defer = false;
            int ld = loop_depth;
            body(n->body, 1 + s.pick(3), d - 1);
            loop_depth = ld - 1;
            in_defer = saved_defer;
            mult = saved_mult;
            vars.resize(saved);
            out.push_back(n);
            return;
        }
        auto* n = mk(kind == 0 ? Op::For : Op::While);
        n->n = bound;
        n->var = next_var++;
        n->fn = (int) s.weighted({6, 1, 1, 1}); // how the loop is written
        if (kind == 1) {
            auto ld = loop_depth;
            if (n->fn)
                loop_depth = 0; // jumps in the condition might refer to this loop
            n->kids.push_back(loop_cond()); // additional condition
            loop_depth = ld;
        }
        declare({n->var, T::I, false});
        mult *= bound;
        ++loop_depth;
        bool sd = in_defer;
        in_defer = false;
        body(n->body, 1 + s.pick(3), d - 1);
        in_defer = sd;
        --loop_depth;
        mult = saved_mult;
        vars.resize(saved);
        out.push_back(n);
    }

    void container(std::vector<Node*>& out, int d) {
        switch (s.pick(9)) {
        case 0:
            if (auto* v = pick_var(T::AI)) {
                auto* x = var(v);
                out.push_back(mk(Op::ArrAppend, T::AI, {x, gIx(d)}));
                return;
            }
            break;
        case 1:
            if (auto* v = pick_var(T::AI)) {
                auto* x = var(v);
                auto* i = gIx(d - 1);
                out.push_back(mk(Op::ArrSet, T::AI, {x, i, gIx(d)}));
                return;
            }
            break;
        case 2:
            if (auto* v = pick_var(T::TP)) {
                auto* x = var(v);
                auto* n = mk(Op::TupSet, T::TP, {x, nullptr});
                n->n = s.pick(2);
                n->kids[1] = n->n == 0 ? gIx(d) : gS(d);
                out.push_back(n);
                return;
            }
            break;
        case 3:
            if (auto* v = pick_var(T::RC)) {
                auto* x = var(v);
                auto* n = mk(Op::RecSet, T::RC, {x, nullptr});
                n->n = s.pick(2);
                n->kids[1] = n->n == 0 ? gIx(d) : gS(d);
                out.push_back(n);
                return;
            }
            break;
        case 4:
            if (auto* v = pick_var(T::MP)) {
                auto* x = var(v);
                auto* k = key();
                out.push_back(mk(Op::MapSet, T::MP, {x, k, gIx(d)}));
                return;
            }
            break;
        case 5:
            if (auto* v = pick_var(T::MP)) {
                auto* x = var(v);
                out.push_back(mk(Op::MapRemove, T::MP, {x, key()}));
                return;
            }
            break;
        case 6:
            if (auto* v = pick_var(T::SE)) {
                auto* x = var(v);
                out.push_back(mk(Op::SetInsert, T::SE, {x, gIx(d)}));
                return;
            }
            break;
        case 7:
            if (auto* v = pick_var(T::SE)) {
                auto* x = var(v);
                out.push_back(mk(Op::SetRemove, T::SE, {x, gIx(d)}));
                return;
            }
            break;
        case 8:
            if (auto* v = pick_var(T::AS)) {
                auto* x = var(v);
                out.push_back(mk(Op::ArrAppend, T::AS, {x, gS(d)}));
                return;
            }
            break;
        }
        out.push_back(log_stmt(d));
    }

    void program() {
        // globals
        u32 ng = 1 + s.pick(4);
        for (u32 i = 0; i < ng; ++i) {
            Seg seg(s);
            T t = std::vector<T>{T::I, T::S, T::AI, T::MP, T::TP, T::SE}[c.containers ? s.pick(6) : s.pick(2)];
            int id = next_var++;
            Node* init = nullptr;
            switch (t) {
            case T::I:
                init = lit(s.pick(10));
                break;
            case T::S:
                init = strlit("g");
                break;
            default: {
                Op op = t == T::AI ? Op::MkArr : t == T::MP ? Op::MkMap : t == T::TP ? Op::MkTup : Op::MkSet;
                init = mk(op, t);
                if (t == T::TP)
                    init->kids = {lit(1), strlit("q")};
                if (t == T::AI)
                    init->kids = {lit(3), lit(4)};
                break;
            }
            }
            p.globals.push_back({id, t});
            p.global_init[id] = init;
            declare({id, t, true});
        }
        size_t globals = vars.size();
        int per_fn = nodes_left / (int) c.functions;
        for (u32 i = 0; i < c.functions; ++i) {
            fn = (int) i;
            in_function = true;
            Function f;
            f.id = (int) i;
            f.param = next_var++;
            vars.resize(globals);
            declare({f.param, T::I, true});
            mult = 1;
            cost = 1;
            nodes_left = per_fn + 40;
            body(f.body, 1 + s.pick(c.stmts), (int) c.depth);
            f.body.push_back(mk(Op::Return, T::I, {gIx(1)}));
            p.functions.push_back(std::move(f));
            fn_cost.push_back(cost);
        }
    }
};

// ---------------------------------------------------------------- printer
struct Print {
    std::string out;
    int ind = 0;

    void line(const std::string& t) { out += std::string((size_t) ind * 2, ' ') + t + "\n"; }

    // the compiler quotes the condition without enclosing parentheses
    static std::string strip(const std::string& s) { return s.substr(1, s.size() - 2); }

    static std::string v(int id) { return strf("v%d", id); }

    std::string lambda(const Node* n) {
        Print p;
        p.ind = ind + 1;
        for (auto* st : n->body)
            p.stmt(st);
        return "func(" + (n->var >= 0 ? v(n->var) : std::string()) + ") {\n" + p.out + std::string((size_t) ind * 2, ' ') + "}";
    }

    std::string list(const Node* n) {
        std::string r;
        for (size_t i = 0; i < n->kids.size(); ++i)
            r += (i ? ", " : "") + e(n->kids[i]);
        return r;
    }

    std::string index(const Node* arr, const Node* idx, const std::string& then, const std::string& els) {
        return "{ const i_ = " + e(idx) + "; const a_ = " + e(arr) + "; if a_.size() == 0 { " + els
               + " } else { " + then + " } }";
    }

    std::string e(const Node* n) {
        switch (n->op) {
        case Op::IntLit:
            return strf("%lld", (long long) n->n);
        case Op::StrLit:
            return "\"" + n->s + "\"";
        case Op::BoolLit:
            return n->n ? "true" : "false";
        case Op::Var:
            return v(n->var);
        case Op::Bin: {
            const char* ops[] = {"+", "-", "*"};
            return strf("((%s %s %s) %% 9973)", e(n->kids[0]).c_str(), ops[n->n], e(n->kids[1]).c_str());
        }
        case Op::Box:
            return "(((" + e(n->kids[0]) + " % 1000) + 4611686018427387904) - 4611686018427387904)";
        case Op::BigOf:
            return "((" + e(n->kids[0]) + " % 1000) + 4611686018427387904)";
        case Op::Unbox:
            return "(" + e(n->kids[0]) + " - 4611686018427387904)";
        case Op::Cmp: {
            const char* ops[] = {"<", ">", "<=", ">=", "==", "!="};
            return "(" + e(n->kids[0]) + " " + ops[n->n] + " " + e(n->kids[1]) + ")";
        }
        case Op::StrEq:
            return "(" + e(n->kids[0]) + " == " + e(n->kids[1]) + ")";
        case Op::And:
            return "(" + e(n->kids[0]) + " && " + e(n->kids[1]) + ")";
        case Op::Or:
            return "(" + e(n->kids[0]) + " || " + e(n->kids[1]) + ")";
        case Op::Not:
            return "(!" + e(n->kids[0]) + ")";
        case Op::Interp: {
            std::string r = "\"<";
            for (auto* k : n->kids) {
                if (k->type == T::S)
                    r += "${cut(" + e(k) + ")}";
                else
                    r += "${" + e(k) + "}";
                r += ";";
            }
            return r + ">\"";
        }
        case Op::SB:
            return "{ const b_ = std.new_string_builder(); b_.append(cut(" + e(n->kids[0]) + ")); b_.append(\"|\", " + e(n->kids[1])
                   + "); b_.to_string(); }";
        case Op::JumpX:
            return n->n == 0 ? "(return " + e(n->kids[0]) + ")" : n->n == 1 ? "(break)" : "(continue)";
        case Op::IfX:
            switch (n->kids[2]->op == Op::JumpX ? n->n : 0) { // the same thing in other words
            case 1: return "((if " + e(n->kids[0]) + " { null; } else { std; })?[" + e(n->kids[2]) + "] ?? " + e(n->kids[1]) + ")";
            case 2: return "((if " + e(n->kids[0]) + " { null; } else { std; })?(" + e(n->kids[2]) + ") ?? " + e(n->kids[1]) + ")";
            case 3: return "((if " + e(n->kids[0]) + " { " + e(n->kids[1]) + "; } else { null; }) ?? " + e(n->kids[2]) + ")";
            case 4: return "((if " + e(n->kids[0]) + " { null; } else { (); })?.size(1, " + e(n->kids[2]) + ") ?? " + e(n->kids[1]) + ")";
            }
            return "(if " + e(n->kids[0]) + " { " + e(n->kids[1]) + "; } else { " + e(n->kids[2]) + "; })";
        case Op::BlockX: {
            Print p;
            p.ind = ind + 1;
            for (auto* st : n->body)
                p.stmt(st);
            p.line("const tail_ = " + p.e(n->kids[0]) + ";");
            p.line("tail_;");
            return "{\n" + p.out + std::string((size_t) ind * 2, ' ') + "}";
        }
        case Op::CallF:
            return strf("f%d(", n->fn) + e(n->kids[0]) + ")";
        case Op::CallV:
            return e(n->kids[0]) + "(" + e(n->kids[1]) + ")";
        case Op::MkArr:
            return "[" + list(n) + "]";
        case Op::MkTup:
            return "(" + list(n) + ")";
        case Op::MkRec:
            return "(a: " + e(n->kids[0]) + ", b: " + e(n->kids[1]) + ")";
        case Op::MkMap: {
            std::string r = "map{";
            for (size_t i = 0; i < n->kids.size(); i += 2)
                r += (i ? ", " : "") + e(n->kids[i]) + ": " + e(n->kids[i + 1]);
            return r + "}";
        }
        case Op::MkSet:
            return "set{" + list(n) + "}";
        case Op::Lambda:
            return lambda(n);
        case Op::FnRef:
            return strf("f%d", n->fn);
        case Op::ArrGet:
            return index(n->kids[0], n->kids[1], "a_[((i_ % a_.size()) + a_.size()) % a_.size()];", "-1;");
        case Op::ArrSize:
        case Op::MapSize:
        case Op::SetSize:
        case Op::StrSize:
            return "(" + e(n->kids[0]) + ").size()";
        case Op::TupGet0:
            return e(n->kids[0]) + ".0";
        case Op::TupGet1:
            return e(n->kids[0]) + ".1";
        case Op::RecA:
            return e(n->kids[0]) + ".a";
        case Op::RecB:
            return e(n->kids[0]) + ".b";
        case Op::MapGet:
            return "(" + e(n->kids[0]) + "[" + e(n->kids[1]) + "] ?? -1)";
        case Op::MapHas:
        case Op::SetHas:
            return "(" + e(n->kids[0]) + ").contains(" + e(n->kids[1]) + ")";
        case Op::Sleep:
            return "host.sleep(" + e(n->kids[0]) + ")";
        case Op::Now:
            return "host.now(" + e(n->kids[0]) + ")";
        case Op::HostCall:
            return "host.call(" + list(n) + ")";
        case Op::HostTwice:
            return "host.twice(" + list(n) + ")";
        case Op::HostEcho:
            return "host.echo(" + list(n) + ")";
        default:
            return "?";
        }
    }

    void block(const std::vector<Node*>& b) {
        ++ind;
        for (auto* st : b)
            stmt(st);
        --ind;
    }

    void stmt(const Node* n) {
        switch (n->op) {
        case Op::VarDecl:
            line((n->n ? "var " : "const ") + v(n->var) + " = " + e(n->kids[0]) + ";");
            break;
        case Op::TupDecl:
            line("var (" + v(n->var) + ", " + v(n->var2) + ") = " + e(n->kids[0]) + ";");
            break;
        case Op::Assign:
            line(v(n->var) + " = " + e(n->kids[0]) + ";");
            break;
        case Op::CompAssign:
            line(v(n->var) + (n->n ? " -= " : " += ") + "(" + e(n->kids[0]) + ") % 100;");
            break;
        case Op::ArrAppend:
            line("if " + e(n->kids[0]) + ".size() < 12 { " + e(n->kids[0]) + ".append(" + e(n->kids[1]) + "); }");
            break;
        case Op::ArrSet:
            line(index(n->kids[0], n->kids[1], "a_[((i_ % a_.size()) + a_.size()) % a_.size()] = " + e(n->kids[2]) + ";", "0;"));
            break;
        case Op::TupSet:
            line(e(n->kids[0]) + (n->n ? ".1 = " : ".0 = ") + e(n->kids[1]) + ";");
            break;
        case Op::RecSet:
            line(e(n->kids[0]) + (n->n ? ".b = " : ".a = ") + e(n->kids[1]) + ";");
            break;
        case Op::MapSet:
            line(e(n->kids[0]) + "[" + e(n->kids[1]) + "] = " + e(n->kids[2]) + ";");
            break;
        case Op::MapRemove:
            line(e(n->kids[0]) + ".remove(" + e(n->kids[1]) + ");");
            break;
        case Op::SetInsert:
            line("if " + e(n->kids[0]) + ".size() < 40 { " + e(n->kids[0]) + ".insert(" + e(n->kids[1]) + "); }");
            break;
        case Op::SetRemove:
            line(e(n->kids[0]) + ".remove(" + e(n->kids[1]) + ");");
            break;
        case Op::Log:
            line("host.log(\"" + n->s + "\", " + e(n->kids[0]) + ");");
            break;
        case Op::If:
            if (n->n == 1 && n->body.size() == 1 && n->body2.empty()) {
                auto* j = n->body[0];
                std::string t = j->op == Op::Return ? "return " + e(j->kids[0]) : j->op == Op::Break ? "break" : "continue";
                line("true && " + e(n->kids[0]) + " && (" + t + ");"); // does not start with a parenthesis
                break;
            }
            line("if " + e(n->kids[0]) + " {");
            block(n->body);
            if (!n->body2.empty()) {
                line("} else {");
                block(n->body2);
            }
            line("}");
            break;
        case Op::For:
            if (n->fn == 1 || n->fn == 2) {
                line("{");
                ++ind;
                line(strf("var v%d = 0;", n->var));
                line(strf(n->fn == 1 ? "for ;; v%d += 1 {" : "for ; true; v%d += 1 {", n->var));
                line(strf("  if v%d >= %lld { break; }", n->var, (long long) n->n));
                block(n->body);
                line("}");
                --ind;
                line("}");
                break;
            }
            line(strf("for var v%d = 0; v%d < %lld; v%d += 1 {", n->var, n->var, (long long) n->n, n->var));
            block(n->body);
            line("}");
            break;
        case Op::While:
            line("{");
            ++ind;
            line(strf("var v%d = 0;", n->var));
            if (n->fn == 1) {
                line("for ;; {");
                line(strf("  if v%d < %lld && ", n->var, (long long) n->n) + e(n->kids[0]) + " { } else { break; }");
            } else if (n->fn == 2)
                line(strf("for ; v%d < %lld && ", n->var, (long long) n->n) + e(n->kids[0]) + "; {");
            else if (n->fn == 3) {
                line("while true {");
                line(strf("  v%d < %lld || (break);", n->var, (long long) n->n));
                line("  false || " + e(n->kids[0]) + " || (break);");
            } else
                line(strf("while v%d < %lld && ", n->var, (long long) n->n) + e(n->kids[0]) + " {");
            line(strf("  v%d += 1;", n->var));
            block(n->body);
            line("}");
            --ind;
            line("}");
            break;
        case Op::ForEach: {
            line("{");
            ++ind;
            line(strf("const it%d = ", n->var) + e(n->kids[0]) + ";");
            if (n->var2 >= 0)
                line(strf("for (v%d, v%d) in it%d {", n->var, n->var2, n->var));
            else
                line(strf("for v%d in it%d {", n->var, n->var));
            if (n->type == T::S)
                ;
            block(n->body);
            line("}");
            --ind;
            line("}");
            break;
        }
        case Op::Block:
            line(n->n == 1 ? "for ;; {" : n->n == 2 ? "while (true) {" : n->n == 3 ? "for ; true; {" : "{");
            block(n->body);
            line("}");
            break;
        case Op::Break:
            line("break;");
            break;
        case Op::Continue:
            line("continue;");
            break;
        case Op::Return:
            line("return " + e(n->kids[0]) + ";");
            break;
        case Op::Defer:
            if (n->n == 1) {
                auto* l = n->body[0];
                line("defer host.log(\"" + l->s + "\", " + e(l->kids[0]) + ");");
            } else {
                line("defer {");
                block(n->body);
                line("};");
            }
            break;
        case Op::Catch:
            line("host.log(\"" + n->s + "\", outcome(std.catch_panic(" + lambda(n->kids[0]) + ")));");
            break;
        case Op::Panic:
            line("std.panic(" + e(n->kids[0]) + ");");
            break;
        case Op::Assert:
            line("assert(" + strip(e(n->kids[0])) + ", \"" + n->s + "\");");
            break;
        case Op::ArrIdxPanic:
            line(strf("ignore([1][%lld]);", (long long) n->n));
            break;
        case Op::Launch:
            if (n->n == 0)
                line("std.launch(" + e(n->kids[0]) + ", " + e(n->kids[1]) + ");");
            else
                line("host.launch(" + e(n->kids[0]) + ", " + e(n->kids[1]) + ", \"" + n->s + "\");");
            break;
        case Op::Dispatch:
            line("std.dispatch();");
            break;
        case Op::Park:
            line("park(\"" + n->s + "\");");
            break;
        case Op::Wake:
            line("wake(\"" + n->s + "\");");
            break;
        case Op::WakeAt:
            line("wake_at(\"" + n->s + "\", " + e(n->kids[0]) + ");");
            break;
        case Op::ExprStmt:
            line("ignore(" + e(n->kids[0]) + ");");
            break;
        case Op::CompleteNow:
            line("host.log(\"" + n->s + "\", host.complete(" + e(n->kids[0]) + "));");
            break;
        case Op::Collect:
            line("host.collect();");
            break;
        default:
            line("?");
        }
    }
};

const char* PRELUDE = R"(import std;
import host;
const toks_ = [];
var head_ = 0;
func ignore(x) { return null; }
func cut(s) { return s.slice_first(24).to_string(); }
func outcome(r) { if r.is_error() { return "E:${r.error().message()}"; } return r.value(); }
func park(tag) {
  const t = std.coroutine_token();
  toks_.append(t);
  host.log("park", tag);
  std.yield_coroutine();
  host.log("unparked", tag);
}
func wake(tag) {
  if head_ < toks_.size() {
    const t = toks_[head_];
    head_ += 1;
    host.log("wake", (tag, t.resume()));
  }
}
func wake_at(tag, i) {
  if toks_.size() > 0 {
    const t = toks_[((i % toks_.size()) + toks_.size()) % toks_.size()];
    host.log("wake_at", (tag, t.resume()));
  }
}
export func wake_next(x) { wake("host"); return null; }
)";

} // namespace

void generate(Stream& s, const Config& c, Program& out) {
    Gen g(s, c, out);
    g.program();
    Print p;
    p.out = PRELUDE;
    for (auto& [id, t] : out.globals)
        p.line(strf("%s v%d = ", "var", id) + p.e(out.global_init[id]) + ";");
    for (auto& f : out.functions) {
        p.line(strf("export func f%d(v%d) {", f.id, f.param));
        p.block(f.body);
        p.line("}");
    }
    out.source = p.out;
}

Config random_config(Stream& s) {
    Config c;
    c.functions = 2 + s.pick(3);
    c.stmts = 3 + s.pick(6);
    c.depth = 2 + s.pick(2);
    c.w_log = 1 + s.pick(4);
    c.w_loop = s.pick(4);
    c.w_defer = s.pick(4);
    c.w_catch = s.pick(4);
    c.w_suspend = s.pick(5);
    c.w_container = s.pick(4);
    c.containers = c.w_container > 0;
    c.suspend = c.w_suspend > 0;
    c.launch = s.chance(2, 3);
    c.panics = s.chance(2, 3);
    c.callbacks = s.chance(2, 3);
    c.max_ops = 10 + s.pick(30);
    return c;
}

// ---------------------------------------------------------------- reference interpreter
namespace {

enum class K { Null, Bool, Int, Str, Arr, Tup, Rec, Map, Set, Fn, Token };
struct Obj;
struct Val {
    K k = K::Null;
    i64 i = 0;
    std::shared_ptr<Obj> o;
    std::shared_ptr<std::string> s;
    static Val Int(i64 v) { return {K::Int, v, nullptr, nullptr}; }
    static Val Bool(bool v) { return {K::Bool, v, nullptr, nullptr}; }
    static Val Str(std::string v) { return {K::Str, 0, nullptr, std::make_shared<std::string>(std::move(v))}; }
};
struct Cell {
    Val v;
};
struct Coro;
using Env = std::map<int, std::shared_ptr<Cell>>;
struct Obj {
    std::vector<Val> v;
    std::vector<std::pair<Val, Val>> kv;
    const Node* fn = nullptr;
    int fnref = -1;
    Env env;
    Coro* coro = nullptr;
};
struct Panic {
    std::string msg;
};
enum class Flow { Normal, Break, Continue, Return };

bool eq(const Val& a, const Val& b) {
    if (a.k != b.k)
        return false;
    switch (a.k) {
    case K::Null:
        return true;
    case K::Bool:
    case K::Int:
        return a.i == b.i;
    case K::Str:
        return *a.s == *b.s;
    default:
        return a.o == b.o;
    }
}

struct Coro {
    ucontext_t ctx;
    char* stack = nullptr;
    enum State { New, Ready, Running, Waiting, Done } state = New;
    std::shared_ptr<Obj> token;
    Val fn;
    Val arg;
    int tag = -1;         // started by the host
    std::string stag;     // started by host.launch
    bool resumed_panic = false;
    Val resume_value;
    std::string resume_msg;
    bool failed = false;
    Val result;
    std::string msg;
    Reference::Impl* impl;
};

} // namespace

struct Reference::Impl {
    const Program& p;
    std::vector<std::string>& log;
    Env globals;
    std::vector<std::unique_ptr<Coro>> coros;
    std::deque<Coro*> ready;
    Coro* current = nullptr;
    ucontext_t main_ctx;
    struct Pend {
        Coro* coro;
        i64 value;
    };
    std::deque<Pend> pend;
    std::vector<std::shared_ptr<Obj>> toks;
    size_t head = 0;
    u64 steps = 0;

    Impl(const Program& p, std::vector<std::string>& log)
        : p(p)
        , log(log) {}
    ~Impl() {
        for (auto& c : coros)
            std::free(c->stack);
    }

    void step() {
        if (++steps > 60000)
            discard("program too long");
    }

    struct Fr {
        Env env;
        Val ret;
    };

    std::string render(const Val& v) {
        switch (v.k) {
        case K::Null:
            return "null";
        case K::Bool:
            return v.i ? "true" : "false";
        case K::Int:
            return strf("%lld", (long long) v.i);
        case K::Str:
            return "\"" + *v.s + "\"";
        case K::Arr:
        case K::Tup: {
            std::string r = v.k == K::Arr ? "[" : "(";
            for (size_t i = 0; i < v.o->v.size(); ++i)
                r += (i ? ", " : "") + render(v.o->v[i]);
            return r + (v.k == K::Arr ? "]" : ")");
        }
        case K::Rec:
            return "(\"a\": " + render(v.o->v[0]) + ", \"b\": " + render(v.o->v[1]) + ")";
        default:
            return "?";
        }
    }
    std::string to_s(const Val& v) {
        if (v.k == K::Str)
            return *v.s;
        return render(v);
    }

    Cell& cell(Fr& f, int id) {
        auto it = f.env.find(id);
        if (it != f.env.end())
            return *it->second;
        return *globals.at(id);
    }
    void declare(Fr& f, int id, Val v) {
        auto c = std::make_shared<Cell>();
        c->v = std::move(v);
        f.env[id] = c;
    }

    Val mkobj(K k, std::vector<Val> v) {
        auto o = std::make_shared<Obj>();
        o->v = std::move(v);
        return {k, 0, o, nullptr};
    }

    static std::string cut(const std::string& s) { return s.substr(0, 24); }

    // suspends the running coroutine
    void suspend() {
        Coro* me = current;
        current = nullptr;
        swapcontext(&me->ctx, &main_ctx);
        current = me;
        me->state = Coro::Running;
        me->token = nullptr;
    }

    void make_ready(Coro* c) {
        c->state = Coro::Ready;
        c->token = nullptr;
        ready.push_back(c);
    }

    Val call(const Val& f, const Val& arg) {
        step();
        if (f.o->fnref >= 0)
            return call_fn(f.o->fnref, arg);
        Fr fr;
        fr.env = f.o->env;
        if (f.o->fn->var >= 0)
            declare(fr, f.o->fn->var, arg);
        exec_block(f.o->fn->body, fr);
        return fr.ret;
    }
    Val call_fn(int id, const Val& arg) {
        step();
        auto& f = p.functions[(size_t) id];
        Fr fr;
        declare(fr, f.param, arg);
        exec_block(f.body, fr);
        return fr.ret;
    }

    i64 I(const Node* n, Fr& f) { return eval(n, f).i; }

    Val map_get(const Val& m, const Val& k) {
        for (auto& [a, b] : m.o->kv)
            if (eq(a, k))
                return b;
        return {};
    }
    void map_set(const Val& m, const Val& k, const Val& v) {
        for (auto& [a, b] : m.o->kv)
            if (eq(a, k)) {
                b = v;
                return;
            }
        m.o->kv.push_back({k, v});
    }

    Val eval(const Node* n, Fr& f) {
        step();
        switch (n->op) {
        case Op::IntLit:
            return Val::Int(n->n);
        case Op::StrLit:
            return Val::Str(n->s);
        case Op::BoolLit:
            return Val::Bool(n->n);
        case Op::Var:
            return cell(f, n->var).v;
        case Op::Bin: {
            i64 a = I(n->kids[0], f);
            i64 b = I(n->kids[1], f);
            i64 r = n->n == 0 ? a + b : n->n == 1 ? a - b : a * b;
            return Val::Int(r % 9973);
        }
        case Op::Box:
            return Val::Int(I(n->kids[0], f) % 1000);
        case Op::BigOf:
            return Val::Int(I(n->kids[0], f) % 1000 + BIG);
        case Op::Unbox:
            return Val::Int(I(n->kids[0], f) - BIG);
        case Op::Cmp: {
            i64 a = I(n->kids[0], f);
            i64 b = I(n->kids[1], f);
            bool r[] = {a < b, a > b, a <= b, a >= b, a == b, a != b};
            return Val::Bool(r[n->n]);
        }
        case Op::StrEq: {
            Val a = eval(n->kids[0], f);
            Val b = eval(n->kids[1], f);
            return Val::Bool(eq(a, b));
        }
        case Op::And:
            return Val::Bool(I(n->kids[0], f) && I(n->kids[1], f));
        case Op::Or:
            return Val::Bool(I(n->kids[0], f) || I(n->kids[1], f));
        case Op::Not:
            return Val::Bool(!I(n->kids[0], f));
        case Op::Interp: {
            std::string r = "<";
            for (auto* k : n->kids) {
                Val v = eval(k, f);
                r += (v.k == K::Str ? cut(*v.s) : to_s(v)) + ";";
            }
            return Val::Str(r + ">");
        }
        case Op::SB: {
            Val a = eval(n->kids[0], f);
            Val b = eval(n->kids[1], f);
            return Val::Str(cut(*a.s) + "|" + to_s(b));
        }
        case Op::JumpX:
            if (n->n > 0)
                throw LoopSignal{n->n == 1 ? Flow::Break : Flow::Continue};
            f.ret = eval(n->kids[0], f);
            throw ReturnSignal{};
        case Op::IfX:
            return I(n->kids[0], f) ? eval(n->kids[1], f) : eval(n->kids[2], f);
        case Op::BlockX: {
            // Control flow cannot leave a block expression that is an operand except by panic or return;
            // both are propagated with exceptions below.
            return block_value(n, f);
        }
        case Op::CallF:
            return call_fn(n->fn, eval(n->kids[0], f));
        case Op::CallV: {
            Val fn = eval(n->kids[0], f);
            return call(fn, eval(n->kids[1], f));
        }
        case Op::MkArr:
        case Op::MkTup:
        case Op::MkRec: {
            std::vector<Val> v;
            for (auto* k : n->kids)
                v.push_back(eval(k, f));
            return mkobj(n->op == Op::MkArr ? K::Arr : n->op == Op::MkTup ? K::Tup : K::Rec, std::move(v));
        }
        case Op::MkMap: {
            std::vector<Val> v;
            for (auto* k : n->kids)
                v.push_back(eval(k, f));
            Val m = mkobj(K::Map, {});
            for (size_t i = 0; i < v.size(); i += 2)
                map_set(m, v[i], v[i + 1]);
            return m;
        }
        case Op::MkSet: {
            std::vector<Val> v;
            for (auto* k : n->kids)
                v.push_back(eval(k, f));
            Val m = mkobj(K::Set, {});
            for (auto& x : v)
                map_set(m, x, Val{});
            return m;
        }
        case Op::Lambda: {
            Val v = mkobj(K::Fn, {});
            v.o->fn = n;
            v.o->env = f.env;
            return v;
        }
        case Op::FnRef: {
            Val v = mkobj(K::Fn, {});
            v.o->fnref = n->fn;
            return v;
        }
        case Op::ArrGet: {
            i64 i = I(n->kids[1], f);
            Val a = eval(n->kids[0], f);
            i64 sz = (i64) a.o->v.size();
            if (sz == 0)
                return Val::Int(-1);
            return a.o->v[(size_t) (((i % sz) + sz) % sz)];
        }
        case Op::ArrSize:
            return Val::Int((i64) eval(n->kids[0], f).o->v.size());
        case Op::MapSize:
        case Op::SetSize:
            return Val::Int((i64) eval(n->kids[0], f).o->kv.size());
        case Op::StrSize:
            return Val::Int((i64) eval(n->kids[0], f).s->size());
        case Op::TupGet0:
        case Op::RecA:
            return eval(n->kids[0], f).o->v[0];
        case Op::TupGet1:
        case Op::RecB:
            return eval(n->kids[0], f).o->v[1];
        case Op::MapGet: {
            Val m = eval(n->kids[0], f);
            Val v = map_get(m, eval(n->kids[1], f));
            return v.k == K::Null ? Val::Int(-1) : v;
        }
        case Op::MapHas:
        case Op::SetHas: {
            Val m = eval(n->kids[0], f);
            Val k = eval(n->kids[1], f);
            for (auto& [a, b] : m.o->kv)
                if (eq(a, k))
                    return Val::Bool(true);
            return Val::Bool(false);
        }
        case Op::Sleep: {
            i64 v = I(n->kids[0], f);
            log.push_back(strf("sleep %lld", (long long) v));
            current->state = Coro::Waiting;
            pend.push_back({current, v});
            Coro* me = current;
            suspend();
            if (me->resumed_panic) {
                me->resumed_panic = false;
                throw Panic{me->resume_msg};
            }
            return me->resume_value;
        }
        case Op::Now: {
            i64 v = I(n->kids[0], f);
            return Val::Int(v % 500 + 1);
        }
        case Op::HostCall: {
            Val fn = eval(n->kids[0], f);
            return call(fn, eval(n->kids[1], f));
        }
        case Op::HostTwice: {
            Val fn = eval(n->kids[0], f);
            Val a = eval(n->kids[1], f);
            Val b = eval(n->kids[2], f);
            Val r1 = call(fn, a);
            Val r2 = call(fn, b);
            return Val::Int((r1.i * 3 + r2.i) % 9973);
        }
        case Op::HostEcho:
            return eval(n->kids[0], f);
        default:
            discard("unknown expression");
        }
    }

    struct ReturnSignal {};

    Val block_value(const Node* n, Fr& f) {
        // A `return` inside of an expression leaves the function through all enclosing expressions.
        Val v;
        bool returned = false;
        run_scope(n->body, f, [&](Flow fl) {
            if (fl == Flow::Normal)
                v = eval(n->kids[0], f);
            returned = fl == Flow::Return;
            if (fl == Flow::Break || fl == Flow::Continue)
                throw LoopSignal{fl};
        });
        if (returned)
            throw ReturnSignal{};
        return v;
    }
    struct LoopSignal {
        Flow fl;
    };

    // Executes statements with a defer scope. `tail` is evaluated inside of the scope.
    template<typename Tail>
    Flow run_scope(const std::vector<Node*>& body, Fr& f, Tail&& tail) {
        std::vector<const Node*> defers;
        Flow fl = Flow::Normal;
        int signal = 0; // 1 panic 2 return 3 loop
        Panic panic;
        LoopSignal loop{Flow::Normal};
        try {
            for (auto* st : body) {
                if (st->op == Op::Defer) {
                    step();
                    defers.push_back(st);
                    continue;
                }
                fl = exec(st, f);
                if (fl != Flow::Normal)
                    break;
            }
            tail(fl);
        } catch (Panic& p) {
            signal = 1;
            panic = p;
        } catch (ReturnSignal&) {
            signal = 2;
        } catch (LoopSignal& l) {
            signal = 3;
            loop = l;
        }
        // handlers are left before anything else runs: a coroutine never suspends inside of a catch block
        while (!defers.empty()) {
            const Node* d = defers.back();
            defers.pop_back();
            Val saved = f.ret;
            bool p2 = false;
            Panic second;
            try {
                exec_block(d->body, f);
            } catch (Panic& p) {
                p2 = true;
                second = p;
            }
            f.ret = saved;
            if (p2 && signal != 1) {
                signal = 1;
                panic = second;
            }
        }
        if (signal == 1)
            throw panic;
        if (signal == 2)
            throw ReturnSignal{};
        if (signal == 3)
            throw loop;
        return fl;
    }

    Flow exec_block(const std::vector<Node*>& body, Fr& f) {
        return run_scope(body, f, [](Flow) {});
    }

    Flow exec(const Node* n, Fr& f) {
        bool ret = false;
        Flow sig = Flow::Normal;
        try {
            return exec_inner(n, f);
        } catch (ReturnSignal&) {
            ret = true;
        } catch (LoopSignal& l) {
            sig = l.fl;
        }
        return ret ? Flow::Return : sig;
    }

    Flow exec_inner(const Node* n, Fr& f) {
        step();
        switch (n->op) {
        case Op::VarDecl:
            declare(f, n->var, eval(n->kids[0], f));
            return Flow::Normal;
        case Op::TupDecl: {
            Val t = eval(n->kids[0], f);
            declare(f, n->var, t.o->v[0]);
            declare(f, n->var2, t.o->v[1]);
            return Flow::Normal;
        }
        case Op::Assign: {
            Val v = eval(n->kids[0], f);
            cell(f, n->var).v = v;
            return Flow::Normal;
        }
        case Op::CompAssign: {
            i64 old = cell(f, n->var).v.i;
            i64 v = I(n->kids[0], f) % 100;
            cell(f, n->var).v = Val::Int(n->n ? old - v : old + v);
            return Flow::Normal;
        }
        case Op::ArrAppend: {
            if (eval(n->kids[0], f).o->v.size() < 12) {
                Val a = eval(n->kids[0], f);
                Val v = eval(n->kids[1], f);
                a.o->v.push_back(v);
            }
            return Flow::Normal;
        }
        case Op::ArrSet: {
            i64 i = I(n->kids[1], f);
            Val a = eval(n->kids[0], f);
            i64 sz = (i64) a.o->v.size();
            if (sz != 0) {
                size_t idx = (size_t) (((i % sz) + sz) % sz);
                Val v = eval(n->kids[2], f);
                a.o->v[idx] = v;
            }
            return Flow::Normal;
        }
        case Op::TupSet:
        case Op::RecSet: {
            Val t = eval(n->kids[0], f);
            Val v = eval(n->kids[1], f);
            t.o->v[(size_t) n->n] = v;
            return Flow::Normal;
        }
        case Op::MapSet: {
            Val m = eval(n->kids[0], f);
            Val k = eval(n->kids[1], f);
            Val v = eval(n->kids[2], f);
            map_set(m, k, v);
            return Flow::Normal;
        }
        case Op::MapRemove:
        case Op::SetRemove: {
            Val m = eval(n->kids[0], f);
            Val k = eval(n->kids[1], f);
            for (size_t i = 0; i < m.o->kv.size(); ++i)
                if (eq(m.o->kv[i].first, k)) {
                    m.o->kv.erase(m.o->kv.begin() + (long) i);
                    break;
                }
            return Flow::Normal;
        }
        case Op::SetInsert: {
            if (eval(n->kids[0], f).o->kv.size() < 40) {
                Val m = eval(n->kids[0], f);
                Val k = eval(n->kids[1], f);
                map_set(m, k, Val{});
            }
            return Flow::Normal;
        }
        case Op::Log: {
            Val v = eval(n->kids[0], f);
            log.push_back(n->s + " " + render(v));
            return Flow::Normal;
        }
        case Op::If:
            if (I(n->kids[0], f))
                return exec_block(n->body, f);
            if (!n->body2.empty())
                return exec_block(n->body2, f);
            return Flow::Normal;
        case Op::For: {
            declare(f, n->var, Val::Int(0));
            auto c = f.env[n->var];
            for (; c->v.i < n->n; c->v = Val::Int(c->v.i + 1)) {
                step();
                Flow fl = exec_block(n->body, f);
                if (fl == Flow::Break)
                    break;
                if (fl == Flow::Return)
                    return fl;
            }
            return Flow::Normal;
        }
        case Op::While: {
            declare(f, n->var, Val::Int(0));
            auto c = f.env[n->var];
            while (c->v.i < n->n && I(n->kids[0], f)) {
                step();
                c->v = Val::Int(c->v.i + 1);
                Flow fl = exec_block(n->body, f);
                if (fl == Flow::Break)
                    break;
                if (fl == Flow::Return)
                    return fl;
            }
            return Flow::Normal;
        }
        case Op::ForEach: {
            Val c = eval(n->kids[0], f);
            std::vector<std::pair<Val, Val>> items;
            if (c.k == K::Arr)
                for (auto& x : c.o->v)
                    items.push_back({x, {}});
            else if (c.k == K::Str)
                for (char ch : *c.s)
                    items.push_back({Val::Str(std::string(1, ch)), {}});
            else
                items = c.o->kv;
            for (auto& it : items) {
                step();
                declare(f, n->var, it.first);
                if (n->var2 >= 0)
                    declare(f, n->var2, it.second);
                Flow fl = exec_block(n->body, f);
                if (fl == Flow::Break)
                    break;
                if (fl == Flow::Return)
                    return fl;
            }
            return Flow::Normal;
        }
        case Op::Block:
            return exec_block(n->body, f);
        case Op::Break:
            return Flow::Break;
        case Op::Continue:
            return Flow::Continue;
        case Op::Return:
            f.ret = eval(n->kids[0], f);
            return Flow::Return;
        case Op::Catch: {
            bool failed = false;
            Panic p;
            Val v;
            Val fn = eval(n->kids[0], f);
            try {
                v = call(fn, {});
            } catch (Panic& x) {
                failed = true;
                p = x;
            }
            log.push_back(n->s + " " + (failed ? "\"E:" + p.msg + "\"" : render(v)));
            return Flow::Normal;
        }
        case Op::Panic: {
            Val v = eval(n->kids[0], f);
            throw Panic{*v.s};
        }
        case Op::Assert: {
            if (!I(n->kids[0], f)) {
                Print pr;
                throw Panic{"assertion `" + pr.strip(pr.e(n->kids[0])) + "` failed: " + n->s};
            }
            return Flow::Normal;
        }
        case Op::ArrIdxPanic:
            throw Panic{strf("invalid index %lld into array of size 1", (long long) n->n)};
        case Op::Launch: {
            Val fn = eval(n->kids[0], f);
            Val arg = eval(n->kids[1], f);
            auto* c = make(fn, arg);
            if (n->n)
                c->stag = n->s;
            c->state = Coro::Ready;
            ready.push_back(c);
            return Flow::Normal;
        }
        case Op::Dispatch: {
            make_ready(current);
            suspend();
            return Flow::Normal;
        }
        case Op::Park: {
            auto t = std::make_shared<Obj>();
            t->coro = current;
            current->token = t;
            toks.push_back(t);
            log.push_back("park \"" + n->s + "\"");
            current->state = Coro::Waiting;
            suspend();
            log.push_back("unparked \"" + n->s + "\"");
            return Flow::Normal;
        }
        case Op::Wake:
            wake(n->s);
            return Flow::Normal;
        case Op::WakeAt: {
            i64 i = I(n->kids[0], f);
            if (!toks.empty()) {
                i64 sz = (i64) toks.size();
                bool r = resume(toks[(size_t) (((i % sz) + sz) % sz)]);
                log.push_back("wake_at (\"" + n->s + "\", " + (r ? "true" : "false") + ")");
            }
            return Flow::Normal;
        }
        case Op::ExprStmt:
            eval(n->kids[0], f);
            return Flow::Normal;
        case Op::CompleteNow: {
            i64 i = I(n->kids[0], f);
            i64 r = 0;
            if (!pend.empty()) {
                i64 sz = (i64) pend.size();
                complete_at((size_t) (((i % sz) + sz) % sz), i % 1000, false);
                r = 1;
            }
            log.push_back(n->s + " " + (r ? "true" : "false"));
            return Flow::Normal;
        }
        case Op::Collect:
            return Flow::Normal;
        default:
            discard("unknown statement");
        }
    }

    void wake(const std::string& tag) {
        if (head < toks.size()) {
            auto t = toks[head++];
            bool r = resume(t);
            log.push_back("wake (\"" + tag + "\", " + (r ? "true" : "false") + ")");
        }
    }

    bool resume(const std::shared_ptr<Obj>& t) {
        if (t->coro->token != t || t->coro->state != Coro::Waiting)
            return false;
        make_ready(t->coro);
        return true;
    }

    void complete_at(size_t i, i64 v, bool panic) {
        auto p = pend[i];
        pend.erase(pend.begin() + (long) i);
        p.coro->resumed_panic = panic;
        p.coro->resume_msg = strf("P%lld", (long long) v);
        p.coro->resume_value = Val::Int(v);
        make_ready(p.coro);
    }

    Coro* make(Val fn, Val arg) {
        if (coros.size() > 300)
            discard("too many coroutines");
        coros.push_back(std::make_unique<Coro>());
        Coro* c = coros.back().get();
        c->fn = fn;
        c->arg = arg;
        c->impl = this;
        return c;
    }

    static void entry(unsigned lo, unsigned hi) {
        auto* c = (Coro*) (((uintptr_t) hi << 32) | lo);
        c->impl->run(c);
        swapcontext(&c->ctx, &c->impl->main_ctx);
    }

    void run(Coro* c) {
        try {
            c->result = call(c->fn, c->arg);
        } catch (Panic& p) {
            c->failed = true;
            c->msg = p.msg;
        }
        c->state = Coro::Done;
        current = nullptr;
    }

    void run_ready() {
        while (!ready.empty()) {
            Coro* c = ready.front();
            ready.pop_front();
            if (!c->stack) {
                getcontext(&c->ctx);
                c->stack = (char*) std::malloc(1 << 17);
                c->ctx.uc_stack.ss_sp = c->stack;
                c->ctx.uc_stack.ss_size = 1 << 17;
                c->ctx.uc_link = nullptr;
                auto p = (uintptr_t) c;
                makecontext(&c->ctx, (void (*)()) entry, 2, (unsigned) p, (unsigned) (p >> 32));
            }
            c->state = Coro::Running;
            current = c;
            swapcontext(&main_ctx, &c->ctx);
            current = nullptr;
            if (c->state == Coro::Done) {
                std::free(c->stack);
                c->stack = (char*) nullptr;
                if (c->tag >= 0 || !c->stag.empty()) {
                    std::string t = c->tag >= 0 ? strf("%d", c->tag) : c->stag;
                    log.push_back("done " + t + " " + (c->failed ? "\"E:" + c->msg + "\"" : render(c->result)));
                }
            }
        }
    }
};

Reference::Reference(const Program& p)
    : impl(std::make_unique<Impl>(p, log)) {
    Impl::Fr f;
    for (auto& [id, t] : p.globals) {
        auto c = std::make_shared<Cell>();
        c->v = impl->eval(p.global_init.at(id), f);
        impl->globals[id] = c;
    }
}
Reference::~Reference() {}

void Reference::start(int fn, i64 arg, int tag) {
    Val f;
    f.k = K::Fn;
    f.o = std::make_shared<Obj>();
    if (fn >= 0) {
        f.o->fnref = fn;
    } else {
        // wake_next
        static Node wake_body, ret, lambda_node;
        wake_body.op = Op::Wake;
        wake_body.s = "host";
        lambda_node.op = Op::Lambda;
        lambda_node.body = {&wake_body};
        f.o->fn = &lambda_node;
    }
    auto* c = impl->make(f, Val::Int(arg));
    c->tag = tag;
    c->state = Coro::Ready;
    impl->ready.push_back(c);
}

void Reference::run_ready() { impl->run_ready(); }
bool Reference::has_ready() { return !impl->ready.empty(); }
size_t Reference::pending() { return impl->pend.size(); }
void Reference::complete(size_t i, i64 v, bool panic) { impl->complete_at(i, v, panic); }
size_t Reference::unfinished() {
    size_t n = 0;
    for (auto& c : impl->coros)
        n += c->state != Coro::Done;
    return n;
}

// ---------------------------------------------------------------- real side
static std::string outcome_of(tiro_vm_t vm, tiro_handle_t result) {
    Err e;
    H v(vm);
    if (api::result_is_success(vm, result)) {
        api::result_value(vm, result, v.get(), &e);
        expect_ok(e, "result_value");
        return render(vm, v);
    }
    api::result_error(vm, result, v.get(), &e);
    expect_ok(e, "result_error");
    H m(vm);
    api::exception_message(vm, v.get(), m.get(), &e);
    expect_ok(e, "exception_message");
    std::string s = render(vm, m);
    return "\"E:" + s.substr(1);
}

namespace {
struct DoneCtx {
    Real* real;
    std::string tag;
    int calls = 0;
};
} // namespace

static void done_callback(tiro_vm_t vm, tiro_handle_t coro, void* ud) {
    InHost h;
    auto* d = static_cast<DoneCtx*>(ud);
    SIM_CHECK(++d->calls == 1, "callback-count", "completion callback of %s was invoked %d times", d->tag.c_str(), d->calls);
    ++d->real->callbacks;
    H r(vm);
    Err e;
    api::coroutine_result(vm, coro, r.get(), &e);
    expect_ok(e, "coroutine_result");
    d->real->log.push_back("done " + d->tag + " " + outcome_of(vm, r));
}
static void done_cleanup(void* ud) {
    InHost h;
    auto* d = static_cast<DoneCtx*>(ud);
    ++d->real->cleanups;
    delete d;
}

Real::Real(const Program& p, const VmOptions& o, const std::string& module)
    : vm(o)
    , module(module) {
    setup();
    vm.load_source(module, p.source);
}

std::function<void()> in_native;

Real::Real(tiro_module_t m, const VmOptions& o, const std::string& module)
    : vm(o)
    , module(module) {
    setup();
    vm.load(m);
}

void Real::setup() {
    std::vector<std::pair<std::string, H>> m;
    m.emplace_back("log", make_sync(vm, "log", 2, [this](tiro_vm_t v, tiro_sync_frame_t f) {
        Err e;
        H a(v), b(v);
        api::sync_frame_arg(f, 0, a.get(), &e);
        expect_ok(e, "sync_frame_arg");
        api::sync_frame_arg(f, 1, b.get(), &e);
        expect_ok(e, "sync_frame_arg");
        tiro_string_t s;
        api::string_value(v, a.get(), &s, &e);
        expect_ok(e, "string_value");
        std::string t = str(s);
        log.push_back(t + " " + render(v, b));
        if (in_native)
            in_native();
    }));
    m.emplace_back("sleep", make_async(vm, "sleep", 1, [this](tiro_vm_t v, tiro_async_frame_t f) {
        Err e;
        H a(v);
        api::async_frame_arg(f, 0, a.get(), &e);
        expect_ok(e, "async_frame_arg");
        i64 x = api::integer_value(v, a.get());
        log.push_back(strf("sleep %lld", (long long) x));
        auto t = api::async_frame_token(f, &e);
        expect_ok(e, "async_frame_token");
        api::async_frame_yield(f, &e);
        expect_ok(e, "async_frame_yield");
        pend.push_back({t, x});
        if (in_native)
            in_native();
    }));
    m.emplace_back("now", make_async(vm, "now", 1, [](tiro_vm_t v, tiro_async_frame_t f) {
        Err e;
        H a(v);
        api::async_frame_arg(f, 0, a.get(), &e);
        expect_ok(e, "async_frame_arg");
        i64 x = api::integer_value(v, a.get());
        api::make_integer(v, x % 500 + 1, a.get(), &e);
        expect_ok(e, "make_integer");
        api::async_frame_return_value(f, a.get(), &e);
        expect_ok(e, "async_frame_return_value");
    }));
    m.emplace_back("call", make_resumable(vm, "call", 2, 0, [](tiro_vm_t v, tiro_resumable_frame_t f) {
        Err e;
        H a(v), b(v);
        switch (api::resumable_frame_state(f)) {
        case TIRO_RESUMABLE_STATE_START: {
            H args(v);
            api::resumable_frame_arg(f, 0, a.get(), &e);
            expect_ok(e, "resumable_frame_arg");
            api::resumable_frame_arg(f, 1, b.get(), &e);
            expect_ok(e, "resumable_frame_arg");
            api::make_tuple(v, 1, args.get(), &e);
            expect_ok(e, "make_tuple");
            api::tuple_set(v, args.get(), 0, b.get(), &e);
            expect_ok(e, "tuple_set");
            api::resumable_frame_invoke(f, 1, a.get(), args.get(), &e);
            expect_ok(e, "resumable_frame_invoke");
            break;
        }
        case 1:
            api::resumable_frame_invoke_return(f, a.get(), &e);
            expect_ok(e, "resumable_frame_invoke_return");
            api::resumable_frame_return_value(f, a.get(), &e);
            expect_ok(e, "resumable_frame_return_value");
            break;
        case TIRO_RESUMABLE_STATE_END:
            break;
        default:
            fail("resumable-state", "unexpected state %d", api::resumable_frame_state(f));
        }
    }));
    m.emplace_back("twice", make_resumable(vm, "twice", 3, 2, [](tiro_vm_t v, tiro_resumable_frame_t f) {
        Err e;
        H a(v), b(v), args(v);
        auto invoke = [&](size_t arg, int state) {
            api::resumable_frame_arg(f, 0, a.get(), &e);
            expect_ok(e, "resumable_frame_arg");
            api::resumable_frame_arg(f, arg, b.get(), &e);
            expect_ok(e, "resumable_frame_arg");
            api::make_tuple(v, 1, args.get(), &e);
            expect_ok(e, "make_tuple");
            api::tuple_set(v, args.get(), 0, b.get(), &e);
            expect_ok(e, "tuple_set");
            api::resumable_frame_invoke(f, state, a.get(), args.get(), &e);
            expect_ok(e, "resumable_frame_invoke");
        };
        switch (api::resumable_frame_state(f)) {
        case TIRO_RESUMABLE_STATE_START:
            api::make_integer(v, 4711, a.get(), &e);
            api::resumable_frame_set_local(f, 1, a.get(), &e);
            expect_ok(e, "resumable_frame_set_local");
            invoke(1, 7);
            break;
        case 7:
            api::resumable_frame_invoke_return(f, a.get(), &e);
            expect_ok(e, "resumable_frame_invoke_return");
            api::resumable_frame_set_local(f, 0, a.get(), &e);
            expect_ok(e, "resumable_frame_set_local");
            invoke(2, 8);
            break;
        case 8: {
            api::resumable_frame_invoke_return(f, a.get(), &e);
            expect_ok(e, "resumable_frame_invoke_return");
            i64 r2 = api::integer_value(v, a.get());
            api::resumable_frame_local(f, 0, a.get(), &e);
            expect_ok(e, "resumable_frame_local");
            i64 r1 = api::integer_value(v, a.get());
            api::resumable_frame_local(f, 1, a.get(), &e);
            expect_ok(e, "resumable_frame_local");
            SIM_CHECK(api::integer_value(v, a.get()) == 4711, "resumable-local", "local slot 1 lost its value");
            api::make_integer(v, (r1 * 3 + r2) % 9973, a.get(), &e);
            expect_ok(e, "make_integer");
            api::resumable_frame_return_value(f, a.get(), &e);
            expect_ok(e, "resumable_frame_return_value");
            break;
        }
        case TIRO_RESUMABLE_STATE_END:
            break;
        default:
            fail("resumable-state", "unexpected state %d", api::resumable_frame_state(f));
        }
    }));
    m.emplace_back("echo", make_sync(vm, "echo", 1, [](tiro_vm_t v, tiro_sync_frame_t f) {
        Err e;
        H a(v), b(v);
        api::sync_frame_arg(f, 0, a.get(), &e);
        expect_ok(e, "sync_frame_arg");
        tiro_string_t s;
        api::string_value(v, a.get(), &s, &e);
        expect_ok(e, "string_value");
        std::string copy = str(s);
        api::make_string(v, ts(copy), b.get(), &e);
        expect_ok(e, "make_string");
        api::sync_frame_return_value(f, b.get(), &e);
        expect_ok(e, "sync_frame_return_value");
    }));
    m.emplace_back("complete", make_sync(vm, "complete", 1, [this](tiro_vm_t v, tiro_sync_frame_t f) {
        Err e;
        H a(v);
        api::sync_frame_arg(f, 0, a.get(), &e);
        expect_ok(e, "sync_frame_arg");
        i64 x = api::integer_value(v, a.get());
        bool r = false;
        if (!pend.empty()) {
            i64 sz = (i64) pend.size();
            complete((size_t) (((x % sz) + sz) % sz), x % 1000, false);
            r = true;
        }
        api::make_boolean(v, r, a.get(), &e);
        api::sync_frame_return_value(f, a.get(), &e);
        expect_ok(e, "sync_frame_return_value");
    }));
    m.emplace_back("collect", make_sync(vm, "collect", 0, [this](tiro_vm_t, tiro_sync_frame_t) { gc_now(vm.heap); }));
    m.emplace_back("launch", make_sync(vm, "launch", 3, [this](tiro_vm_t v, tiro_sync_frame_t f) {
        Err e;
        H fn(v), arg(v), tag(v), args(v), coro(v);
        api::sync_frame_arg(f, 0, fn.get(), &e);
        api::sync_frame_arg(f, 1, arg.get(), &e);
        api::sync_frame_arg(f, 2, tag.get(), &e);
        expect_ok(e, "sync_frame_arg");
        tiro_string_t s;
        api::string_value(v, tag.get(), &s, &e);
        std::string t = str(s);
        api::make_tuple(v, 1, args.get(), &e);
        expect_ok(e, "make_tuple");
        api::tuple_set(v, args.get(), 0, arg.get(), &e);
        api::make_coroutine(v, fn.get(), args.get(), coro.get(), &e);
        expect_ok(e, "make_coroutine");
        ++started;
        api::coroutine_set_callback(v, coro.get(), done_callback, done_cleanup, new DoneCtx{this, t}, &e);
        expect_ok(e, "coroutine_set_callback");
        api::coroutine_start(v, coro.get(), &e);
        expect_ok(e, "coroutine_start");
    }));
    make_module(vm, "host", std::move(m));
}

Real::~Real() {
    for (auto& p : pend)
        api::async_token_free(p.token);
}

void Real::start(int fn, i64 arg, int tag) {
    H f = vm.fn(module, fn >= 0 ? strf("f%d", fn) : std::string("wake_next"));
    H args(vm), coro(vm), x(vm);
    Err e;
    api::make_tuple(vm.vm, 1, args.get(), &e);
    expect_ok(e, "make_tuple");
    api::make_integer(vm.vm, arg, x.get(), &e);
    api::tuple_set(vm.vm, args.get(), 0, x.get(), &e);
    expect_ok(e, "tuple_set");
    api::make_coroutine(vm.vm, f.get(), args.get(), coro.get(), &e);
    expect_ok(e, "make_coroutine");
    ++started;
    api::coroutine_set_callback(vm.vm, coro.get(), done_callback, done_cleanup, new DoneCtx{this, strf("%d", tag)}, &e);
    expect_ok(e, "coroutine_set_callback");
    api::coroutine_start(vm.vm, coro.get(), &e);
    expect_ok(e, "coroutine_start");
}

void Real::run_ready() {
    Err e;
    api::vm_run_ready(vm.vm, &e);
    expect_ok(e, "tiro_vm_run_ready");
}

bool Real::has_ready() { return api::vm_has_ready(vm.vm); }
size_t Real::pending() { return pend.size(); }

void Real::complete(size_t i, i64 v, bool panic) {
    auto p = pend[i];
    pend.erase(pend.begin() + (long) i);
    Err e;
    if (panic) {
        std::string m = strf("P%lld", (long long) v);
        api::async_token_panic_msg(p.token, ts(m), &e);
        expect_ok(e, "async_token_panic_msg");
    } else {
        H x(vm);
        api::make_integer(vm.vm, v, x.get(), &e);
        expect_ok(e, "make_integer");
        api::async_token_return_value(p.token, x.get(), &e);
        expect_ok(e, "async_token_return_value");
    }
    api::async_token_free(p.token);
}

// ---------------------------------------------------------------- lockstep
static void compare(const Reference& ref, const Real& real, size_t& seen, const char* cls, const char* when) {
    size_t n = std::max(ref.log.size(), real.log.size());
    for (; seen < n; ++seen) {
        std::string a = seen < real.log.size() ? real.log[seen] : "(nothing)";
        std::string b = seen < ref.log.size() ? ref.log[seen] : "(nothing)";
        trace("  %s", a.c_str());
        if (a != b)
            fail(cls, "after %s: event %zu is `%s`, the reference model says `%s`", when, seen, a.c_str(), b.c_str());
    }
    if (ref.impl->pend.size() != real.pend.size())
        fail(cls, "after %s: %zu pending asynchronous calls, the reference model has %zu", when, real.pend.size(),
            ref.impl->pend.size());
}

Lockstep::Lockstep(const Config& c, const VmOptions& o, const char* cls, const std::string& suffix)
    : c(c)
    , cls(cls)
    , label(suffix.empty() ? "" : "vm" + suffix + ": ")
    , ops(stream(("ops" + suffix).c_str())) {
    generate(stream(("prog" + suffix).c_str()), c, p);
    note_text(p.source);
    ref = std::make_unique<Reference>(p);
    real = std::make_unique<Real>(p, o);
    stat("programs");
}

void Lockstep::turn(const char* when) {
    trace("%s%s", label.c_str(), when);
    ref->run_ready();
    real->run_ready();
    stat("turns");
    compare(*ref, *real, seen, cls, when);
    SIM_CHECK(!real->has_ready(), "no-progress", "coroutines are ready after the main loop returned");
}

void Lockstep::step() {
    Seg seg(ops);
    u32 np = (u32) ref->pending();
    switch (ops.weighted({tags < 12 ? 3u : 0u, np ? 6u : 0u, np ? 2u : 0u, 4, 1, 1})) {
    case 0: {
        int fn = (int) (c.functions - 1 - ops.pick(c.functions));
        i64 arg = (i64) ops.pick(20);
        trace("%sstart f%d(%lld) as %d", label.c_str(), fn, (long long) arg, tags);
        ref->start(fn, arg, tags);
        real->start(fn, arg, tags);
        ++tags;
        stat("coroutines_started");
        break;
    }
    case 1:
    case 2: {
        if (!np)
            break;
        u32 k = ops.pick(np);
        i64 v = (i64) ops.pick(50);
        bool panic = c.panics && ops.chance(1, 6);
        trace("%scomplete pending %u of %u with %s %lld", label.c_str(), k, np, panic ? "panic" : "value", (long long) v);
        fault(k == 0 ? "completion_in_order" : "completion_out_of_order");
        if (panic)
            fault("completion_with_panic");
        ref->complete(k, v, panic);
        real->complete(k, v, panic);
        stat("completions");
        break;
    }
    case 3:
        turn("turn");
        break;
    case 4:
        trace("%scollect", label.c_str());
        gc_now(real->vm.heap);
        fault("forced_collection");
        break;
    case 5:
        trace("%sstart wake as %d", label.c_str(), tags);
        ref->start(-1, 0, tags);
        real->start(-1, 0, tags);
        ++tags;
        break;
    }
}

void Lockstep::drain() {
    // faults have stopped: everything completes within a bounded number of turns
    turn("final turn");
    for (int round = 0; round < 400; ++round) {
        bool any = false;
        while (ref->pending()) {
            ref->complete(0, 1, false);
            real->complete(0, 1, false);
            any = true;
        }
        if (ref->impl->head < ref->impl->toks.size()) {
            ref->start(-1, 0, tags);
            real->start(-1, 0, tags);
            ++tags;
            any = true;
        }
        if (!any)
            break;
        turn("drain");
    }
    if (ref->unfinished() == 0) {
        probe("all_coroutines_finished");
        SIM_CHECK(real->callbacks == real->started, "lost-completion",
            "%llu coroutines were started, %llu completion callbacks ran", (unsigned long long) real->started,
            (unsigned long long) real->callbacks);
    } else {
        probe("stuck_coroutines");
    }
    for (auto& x : real->log) {
        if (x.find("\"E:") != std::string::npos)
            probe("panic_observed");
        if (x.compare(0, 8, "unparked") == 0)
            probe("park_wake");
        if (x.compare(0, 5, "sleep") == 0)
            probe("async_suspension");
    }
}

void Lockstep::destroy() {
    trace("%sdestroy", label.c_str());
    for (auto& x : real->pend)
        api::async_token_free(x.token);
    real->pend.clear();
    u64 started = real->started;
    real->vm.destroy();
    SIM_CHECK(real->cleanups == started, "cleanup-count", "%llu completion callbacks were registered, %llu cleanups ran",
        (unsigned long long) started, (unsigned long long) real->cleanups);
    real.reset();
}

void lockstep(const Config& c, const VmOptions& o, const char* cls) {
    {
        Lockstep l(c, o, cls, "");
        const u32 nops = 2 + l.ops.pick(c.max_ops);
        for (u32 i = 0; i < nops; ++i)
            l.step();
        l.drain();
        l.destroy();
    }
    SIM_CHECK(mem.live_blocks == 0, "leak", "%llu blocks (%llu bytes) are still allocated after the machine was destroyed: %s",
        (unsigned long long) mem.live_blocks, (unsigned long long) mem.live_bytes, arena_leaks(4).c_str());
}

} // namespace sim::prog
