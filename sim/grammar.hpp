// Random programs straight from the grammar, with no regard for their meaning: most are wrong somewhere, all of them
// must be compiled or refused with a message.
#pragma once
#include "core.hpp"
#include "host.hpp"

#include <string>
#include <vector>

namespace sim::grammar {

struct Gen {
    Stream& s;
    u32 wild;  // chance (in 1/256) of something that is probably refused
    int budget;
    struct Name {
        std::string name;
        bool constant;
    };
    std::vector<std::vector<Name>> scopes{{}};
    std::string out;
    int next = 0;
    int loops = 0, funcs = 0;

    Gen(Stream& stream, u32 wildness, int size)
        : s(stream)
        , wild(wildness)
        , budget(size) {}

    bool odd() { return wild && s.chance(wild, 256); }
    void w(std::string_view t) { out += t; }
    std::string fresh() {
        if (odd() && !scopes.back().empty())
            return scopes.back()[s.pick((u32) scopes.back().size())].name; // declared twice
        if (odd())
            return "std";
        if (s.chance(1, 5)) { // shadows
            auto n = any();
            for (auto& d : scopes.back())
                if (d.name == n)
                    return strf("v%d", next++);
            if (!n.empty() && n[0] == 'v')
                return n;
        }
        return strf("v%d", next++);
    }
    std::string any() {
        if (odd())
            return s.chance(1, 2) ? strf("v%d", next + (int) s.pick(3)) : "undefined_name";
        u32 total = 0;
        for (auto& sc : scopes)
            total += (u32) sc.size();
        if (!total)
            return "null";
        u32 i = s.pick(total);
        for (auto& sc : scopes) {
            if (i < sc.size())
                return sc[i].name;
            i -= (u32) sc.size();
        }
        return "null";
    }
    std::string variable() {
        if (odd())
            return any();
        std::vector<std::string> v;
        for (auto& sc : scopes)
            for (auto& n : sc)
                if (!n.constant && n.name != "std")
                    v.push_back(n.name);
        return v.empty() ? "" : v[s.pick((u32) v.size())];
    }
    void declare(const std::string& n, bool constant) { scopes.back().push_back({n, constant}); }

    struct Pending {
        std::vector<std::string> names;
        bool constant;
    };
    // A binding pattern, names are declared by the caller when they come into scope
    std::vector<std::string> pattern() {
        std::vector<std::string> names;
        if (s.chance(1, 4)) {
            u32 n = odd() ? s.pick(2) : 1 + s.pick(3);
            w("(");
            for (u32 i = 0; i < n; ++i) {
                if (i)
                    w(", ");
                names.push_back(fresh());
                w(names.back());
            }
            w(n == 1 && s.chance(1, 2) ? ",)" : ")");
        } else {
            names.push_back(fresh());
            w(names.back());
        }
        return names;
    }
    void var(bool block_allowed = true) {
        bool constant = s.chance(1, 2);
        w(constant ? "const " : "var ");
        u32 n = s.chance(1, 6) ? 2 + s.pick(2) : 1;
        for (u32 i = 0; i < n; ++i) {
            if (i)
                w(", ");
            bool tuple = false;
            size_t at = out.size();
            auto names = pattern();
            tuple = out[at] == '(';
            bool init = (constant || tuple) ? !odd() : s.chance(3, 4);
            if (init) {
                w(" = ");
                if (tuple && s.chance(2, 3)) { // an initializer of known length
                    u32 m = (u32) names.size() + (odd() ? 1 : 0);
                    w("(");
                    for (u32 j = 0; j < m; ++j)
                        value(), w(j + 1 == m && m > 1 ? "" : ", ");
                    w(")");
                } else if (block_allowed)
                    value();
                else
                    primary_no_block();
            }
            for (auto& x : names)
                declare(x, constant);
        }
    }
    // Expressions as values (conditions, operands, initializers)
    void value() { expr(false); }
    void primary_no_block() {
        switch (s.pick(4)) {
        case 0: w(any()); break;
        case 1: w(strf("%u", s.pick(10))); break;
        case 2: w("["), list(), w("]"); break;
        case 3: w(any()), w("("), list(), w(")"); break;
        }
    }
    void list(u32 max = 3) {
        u32 n = s.pick(max + 1);
        for (u32 i = 0; i < n; ++i) {
            if (i)
                w(", ");
            value();
        }
        if (n && odd())
            w(",");
    }
    void literal() {
        static const char* numbers[] = {"0", "1", "2", "3", "7", "1.5", "0.0", "0x1F", "0b101", "0o17", "1_000", "9223372036854775807", "2.0", "64", "63", "1e5", "0x", "12abc"};
        switch (s.pick(8)) {
        case 0: w("null"); break;
        case 1: w(s.chance(1, 2) ? "true" : "false"); break;
        case 2: w(strf("#s%u", s.pick(4))); break;
        case 3: string(); break;
        default: w(numbers[s.pick(std::size(numbers) - (wild ? 0 : 3))]); break;
        }
    }
    void string() {
        bool dq = s.chance(2, 3);
        w(dq ? "\"" : "'");
        u32 n = s.pick(4);
        for (u32 i = 0; i < n; ++i) {
            switch (s.pick(dq ? 7 : 5)) {
            case 0: w("text"); break;
            case 1: w("\\n"); break;
            case 2: w(odd() ? "\\q" : "\\\\"); break;
            case 3: w("\xc3\xa9"); break;
            case 4: w(" "); break;
            case 5: w("$" + any()); break;
            case 6: w("${"), value(), w("}"); break;
            }
        }
        w(dq ? "\"" : "'");
    }
    // The left side of an assignment
    void target() {
        if (odd()) {
            value();
            return;
        }
        auto v = variable();
        switch (s.weighted({6, 2, 2, 2, 2, 1})) {
        case 0: w(v.empty() ? any() + ".f" : v); break;
        case 1: postfix(), w(odd() ? "?.x" : ".x"); break;
        case 2: postfix(), w(strf(odd() ? "?.%u" : ".%u", s.pick(3))); break;
        case 3: postfix(), w(odd() ? "?[" : "["), value(), w("]"); break;
        case 4: {
            u32 n = 1 + s.pick(3);
            w("(");
            for (u32 i = 0; i < n; ++i)
                simple_target(), w(i + 1 == n && n > 1 ? "" : ", ");
            w(")");
            break;
        }
        case 5: postfix(), w(".0.y[0]"); break;
        }
    }
    void simple_target() {
        if (odd()) {
            target();
            return;
        }
        auto v = variable();
        switch (s.pick(3)) {
        case 0: w(v.empty() ? any() + ".g" : v); break;
        case 1: w(any()), w(".z"); break;
        case 2: w(any()), w("["), literal(), w("]"); break;
        }
    }
    void postfix() {
        if (--budget < 0 || s.chance(1, 2)) {
            w(any());
            return;
        }
        switch (s.pick(4)) {
        case 0: w("("), value(), w(")"); break;
        case 1: w(any()), w("("), list(), w(")"); break;
        case 2: w("(a: "), value(), w(", b: "), value(), w(")"); break;
        case 3: w("["), list(), w("]"); break;
        }
    }
    // leading: at the start of a statement
    void expr(bool statement) {
        if (--budget < 0) {
            if (s.chance(1, 2))
                w(any());
            else
                literal();
            return;
        }
        // things without a value are refused where one is needed
        if (odd())
            statement = !statement;
        switch (s.weighted({4, 5, 3, 3, 3, 2, 5, 2, 4, 2, 2, 3, 4, 2, 1, 1, 1})) {
        case 0: literal(); break;
        case 1: w(any()); break;
        case 2: postfix(), w(s.chance(1, 3) ? "?." : "."), w(s.chance(1, 3) ? strf("%u", s.pick(3)) : "field"); break;
        case 3: postfix(), w(s.chance(1, 3) ? "?[" : "["), value(), w("]"); break;
        case 4:
            postfix();
            if (s.chance(1, 3))
                w(s.chance(1, 2) ? "?.m" : ".m");
            w(s.chance(1, 4) ? "?(" : "("), list(), w(")");
            break;
        case 5: {
            static const char* ops[] = {"-", "!", "+", "~"};
            w(ops[s.pick(4)]);
            w("("), value(), w(")");
            break;
        }
        case 6: {
            static const char* ops[] = {"+", "-", "*", "/", "%", "**", "==", "!=", "<", ">", "<=", ">=", "&&", "||", "??", "<<", ">>", "&", "|", "^"};
            bool paren = s.chance(1, 2);
            if (paren)
                w("(");
            if (out.empty() || statement)
                w("("), value(), w(")");
            else
                value();
            w(" "), w(ops[s.pick(std::size(ops))]), w(" ");
            value();
            if (paren)
                w(")");
            break;
        }
        case 7: // a jump as an operand
            jump();
            break;
        case 8: {
            static const char* ops[] = {"=", "=", "=", "=", "+=", "-=", "*=", "/=", "%=", "**="};
            bool paren = !statement;
            if (paren)
                w("(");
            u32 op = s.pick(std::size(ops));
            if (op < 4)
                target();
            else
                simple_target();
            w(" "), w(ops[op]), w(" ");
            value();
            if (paren)
                w(")");
            break;
        }
        case 9: if_(!statement); break;
        case 10: func(false); break;
        case 11: block(!statement); break;
        case 12:
            switch (s.pick(4)) {
            case 0: w("()"); break;
            case 1: w("("), value(), w(",)"); break;
            case 2: w("("), value(), w(", "), value(), w(")"); break;
            case 3: w("["), list(4), w("]"); break;
            }
            break;
        case 13: {
            u32 n = 1 + s.pick(3);
            w("(");
            for (u32 i = 0; i < n; ++i) {
                w(i ? ", " : ""), w(strf("k%u: ", odd() ? 0 : i));
                value();
            }
            w(")");
            break;
        }
        case 14: w(wild && s.chance(1, 2) ? "(:)" : "set{"), w(out.back() == ')' ? "" : "1, 2}"); break;
        case 15: {
            u32 n = s.pick(3);
            w("map{");
            for (u32 i = 0; i < n; ++i)
                w(i ? ", " : ""), value(), w(": "), value();
            w("}");
            break;
        }
        case 16: string(); break;
        }
    }
    void jump() {
        u32 k = s.pick(3);
        if (k == 1 && s.chance(1, 2))
            k = 2;
        if (k < 2 && loops == 0 && !odd())
            k = 2;
        if (k == 2 && funcs == 0 && !odd()) {
            literal();
            return;
        }
        switch (k) {
        case 0: w("break"); break;
        case 1: w("continue"); break;
        case 2:
            w("(return");
            if (s.chance(1, 2))
                w(" "), value();
            w(")");
            break;
        }
    }
    void if_(bool needs_value) {
        w("if ");
        if (s.chance(1, 3))
            w("("), value(), w(") ");
        else
            w(any()), w(" ");
        block(needs_value);
        if (needs_value ? !odd() : s.chance(1, 2)) {
            w(" else ");
            if (budget > 0 && s.chance(1, 4))
                if_(needs_value);
            else
                block(needs_value);
        }
    }
    void block(bool needs_value) {
        w("{ ");
        scopes.emplace_back();
        u32 n = budget > 0 ? s.pick(4) : 0;
        for (u32 i = 0; i < n; ++i)
            stmt();
        if (s.chance(1, needs_value ? 10 : 5) && (funcs || loops))
            jump(), w("; ");
        else if (needs_value && !odd())
            w("("), value(), w("); ");
        scopes.pop_back();
        w("}");
    }
    void loop_body() {
        ++loops;
        block(false);
        --loops;
        w("\n");
    }
    void stmt() {
        budget--;
        switch (s.weighted({1, 6, 2, 2, 2, 2, 2, 8, 3, 1})) {
        case 0:
            w("assert("), value();
            if (s.chance(1, 3))
                w(", "), odd() ? value() : string();
            w(");\n");
            break;
        case 1: var(), w(";\n"); break;
        case 2: { // classic loop
            w("for ");
            scopes.emplace_back();
            if (s.chance(2, 3))
                var();
            w("; ");
            bool in = odd(); // jumps in the header refer to the loop around it
            loops += in;
            if (s.chance(2, 3))
                value();
            w("; ");
            if (s.chance(2, 3))
                simple_target(), w(" = "), primary_no_block(), w(" ");
            loops -= in;
            loop_body();
            scopes.pop_back();
            break;
        }
        case 3: {
            w("for ");
            scopes.emplace_back();
            auto names = pattern();
            w(" in ");
            primary_no_block();
            w(" ");
            for (auto& x : names)
                declare(x, s.chance(1, 2) || !wild);
            loop_body();
            scopes.pop_back();
            break;
        }
        case 4: {
            w("while ");
            bool in = odd();
            loops += in;
            if (s.chance(1, 2))
                w("("), value(), w(") ");
            else
                w(any()), w(" ");
            loops -= in;
            loop_body();
            break;
        }
        case 5: {
            w("defer ");
            bool in = odd();
            int l = loops, f = funcs;
            if (!in) // jumps out of deferred code are refused
                loops = 0, funcs = 0;
            expr(true);
            loops = l, funcs = f;
            w(";\n");
            break;
        }
        case 6: block(false), w("\n"); break;
        case 7: expr(true), w(";\n"); break;
        case 8: if_(false), w("\n"); break;
        case 9:
            if (loops || funcs || odd())
                jump(), w(";\n");
            break;
        }
    }
    void func(bool top) {
        w("func");
        std::string name;
        if (top || s.chance(1, 8)) {
            name = fresh();
            w(" " + name);
        }
        w("(");
        u32 n = s.pick(4);
        scopes.emplace_back();
        if (top)
            declare(name, true);
        for (u32 i = 0; i < n; ++i) {
            auto p = fresh();
            w(i ? ", " : ""), w(p);
            declare(p, false);
        }
        w(")");
        int l = loops;
        if (!odd())
            loops = 0;
        ++funcs;
        if (s.chance(1, 5)) {
            w(" = "), value();
            if (top)
                w(";");
        } else {
            w(" "), block(s.chance(1, 2));
        }
        --funcs;
        loops = l;
        scopes.pop_back();
        if (top)
            declare(name, true), w("\n");
    }
    std::string module() {
        if (!odd())
            w("import std;\n"), declare("std", true);
        u32 n = 1 + s.pick(5);
        for (u32 i = 0; i < n; ++i) {
            Seg seg(s);
            if (s.chance(1, 3))
                w("export ");
            if (odd()) {
                static const char* imports[] = {"import std as s2;", "import other;", "import a.b.c;", "import a.b as std;", "import std;", "import v0;"};
                w(imports[s.pick(6)]), w("\n");
            } else if (s.chance(1, 3))
                var(), w(";\n");
            else
                func(true);
            if (odd())
                stmt();
        }
        return std::move(out);
    }
};

} // namespace sim::grammar
