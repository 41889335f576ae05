// generated symbol tables: the description, its JSON text, and what the format says about it
#ifndef SYMTAB_HH
#define SYMTAB_HH
#include <algorithm>
#include <functional>
#include <map>
#include <optional>
#include <set>
#include "db.hh"
#include "eval.hh"
#include "json.hh"
namespace st {
using hz::Rng;
using namespace hgdb;
struct Var { std::string name, value; bool rtl = true, delay = false; unsigned depth = 1; std::string ref; };
struct Index { Var var; unsigned lo = 0, hi = 0; };
enum Kind { None, Decl, Block, Assign, Mod };
struct Node {
    Kind k = None;
    unsigned line = 0, col = 0;
    std::string cond, file;
    std::vector<Var> vars;
    std::vector<Index> idx;
    std::vector<Node> scope;
};
struct Module { std::string name, cond; std::vector<Var> vars; std::vector<Node> scope; std::vector<std::pair<std::string, std::string>> insts; };
struct Table {
    std::vector<Module> mods;
    std::vector<std::string> tops;
    std::vector<Var> shared;
    std::vector<std::pair<std::string, std::string>> attrs;
    std::optional<bool> reorder;
    const Module* mod(const std::string& n) const { for (auto& m : mods) if (m.name == n) return &m; return nullptr; }
};
// one place in a module where execution can stop: the chain of nodes from the module down to it
struct Entry { const Node* n; std::vector<std::pair<const std::vector<Node>*, size_t>> path; };
struct Inst { std::string name; const Module* m; size_t root; };

inline J jvar(const Var& v, Rng& r, bool decl = false) {
    if (!decl && !v.ref.empty()) return J::of(v.ref);
    J j = J::obj();
    if (decl) j.add("id", J::of(v.ref));
    j.add("name", J::of(v.name)).add("value", J::of(v.value)).add("rtl", J::of(v.rtl));
    if (v.delay) { j.add("type", J::of("delay")); if (v.depth != 1 || r.chance(30)) j.add("depth", J::u(v.depth)); }
    else if (r.chance(20)) j.add("type", J::of("normal"));
    return j;
}
inline J jnode(const Node& n, Rng& r) {
    static const char* T[] = {"none", "decl", "block", "assign"};
    J j = J::obj();
    j.add("type", J::of(T[n.k]));
    if (n.line || n.k == Decl || n.k == Assign) j.add("line", J::u(n.line));
    if (n.col) j.add("column", J::u(n.col));
    if (!n.cond.empty() || r.chance(5)) j.add("condition", J::of(n.cond));
    if (n.k == Block) {
        if (!n.file.empty() || r.chance(5)) j.add("filename", J::of(n.file));
        J a = J::arr();
        for (auto& c : n.scope) a.a.push_back(jnode(c, r));
        j.add("scope", a);
    } else if (n.k != None) {
        j.add("variable", jvar(n.vars[0], r));
        if (!n.idx.empty()) {
            J a = J::arr();
            for (auto& i : n.idx) a.a.push_back(J::obj().add("var", jvar(i.var, r)).add("min", J::u(i.lo)).add("max", J::u(i.hi)));
            j.add("indices", a);
        }
    }
    return j;
}
inline J json(const Table& t, Rng& r) {
    J j = J::obj(), a = J::arr();
    for (auto& m : t.mods) {
        J o = J::obj(), v = J::arr(), s = J::arr(), in = J::arr();
        for (auto& x : m.vars) v.a.push_back(jvar(x, r));
        for (auto& x : m.scope) s.a.push_back(jnode(x, r).add("filename", J::of(x.file)));
        for (auto& x : s.a) { std::set<std::string> seen; std::vector<std::pair<std::string, J>> o2; for (auto& p : x.o) if (seen.insert(p.first).second) o2.push_back(p); x.o = o2; }
        for (auto& [n, d] : m.insts) in.a.push_back(J::obj().add("name", J::of(n)).add("module", J::of(d)));
        o.add("type", J::of("module")).add("name", J::of(m.name)).add("scope", s).add("variables", v);
        if (!m.insts.empty() || r.chance(50)) o.add("instances", in);
        if (!m.cond.empty()) o.add("condition", J::of(m.cond));
        a.a.push_back(o);
    }
    j.add("table", a);
    if (t.tops.size() == 1 && r.chance(70)) j.add("top", J::of(t.tops[0]));
    else { J x = J::arr(); for (auto& n : t.tops) x.a.push_back(J::of(n)); j.add("top", x); }
    if (!t.shared.empty()) { J x = J::arr(); for (auto& v : t.shared) x.a.push_back(jvar(v, r, true)); j.add("variables", x); }
    if (!t.attrs.empty()) { J x = J::arr(); for (auto& [n, v] : t.attrs) x.a.push_back(J::obj().add("name", J::of(n)).add("value", J::of(v))); j.add("attributes", x); }
    if (t.reorder) j.add("reorder", J::of(*t.reorder));
    if (r.chance(30)) j.add("generator", J::of("g"));
    if (r.chance(50)) std::reverse(j.o.begin(), j.o.end());
    return j;
}
inline const std::vector<std::string>& conds() {
    static const std::vector<std::string> c = {"a", "!b", "a == 1", "a || b", "a && b", "b | c", "(a || b)", "c > 2 || a", "a==1 && (b || c)", "c || !a && b", "a == b||c", "(a) || (b)"};
    return c;
}
inline Var gvar(Rng& r, const Table& t) {
    static const std::vector<std::string> n = {"a", "b", "s.x", "s.y", "v[0]", "v.1", "v", "m[1][2]", "q{0}"}, rv = {"a_0", "b_0", "r.s", "top.sig", "m0", "m0.x", "m0x.y", "w[1]", "u2.z", "a_0 + b_0", "{a,b}", "m1_x", "a", "v", "s.y"},
        cv = {"0", "1", "42", "18446744073709551616", "9223372036854775807", "9223372036854775808", "", "str", "-3", "4x"};
    if (!t.shared.empty() && r.chance(20)) { return r.pick(t.shared); }
    Var v;
    v.name = r.pick(n);
    v.rtl = r.chance(65);
    v.value = v.rtl ? r.pick(rv) : r.pick(cv);
    v.delay = r.chance(20);
    if (v.delay && r.chance(60)) v.depth = unsigned(r.range(1, 5));
    return v;
}
inline Node gnode(Rng& r, const Table& t, int depth, bool file) {
    static const std::vector<std::string> files = {"/a/b.py", "/a/c.py", "b.scala", "c.scala", "/x/b.scala", "src/d.scala"};
    Node n;
    n.k = file ? Block : depth > 0 ? Kind(r.below(4)) : r.pick(std::vector<Kind>{None, Decl, Assign, Assign});
    if (!r.chance(n.k == Block ? 60 : 12)) n.line = unsigned(r.range(1, r.chance(80) ? 4 : 50));
    if (r.chance(50)) n.col = unsigned(r.range(1, 3));
    if (r.chance(25)) n.cond = r.pick(conds());
    if (n.k == Block) {
        if (file ? !r.chance(5) : r.chance(15)) n.file = r.pick(files);
        bool many = file && r.chance(6);    // more statements than any small-size special case
        for (int i = many ? int(r.range(17, 40)) : int(r.below(file ? 7 : 4)); i > 0; i--) {
            n.scope.push_back(gnode(r, t, many ? 0 : depth - 1, false));
            if (many) { auto& c = n.scope.back(); c.line = unsigned(r.range(1, 2)); c.col = unsigned(r.below(2)); if (r.chance(60)) c.cond = r.pick(conds()); }
        }
        // entries at one place
        if (n.scope.size() > 1 && r.chance(40)) { auto& a = n.scope[r.below(n.scope.size())]; auto& b = n.scope[r.below(n.scope.size())]; a.line = b.line; a.col = b.col; a.cond = b.cond; }
    } else if (n.k != None) {
        n.vars.push_back(gvar(r, t));
        if (n.k == Assign && r.chance(20))
            for (int i = int(r.range(1, 2)); i > 0; i--) { Index x; x.var = gvar(r, t); x.lo = unsigned(r.below(4)); x.hi = x.lo + unsigned(r.below(4)); n.idx.push_back(x); }
    }
    return n;
}
inline Table gtable(Rng& r) {
    Table t;
    int nm = int(r.range(1, 4));
    for (int i = int(r.below(3)); i > 0; i--) { Var v = gvar(r, Table()); v.ref = "id" + std::to_string(i); t.shared.push_back(v); }
    for (int i = 0; i < nm; i++) {
        Module m;
        m.name = "m" + std::to_string(i);
        if (r.chance(10)) m.cond = r.pick(conds());
        for (int k = int(r.below(4)); k > 0; k--) m.vars.push_back(gvar(r, t));
        for (int k = int(r.below(3)); k > 0; k--) m.scope.push_back(gnode(r, t, 3, true));
        std::set<std::string> used;
        if (i + 1 < nm)
            for (int k = int(r.below(3)); k > 0; k--) { std::string n = "u" + std::to_string(r.below(4)); if (used.insert(n).second) m.insts.emplace_back(n, "m" + std::to_string(r.range(i + 1, nm - 1))); }
        t.mods.push_back(m);
    }
    t.tops.push_back("m0");
    if (nm > 1 && r.chance(25)) t.tops.push_back("m" + std::to_string(nm - 1));
    if (r.chance(50)) for (int i = nm - 1; i > 0; i--) std::swap(t.mods[i], t.mods[r.below(i + 1)]);
    static const std::vector<std::string> an = {"clock", "reset", "x", ""};
    for (int i = int(r.below(4)); i > 0; i--) t.attrs.emplace_back(r.pick(an), word(r));
    if (r.chance(40)) t.reorder = r.chance(50);
    return t;
}
// the order in which the format executes a scope
inline void reorder(Node& n) {
    if (n.k != Block) return;
    for (auto& c : n.scope) reorder(c);
    std::stable_sort(n.scope.begin(), n.scope.end(), [](auto& a, auto& b) { return std::tuple(a.line, a.col, int(a.k)) < std::tuple(b.line, b.col, int(b.k)); });
    if (!n.scope.empty()) n.line = n.scope[0].line;
    std::vector<Node> out;
    for (auto& c : n.scope) {
        if (!out.empty() && (c.k == Decl || c.k == Assign)) {
            auto& p = out.back();
            if (p.k == c.k && p.line == c.line && p.col == c.col && p.cond == c.cond && p.idx.empty() && c.idx.empty()) { p.vars.insert(p.vars.end(), c.vars.begin(), c.vars.end()); continue; }
        }
        out.push_back(c);
    }
    n.scope = out;
}
inline Table ordered(Table t) {
    if (!t.reorder || *t.reorder) for (auto& m : t.mods) for (auto& n : m.scope) reorder(n);
    return t;
}
inline std::vector<Entry> entries(const Module& m) {
    std::vector<Entry> out;
    std::vector<std::pair<const std::vector<Node>*, size_t>> path;
    std::function<void(const std::vector<Node>&)> go = [&](const std::vector<Node>& s) {
        for (size_t i = 0; i < s.size(); i++) {
            path.emplace_back(&s, i);
            if (s[i].k == Block) go(s[i].scope);
            else if (s[i].line > 0) out.push_back({&s[i], path});
            path.pop_back();
        }
    };
    go(m.scope);
    return out;
}
inline std::vector<Inst> instances(const Table& t) {
    std::vector<Inst> out;
    size_t root = 0;
    std::function<void(const std::string&, const Module*)> go = [&](const std::string& n, const Module* m) {
        out.push_back({n, m, root});
        for (auto& [x, d] : m->insts) go(n + "." + x, t.mod(d));
    };
    for (auto& m : t.mods)
        if (std::find(t.tops.begin(), t.tops.end(), m.name) != t.tops.end()) { go(m.name, &m); root++; }
    return out;
}
inline std::string file_of(const Entry& e) {
    for (size_t i = e.path.size(); i-- > 0;) { auto& n = (*e.path[i].first)[e.path[i].second]; if (n.k == Block && !n.file.empty()) return n.file; }
    return "";
}
inline std::vector<std::string> conds_of(const Module& m, const Entry& e) {
    std::vector<std::string> c;
    if (!m.cond.empty()) c.push_back(m.cond);
    for (auto& [s, i] : e.path) if (!(*s)[i].cond.empty()) c.push_back((*s)[i].cond);
    return c;
}
// whether text means that all parts hold
inline bool conj(const std::string& text, const std::vector<std::string>& parts, const std::vector<std::string>& names = {"a", "b", "c"}) {
    if (parts.empty()) return text.empty();
    if (parts.size() == 1) return text == parts[0];
    auto value = [&](const std::string& s, const std::map<std::string, int64_t>& env) -> std::optional<int64_t> {
        DebugExpression e(s);
        if (!e.correct()) return std::nullopt;
        e.clear();
        for (auto& [n, v] : env) if (e.symbols().count(n)) e.set_value(n, v);
        return e.eval();
    };
    static const int64_t vs[] = {0, 1, 3};
    size_t total = 1;
    for (size_t i = 0; i < names.size(); i++) total *= 3;
    for (size_t k = 0; k < total; k++) {
        std::map<std::string, int64_t> env;
        size_t x = k;
        for (auto& n : names) { env[n] = vs[x % 3]; x /= 3; }
        bool want = true;
        for (auto& p : parts) { auto v = value(p, env); if (!v) return true; want = want && *v; }
        auto got = value(text, env);
        if (!got || bool(*got) != want) return false;
    }
    return true;
}
inline std::string basename(const std::string& f) { auto p = f.rfind('/'); return p == std::string::npos ? f : f.substr(p + 1); }
inline bool same_file(const std::string& query, const std::string& ref) {
    if (ref.empty()) return false;
    return query == ref || (ref[0] != '/' && basename(query) == ref);
}
inline std::vector<std::string> tokens(const std::string& s, const std::string& d = "[].") {
    std::vector<std::string> t;
    bool in = false;
    for (char c : s) {
        if (d.find(c) != std::string::npos) { in = false; continue; }
        if (!in) { t.emplace_back(); in = true; }
        t.back() += c;
    }
    return t;
}
// reads the text; false when the code rejects it
inline bool load(JSONSymbolTableProvider& db, const Table& t, Rng& r) {
    auto text = jtext(json(t, r));
    hz::more(text);
    return hz::check(db.parse(text), "the symbol table is rejected");
}
// breakpoint id -> instance and place, established from the ids alone
struct Places { std::vector<std::pair<Inst, Entry>> at; };
inline bool places(JSONSymbolTableProvider& db, const std::vector<Inst>& insts, Places& p) {
    auto order = db.execution_bp_orders();
    size_t total = 0;
    for (auto& i : insts) total += entries(*i.m).size();
    if (!hz::same("number of breakpoints", order.size(), total)) return false;
    std::map<std::string, size_t> seen;
    for (size_t k = 0; k < order.size(); k++) {
        if (!hz::check(order[k] == k, "breakpoint ids are not 0, 1, 2, ... in execution order")) return false;
        auto id = db.get_instance_id(uint64_t(k));
        if (!hz::check(id.has_value(), "a breakpoint has no instance")) return false;
        auto name = db.get_instance_name(uint32_t(*id));
        if (!hz::check(name.has_value(), "an instance has no name")) return false;
        const Inst* in = nullptr;
        for (auto& i : insts) if (i.name == *name) in = &i;
        if (!hz::check(in, "unknown instance " + *name)) return false;
        auto es = entries(*in->m);
        auto n = seen[*name]++;
        if (!hz::check(n < es.size(), "too many breakpoints in " + *name)) return false;
        if (n && !hz::check(p.at.back().first.name == *name, "breakpoints of one instance are not consecutive")) return false;
        if (!p.at.empty() && !hz::check(p.at.back().first.root <= in->root, "designs interleave")) return false;
        p.at.emplace_back(*in, es[n]);
    }
    return true;
}
}  // namespace st
#endif
