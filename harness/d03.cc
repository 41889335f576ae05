// D03: the variables visible at a breakpoint, and what a name there means
#include "symtab.hh"
using namespace st;

struct Seen { Var v; };
static bool sym(const std::string& s, std::optional<int64_t>& out, const std::map<std::string, int64_t>& env) { auto it = env.find(s); if (it == env.end()) out.reset(); else out = it->second; return bool(out); }
static std::string place(const std::string& inst, const Var& v) {
    if (!v.rtl) return v.value;
    return v.value == inst || v.value.rfind(inst + ".", 0) == 0 || v.value.rfind(inst + "[", 0) == 0 ? v.value : inst + "." + v.value;
}
static std::optional<std::string> resolve(const std::vector<Var>& vs, const std::string& inst, const std::string& n, bool newest) {
    std::optional<std::string> out;
    for (auto& v : vs)
        if (tokens(v.name) == tokens(n) || v.value == n) { out = place(inst, v); if (!newest) break; }
    return out;
}
// outermost first, in the order of declaration
static std::vector<Var> visible(const Inst& in, const Entry& e, bool delayed, const std::map<std::string, int64_t>* env) {
    std::vector<Var> out;
    for (auto& [s, at] : e.path)
        for (size_t i = 0; i < at; i++) {
            auto& n = (*s)[i];
            if (n.k != Decl && n.k != Assign) continue;
            if (n.idx.empty()) { for (auto& v : n.vars) if (!delayed || v.delay) out.push_back(v); continue; }
            if (delayed) {
                bool d = n.vars[0].delay;
                for (auto& x : n.idx) d = d || (x.var.rtl && x.var.delay);
                if (d) out.push_back(n.vars[0]);
                continue;
            }
            for (auto& x : n.idx) {
                if (!x.var.rtl || !env) continue;
                auto name = resolve(in.m->vars, in.name, x.var.value, false);
                std::optional<int64_t> val;
                if (!name || !sym(*name, val, *env)) continue;
                Var v;
                v.name = n.vars[0].name + "." + std::to_string(*val);
                v.value = n.vars[0].value + "[" + std::to_string(*val) + "]";
                v.delay = x.var.delay;
                out.push_back(v);
            }
        }
    return out;
}
static bool same_vars(const char* what, const std::vector<SymbolTableProvider::ContextVariableInfo>& got, const std::vector<Var>& want) {
    if (!hz::same(what, got.size(), want.size())) return false;
    for (size_t i = 0; i < got.size(); i++) {
        auto& [c, v] = got[i];
        auto& w = want[i];
        if (!hz::check(c.name == w.name && v.value == w.value && v.is_rtl == w.rtl && c.type == uint32_t(w.delay) && c.depth == w.depth, std::string(what) + ": variable " + std::to_string(i) + " is " + c.name + "=" + v.value + ", not " + w.name + "=" + w.value)) return false;
    }
    return true;
}
static bool isnum(const std::string& s, int64_t& v) {
    if (s.empty()) return false;
    unsigned __int128 x = 0;
    for (char c : s) { if (c < '0' || c > '9') return false; x = x * 10 + unsigned(c - '0'); if (x > INT64_MAX) return false; }
    v = int64_t(x);
    return true;
}
static void names(Rng& r) {
    hz::input("");
    Table t = gtable(r), o = ordered(t);
    JSONSymbolTableProvider db;
    if (!load(db, t, r)) return;
    Places p;
    auto insts = instances(o);
    if (!places(db, insts, p)) return;
    std::map<std::string, int64_t> env;
    bool live = r.chance(70);
    if (live) {
        for (auto& i : insts) for (auto& v : i.m->vars) if (r.chance(80)) env[place(i.name, v)] = r.range(-1, 6);
        db.set_get_symbol_value([&](const std::string& n) { std::optional<int64_t> x; sym(n, x, env); return x; });
    }
    static const std::vector<std::string> q = {"a", "b", "s.x", "s[x]", "s.y", "v[0]", "v.0", "v.1", "v", "m[1][2]", "m.1.2", "q{0}", "a_0", "r.s", "zz", "", "1", "m0x.y", "v.3"};
    for (uint32_t id = 0; id < p.at.size(); id++) {
        auto& [in, e] = p.at[id];
        bool known = !file_of(e).empty();
        auto want = known ? visible(in, e, false, live ? &env : nullptr) : std::vector<Var>();
        if (!same_vars("variables in scope", db.get_context_variables(id), want)) return;
        if (!same_vars("delayed variables in scope", db.get_context_delayed_variables(id), known ? visible(in, e, true, nullptr) : std::vector<Var>())) return;
        for (int k = 0; k < 4; k++) {
            auto n = r.pick(q);
            if (!want.empty() && r.chance(40)) { auto& v = r.pick(want); n = r.chance(50) ? v.name : v.value; }
            auto got = db.resolve_scoped_name_breakpoint(n, id), w = known ? resolve(want, in.name, n, true) : std::nullopt;
            if (!hz::check(got == w, "name " + n + " at breakpoint " + std::to_string(id) + " means " + (got ? *got : "nothing") + ", not " + (w ? *w : "nothing"))) return;
        }
        std::unordered_map<std::string, int64_t> st, gs = db.get_context_static_values(id);
        std::map<std::string, const Var*> last;
        for (auto& v : want) last[v.name] = &v;
        for (auto& [n, v] : last) { int64_t x; if (!v->rtl && isnum(v->value, x)) st[n] = x; }
        if (!hz::check(st == gs, "static values at breakpoint " + std::to_string(id))) return;
    }
    for (auto& in : insts) {
        auto id = db.get_instance_id(in.name);
        if (!id) continue;
        auto g = db.get_generator_variable(uint32_t(*id));
        if (!hz::same("generator variables", g.size(), in.m->vars.size())) return;
        for (size_t i = 0; i < g.size(); i++) hz::check(g[i].first.name == in.m->vars[i].name && g[i].second.value == in.m->vars[i].value && g[i].second.is_rtl == in.m->vars[i].rtl, "generator variable");
        for (int k = 0; k < 3; k++) {
            auto n = r.pick(q);
            if (!in.m->vars.empty() && r.chance(40)) { auto& v = r.pick(in.m->vars); n = r.chance(50) ? v.name : v.value; }
            auto got = db.resolve_scoped_name_instance(n, *id), w = resolve(in.m->vars, in.name, n, false);
            if (!hz::check(got == w, "name " + n + " in " + in.name + " means " + (got ? *got : "nothing") + ", not " + (w ? *w : "nothing"))) return;
        }
    }
    uint32_t no = uint32_t(p.at.size()) + 5;
    hz::check(db.get_context_variables(no).empty() && db.get_context_delayed_variables(no).empty() && db.get_context_static_values(no).empty() && !db.resolve_scoped_name_breakpoint("a", no) && db.get_generator_variable(1000000).empty() && !db.resolve_scoped_name_instance("a", 1000000), "something known about a place that does not exist");
    hz::check(!db.resolve_scoped_name_breakpoint("a", 1ull << 32) && !db.resolve_scoped_name_instance("a", 1ull << 32), "something known about an id that nothing can have");
}
int main(int c, char** v) { return hz::main_(c, v, {{"names", names, 1}}); }
