// D05: any text read as a symbol table is taken or refused as a whole, and answers every question afterwards; paths are rewritten by whole components
#include "symtab.hh"
#include <filesystem>
#include <fstream>
#include <unistd.h>
using namespace st;

static void ask(JSONSymbolTableProvider& db, Rng& r, bool ok) {
    hz::check(db.bad() == !ok, "accepted and bad at once");
    auto order = db.execution_bp_orders();
    if (!ok) hz::check(order.empty() && db.get_filenames().empty() && db.get_instance_names().empty(), "a refused table answers");
    for (auto& f : db.get_filenames()) (void)db.get_breakpoints(f).size();
    for (auto& n : db.get_instance_names()) {
        auto id = db.get_instance_id(n);
        if (!hz::check(id.has_value(), "an instance without id")) return;
        (void)db.get_generator_variable(uint32_t(*id));
        (void)db.resolve_scoped_name_instance("a", *id);
    }
    for (uint32_t id = 0; id < std::min<size_t>(order.size() + 1, 40); id++) {
        (void)db.get_breakpoint(id);
        (void)db.get_context_variables(id);
        (void)db.get_context_delayed_variables(id);
        (void)db.get_context_static_values(id);
        (void)db.resolve_scoped_name_breakpoint("a", id);
        (void)db.get_assigned_breakpoints(r.chance(50) ? "v[1]" : "", id);
        (void)db.get_instance_name_from_bp(id);
    }
    (void)db.get_annotation_values("x");
    (void)db.get_breakpoints("b.scala", 1, 1);
}
static J* anyof(J& j, Rng& r) {
    J* p = &j;
    for (int d = int(r.below(9)); d > 0; d--) {
        if (p->k == J::Arr && !p->a.empty()) p = &p->a[r.below(p->a.size())];
        else if (p->k == J::Obj && !p->o.empty()) p = &p->o[r.below(p->o.size())].second;
        else break;
    }
    return p;
}
// everything in the table is there: places with their conditions and variables, modules' variables, attributes
static void whole(JSONSymbolTableProvider& db, const Table& given) {
    auto t = ordered(given);
    auto insts = instances(t);
    Places p;
    if (!places(db, insts, p)) return;
    for (size_t k = 0; k < p.at.size(); k++) {
        auto& [in, e] = p.at[k];
        auto b = db.get_breakpoint(uint32_t(k));
        if (!b) continue;   // belongs to no file
        hz::check(b->line_num == e.n->line && b->column_num == e.n->col && b->filename == file_of(e), "the place of breakpoint " + std::to_string(k));
        if (e.n->vars.empty()) continue;
        auto& v = e.n->vars[0];
        auto a = db.get_assigned_breakpoints(v.name, uint32_t(k));
        if (e.n->k != Assign || !e.n->idx.empty() || v.name.empty()) continue;
        bool found = false;
        for (auto& [id, value, cond] : a) found |= id == k && value == v.value;
        hz::check(found || tokens(v.name).empty(), "the assignment of breakpoint " + std::to_string(k) + " to " + v.name);
    }
    for (auto& in : insts) {
        auto id = db.get_instance_id(in.name);
        if (!hz::check(id.has_value(), "no instance " + in.name)) return;
        auto g = db.get_generator_variable(uint32_t(*id));
        if (!hz::same("variables of the module", g.size(), in.m->vars.size())) return;
        for (size_t i = 0; i < g.size(); i++) hz::check(g[i].first.name == in.m->vars[i].name && g[i].second.value == in.m->vars[i].value && g[i].second.is_rtl == in.m->vars[i].rtl, "variable of the module");
    }
    for (auto& [n, v] : t.attrs) {
        std::vector<std::string> w;
        for (auto& [x, y] : t.attrs) if (x == n) w.push_back(y);
        hz::check(db.get_annotation_values(n) == w, "attributes " + n);
    }
}
static void text(Rng& r) {
    hz::input("");
    Table t = gtable(r);
    bool cyc = false, unres = false, unref = false;
    J j;
    bool mutated = true;
    switch (r.below(6)) {
        case 0: {   // a module below itself
            auto& m = t.mods[r.below(t.mods.size())];
            m.insts.emplace_back("zz", t.mods[r.below(t.mods.size())].name);
            j = json(t, r);
            break;
        }
        case 1: t.mods[r.below(t.mods.size())].insts.emplace_back("zz", "nowhere"); j = json(t, r); break;
        case 2: { auto m = t.mods[r.below(t.mods.size())]; if (r.chance(50)) m.scope.clear(); t.mods.insert(t.mods.begin() + r.below(t.mods.size() + 1), m); j = json(t, r); break; }
        case 3: {   // a member dropped or replaced
            j = json(t, r);
            for (int i = int(r.range(1, 2)); i > 0; i--) {
                J* p = anyof(j, r);
                if (p->k == J::Obj && !p->o.empty() && r.chance(60)) p->o.erase(p->o.begin() + r.below(p->o.size()));
                else *p = jany(r);
            }
            break;
        }
        case 4: { // a number out of range, a reference to nothing
            j = json(t, r);
            for (int i = 0; i < 30; i++) {
                J* p = anyof(j, r);
                if (p->k == J::Int) { *p = jnum(r); break; }
                if (p->k == J::Obj && p->get("variable")) { for (auto& [n, v] : p->o) if (n == "variable") v = J::of("no such"); break; }
                if (p->k == J::Obj && p->get("var")) { for (auto& [n, v] : p->o) if (n == "var") v = J::of("no such"); break; }
            }
            break;
        }
        default: j = json(t, r); mutated = false;
    }
    (void)cyc; (void)unres; (void)unref;
    auto s = jtext(j, &r);
    if (mutated && r.chance(20) && !s.empty()) { if (r.chance(50)) s.resize(r.below(s.size())); else s[r.below(s.size())] = char(r.range(32, 126)); }
    hz::more(s);
    JSONSymbolTableProvider db;
    bool ok = db.parse(s);
    if (!mutated) hz::check(ok, "a well-formed table is refused");
    ask(db, r, ok);
    if (!mutated && ok) whole(db, t);
    if (r.chance(25)) {   // the same text from a file
        char n[] = "/tmp/d05_XXXXXX";
        int fd = mkstemp(n);
        if (fd >= 0) {
            if (write(fd, s.data(), s.size()) < 0) {}
            close(fd);
            JSONSymbolTableProvider f{std::string(n)};
            unlink(n);
            hz::check(f.bad() == !ok, "text and file are judged differently");
            ask(f, r, ok);
            if (ok) {
                hz::check(f.execution_bp_orders() == db.execution_bp_orders() && f.get_instance_names() == db.get_instance_names() && f.get_filenames() == db.get_filenames(), "text and file are read differently");
                auto o = f.execution_bp_orders();
                auto names = f.get_instance_names();
                JSONSymbolTableProvider g(std::make_unique<JSONSymbolTableProvider>(std::move(f)));
                hz::check(g.execution_bp_orders() == o && g.get_instance_names() == names, "a table that changed hands answers differently");
                for (auto& [an, av] : t.attrs) hz::check(g.get_annotation_values(an) == db.get_annotation_values(an), "a table that changed hands loses annotations");
            }
        }
    }
}
// paths
static std::vector<std::string> parts(const std::string& s) { return tokens(s, "/"); }
static std::string joined(const std::vector<std::string>& v) { std::string s; for (auto& x : v) s += "/" + x; return s; }
static void paths(Rng& r) {
    JSONSymbolTableProvider db;
    std::map<std::string, std::string> m;
    static const std::vector<std::string> w = {"a", "b", "ab", "c.py", "a.py", "src"};
    auto path = [&](int lo, int hi) { std::vector<std::string> v; for (int i = int(r.range(lo, hi)); i > 0; i--) v.push_back(r.pick(w)); return joined(v); };
    hz::input("");
    for (int i = int(r.below(3)); i > 0; i--) { auto a = path(1, 3), b = path(1, 3); if (r.chance(15)) a += "/"; if (r.chance(15)) b += "/"; m[a] = b; }
    for (auto& [a, b] : m) hz::more(a + "->" + b + " ");
    db.set_src_mapping(m);
    auto under = [&](const std::string& f, const std::string& d) { auto x = parts(f), y = parts(d); return x.size() >= y.size() && std::equal(y.begin(), y.end(), x.begin()); };
    auto one = [&](bool to_db, const std::string& f, const std::string& got) {
        std::set<std::string> want;
        std::set<std::string> first;
        for (auto& [a, b] : m) {
            auto &from = to_db ? a : b, &to = to_db ? b : a;
            if (!under(f, from)) continue;
            if (from.back() == '/' && f + "/" == from) { want.insert(f); }   // the directory itself
            auto x = parts(f), y = parts(from);
            want.insert((to.back() == '/' ? to.substr(0, to.size() - 1) : to) + joined(std::vector<std::string>(x.begin() + long(y.size()), x.end())));
        }
        if (want.empty()) hz::check(got == f, std::string(to_db ? "to" : "from") + " the table: " + f + " becomes " + got);
        else {
            auto g = got;
            if (g.size() > 2 && g.substr(g.size() - 2) == "/.") g.resize(g.size() - 2);
            hz::check(want.count(g), std::string(to_db ? "to" : "from") + " the table: " + f + " becomes " + got);
        }
    };
    for (int k = 0; k < 6; k++) {
        auto f = path(1, 5);
        if (!m.empty() && r.chance(60)) { auto it = m.begin(); std::advance(it, r.below(m.size())); f = r.chance(50) ? it->first : it->second; if (f.back() == '/') f.pop_back(); f += (r.chance(20) ? r.pick(w) : "") + path(0, 2); }
        hz::more(f + " ");
        one(true, f, db.resolve_filename_to_db(f));
        one(false, f, db.resolve_filename_to_client(f));
        if (m.size() == 1 && under(f, m.begin()->first)) { auto a = db.resolve_filename_to_db(f); auto b = db.resolve_filename_to_client(a); hz::check(parts(b) == parts(f) || parts(f).size() == parts(m.begin()->first).size() || b == f + "/.", "a path does not survive the way there and back: " + b); }
    }
}
int main(int c, char** v) { return hz::main_(c, v, {{"text", text, 3}, {"paths", paths, 1}}); }
