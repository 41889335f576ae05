// D02: every way of asking for a breakpoint, an instance or a file gives the same answer as the table
#include "symtab.hh"
using namespace st;

static bool is(const BreakPoint& b, uint32_t id, const Inst& in, const Entry& e, JSONSymbolTableProvider& db) {
    bool ok = hz::same("id", uint64_t(b.id), uint64_t(id));
    ok = hz::same("line", uint64_t(b.line_num), uint64_t(e.n->line)) && ok;
    ok = hz::same("column", uint64_t(b.column_num), uint64_t(e.n->col)) && ok;
    ok = hz::same("file", b.filename, file_of(e)) && ok;
    ok = hz::check(conj(b.condition, conds_of(*in.m, e)), "condition is " + b.condition) && ok;
    auto n = b.instance_id ? db.get_instance_name(*b.instance_id) : std::nullopt;
    return hz::check(n && *n == in.name, "instance") && ok;
}
static void look(Rng& r) {
    hz::input("");
    Table t = gtable(r), o = ordered(t);
    JSONSymbolTableProvider db;
    if (!load(db, t, r)) return;
    Places p;
    auto insts = instances(o);
    if (!places(db, insts, p)) return;
    for (uint32_t id = 0; id < p.at.size(); id++) {
        auto bp = db.get_breakpoint(id);
        if (!hz::check(bp.has_value() == !file_of(p.at[id].second).empty(), "get_breakpoint")) return;
        if (bp && !is(*bp, id, p.at[id].first, p.at[id].second, db)) return;
        auto n = db.get_instance_name_from_bp(id);
        if (bp) hz::check(n && *n == p.at[id].first.name, "get_instance_name_from_bp");
    }
    static const std::vector<std::string> files = {"/a/b.py", "/a/c.py", "b.scala", "c.scala", "/x/b.scala", "/x/c.scala", "src/d.scala", "d.scala", "b.py", "", "/y/src/d.scala"};
    for (int k = 0; k < 12; k++) {
        auto f = r.pick(files);
        unsigned line = unsigned(r.below(6)), col = unsigned(r.below(4));
        if (r.chance(30)) line = 0;
        std::map<uint32_t, bool> want;
        for (uint32_t id = 0; id < p.at.size(); id++) {
            auto& [in, e] = p.at[id];
            if (!same_file(f, file_of(e))) continue;
            if (line && (e.n->line != line || (col && e.n->col != col))) continue;
            want[id] = false;
        }
        auto got = line ? db.get_breakpoints(f, line, col) : db.get_breakpoints(f);
        for (auto& b : got) {
            auto it = want.find(b.id);
            if (!hz::check(it != want.end() && !it->second, "breakpoint " + std::to_string(b.id) + " does not belong to " + f + ":" + std::to_string(line) + ":" + std::to_string(col))) return;
            it->second = true;
            if (!is(b, b.id, p.at[b.id].first, p.at[b.id].second, db)) return;
        }
        for (auto& [id, s] : want) if (!hz::check(s, "breakpoint " + std::to_string(id) + " is missing at " + f + ":" + std::to_string(line) + ":" + std::to_string(col))) return;
    }
    // instances
    std::set<std::string> names, got;
    for (auto& i : insts) names.insert(i.name);
    auto gn = db.get_instance_names();
    got.insert(gn.begin(), gn.end());
    hz::check(got == names && gn.size() == names.size(), "instance names");
    std::set<uint64_t> ids;
    for (auto& n : names) {
        auto id = db.get_instance_id(n);
        if (!hz::check(id.has_value(), "no id for " + n)) return;
        ids.insert(*id);
        auto back = db.get_instance_name(uint32_t(*id));
        hz::check(back && *back == n, "name of the instance " + n);
        auto extra = n + (r.chance(50) ? ".zz" : "x");
        hz::check(names.count(extra) || !db.get_instance_id(extra), "an id for " + extra);
        auto less = n.substr(0, n.size() - 1);
        hz::check(names.count(less) || less.empty() || less.back() == '.' || !db.get_instance_id(less), "an id for " + less);
    }
    hz::check(ids.size() == names.size(), "two instances share an id");
    for (auto* s : {"", ".", "..", "zz"}) hz::check(!db.get_instance_id(std::string(s)), "an id for a name of no instance");
    hz::check(!db.get_instance_name(1000000), "a name for an id of no instance");
    for (uint64_t b = 0; b < 3; b++) hz::check(!db.get_instance_id(b + (1ull << 32)), "an instance for an id that no breakpoint can have");
    // files and annotations
    std::set<std::string> fs;
    std::function<void(const std::vector<Node>&)> walk = [&](auto& s) { for (auto& n : s) if (n.k == Block) { if (!n.file.empty()) fs.insert(n.file); walk(n.scope); } };
    for (auto& i : insts) walk(i.m->scope);
    auto gf = db.get_filenames();
    hz::check(std::set<std::string>(gf.begin(), gf.end()) == fs && gf.size() == fs.size(), "file names");
    for (auto& [n, v] : t.attrs) {
        std::vector<std::string> w;
        for (auto& [x, y] : t.attrs) if (x == n) w.push_back(y);
        hz::check(db.get_annotation_values(n) == w, "annotation values");
    }
    hz::check(db.get_annotation_values("no such").empty(), "annotation values");
}
int main(int c, char** v) { return hz::main_(c, v, {{"look", look, 1}}); }
