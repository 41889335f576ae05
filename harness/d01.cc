// D01: breakpoint ids follow the execution order of every instance of the described design
#include "symtab.hh"
using namespace st;

static void order(Rng& r) {
    hz::input("");
    Table t = gtable(r), o = ordered(t);
    JSONSymbolTableProvider db;
    if (!load(db, t, r)) return;
    Places p;
    auto insts = instances(o);
    if (!places(db, insts, p)) return;
    for (uint32_t id = 0; id < p.at.size(); id++) {
        auto& [in, e] = p.at[id];
        auto bp = db.get_breakpoint(id);
        if (file_of(e).empty()) { hz::check(!bp, "a breakpoint without a file is found"); continue; }
        if (!hz::check(bp.has_value(), "breakpoint " + std::to_string(id) + " is not found")) return;
        hz::same("id", uint64_t(bp->id), uint64_t(id));
        hz::same("line of the breakpoint", uint64_t(bp->line_num), uint64_t(e.n->line));
        hz::same("column of the breakpoint", uint64_t(bp->column_num), uint64_t(e.n->col));
        hz::check(conj(bp->condition, conds_of(*in.m, e)), "breakpoint " + std::to_string(id) + " has the condition \"" + bp->condition + "\" of another statement");
        auto n = db.get_instance_name(*bp->instance_id);
        hz::check(n && *n == in.name, "instance of the breakpoint");
    }
    hz::check(!db.get_breakpoint(uint32_t(p.at.size())) && !db.get_instance_id(uint64_t(p.at.size())), "a breakpoint past the last one");
}
int main(int c, char** v) { return hz::main_(c, v, {{"order", order, 1}}); }
