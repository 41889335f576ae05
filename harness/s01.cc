// S01: continuing forward through the breakpoints of a cycle
#include "sched.hh"
// no changes during the cycle: everything inserted is presented exactly once, in execution order
static void cycles(Rng& r) {
    World w(r, 14);
    Model m(w);
    for (auto k = r.range(1, 20); k > 0; k--) if (!(r.chance(85) ? m.add(r) : m.add_data(r))) return;
    if (!m.reorder()) return;
    for (auto c = r.range(1, 3); c > 0; c--) {
        if (r.chance(40) && (!m.add_assert(r) || !m.reorder())) return;
        if (!m.start()) return;
        std::map<const void*, int> seen;
        size_t last = 0;
        hz::more("; cycle");
        for (size_t n = 0; n <= m.e.size() + 1; n++) {
            auto got = w.s->next_breakpoints();
            if (got.empty()) break;
            std::string sg;
            for (auto* p : got) { sg += " " + std::to_string(p->id); seen[p]++; }
            hz::more("; next ->" + sg);
            if (!hz::check(w.pos(got[0]->id) >= last, fmt::format("breakpoint {} presented out of order", got[0]->id))) return;
            last = w.pos(got[0]->id);
            std::set<uint32_t> in;
            for (size_t k = 1; k < got.size(); k++) {
                auto *a = got[0], *b = got[k];
                if (!hz::check(!w.single, "several breakpoints in single-thread mode")) return;
                if (!hz::check(a->filename == b->filename && a->line_num == b->line_num && a->column_num == b->column_num && a->enable_expr->expression() == b->enable_expr->expression() && a->instance_id != b->instance_id && b->type != BT::data,
                               fmt::format("breakpoints {} and {} presented together", a->id, b->id))) return;
            }
        }
        for (auto& x : m.e) {
            if (!hz::check(seen[x.p] == 1, fmt::format("breakpoint {} (namespace {}) presented {} times in a cycle", x.id, x.ns, seen[x.p]))) return;
            x.evaluated = true;
        }
        if (!hz::check(w.s->next_breakpoints().empty(), "presented after the end of the cycle")) return;
        if (!m.adopt("cycle", true)) return;
    }
}
// breakpoints come and go while the cycle is evaluated
static void changing(Rng& r) {
    World w(r);
    Model m(w);
    for (auto k = r.range(1, 10); k > 0; k--) if (!m.add(r)) return;
    if (!m.reorder()) return;
    for (auto k = r.range(3, 30); k > 0; k--) {
        switch (r.below(12)) {
            case 0: if (!m.add(r) || !m.reorder()) return; break;
            case 1: if (!m.add_data(r) || !m.reorder()) return; break;
            case 2: if (!m.add_assert(r) || !m.reorder()) return; break;
            case 3: if (!m.remove(r)) return; break;
            case 4: if (!m.start()) return; break;
            case 5: if (r.chance(20)) w.single = !w.single; break;
            default: if (!m.next()) return;
        }
    }
}
int main(int c, char** v) { return hz::main_(c, v, {{"cycles", cycles, 1}, {"changing", changing, 1}}); }
