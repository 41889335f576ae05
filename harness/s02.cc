// S02: stepping over, stepping back and running in reverse
#include "sched.hh"
static void stepping(Rng& r) {
    World w(r, 12);
    Model m(w);
    for (auto k = r.below(6); k > 0; k--) if (!m.add(r)) return;
    if (!m.reorder()) return;
    if (!m.setmode(r.chance(70) ? Mode::StepOver : Mode::StepBack)) return;
    for (auto k = r.range(3, 30); k > 0; k--) {
        if (r.chance(20) && !m.setmode(r.pick(std::vector<Mode>{Mode::StepOver, Mode::StepBack, Mode::StepBack}))) return;
        if (r.chance(6) && !m.start()) return;
        if (r.chance(10)) w.vpi->can_rewind = !w.vpi->can_rewind;
        if (!m.next()) return;
    }
}
static void mixed(Rng& r) {
    World w(r);
    Model m(w);
    for (auto k = r.range(1, 10); k > 0; k--) if (!(r.chance(90) ? m.add(r) : m.add_data(r))) return;
    if (!m.reorder()) return;
    for (auto k = r.range(3, 30); k > 0; k--) {
        switch (r.below(14)) {
            case 0: if (!m.add(r) || !m.reorder()) return; break;
            case 1: if (!m.remove(r)) return; break;
            case 2: if (!m.start()) return; break;
            case 3: case 4: if (!m.setmode(r.pick(std::vector<Mode>{Mode::BreakPointOnly, Mode::StepOver, Mode::StepBack, Mode::ReverseBreakpointOnly, Mode::ReverseBreakpointOnly, Mode::None}))) return; break;
            case 5: w.vpi->can_rewind = !w.vpi->can_rewind; break;
            default: if (!m.next()) return;
        }
    }
}
int main(int c, char** v) { return hz::main_(c, v, {{"stepping", stepping, 1}, {"mixed", mixed, 1}}); }
