// S03: the set of inserted breakpoints under any history of requests
#include "sched.hh"
static void book(Rng& r) {
    World w(r);
    Model m(w);
    for (auto k = r.range(3, 30); k > 0; k--) {
        switch (r.below(16)) {
            case 0: case 1: case 2: case 3: if (!m.add(r)) return; break;
            case 4: case 5: if (!m.add_data(r)) return; break;
            case 6: if (!m.add_assert(r)) return; break;
            case 7: case 8: case 9: if (!m.remove(r)) return; break;
            case 10: if (!m.reorder()) return; break;
            case 11: if (!(r.chance(50) ? m.clear_data() : r.chance(30) ? m.clear() : true)) return; break;
            case 12: if (!m.start()) return; break;
            case 13: if (!m.setmode(r.pick(std::vector<Mode>{Mode::BreakPointOnly, Mode::StepOver, Mode::None, Mode::ReverseBreakpointOnly}))) return; break;
            case 14: if (!m.next()) return; break;
            default: if (!m.lookup(r)) return; m.meaning(r);
        }
    }
}
int main(int c, char** v) { return hz::main_(c, v, {{"bookkeeping", book, 1}}); }
