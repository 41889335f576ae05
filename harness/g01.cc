// G01: the debugger stops exactly at the breakpoints whose condition holds at that clock edge
#include "dbg.hh"
using dbg::Design;
using dbg::Session;
using BT = hgdb::DebugBreakPoint::Type;
using Hit = std::tuple<uint32_t, uint32_t, bool>;   // breakpoint, namespace, watch
static std::string show(const std::vector<Hit>& h) { std::string s; for (auto& [i, n, d] : h) s += fmt::format(" {}{}/{}", d ? "watch " : "", i, n); return s; }

struct Ent { uint32_t id, ns; bool data = false; std::string cond, var; std::map<std::string, int64_t> seen; bool was = false; };
struct Play {
    Design& s;
    Rng& r;
    std::vector<Ent> e;
    std::map<std::string, std::optional<int64_t>> watch;    // by group of signals
    bool composite = false, watches = false;
    Play(Design& s, Rng& r) : s(s), r(r) {}
    bool ask(const std::string& type, J p) {
        auto t = "t" + std::to_string(++s.tok);
        auto q = Session::req(type, p, t);
        hz::more("; " + jtext(q));
        auto m = s.ask(q, 3);
        auto* j = s.answer(m, 3, t, type);
        return j && hz::check(Session::success(*j), type + ": " + jtext(*j));
    }
    const hgdb::BreakPoint& db(uint32_t id) { return s.sym->bps.at(id); }
    std::string sig(uint32_t ns, uint32_t id, const std::string& v) { return s.inst(ns, *db(id).instance_id) + "." + v; }
    bool enabled(uint32_t ns, uint32_t id, const std::string& cond) {
        auto a = s.val(sig(ns, id, "a")), b = s.val(sig(ns, id, "b"));
        return Design::holds(db(id).condition, a, b) && Design::holds(cond, a, b);
    }
    bool trigger(Ent& x) {
        if (db(x.id).trigger.empty()) return true;
        bool t = false;
        for (std::string n : {"a", "b"}) {
            if (db(x.id).trigger.find(n) == std::string::npos) continue;
            auto v = s.val(sig(x.ns, x.id, n));
            auto [i, first] = x.seen.try_emplace(n, v);
            t = t || first || i->second != v;
            i->second = v;
        }
        return t;
    }
    bool hit(Ent& x) {
        bool on = enabled(x.ns, x.id, x.cond);
        bool t = trigger(x);
        if (!on || !t) return false;
        if (!x.data) return true;
        auto& w = watch[composite ? "v" + std::to_string(*db(x.id).instance_id) : sig(x.ns, x.id, x.var)];
        auto v = s.val(sig(x.ns, x.id, x.var));
        if (w && *w == v) return false;
        w = v;
        return true;
    }
    size_t pos(uint32_t id) { return size_t(std::find(s.sym->order.begin(), s.sym->order.end(), id) - s.sym->order.begin()); }
    bool change() {
        if (watches && s.nns == 1 && r.chance(35)) {
            auto id = r.pick(s.ids);
            auto has = std::any_of(e.begin(), e.end(), [&](auto& x) { return x.data && x.id == id; });
            if (has && r.chance(50)) {
                J p = J::obj(); p.add("action", J::of("remove")).add("breakpoint-id", J::u(id));
                if (!ask("data-breakpoint", p)) return false;
                std::set<std::string> gone, kept;
                auto grp = [&](const Ent& x) { return composite ? "v" + std::to_string(*db(x.id).instance_id) : sig(x.ns, x.id, x.var); };
                for (auto& x : e) if (x.data) (x.id == id ? gone : kept).insert(grp(x));
                std::erase_if(e, [&](auto& x) { return x.data && x.id == id; });
                for (auto& g : gone) if (!kept.count(g)) watch.erase(g);
                return true;
            }
            // every place that assigns the variable in this instance
            auto& as = s.sym->assigned[composite ? "v" : "a"];
            as.clear();
            std::vector<uint32_t> l;
            for (auto i : s.ids) if (*db(i).instance_id == *db(id).instance_id) l.push_back(i);
            for (size_t k = 0; k < l.size(); k++) as.emplace_back(l[k], composite && (l[k] & 1) ? "b" : "a", "");
            J p = J::obj(); p.add("action", J::of("add")).add("breakpoint-id", J::u(id)).add("var_name", J::of(composite ? "v" : "a"));
            if (!ask("data-breakpoint", p)) return false;
            for (auto& [i, v, c] : as) if (std::none_of(e.begin(), e.end(), [&](auto& x) { return x.data && x.id == i; })) { Ent x; x.id = i; x.ns = 0; x.data = true; x.var = v; e.push_back(x); }
            return true;
        }
        if (r.chance(15)) {
            J p = J::obj(); p.add(r.pick(std::vector<std::string>{"use_signal_cache", "single_thread_mode", "use_hex_str"}), J::of(r.chance(60)));
            return ask("option-change", p);
        }
        auto id = r.pick(s.ids);
        bool add = r.chance(70);
        auto c = r.pick(Design::conds());
        if (r.chance(60)) {
            J p = J::obj(); p.add("id", J::u(id)).add("action", J::of(add ? "add" : "remove"));
            if (!c.empty()) p.add("condition", J::of(c));
            if (!ask("breakpoint-id", p)) return false;
            apply(id, add, c);
            return true;
        }
        auto f = db(id).filename; auto ln = db(id).line_num, col = db(id).column_num;
        J p = J::obj(); p.add("filename", J::of(f)).add("line_num", J::u(ln)).add("action", J::of(add ? "add" : "remove"));
        bool wc = col && r.chance(50);
        if (wc) p.add("column_num", J::u(col));
        if (!c.empty()) p.add("condition", J::of(c));
        if (!ask("breakpoint", p)) return false;
        for (auto i : s.ids) if (db(i).filename == f && db(i).line_num == ln && (!wc || db(i).column_num == col)) apply(i, add, c);
        return true;
    }
    void apply(uint32_t id, bool add, const std::string& c) {
        if (!add) { std::erase_if(e, [&](auto& x) { return x.id == id && !x.data; }); return; }
        bool upd = false;
        for (auto& x : e) if (x.id == id && !x.data) { x.cond = c; upd = true; }
        if (!upd) for (uint32_t n = 0; n < s.nns; n++) { Ent x; x.id = id; x.ns = n; x.cond = c; e.push_back(x); }
    }
    std::vector<Hit> hits(size_t from) {
        std::vector<Hit> h;
        auto& o = dbg::net().out;
        for (size_t i = from; i < o.size(); i++) {
            auto* t = o[i].j.get("type");
            if (!o[i].all || !t || t->s != "breakpoint") continue;
            auto* p = o[i].j.get("payload");
            for (auto& x : p->get("instances")->a) h.emplace_back(uint32_t(x.get("breakpoint_id")->mag), uint32_t(x.get("namespace_id")->mag), x.get("bp_type") && x.get("bp_type")->s == "data");
        }
        return h;
    }
    bool cycle(bool keep = false) {
        if (!keep) s.values(r);
        s.vpi->time++;
        hz::more("; cycle");
        for (uint32_t n = 0; n < s.nns; n++) for (uint32_t i = 0; i < s.insts && i < 5; i++) hz::more(fmt::format(" {}:{},{}", n * 10 + i, s.val(s.inst(n, i) + ".a"), s.val(s.inst(n, i) + ".b")));
        std::stable_sort(e.begin(), e.end(), [&](auto& x, auto& y) { return pos(x.id) < pos(y.id); });
        std::vector<Hit> want;
        for (auto& x : e) if (hit(x)) want.emplace_back(x.id, x.ns, x.data);
        auto n = dbg::net().out.size(), w = dbg::net().waits;
        dbg::net().paused = [&] { s.d->on_message(R"({"request":true,"type":"command","payload":{"command":"continue"}})", 9); };
        s.d->eval();
        dbg::net().paused = nullptr;
        auto got = hits(n);
        auto a = got, b = want;
        std::sort(a.begin(), a.end());
        std::sort(b.begin(), b.end());
        size_t stops = 0;
        for (size_t i = n; i < dbg::net().out.size(); i++) stops += dbg::net().out[i].all && dbg::net().out[i].j.get("type")->s == "breakpoint";
        if (!hz::check(stops == dbg::net().waits - w, fmt::format("{} stops reported, {} made", stops, dbg::net().waits - w))) return false;
        return hz::check(a == b, "stopped at" + show(got) + ", expected" + show(want));
    }
};
static void start(Design& s, Rng& r) {
    s.open();
    s.load();
    s.d->set_option("single_thread_mode", r.chance(25));
    s.d->set_option("use_signal_cache", r.chance(40));
}
static void cycles(Rng& r) {
    Design s(r, 9);
    start(s, r);
    Play p(s, r);
    for (int k = int(r.range(4, 24)); k > 0; k--) if (!(r.chance(45) ? p.cycle(r.chance(20)) : p.change())) return;
}
static void watches(Rng& r) {
    Design s(r, 6, 1);
    start(s, r);
    Play p(s, r);
    p.watches = true;
    p.composite = r.chance(40);
    for (int k = int(r.range(4, 24)); k > 0; k--) if (!(r.chance(50) ? p.cycle(r.chance(20)) : p.change())) return;
}
// stepping stops at every statement whose own condition holds
static void steps(Rng& r) {
    Design s(r, 9);
    start(s, r);
    s.d->on_message(R"({"request":true,"type":"command","payload":{"command":"step_over"}})", 9);
    Play p(s, r);
    for (int k = int(r.range(1, 5)); k > 0; k--) {
        s.values(r);
        s.vpi->time++;
        hz::more("; step through the cycle");
        std::vector<Hit> want;
        for (auto id : s.sym->order) for (uint32_t n = 0; n < s.nns; n++) if (p.enabled(n, id, "")) want.emplace_back(id, n, false);
        auto n = dbg::net().out.size();
        s.d->eval();
        auto got = p.hits(n);
        if (!hz::check(got == want, "stepped to" + show(got) + ", expected" + show(want))) return;
    }
}
// a value set while paused counts for the breakpoints that are still to come at this edge
static void edits(Rng& r) {
    Design s(r, 9, 1);
    start(s, r);
    s.d->set_option("single_thread_mode", true);
    Play p(s, r);
    for (auto id : s.ids) if (r.chance(70)) { J j = J::obj(); j.add("id", J::u(id)).add("action", J::of("add")); auto c = r.pick(Design::conds()); if (!c.empty()) j.add("condition", J::of(c)); if (!p.ask("breakpoint-id", j)) return; p.apply(id, true, c); }
    for (int k = int(r.range(1, 6)); k > 0; k--) {
        s.values(r);
        s.vpi->time++;
        hz::more("; cycle");
        std::stable_sort(p.e.begin(), p.e.end(), [&](auto& x, auto& y) { return p.pos(x.id) < p.pos(y.id); });
        size_t at = 0;
        auto n = dbg::net().out.size();
        std::vector<Hit> want;
        bool bad = false;
        auto advance = [&] {   // to the next stop
            while (at < p.e.size()) { auto& x = p.e[at++]; if (p.hit(x)) { want.emplace_back(x.id, x.ns, false); return; } }
        };
        dbg::net().paused = [&] {
            if (bad) return;
            auto got = p.hits(n);
            if (want.empty() || got != want) { if (got != want) bad = true; }
            if (r.chance(60) && !bad) {
                uint32_t i = uint32_t(r.below(s.insts));
                std::string v = r.chance(50) ? "a" : "b";
                if (r.chance(30)) { s.d->set_option("use_signal_cache", r.chance(50)); hz::more("; cache switched"); }
                J j = J::obj(); j.add("var_name", J::of(v)).add("value", J::i(r.range(0, 3))).add("instance_id", J::u(i));
                if (!p.ask("set-value", j)) bad = true;
            }
            advance();
        };
        advance();
        s.d->eval();
        dbg::net().paused = nullptr;
        auto got = p.hits(n);
        if (!hz::check(!bad && got == want, "stopped at" + show(got) + ", expected" + show(want))) return;
    }
}
// many instances of one line, which are judged together
static void many(Rng& r) {
    Design s(r, 1, 1);
    auto n = uint32_t(r.range(2, 90));
    for (uint32_t i = s.insts; i < n; i++) {
        s.vpi->module("sub", s.inst(0, i));
        s.vpi->signal(s.inst(0, i) + ".a", 8);
        s.vpi->signal(s.inst(0, i) + ".b", 8);
        s.vpi->signal(s.inst(0, i) + ".w", 8);
        s.sym->insts[i] = "mod.i" + std::to_string(i);
    }
    s.insts = std::max(n, s.insts);
    s.sym->bps.clear(); s.sym->order.clear(); s.ids.clear();
    auto en = r.pick(Design::enables());
    for (uint32_t i = 0; i < s.insts; i++) { s.sym->add(i + 1, i, "a.py", 5, 0, en, r.chance(10) ? "a" : ""); s.sym->order.push_back(i + 1); s.ids.push_back(i + 1); }
    hz::input(fmt::format("{} instances of a.py:5 if '{}'", s.insts, en));
    s.values(r);
    s.open();
    s.load();
    s.d->set_option("use_signal_cache", r.chance(40));
    Play p(s, r);
    J j = J::obj(); j.add("filename", J::of("a.py")).add("line_num", J::u(5)).add("action", J::of("add"));
    auto c = r.pick(Design::conds());
    if (!c.empty()) j.add("condition", J::of(c));
    if (!p.ask("breakpoint", j)) return;
    for (auto i : s.ids) p.apply(i, true, c);
    for (int k = 0; k < 4; k++) if (!p.cycle()) return;
}
int main(int c, char** v) { return hz::main_(c, v, {{"cycles", cycles, 3}, {"watches", watches, 2}, {"steps", steps, 1}, {"edits", edits, 2}, {"many", many, 1}}); }
