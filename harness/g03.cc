// G03: what the debugger shows is what the simulator holds
#include "dbg.hh"
using dbg::Design;
using dbg::Session;

struct Show {
    Design& s;
    Rng& r;
    bool hex = false;
    Show(Design& s, Rng& r) : s(s), r(r) {}
    const J* ask(const std::string& type, J p, std::vector<dbg::Msg>& keep) {
        auto t = "t" + std::to_string(++s.tok);
        auto q = Session::req(type, p, t);
        hz::more("; " + jtext(q));
        keep = s.ask(q, 3);
        return s.answer(keep, 3, t, type);
    }
    bool ok(const std::string& type, J p) {
        std::vector<dbg::Msg> m;
        auto* j = ask(type, p, m);
        return j && hz::check(Session::success(*j), type + ": " + jtext(*j));
    }
    int64_t val(const std::string& sig) { return int32_t(s.val(sig)); }   // the integer the simulator gives
    std::string text(int64_t v, uint32_t width) {
        if (!hex) return std::to_string(v);
        if (width && width < 64) v &= (1l << width) - 1;
        if (width == 1) return v ? "1" : "0";
        char b[40];
        snprintf(b, sizeof b, "%0*lX", int(width ? (width + 3) / 4 : 1), static_cast<unsigned long>(v));
        return "0x" + std::string(b);
    }
    std::string text(const std::string& sig) { return text(val(sig), uint32_t(s.vpi->obj.at(s.vpi->byname.at(sig)).width)); }
    std::string sig(uint32_t ns, uint32_t inst, const std::string& v) { return s.inst(ns, inst) + "." + v; }
};
static bool same(const J* o, const std::map<std::string, std::string>& want, const std::string& what) {
    if (!hz::check(o && o->k == J::Obj, what + ": not an object")) return false;
    std::map<std::string, std::string> got;
    for (auto& [k, v] : o->o) got[k] = v.s;
    std::string d;
    for (auto& [k, v] : want) if (!got.count(k) || got[k] != v) d += " " + k + "=" + (got.count(k) ? got[k] : "(missing)") + " instead of " + v;
    for (auto& [k, v] : got) if (!want.count(k)) d += " " + k + "=" + v + " which is not there";
    return hz::check(d.empty(), what + ":" + d);
}
// the variables of each breakpoint: names of the source language for signals and constants
static void pauses(Rng& r) {
    Design s(r, 7);
    auto& y = *s.next;
    Show w(s, r);
    bool delays = r.chance(50);
    for (auto i : s.ids) {
        std::set<std::string> used;
        for (int k = int(r.range(0, 4)); k > 0; k--) {
            auto n = r.pick(std::vector<std::string>{"x", "y", "z", "a", "b", "w1"});
            if (!used.insert(n).second) continue;
            if (r.chance(20)) y.ctx[i].push_back({n, std::to_string(r.range(0, 99)), false});
            else if (delays && r.chance(50)) y.ctx[i].push_back({n, r.pick(s.vars), true, 1, uint32_t(r.range(1, 3))});
            else y.ctx[i].push_back({n, r.pick(s.vars), true});
        }
        for (auto& v : y.ctx[i]) hz::more(fmt::format("; {} of {}: {}{}", v.name, i, v.value, v.type ? fmt::format(" {} cycles before", v.depth) : ""));
    }
    for (uint32_t i = 0; i < s.insts; i++) if (r.chance(50)) { y.gen[i].push_back({"P", std::to_string(r.range(0, 99)), false}); y.gen[i].push_back({"g", r.pick(s.vars), true}); }
    s.open();
    s.load();
    s.d->set_option("single_thread_mode", r.chance(30));
    s.d->set_option("use_signal_cache", r.chance(30));
    // every value of every signal since the breakpoint was added, per breakpoint
    std::map<uint32_t, std::map<std::string, std::vector<int64_t>>> past;
    auto record = [&](uint32_t id) { for (uint32_t n = 0; n < s.nns; n++) for (auto& v : s.vars) { auto g = w.sig(n, *s.sym->bps.at(id).instance_id, v); past[id][g].push_back(w.val(g)); } };
    std::set<uint32_t> in;
    // a delayed signal is followed from the first breakpoint that shows it with this delay
    std::map<std::pair<std::string, uint32_t>, uint32_t> since;
    for (int k = int(r.range(2, 14)); k > 0; k--) {
        if (r.chance(40) || in.empty()) {
            auto id = r.pick(s.ids);
            J p = J::obj(); p.add("id", J::u(id)).add("action", J::of("add"));
            if (!w.ok("breakpoint-id", p)) return;
            if (in.insert(id).second) record(id);
            for (auto& v : y.ctx[id]) if (v.type) for (uint32_t n = 0; n < s.nns; n++) since.emplace(std::make_pair(w.sig(n, *s.sym->bps.at(id).instance_id, v.value), v.depth), id);
            continue;
        }
        if (r.chance(15)) { w.hex = r.chance(50); J p = J::obj(); p.add("use_hex_str", J::of(w.hex)); if (!w.ok("option-change", p)) return; }
        s.values(r);
        s.vpi->time++;
        hz::more("; cycle");
        for (auto i : in) record(i);
        bool good = true;
        auto from = dbg::net().out.size();
        dbg::net().paused = [&] {
            auto& o = dbg::net().out;
            for (; good && from < o.size(); from++) {
                auto* t = o[from].j.get("type");
                if (!o[from].all || !t || t->s != "breakpoint") continue;
                auto* p = o[from].j.get("payload");
                if (!(good = hz::check(p && p->get("time") && p->get("time")->mag == s.vpi->time, "time of the stop: " + o[from].text))) return;
                for (auto& x : p->get("instances")->a) {
                    auto id = uint32_t(x.get("breakpoint_id")->mag), ns = uint32_t(x.get("namespace_id")->mag);
                    auto& b = s.sym->bps.at(id);
                    auto what = fmt::format("stop at {} in design {}", id, ns);
                    good = hz::check(p->get("filename")->s == b.filename && p->get("line_num")->mag == b.line_num, what + " place: " + o[from].text) &&
                           hz::check(x.get("instance_id")->mag == *b.instance_id && x.get("instance_name")->s == s.inst(ns, *b.instance_id), what + " instance: " + o[from].text);
                    if (!good) return;
                    std::map<std::string, std::string> loc, gen;
                    for (auto& v : y.ctx[id]) {
                        if (!v.rtl) { loc[v.name] = v.value; continue; }
                        auto g = w.sig(ns, *b.instance_id, v.value);
                        if (!v.type) { loc[v.name] = w.text(g); continue; }
                        auto& h = past[since.at({g, v.depth})][g];
                        loc[v.name] = h.size() <= v.depth ? "ERROR" : w.text(h[h.size() - 1 - v.depth], uint32_t(s.vpi->obj.at(s.vpi->byname.at(g)).width));
                    }
                    for (auto& v : y.gen[*b.instance_id]) gen[v.name] = v.rtl ? w.text(w.sig(ns, *b.instance_id, v.value)) : v.value;
                    good = same(x.get("local"), loc, what + " local") && same(x.get("generator"), gen, what + " generator");
                    if (!good) return;
                }
            }
        };
        s.d->eval();
        dbg::net().paused = nullptr;
        if (!good) return;
    }
}
// monitored values
static void monitors(Rng& r) {
    Design s(r, 5);
    Show w(s, r);
    s.open();
    s.load();
    struct M { uint32_t id, ns; std::string sig, type; std::optional<int64_t> seen; };
    std::vector<M> ms;
    bool stop = r.chance(60);
    if (stop) for (auto id : s.ids) { J p = J::obj(); p.add("id", J::u(id)).add("action", J::of("add")).add("condition", J::of("1")); if (!w.ok("breakpoint-id", p)) return; }
    for (int k = int(r.range(3, 20)); k > 0; k--) {
        if (r.chance(12)) { w.hex = r.chance(50); J p = J::obj(); p.add("use_hex_str", J::of(w.hex)); if (!w.ok("option-change", p)) return; }
        if (r.chance(45)) {
            uint32_t n = uint32_t(r.below(s.nns)), i = uint32_t(r.below(s.insts));
            if (!ms.empty() && r.chance(30)) {
                auto x = r.pick(ms);
                J p = J::obj(); p.add("action_type", J::of("remove")).add("track_id", J::u(x.id)).add("namespace_id", J::u(x.ns));
                if (!w.ok("monitor", p)) return;
                std::erase_if(ms, [&](auto& z) { return z.id == x.id && z.ns == x.ns; });
                continue;
            }
            auto v = r.pick(s.vars);
            auto ty = r.pick(std::vector<std::string>{"breakpoint", "clock_edge", "changed"});
            J p = J::obj(); p.add("action_type", J::of("add")).add("monitor_type", J::of(ty)).add("namespace_id", J::u(n));
            if (r.chance(50)) p.add("var_name", J::of(w.sig(n, i, v)));
            else p.add("var_name", J::of(v)).add("instance_id", J::u(i));
            std::vector<dbg::Msg> m;
            auto* j = w.ask("monitor", p, m);
            if (!j || !hz::check(Session::success(*j), "monitor: " + jtext(*j))) return;
            auto* q = j->get("payload");
            if (!hz::check(q && q->get("track_id") && q->get("namespace_id"), "monitor answer: " + jtext(*j))) return;
            M x{uint32_t(q->get("track_id")->mag), uint32_t(q->get("namespace_id")->mag), w.sig(n, i, v), ty, {}};
            bool known = false;
            for (auto& z : ms) {
                bool sm = z.sig == x.sig && z.type == x.type;
                if (!hz::check(sm == (z.id == x.id && z.ns == x.ns), "two monitors share an id: " + jtext(*j))) return;
                known |= sm;
            }
            if (!known) ms.push_back(x);
            continue;
        }
        s.values(r);
        s.vpi->time++;
        hz::more("; cycle");
        using V = std::tuple<uint32_t, uint32_t, std::string>;
        std::vector<V> want;
        auto add = [&](const std::string& ty) {
            for (auto& z : ms) {
                if (z.type != ty) continue;
                auto v = w.val(z.sig);
                if (ty == "changed" && z.seen && *z.seen == v) continue;
                z.seen = v;
                want.emplace_back(z.id, z.ns, w.text(v, 0));
            }
        };
        auto n = dbg::net().out.size();
        dbg::net().paused = [&] { add("breakpoint"); };
        s.d->eval();
        dbg::net().paused = nullptr;
        add("clock_edge");
        add("changed");
        std::vector<V> got;
        for (auto i = n; i < dbg::net().out.size(); i++) {
            auto& m = dbg::net().out[i];
            auto* t = m.j.get("type");
            if (!t || t->s != "monitor") continue;
            auto* p = m.j.get("payload");
            got.emplace_back(uint32_t(p->get("track_id")->mag), uint32_t(p->get("namespace_id")->mag), p->get("value")->s);
        }
        auto txt = [](const std::vector<V>& l) { std::string o; for (auto& [a, b, c] : l) o += fmt::format(" {}/{}={}", a, b, c); return o; };
        auto a = got, b = want;
        std::sort(a.begin(), a.end());
        std::sort(b.begin(), b.end());
        if (!hz::check(a == b, "reported" + txt(got) + ", expected" + txt(want))) return;
    }
}
// expressions and values asked for and set while the simulation is paused
static void asks(Rng& r) {
    Design s(r, 5);
    Show w(s, r);
    for (auto i : s.ids) for (auto& v : s.vars) s.next->ctx[i].push_back({v, v, true});
    s.open();
    s.load();
    s.d->set_option("use_signal_cache", r.chance(40));
    for (auto id : s.ids) { J p = J::obj(); p.add("id", J::u(id)).add("action", J::of("add")); if (!w.ok("breakpoint-id", p)) return; }
    for (int k = int(r.range(1, 5)); k > 0; k--) {
        s.values(r);
        s.vpi->time++;
        hz::more("; cycle");
        bool good = true;
        dbg::net().paused = [&] {
            for (int q = int(r.range(0, 5)); good && q > 0; q--) {
                uint32_t n = uint32_t(r.below(s.nns));
                auto id = r.pick(s.ids);
                bool bybp = r.chance(40), full = r.chance(30);
                uint32_t i = bybp ? *s.sym->bps.at(id).instance_id : uint32_t(r.below(s.insts));
                J p = J::obj();
                if (!full) { if (bybp) p.add("breakpoint_id", J::u(id)); else p.add("instance_id", J::u(i)); }
                if (s.nns > 1 || r.chance(50)) p.add("namespace_id", J::u(n));
                auto name = [&](const std::string& v) { return full ? w.sig(n, i, v) : v; };
                if (r.chance(35)) {
                    auto v = r.pick(std::vector<std::string>{"a", "b"});
                    auto x = r.range(0, 200);
                    p.add("var_name", J::of(name(v))).add("value", J::i(x));
                    good = w.ok("set-value", p) && hz::check(s.val(w.sig(n, i, v)) == x, fmt::format("{} is {} after setting it to {}", w.sig(n, i, v), s.val(w.sig(n, i, v)), x));
                    continue;
                }
                auto a = s.val(w.sig(n, i, "a")), b = s.val(w.sig(n, i, "b"));
                std::string ex; int64_t want;
                switch (r.below(5)) {
                    case 0: ex = name("a"); want = a; break;
                    case 1: ex = name("a") + " + " + name("b"); want = a + b; break;
                    case 2: ex = name("a") + " == " + name("b"); want = a == b; break;
                    case 3: ex = name("a") + " - " + name("b") + " * 2"; want = a - b * 2; break;
                    default: ex = name("w"); want = w.val(w.sig(n, i, "w")); break;
                }
                p.add("scope", J::of("")).add("expression", J::of(ex)).add("is_context", J::of(bybp));
                std::vector<dbg::Msg> m;
                auto* j = w.ask("evaluation", p, m);
                if (!(good = j && hz::check(Session::success(*j), "evaluation: " + jtext(*j)))) return;
                auto* pl = j->get("payload");
                auto* res = pl ? pl->get("result") : nullptr;
                good = hz::check(res && res->s == std::to_string(want), fmt::format("{} is {}, expected {}", ex, jtext(*j), want));
            }
        };
        s.d->eval();
        dbg::net().paused = nullptr;
        if (!good) return;
    }
}
int main(int c, char** v) { return hz::main_(c, v, {{"pauses", pauses, 3}, {"monitors", monitors, 2}, {"asks", asks, 2}}); }
