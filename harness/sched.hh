// random designs and symbol tables, and a reference model of the breakpoint scheduler
#ifndef SCHED_HH
#define SCHED_HH
#include <algorithm>
#include "hz.hh"
#include "mock.hh"
#include "namespace.hh"
#include "scheduler.hh"
using hz::Rng;
using BT = hgdb::DebugBreakPoint::Type;
using Mode = hgdb::Scheduler::EvaluationMode;

struct World {
    std::shared_ptr<Vpi> vpi = std::make_shared<Vpi>();
    Sym sym;
    hgdb::DebuggerNamespaceManager nss;
    bool single = false, log = false;
    std::unique_ptr<hgdb::Scheduler> s;
    uint32_t nns = 1;
    std::vector<std::string> files = {"a.py", "b.py"};
    static const std::vector<std::string>& enables() { static const std::vector<std::string> v = {"", "", "a", "b", "a || b", "a > 1"}; return v; }
    static const std::vector<std::string>& conds() { static const std::vector<std::string> v = {"", "", "a", "a == 2", "b || 0", "a || b", "1", "nosuch", "a +"}; return v; }
    static bool valid(const std::string& c) { return c.find("nosuch") == std::string::npos && c != "a +"; }
    explicit World(Rng& r, uint32_t maxbp = 9) {
        nns = uint32_t(r.range(1, 2));
        auto insts = uint32_t(r.range(1, 4));
        vpi->module("tb", "tb");
        for (uint32_t n = 0; n < nns; n++) {
            auto p = "tb.d" + std::to_string(n);
            vpi->module("mod", p);
            vpi->signal(p + ".clk", 1);
            for (auto x : {"a", "b"}) vpi->signal(p + "." + x);
            for (uint32_t i = 1; i < insts; i++) {
                vpi->module("sub", p + ".i" + std::to_string(i));
                for (auto x : {"a", "b"}) vpi->signal(p + ".i" + std::to_string(i) + "." + x);
            }
        }
        auto base = uint32_t(r.pick(std::vector<int>{0, 1, 10}));
        for (uint32_t i = 0; i < insts; i++) sym.insts[base + i] = i ? "mod.i" + std::to_string(i) : "mod";
        sym.clocks = {"mod.clk"};
        auto n = uint32_t(r.range(r.chance(5) ? 0 : 1, maxbp));
        uint32_t id = uint32_t(r.pick(std::vector<int>{0, 1, 100}));
        for (uint32_t i = 0; i < n; i++) {
            id += uint32_t(r.chance(70) ? 1 : r.range(1, 5));
            sym.add(id, base + uint32_t(r.below(insts)), r.chance(85) ? "a.py" : "b.py", uint32_t(r.range(1, 3)), uint32_t(r.below(2)) * uint32_t(r.chance(20)),
                    r.pick(enables()), r.chance(20) ? (r.chance(70) ? "a" : "a nosuch") : "");
            sym.order.push_back(id);
        }
        if (r.chance(50)) for (size_t i = sym.order.size(); i > 1; i--) std::swap(sym.order[i - 1], sym.order[r.below(i)]);
        vpi->can_rewind = r.chance(60);
        vpi->time = uint64_t(r.range(0, 100));
        single = r.chance(25);
        nss.add_namespace(vpi);
        nss.compute_instance_mapping(&sym);
        s = std::make_unique<hgdb::Scheduler>(nss, &sym, single, log);
        hz::input(std::string("design: ns=") + std::to_string(nss.size()) + " single=" + std::to_string(single) + " rewind=" + std::to_string(vpi->can_rewind));
        for (auto i : sym.order) {
            auto& b = sym.bps[i];
            hz::more(fmt::format(" [{} {}:{}:{} inst={} if '{}']", i, b.filename, b.line_num, b.column_num, *b.instance_id, b.condition));
        }
    }
    size_t pos(uint32_t id) const { return size_t(std::find(sym.order.begin(), sym.order.end(), id) - sym.order.begin()); }
};

struct Ent {
    const hgdb::DebugBreakPoint* p = nullptr;
    uint32_t id = 0, ns = 0;
    BT type = BT::normal;
    std::string user, var;
    bool evaluated = false;
};

struct Model {
    World& w;
    std::vector<Ent> e;
    std::optional<uint32_t> cur;
    Mode mode = Mode::BreakPointOnly;
    size_t rewinds = 0;
    explicit Model(World& w) : w(w) {}
    const hgdb::BreakPoint& db(const Ent& x) { return w.sym.bps.at(x.id); }
    static std::string en(const hgdb::BreakPoint& b) { return b.condition.empty() ? "1" : b.condition; }

    // the scheduler's list must be the model's entries, in the model's order up to ties
    bool adopt(const char* when, bool sorted) {
        auto l = w.s->get_current_breakpoints();
        if (l.size() != e.size()) { hz::fail(fmt::format("{}: {} breakpoints inserted, expected {}", when, l.size(), e.size())); return false; }
        std::vector<Ent> ne;
        for (auto* p : l) {
            auto it = std::find_if(e.begin(), e.end(), [&](auto& x) { return x.p == p; });
            if (it == e.end()) { hz::fail(fmt::format("{}: unexpected breakpoint {}", when, p->id)); return false; }
            ne.push_back(*it);
            e.erase(it);
        }
        auto old = e;
        e = ne;
        for (size_t i = 1; sorted && i < e.size(); i++)
            if (w.pos(e[i - 1].id) > w.pos(e[i].id)) { hz::fail(fmt::format("{}: breakpoint {} listed before {}", when, e[i - 1].id, e[i].id)); return false; }
        for (auto& x : e) if (!check(x, when)) return false;
        return true;
    }
    bool check(Ent& x, const char* when) {
        auto& b = db(x);
        auto* p = x.p;
        auto say = [&](const char* f) { hz::fail(fmt::format("{}: {} of breakpoint {}", when, f, x.id)); return false; };
        if (p->id != x.id || p->ns_id != x.ns || p->instance_id != *b.instance_id) return say("id or instance");
        if (p->filename != b.filename || p->line_num != b.line_num || p->column_num != b.column_num) return say("source location");
        if (p->type != x.type) return say("kind");
        if (!p->enable_expr || p->enable_expr->expression() != en(b)) return say("enable condition");
        if (!p->expr || p->expr->correct() != w.valid(x.user)) return say("condition");
        if (p->target_rtl_var_name != x.var) return say("watched variable");
        if (p->evaluated != x.evaluated) return say("presented state");
        bool trig = !b.trigger.empty() && b.trigger.find("nosuch") == std::string::npos;
        if (p->trigger_symbols.size() != (trig ? 1u : 0u)) return say("trigger");
        return true;
    }
    // condition text of an entry means: enable and user's condition
    void meaning(Rng& r) {
        if (e.empty()) return;
        auto& x = e[r.below(e.size())];
        if (!w.valid(x.user)) return;
        auto pre = w.nss[x.ns]->rtl->get_full_name(w.sym.insts.at(*db(x).instance_id));
        auto a = r.range(0, 3), bb = r.range(0, 2);
        auto f = [&](const std::string& c) -> bool {
            if (c.empty() || c == "1") return true;
            if (c == "a") return a;
            if (c == "b" || c == "b || 0") return bb;
            if (c == "a || b") return a || bb;
            if (c == "a > 1") return a > 1;
            return a == 2;
        };
        auto* ex = x.p->expr.get();
        for (auto& [n, h] : ex->get_resolved_symbol_handles()) {
            auto full = pre + "." + n;
            if (w.vpi->byname.at(full) != h) { hz::fail(fmt::format("'{}' of breakpoint {} (namespace {}) is bound to {}", n, x.id, x.ns, w.vpi->obj[h].full)); return; }
        }
        ex->set_value("a", a);
        ex->set_value("b", bb);
        bool got = ex->eval() != 0, want = f(db(x).condition) && f(x.user);
        hz::check(got == want, fmt::format("breakpoint {} with enable '{}' and condition '{}' at a={} b={}: {}", x.id, db(x).condition, x.user, a, bb, got));
    }

    std::vector<size_t> group(size_t i, bool fwd) {
        std::vector<size_t> g{i};
        auto& b = db(e[i]);
        if (w.single || e[i].type == BT::data || (fwd && e[i].type != BT::normal)) return g;
        for (int64_t j = fwd ? int64_t(i) + 1 : int64_t(i) - 1; j >= 0 && j < int64_t(e.size()); j += fwd ? 1 : -1) {
            auto& x = e[size_t(j)];
            auto& c = db(x);
            if (c.filename != b.filename || c.line_num != b.line_num || c.column_num != b.column_num) break;
            if (x.type == BT::data) continue;
            if (*c.instance_id != *b.instance_id && en(c) == en(b) && !(fwd && x.evaluated)) g.push_back(size_t(j));
        }
        return g;
    }
    std::vector<size_t> normal() {
        if (e.empty()) return {};
        std::optional<size_t> ref;
        for (size_t i = 0; i < e.size(); i++) if (e[i].evaluated) { ref = i; if (cur && e[i].id == *cur) break; }
        size_t i = 0;
        if (ref) { i = *ref + 1; while (i < e.size() && e[i].evaluated) i++; }
        if (i >= e.size()) return {};
        auto g = group(i, true);
        cur = e[i].id;
        for (auto k : g) e[k].evaluated = true;
        return g;
    }
    std::vector<size_t> reverse() {
        if (e.empty()) return {};
        std::optional<size_t> t;
        if (!cur) t = e.size() - 1;
        else if (e[0].id == *cur) {
            rewinds++;
            t = w.vpi->can_rewind ? e.size() - 1 : 0;
        } else for (size_t i = e.size() - 1; i >= 1; i--) if (e[i].id == *cur) { t = i - 1; break; }
        if (!t) { cur.reset(); return {}; }
        auto g = group(*t, false);
        cur = e[g.back()].id;
        for (auto k : g) e[k].evaluated = true;
        return g;
    }
    std::optional<uint32_t> step(bool over) {
        auto& o = w.sym.order;
        if (over) {
            if (!cur) { if (o.empty()) return {}; return cur = o[0]; }
            auto p = w.pos(*cur);
            if (p + 1 >= o.size()) return {};
            return cur = o[p + 1];
        }
        if (!cur) return {};
        auto p = w.pos(*cur);
        if (p) return cur = o[p - 1];
        rewinds++;
        return cur = w.vpi->can_rewind ? o.back() : o[0];
    }

    // one call of next_breakpoints
    bool next() {
        auto before = w.vpi->rewinds.size();
        auto t0 = w.vpi->time;
        auto got = w.s->next_breakpoints();
        auto rw = rewinds;
        std::string sg;
        for (auto* p : got) sg += " " + std::to_string(p->id);
        hz::more("; next ->" + sg);
        if (mode == Mode::None) return hz::check(got.empty(), "presented while paused");
        if (mode == Mode::BreakPointOnly || mode == Mode::ReverseBreakpointOnly) {
            auto g = mode == Mode::BreakPointOnly ? normal() : reverse();
            std::string sw;
            for (auto k : g) sw += " " + std::to_string(e[k].id);
            bool ok = got.size() == g.size();
            for (size_t k = 0; ok && k < g.size(); k++) ok = got[k] == e[g[k]].p;
            if (!ok) { hz::fail("presented" + sg + ", expected" + sw); return false; }
        } else {
            auto id = step(mode == Mode::StepOver);
            if (!id) return hz::check(got.empty(), "stepped to" + sg + ", expected nothing");
            auto& b = w.sym.bps.at(*id);
            if (!hz::check(got.size() == w.nns, fmt::format("step to {} presents {} breakpoints for {} namespaces", *id, got.size(), w.nns))) return false;
            std::set<uint32_t> seen;
            for (auto* p : got) {
                seen.insert(p->ns_id);
                if (!hz::check(p->id == *id && p->instance_id == *b.instance_id && p->filename == b.filename && p->line_num == b.line_num && p->column_num == b.column_num,
                               fmt::format("stepped to {} {}:{} expected {} {}:{}", p->id, p->filename, p->line_num, *id, b.filename, b.line_num))) return false;
                if (!hz::check(p->enable_expr && p->enable_expr->expression() == en(b), fmt::format("enable condition of step {}", *id))) return false;
                if (p->enable_expr->correct())
                    for (auto& [n, h] : p->enable_expr->get_resolved_symbol_handles()) {
                        auto full = w.nss[p->ns_id]->rtl->get_full_name(w.sym.insts.at(*b.instance_id)) + "." + n;
                        if (!hz::check(w.vpi->byname.at(full) == h, fmt::format("'{}' of step {} bound to {}", n, *id, w.vpi->obj[h].full))) return false;
                    }
            }
            if (!hz::check(seen.size() == w.nns && *seen.rbegin() < w.nns, "namespaces of the step")) return false;
        }
        if (rewinds != rw) {
            if (!hz::check(w.vpi->rewinds.size() == before + 1 && w.vpi->rewinds.back() == t0, "time is reversed once, from the current time")) return false;
            return hz::check(w.vpi->rewind_clocks.back() == std::vector<vpiHandle>{w.vpi->byname.at("tb.d0.clk")}, "clocks of the reversal");
        }
        return hz::check(w.vpi->rewinds.size() == before, "time is reversed although there is an earlier breakpoint");
    }

    bool add(Rng& r) {
        if (w.sym.bps.empty()) return true;
        auto id = r.pick(w.sym.order);
        auto& b = w.sym.bps.at(id);
        auto user = r.pick(w.conds());
        hz::more(fmt::format("; add {} if '{}'", id, user));
        hgdb::BreakPoint info;
        info.condition = user;
        auto* p = w.s->add_breakpoint(info, b);
        bool upd = false;
        for (auto& x : e) if (x.id == id && x.type == BT::normal) { x.user = user; upd = true; }
        if (!upd) {
            if (!w.valid(user)) { if (!hz::check(!p, "invalid condition accepted")) return false; }
            else if (!fresh(id, BT::normal, user, "")) return false;
        } else if (!hz::check(p && p->id == id, "updated breakpoint returned")) return false;
        return adopt("add", false);
    }
    bool fresh(uint32_t id, BT t, const std::string& user, const std::string& var, std::optional<uint32_t> only = {}) {
        auto l = w.s->get_current_breakpoints();
        size_t n = only ? 1 : w.nns;
        if (!hz::check(l.size() == e.size() + n, fmt::format("{} breakpoints listed after adding {} to {}", l.size(), n, e.size()))) return false;
        std::set<uint32_t> seen;
        for (size_t k = l.size() - n; k < l.size(); k++) {
            Ent x;
            x.p = l[k]; x.id = id; x.ns = l[k]->ns_id; x.type = t; x.user = user; x.var = var;
            seen.insert(x.ns);
            e.push_back(x);
        }
        return hz::check(seen.size() == n && *seen.rbegin() < w.nns && (!only || *seen.begin() == *only), "one breakpoint per namespace");
    }
    bool add_data(Rng& r) {
        if (w.sym.bps.empty()) return true;
        auto id = r.pick(w.sym.order);
        auto& b = w.sym.bps.at(id);
        auto user = r.pick(w.conds());
        std::string var = r.chance(45) ? "a" : r.chance(70) ? "b" : r.chance(50) ? "nosuch" : "a + b";
        bool dry = r.chance(20);
        hz::more(fmt::format("; watch {} at {} if '{}'{}", var, id, user, dry ? " (dry run)" : ""));
        auto* p = w.s->add_data_breakpoint(var, user, b, dry);
        for (auto& x : e)
            if (x.id == id && x.type == BT::data && x.var == var && x.user == user) {
                if (!hz::check(p && p->id == id && p->target_rtl_var_name == var, "the same data breakpoint is reused")) return false;
                return adopt("watch", false);
            }
        bool ok = w.valid(user) && (var == "a" || var == "b");
        if (!hz::check((p != nullptr) == ok, fmt::format("data breakpoint {}", ok ? "rejected" : "accepted"))) return false;
        if (ok) {
            auto full = w.nss[p->ns_id]->rtl->get_full_name(w.sym.insts.at(*b.instance_id)) + "." + var;
            if (!hz::check(p->full_rtl_name == full && p->full_rtl_handle == w.vpi->byname.at(full), "signal watched: " + p->full_rtl_name + ", expected " + full)) return false;
        }
        if (ok && !dry && !fresh(id, BT::data, user, var)) return false;
        return adopt("watch", false);
    }
    bool add_assert(Rng& r) {
        if (w.sym.bps.empty()) return true;
        auto id = r.pick(w.sym.order);
        auto n = uint32_t(r.below(w.nns));
        hz::more(fmt::format("; assert {} ns={}", id, n));
        auto* p = w.s->add_assert_breakpoint(w.nss[n], w.sym.bps.at(id));
        if (!hz::check(p && p->id == id && p->ns_id == n, "assertion breakpoint")) return false;
        return fresh(id, BT::assert, w.sym.bps.at(id).condition, "", n) && adopt("assert", false);
    }
    bool remove(Rng& r) {
        if (w.sym.bps.empty()) return true;
        auto id = r.pick(w.sym.order);
        auto t = r.chance(60) ? BT::normal : BT::data;
        hz::more(fmt::format("; remove {} {}", id, t == BT::normal ? "normal" : "data"));
        bool had = std::any_of(e.begin(), e.end(), [&](auto& x) { return x.id == id && x.type == t; });
        if (t == BT::data && r.chance(60)) {
            std::set<uint64_t> ids;
            for (auto& x : e) if (x.id == id && x.type == t) { const_cast<hgdb::DebugBreakPoint*>(x.p)->watch_id = r.next() % 1000; ids.insert(x.p->watch_id); }
            auto got = w.s->remove_data_breakpoint(id);
            if (!hz::check(got.has_value() == had && (!got || ids.count(*got)), "watch of the removed data breakpoint")) return false;
        } else w.s->remove_breakpoint(w.sym.bps.at(id), t);
        std::erase_if(e, [&](auto& x) { return x.id == id && x.type == t; });
        return keep("remove");
    }
    // removal keeps the order of the others
    bool keep(const char* when) {
        auto want = e;
        if (!adopt(when, false)) return false;
        for (size_t i = 0; i < e.size(); i++) if (!hz::check(e[i].p == want[i].p, std::string(when) + " reorders breakpoints")) return false;
        return true;
    }
    bool clear_data() {
        hz::more("; clear watches");
        w.s->clear_data_breakpoints();
        std::erase_if(e, [&](auto& x) { return x.type == BT::data; });
        return keep("clear watches");
    }
    bool clear() {
        hz::more("; clear");
        w.s->clear();
        e.clear();
        return keep("clear");
    }
    bool reorder() {
        hz::more("; reorder");
        w.s->reorder_breakpoints();
        return adopt("reorder", true);
    }
    bool start() {
        hz::more("; cycle");
        w.s->start_breakpoint_evaluation();
        std::erase_if(e, [&](auto& x) { return x.type == BT::assert && x.evaluated; });
        for (auto& x : e) x.evaluated = false;
        cur.reset();
        return keep("new cycle");
    }
    bool setmode(Mode m) {
        hz::more(fmt::format("; mode {}", int(m)));
        w.s->set_evaluation_mode(m);
        if (m != mode) for (auto& x : e) x.evaluated = false;
        mode = m;
        hz::check(w.s->breakpoint_only() == (m == Mode::BreakPointOnly || m == Mode::ReverseBreakpointOnly), "breakpoint-only state");
        return keep("mode change");
    }
    bool lookup(Rng& r) {
        if (w.sym.bps.empty()) return true;
        auto id = r.chance(90) ? r.pick(w.sym.order) : uint32_t(r.below(200));
        auto* p = w.s->get_breakpoint(id);
        auto it = std::find_if(e.begin(), e.end(), [&](auto& x) { return x.id == id; });
        return hz::check(it == e.end() ? p == nullptr : p && p->id == id && std::any_of(e.begin(), e.end(), [&](auto& x) { return x.p == p; }), fmt::format("look-up of breakpoint {}", id));
    }
};
#endif
