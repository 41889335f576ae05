// G02: every request is answered once, to its sender, with its token, in any state of the debugger
#include "dbg.hh"
#include <sys/stat.h>
#include <fstream>
using dbg::Design;
using dbg::Session;
static std::string dir() {   // the scratch directory the check runs in
    static bool done = false;
    if (!done) {
        done = true;
        std::ofstream("g02.json") << R"({"generator":"x","top":["mod"],"table":[{"type":"module","name":"mod","instances":[],"variables":[{"name":"a","value":"a","rtl":true}],"scope":[{"type":"block","filename":"a.py","scope":[{"type":"decl","line":1,"variable":{"name":"a","value":"a","rtl":true}},{"type":"assign","line":2,"variable":{"name":"a","value":"a","rtl":true}},{"type":"none","line":3}]}]}]})";
        std::ofstream("g02.bad") << "{\"table\": 3}";
        std::ofstream("g02.text") << "nothing of the kind";
    }
    return "g02";
}
struct Play {
    Design& s;
    Rng& r;
    int depth = 0;
    bool loaded = false, dead = false;
    uint64_t n = 0;
    J p = J::obj();
    Play(Design& s, Rng& r) : s(s), r(r) {}
    J id() { return J::u(r.chance(75) && !s.ids.empty() ? r.pick(s.ids) : r.chance(80) ? r.below(8) : r.next() >> r.below(64)); }
    J inst() { return J::u(r.chance(80) ? r.below(s.insts) : r.chance(80) ? r.below(8) : r.next() >> r.below(64)); }
    J nsid() { return J::u(r.chance(80) ? r.below(s.nns + 1) : r.next() >> r.below(64)); }
    std::string var() { static const std::vector<std::string> v = {"a", "b", "w", "nosuch", "mod.a", "tb.d0.a", "mod.i1.b", "", ".", "a[0]", "a.b", "clk", "$instance", "$time"}; return r.pick(v); }
    std::string expr() { static const std::vector<std::string> v = {"a", "a + b", "1 + 2", "a +", "", "nosuch", "mod.a == 1", "tb.d0.a + tb.d0.b", "$instance", "$time", "a / 0", "w << 70"}; return r.pick(v); }
    void scope(J& j) {
        if (r.chance(50)) j.add("instance_id", inst());
        if (r.chance(40)) j.add("breakpoint_id", id());
        if (r.chance(40)) j.add("namespace_id", nsid());
    }
    std::pair<std::string, J> make() {
        J j = J::obj();
        switch (r.below(16)) {
            case 0: { auto f = r.pick(std::vector<std::string>{dir() + ".json", dir() + ".json", dir() + ".bad", dir() + ".text", dir() + ".none", ""});
                      j.add("db_filename", J::of(f)); if (r.chance(50)) { J m = J::obj(); m.add("/x", J::of("/y")); j.add("path-mapping", m); } return {"connection", j}; }
            case 1: case 2: { j.add("filename", J::of(r.chance(80) ? "a.py" : r.chance(50) ? "b.py" : "c.py")).add("line_num", J::u(r.below(5))).add("action", J::of(r.chance(70) ? "add" : "remove"));
                      if (r.chance(30)) j.add("column_num", J::u(r.below(3))); if (r.chance(40)) j.add("condition", J::of(r.chance(70) ? r.pick(Design::conds()) : expr())); return {"breakpoint", j}; }
            case 3: { j.add("id", J::u(r.chance(90) ? r.pick(s.ids) : r.below(9))).add("action", J::of(r.chance(70) ? "add" : "remove")); if (r.chance(40)) j.add("condition", J::of(r.chance(70) ? r.pick(Design::conds()) : expr())); return {"breakpoint-id", j}; }
            case 4: { j.add("filename", J::of(r.chance(80) ? "a.py" : "c.py")); if (r.chance(60)) j.add("line_num", J::u(r.below(5))); if (r.chance(40)) j.add("column_num", J::u(r.below(3))); return {"bp-location", j}; }
            case 5: case 6: { auto c = r.pick(std::vector<std::string>{"continue", "step_over", "step_back", "reverse_continue", "jump", "continue"}); if (r.chance(3)) c = "stop"; j.add("command", J::of(c)); if (c == "jump") j.add("time", J::u(r.range(1, 100))); return {"command", j}; }
            case 7: { j.add("command", J::of(r.pick(std::vector<std::string>{"breakpoints", "status", "options", "design", "filename"}))); return {"debugger-info", j}; }
            case 8: { J m = J::obj(); m.add("/x", J::of("/y")); j.add("path-mapping", m); return {"path-mapping", j}; }
            case 9: case 10: { j.add("expression", J::of(expr())); scope(j); return {"evaluation", j}; }
            case 11: { auto o = r.pick(std::vector<std::string>{"single_thread_mode", "detach_after_disconnect", "use_hex_str", "pause_at_posedge", "perf_count", "use_signal_cache", "other"});
                       j.add(o, r.chance(70) ? J::of(r.chance(50)) : r.chance(50) ? J::i(r.value()) : J::of("x")); return {"option-change", j}; }
            case 12: { if (r.chance(60)) { j.add("action_type", J::of("add")).add("monitor_type", J::of(r.pick(std::vector<std::string>{"breakpoint", "clock_edge", "changed"}))).add("var_name", J::of(var())); scope(j); }
                       else { j.add("action_type", J::of("remove")).add("track_id", J::u(r.chance(80) ? r.below(5) : r.next())); if (r.chance(50)) j.add("namespace_id", nsid()); } return {"monitor", j}; }
            case 13: { j.add("var_name", J::of(var())).add("value", J::i(r.value())); scope(j); return {"set-value", j}; }
            default: { auto a = r.pick(std::vector<std::string>{"add", "add", "info", "remove", "clear"}); j.add("action", J::of(a)); if (a != "clear") j.add("breakpoint-id", id()); if (a == "add" || a == "info") { j.add("var_name", J::of(var())); if (r.chance(40)) j.add("condition", J::of(r.chance(70) ? r.pick(Design::conds()) : expr())); } if (r.chance(50)) j.add("namespace_id", nsid()); return {"data-breakpoint", j}; }
        }
    }
    static void spoil(Rng& r, J& j) {
        if (j.o.empty()) return;
        auto k = r.below(j.o.size());
        if (r.chance(50)) j.o.erase(j.o.begin() + long(k));
        else j.o[k].second = jany(r);
    }
    void one() {
        n++;
        uint64_t conn = r.pick(std::vector<uint64_t>{0, 1, 7, UINT64_MAX});
        std::string token = r.chance(70) ? "t" + std::to_string(n) : "";
        if (r.chance(4)) {
            std::string t = r.pick(std::vector<std::string>{"", "{", "[]", "null", "{}", "{\"request\":true}", "\"x\"", "{\"request\":true,\"type\":\"error\",\"payload\":{}}"});
            hz::more("; " + t);
            auto m = s.ask(t, conn);
            auto* j = s.answer(m, conn, "", "not a request");
            if (j) hz::check(!Session::success(*j), "garbage is accepted");
            return;
        }
        auto [type, pay] = make();
        if (r.chance(8)) spoil(r, pay);
        if (r.chance(2)) type = "nosuch";
        auto q = Session::req(type, pay, token);
        hz::more("; " + jtext(q));
        auto parsed = hgdb::Request::parse_request(jtext(q));
        bool ok = parsed->status() == hgdb::status_code::success;
        if (ok && type == "connection") { auto* f = pay.get("db_filename"); if (!f || f->s.find("g02") == std::string::npos) return; }
        auto* db = s.d->db();
        bool had = db != nullptr;
        auto m = s.ask(q, conn);
        auto* j = s.answer(m, conn, token, type);
        if (!j) return;
        bool good = Session::success(*j);
        if (!ok) { hz::check(!good, type + ": a malformed request is accepted"); return; }
        auto want = [&](bool w) { hz::check(good == w, type + (w ? ": refused: " : ": accepted: ") + jtext(*j)); };
        if (auto* rt = j->get("payload") ? j->get("payload")->get("request-type") : nullptr)
            hz::check(rt->k == J::Str && rt->s == type, type + ": answered as " + jtext(*rt));
        db = s.d->db();
        if (type == "connection") {
            auto f = pay.get("db_filename")->s;
            want(f == dir() + ".json");
            hz::check((db != nullptr) == good, "the symbol table after a connection");
            s.ids.clear();
            for (uint32_t i = 0; i < 4; i++) s.ids.push_back(i);
        } else if (type == "path-mapping" || type == "bp-location") want(had);
        else if (type == "debugger-info") {
            auto c = pay.get("command")->s;
            want(had || (c != "breakpoints" && c != "filename"));
            auto* p = j->get("payload");
            if (good && c == "breakpoints") {
                std::multiset<uint64_t> a, b;
                for (auto* x : s.d->scheduler()->get_current_breakpoints()) a.insert(x->id);
                if (auto* l = p ? p->get("breakpoints") : nullptr) for (auto& x : l->a) if (x.get("id")) b.insert(x.get("id")->mag);
                hz::check(a == b, "breakpoints listed");
            }
        } else if (type == "option-change") want(true);
        else if (type == "command") {
            auto c = pay.get("command")->s;
            if (c == "stop") { want(true); dead = true; }
            else if (c != "jump") want(had);
            else want(had && s.vpi->can_rewind && !(s.vpi->bounded && pay.get("time") && !pay.get("time")->mag));
        } else if (type == "breakpoint" && pay.get("action")->s == "add") {
            auto l = had ? db->get_breakpoints(pay.get("filename")->s, uint32_t(pay.get("line_num")->mag), pay.get("column_num") && pay.get("column_num")->u32() ? uint32_t(pay.get("column_num")->mag) : 0u) : std::vector<hgdb::BreakPoint>{};
            want(had && !l.empty());
        } else if (type == "breakpoint" || (type == "breakpoint-id" && pay.get("action")->s == "remove")) want(had);
        else if (type == "breakpoint-id") want(had && db->get_breakpoint(uint32_t(pay.get("id")->mag)).has_value());
        else if (!had && type != "monitor" && type != "set-value") want(false);
    }
    // one breakpoint per place and copy of the design
    void once() {
        if (!s.d->scheduler()) return;
        std::set<std::pair<uint32_t, uint32_t>> seen;
        for (auto* b : s.d->scheduler()->get_current_breakpoints())
            if (b->type == hgdb::DebugBreakPoint::Type::normal)
                if (!hz::check(seen.insert({b->id, b->ns_id}).second, fmt::format("breakpoint {} is inserted twice in namespace {}", b->id, b->ns_id))) return;
        hz::check(s.d->namespaces_.size() == s.nns, fmt::format("{} namespaces for {} copies of the design", s.d->namespaces_.size(), s.nns));
    }
    void cycle() {
        hz::more("; cycle");
        s.values(r);
        s.vpi->time++;
        int k = 0;
        dbg::net().paused = [&] {
            if (++k > 12) { s.d->on_message(R"({"request":true,"type":"command","payload":{"command":"continue"}})", 1); s.d->on_message(R"({"request":true,"type":"option-change","payload":{"pause_at_posedge":false}})", 1); if (s.d->scheduler()) s.d->scheduler()->set_evaluation_mode(hgdb::Scheduler::EvaluationMode::None); return; }
            for (int i = int(r.below(4)); i > 0 && !dead; i--) { hz::more(" (paused)"); one(); }
        };
        s.d->eval();
        dbg::net().paused = nullptr;
    }
};
static void requests(Rng& r) {
    Design s(r, 8);
    s.open();
    Play p(s, r);
    if (r.chance(75)) { hz::more("; loaded"); s.load(); }
    auto f0 = hz::fails();
    for (int k = int(r.range(2, 25)); k > 0 && !p.dead && hz::fails() == f0; k--) {
        if (r.chance(20)) p.cycle();
        else p.one();
        p.once();
    }
}
int main(int c, char** v) { dir(); return hz::main_(c, v, {{"requests", requests, 1}}); }
