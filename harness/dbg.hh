// a whole debugger in one thread: the web socket server and the lock between simulator and client are
// replaced, everything else is the real code
#ifndef DBG_HH
#define DBG_HH
#include <algorithm>
#include "hz.hh"
#include "json.hh"
#include "mock.hh"
#include "debug.hh"
using hz::Rng;

namespace dbg {
struct Msg { bool all; uint64_t conn; J j; bool ok; std::string text; };
struct Net {
    std::vector<Msg> out;
    std::map<std::string, std::set<uint64_t>> topics;
    bool stopped = false;
    uint64_t ready = 0, waits = 0;
    std::function<void()> paused;          // what the client does while the simulation is paused
    std::function<void()> gone;
};
inline Net& net() { static Net n; return n; }
inline void put(bool all, uint64_t c, const std::string& t) {
    Msg m;
    m.all = all; m.conn = c; m.text = t;
    m.ok = jparse(t, m.j);
    net().out.push_back(std::move(m));
}
}  // namespace dbg

namespace hgdb {
DebugServer::DebugServer() : DebugServer(false) {}
DebugServer::DebugServer(bool) {}
void DebugServer::run(uint16_t) {}
void DebugServer::stop() { dbg::net().stopped = true; }
void DebugServer::send(const std::string& p) { dbg::put(true, 0, p); }
void DebugServer::send(const std::string& p, const std::string&) { dbg::put(true, 0, p); }
void DebugServer::send(const std::string& p, uint64_t c) { dbg::put(false, c, p); }
void DebugServer::set_on_message(const std::function<void(const std::string&, uint64_t)>&) {}
void DebugServer::set_on_call_client_disconnect(const std::function<void(void)>& f) { dbg::net().gone = f; }
void DebugServer::add_to_topic(const std::string& t, uint64_t c) { dbg::net().topics[t].insert(c); }
void DebugServer::remove_from_topic(const std::string& t, uint64_t c) { dbg::net().topics[t].erase(c); }
uint64_t DebugServer::get_new_channel_id() { return channel_count_++; }
void RuntimeLock::wait() { dbg::net().waits++; if (dbg::net().paused) dbg::net().paused(); }
void RuntimeLock::ready() { dbg::net().ready++; }
}  // namespace hgdb

namespace dbg {
inline void quiet() {   // the debugger's own log goes to stderr and stdout
    static bool done = false;
    if (!done) { done = true; std::cerr.setstate(std::ios::failbit); std::cout.setstate(std::ios::failbit); }
}
struct Session {
    std::shared_ptr<Vpi> vpi = std::make_shared<Vpi>();
    Sym* sym = nullptr;                    // belongs to the debugger once it is loaded
    std::unique_ptr<Sym> next;
    std::unique_ptr<hgdb::Debugger> d;
    uint64_t tok = 0;
    Session() { quiet(); net() = Net(); }
    void open() { d = std::make_unique<hgdb::Debugger>(vpi); }
    void load() { sym = next.get(); d->initialize_db(std::move(next)); }
    static J req(const std::string& type, J payload, const std::string& token = "") {
        J j = J::obj();
        j.add("request", J::of(true)).add("type", J::of(type));
        if (!token.empty()) j.add("token", J::of(token));
        j.add("payload", std::move(payload));
        return j;
    }
    // one request, and the messages it gave rise to
    std::vector<Msg> ask(const std::string& text, uint64_t conn) {
        auto& o = net().out;
        auto n = o.size();
        d->on_message(text, conn);
        return {o.begin() + long(n), o.end()};
    }
    std::vector<Msg> ask(const J& j, uint64_t conn = 1) { return ask(jtext(j), conn); }
    // the answer, which must be exactly one message to that connection, with the token of the request
    const J* answer(const std::vector<Msg>& m, uint64_t conn, const std::string& token, const std::string& what) {
        if (!hz::check(m.size() == 1, what + ": " + std::to_string(m.size()) + " answers")) return nullptr;
        if (!hz::check(!m[0].all && m[0].conn == conn, what + ": the answer goes to another connection")) return nullptr;
        if (!hz::check(m[0].ok && m[0].j.k == J::Obj, what + ": the answer is not JSON: " + m[0].text)) return nullptr;
        auto& j = m[0].j;
        auto* q = j.get("request");
        if (!hz::check(q && q->k == J::Bool && !q->b, what + ": the answer is not marked as one: " + m[0].text)) return nullptr;
        auto* t = j.get("token");
        if (!hz::check(token.empty() ? !t || (t->k == J::Str && t->s.empty()) : t && t->k == J::Str && t->s == token, what + ": token of the answer: " + m[0].text)) return nullptr;
        return &j;
    }
    static bool success(const J& j) { auto* s = j.get("status"); return s && s->k == J::Str && s->s == "success"; }
};

// a random design with one or two copies of "mod", each with sub-instances, and a symbol table for it
struct Design : Session {
    uint32_t nns, insts;
    std::vector<std::string> vars = {"a", "b", "w"};
    std::vector<uint32_t> ids;
    static const std::vector<std::string>& enables() { static const std::vector<std::string> v = {"", "", "a", "b", "a || b", "a > 1"}; return v; }
    static const std::vector<std::string>& conds() { static const std::vector<std::string> v = {"", "", "a", "a == 2", "b || 0", "a || b", "1", "b != 1", "a > b"}; return v; }
    static bool holds(const std::string& c, int64_t a, int64_t b) {
        if (c.empty() || c == "1") return true;
        if (c == "a") return a;
        if (c == "b" || c == "b || 0") return b;
        if (c == "a || b") return a || b;
        if (c == "a > 1") return a > 1;
        if (c == "a == 2") return a == 2;
        if (c == "b != 1") return b != 1;
        return a > b;
    }
    std::string inst(uint32_t n, uint32_t i) const { return "tb.d" + std::to_string(n) + (i ? ".i" + std::to_string(i) : ""); }
    Design(Rng& r, uint32_t maxbp, uint32_t maxns = 2) {
        nns = uint32_t(r.range(1, maxns));
        insts = uint32_t(r.range(1, 4));
        vpi->module("tb", "tb");
        for (uint32_t n = 0; n < nns; n++)
            for (uint32_t i = 0; i < insts; i++) {
                vpi->module(i ? "sub" : "mod", inst(n, i));
                if (!i) vpi->signal(inst(n, i) + ".clk", 1);
                vpi->signal(inst(n, i) + ".a", 8);
                vpi->signal(inst(n, i) + ".b", 8);
                vpi->signal(inst(n, i) + ".w", uint32_t(r.pick(std::vector<int>{1, 3, 32, 33, 64})));
            }
        next = std::make_unique<Sym>();
        auto& y = *next;
        for (uint32_t i = 0; i < insts; i++) y.insts[i] = i ? "mod.i" + std::to_string(i) : "mod";
        for (uint32_t i = 0; i < insts; i++) for (auto& v : vars) y.gen[i].push_back({v, v, true});
        y.clocks = {"mod.clk"};
        auto n = uint32_t(r.range(1, maxbp));
        uint32_t id = uint32_t(r.pick(std::vector<int>{0, 1, 100}));
        for (uint32_t k = 0; k < n; k++) {
            id += uint32_t(r.chance(70) ? 1 : r.range(1, 5));
            y.add(id, uint32_t(r.below(insts)), r.chance(85) ? "a.py" : "b.py", uint32_t(r.range(1, 3)), uint32_t(r.below(2)) * uint32_t(r.chance(20)),
                  r.pick(enables()), r.chance(25) ? r.pick(std::vector<std::string>{"a", "b", "a b", "b a"}) : "");
            y.order.push_back(id);
            ids.push_back(id);
        }
        if (r.chance(50)) for (size_t i = y.order.size(); i > 1; i--) std::swap(y.order[i - 1], y.order[r.below(i)]);
        vpi->can_rewind = r.chance(60);
        vpi->bounded = true;
        vpi->rewind_step = uint64_t(r.range(1, 20));
        vpi->time = uint64_t(r.range(0, 100));
        values(r);
        hz::input(fmt::format("design: ns={} insts={}", nns, insts));
        for (auto i : y.order) {
            auto& b = y.bps[i];
            hz::more(fmt::format(" [{} {}:{}:{} inst={} if '{}' on '{}']", i, b.filename, b.line_num, b.column_num, *b.instance_id, b.condition, b.trigger));
        }
        sym = next.get();
    }
    void values(Rng& r) {
        for (uint32_t n = 0; n < nns; n++)
            for (uint32_t i = 0; i < insts; i++) {
                if (r.chance(70)) vpi->set(inst(n, i) + ".a", r.range(0, 3));
                if (r.chance(70)) vpi->set(inst(n, i) + ".b", r.range(0, 2));
                if (r.chance(70)) vpi->set(inst(n, i) + ".w", r.value());
            }
    }
    int64_t val(const std::string& full) const {
        auto& o = vpi->obj.at(vpi->byname.at(full));
        uint64_t v = 0;
        for (char c : o.bits) v = v * 2 + (c == '1');
        return int64_t(v);
    }
};
}  // namespace dbg
#endif
