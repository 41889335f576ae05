// M01: what the monitor reports, under any history of watches, removals and value changes
#include <deque>
#include "hz.hh"
#include "mock.hh"
#include "monitor.hh"
#include "rtl.hh"
using hz::Rng;
using WT = hgdb::Monitor::WatchType;
struct W {
    WT type;
    std::string name;
    std::optional<int64_t> last;            // last reported / stored (shared cell index if >= 0)
    std::deque<std::optional<int64_t>> q;
    uint32_t depth = 1;
    std::shared_ptr<std::optional<int64_t>> cell;
};
static void history(Rng& r) {
    auto v = std::make_shared<Vpi>();
    v->module("top", "top");
    std::vector<std::string> names = {"top.a", "top.b", "top.c", "top.d"};
    std::map<std::string, int64_t> val;
    for (auto& n : names) { v->signal(n, 32); val[n] = r.range(0, 3); v->set(n, val[n]); }
    hgdb::RTLSimulatorClient rtl(v);
    hgdb::Monitor m(&rtl);
    std::map<uint64_t, W> w;
    std::set<uint64_t> used;
    hz::input("");
    auto cur = [&](const std::string& n) -> std::optional<int64_t> { if (!val.count(n)) return {}; return val[n]; };
    auto stored = [&](W& x) -> std::optional<int64_t> { return x.cell ? *x.cell : x.last; };
    auto store = [&](W& x, std::optional<int64_t> y) { x.last = y; };
    const std::vector<WT> plain = {WT::breakpoint, WT::clock_edge, WT::changed, WT::data};
    for (auto k = r.range(4, 40); k > 0; k--) {
        switch (r.below(9)) {
            case 0: case 1: {
                auto n = r.chance(90) ? r.pick(names) : std::string("top.nosuch");
                auto t = r.pick(plain);
                std::shared_ptr<std::optional<int64_t>> cell;
                bool shared = t == WT::data && r.chance(50);
                if (shared) {
                    cell = m.get_watched_value_ptr({n, "zzz"}, t);
                    bool any = false;
                    for (auto& [i, x] : w) any |= x.type == t && x.name == n;
                    if (!hz::check((cell != nullptr) == any, "shared value of " + n)) return;
                    if (cell) { std::optional<int64_t> have; for (auto& [i, x] : w) if (x.type == t && x.name == n) have = x.last; hz::check(*cell == have, "shared value"); }
                    if (!cell) cell = std::make_shared<std::optional<int64_t>>(r.chance(50) ? std::optional<int64_t>(r.range(0, 3)) : std::nullopt);
                }
                auto id = shared ? m.add_monitor_variable(n, t, cell) : m.add_monitor_variable(n, t);
                hz::more("; watch " + n + " kind " + std::to_string(int(t)) + " -> " + std::to_string(id));
                std::optional<uint64_t> same;
                for (auto& [i, x] : w) if (x.type == t && (x.name == n)) same = i;
                if (same) { if (!hz::check(id == *same, "the same watch gets another id")) return; }
                else {
                    if (!hz::check(!used.count(id), "watch id used before")) return;
                    used.insert(id);
                    W x; x.type = t; x.name = n;
                    if (shared) x.last = *cell;
                    w[id] = x;
                }
                break;
            }
            case 2: {
                auto n = r.chance(85) ? r.pick(names) : std::string("top.nosuch");    // a signal without a value
                auto d = uint32_t(r.range(0, 4));
                auto init = r.chance(80) ? cur(n) : std::nullopt;
                if (!init && r.chance(50)) init = r.range(0, 9);
                auto id = m.add_monitor_variable(n, d, init);
                hz::more("; delay " + n + " by " + std::to_string(d) + " -> " + std::to_string(id));
                if (!hz::check(!used.count(id), "watch id used before")) return;
                used.insert(id);
                W x; x.type = WT::delay_clock_edge; x.name = n; x.depth = std::max(d, 1u); x.q.push_back(init);
                w[id] = x;
                break;
            }
            case 3: {
                auto id = used.empty() || r.chance(10) ? uint64_t(r.range(0, 99)) : *std::next(used.begin(), long(r.below(used.size())));
                hz::more("; remove " + std::to_string(id));
                m.remove_monitor_variable(id);
                w.erase(id);
                break;
            }
            case 4: case 5: {
                auto n = r.pick(names);
                val[n] = r.range(0, 3);
                v->set(n, val[n]);
                hz::more("; " + n + "=" + std::to_string(val[n]));
                break;
            }
            case 6: {
                if (w.empty()) break;
                auto it = std::next(w.begin(), long(r.below(w.size())));
                if (it->second.type == WT::delay_clock_edge) break;
                hz::more("; changed? " + std::to_string(it->first));
                auto [c, x] = m.var_changed(it->first);
                auto now = cur(it->second.name);
                bool want = now && (!it->second.last || *it->second.last != *now);
                if (!hz::check(c == want && x == now, "change of " + it->second.name)) return;
                if (want) it->second.last = now;
                break;
            }
            default: {
                auto t = r.chance(30) ? WT::delay_clock_edge : r.pick(plain);
                hz::more("; values of kind " + std::to_string(int(t)));
                auto got = m.get_watched_values(t);
                std::map<uint64_t, std::optional<int64_t>> g;
                for (auto& [i, x] : got) { if (!hz::check(!g.count(i), "reported twice")) return; g[i] = x; }
                std::map<uint64_t, std::optional<int64_t>> want;
                for (auto& [i, x] : w) {
                    if (x.type != t) continue;
                    auto now = cur(x.name);
                    if (t == WT::breakpoint || t == WT::clock_edge) want[i] = now;
                    else if (t == WT::delay_clock_edge) {
                        want[i] = x.q.size() == x.depth ? x.q.front() : std::nullopt;
                        x.q.push_back(now);
                        if (x.q.size() > x.depth) x.q.pop_front();
                    } else if (now && (!x.last || *x.last != *now)) { want[i] = now; x.last = now; }
                }
                if (g != want) {
                    std::string s = "reported";
                    for (auto& [i, x] : g) s += " " + std::to_string(i) + "=" + (x ? std::to_string(*x) : "?");
                    s += ", expected";
                    for (auto& [i, x] : want) s += " " + std::to_string(i) + "=" + (x ? std::to_string(*x) : "?");
                    hz::fail(s);
                    return;
                }
            }
        }
        hz::check(m.empty() == w.empty(), "empty");
        auto n = r.pick(names);
        auto t = r.pick(plain);
        uint64_t cnt = 0;
        std::optional<uint64_t> some;
        for (auto& [i, x] : w) if (x.name == n && x.type == t) { cnt++; some = i; }
        if (!hz::check(m.num_watches(n, t) == cnt, "number of watches of " + n)) return;
        if (!hz::check(m.is_monitored(rtl.get_handle(n), t) == some, "watch of " + n)) return;
    }
}
int main(int c, char** v) { return hz::main_(c, v, {{"histories", history}}); }
