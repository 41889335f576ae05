// E02: which values an expression uses, under any history of supplies
#include <map>
#include "eval.hh"
#include "hz.hh"
#include "refexpr.hh"
using hz::Rng;
static const std::vector<std::string> POOL = {"a", "b", "c", "clk", "top.a", "v[3]", "v[7:0]", "zz", "a1", "_q"};
static void history(Rng& r) {
    // a sum with distinct weights: every name's contribution shows
    std::vector<std::string> used;
    std::string text;
    auto n = r.range(1, 6);
    for (int64_t i = 0; i < n; i++) {
        auto nm = r.pick(POOL);
        used.push_back(nm);
        text += (i ? " + " : "") + std::to_string(i * 977 + 1) + " * " + nm;
    }
    if (r.chance(30)) text = "(" + text + ") * 1";
    hz::input(text);
    auto tree = ref::parse(text);
    hgdb::DebugExpression e(text);
    if (!e.correct() || !tree) { hz::fail("rejected"); return; }
    std::set<std::string> ns;
    ref::names(tree, ns);
    auto required = [&](const std::set<std::string>& st) { std::set<std::string> w; for (auto& x : ns) if (!st.count(x)) w.insert(x); return w; };
    std::set<std::string> statics;
    std::map<std::string, int64_t> val;       // latest value that took effect
    std::map<std::string, int64_t> pending;   // supplied since the last clear
    std::map<std::string, uintptr_t> handles;
    auto look = [&](const char* when) {
        std::set<std::string> got;
        auto g = e.get_required_symbols();
        got.insert(g.begin(), g.end());
        hz::check(got == required(statics), std::string("required names after ") + when);
        std::set<std::string> sy(e.symbols().begin(), e.symbols().end());
        hz::check(sy == ns, std::string("names of the expression after ") + when);
        hz::check(e.size() == ns.size() && e.empty() == ns.empty(), "number of names");
        for (auto& x : POOL) hz::check((e.find(x) != e.end()) == (ns.count(x) > 0), "membership of " + x);
        std::map<std::string, uintptr_t> h;
        for (auto& [k, v] : e.get_resolved_symbol_handles()) h[k] = uintptr_t(v);
        hz::check(h == handles, std::string("bound signals after ") + when);
    };
    look("construction");
    for (auto k = r.range(2, 14); k > 0; k--) {
        switch (r.below(7)) {
            case 0: {
                std::unordered_map<std::string, int64_t> m;
                for (auto j = r.below(3); j > 0; j--) m[r.pick(POOL)] = r.value();
                for (auto& [x, v] : m) { hz::more("; static " + x + "=" + std::to_string(v)); if (ns.count(x)) { statics.insert(x); val[x] = v; } }
                e.set_static_values(m);
                look("static values");
                break;
            }
            case 1: {
                auto x = r.pick(POOL);
                auto v = r.value();
                hz::more("; set " + x + "=" + std::to_string(v));
                e.set_value(x, v);
                pending[x] = v;
                break;
            }
            case 2: {
                std::unordered_map<std::string, int64_t> m;
                for (auto j = r.below(5); j > 0; j--) m[r.pick(POOL)] = r.value();
                for (auto& [x, v] : m) { hz::more("; sets " + x + "=" + std::to_string(v)); pending[x] = v; }
                e.set_values(m);
                break;
            }
            case 3: {
                auto x = r.pick(POOL);
                auto h = uintptr_t(r.range(1, 1000)) * 8;
                hz::more("; bind " + x + " " + std::to_string(h));
                e.set_resolved_symbol_handle(x, reinterpret_cast<unsigned*>(h));
                if (ns.count(x)) { handles.emplace(x, h); pending.emplace(x, 0); }
                look("binding");
                break;
            }
            case 4:
                if (r.chance(30)) { hz::more("; clear"); e.clear(); handles.clear(); pending.clear(); look("clear"); }
                break;
            default: {
                hz::more("; eval");
                for (auto& [x, v] : pending) if (ns.count(x)) val[x] = v;
                auto want = ref::eval(tree, [&](const std::string& x) { return val.count(x) ? val[x] : 0; });
                if (!hz::same("value", e.eval(), want)) return;
                look("eval");
            }
        }
    }
}
int main(int c, char** v) { return hz::main_(c, v, {{"histories", history}}); }
