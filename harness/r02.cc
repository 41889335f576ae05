// R02: names of the symbol table resolve to the right objects of the simulated design
#include "hz.hh"
#include "mock.hh"
#include "namespace.hh"
#include "rtl.hh"
#include "util.hh"
using hz::Rng;
namespace hgdb { std::string resolve_rtl_path(const std::string& path); }
struct D {
    std::shared_ptr<Vpi> v = std::make_shared<Vpi>();
    std::vector<std::pair<std::string, std::string>> insts;    // every instance: definition, full name
    std::vector<std::string> sigs;                             // relative signals inside any Top
    std::map<std::string, std::vector<uint32_t>> dims;         // arrays: relative name -> dimensions
    std::vector<std::string> subs;
};
static std::vector<std::string> split(const std::string& s, const std::string& d) {
    std::vector<std::string> r;
    std::string c;
    for (char x : s) if (d.find(x) != std::string::npos) { if (!c.empty()) r.push_back(c); c.clear(); } else c += x;
    if (!c.empty()) r.push_back(c);
    return r;
}
static void elems(Vpi& v, vpiHandle h, const std::vector<uint32_t>& dim, size_t k, bool named) {
    if (k >= dim.size()) return;
    auto e = v.array(h, dim[k], named);
    for (auto x : e) elems(v, x, dim, k + 1, named);
}
static void fill(Rng& r, D& d, const std::string& at, bool named) {
    for (auto& s : d.subs) d.v->module("Sub", at + "." + s), d.insts.push_back({"Sub", at + "." + s});
    for (auto& s : d.sigs) {
        auto h = d.v->signal(at + "." + s, 8, r.chance(50) ? vpiNet : vpiReg);
        if (d.dims.count(s)) elems(*d.v, h, d.dims[s], 0, named);
    }
}
static D design(Rng& r, const std::vector<std::string>& tops, bool named) {
    D d;
    d.v->product = r.chance(20) ? "RTLMock" : "Sim";
    if (r.chance(70)) d.subs.push_back("u");
    if (r.chance(40)) d.subs.push_back("u.w");
    if (!d.subs.empty() && d.subs[0] != "u") d.subs.clear();
    std::vector<std::string> at = {""};
    for (auto& s : d.subs) at.push_back(s + ".");
    static const std::vector<std::string> nm = {"a", "b", "clk", "tb", "Top", "mem", "x1"};
    for (auto& a : at) for (auto& n : nm) if (r.chance(60)) {
        d.sigs.push_back(a + n);
        if (n == "mem") { std::vector<uint32_t> q = {uint32_t(r.range(1, 4))}; if (r.chance(40)) q.push_back(uint32_t(r.range(1, 3))); d.dims[a + n] = q; }
    }
    d.v->module("tb", "tb");
    d.insts.push_back({"tb", "tb"});
    int n = int(r.range(1, 4));
    std::vector<std::string> places = {"tb"};
    for (int i = 0; i < n; i++) {
        auto at2 = r.pick(places) + ".d" + std::to_string(i);
        auto def = r.chance(75) ? r.pick(tops) : std::string("Other");
        d.v->module(def, at2);
        d.insts.push_back({def, at2});
        if (def == "Other") { places.push_back(at2); if (r.chance(50)) fill(r, d, at2, named); }
        else fill(r, d, at2, named);
    }
    return d;
}
// oracle: the object of the simulator that an absolute name denotes (slices are R01's)
static vpiHandle denotes(D& d, const std::string& full) {
    auto it = d.v->byname.find(full);
    if (it != d.v->byname.end()) return it->second;
    auto t = split(full, ".[]");
    for (size_t k = t.size(); k-- > 1;) {
        std::string p;
        for (size_t i = 0; i < k; i++) p += (i ? "." : "") + t[i];
        auto j = d.v->byname.find(p);
        if (j == d.v->byname.end() || d.v->obj[j->second].type == vpiModule) continue;
        auto h = j->second;
        for (size_t i = k; i < t.size(); i++) {
            for (char c : t[i]) if (!isdigit(c)) return nullptr;
            if (t[i].size() > 9) return nullptr;
            auto& e = d.v->obj[h].elems;
            auto x = size_t(atoll(t[i].c_str()));
            if (x >= e.size()) return nullptr;
            h = e[x];
        }
        return h;
    }
    return nullptr;
}
static std::string rname(Rng& r, D& d, const std::string& top) {
    static const std::vector<std::string> junk = {"nosuch", "a.b", "u.nosuch", "mem[9]", "mem[x]", "mem[99999999999]", "mem[18446744073709551616]", "a[0]", "b.0", "u.w.q", "mem.0", "mem[0][0]", "mem[0][7]", "mem.0.0"};
    std::string n = r.chance(70) && !d.sigs.empty() ? r.pick(d.sigs) : r.chance(30) && !d.subs.empty() ? r.pick(d.subs) : r.pick(junk);
    if (d.dims.count(n)) for (auto x : d.dims[n]) if (r.chance(80)) n += r.chance(80) ? "[" + std::to_string(r.below(x + 1)) + "]" : "." + std::to_string(r.below(x + 1));
    return r.chance(5) ? top : top + "." + n;
}
static void lookups(Rng& r) {
    bool named = r.chance(50);
    auto d = design(r, {"Top"}, named);
    hgdb::RTLSimulatorClient rtl(d.v);
    auto& in = d.insts[r.below(d.insts.size())];
    rtl.set_mapping("Top", in.second + ".");
    hz::input("Top is " + in.second);
    std::map<std::string, vpiHandle> seen;
    for (auto k = r.range(3, 25); k > 0; k--) {
        auto kind = r.below(10);
        std::string n, full;
        if (kind < 6) { n = rname(r, d, "Top"); full = n == "Top" ? in.second : in.second + n.substr(3); }
        else if (kind < 8) { full = rname(r, d, r.pick(d.insts).second); n = "$root." + full; }
        else { full = n = rname(r, d, r.pick(d.insts).second); }
        hz::more("; " + n);
        if (!hz::same("full name", rtl.get_full_name(n), full)) return;
        auto want = denotes(d, full);
        auto got = rtl.get_handle(n);
        if (!hz::check(got == want, std::string("resolves to ") + (got ? d.v->obj[got].full : "nothing") + ", not " + (want ? d.v->obj[want].full : "nothing"))) return;
        if (!hz::check(rtl.is_valid_signal(n) == (want && d.v->obj[want].type != vpiModule), "is a signal")) return;
        if (!hz::check(rtl.is_absolute_path(n) == (n.substr(0, n.find('.')) == "Top"), "is a name of the symbol table")) return;
        if (want) if (!hz::same("name of the handle", rtl.get_full_name(got), d.v->obj[want].full)) return;
        if (n.substr(0, 3) == "Top" && want) {
            // its signals
            auto sg = rtl.get_module_signals(n);
            std::map<std::string, vpiHandle> w;
            if (d.v->obj[want].type == vpiModule) for (auto c : d.v->obj[want].kids) if (d.v->obj[c].type == vpiNet) { auto& f = d.v->obj[c].full; w[f.substr(f.rfind('.') + 1)] = c; }
            if (!hz::check((std::map<std::string, vpiHandle>(sg.begin(), sg.end()) == w), "signals of the module")) return;
        }
    }
}
static void parents(Rng& r) {
    std::vector<std::string> t, want;
    std::string s;
    for (auto k = r.range(1, 8); k > 0; k--) {
        static const std::vector<std::string> w = {"a", "top", "$parent", "$parent", "u_1", "b"};
        auto x = r.pick(w);
        s += (s.empty() ? "" : ".") + x;
        if (x == "$parent" && !want.empty()) want.pop_back(); else want.push_back(x);
    }
    hz::input(s);
    std::string e;
    for (auto& x : want) e += (e.empty() ? "" : ".") + x;
    hz::same("path", hgdb::resolve_rtl_path(s), e);
}
static void expand(Rng& r) {
    auto d = design(r, {"Top"}, true);
    d.v->product = "RTLMock";
    hgdb::RTLSimulatorClient rtl(d.v);
    std::vector<std::string> ins;
    for (auto& [a, b] : d.insts) if (a == "Top") ins.push_back(b);
    if (ins.empty()) return;
    auto in = r.pick(ins);
    rtl.set_mapping("Top", in + ".");
    auto n = rname(r, d, "Top");
    hz::input("Top is " + in + "; " + n);
    auto got = rtl.resolve_rtl_variable("f", n);
    auto want = std::vector<std::pair<std::string, std::string>>();
    std::function<void(const std::string&, const std::string&, const std::string&)> go = [&](const std::string& f, const std::string& name, const std::string& full) {
        auto h = denotes(d, full);
        if (h && d.v->obj[h].type == vpiModule) {
            auto b = want.size();
            for (int ty : {vpiNet, vpiReg, vpiMemory, vpiNetArray, vpiRegArray})
                for (auto c : d.v->obj[h].kids) if (d.v->obj[c].type == ty) { auto& fn = d.v->obj[c].full; go(f + "." + fn.substr(fn.rfind('.') + 1), fn, fn); }
            if (want.size() == b) want.push_back({f, name});
        } else if (h && !d.v->obj[h].elems.empty()) {
            for (size_t i = 0; i < d.v->obj[h].elems.size(); i++) { auto x = "[" + std::to_string(i) + "]"; go(f + "." + std::to_string(i), name + x, full + x); }
        } else want.push_back({f, name});
    };
    go("f", n, n == "Top" ? in : in + n.substr(3));
    if (got != want) {
        std::string s = "expands to";
        for (auto& [a, b] : got) s += " " + a + "=" + b;
        s += ", expected";
        for (auto& [a, b] : want) s += " " + a + "=" + b;
        hz::fail(s);
    }
}
static void namespaces(Rng& r) {
    std::vector<std::string> tops = {"Top"};
    if (r.chance(40)) tops.push_back("Soc");
    auto d = design(r, tops, true);
    Sym db;
    uint32_t id = 0;
    for (auto& t : tops) { db.insts[id++] = t; for (auto& s : d.subs) db.insts[id++] = t + "." + s; }
    if (r.chance(20)) db.insts[id++] = "Absent.u";
    hgdb::DebuggerNamespaceManager m;
    m.add_namespace(d.v);
    m.compute_instance_mapping(&db);
    std::string s;
    for (auto& [a, b] : d.insts) s += a + "=" + b + " ";
    hz::input(s);
    std::multiset<std::pair<std::string, std::string>> want, got;
    for (auto& [a, b] : d.insts) for (auto& t : tops) if (a == t) want.insert({a, b});
    if (want.empty()) return;
    std::set<uint32_t> ids;
    for (auto& n : m) {
        auto [a, b] = n->rtl->get_mapping();
        if (!hz::check(!b.empty() && b.back() == '.', "prefix " + b)) return;
        got.insert({a, b.substr(0, b.size() - 1)});
        if (!hz::check(m[n->id] == n.get() && ids.insert(n->id).second, "namespace id")) return;
        if (!hz::check(n->def_name == a, "definition name")) return;
        // every signal is found in its own instance
        for (auto& sg : d.sigs) {
            if (!hz::check(n->rtl->get_handle(a + "." + sg) == d.v->byname.at(b + sg), "signal " + sg + " of " + b)) return;
        }
    }
    if (!hz::check(got == want, "the namespaces are not the instances of the top")) return;
    if (!hz::check(m.default_namespace() == m[0] && m.default_rtl() == m[0]->rtl.get() && m.size() == want.size(), "default namespace")) return;
    auto tm = m.get_top_mapping();
    size_t cnt = 0;
    for (auto& [a, x] : tm) for (auto& [b, i] : x) { cnt++; if (!hz::check(want.count({a, b}) && i < m.size() && m[i]->rtl->get_mapping().second == b + ".", "reported mapping")) return; }
    if (!hz::check(cnt == want.size(), "reported mapping incomplete")) return;
    for (auto& t : std::vector<std::string>{"Top", "Soc", "Absent", "", ".", "Top2"}) {
        for (auto& sfx : std::vector<std::string>{"", ".u", ".u.w"}) {
            std::set<hgdb::DebuggerNamespace*> w, g;
            for (auto& n : m) if (!(t + sfx).empty() && split(t + sfx, ".").size() && n->def_name == split(t + sfx, ".")[0]) w.insert(n.get());
            hz::input(s + "namespaces of " + t + sfx);
            auto& l = m.get_namespaces(std::optional<std::string>(t + sfx));
            for (auto* x : l) g.insert(x);
            if (!hz::check(g == w && l.size() == w.size(), "namespaces of " + t + sfx)) return;
        }
    }
    if (!hz::check(m.get_namespaces(std::nullopt).empty(), "namespaces of no instance")) return;
    for (auto& [a, b] : d.insts) {
        auto* x = m.look_up(b);
        bool isw = want.count({a, b});
        if (!hz::check(isw ? x && x->rtl->get_mapping().second == b + "." : !x, "look up of " + b)) return;
    }
}
static void tokens(Rng& r) {
    std::string s;
    for (auto k = r.range(0, 14); k > 0; k--) s += "ab.[]: 1"[r.below(8)];
    static const std::vector<std::string> ds = {".", ".[]", ":", "[.]", " "};
    auto dl = r.pick(ds);
    hz::input("'" + s + "' by '" + dl + "'");
    if (!hz::check(hgdb::util::get_tokens(s, dl) == split(s, dl), "tokens")) return;
    auto t = split(s, dl);
    std::string j;
    for (size_t i = 0; i < t.size(); i++) j += (i ? "/" : "") + t[i];
    hz::same("joined", hgdb::util::join(t.begin(), t.end(), "/"), j);
}
int main(int c, char** v) { return hz::main_(c, v, {{"lookups", lookups, 3}, {"namespaces", namespaces, 2}, {"expand", expand, 2}, {"parents", parents}, {"tokens", tokens}}); }
