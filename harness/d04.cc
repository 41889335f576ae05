// D04: the places where a variable is assigned, with the condition under which each assigns it
#include "symtab.hh"
using namespace st;

static std::optional<uint64_t> number(const std::string& s) {
    if (s.empty()) return std::nullopt;
    uint64_t v = 0;
    for (char c : s) { if (c < '0' || c > '9') return std::nullopt; v = v * 10 + uint64_t(c - '0'); }
    return v;
}
static void assigned(Rng& r) {
    hz::input("");
    Table t = gtable(r), o = ordered(t);
    JSONSymbolTableProvider db;
    if (!load(db, t, r)) return;
    Places p;
    auto insts = instances(o);
    if (!places(db, insts, p)) return;
    static const std::vector<std::string> q = {"a", "b", "s.x", "s[x]", "s.y", "v[0]", "v.0", "v.1", "v", "m[1][2]", "m.1.2", "q{0}", "v[3]", "a.2", "a[1]", "m.1.2.3", "s.x[2]", "b[x]", "zz", "", ".", "[]", "v[99]", "q{0}.3", "a[4]"};
    auto base = hz::cur();
    for (uint32_t id = 0; id < p.at.size(); id++) {
        auto& [in, e] = p.at[id];
        for (int k = 0; k < 4; k++) {
            auto n = r.pick(q);
            auto nt = tokens(n);
            hz::input(base);
            hz::more(" :: " + n + " at " + std::to_string(id));
            struct W { uint32_t id; std::string value; std::vector<std::string> conds; };
            std::vector<W> want;
            if (!file_of(e).empty())
                for (uint32_t j = 0; j < p.at.size(); j++) {
                    if (p.at[j].first.name != in.name || p.at[j].second.n->k != Assign) continue;
                    auto& a = *p.at[j].second.n;
                    std::optional<W> w;
                    auto cs = conds_of(*in.m, p.at[j].second);
                    if (!a.idx.empty() && !nt.empty()) {
                        auto vt = tokens(a.vars[0].name);
                        auto i = number(nt.back());
                        if (i && vt == std::vector<std::string>(nt.begin(), nt.end() - 1))
                            for (auto& x : a.idx)
                                if (!w && x.lo <= *i && *i <= x.hi) { auto c = cs; c.push_back(x.var.value + " == " + std::to_string(*i)); w = W{j, a.vars[0].value + "[" + std::to_string(*i) + "]", c}; }
                    }
                    for (auto& v : a.vars) if (!w && tokens(v.name) == nt) w = W{j, v.value, cs};
                    if (w) want.push_back(*w);
                }
            auto got = db.get_assigned_breakpoints(n, id);
            if (!hz::same("assignments", got.size(), want.size())) return;
            for (size_t i = 0; i < got.size(); i++) {
                auto& [b, v, c] = got[i];
                auto& w = want[i];
                if (!hz::check(b == w.id && v == w.value, "assignment at " + std::to_string(b) + " of " + v + ", not at " + std::to_string(w.id) + " of " + w.value)) return;
                std::vector<std::string> nm = {"a", "b", "c"};
                for (auto* x : {"a_0", "b_0", "m0"}) if (c.find(x) != std::string::npos) nm.push_back(x);
                if (!hz::check(conj(c, w.conds, nm), "condition is " + c)) return;
            }
        }
    }
    hz::check(db.get_assigned_breakpoints("a", uint32_t(p.at.size())).empty(), "assignments seen from no breakpoint");
}
int main(int c, char** v) { return hz::main_(c, v, {{"assigned", assigned, 1}}); }
