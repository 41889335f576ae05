// E01: expression evaluation against a reference evaluator
#include "eval.hh"
#include "hz.hh"
#include "refexpr.hh"
using hz::Rng;
static const std::vector<std::string> NAMES = {"a", "b", "_x", "$t", "a.b", "top.dut.c", "v[3]", "v[7:0]", "arr[i]", "s.a[0].b", "A1_2", "h", "x0"};
static const std::vector<std::string> BIN = {"+", "-", "*", "/", "%", "<", ">", "<=", ">=", "==", "!=", "&", "^", "|", "&&", "||"};
static const std::vector<std::string> UN = {"u-", "u+", "u!", "u~"};
static ref::P gen(Rng& r, int d) {
    auto n = std::make_shared<ref::Node>();
    if (d == 0 || r.chance(15)) {
        if (r.chance(50)) { n->op = "var"; n->var = r.pick(NAMES); }
        else { n->op = "lit"; n->lit = r.value(); }
        return n;
    }
    if (r.chance(25)) { n->op = r.pick(UN); n->a = gen(r, d - 1); return n; }
    n->op = r.pick(BIN);
    n->a = gen(r, d - 1);
    n->b = gen(r, d - 1);
    return n;
}
static std::string sp(Rng& r) { return r.chance(75) ? "" : std::string(r.below(3), r.chance(80) ? ' ' : '\t'); }
// prec: minimum level that needs no parentheses
static std::string print(Rng& r, const ref::P& n, int prec) {
    std::string o;
    int lv = 100;
    if (n->op == "var") o = n->var;
    else if (n->op == "lit") {
        if (n->lit < 0 || r.chance(30)) {
            char b[40];
            snprintf(b, sizeof b, r.chance(50) ? "%llx" : "%llX", (unsigned long long)n->lit);
            o = std::to_string(r.range(1, 64)) + "'h" + (r.chance(20) ? "0" : "") + b;
        } else o = (r.chance(10) ? "0" : "") + std::to_string(n->lit);
    } else if (n->op[0] == 'u') { lv = 50; o = n->op.substr(1) + sp(r) + print(r, n->a, 50); }
    else {
        lv = ref::level(n->op);
        o = print(r, n->a, lv) + sp(r) + n->op + sp(r) + print(r, n->b, lv + 1);
    }
    if (lv < prec || r.chance(8)) o = "(" + sp(r) + o + sp(r) + ")";
    return sp(r) + o + sp(r);
}
static void compare(const std::string& text, Rng& r, const ref::P& tree) {
    hgdb::DebugExpression e(text);
    if (!tree) {
        hz::check(!e.correct(), "malformed expression accepted");
        hz::same("value of a malformed expression", e.eval(), int64_t(0));
        return;
    }
    if (!e.correct()) { hz::fail("well-formed expression rejected"); return; }
    std::set<std::string> ns;
    ref::names(tree, ns);
    for (int round = 0; round < 3; round++) {
        std::unordered_map<std::string, int64_t> v;
        for (auto& n : ns) v[n] = r.value();
        e.set_values(v);
        auto want = ref::eval(tree, [&](const std::string& n) { return v.at(n); });
        auto got = e.eval();
        if (got != want) {
            std::string d;
            for (auto& [k, x] : v) d += " " + k + "=" + std::to_string(x);
            hz::fail("value with" + d + ": got " + std::to_string(got) + ", want " + std::to_string(want));
            return;
        }
    }
}
static void one_op(Rng& r) {
    auto i = hz::index() % (BIN.size() + UN.size());
    auto n = std::make_shared<ref::Node>();
    auto leaf = [&](const char* nm) { auto m = std::make_shared<ref::Node>(); m->op = "var"; m->var = nm; return m; };
    if (i < BIN.size()) { n->op = BIN[i]; n->a = leaf("a"); n->b = leaf(r.chance(90) ? "b" : "a"); }
    else { n->op = UN[i - BIN.size()]; n->a = leaf("a"); }
    auto t = print(r, n, 0);
    hz::input(t);
    for (int k = 0; k < 40; k++) compare(t, r, n);
}
static void trees(Rng& r) {
    auto n = gen(r, int(r.range(1, 6)));
    auto t = print(r, n, 0);
    hz::input(t);
    compare(t, r, n);
}
static void text(Rng& r) {
    static const std::vector<std::string> T = {"a", "b", "1", "23", "8'hff", "64'hFFFFFFFFFFFFFFFF", "(", ")", "+", "-", "*", "/", "%", "&", "|", "&&", "||", "==", "!=", "!", "~", "^", "<", ">", "<=", ">=", " ", " ", ".", "[0]", "[", "]", "[3:0]", "[i]", "=", "'h", "a.b", "#", "\n", "a[1].b", ":", "$", "_", "0"};
    std::string t;
    if (r.chance(50)) {
        t = print(r, gen(r, int(r.range(1, 4))), 0);
        for (auto k = r.range(1, 3); k > 0 && !t.empty(); k--) {
            auto p = r.below(t.size());
            switch (r.below(3)) {
                case 0: t.erase(p, 1); break;
                case 1: t.insert(p, r.pick(T)); break;
                default: t[p] = r.pick(T)[0];
            }
        }
    } else for (auto k = r.below(9); k > 0; k--) t += r.pick(T);
    hz::input(t);
    bool unclear = false;
    auto n = ref::parse(t, &unclear);
    if (unclear) { hgdb::DebugExpression e(t); (void)e.eval(); return; }
    compare(t, r, n);
}
int main(int c, char** v) { return hz::main_(c, v, {{"operators", one_op}, {"trees", trees, 2}, {"texts", text, 2}}); }
