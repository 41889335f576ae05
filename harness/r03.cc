// R03: callbacks are registered once per name, removed on request, and requests to monitor signals are all or nothing
#include "hz.hh"
#include "mock.hh"
#include "rtl.hh"
using hz::Rng;
static int cb0(p_cb_data) { return 0; }
static int cb1(p_cb_data) { return 1; }
struct Model { std::map<std::string, std::tuple<int, int (*)(p_cb_data), std::string, void*>> cb; std::map<std::string, vpiHandle> h; };
static bool agree(Vpi& v, hgdb::RTLSimulatorClient& c, Model& m) {
    auto names = c.callback_names();
    std::set<std::string> want, got(names.begin(), names.end());
    for (auto& [k, x] : m.cb) want.insert(k);
    if (want != got) return hz::check(false, "names of the registered callbacks");
    // exactly the modelled callbacks are live in the simulator
    std::multiset<std::tuple<int, int (*)(p_cb_data), std::string, void*>> a, b;
    for (auto& [k, x] : m.cb) a.insert(x);
    for (auto& [h, x] : v.cbs) if (!x.removed) b.insert({x.d.reason, x.d.cb_rtn, x.d.obj ? v.obj[x.d.obj].full : "", x.d.user_data});
    if (a != b) return hz::check(false, "callbacks that are live in the simulator");
    return true;
}
static bool history_(Rng& r) {
    hz::input("");
    auto v = std::make_shared<Vpi>();
    v->module("Top", "tb.dut");
    std::vector<std::string> sig = {"a", "b", "clk", "rst", "q"};
    for (auto& s : sig) v->signal("tb.dut." + s);
    hgdb::RTLSimulatorClient c(v);
    if (r.chance(80)) c.set_mapping("Top", "tb.dut.");
    bool mapped = c.get_mapping().second == "tb.dut.";
    Model m;
    int n = int(r.range(1, 25));
    static int data[3];
    for (int i = 0; i < n; i++) {
        v->cb_ok = !r.chance(5);
        v->cb_refuse.clear();
        for (auto& s : sig) if (r.chance(6)) v->cb_refuse.insert("tb.dut." + s);
        int op = int(r.below(5));
        auto fn = r.chance(50) ? cb0 : cb1;
        void* ud = &data[r.below(3)];
        std::string nm = "n" + std::to_string(r.below(4));
        if (op == 0) {
            int ty = int(r.range(1, 20));
            auto s = r.pick(sig);
            vpiHandle o = r.chance(50) ? nullptr : v->byname["tb.dut." + s];
            hz::more(std::string("; ") + "add_call_back(" + nm + ", " + std::to_string(ty) + ", " + (o ? s : "-") + ")" + (v->cb_ok ? "" : " [refused]"));
            auto h = c.add_call_back(nm, ty, fn, o, ud);
            bool ok = v->cb_ok && !(o && v->cb_refuse.count("tb.dut." + s));
            if (m.cb.count(nm)) { if (h != m.h[nm]) return hz::check(false, "a name that is registered keeps its callback"); }
            else if (ok) { if (!h || !v->cbs.count(h) || v->cbs[h].removed) return hz::check(false, "handle of a new callback"); m.cb[nm] = {ty, fn, o ? "tb.dut." + s : "", ud}; m.h[nm] = h; }
            else if (h) return hz::check(false, "a refused callback has a handle");
        } else if (op == 1) {
            hz::more(std::string("; ") + "remove_call_back(" + nm + ")");
            c.remove_call_back(nm);
            m.cb.erase(nm); m.h.erase(nm);
        } else if (op == 2) {
            if (m.h.empty()) continue;
            auto it = m.h.begin(); std::advance(it, long(r.below(m.h.size())));
            auto k = it->first; auto h = it->second;
            hz::more(std::string("; ") + "remove_call_back(handle of " + k + ")");
            c.remove_call_back(h);
            m.cb.erase(k); m.h.erase(k);
        } else {
            std::vector<std::string> req;
            int q = int(r.range(0, 4));
            bool all = true;
            Model m2 = m;
            std::string text = "monitor_signals(";
            for (int k = 0; k < q; k++) {
                int w = int(r.below(12));
                std::string s = r.pick(sig), name;
                bool exists = true;
                if (w == 0) { name = "Top.nothing"; exists = false; }
                else if (w < 4) name = "tb.dut." + s;
                else if (w < 6) name = "$root.tb.dut." + s;
                else { name = "Top." + s; exists = mapped; }
                req.push_back(name);
                text += name + (v->cb_refuse.count("tb.dut." + s) ? "[refused] " : " ");
                auto key = "Monitor tb.dut." + s;
                if (!exists) all = false;
                else if (!m2.cb.count(key)) {
                    if (!v->cb_ok || v->cb_refuse.count("tb.dut." + s)) all = false;
                    else { m2.cb[key] = {cbValueChange, fn, "tb.dut." + s, ud}; m2.h[key] = nullptr; }
                }
                if (!all) { for (k++; k < q; k++) req.push_back("Top." + r.pick(sig)); }
            }
            hz::more("; " + text + ")" + (v->cb_ok ? "" : " [all refused]"));
            bool got = c.monitor_signals(req, fn, ud);
            if (got != all) return hz::check(false, all ? "the request was refused" : "the request was not refused");
            if (all) {
                m = m2;
                for (auto& [k, h] : m.h) if (!h) for (auto& [x, d] : v->cbs) if (!d.removed && d.d.obj && "Monitor " + v->obj[d.d.obj].full == k && d.d.reason == cbValueChange) h = x;
            }
        }
        if (!agree(*v, c, m)) return false;
    }
    return true;
}
static void history(Rng& r) { history_(r); }
int main(int c, char** v) { return hz::main_(c, v, {{"history", history}}); }
