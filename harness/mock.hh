// stand-ins for the simulator (VPI) and the symbol table, with fully controlled contents
#ifndef MOCK_HH
#define MOCK_HH
#include <map>
#include <set>
#include "fmt/format.h"
#include "rtl.hh"
#include "schema.hh"
#include "sv_vpi_user.h"
#include "symbol.hh"

// the real simulator is never there: a call that reaches it is a finding of its own
#define VPI_STUB(...) { fprintf(stderr, "ERROR: the simulator's own %s was called\n", __func__); abort(); }
extern "C" {
vpiHandle vpi_register_cb(p_cb_data) VPI_STUB()
PLI_INT32 vpi_remove_cb(vpiHandle) VPI_STUB()
vpiHandle vpi_register_systf(p_vpi_systf_data) VPI_STUB()
vpiHandle vpi_handle_by_name(PLI_BYTE8*, vpiHandle) VPI_STUB()
vpiHandle vpi_handle_by_index(vpiHandle, PLI_INT32) VPI_STUB()
vpiHandle vpi_handle(PLI_INT32, vpiHandle) VPI_STUB()
vpiHandle vpi_iterate(PLI_INT32, vpiHandle) VPI_STUB()
vpiHandle vpi_scan(vpiHandle) VPI_STUB()
PLI_INT32 vpi_get(PLI_INT32, vpiHandle) VPI_STUB()
PLI_BYTE8* vpi_get_str(PLI_INT32, vpiHandle) VPI_STUB()
void vpi_get_value(vpiHandle, p_vpi_value) VPI_STUB()
vpiHandle vpi_put_value(vpiHandle, p_vpi_value, p_vpi_time, PLI_INT32) VPI_STUB()
void vpi_get_time(vpiHandle, p_vpi_time) VPI_STUB()
PLI_INT32 vpi_get_vlog_info(p_vpi_vlog_info) VPI_STUB()
PLI_INT32 vpi_control(PLI_INT32, ...) VPI_STUB()
PLI_INT32 vpi_release_handle(vpiHandle) VPI_STUB()
}

struct Vpi : hgdb::AVPIProvider {
    struct Obj {
        int type = vpiNet;
        std::string full, def;
        uint32_t width = 32;
        std::string bits;   // binary, msb first (may have x/z); empty: 0
        vpiHandle parent = nullptr;
        std::vector<vpiHandle> kids, elems;
    };
    std::map<vpiHandle, Obj> obj;
    std::map<std::string, vpiHandle> byname;
    std::vector<vpiHandle> tops;
    uintptr_t next = 0x100000;
    uint64_t time = 0;
    bool can_rewind = true, bounded = false;   // bounded: no way back before time 0
    std::vector<uint64_t> rewinds;
    std::vector<std::string> argv;
    std::vector<char*> argp;
    std::vector<std::vector<vpiHandle>> rewind_clocks;
    uint64_t rewind_step = 1;
    bool defname = true;
    std::string product = "Sim";
    std::map<vpiHandle, std::pair<std::vector<vpiHandle>, size_t>> its;
    std::string buf;
    std::vector<int> controls;
    uint64_t put_count = 0;
    struct Cb { s_cb_data d; bool removed = false; };
    std::map<vpiHandle, Cb> cbs;
    bool cb_ok = true;
    uint64_t foreign = 0;    // calls with a handle that is not the simulator's
    std::set<std::string> cb_refuse;

    vpiHandle fresh() { return reinterpret_cast<vpiHandle>(next += 64); }
    vpiHandle module(const std::string& def, const std::string& full) {
        auto h = fresh();
        Obj o; o.type = vpiModule; o.full = full; o.def = def;
        auto p = full.rfind('.');
        if (p != std::string::npos && byname.count(full.substr(0, p))) { o.parent = byname[full.substr(0, p)]; obj[o.parent].kids.push_back(h); }
        else tops.push_back(h);
        obj[h] = o;
        byname[full] = h;
        return h;
    }
    vpiHandle signal(const std::string& full, uint32_t width = 32, int type = vpiNet) {
        auto h = fresh();
        Obj o; o.type = type; o.full = full; o.width = width;
        auto p = full.rfind('.');
        if (p != std::string::npos && byname.count(full.substr(0, p))) { o.parent = byname[full.substr(0, p)]; obj[o.parent].kids.push_back(h); }
        obj[h] = o;
        byname[full] = h;
        return h;
    }
    std::vector<vpiHandle> array(vpiHandle sig, uint32_t n, bool named = true) {
        obj[sig].type = vpiRegArray;
        for (uint32_t i = 0; i < n; i++) {
            auto h = fresh();
            Obj o; o.type = vpiReg; o.full = obj[sig].full + "[" + std::to_string(i) + "]"; o.width = obj[sig].width;
            obj[h] = o;
            if (named) byname[o.full] = h;
            obj[sig].elems.push_back(h);
        }
        return obj[sig].elems;
    }
    static std::string tobits(uint64_t v, uint32_t w) { std::string s; for (int i = int(w) - 1; i >= 0; i--) s += i < 64 && ((v >> i) & 1) ? '1' : '0'; return s; }
    void set(vpiHandle h, int64_t v) { obj[h].bits = tobits(uint64_t(v), std::min<uint32_t>(obj[h].width, 64)); }
    void set(const std::string& n, int64_t v) { set(byname.at(n), v); }
    void vpi_get_value(vpiHandle h, p_vpi_value v) override {
        auto it = obj.find(h);
        foreign += it == obj.end();
        std::string b = it == obj.end() ? "" : it->second.bits;
        if (b.empty()) b = std::string(it == obj.end() ? 1 : it->second.width, '0');
        if (v->format == vpiIntVal) {
            uint32_t r = 0;
            for (char c : b) r = r * 2 + (c == '1');
            v->value.integer = int32_t(r);
        } else if (v->format == vpiBinStrVal) { buf = b; v->value.str = buf.data(); }
        else if (v->format == vpiHexStrVal) {
            while (b.size() % 4) b = "0" + b;
            buf.clear();
            for (size_t i = 0; i < b.size(); i += 4) {
                auto q = b.substr(i, 4);
                if (q.find_first_of("xX") != std::string::npos) buf += 'x';
                else if (q.find_first_of("zZ") != std::string::npos) buf += 'z';
                else { int n = 0; for (char c : q) n = n * 2 + (c == '1'); buf += "0123456789ABCDEF"[n]; }
            }
            v->value.str = buf.data();
        } else { buf = it == obj.end() ? "" : it->second.bits; v->value.str = buf.data(); }
    }
    PLI_INT32 vpi_get(PLI_INT32 p, vpiHandle h) override {
        auto it = obj.find(h);
        if (it == obj.end()) { foreign++; return vpiUndefined; }
        if (p == vpiType) return it->second.type;
        if (p == vpiSize) return it->second.elems.empty() ? int(it->second.width) : int(it->second.elems.size());
        if (p == vpiVector) return !it->second.elems.empty();
        return vpiUndefined;
    }
    vpiHandle iter(const std::vector<vpiHandle>& v) { if (v.empty()) return nullptr; auto h = fresh(); its[h] = {v, 0}; return h; }
    vpiHandle vpi_iterate(PLI_INT32 t, vpiHandle r) override {
        if (t == vpiModule) {
            if (!r) return iter(tops);
            std::vector<vpiHandle> v;
            for (auto k : obj[r].kids) if (obj[k].type == vpiModule) v.push_back(k);
            return iter(v);
        }
        if (t == vpiRange) return iter(obj[r].elems);
        std::vector<vpiHandle> v;
        if (obj.count(r)) for (auto k : obj[r].kids) if (obj[k].type == t) v.push_back(k);
        return iter(v);
    }
    vpiHandle vpi_scan(vpiHandle i) override {
        auto& [v, k] = its[i];
        if (k >= v.size()) { its.erase(i); return nullptr; }
        return v[k++];
    }
    char* vpi_get_str(PLI_INT32 p, vpiHandle h) override {
        buf.clear();
        auto it = obj.find(h);
        foreign += it == obj.end();
        if (it == obj.end()) return p == vpiFullName ? nullptr : buf.data();
        if (p == vpiDefName) buf = it->second.def;
        else if (p == vpiFullName) buf = it->second.full;
        else { auto q = it->second.full.rfind('.'); buf = q == std::string::npos ? it->second.full : it->second.full.substr(q + 1); }
        return buf.data();
    }
    uint64_t lookups = 0;
    vpiHandle vpi_handle_by_name(char* n, vpiHandle) override { lookups++; auto it = byname.find(n); return it == byname.end() ? nullptr : it->second; }
    vpiHandle vpi_handle_by_index(vpiHandle h, PLI_INT32 i) override {
        auto it = obj.find(h);
        return it == obj.end() || i < 0 || size_t(i) >= it->second.elems.size() ? nullptr : it->second.elems[size_t(i)];
    }
    PLI_INT32 vpi_get_vlog_info(p_vpi_vlog_info v) override { argp.clear(); for (auto& x : argv) argp.push_back(x.data()); v->argc = int(argp.size()); v->argv = argp.data(); v->product = product.data(); static char ver[] = "1"; v->version = ver; return 1; }
    void vpi_get_time(vpiHandle, p_vpi_time t) override { t->low = uint32_t(time); t->high = uint32_t(time >> 32); }
    vpiHandle vpi_register_cb(p_cb_data d) override {
        if (!cb_ok) return nullptr;
        if (d->obj && obj.count(d->obj) && cb_refuse.count(obj[d->obj].full)) return nullptr;
        auto h = fresh(); cbs[h].d = *d; return h;
    }
    PLI_INT32 vpi_remove_cb(vpiHandle h) override { if (cbs.count(h)) cbs[h].removed = true; return 1; }
    PLI_INT32 vpi_release_handle(vpiHandle) override { return 1; }
    PLI_INT32 vpi_control(PLI_INT32 op, ...) override { controls.push_back(op); return 1; }
    vpiHandle vpi_put_value(vpiHandle h, p_vpi_value v, p_vpi_time, PLI_INT32) override { put_count++; if (v->format == vpiIntVal) set(h, v->value.integer); return nullptr; }
    vpiHandle vpi_register_systf(p_vpi_systf_data) override { return nullptr; }
    vpiHandle vpi_handle(int, vpiHandle) override { return nullptr; }
    bool vpi_rewind(rewind_data* d) override {
        rewinds.push_back(d->time);
        rewind_clocks.push_back(d->clock_signals);
        if (!can_rewind || (bounded && !d->time)) return false;
        time = d->time >= rewind_step ? d->time - rewind_step : 0;
        return true;
    }
    bool has_defname() override { return defname; }
};

inline hgdb::BreakPoint copybp(const hgdb::BreakPoint& b) {
    hgdb::BreakPoint r;
    r.id = b.id;
    if (b.instance_id) r.instance_id = std::make_unique<uint32_t>(*b.instance_id);
    r.filename = b.filename; r.line_num = b.line_num; r.column_num = b.column_num; r.condition = b.condition; r.trigger = b.trigger;
    return r;
}

struct Sym : hgdb::SymbolTableProvider {
    std::map<uint32_t, hgdb::BreakPoint> bps;
    std::map<uint32_t, std::string> insts;
    std::vector<uint32_t> order;
    struct CV { std::string name, value; bool rtl; int type = 0; uint32_t depth = 0; };
    std::map<uint32_t, std::vector<CV>> ctx, gen;
    std::vector<std::string> clocks;
    std::map<std::string, std::vector<std::tuple<uint32_t, std::string, std::string>>> assigned;
    hgdb::BreakPoint& add(uint32_t id, uint32_t inst, const std::string& f, uint32_t l, uint32_t c = 0, const std::string& cond = "", const std::string& trig = "") {
        auto& b = bps[id];
        b.id = id; b.instance_id = std::make_unique<uint32_t>(inst); b.filename = f; b.line_num = l; b.column_num = c; b.condition = cond; b.trigger = trig;
        return b;
    }
    template <typename F>
    std::vector<hgdb::BreakPoint> sel(F f) { std::vector<hgdb::BreakPoint> r; for (auto& [i, b] : bps) if (f(b)) r.push_back(copybp(b)); return r; }
    std::vector<hgdb::BreakPoint> get_breakpoints(const std::string& f, uint32_t l) override { return sel([&](auto& b) { return b.filename == f && b.line_num == l; }); }
    std::vector<hgdb::BreakPoint> get_breakpoints(const std::string& f, uint32_t l, uint32_t c) override { return sel([&](auto& b) { return b.filename == f && b.line_num == l && (c == 0 || b.column_num == c); }); }
    std::vector<hgdb::BreakPoint> get_breakpoints(const std::string& f) override { return sel([&](auto& b) { return b.filename == f; }); }
    std::optional<hgdb::BreakPoint> get_breakpoint(uint32_t id) override { if (!bps.count(id)) return {}; return copybp(bps[id]); }
    std::optional<std::string> get_instance_name(uint32_t id) override { if (!insts.count(id)) return {}; return insts[id]; }
    std::optional<uint64_t> get_instance_id(const std::string& n) override { for (auto& [i, x] : insts) if (x == n) return i; return {}; }
    std::optional<uint64_t> get_instance_id(uint64_t bp) override { if (!bps.count(uint32_t(bp))) return {}; return *bps[uint32_t(bp)].instance_id; }
    std::vector<std::string> get_filenames() override { std::set<std::string> s; for (auto& [i, b] : bps) s.insert(b.filename); return {s.begin(), s.end()}; }
    std::vector<ContextVariableInfo> get_context_variables(uint32_t id) override {
        std::vector<ContextVariableInfo> r;
        if (ctx.count(id)) for (auto& v : ctx[id]) {
            hgdb::ContextVariable c; c.name = v.name; c.type = v.type; c.depth = v.depth;
            hgdb::Variable x; x.value = v.value; x.is_rtl = v.rtl;
            r.emplace_back(std::move(c), std::move(x));
        }
        return r;
    }
    std::vector<ContextVariableInfo> get_context_delayed_variables(uint32_t id) override {
        std::vector<ContextVariableInfo> r;
        if (ctx.count(id)) for (auto& v : ctx[id]) if (v.type == 1) {
            hgdb::ContextVariable c; c.name = v.name; c.type = v.type; c.depth = v.depth;
            hgdb::Variable x; x.value = v.value; x.is_rtl = v.rtl;
            r.emplace_back(std::move(c), std::move(x));
        }
        return r;
    }
    std::vector<GeneratorVariableInfo> get_generator_variable(uint32_t id) override {
        std::vector<GeneratorVariableInfo> r;
        if (gen.count(id)) for (auto& v : gen[id]) {
            hgdb::GeneratorVariable c; c.name = v.name;
            hgdb::Variable x; x.value = v.value; x.is_rtl = v.rtl;
            r.emplace_back(std::move(c), std::move(x));
        }
        return r;
    }
    std::vector<std::string> get_instance_names() override { std::vector<std::string> r; for (auto& [i, n] : insts) r.push_back(n); return r; }
    std::vector<std::string> get_annotation_values(const std::string& n) override { return n == "clock" ? clocks : std::vector<std::string>{}; }
    std::vector<std::string> get_all_array_names() override { return {}; }
    std::vector<std::tuple<uint32_t, std::string, std::string>> get_assigned_breakpoints(const std::string& v, uint32_t) override { return assigned.count(v) ? assigned[v] : std::vector<std::tuple<uint32_t, std::string, std::string>>{}; }
    std::vector<uint32_t> execution_bp_orders() override { return order; }
    bool bad() const override { return false; }
};
#endif
