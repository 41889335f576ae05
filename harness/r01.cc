// R01: what is read from and written to the simulator, for signals and for slices of them
#include "hz.hh"
#include "mock.hh"
#include "rtl.hh"
using hz::Rng;
static std::string strip(std::string s) {   // leading zeros carry nothing
    if (s.rfind("0x", 0) == 0) s = s.substr(2);
    size_t i = 0;
    while (i + 1 < s.size() && s[i] == '0') i++;
    s = s.substr(i);
    for (auto& c : s) c = char(toupper(c));
    return s;
}
static std::string rbits(Rng& r, uint32_t w) {
    std::string s;
    unsigned unk = r.chance(70) ? 0 : 30, one = unsigned(r.range(0, 100));
    for (uint32_t i = 0; i < w; i++) s += r.chance(unk) ? "xzXZ"[r.below(4)] : r.chance(one) ? '1' : '0';
    return s;
}
static std::string hexof(std::string b) {
    while (b.size() % 4) b = "0" + b;
    std::string o;
    for (size_t i = 0; i < b.size(); i += 4) {
        auto q = b.substr(i, 4);
        if (q.find_first_of("xX") != std::string::npos) o += 'X';
        else if (q.find_first_of("zZ") != std::string::npos) o += 'Z';
        else { int n = 0; for (char c : q) n = n * 2 + (c == '1'); o += "0123456789ABCDEF"[n]; }
    }
    return o;
}
static void reads(Rng& r) {
    auto v = std::make_shared<Vpi>();
    v->product = r.chance(20) ? "Verilator" : r.chance(50) ? "RTLMock" : "Sim";
    bool ver = v->product == "Verilator";
    v->module("top", "tb");
    v->module("dut", "tb.dut");
    std::vector<std::string> names;
    std::map<std::string, vpiHandle> hs;
    for (int i = 0; i < 4; i++) {
        auto n = std::string("tb.dut.s") + char('0' + i);
        static const std::vector<int64_t> ws = {1, 2, 4, 8, 31, 32, 33, 63, 64, 65, 128};
        auto h = v->signal(n, uint32_t(r.chance(50) ? r.pick(ws) : r.range(1, 140)), r.chance(50) ? vpiNet : vpiReg);
        names.push_back("dut.s" + std::to_string(i));
        hs[names.back()] = h;
    }
    auto mem = v->signal("tb.dut.mem", uint32_t(r.range(1, 70)));
    auto el = v->array(mem, 3, false);
    for (int i = 0; i < 3; i++) { names.push_back("dut.mem[" + std::to_string(i) + "]"); hs[names.back()] = el[size_t(i)]; }
    for (auto& n : names) v->obj[hs[n]].bits = rbits(r, v->obj[hs[n]].width);
    hgdb::RTLSimulatorClient rtl(v);
    rtl.set_mapping("dut", "tb.dut.");
    hz::input("");
    std::map<std::string, vpiHandle> seen;
    std::map<vpiHandle, std::string> who;
    for (auto k = r.range(3, 25); k > 0; k--) {
        auto n = r.pick(names);
        auto& o = v->obj[hs[n]];
        if (r.chance(20)) { o.bits = rbits(r, o.width); hz::more("; " + n + "=" + o.bits); }
        bool slice = r.chance(65);
        std::string full = n, b = o.bits;
        uint64_t hi = o.width - 1, lo = 0;
        if (slice) {
            auto pick = [&]() -> uint64_t {
                static const std::vector<int64_t> ed = {0, 1, 30, 31, 32, 33, 62, 63, 64, 65};
                return uint64_t(r.chance(40) ? r.pick(ed) : r.chance(80) ? r.range(0, o.width - 1) : r.range(0, o.width + 80));
            };
            hi = pick(); lo = r.chance(20) ? hi : pick();
            full += "[" + std::to_string(hi) + ":" + std::to_string(lo) + "]";
            if (hi < lo) std::swap(hi, lo);
            std::string ext = std::string(hi + 1 > b.size() ? hi + 1 - b.size() : 0, '0') + b;
            b = ext.substr(ext.size() - 1 - hi, hi - lo + 1);
        }
        hz::more("; " + full + " of " + o.bits);
        auto* h = rtl.get_handle(full);
        if (!hz::check(h != nullptr, "does not resolve")) return;
        if (seen.count(full) && !hz::check(seen[full] == h, "another handle for the same name")) return;
        seen[full] = h;
        if (slice) {
            if (!hz::check(!v->obj.count(h), "the slice is a handle of the simulator")) return;
            if (!hz::check(!who.count(h) || who[h] == full, "two slices share a handle")) return;
            who[h] = full;
        } else if (!hz::check(h == hs[n], "resolves to another signal")) return;
        if (!hz::check(rtl.is_valid_signal(full), "not a signal")) return;
        auto w = rtl.get_signal_width(h);
        if (!hz::check(w && *w == hi - lo + 1, "width")) return;
        auto val = r.chance(50) ? rtl.get_value(full) : rtl.get_value(h);
        if (ver && hi - lo + 1 > 64) hz::check(!val, "integer value of a signal too wide for Verilator");
        else {
            if (!hz::check(bool(val), "no value")) return;
            uint64_t want = 0;
            if (slice) { for (char c : b) want = want * 2 + (c == '1'); }
            else { uint32_t x = 0; for (char c : b) x = x * 2 + (c == '1'); want = uint64_t(int64_t(int32_t(x))); }
            if (!hz::same("value", *val, int64_t(want))) return;
        }
        auto s = r.chance(50) ? rtl.get_str_value(full) : rtl.get_str_value(h);
        if (!hz::check(bool(s), "no text value")) return;
        if (!hz::check((s->rfind("0x", 0) == 0) == (hi - lo + 1 > 1), "0x prefix of " + *s)) return;
        if (!hz::same("text value", strip(*s), strip(hexof(b)))) return;
        if (!hz::check(v->foreign == 0, "the simulator was asked about a handle that is not its own")) return;
        if (r.chance(25)) {
            int64_t nv = r.range(-5, 300);
            auto puts = v->put_count;
            auto ob = o.bits;
            hz::more("; set " + full + " to " + std::to_string(nv));
            bool ok = r.chance(50) ? rtl.set_value(full, nv) : rtl.set_value(h, nv);
            if (slice) { if (!hz::check(!ok && v->put_count == puts && o.bits == ob, "a slice was set")) return; }
            else {
                if (!hz::check(ok && v->put_count == puts + 1, "set")) return;
                if (!hz::check(o.bits == Vpi::tobits(uint64_t(nv), std::min<uint32_t>(o.width, 64)), "value that was set")) return;
                if (o.bits.size() < o.width) o.bits = std::string(o.width - o.bits.size(), '0') + o.bits;
            }
        }
        // not slices
        static const std::vector<std::string> bad = {"[:]", "[1:]", "[:1]", "[1:2:3]", "[a:0]", "[-1:0]", "[4294967296:0]", "[99999999999999999999:0]", "[0:-1]", "[3000000000:2999999999]"};
        if (r.chance(20)) { auto t = n + r.pick(bad); hz::more("; " + t); if (!hz::check(!rtl.is_valid_signal(t) && !rtl.get_value(t) && !rtl.get_str_value(t) && !rtl.set_value(t, 1), t + " is a signal")) return; }
        if (r.chance(5)) if (!hz::check(!rtl.is_valid_signal("dut[1:0]") && !rtl.get_value("dut.nosuch[1:0]") && !rtl.get_value("dut.nosuch"), "slice of something else")) return;
    }
}
int main(int c, char** v) { return hz::main_(c, v, {{"reads", reads}}); }
