// P02: responses are JSON messages that carry exactly what they were made from; local variables are listed in index order
#include "json.hh"
#include "proto.hh"
#include "scheduler.hh"
#include "fmt/format.h"
using hz::Rng;
using namespace hgdb;
using St = status_code;
static const std::vector<std::pair<RequestType, std::string>> kinds = {
    {RequestType::error, "error"}, {RequestType::breakpoint, "breakpoint"}, {RequestType::breakpoint_id, "breakpoint-id"}, {RequestType::connection, "connection"},
    {RequestType::bp_location, "bp-location"}, {RequestType::command, "command"}, {RequestType::debugger_info, "debugger-info"}, {RequestType::path_mapping, "path-mapping"},
    {RequestType::evaluation, "evaluation"}, {RequestType::option_change, "option-change"}, {RequestType::monitor, "monitor"}, {RequestType::set_value, "set-value"},
    {RequestType::symbol, "symbol"}, {RequestType::data_breakpoint, "data-breakpoint"}};
static J expect(const char* type, St st, const std::string& token, J payload) {
    J j = J::obj();
    j.add("request", J::of(false)).add("type", J::of(type)).add("status", J::of(st == St::success ? "success" : "error"));
    if (!token.empty()) j.add("token", J::of(token));
    return j.add("payload", std::move(payload));
}
static bool compare(Response& p, const J& want, Rng& r, J* out = nullptr) {
    for (bool pretty : {r.chance(50), r.chance(50)}) {
        auto t = p.str(pretty);
        J got;
        if (!hz::check(jparse(t, got), "not JSON: " + t)) return false;
        for (auto& [n, v] : got.o) { int c = 0; for (auto& [m, w] : got.o) c += m == n; if (!hz::check(c == 1, "member twice: " + t)) return false; }
        if (!hz::check(got == want, "got " + t + " want " + jtext(want))) return false;
        if (out) *out = got;
    }
    return true;
}
static std::string token(Rng& r, Response& p) {
    if (r.chance(40)) return "";
    auto t = word(r);
    p.set_token(t);
    return t;
}
// how names of variables are ordered: piece by piece, indices by value, before names
static std::vector<std::string> pieces(const std::string& s) {
    std::vector<std::string> v;
    std::string c;
    for (char x : s + ".") if (x == '.' || x == '[' || x == ']') { if (!c.empty()) v.push_back(c); c.clear(); } else c += x;
    return v;
}
static bool digits(const std::string& s) { return s.find_first_not_of("0123456789") == std::string::npos; }
static int order(const std::string& a, const std::string& b) {
    auto p = pieces(a), q = pieces(b);
    for (size_t i = 0; i < p.size() && i < q.size(); i++) {
        bool d = digits(p[i]), e = digits(q[i]);
        if (d != e) return d ? -1 : 1;
        auto x = p[i], y = q[i];
        if (d) { auto l = std::max(x.size(), y.size()); x.insert(0, l - x.size(), '0'); y.insert(0, l - y.size(), '0'); }
        if (x != y) return x < y ? -1 : 1;
    }
    return p.size() == q.size() ? 0 : p.size() < q.size() ? -1 : 1;
}
static std::string varname(Rng& r) {
    static const std::vector<std::string> w = {"a", "b", "arr", "io", "a1", "1a", "10b", "$x", "_t", "", "A", "a-b"};
    static const std::vector<std::string> d = {"0", "1", "2", "9", "10", "11", "99", "100", "01", "007", "18446744073709551615", "18446744073709551616", "340282366920938463463374607431768211456"};
    std::string s = r.pick(w);
    for (int i = int(r.below(4)); i > 0; i--) switch (r.below(4)) { case 0: s += "[" + r.pick(d) + "]"; break; case 1: s += "." + r.pick(d); break; default: s += "." + r.pick(w); }
    return s;
}
static void names(Rng& r) {
    BreakPointResponse::LocalVarNameCompare lt;
    auto a = varname(r), b = varname(r);
    if (r.chance(30)) { b = a; if (!b.empty()) b += r.chance(50) ? ".1" : "[2]"; }
    hz::input("order of " + a + " and " + b);
    hz::check(lt(a, b) == (order(a, b) < 0) && lt(b, a) == (order(a, b) > 0), "order of the names");
}
static void stopped(Rng& r) {
    uint64_t t = r.next() >> r.below(64), ln = r.next() >> r.below(64), cn = r.below(100);
    auto f = word(r);
    BreakPointResponse p(t, f, ln, cn);
    J pay = J::obj();
    pay.add("time", J::u(t)).add("filename", J::of(f)).add("line_num", J::u(ln)).add("column_num", J::u(cn));
    J insts = J::arr();
    std::vector<std::vector<std::string>> lists;
    hz::input(fmt::format("BreakPointResponse({}, {}, {}, {})", t, f, ln, cn));
    for (int i = int(r.below(4)); i > 0; i--) {
        uint64_t id = r.next() >> r.below(64), bid = r.below(50), ns = r.below(3);
        auto nm = word(r);
        BreakPointResponse::Scope s(id, nm, bid, ns);
        J e = J::obj();
        e.add("instance_id", J::u(id)).add("instance_name", J::of(nm)).add("breakpoint_id", J::u(bid)).add("namespace_id", J::u(ns));
        std::vector<std::pair<std::string, std::string>> l;
        for (int k = int(r.below(9)); k > 0; k--) {
            auto n = varname(r), v = word(r);
            hz::more("; local " + n + "=" + v);
            s.add_local_value(n, v);
            bool known = false;
            for (auto& x : l) if (!order(x.first, n)) { x.second = v; known = true; }   // later values replace
            if (!known) l.emplace_back(n, v);
        }
        std::sort(l.begin(), l.end(), [](auto& a, auto& b) { return order(a.first, b.first) < 0; });
        J lo = J::obj(), ge = J::obj();
        std::vector<std::string> ls;
        for (auto& [n, v] : l) { lo.add(n, J::of(v)); ls.push_back(n); }
        lists.push_back(ls);
        for (int k = int(r.below(4)); k > 0; k--) { auto n = varname(r), v = word(r); hz::more("; generator " + n + "=" + v); s.add_generator_value(n, v); if (!ge.get(n)) ge.add(n, J::of(v)); }
        e.add("local", lo).add("generator", ge);
        if (r.chance(40)) { s.bp_type = word(r); if (!s.bp_type.empty()) e.add("bp_type", J::of(s.bp_type)); }
        p.add_scope(s);
        insts.a.push_back(e);
    }
    pay.add("instances", insts);
    auto k = token(r, p);
    J got;
    if (!compare(p, expect("breakpoint", St::success, k, pay), r, &got)) return;
    for (size_t i = 0; i < lists.size(); i++) {
        std::vector<std::string> g;
        for (auto& [n, v] : got.get("payload")->get("instances")->a[i].get("local")->o) g.push_back(n);
        hz::check(g == lists[i], "order in which the local variables are listed");
    }
}
struct AnyRequest : Request { RequestType t; AnyRequest(RequestType t, std::string k) : t(t) { token_ = std::move(k); } RequestType type() const override { return t; } void parse_payload(const std::string&) override {} };
static void generic(Rng& r) {
    auto [t, n] = r.pick(kinds);
    auto st = r.chance(50) ? St::success : St::error;
    auto why = word(r), tok = r.chance(30) ? std::string() : word(r);
    bool withreq = r.chance(60);
    hz::input(fmt::format("GenericResponse({}, {}, {}) token {}", st == St::success ? "success" : "error", n, why, tok));
    AnyRequest rq(t, tok);
    GenericResponse p = withreq ? GenericResponse(st, rq, why) : GenericResponse(st, t, why);
    if (!withreq) { if (r.chance(50)) p.set_token(tok); else rq.set_token(p); }
    J pay = J::obj();
    pay.add("request-type", J::of(n));
    if (st == St::error) pay.add("reason", J::of(why));
    for (int i = int(r.below(4)); i > 0; i--) {
        auto m = "v" + std::to_string(r.below(6));
        hz::more("; set " + m);
        bool known = pay.get(m);
        if (known) continue;
        switch (r.below(4)) {
            case 0: { bool b = r.chance(50); p.set_value(m, b); pay.add(m, J::of(b)); break; }
            case 1: { auto v = r.value(); p.set_value(m, v); pay.add(m, J::i(v)); break; }
            case 2: { auto v = uint32_t(r.next()); p.set_value(m, v); pay.add(m, J::u(v)); break; }
            default: { auto v = word(r); p.set_value(m, v); pay.add(m, J::of(v)); break; }
        }
    }
    compare(p, expect("generic", st, tok, pay), r);
}
static void others(Rng& r) {
    switch (r.below(5)) {
        case 0: {
            std::vector<std::unique_ptr<BreakPoint>> own;
            std::vector<BreakPoint*> v;
            J a = J::arr();
            for (int i = int(r.below(5)); i > 0; i--) {
                own.push_back(std::make_unique<BreakPoint>());
                auto& b = *own.back();
                b.id = uint32_t(r.next() >> r.below(64)); b.filename = word(r); b.line_num = uint32_t(r.next() >> r.below(64)); b.column_num = uint32_t(r.below(100));
                v.push_back(&b);
                a.a.push_back(J::obj().add("id", J::u(b.id)).add("filename", J::of(b.filename)).add("line_num", J::u(b.line_num)).add("column_num", J::u(b.column_num)));
            }
            BreakPointLocationResponse p(v);
            auto k = token(r, p);
            hz::input("locations " + jtext(a));
            compare(p, expect("bp-location", St::success, k, a), r);
            break;
        }
        case 1: {
            auto s = word(r);
            EvaluationResponse p(s);
            auto k = token(r, p);
            hz::input("evaluation " + s);
            compare(p, expect("evaluation", St::success, k, J::obj().add("result", J::of(s))), r);
            break;
        }
        case 2: {
            uint64_t a = r.next() >> r.below(64), b = r.next() >> r.below(64);
            auto s = word(r);
            MonitorResponse p(a, b, s);
            auto k = token(r, p);
            hz::input(fmt::format("monitor {} {} {}", a, b, s));
            compare(p, expect("monitor", St::success, k, J::obj().add("track_id", J::u(a)).add("namespace_id", J::u(b)).add("value", J::of(s))), r);
            break;
        }
        case 3: {
            int w = int(r.below(5));
            std::unique_ptr<DebuggerInformationResponse> p;
            J pay = J::obj();
            std::vector<std::unique_ptr<DebugBreakPoint>> own;
            if (w == 0) {
                std::vector<const DebugBreakPoint*> v;
                J a = J::arr();
                for (int i = int(r.below(4)); i > 0; i--) {
                    own.push_back(std::make_unique<DebugBreakPoint>());
                    auto& b = *own.back();
                    uint32_t ty = uint32_t(r.range(1, 7));
                    b.id = uint32_t(r.next()); b.filename = word(r); b.line_num = uint32_t(r.below(1000)); b.column_num = uint32_t(r.below(9)); b.target_rtl_var_name = word(r); b.type = DebugBreakPoint::Type(ty);
                    v.push_back(&b);
                    J e = J::obj();
                    e.add("id", J::u(b.id)).add("filename", J::of(b.filename)).add("line_num", J::u(b.line_num)).add("column_num", J::u(b.column_num)).add("type", J::u(ty));
                    if (!b.target_rtl_var_name.empty()) e.add("var", J::of(b.target_rtl_var_name));
                    a.a.push_back(e);
                }
                p = std::make_unique<DebuggerInformationResponse>(v);
                pay.add("command", J::of("breakpoints")).add("breakpoints", a);
            } else if (w == 1) {
                auto s = word(r);
                p = std::make_unique<DebuggerInformationResponse>(s);
                pay.add("command", J::of("status")).add("status", J::of(s));
            } else if (w == 2) {
                std::map<std::string, std::string> m;
                J o = J::obj();
                static const std::vector<std::string> vs = {"true", "false", "", "0", "1", "12", "007", "9223372036854775807", "9223372036854775808", "99999999999999999999", "-1", "1a", "text", "True", " 5"};
                for (int i = int(r.below(6)); i > 0; i--) {
                    auto n = word(r), v = r.pick(vs);
                    if (!m.emplace(n, v).second) continue;
                    bool num = !v.empty() && digits(v) && v.size() < 20 && (v.size() < 19 || v <= "9223372036854775807");
                    o.add(n, v == "true" ? J::of(true) : v == "false" ? J::of(false) : num ? J::u(strtoull(v.c_str(), nullptr, 10)) : J::of(v));
                }
                p = std::make_unique<DebuggerInformationResponse>(m);
                pay.add("command", J::of("options")).add("options", o);
            } else if (w == 3) {
                std::map<std::string, std::map<std::string, uint32_t>> d;
                J o = J::obj();
                for (int i = int(r.below(4)); i > 0; i--) { auto n = word(r); for (int k = int(r.below(3)); k >= 0; k--) d[n][word(r)] = uint32_t(r.next()); }
                for (auto& [n, m] : d) { J e = J::obj(); for (auto& [a, b] : m) e.add(a, J::u(b)); o.add(n, e); }
                p = std::make_unique<DebuggerInformationResponse>(d);
                pay.add("command", J::of("design")).add("design", o);
            } else {
                std::vector<std::string> v;
                J a = J::arr();
                for (int i = int(r.below(5)); i > 0; i--) { v.push_back(word(r)); a.a.push_back(J::of(v.back())); }
                p = std::make_unique<DebuggerInformationResponse>(v);
                pay.add("command", J::of("filename")).add("filenames", a);
            }
            auto k = token(r, *p);
            hz::input("debugger-info " + jtext(pay));
            compare(*p, expect("debugger-info", St::success, k, pay), r);
            break;
        }
        default: {
            // what is asked of a symbol table server, and how such a server reads it
            using T = SymbolRequest::request_type;
            static const std::vector<std::pair<T, std::string>> ts = {{T::get_breakpoint, "get_breakpoint"}, {T::get_breakpoints, "get_breakpoints"}, {T::get_instance_name, "get_instance_name"}, {T::get_instance_id, "get_instance_id"}, {T::get_context_variables, "get_context_variables"}, {T::get_generator_variables, "get_generator_variables"}, {T::get_instance_names, "get_instance_names"}, {T::get_annotation_values, "get_annotation_values"}, {T::get_all_array_names, "get_all_array_names"}, {T::get_filenames, "get_filenames"}, {T::get_execution_bp_orders, "get_execution_bp_orders"}, {T::get_assigned_breakpoints, "get_assigned_breakpoints"}};
            auto [t, n] = r.pick(ts);
            SymbolRequest q(t);
            q.instance_id = uint32_t(r.next() >> r.below(32)); q.breakpoint_id = uint32_t(r.next() >> r.below(32)); q.filename = word(r); q.line_num = uint32_t(r.next()); q.column_num = uint32_t(r.below(9)); q.instance_name = r.chance(50) ? word(r) : ""; q.name = word(r);
            J p = J::obj();
            p.add("type", J::of(n));
            switch (t) {
                case T::get_breakpoints: p.add("filename", J::of(q.filename)).add("line_num", J::u(q.line_num)).add("col_num", J::u(q.column_num)); break;
                case T::get_instance_name: case T::get_generator_variables: p.add("instance_id", J::u(q.instance_id)); break;
                case T::get_breakpoint: case T::get_context_variables: p.add("breakpoint_id", J::u(q.breakpoint_id)); break;
                case T::get_instance_id: if (q.instance_name.empty()) p.add("breakpoint_id", J::u(q.breakpoint_id)); else p.add("instance_name", J::of(q.instance_name)); break;
                case T::get_annotation_values: p.add("name", J::of(q.name)); break;
                case T::get_assigned_breakpoints: p.add("name", J::of(q.name)).add("breakpoint_id", J::u(q.breakpoint_id)); break;
                default: break;
            }
            J want = J::obj(), got;
            want.add("request", J::of(true)).add("type", J::of("symbol")).add("payload", p);
            hz::input("symbol request " + jtext(want));
            auto text = q.str();
            if (!hz::check(jparse(text, got) && got == want, "got " + text)) return;
            SymbolRequest b(r.pick(ts).first);
            b.parse_payload(jtext(p, &r));
            hz::check(b.req_type() == t, "type of the symbol request");
            auto has = [&](const char* m) { return p.get(m) != nullptr; };
            hz::check((!has("filename") || b.filename == q.filename) && (!has("line_num") || b.line_num == q.line_num) && (!has("col_num") || b.column_num == q.column_num) && (!has("instance_id") || b.instance_id == q.instance_id) &&
                      (!has("breakpoint_id") || b.breakpoint_id == q.breakpoint_id) && (!has("instance_name") || b.instance_name == q.instance_name) && (!has("name") || b.name == q.name), "what the symbol request asks for");
        }
    }
}
int main(int c, char** v) { return hz::main_(c, v, {{"names", names, 1}, {"stopped", stopped, 2}, {"generic", generic, 1}, {"others", others, 2}}); }
