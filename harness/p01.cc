// P01: any bytes from a client are read as the request they spell, or as an error that keeps the token
#include "json.hh"
#include "proto.hh"
#include "fmt/format.h"
using hz::Rng;
using namespace hgdb;
using St = status_code;

// one member, as the request type wants it
struct F { std::string name; char t; };   // s u(32) U(64) i m(map)
static bool fits(const J* v, char t) {
    if (!v) return false;
    switch (t) {
        case 's': return v->k == J::Str;
        case 'u': return v->u32();
        case 'U': return v->u64();
        case 'i': return v->i64();
        case 'm': if (v->k != J::Obj) return false; for (auto& [n, x] : v->o) if (x.k != J::Str) return false; return true;
    }
    return false;
}
static std::string S(const J* v, const std::string& d = "") { return fits(v, 's') ? v->s : d; }
static uint64_t U32(const J* v) { return fits(v, 'u') ? v->mag : 0; }
static std::optional<uint64_t> O64(const J* v) { return fits(v, 'U') ? std::optional<uint64_t>(v->mag) : std::nullopt; }
static std::optional<uint64_t> O32(const J* v) { return fits(v, 'u') ? std::optional<uint64_t>(v->mag) : std::nullopt; }
static std::map<std::string, std::string> M(const J* v) { std::map<std::string, std::string> m; if (fits(v, 'm')) for (auto& [n, x] : v->o) m.emplace(n, x.s); return m; }
template <typename A, typename B>
static bool opt(const char* what, const A& a, const B& b) { return hz::check(a.has_value() == b.has_value() && (!a || uint64_t(*a) == uint64_t(*b)), std::string("member ") + what); }

static const std::map<std::string, RequestType> types = {
    {"breakpoint", RequestType::breakpoint}, {"breakpoint-id", RequestType::breakpoint_id}, {"connection", RequestType::connection},
    {"bp-location", RequestType::bp_location}, {"command", RequestType::command}, {"debugger-info", RequestType::debugger_info},
    {"path-mapping", RequestType::path_mapping}, {"evaluation", RequestType::evaluation}, {"option-change", RequestType::option_change},
    {"monitor", RequestType::monitor}, {"set-value", RequestType::set_value}, {"data-breakpoint", RequestType::data_breakpoint}};

static bool verdict(Request& q, bool ok) { return hz::check((q.status() == St::success) == ok, ok ? "a well-formed request is an error" : "a malformed request is not an error") && ok; }

static void judge(const J* msg, Request* q) {
    if (!hz::check(q, "no request at all")) return;
    const J *tok = msg ? msg->get("token") : nullptr, *rq = msg ? msg->get("request") : nullptr, *ty = msg ? msg->get("type") : nullptr, *p = msg ? msg->get("payload") : nullptr;
    hz::same("token", q->get_token(), tok && tok->k == J::Str ? tok->s : std::string());
    auto it = ty && ty->k == J::Str ? types.find(ty->s) : types.end();
    if (!rq || rq->k != J::Bool || !rq->b || it == types.end() || !p) {
        hz::check(q->status() == St::error && q->type() == RequestType::error, "not a request, but not an error either");
        return;
    }
    if (!hz::check(q->type() == it->second, "type of the request")) return;
    auto g = [&](const char* n) { return p->get(n); };
    auto is = [&](const J* v, std::initializer_list<const char*> l) { if (v && v->k == J::Str) for (auto* x : l) if (v->s == x) return true; return false; };
    switch (it->second) {
        case RequestType::breakpoint: {
            auto& b = dynamic_cast<BreakPointRequest&>(*q);
            bool ok = fits(g("filename"), 's') && is(g("action"), {"add", "remove"}) && (g("action")->s == "remove" || fits(g("line_num"), 'u'));
            if (!verdict(*q, ok)) return;
            hz::same("filename", b.breakpoint().filename, g("filename")->s);
            hz::same("line_num", uint64_t(b.breakpoint().line_num), U32(g("line_num")));
            hz::same("column_num", uint64_t(b.breakpoint().column_num), U32(g("column_num")));
            hz::same("condition", b.breakpoint().condition, S(g("condition")));
            hz::check(b.bp_action() == (g("action")->s == "add" ? BreakPointRequest::action::add : BreakPointRequest::action::remove), "action");
            break;
        }
        case RequestType::breakpoint_id: {
            auto& b = dynamic_cast<BreakPointIDRequest&>(*q);
            if (!verdict(*q, fits(g("id"), 'u') && is(g("action"), {"add", "remove"}))) return;
            hz::same("id", uint64_t(b.breakpoint().id), g("id")->mag);
            hz::same("condition", b.breakpoint().condition, S(g("condition")));
            hz::check(b.bp_action() == (g("action")->s == "add" ? BreakPointRequest::action::add : BreakPointRequest::action::remove), "action");
            break;
        }
        case RequestType::connection: {
            auto& b = dynamic_cast<ConnectionRequest&>(*q);
            if (!verdict(*q, fits(g("db_filename"), 's'))) return;
            hz::same("db_filename", b.db_filename(), g("db_filename")->s);
            hz::check(b.path_mapping() == M(g("path-mapping")), "path-mapping");
            break;
        }
        case RequestType::bp_location: {
            auto& b = dynamic_cast<BreakPointLocationRequest&>(*q);
            if (!verdict(*q, fits(g("filename"), 's'))) return;
            hz::same("filename", b.filename(), g("filename")->s);
            opt("line_num", b.line_num(), O64(g("line_num")));
            opt("column_num", b.column_num(), O64(g("column_num")));
            break;
        }
        case RequestType::command: {
            auto& b = dynamic_cast<CommandRequest&>(*q);
            using C = CommandRequest::CommandType;
            static const std::map<std::string, C> cs = {{"continue", C::continue_}, {"step_over", C::step_over}, {"step_back", C::step_back}, {"stop", C::stop}, {"reverse_continue", C::reverse_continue}, {"jump", C::jump}};
            auto* c = g("command");
            bool ok = c && c->k == J::Str && cs.count(c->s) && (c->s != "jump" || fits(g("time"), 'U'));
            if (!verdict(*q, ok)) return;
            hz::check(b.command_type() == cs.at(c->s), "command");
            if (c->s == "jump") hz::same("time", uint64_t(b.time()), g("time")->mag);
            break;
        }
        case RequestType::debugger_info: {
            auto& b = dynamic_cast<DebuggerInformationRequest&>(*q);
            using C = DebuggerInformationRequest::CommandType;
            static const std::map<std::string, C> cs = {{"breakpoints", C::breakpoints}, {"status", C::status}, {"options", C::options}, {"design", C::design}, {"filename", C::filename}};
            auto* c = g("command");
            if (!verdict(*q, c && c->k == J::Str && cs.count(c->s))) return;
            hz::check(b.command_type() == cs.at(c->s), "command");
            break;
        }
        case RequestType::path_mapping: {
            auto& b = dynamic_cast<PathMappingRequest&>(*q);
            if (!verdict(*q, fits(g("path-mapping"), 'm'))) return;
            hz::check(b.path_mapping() == M(g("path-mapping")), "path-mapping");
            break;
        }
        case RequestType::evaluation: {
            auto& b = dynamic_cast<EvaluationRequest&>(*q);
            if (!verdict(*q, fits(g("expression"), 's'))) return;
            hz::same("expression", b.expression(), g("expression")->s);
            opt("breakpoint_id", b.breakpoint_id(), O32(g("breakpoint_id")));
            opt("instance_id", b.instance_id(), O32(g("instance_id")));
            opt("namespace_id", b.namespace_id(), O64(g("namespace_id")));
            break;
        }
        case RequestType::option_change: {
            auto& b = dynamic_cast<OptionChangeRequest&>(*q);
            bool ok = p->k == J::Obj;
            std::map<std::string, bool> mb; std::map<std::string, int64_t> mi; std::map<std::string, std::string> ms;
            if (ok) for (auto& [n, v] : p->o) {
                if (v.k == J::Bool) mb.emplace(n, v.b);
                else if (v.i64()) mi.emplace(n, v.i64v());
                else if (v.k == J::Str) ms.emplace(n, v.s);
                else ok = false;
            }
            if (!verdict(*q, ok)) return;
            hz::check(b.bool_values() == mb && b.int_values() == mi && b.str_values() == ms, "options");
            break;
        }
        case RequestType::monitor: {
            auto& b = dynamic_cast<MonitorRequest&>(*q);
            using T = MonitorRequest::MonitorType;
            static const std::map<std::string, T> ts = {{"breakpoint", T::breakpoint}, {"clock_edge", T::clock_edge}, {"changed", T::changed}};
            bool ok = is(g("action_type"), {"add", "remove"});
            bool add = ok && g("action_type")->s == "add";
            auto* mt = g("monitor_type");
            if (ok) ok = add ? mt && mt->k == J::Str && ts.count(mt->s) && fits(g("var_name"), 's') : fits(g("track_id"), 'U');
            if (!verdict(*q, ok)) return;
            hz::check(b.action_type() == (add ? MonitorRequest::ActionType::add : MonitorRequest::ActionType::remove), "action_type");
            opt("namespace_id", b.namespace_id(), O64(g("namespace_id")));
            if (add) {
                hz::check(b.monitor_type() == ts.at(mt->s), "monitor_type");
                hz::same("var_name", b.var_name(), g("var_name")->s);
                opt("instance_id", b.instance_id(), O64(g("instance_id")));
                opt("breakpoint_id", b.breakpoint_id(), O64(g("breakpoint_id")));
            } else hz::same("track_id", uint64_t(b.track_id()), g("track_id")->mag);
            break;
        }
        case RequestType::set_value: {
            auto& b = dynamic_cast<SetValueRequest&>(*q);
            if (!verdict(*q, fits(g("var_name"), 's') && fits(g("value"), 'i'))) return;
            hz::same("var_name", b.var_name(), g("var_name")->s);
            hz::same("value", b.value(), g("value")->i64v());
            opt("instance_id", b.instance_id(), O64(g("instance_id")));
            opt("breakpoint_id", b.breakpoint_id(), O64(g("breakpoint_id")));
            opt("namespace_id", b.namespace_id(), O64(g("namespace_id")));
            break;
        }
        case RequestType::data_breakpoint: {
            auto& b = dynamic_cast<DataBreakpointRequest&>(*q);
            using A = DataBreakpointRequest::Action;
            static const std::map<std::string, A> as = {{"add", A::add}, {"clear", A::clear}, {"remove", A::remove}, {"info", A::info}};
            auto* a = g("action");
            bool ok = a && a->k == J::Str && as.count(a->s);
            A act = ok ? as.at(a->s) : A::add;
            if (ok && act != A::clear) ok = fits(g("breakpoint-id"), 'U') && (act == A::remove || fits(g("var_name"), 's'));
            if (!verdict(*q, ok)) return;
            hz::check(b.action() == act, "action");
            opt("namespace_id", b.namespace_id(), O64(g("namespace_id")));
            if (act != A::clear) hz::same("breakpoint-id", uint64_t(b.breakpoint_id()), g("breakpoint-id")->mag);
            if (act == A::add || act == A::info) {
                hz::same("var_name", b.var_name(), g("var_name")->s);
                hz::same("condition", b.condition(), S(g("condition")));
            }
            break;
        }
        default: break;
    }
}

static J typed(Rng& r, char t) {
    switch (t) {
        case 's': return J::of(word(r));
        case 'u': return J::u(r.chance(10) ? UINT32_MAX : r.chance(70) ? r.below(1000) : uint32_t(r.next()));
        case 'U': return J::u(r.chance(10) ? UINT64_MAX : r.chance(60) ? r.below(1000) : r.next() >> r.below(64));
        case 'i': return J::i(r.value());
        default: { J j = J::obj(); for (int i = int(r.below(4)); i > 0; i--) j.add(word(r), J::of(word(r))); return j; }
    }
}
static J payload(Rng& r, const std::string& t) {
    static const std::map<std::string, std::vector<F>> fs = {
        {"breakpoint", {{"filename", 's'}, {"action", 's'}, {"line_num", 'u'}, {"column_num", 'u'}, {"condition", 's'}}},
        {"breakpoint-id", {{"id", 'u'}, {"action", 's'}, {"condition", 's'}}},
        {"connection", {{"db_filename", 's'}, {"path-mapping", 'm'}}},
        {"bp-location", {{"filename", 's'}, {"line_num", 'U'}, {"column_num", 'U'}}},
        {"command", {{"command", 's'}, {"time", 'U'}}},
        {"debugger-info", {{"command", 's'}}},
        {"path-mapping", {{"path-mapping", 'm'}}},
        {"evaluation", {{"expression", 's'}, {"breakpoint_id", 'u'}, {"instance_id", 'u'}, {"namespace_id", 'U'}}},
        {"monitor", {{"action_type", 's'}, {"monitor_type", 's'}, {"var_name", 's'}, {"instance_id", 'U'}, {"breakpoint_id", 'U'}, {"track_id", 'U'}, {"namespace_id", 'U'}}},
        {"set-value", {{"var_name", 's'}, {"value", 'i'}, {"instance_id", 'U'}, {"breakpoint_id", 'U'}, {"namespace_id", 'U'}}},
        {"data-breakpoint", {{"action", 's'}, {"var_name", 's'}, {"breakpoint-id", 'U'}, {"condition", 's'}, {"namespace_id", 'U'}}}};
    static const std::map<std::string, std::vector<std::string>> words = {
        {"action", {"add", "remove", "clear", "info", "Add", "remove_all", ""}}, {"action_type", {"add", "remove", "added", ""}},
        {"monitor_type", {"breakpoint", "clock_edge", "changed", "data", ""}},
        {"command", {"continue", "step_over", "stop", "step_back", "reverse_continue", "jump", "breakpoints", "status", "options", "design", "filename", "step", ""}}};
    if (r.chance(4)) return jany(r);
    auto it = fs.find(t);
    if (it == fs.end()) { J j = jany(r, 1); if (r.chance(80)) { j = J::obj(); for (int i = int(r.below(5)); i > 0; i--) j.add(word(r), r.chance(15) ? jany(r) : r.chance(40) ? J::of(r.chance(50)) : r.chance(50) ? J::i(r.value()) : J::of(word(r))); } return j; }
    J p = J::obj();
    for (auto& f : it->second) {
        if (r.chance(12)) continue;
        J v = typed(r, f.t);
        if (words.count(f.name) && r.chance(96)) v = J::of(r.pick(words.at(f.name)));
        if (r.chance(7)) v = r.chance(50) ? jnum(r) : jany(r, 1);
        if (f.t == 'm' && r.chance(10)) v.add(word(r), jany(r, 0)), v.k = J::Obj;
        p.add(f.name, v);
        if (r.chance(3)) p.add(f.name, jany(r, 0));
    }
    if (r.chance(20)) p.add(word(r), jany(r));
    for (size_t i = p.o.size(); i > 1; i--) std::swap(p.o[i - 1], p.o[r.below(i)]);
    return p;
}
static J message(Rng& r) {
    if (r.chance(2)) return jany(r);
    std::vector<std::string> ts;
    for (auto& [n, x] : types) ts.push_back(n);
    auto t = r.chance(96) ? r.pick(ts) : r.chance(30) ? std::string("symbol") : word(r);
    J m = J::obj();
    if (!r.chance(3)) m.add("request", r.chance(95) ? J::of(true) : r.chance(50) ? J::of(false) : jany(r));
    if (!r.chance(3)) m.add("type", r.chance(97) ? J::of(t) : jany(r));
    if (!r.chance(3)) m.add("payload", payload(r, t));
    if (r.chance(60)) m.add("token", r.chance(85) ? J::of(word(r)) : jany(r));
    if (r.chance(10)) m.add(word(r), jany(r));
    for (size_t i = m.o.size(); i > 1; i--) std::swap(m.o[i - 1], m.o[r.below(i)]);
    return m;
}
static void requests(Rng& r) {
    J m = message(r);
    auto t = jtext(m, &r);
    hz::input(t);
    judge(&m, Request::parse_request(t).get());
}
// bytes that are almost a message
static void bytes(Rng& r) {
    auto t = jtext(message(r), &r);
    for (int i = int(r.below(4)); i > 0 && !t.empty(); i--) {
        auto p = r.below(t.size());
        switch (r.below(4)) {
            case 0: t.erase(p, r.below(6)); break;
            case 1: t.insert(p, 1, "{}[]\",:0-e\\"[r.below(11)]); break;
            case 2: t[p] = char(r.range(1, 255)); break;
            default: t = t.substr(0, p); break;
        }
    }
    hz::input(t);
    J m;
    if (t.find("\\u0000") != std::string::npos) return;   // text without NUL characters
    bool ok = jparse(t, m);
    auto q = Request::parse_request(t);
    if (!ok) hz::check(q && q->status() == St::error && q->type() == RequestType::error && q->get_token().empty(), "text that is not JSON is not an error");
    else judge(&m, q.get());
}
// replies of a symbol table server
static void replies(Rng& r) {
    using T = SymbolRequest::request_type;
    auto t = T(r.below(12));
    auto bp = [&] { J j = J::obj(); for (auto& f : std::vector<F>{{"id", 'u'}, {"instance_id", 'u'}, {"filename", 's'}, {"line_num", 'u'}, {"column_num", 'u'}, {"condition", 's'}, {"trigger", 's'}}) if (!r.chance(3)) j.add(f.name, r.chance(97) ? typed(r, f.t) : jany(r, 1)); if (r.chance(2)) return jany(r, 1); return j; };
    auto bpok = [&](const J& j) { for (auto* n : {"id", "instance_id", "line_num", "column_num"}) if (!fits(j.get(n), 'u')) return false; for (auto* n : {"filename", "condition", "trigger"}) if (!fits(j.get(n), 's')) return false; return true; };
    auto bpsame = [&](const BreakPoint& b, const J& j) { return b.id == j.get("id")->mag && b.instance_id && *b.instance_id == j.get("instance_id")->mag && b.filename == j.get("filename")->s && b.line_num == j.get("line_num")->mag && b.column_num == j.get("column_num")->mag && b.condition == j.get("condition")->s && b.trigger == j.get("trigger")->s; };
    auto var = [&] { J j = J::obj(); if (!r.chance(3)) j.add("id", typed(r, 'u')); if (!r.chance(3)) j.add("value", J::of(word(r))); if (!r.chance(3)) j.add("is_rtl", r.chance(95) ? J::of(r.chance(50)) : jany(r, 0)); return j; };
    auto named = [&](const char* id) { J j = J::obj(); if (!r.chance(3)) j.add("name", J::of(word(r))); if (!r.chance(3)) j.add(id, typed(r, 'u')); if (!r.chance(3)) j.add("variable_id", r.chance(95) ? typed(r, 'u') : jnum(r)); if (id[0] == 'i' && r.chance(50)) j.add("annotation", r.chance(90) ? J::of(word(r)) : jany(r, 0)); return j; };
    J res = J::arr();
    int n = int(r.below(4));
    switch (t) {
        case T::get_breakpoint: res = bp(); break;
        case T::get_breakpoints: for (int i = 0; i < n; i++) res.a.push_back(bp()); break;
        case T::get_instance_name: res = J::of(word(r)); break;
        case T::get_instance_id: res = jnum(r); break;
        case T::get_context_variables: case T::get_generator_variables: for (int i = 0; i < n; i++) { J e = J::arr(); e.a = {named(t == T::get_context_variables ? "breakpoint_id" : "instance_id"), var()}; if (r.chance(4)) e.a.resize(r.below(3)); res.a.push_back(r.chance(97) ? e : jany(r, 1)); } break;
        case T::get_execution_bp_orders: for (int i = 0; i < n; i++) res.a.push_back(r.chance(95) ? typed(r, 'u') : jnum(r)); break;
        case T::get_assigned_breakpoints: for (int i = 0; i < n; i++) { J e = J::obj(); if (!r.chance(5)) e.add(r.chance(50) ? "id" : "breakpoint_id", r.chance(95) ? typed(r, 'u') : jany(r, 0)); static const std::vector<std::string> vs = {"var", "value", "var_name", "variable_name"}; if (!r.chance(5)) e.add(r.pick(vs), r.chance(95) ? J::of(word(r)) : jany(r, 0)); if (r.chance(60)) e.add(r.chance(50) ? "cond" : "condition", r.chance(95) ? J::of(word(r)) : jany(r, 0)); res.a.push_back(r.chance(97) ? e : jany(r, 1)); } break;
        default: for (int i = 0; i < n; i++) res.a.push_back(r.chance(95) ? J::of(word(r)) : jany(r, 0)); break;
    }
    if (r.chance(5)) res = jany(r);
    J m = r.chance(97) ? J::obj().add("request", J::of(false)).add("result", res) : r.chance(50) ? J::obj().add("res", res) : jany(r);
    auto text = jtext(m, &r);
    if (r.chance(5) && !text.empty()) text = text.substr(0, r.below(text.size()));
    hz::input(fmt::format("reply {} {}", int(t), text));
    SymbolResponse q(t);
    q.parse(text);
    J mm;
    const J* x = jparse(text, mm) ? mm.get("result") : nullptr;
    auto list = [&] { return x && x->k == J::Arr ? x->a : std::vector<J>(); };
    switch (t) {
        case T::get_breakpoint: { bool ok = x && x->k == J::Obj && bpok(*x); hz::check(q.bp_result.has_value() == ok && (!ok || bpsame(*q.bp_result, *x)), "breakpoint"); break; }
        case T::get_breakpoints: { std::vector<J> w; for (auto& e : list()) if (bpok(e)) w.push_back(e); bool ok = w.size() == q.bp_results.size(); for (size_t i = 0; ok && i < w.size(); i++) ok = bpsame(q.bp_results[i], w[i]); hz::check(ok, "breakpoints"); break; }
        case T::get_instance_name: { bool ok = x && x->k == J::Str; hz::check(q.str_result.has_value() == ok && (!ok || *q.str_result == x->s), "instance name"); break; }
        case T::get_instance_id: { bool ok = x && x->u64(); hz::check(q.uint64_t_result.has_value() == ok && (!ok || *q.uint64_t_result == x->mag), "instance id"); break; }
        case T::get_context_variables: case T::get_generator_variables: {
            bool c = t == T::get_context_variables;
            auto* id = c ? "breakpoint_id" : "instance_id";
            size_t k = 0, have = c ? q.context_vars_result.size() : q.gen_vars_result.size();
            for (auto& e : list()) {
                if (e.k != J::Arr || e.a.size() != 2) break;
                auto &a = e.a[0], &b = e.a[1];
                if (!fits(a.get("name"), 's') || !fits(a.get(id), 'u') || !fits(a.get("variable_id"), 'u') || !fits(b.get("id"), 'u') || !fits(b.get("value"), 's') || !b.get("is_rtl") || b.get("is_rtl")->k != J::Bool) break;
                if (!hz::check(k < have, "a variable is missing")) return;
                auto same = [&](auto& nm, auto& own, auto& vid, const Variable& v) { return nm == a.get("name")->s && own && *own == a.get(id)->mag && vid && *vid == a.get("variable_id")->mag && v.id == b.get("id")->mag && v.value == b.get("value")->s && v.is_rtl == b.get("is_rtl")->b; };
                bool ok = c ? same(q.context_vars_result[k].first.name, q.context_vars_result[k].first.breakpoint_id, q.context_vars_result[k].first.variable_id, q.context_vars_result[k].second)
                            : same(q.gen_vars_result[k].first.name, q.gen_vars_result[k].first.instance_id, q.gen_vars_result[k].first.variable_id, q.gen_vars_result[k].second) && q.gen_vars_result[k].first.annotation == S(a.get("annotation"));
                if (!hz::check(ok, "variable")) return;
                k++;
            }
            hz::check(k == have, "more variables than the reply has");
            break;
        }
        case T::get_execution_bp_orders: { std::vector<uint32_t> w; for (auto& e : list()) { if (!e.u32()) break; w.push_back(uint32_t(e.mag)); } hz::check(w == q.uint64_t_results, "execution order"); break; }
        case T::get_assigned_breakpoints: {
            std::vector<std::tuple<uint32_t, std::string, std::string>> w;
            for (auto& e : list()) {
                if (e.k != J::Obj) break;
                std::optional<uint32_t> id; std::optional<std::string> v, c;
                for (auto& [n, y] : e.o) { if ((n == "id" || n == "breakpoint_id") && y.u32()) id = y.mag; if ((n == "var" || n == "value" || n == "var_name" || n == "variable_name") && y.k == J::Str) v = y.s; if ((n == "cond" || n == "condition") && y.k == J::Str) c = y.s; }
                if (!id || !v) break;
                w.emplace_back(*id, *v, c.value_or(""));
            }
            hz::check(w == q.var_result, "assignments");
            break;
        }
        default: { std::vector<std::string> w; for (auto& e : list()) { if (e.k != J::Str) break; w.push_back(e.s); } hz::check(w == q.str_results, "names"); break; }
    }
}
int main(int c, char** v) { return hz::main_(c, v, {{"requests", requests, 3}, {"bytes", bytes, 1}, {"replies", replies, 1}}); }
