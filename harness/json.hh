// a JSON value with its own printer: the reference against which messages are read and written
#ifndef JSON_HH
#define JSON_HH
#include <string>
#include <utility>
#include <vector>
#include "hz.hh"
#include "rapidjson/document.h"
struct J {
    enum K { Null, Bool, Int, Dbl, Str, Arr, Obj } k = Null;
    bool b = false, neg = false;
    uint64_t mag = 0;
    std::string s;   // text of a string or of a double
    std::vector<J> a;
    std::vector<std::pair<std::string, J>> o;
    J() = default;
    static J of(bool v) { J j; j.k = Bool; j.b = v; return j; }
    static J of(const std::string& v) { J j; j.k = Str; j.s = v; return j; }
    static J of(const char* v) { return of(std::string(v)); }
    static J u(uint64_t v) { J j; j.k = Int; j.mag = v; return j; }
    static J i(int64_t v) { J j; j.k = Int; j.neg = v < 0; j.mag = v < 0 ? 0 - uint64_t(v) : uint64_t(v); return j; }
    static J d(const std::string& t) { J j; j.k = Dbl; j.s = t; return j; }
    static J arr() { J j; j.k = Arr; return j; }
    static J obj() { J j; j.k = Obj; return j; }
    J& add(const std::string& n, J v) { o.emplace_back(n, std::move(v)); return *this; }
    const J* get(const std::string& n) const { if (k == Obj) for (auto& [x, v] : o) if (x == n) return &v; return nullptr; }
    bool u32() const { return k == Int && (!neg || !mag) && mag <= UINT32_MAX; }
    bool u64() const { return k == Int && (!neg || !mag); }
    bool i64() const { return k == Int && (neg ? mag <= (1ull << 63) : mag <= uint64_t(INT64_MAX)); }
    int64_t i64v() const { return neg ? int64_t(0 - mag) : int64_t(mag); }
    bool operator==(const J& x) const {
        if (k != x.k) return false;
        switch (k) {
            case Null: return true;
            case Bool: return b == x.b;
            case Int: return mag == x.mag && (neg == x.neg || !mag);
            case Dbl: return strtod(s.c_str(), nullptr) == strtod(x.s.c_str(), nullptr);
            case Str: return s == x.s;
            case Arr: return a == x.a;
            default: break;
        }
        if (o.size() != x.o.size()) return false;
        for (auto& [n, v] : o) { auto* w = x.get(n); if (!w || !(*w == v)) return false; }
        return true;
    }
};
inline void jstr(std::string& t, const std::string& s, hz::Rng* r) {
    t += '"';
    char b[16];
    for (size_t i = 0; i < s.size(); i++) {
        unsigned char c = s[i];
        if (c == '"' || c == '\\') { t += '\\'; t += char(c); }
        else if (c < 32) { if (c == '\n' && r && r->chance(50)) t += "\\n"; else { snprintf(b, sizeof b, "\\u%04x", c); t += b; } }
        else if (c < 127 && r && r->chance(5)) { snprintf(b, sizeof b, "\\u%04x", c); t += b; }
        else if (c == '/' && r && r->chance(20)) t += "\\/";
        else t += char(c);
    }
    t += '"';
}
inline void jws(std::string& t, hz::Rng* r) { if (r && r->chance(25)) for (int i = int(r->below(3)); i >= 0; i--) t += " \n\t\r"[r->below(4)]; }
inline void jtext(std::string& t, const J& j, hz::Rng* r) {
    jws(t, r);
    switch (j.k) {
        case J::Null: t += "null"; break;
        case J::Bool: t += j.b ? "true" : "false"; break;
        case J::Int: if (j.neg) t += '-'; t += std::to_string(j.mag); break;
        case J::Dbl: t += j.s; break;
        case J::Str: jstr(t, j.s, r); break;
        case J::Arr: t += '['; for (size_t i = 0; i < j.a.size(); i++) { if (i) t += ','; jtext(t, j.a[i], r); } jws(t, r); t += ']'; break;
        case J::Obj: t += '{'; for (size_t i = 0; i < j.o.size(); i++) { if (i) t += ','; jws(t, r); jstr(t, j.o[i].first, r); jws(t, r); t += ':'; jtext(t, j.o[i].second, r); } jws(t, r); t += '}'; break;
    }
    jws(t, r);
}
inline std::string jtext(const J& j, hz::Rng* r = nullptr) { std::string t; jtext(t, j, r); return t; }
inline J jread(const rapidjson::Value& v) {
    if (v.IsNull()) return J();
    if (v.IsBool()) return J::of(v.GetBool());
    if (v.IsUint64()) return J::u(v.GetUint64());
    if (v.IsInt64()) return J::i(v.GetInt64());
    if (v.IsNumber()) { char b[64]; snprintf(b, sizeof b, "%.17g", v.GetDouble()); return J::d(b); }
    if (v.IsString()) return J::of(std::string(v.GetString(), v.GetStringLength()));
    if (v.IsArray()) { J j = J::arr(); for (auto& e : v.GetArray()) j.a.push_back(jread(e)); return j; }
    J j = J::obj();
    for (auto& m : v.GetObject()) j.add(std::string(m.name.GetString(), m.name.GetStringLength()), jread(m.value));
    return j;
}
// false: not JSON
inline bool jparse(const std::string& s, J& out) {
    rapidjson::Document d;
    d.Parse(s.c_str());
    if (d.HasParseError()) return false;
    out = jread(d);
    return true;
}
inline std::string word(hz::Rng& r) {
    static const std::vector<std::string> w = {"", "a", "add", "remove", "clear", "b[3]", "/tmp/x.py", "tb.dut", "\"", "\\", "\xc3\xa9", "\xf0\x9f\x98\x80", "a b", "\n", "true", "12", "a.b.1", "\x01", "x<y && z==1"};
    if (r.chance(60)) return r.pick(w);
    std::string s;
    for (int i = int(r.below(12)); i >= 0; i--) s += char(r.range(32, 126));
    return s;
}
inline J jnum(hz::Rng& r) {
    switch (r.below(6)) {
        case 0: return J::u(r.below(100));
        case 1: return J::u(r.chance(50) ? UINT32_MAX : 1ull << 32);
        case 2: return J::u(r.next() >> r.below(64));
        case 3: return J::i(r.value());
        case 4: { static const std::vector<std::string> d = {"1.5", "-0.25", "1e3", "1e300", "18446744073709551616", "-9223372036854775809", "3.0"}; return J::d(r.pick(d)); }
        default: return J::u(r.chance(50) ? UINT64_MAX : 0);
    }
}
inline J jany(hz::Rng& r, int depth = 2) {
    switch (r.below(depth ? 8 : 6)) {
        case 0: return J();
        case 1: return J::of(r.chance(50));
        case 2: case 3: return jnum(r);
        case 4: case 5: return J::of(word(r));
        case 6: { J j = J::arr(); for (int i = int(r.below(3)); i > 0; i--) j.a.push_back(jany(r, depth - 1)); return j; }
        default: { J j = J::obj(); for (int i = int(r.below(4)); i > 0; i--) { auto n = word(r); if (!j.get(n)) j.add(n, jany(r, depth - 1)); } return j; }
    }
}
#endif
