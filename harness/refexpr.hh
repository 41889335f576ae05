// reference expression language: C operator precedence, 64-bit two's complement, x/0 = x%0 = 0
#ifndef REFEXPR_HH
#define REFEXPR_HH
#include <functional>
#include <memory>
#include <optional>
#include <set>
#include <string>
#include <vector>
namespace ref {
struct Node {
    std::string op;  // "lit" "var" or operator; unary: "u-" ...
    int64_t lit = 0;
    std::string var;
    std::shared_ptr<Node> a, b;
};
using P = std::shared_ptr<Node>;
using Env = std::function<int64_t(const std::string&)>;
inline int64_t eval(const P& n, const Env& env) {
    using U = uint64_t;
    if (n->op == "lit") return n->lit;
    if (n->op == "var") return env(n->var);
    int64_t x = eval(n->a, env);
    if (n->op == "u-") return int64_t(U(0) - U(x));
    if (n->op == "u+") return x;
    if (n->op == "u!") return x == 0;
    if (n->op == "u~") return int64_t(~U(x));
    int64_t y = eval(n->b, env);
    const auto& o = n->op;
    if (o == "+") return int64_t(U(x) + U(y));
    if (o == "-") return int64_t(U(x) - U(y));
    if (o == "*") return int64_t(U(x) * U(y));
    if (o == "/") return y == 0 ? 0 : int64_t(__int128(x) / y);
    if (o == "%") return y == 0 ? 0 : int64_t(__int128(x) % y);
    if (o == "<") return x < y;
    if (o == ">") return x > y;
    if (o == "<=") return x <= y;
    if (o == ">=") return x >= y;
    if (o == "==") return x == y;
    if (o == "!=") return x != y;
    if (o == "&") return x & y;
    if (o == "^") return x ^ y;
    if (o == "|") return x | y;
    if (o == "&&") return x != 0 && y != 0;
    if (o == "||") return x != 0 || y != 0;
    abort();
}
inline void names(const P& n, std::set<std::string>& out) {
    if (!n) return;
    if (n->op == "var") out.insert(n->var);
    names(n->a, out);
    names(n->b, out);
}
inline int level(const std::string& o) {
    static const std::vector<std::vector<std::string>> L = {{"||"}, {"&&"}, {"|"}, {"^"}, {"&"}, {"==", "!="}, {"<=", ">=", "<", ">"}, {"+", "-"}, {"*", "/", "%"}};
    for (unsigned i = 0; i < L.size(); i++)
        for (auto& x : L[i])
            if (x == o) return int(i);
    return 100;
}
// recursive descent over characters
struct Parser {
    const std::string& s;
    size_t p = 0;
    explicit Parser(const std::string& str) : s(str) {}
    static bool sp(char c) { return c == ' ' || (c >= '\t' && c <= '\r'); }
    static bool dg(char c) { return c >= '0' && c <= '9'; }
    static bool xd(char c) { return dg(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
    static bool hd(char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '_' || c == '$'; }
    char at(size_t i) const { return i < s.size() ? s[i] : '\0'; }
    void ws() { while (p < s.size() && sp(s[p])) p++; }
    bool ident(size_t& q) const {
        if (!hd(at(q))) return false;
        while (q < s.size() && (hd(at(q)) || dg(at(q)))) q++;
        return true;
    }
    P binary(unsigned lv) {
        static const std::vector<std::vector<std::string>> L = {{"||"}, {"&&"}, {"|"}, {"^"}, {"&"}, {"==", "!="}, {"<=", ">=", "<", ">"}, {"+", "-"}, {"*", "/", "%"}};
        if (lv == L.size()) return unary();
        auto l = binary(lv + 1);
        if (!l) return nullptr;
        for (;;) {
            const std::string* op = nullptr;
            for (auto& o : L[lv])
                if (s.compare(p, o.size(), o) == 0) { op = &o; break; }
            if (!op) return l;
            size_t save = p;
            p += op->size();
            auto r = binary(lv + 1);
            if (!r) { p = save; return l; }
            auto n = std::make_shared<Node>();
            n->op = *op; n->a = l; n->b = r;
            l = n;
        }
    }
    P unary() {
        size_t save = p;
        if (auto v = value()) return v;
        p = save;
        ws();
        char c = at(p);
        if (p < s.size() && (c == '!' || c == '~' || c == '+' || c == '-')) {
            p++;
            if (auto v = unary()) {
                ws();
                auto n = std::make_shared<Node>();
                n->op = std::string("u") + c; n->a = v;
                return n;
            }
        }
        p = save;
        return nullptr;
    }
    P value() {
        ws();
        auto n = std::make_shared<Node>();
        if (dg(at(p))) {
            size_t q = p;
            while (dg(at(q))) q++;
            if (at(q) == '\'' && at(q + 1) == 'h' && xd(at(q + 2))) {
                size_t r = q + 2;
                while (xd(at(r))) r++;
                n->op = "lit";
                std::string d = s.substr(q + 2, r - q - 2);
                size_t z = d.find_first_not_of('0');
                d = z == std::string::npos ? "0" : d.substr(z);
                if (d.size() > 16) unclear = true;
                else n->lit = int64_t(strtoull(d.c_str(), nullptr, 16));
                p = r;
            } else {
                n->op = "lit";
                errno = 0;
                n->lit = strtoll(s.substr(p, q - p).c_str(), nullptr, 10);
                if (errno) unclear = true;
                p = q;
            }
            ws();
            return n;
        }
        if (hd(at(p))) {
            size_t q = p;
            if (!variable(q)) return nullptr;
            n->op = "var";
            n->var = s.substr(p, q - p);
            p = q;
            ws();
            return n;
        }
        if (at(p) == '(') {
            p++;
            ws();
            auto e = binary(0);
            if (!e) return nullptr;
            ws();
            if (at(p) != ')' || p >= s.size()) return nullptr;
            p++;
            ws();
            return e;
        }
        return nullptr;
    }
    bool variable2(size_t& q) {
        if (!ident(q)) return false;
        while (at(q) == '[') {
            size_t r = q + 1;
            if (!ident(r)) {
                if (!dg(at(r))) { fatal = true; return false; }
                while (dg(at(r))) { r++; if (at(r) == ':' && dg(at(r + 1))) { r++; while (dg(at(r))) r++; } }
            }
            if (at(r) != ']') { fatal = true; return false; }
            q = r + 1;
        }
        return true;
    }
    bool variable(size_t& q) {
        if (!variable2(q)) return false;
        while (at(q) == '.') {
            size_t r = q + 1;
            if (!variable2(r)) { if (fatal) return false; break; }
            q = r;
        }
        return true;
    }
    bool fatal = false;
    bool unclear = false;  // a literal that does not fit 64 bits
};
inline P parse(const std::string& s, bool* unclear = nullptr) {
    Parser q(s);
    auto n = q.binary(0);
    if (unclear) *unclear = q.unclear;
    if (!n || q.fatal || q.p != s.size()) return nullptr;
    return n;
}
}  // namespace ref
#endif
