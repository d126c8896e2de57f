// Reference reading of the JSON formats (README "Input format"): an own document tree that can hold duplicate keys and keeps key
// order, its printer, and an interpreter  document -> (rules, states, automata) | malformed | unspecified.
#pragma once
#include "mc.h"
#include <optional>
#include <algorithm>
namespace jref {
struct J {
    enum T { Null, Bool, Uint, Int, Float, Str, Arr, Obj } t = Null;
    bool b = false; uint64_t u = 0; int64_t i = 0; std::string s; // s: string, or the literal text of a float
    std::vector<J> a; std::vector<std::string> k; // Obj: k[n] is the key of a[n]
    static J null() { return {}; }
    static J boolean(bool v) { J j; j.t = Bool; j.b = v; return j; }
    static J num(uint64_t v) { J j; j.t = Uint; j.u = v; return j; }
    static J neg(int64_t v) { J j; j.t = v < 0 ? Int : Uint; j.i = v; j.u = (uint64_t)v; return j; }
    static J flt(std::string v) { J j; j.t = Float; j.s = std::move(v); return j; }
    static J str(std::string v) { J j; j.t = Str; j.s = std::move(v); return j; }
    static J arr(std::vector<J> v = {}) { J j; j.t = Arr; j.a = std::move(v); return j; }
    static J obj(std::vector<std::pair<std::string, J>> v = {}) { J j; j.t = Obj; for (auto& [n, x] : v) { j.k.push_back(n); j.a.push_back(x); } return j; }
    bool operator==(const J& o) const { return t == o.t && b == o.b && u == o.u && i == o.i && s == o.s && a == o.a && k == o.k; }
};
inline void quote(std::string& o, const std::string& s) { o += '"'; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += (char)c; } else if (c < 0x20) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += (char)c; } o += '"'; }
inline void print(std::string& o, const J& j) {
    switch (j.t) {
    case J::Null: o += "null"; break; case J::Bool: o += j.b ? "true" : "false"; break; case J::Uint: o += std::to_string(j.u); break; case J::Int: o += std::to_string(j.i); break; case J::Float: o += j.s; break;
    case J::Str: quote(o, j.s); break;
    case J::Arr: o += '['; for (size_t n = 0; n < j.a.size(); ++n) { if (n) o += ','; print(o, j.a[n]); } o += ']'; break;
    case J::Obj: o += '{'; for (size_t n = 0; n < j.a.size(); ++n) { if (n) o += ','; quote(o, j.k[n]); o += ':'; print(o, j.a[n]); } o += '}'; break;
    }
}
inline std::string text(const J& j) { std::string o; print(o, j); return o; }

// ---- abstract values
struct Rule { // pre is "*" when wild; word: labels that replace the top; "\x01pre" stands for the matched label
    std::string from, pre, to; bool wild = false; std::vector<std::string> word; std::vector<long long> w;
    auto tie() const { return std::tie(from, pre, to, wild, word, w); } bool operator<(const Rule& o) const { return tie() < o.tie(); } bool operator==(const Rule& o) const { return tie() == o.tie(); }
};
const std::string PRE = "\x01pre", FRESH = "\x01""fresh";
struct Pda { bool named = false; int wk = 0; std::vector<std::string> states; std::vector<Rule> rules; bool has(const std::string& n) const { return std::find(states.begin(), states.end(), n) != states.end(); } void add(const std::string& n) { if (!has(n)) states.push_back(n); } };
struct Aut { std::set<std::string> accepting; std::set<std::tuple<std::string, std::string, std::string>> edges; }; // control states "c:name", others "x:..."; label "" = epsilon
struct Inst { Pda pda; Aut ini, fin; };
enum V { OK, BAD, UNSPEC };
constexpr int WK_VOID = 0, WK_UINT = 1, WK_INT = 2, WK_VUINT = 3, WK_VINT = 4;
inline bool is_vec(int wk) { return wk >= WK_VUINT; }
inline bool is_sig(int wk) { return wk == WK_INT || wk == WK_VINT; }
inline bool in_range(const J& j, int wk, long long& out) { // a weight is strictly between the extreme values of its type (which mean "infinite")
    if (j.t == J::Uint) { if (j.u >= (is_sig(wk) ? 2147483647ull : 4294967295ull)) return false; out = (long long)j.u; return true; }
    if (j.t == J::Int) { if (!is_sig(wk) || j.i <= -2147483648ll) return false; out = j.i; return true; }
    return false;
}
struct Keys { // which keys an object has; duplicates
    std::map<std::string, int> n; explicit Keys(const J& j) { for (auto& k : j.k) n[k]++; } int of(const char* k) const { auto i = n.find(k); return i == n.end() ? 0 : i->second; }
};
inline const J& at(const J& o, const char* k) { for (size_t n = 0; n < o.k.size(); ++n) if (o.k[n] == k) return o.a[n]; throw std::logic_error("key"); }

inline V read_rule(const J& j, Pda& p, const std::string& from, const std::string& pre, std::vector<std::string>& tos) {
    if (j.t != J::Obj) return BAD;
    Keys ks(j); int ops = ks.of("pop") + ks.of("swap") + ks.of("push");
    for (auto& [k, n] : ks.n) if (k != "to" && k != "pop" && k != "swap" && k != "push" && !(k == "weight" && p.wk)) return BAD;
    if (ks.of("to") != 1 || ops != 1 || ks.of("weight") != (p.wk ? 1 : 0)) return BAD;
    Rule r; r.from = from; r.pre = pre; r.wild = pre == "*";
    const J& to = at(j, "to"); V v = OK;
    if (p.named) { if (to.t != J::Str) return BAD; r.to = to.s; } else { if (to.t != J::Uint) return BAD; if (to.u > 1000) v = UNSPEC; r.to = std::to_string(to.u); }
    if (ks.of("pop")) { const J& x = at(j, "pop"); if (x.t != J::Str) return BAD; if (!x.s.empty()) return BAD; }
    else if (ks.of("swap")) { const J& x = at(j, "swap"); if (x.t != J::Str) return BAD; r.word = {r.wild && x.s == "*" ? PRE : x.s}; if (!r.wild && x.s == "*") v = UNSPEC; }
    else { const J& x = at(j, "push"); if (x.t != J::Str) return BAD; r.word = {x.s, PRE}; if (x.s == "*") v = UNSPEC; }
    if (p.wk) {
        const J& w = at(j, "weight"); long long x;
        if (is_vec(p.wk)) { if (w.t != J::Arr) return BAD; for (auto& e : w.a) { if (!in_range(e, p.wk, x)) return BAD; r.w.push_back(x); } }
        else { if (!in_range(w, p.wk, x)) return BAD; r.w = {x}; }
    }
    tos.push_back(r.to); p.rules.push_back(r); return v;
}
inline V read_state(const J& j, Pda& p, const std::string& name, std::vector<std::string>& tos) {
    if (j.t != J::Obj) return BAD;
    V v = OK; for (auto& [k, n] : Keys(j).n) if (n > 1) v = UNSPEC;
    for (size_t n = 0; n < j.a.size(); ++n) {
        auto one = [&](const J& r) { V x = read_rule(r, p, name, j.k[n], tos); if (x == BAD) return false; if (x == UNSPEC) v = UNSPEC; return true; };
        if (j.a[n].t == J::Arr) { for (auto& r : j.a[n].a) if (!one(r)) return BAD; } else if (!one(j.a[n])) return BAD;
    }
    return v;
}
// the value of "pda" / the second element of an instance
inline V read_pda_body(const J& j, Pda& p) {
    if (j.t != J::Obj) return BAD;
    if (Keys(j).of("states") != 1) return BAD;
    const J& st = at(j, "states"); V v = OK; std::vector<std::string> tos;
    if (p.named) {
        if (st.t != J::Obj) return BAD;
        for (auto& [k, n] : Keys(st).n) if (n > 1) v = UNSPEC;
        for (size_t n = 0; n < st.a.size(); ++n) { p.add(st.k[n]); V x = read_state(st.a[n], p, st.k[n], tos); if (x == BAD) return BAD; if (x == UNSPEC) v = UNSPEC; }
        for (auto& t : tos) p.add(t);
    } else {
        if (st.t != J::Arr) return BAD;
        for (size_t n = 0; n < st.a.size(); ++n) { V x = read_state(st.a[n], p, std::to_string(n), tos); if (x == BAD) return BAD; if (x == UNSPEC) v = UNSPEC; }
        size_t cnt = st.a.size(); for (auto& t : tos) if (t.size() < 5) cnt = std::max<size_t>(cnt, std::stoul(t) + 1);
        for (size_t n = 0; n < cnt; ++n) p.add(std::to_string(n));
    }
    return v;
}
inline V read_pda_doc(const J& j, Pda& p) {
    if (j.t != J::Obj || Keys(j).of("pda") != 1) return BAD;
    return read_pda_body(at(j, "pda"), p);
}
inline bool aut_state(const J& j, const Pda& p, std::string& out) {
    if (j.t == J::Uint) { std::string n = std::to_string(j.u); out = (!p.named && p.has(n)) ? "c:" + n : "x:" + n; return true; }
    if (j.t == J::Str && p.named) { out = p.has(j.s) ? "c:" + j.s : "y:" + j.s; return true; }
    return false;
}
inline V read_aut_body(const J& j, const Pda& p, Aut& a, bool embedded) {
    if (j.t != J::Obj) return BAD;
    Keys ks(j);
    for (auto& [k, n] : ks.n) if (n != 1 || (k != "accepting" && k != "edges" && k != "initial")) return BAD;
    if (!ks.of("accepting") || !ks.of("edges") || (!embedded && !ks.of("initial"))) return BAD;
    std::string s, t;
    if (ks.of("initial")) { const J& x = at(j, "initial"); if (x.t != J::Arr) return BAD; for (auto& e : x.a) if (!aut_state(e, p, s) || s[0] != 'c') return BAD; }
    const J& acc = at(j, "accepting"); if (acc.t != J::Arr) return BAD;
    for (auto& e : acc.a) { if (!aut_state(e, p, s)) return BAD; a.accepting.insert(s); }
    const J& ed = at(j, "edges"); if (ed.t != J::Arr) return BAD;
    for (auto& e : ed.a) { if (e.t != J::Arr || e.a.size() != 3 || e.a[1].t != J::Str || !aut_state(e.a[0], p, s) || !aut_state(e.a[2], p, t)) return BAD; a.edges.insert({s, e.a[1].s, t}); }
    return OK;
}
inline V read_aut_doc(const J& j, const Pda& p, Aut& a) {
    if (j.t != J::Obj || j.k.size() != 1 || j.k[0] != "P-automaton") return BAD;
    return read_aut_body(j.a[0], p, a, false);
}
inline V read_inst_doc(const J& j, Inst& r) {
    if (j.t != J::Obj || j.k.size() != 1 || j.k[0] != "instance" || j.a[0].t != J::Arr || j.a[0].a.size() != 4) return BAD;
    auto& e = j.a[0].a; V v = OK;
    if (e[0].t != J::Obj) return BAD;
    Keys ks(e[0]); if (ks.of("state-names") != 1 || ks.of("weight-type") != 1 || e[0].k.size() != 2) return BAD;
    const J& sn = at(e[0], "state-names"); if (sn.t != J::Bool) return BAD; r.pda.named = sn.b;
    const J& wt = at(e[0], "weight-type");
    auto kind = [&](const std::string& s) { return s == "uint" ? WK_UINT : s == "int" ? WK_INT : s == "none" ? WK_VOID : -1; };
    if (wt.t == J::Str) { int k = kind(wt.s); if (k < 0) return BAD; r.pda.wk = k; }
    else if (wt.t == J::Arr) {
        if (wt.a.empty() || wt.a.size() > 2 || wt.a[0].t != J::Str || (wt.a.size() == 2 && wt.a[1].t != J::Uint)) return BAD;
        int k = kind(wt.a[0].s); if (k <= 0) return BAD; r.pda.wk = k + 2;
    } else return BAD;
    V x = read_pda_body(e[1], r.pda); if (x == BAD) return BAD; if (x == UNSPEC) v = UNSPEC;
    if (read_aut_body(e[2], r.pda, r.ini, true) == BAD || read_aut_body(e[3], r.pda, r.fin, true) == BAD) return BAD;
    return v;
}
// ---- canonical forms
inline std::set<Rule> normal(const std::vector<Rule>& rs, const std::set<std::string>& sigma) { // one entry per matched label, no-ops written out
    std::set<Rule> out;
    for (auto& r : rs) {
        auto put = [&](const std::string& l) { Rule x = r; x.wild = false; x.pre = l; for (auto& y : x.word) if (y == PRE) y = l; out.insert(x); };
        if (r.wild) { for (auto& l : sigma) put(l); put(FRESH); } else put(r.pre);
    }
    return out;
}
inline void labels_of(const std::vector<Rule>& rs, std::set<std::string>& s) { for (auto& r : rs) { if (!r.wild) s.insert(r.pre); for (auto& x : r.word) if (x != PRE) s.insert(x); } }
// set of accepted configurations: all control states x words up to length n
inline void closure(const Aut& a, std::set<std::string>& s) { for (bool c = true; c;) { c = false; for (auto& [f, l, t] : a.edges) if (l.empty() && s.count(f) && s.insert(t).second) c = true; } }
inline std::set<std::pair<std::string, std::vector<std::string>>> configs(const Aut& a, const std::vector<std::string>& states, const std::set<std::string>& sigma, size_t n) {
    std::set<std::pair<std::string, std::vector<std::string>>> out;
    for (auto& q : states) {
        std::vector<std::pair<std::vector<std::string>, std::set<std::string>>> cur; std::set<std::string> s{"c:" + q}; closure(a, s); cur.push_back({{}, s});
        for (size_t d = 0;; ++d) {
            for (auto& [w, x] : cur) for (auto& y : x) if (a.accepting.count(y)) { out.insert({q, w}); break; }
            if (d == n) break;
            decltype(cur) nx;
            for (auto& [w, x] : cur) for (auto& l : sigma) { std::set<std::string> y; for (auto& [f, e, t] : a.edges) if (e == l && x.count(f)) y.insert(t); if (y.empty()) continue; closure(a, y); auto w2 = w; w2.push_back(l); nx.push_back({w2, y}); }
            cur = std::move(nx);
        }
    }
    return out;
}
}
