// Problem-instance documents generated from abstract systems and automata, and families of large ones.
#pragma once
#include "jref.h"
namespace jdoc {
using namespace jref;
inline J S(const std::string& s) { return J::str(s); } inline J N(uint64_t n) { return J::num(n); }
struct AE { J f; std::string l; J t; };
struct ADoc { std::vector<J> acc; std::vector<AE> e; };
struct Doc { Pda p; ADoc a[2]; int repr = 0; size_t declared = 0; }; // repr bit0: single rules as one-element arrays; bit1: destination states are not declared (named only); bit2: initial key present; bit3: keys reversed
inline J weight_json(const Rule& r, int wk) { if (is_vec(wk)) { J a = J::arr(); for (auto x : r.w) a.a.push_back(J::neg(x)); return a; } return J::neg(r.w.empty() ? 0 : r.w[0]); }
inline J state_json(const Pda& p, const std::string& s, bool arr) {
    J o = J::obj(); std::vector<std::string> seen;
    for (auto& r : p.rules) if (r.from == s && std::find(seen.begin(), seen.end(), r.pre) == seen.end()) { seen.push_back(r.pre); J list = J::arr();
        for (auto& x : p.rules) if (x.from == s && x.pre == r.pre) { J j = J::obj({{"to", p.named ? S(x.to) : N(std::stoul(x.to))}}); auto lab = [&](const std::string& l) { return S(l == PRE ? "*" : l); };
            if (x.word.empty()) { j.k.push_back("pop"); j.a.push_back(S("")); } else if (x.word.size() == 1) { j.k.push_back("swap"); j.a.push_back(lab(x.word[0])); } else { j.k.push_back("push"); j.a.push_back(lab(x.word[0])); }
            if (p.wk) { j.k.push_back("weight"); j.a.push_back(weight_json(x, p.wk)); } list.a.push_back(j); }
        o.k.push_back(r.pre); o.a.push_back(list.a.size() == 1 && !arr ? list.a[0] : list); }
    return o;
}
inline J pda_json(const Pda& p, int repr) {
    J st = p.named ? J::obj() : J::arr();
    for (auto& s : p.states) { J o = state_json(p, s, repr & 1); if (p.named) { if ((repr & 2) && o.a.empty() && std::any_of(p.rules.begin(), p.rules.end(), [&](const Rule& r) { return r.to == s; })) continue; st.k.push_back(s); st.a.push_back(o); } else st.a.push_back(o); }
    return J::obj({{"states", st}});
}
inline J aut_json(const Pda& p, const ADoc& a, bool initial) { J acc = J::arr(a.acc), ed = J::arr(); for (auto& e : a.e) ed.a.push_back(J::arr({e.f, S(e.l), e.t})); J o = J::obj({{"accepting", acc}, {"edges", ed}}); if (initial) { J in = J::arr(); for (auto& s : p.states) in.a.push_back(p.named ? S(s) : N(std::stoul(s))); o.k.push_back("initial"); o.a.push_back(in); } return o; }
inline void reverse_keys(J& n) { if (n.t == J::Obj) { std::reverse(n.k.begin(), n.k.end()); std::reverse(n.a.begin(), n.a.end()); } for (auto& x : n.a) reverse_keys(x); }
inline J inst_json(const Doc& d) {
    J wt = d.p.wk == 0 ? S("none") : d.p.wk == 1 ? S("uint") : d.p.wk == 2 ? S("int") : d.p.wk == 3 ? J::arr({S("uint")}) : J::arr({S("int")});
    J j = J::obj({{"instance", J::arr({J::obj({{"state-names", J::boolean(d.p.named)}, {"weight-type", wt}}), pda_json(d.p, d.repr), aut_json(d.p, d.a[0], d.repr & 4), aut_json(d.p, d.a[1], d.repr & 4)})}});
    if (d.repr & 8) reverse_keys(j); return j;
}
// ---- large documents: family f, size n
inline std::vector<long long> wt(int wk, size_t i) { switch (wk) { case 0: return {}; case 1: return {(long long)(i % 7 == 6 ? 4294967294ll : i)}; case 2: return {(long long)(i % 3 == 1 ? -(long long)i : i % 7 == 6 ? 2147483646ll : (long long)i)}; default: { std::vector<long long> r; for (size_t k = 0; k < i % 5; ++k) r.push_back(wk == 4 && (i + k) % 2 ? -(long long)(i + k) : (long long)(i + k)); return r; } } }
constexpr int LARGE = 14;
inline const char* large_name(int f) { static const char* n[LARGE] = {"ring of states", "rules of one state", "rules for one state and label", "wildcard no-ops", "long names", "weight vectors", "chain of automaton states", "fan of automaton states", "accepting control states", "labels between two automaton states", "numbered states with gaps", "labels only in automata", "rules into one state", "edges from every control state"}; return n[f]; }
inline Doc large(int f, size_t n, bool named, int wk) {
    Doc d; d.p.named = named; d.p.wk = wk; auto st = [&](size_t i) { return named ? "s" + std::to_string(i) : std::to_string(i); }; auto lb = [](size_t i) { return "L" + std::to_string(i); };
    auto sj = [&](size_t i) { return named ? S("s" + std::to_string(i)) : N(i); };
    auto rule = [&](size_t f, const std::string& pre, size_t t, std::vector<std::string> word, size_t w) { Rule r; r.from = st(f); r.to = st(t); r.pre = pre; r.wild = pre == "*"; r.word = std::move(word); r.w = wt(wk, w); d.p.rules.push_back(r); };
    size_t ns = (f == 0 || f == 3 || f == 8 || f == 12 || f == 13) ? n : f == 2 ? std::max<size_t>(n, 2) : 2; for (size_t i = 0; i < ns; ++i) d.p.states.push_back(st(i));
    size_t x = named ? 0 : ns; auto ex = [&](size_t i) { return named && i % 2 ? S("x" + std::to_string(i)) : N(x + i); }; // extra automaton states
    switch (f) {
    case 0: for (size_t i = 0; i < n; ++i) { if (i % 3 == 0) rule(i, lb(i % 11), (i + 1) % n, {lb((i + 1) % 11)}, i); else if (i % 3 == 1) rule(i, lb(i % 11), (i + 1) % n, {lb(i % 5), PRE}, i); else rule(i, lb(i % 11), (i + 1) % n, {}, i); } break;
    case 1: for (size_t i = 0; i < n; ++i) rule(0, lb(i), i % 2, {lb((i + 1) % n)}, i); break;
    case 2: for (size_t i = 0; i < n; ++i) { if (i % 3 == 0) rule(0, "L", i, {}, i); else if (i % 3 == 1) rule(0, "L", i, {lb(i)}, i); else rule(0, "L", i, {lb(i), PRE}, i); } break;
    case 3: for (size_t i = 0; i < n; ++i) rule(i, "*", n - 1 - i, {PRE}, i); break;
    case 4: { std::string s(n, 'q'), t = s + "'", l(n, 'a'), m = l + "b"; if (named) { d.p.states = {s, t}; } auto nm = [&](int i) { return named ? (i ? t : s) : st(i); }; Rule r; r.from = nm(0); r.to = nm(1); r.pre = l; r.word = {m}; r.w = wt(wk, 3); d.p.rules = {r}; r.from = nm(1); r.to = nm(0); r.pre = m; r.word = {l, PRE}; d.p.rules.push_back(r); J e = named ? S(s + "\"") : N(7); d.a[0].acc = {e}; d.a[0].e = {{named ? S(s) : N(0), m, e}, {named ? S(t) : N(1), l, e}}; return d; }
    case 5: { Rule r; r.from = st(0); r.to = st(1); r.pre = "A"; if (wk < 3) r.w = wt(wk, n); else for (size_t k = 0; k < n; ++k) r.w.push_back(wk == 4 && k % 2 ? -(long long)k : (long long)(k % 9 == 8 ? 2147483646ll : k)); d.p.rules = {r}; break; }
    case 12: for (size_t i = 0; i < n; ++i) rule(i, lb(i % 4), 0, {lb(i)}, n - i); break;
    default: rule(0, "A", 1 % ns, {}, 1); break;
    }
    switch (f) {
    case 6: { J p = sj(0); for (size_t i = 0; i < n; ++i) { d.a[0].e.push_back({p, lb(i % 3), ex(i)}); p = ex(i); } d.a[0].acc = {p}; break; }
    case 7: for (size_t i = 0; i < n; ++i) { d.a[0].e.push_back({sj(i % 2), lb(i), ex(i)}); if (i % 3) d.a[0].acc.push_back(ex(i)); } break;
    case 8: for (size_t i = n; i-- > 0;) (i % 4 == 3 ? d.a[1] : d.a[0]).acc.push_back(sj(i)); break;
    case 9: for (size_t i = n; i-- > 0;) d.a[0].e.push_back({sj(0), lb(i), ex(0)}); d.a[0].acc = {ex(0)}; break;
    case 10: { J p = sj(0); for (size_t i = 0; i < n; ++i) { J q = N(x + (n - i) * 3 + 5); d.a[0].e.push_back({p, "A", q}); p = q; } d.a[0].acc = {p}; break; }
    case 11: for (int k = 0; k < 2; ++k) { for (size_t i = 0; i < n; ++i) d.a[k].e.push_back({sj(i % 2), (k ? "N" : "M") + std::to_string(i), ex(k)}); d.a[k].acc = {ex(k)}; } break;
    case 13: for (size_t i = 0; i < n; ++i) d.a[0].e.push_back({sj(i), "A", ex(i % 3)}); d.a[0].acc = {ex(0), ex(2)}; d.a[1].e.push_back({sj(n - 1), "B", sj(0)}); d.a[1].acc = {sj(0)}; break;
    default: d.a[0].e = {{sj(0), "A", ex(0)}, {ex(0), "L1", ex(1)}}; d.a[0].acc = {ex(1)}; d.a[1].acc = {sj(ns - 1)}; break;
    }
    return d;
}
// deterministic automata compared by renaming their states in the order of a breadth-first walk over the labels
inline std::string canon(const Aut& a, const std::vector<std::string>& states) {
    std::map<std::string, std::vector<std::pair<std::string, std::string>>> out; for (auto& [f, l, t] : a.edges) out[f].push_back({l, t});
    std::map<std::string, std::string> nm; std::vector<std::string> todo; std::vector<std::string> st = states; std::sort(st.begin(), st.end()); for (auto& s : st) { nm["c:" + s] = "c:" + s; todo.push_back("c:" + s); }
    std::string r; for (size_t k = 0; k < todo.size(); ++k) { auto s = todo[k]; auto& es = out[s]; std::sort(es.begin(), es.end()); r += nm[s] + (a.accepting.count(s) ? "!" : "") + ":"; std::string last = "\x01";
        for (auto& [l, t] : es) { if (l == last) r += "(nondeterministic)"; last = l; auto [it, fresh] = nm.emplace(t, "n" + std::to_string(nm.size())); if (fresh) todo.push_back(t); r += " " + l + ">" + it->second; } r += "\n"; }
    return r + std::to_string(a.edges.size()) + " edges, " + std::to_string(a.accepting.size()) + " accepting";
}
}
