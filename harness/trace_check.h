#pragma once
#include "mc.h"
#include "eng.h"
namespace tc {
using namespace ref;
inline std::string str_trace(const std::vector<Conf>& t) { std::string r; for (auto& c : t) r += str(c) + " "; return r; }
// is t a run of s from a configuration of init to a configuration of fin? returns "" or what is wrong
inline std::string genuine(const Sys& s, const Aut* init, const Aut* fin, const std::vector<Conf>& t) {
    if (t.empty()) return "the trace is empty";
    for (auto& c : t) if (c.p < 0 || c.p >= s.n) return "trace mentions unknown state: " + str_trace(t);
    if (init && !accepts(*init, t.front())) return "trace does not start in an initial configuration: " + str_trace(t);
    if (fin && !accepts(*fin, t.back())) return "trace does not end in a final configuration: " + str_trace(t);
    for (size_t i = 0; i + 1 < t.size(); ++i) {
        bool ok = false; for (auto& r : s.rules) if (auto d = apply(r, t[i]); d && *d == t[i + 1]) { ok = true; break; }
        if (!ok) return "no rule takes step " + std::to_string(i) + " of the trace: " + str_trace(t);
    }
    return "";
}
// lightest / heaviest weight the rules allow for this sequence of configurations
inline WV cost(const Sys& s, const std::vector<Conf>& t, bool mx = false) {
    WV sum{0, 0, 0};
    for (size_t i = 0; i + 1 < t.size(); ++i) {
        std::optional<WV> best; for (auto& r : s.rules) if (auto d = apply(r, t[i]); d && *d == t[i + 1]) { WV w = wv(r.w); if (!best || (mx ? w > *best : w < *best)) best = w; }
        if (best) sum = add(sum, *best);
    }
    return sum;
}
inline std::string rule_trace(const Sys& s, const Aut& init, const Aut& fin, const eng::Out& o) {
    Conf c{(int)o.rt_state, std::vector<int>(o.istack.begin(), o.istack.end())};
    if (o.rt_state >= (size_t)s.n) return "rule trace has an invalid initial state";
    auto path_ok = [](const Aut& a, const std::vector<size_t>& path, const Conf& c) -> std::string {
        if (path.size() != c.s.size() + 1) return "accepting path has the wrong length";
        if (path[0] != (size_t)c.p) return "accepting path does not start in the control state";
        for (size_t i = 0; i < c.s.size(); ++i) { bool ok = false; for (auto& e : a.edges) if ((size_t)e.f == path[i] && e.l == c.s[i] && (size_t)e.t == path[i + 1]) ok = true; if (!ok) return "accepting path uses an edge that the automaton does not have"; }
        if (path.back() >= (size_t)a.n || !a.acc[path.back()]) return "accepting path does not end in an accepting state";
        return "";
    };
    if (!accepts(init, c)) return "rule trace: initial configuration " + str(c) + " is not in the initial set";
    if (auto e = path_ok(init, o.ipath, c); !e.empty()) return "initial automaton: " + e;
    WV total{0, 0, 0};
    for (size_t i = 0; i < o.rules.size(); ++i) {
        auto& a = o.rules[i]; bool known = false;
        if (c.s.empty() || (uint32_t)c.s[0] != a.pre || (size_t)c.p != a.from) return "rule trace: rule " + std::to_string(i) + " is not applicable in " + str(c);
        for (auto& r : s.rules) if ((size_t)r.from == a.from && (size_t)r.to == a.to && r.op == a.op && r.matches((int)a.pre) && (r.op == POP || r.op == NOOP || (uint32_t)r.oplabel == a.oplabel) && (!o.rules_weighted || wv(r.w) == wv(a.w))) { known = true; c = *apply(r, c); break; }
        if (!known) return "rule trace: rule " + std::to_string(i) + " is not a rule of the system" + (o.rules_weighted ? " (with weight " + str(wv(a.w)) + ")" : "");
        total = add(total, wv(a.w));
    }
    if (o.has_rules_total && total != wv(o.rules_total)) return "rule trace: its rules weigh " + str(total) + " but the reported weight is " + str(wv(o.rules_total));
    Conf f{c.p, std::vector<int>(o.fstack.begin(), o.fstack.end())};
    if (!(f == c)) return "rule trace: applying the rules ends in " + str(c) + " but the reported final stack is " + str(f);
    if (!accepts(fin, c)) return "rule trace: final configuration " + str(c) + " is not in the final set";
    if (auto e = path_ok(fin, o.fpath, c); !e.empty()) return "final automaton: " + e;
    return "";
}
}
