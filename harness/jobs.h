// Observing what the real readers produced, in the vocabulary of jref.h.
#pragma once
#include "jref.h"
#include <pdaaal/PDA.h>
#include <pdaaal/PAutomaton.h>
#include <pdaaal/SolverInstance.h>
#include <parsing/SolverInstanceJsonParser.h>
namespace jobs {
using namespace pdaaal; using jref::Rule; using jref::Aut; using jref::Pda;
template<typename Wt> struct wk_of; template<> struct wk_of<weight<void>> { static constexpr int v = 0; }; template<> struct wk_of<weight<uint32_t>> { static constexpr int v = 1; }; template<> struct wk_of<weight<int32_t>> { static constexpr int v = 2; };
template<> struct wk_of<weight<std::vector<uint32_t>>> { static constexpr int v = 3; }; template<> struct wk_of<weight<std::vector<int32_t>>> { static constexpr int v = 4; };
template<typename T> std::vector<long long> wvec(const T& w) { if constexpr (std::is_integral_v<T>) return {(long long)w}; else return std::vector<long long>(w.begin(), w.end()); }
template<typename P> std::string sname(const P& p, size_t i) { if constexpr (P::expose_skip_state_mapping) return std::to_string(i); else if constexpr (std::is_same_v<typename P::expose_state_t, std::string>) return p.get_state(i); else return std::to_string(p.get_state(i)); }
inline std::string lname(const std::string& s) { return s; } inline std::string lname(char c) { return std::string(1, c); }
template<typename P> Pda pda(const P& p) {
    Pda r; r.named = !P::expose_skip_state_mapping; r.wk = wk_of<typename P::weight>::v;
    for (size_t i = 0; i < p.states().size(); ++i) { std::string n = sname(p, i); if (r.has(n)) mc::fail("two states have the same name"); r.states.push_back(n);
        if constexpr (!P::expose_skip_state_mapping && std::is_same_v<typename P::expose_state_t, std::string>) if (p.exists_state(n) != std::make_pair(true, i)) mc::fail("a state is not found under its name"); }
    for (size_t i = 0; i < p.states().size(); ++i) for (const auto& [rule, labels] : p.states()[i]._rules) {
        Rule x; x.from = r.states[i]; if (rule._to >= r.states.size()) mc::fail("a rule leads to a state that does not exist"); x.to = r.states[rule._to];
        switch (rule._operation) { case POP: break; case SWAP: x.word = {lname(p.get_symbol(rule._op_label))}; break; case NOOP: x.word = {jref::PRE}; break; case PUSH: x.word = {lname(p.get_symbol(rule._op_label)), jref::PRE}; break; }
        if constexpr (P::has_weight) x.w = wvec(rule._weight);
        if (labels.wildcard()) { x.wild = true; x.pre = "*"; r.rules.push_back(x); } else for (auto l : labels.labels()) { x.pre = lname(p.get_symbol(l)); r.rules.push_back(x); }
        const auto& pr = p.states()[rule._to]._pre_states; if (std::find(pr.begin(), pr.end(), i) == pr.end()) mc::fail("a predecessor is missing");
    }
    return r;
}
template<typename A, typename P> Aut aut(const A& a, const P& p) { // states named by their id, control states by name
    Aut r; size_t n = p.states().size(); auto nm = [&](size_t i) { return i < n ? "c:" + sname(p, i) : "i:" + std::to_string(i); };
    if (a.states().size() < n) mc::fail("the automaton lacks control states of the PDA");
    for (const auto& s : a.states()) { if (s->_accepting) r.accepting.insert(nm(s->_id));
        for (const auto& [to, labels] : s->_edges) for (const auto& [l, tw] : labels) { if (to >= a.states().size()) mc::fail("an edge leads to a state that does not exist"); r.edges.insert({nm(s->_id), l == A::epsilon ? std::string() : lname(p.get_symbol(l)), nm(to)}); } }
    if (a.has_accepting_state() != !r.accepting.empty()) mc::fail("has_accepting_state differs from the accepting flags");
    return r;
}
inline std::string show(const Rule& r) { std::string s = "(" + r.from + "," + r.pre + ")->(" + r.to + ","; for (auto& x : r.word) s += x + " "; s += ")"; for (auto w : r.w) s += " " + std::to_string(w); return s; }
inline void same_pda(const Pda& want, const Pda& got, bool order) {
    if (want.named != got.named || want.wk != got.wk) mc::fail("read as another kind of system");
    std::set<std::string> ws(want.states.begin(), want.states.end()), gs(got.states.begin(), got.states.end());
    if (ws != gs) { std::string d = "states differ; expected:"; for (auto& x : ws) d += " " + x; d += " got:"; for (auto& x : gs) d += " " + x; mc::fail(d); }
    std::set<std::string> sigma; jref::labels_of(want.rules, sigma); jref::labels_of(got.rules, sigma);
    auto a = jref::normal(want.rules, sigma), b = jref::normal(got.rules, sigma); mc::count("transitions", a.size());
    if (a != b) { std::string d = "rules differ;"; for (auto& x : a) if (!b.count(x)) d += " missing " + show(x); for (auto& x : b) if (!a.count(x)) d += " extra " + show(x); mc::fail(d); }
}
inline void same_aut(const Aut& want, const Aut& got, const std::vector<std::string>& states, const std::set<std::string>& sigma0, const char* which, size_t len = 3) {
    std::set<std::string> sigma = sigma0; for (auto& e : want.edges) if (!std::get<1>(e).empty()) sigma.insert(std::get<1>(e)); for (auto& e : got.edges) if (!std::get<1>(e).empty()) sigma.insert(std::get<1>(e));
    auto a = jref::configs(want, states, sigma, len), b = jref::configs(got, states, sigma, len); mc::count("states", a.size());
    if (a != b) { std::string d = std::string(which) + " automaton differs;"; for (auto& [q, w] : a) if (!b.count({q, w})) { d += " misses <" + q + ","; for (auto& x : w) d += " " + x; d += ">"; } for (auto& [q, w] : b) if (!a.count({q, w})) { d += " extra <" + q + ","; for (auto& x : w) d += " " + x; d += ">"; } mc::fail(d); }
    if (want.edges.size() != got.edges.size()) mc::fail(std::string(which) + " automaton has another number of edges");
}
inline std::vector<std::string> sorted_states(const Pda& p) { return p.states; }
}
