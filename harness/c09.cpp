// C09: reduction preserves reachability of the terminal state (and the lightest way to it), and only removes rules.
#include "mc.h"
#include "fam.h"
#include <pdaaal/PDA.h>
#include <pdaaal/internal/Reducer.h>
using namespace ref;
// roles of the states: 0 = p, 1 = q, 2 = terminal, 3 = initial (4 = r); `perm` gives the ids
struct Case { const Sys& s; const std::vector<int>& perm; const std::vector<std::pair<int, int>>& init; bool initw; };
using Exp = std::map<std::tuple<int, int, int, int, int, long>, int>; // from,to,op,label,pre,weight
template<typename W> pdaaal::PDA<char, W> build(const Case& c, int n) {
    pdaaal::PDA<char, W> p; for (int l = 0; l < c.s.labels; ++l) p.insert_label('a' + l); for (int i = 0; i < n; ++i) p.insert_state(i);
    auto add = [&](const Rule& r) { std::vector<char> pre; for (int x : r.pre) pre.push_back('a' + x); char ol = r.oplabel < 0 ? 'a' : 'a' + r.oplabel; size_t f = c.perm[r.from], t = c.perm[r.to];
        if constexpr (pdaaal::is_weighted<W>) p.add_rule(f, t, (pdaaal::op_t)r.op, ol, r.wild, pre, (uint32_t)r.w[0]); else p.add_rule(f, t, (pdaaal::op_t)r.op, ol, r.wild, pre); };
    for (auto& r : c.s.rules) add(r);
    for (size_t k = 0; k < c.init.size(); ++k) { Rule r; r.from = 3; r.to = c.init[k].first; r.op = PUSH; r.oplabel = c.init[k].second; r.wild = c.initw; if (!c.initw) r.pre = {0}; r.w = {(long)k}; add(r); }
    return p;
}
template<typename W> Sys read(const pdaaal::PDA<char, W>& p, Exp& e, std::vector<std::pair<Conf, long>>& start, int init) {
    Sys s; s.n = p.states().size(); s.labels = p.number_of_labels();
    for (int f = 0; f < s.n; ++f) for (const auto& [r, l] : p.states()[f]._rules) {
        Rule x; x.from = f; x.to = r._to; x.op = (Op)r._operation; x.oplabel = r._operation == pdaaal::PUSH || r._operation == pdaaal::SWAP ? (int)r._op_label : -1; x.wild = l.wildcard(); for (auto v : l.labels()) x.pre.push_back(v);
        if constexpr (pdaaal::is_weighted<W>) x.w = {(long)r._weight};
        if (l.empty()) continue; // no precondition label left: never applicable
        s.rules.push_back(x); for (int g = 0; g < s.labels; ++g) if (x.matches(g)) e[{f, x.to, x.op, x.oplabel, g, x.w[0]}]++;
        if (f == init) start.push_back({Conf{x.to, {x.oplabel}}, x.w[0]});
    }
    return s;
}
static std::optional<long> lightest(const Sys& s, const std::vector<std::pair<Conf, long>>& start, int term, bool weighted) {
    Aut fin = fam::aut(s.n, s.labels, std::string(1, (char)('0' + term)) + "%"); /* one character, also above 9 */ std::optional<long> best;
    if (!weighted) { auto B = pre_star(s, fin); for (auto& [c, w] : start) if (accepts(B, fin, c)) return 0; return best; }
    auto D = pre_star_min(s, fin); for (auto& [c, w] : start) if (auto d = min_weight_conf(D, fin, c)) if (!best || (*d)[0] + w < *best) best = (*d)[0] + w;
    return best;
}
template<typename W> void check(const Case& c, int n) {
    constexpr bool wd = pdaaal::is_weighted<W>; int init = c.perm[3], term = c.perm[2];
    auto p0 = build<W>(c, n); Exp e0; std::vector<std::pair<Conf, long>> st0; Sys s0 = read<W>(p0, e0, st0, init); auto want = lightest(s0, st0, term, wd);
    mc::count("states", s0.rules.size()); size_t full = 0;
    for (int level = 0; level <= 4; ++level) {
        auto p = p0; auto [before, after] = pdaaal::internal::Reducer::reduce(p, level, init, term); mc::count("impl_runs"); mc::count("transitions");
        auto bad = [&](const std::string& x) { mc::fail("level " + std::to_string(level) + ": " + x); };
        Exp e; std::vector<std::pair<Conf, long>> st; Sys s = read<W>(p, e, st, init);
        if (p.states().size() != p0.states().size() || p.number_of_labels() != p0.number_of_labels()) bad("states or labels changed");
        for (auto& [k, v] : e) { auto it = e0.find(k); if (it == e0.end() || it->second < v) bad("the reduced system has a rule the original does not have"); }
        if (after > before) bad("the reported size grew"); if (level == 0) { full = before; if (before != after || e != e0) bad("level 0 changed the system"); } else if (before != full) bad("the reported original size depends on the level");
        auto got = lightest(s, st, term, wd);
        if (got.has_value() != want.has_value()) bad(want ? "the terminal state is no longer reachable" : "the terminal state became reachable");
        if (wd && got != want) bad("the lightest run to the terminal state changed from " + std::to_string(*want) + " to " + std::to_string(*got));
        // the structural prunings on their own
        if (level == 1) { auto q = p0; pdaaal::internal::Reducer::forwards_prune(q, init); Exp e2; std::vector<std::pair<Conf, long>> s2; Sys x = read<W>(q, e2, s2, init); if (lightest(x, s2, term, wd) != want) bad("forwards_prune changes the answer");
            q = p0; pdaaal::internal::Reducer::backwards_prune(q, term); e2.clear(); s2.clear(); x = read<W>(q, e2, s2, init); if (lightest(x, s2, term, wd) != want) bad("backwards_prune changes the answer");
            q = p0; pdaaal::internal::Reducer::target_tos_prune(q, term); e2.clear(); s2.clear(); x = read<W>(q, e2, s2, init); if (lightest(x, s2, term, wd) != want) bad("target_tos_prune changes the answer"); }
        if (want && e.size() < e0.size()) mc::count("nontrivial");
    }
}
using Init = std::vector<std::pair<int, int>>;
template<typename W> void space(int n, const std::vector<Rule>& al, int L, int k0, int k1, const std::vector<std::vector<int>>& perms, const std::vector<Init>& inits, const std::vector<long>& ws) {
    fam::subsets(n, L, al, k0, k1, [&](const Sys& s0) {
        auto go = [&](const Sys& s) { for (auto& pm : perms) for (size_t x = 0; x < inits.size(); ++x) { Case c{s, pm, inits[x], x % 2 == 0};
            mc::run_case([&] { std::string d = "states " + std::to_string(n) + ": p=" + std::to_string(pm[0]) + " q=" + std::to_string(pm[1]) + " terminal=" + std::to_string(pm[2]) + " initial=" + std::to_string(pm[3]) + "; rules over roles (0=p,1=q,2=terminal,3=initial,4=r) " + str(s) + " initial pushes"; for (auto& [t, l] : inits[x]) d += " " + std::to_string(t) + lname(l); return d; }, [&] { check<W>(c, n); }); } };
        if (ws.empty()) go(s0); else { std::vector<std::vector<long>> v; for (long w : ws) v.push_back({w}); fam::weightings(s0, v, go); }
    });
}
int main(int argc, char** argv) {
    mc::Check c; c.property = "C09";
    c.rule = "every system with the given number of rules over p, q (r), the terminal and the initial state, every listed set of initial pushes and assignment of state ids, every level 0-4; reachability (and least weight) of the terminal state before and after reduction compared by an independent saturation; non-trivial = reachable and reduced";
    c.assumptions = {"the run starts with an empty stack in the initial state, whose rules are pushes (the setting the reduction is written for); a rule whose precondition set is empty is not applicable"};
    c.bounds_quick = "<=2 rules of all forms over 2 work states, 2 labels (3 id assignments, 5 initial sets); 3 plain/wildcard rules (2 initial sets); 4 rules over 1 label; 3 rules over 3 work states, 1 label; weighted <=2 rules; chains p->q->r->terminal whose preconditions are any set of 3 or 4 labels; two linked ways into r, then s and terminal (7 states, 5-7 rules, 2 labels, 3 id orders, 6 initial sets, half of the combinations); all 3- and 4-rule systems over the cyclic edges of p, q, r plus the final pop; the chain with 6, 9, 17 and 65 labels and ten label-set patterns; weighted systems with a heavy direct push into the terminal state; seven families of chains, fans, rings and push/pop towers of 2-12, 16, 17, 32, 33, 64, 65 states, whole or broken at one place, in 4 id orders, also weighted";
    c.bounds_thorough = "3 rules of all forms, 4 plain rules, 5 rules over 1 label, weighted 3 rules";
    using V = pdaaal::weight<void>; using U = pdaaal::weight<uint32_t>;
    auto rules = [](int L, int flags, bool third, bool toinit, bool frominit, bool fromterm) { // over roles
        std::vector<Rule> r; for (auto& x : fam::alphabet(5, L, flags)) { if (x.from == 4 || x.to == 4) if (!third) continue; if (x.to == 3 && !toinit) continue; if (x.from == 3 && !(frominit && x.op == PUSH)) continue; if (x.from == 2 && !fromterm) continue; r.push_back(x); } return r; };
    std::vector<std::vector<int>> P3 = {{1, 2, 0, 3}, {0, 1, 3, 2}, {2, 1, 3, 0}}, P2 = {{1, 2, 0, 3}, {1, 0, 2, 3}}, P1 = {{0, 3, 1, 2}}, Q = {{1, 2, 0, 3, 4}, {0, 3, 4, 1, 2}};
    std::vector<Init> I5 = {{{0, 0}}, {{0, 0}, {1, 1}}, {{0, 0}, {0, 1}}, {{0, 0}, {2, 1}}, {}}, I2 = {{{0, 0}}, {{0, 0}, {1, 1}}}, I1 = {{{0, 0}}};
    c.suites = {
        {"forms", [=] { space<V>(4, rules(2, fam::PLAIN | fam::WILD | fam::SETS | fam::NOOPS, false, true, true, true), 2, 0, 2, P3, I5, {}); }},
        {"three", [=] { space<V>(4, rules(2, fam::PLAIN | fam::WILD | fam::NOOPS | (mc::thorough() ? fam::SETS : 0), false, false, false, false), 2, 3, 3, mc::thorough() ? P3 : P1, I2, {}); }},
        {"back", [=] { space<V>(4, rules(1, fam::PLAIN | fam::WILD | fam::NOOPS, false, true, true, true), 1, 3, 3, P2, I1, {}); }},
        {"four", [=] { space<V>(4, rules(1, fam::PLAIN | fam::NOOPS, false, false, false, false), 1, 4, mc::thorough() ? 6 : 5, P2, I1, {}); if (mc::thorough()) space<V>(4, rules(2, fam::PLAIN, false, false, false, false), 2, 4, 4, P1, I1, {}); }},
        {"fourstates", [=] { space<V>(5, rules(1, fam::PLAIN | fam::NOOPS, true, false, false, false), 1, 3, 4, mc::thorough() ? Q : std::vector<std::vector<int>>{Q[1]}, I1, {}); }},
        {"threelabels", [=] { std::vector<Rule> r; for (auto& x : rules(3, fam::PLAIN | fam::SETS | fam::WILD | fam::NOOPS, false, false, false, false)) if (x.from == 0 ? (x.to <= 1) : x.to >= 1) r.push_back(x); space<V>(4, r, 3, 2, 2, P1, I1, {}); }},
        {"sets", [=] { // p -> q -> r -> terminal, preconditions being any set of labels
            auto step = [](int f, int to, int L, bool push) { std::vector<Rule> v; for (int m = 1; m <= 1 << L; ++m) { Rule r; r.from = f; r.to = to; r.wild = m == 1 << L; if (!r.wild) for (int l = 0; l < L; ++l) if (m >> l & 1) r.pre.push_back(l);
                r.op = POP; v.push_back(r); r.op = NOOP; v.push_back(r); for (int l = 0; l < L; ++l) { r.oplabel = l; r.op = SWAP; v.push_back(r); if (push) { r.op = PUSH; v.push_back(r); } } } return v; };
            std::vector<Init> I3 = {{{0, 2}}, {{0, 0}, {0, 2}}, {{0, 1}, {1, 0}}, {{0, 0}, {0, 1}, {0, 2}}};
            std::vector<std::vector<int>> Pm = {Q[1]};
            auto go = [&](int L, const std::vector<Rule>& rs, const Init& I, size_t x) { Sys s; s.n = 5; s.labels = L; s.rules = rs; Case c{s, Pm[0], I, x % 2 == 0};
                mc::run_case([&] { std::string d = "roles: 0=p 1=q 2=terminal 3=initial 4=r; rules " + str(s) + " initial pushes"; for (auto& [t, l] : I) d += " " + std::to_string(t) + lname(l); return d; }, [&] { check<V>(c, 5); }); };
            auto pq = step(0, 1, 3, true), qr = step(1, 4, 3, true); std::vector<Rule> rt; for (auto& r : step(4, 2, 3, false)) if (r.op == POP && (mc::thorough() || r.wild || r.pre.size() < 2)) rt.push_back(r);
            for (auto& a : pq) for (auto& b : qr) for (auto& d : rt) for (size_t x = 0; x < I3.size(); ++x) go(3, {a, b, d}, I3[x], x);
            Rule w; w.from = 4; w.to = 2; w.op = POP; w.wild = true;
            auto few = [](const std::vector<Rule>& v) { std::vector<Rule> r; for (auto& x : v) if (x.op == POP || x.op == NOOP || x.oplabel == 1 || mc::thorough()) r.push_back(x); return r; };
            for (auto& a : few(pq)) for (auto& b : few(pq)) if (&a < &b) for (auto& d : few(qr)) for (size_t x = 1; x < 3; ++x) go(3, {a, b, d, w}, I3[x], x);
            auto p4 = step(0, 1, 4, true), q4 = step(1, 4, 4, false); w.wild = true;
            for (auto& a : p4) for (auto& b : q4) for (size_t x = 0; x < I3.size(); ++x) go(4, {a, b, w}, I3[x], x);
        }},
        {"flow", [=] { // two ways into r (from p and from q, possibly linked), r -> s -> u -> terminal: information that arrives late has to be passed on
            auto edge = [](int f, int to) { std::vector<Rule> v; for (int m = 0; m < 3; ++m) { Rule r; r.from = f; r.to = to; r.wild = m == 2; if (m < 2) r.pre = {m}; r.op = POP; v.push_back(r); r.op = NOOP; v.push_back(r); for (int l = 0; l < 2; ++l) { r.oplabel = l; r.op = SWAP; v.push_back(r); r.op = PUSH; v.push_back(r); } } return v; };
            std::vector<std::vector<Rule>> link{{}}; for (auto& r : edge(0, 1)) if (mc::thorough() || r.wild || r.op == POP) link.push_back({r}); for (auto& r : edge(0, 0)) if (r.op == PUSH || (r.op == SWAP && mc::thorough())) link.push_back({r}); for (auto& r : edge(0, 0)) if (r.op == PUSH && r.wild) for (auto& q : edge(0, 1)) if (q.wild && (mc::thorough() || q.op != PUSH)) link.push_back({r, q});
            std::vector<Init> I = {{{0, 0}, {1, 0}}, {{0, 0}, {1, 1}}, {{0, 0}}, {{4, 0}, {0, 1}}, {{1, 1}, {0, 1}}, {{0, 0}, {4, 1}}}; std::vector<std::vector<int>> Ps = {{0, 1, 5, 4, 2, 3, 6}, {3, 4, 0, 1, 2, 5, 6}, {4, 2, 5, 0, 1, 3, 6}};
            for (auto& a : edge(0, 4)) for (auto& b : edge(1, 4)) for (auto& d : edge(4, 5)) for (auto& l : link) for (int t = 0; t < 2; ++t) {
                Sys s; s.n = 7; s.labels = 2; Rule e, u; e.from = 5; e.to = 6; e.op = NOOP; e.pre = {t}; u.from = 6; u.to = 2; u.op = POP; u.wild = true; s.rules = {a, b, d, e, u}; s.rules.insert(s.rules.end(), l.begin(), l.end());
                for (size_t x = 0; x < I.size(); ++x) for (auto& pm : Ps) { if (!mc::thorough() && (x + (&pm - &Ps[0]) + t) % 2) continue; Case c{s, pm, I[x], x % 2 == 0};
                    mc::run_case([&] { std::string z = "roles: 0=p 1=q 2=terminal 3=initial 4=r 5=s 6=u, ids"; for (int i : pm) z += " " + std::to_string(i); z += "; rules " + str(s) + " initial pushes"; for (auto& [q, y] : I[x]) z += " " + std::to_string(q) + lname(y); return z; }, [&] { check<V>(c, 7); }); } }
        }},
        {"loops", [=] { // cycles between r and s on the way to the terminal state
            std::vector<Rule> al; for (auto [f, to] : std::vector<std::pair<int, int>>{{0, 1}, {1, 0}, {1, 1}, {0, 4}, {1, 4}, {4, 0}}) for (int m = 0; m < 3; ++m) { Rule r; r.from = f; r.to = to; r.wild = m == 2; if (m < 2) r.pre = {m}; r.op = POP; al.push_back(r); r.op = NOOP; if (m) al.push_back(r); r.oplabel = 1 - m % 2; r.op = SWAP; al.push_back(r); r.op = PUSH; al.push_back(r); }
            fam::subsets(5, 2, al, 3, 4, [&](const Sys& s0) { for (int t = 0; t < 2; ++t) { Sys s = s0; Rule e; e.from = 4; e.to = 2; e.op = POP; e.pre = {t}; s.rules.push_back(e); static const std::vector<std::vector<int>> Ps = {{0, 3, 4, 1, 2}, {2, 1, 0, 3, 4}}; static const Init I0{{0, 0}}; for (auto& pm : Ps) { Case c{s, pm, I0, true}; mc::run_case([&] { return "roles: 0=p 1=q 2=terminal 3=initial 4=r, p is " + std::to_string(pm[0]) + "; rules " + str(s); }, [&] { check<V>(c, 5); }); } } });
        }},
        {"many-labels", [=] { // p -> q -> r -> terminal with large label sets
            for (int L : mc::thorough() ? std::vector<int>{5, 6, 7, 8, 9, 10, 12, 16, 17, 33, 64, 65, 70} : std::vector<int>{6, 9, 17, 65}) {
                std::vector<std::vector<int>> sets; auto put = [&](auto f) { std::vector<int> v; for (int l = 0; l < L; ++l) if (f(l)) v.push_back(l); sets.push_back(v); };
                put([](int) { return true; }); put([](int l) { return l % 2 == 0; }); put([&](int l) { return l < L / 2; }); put([&](int l) { return l >= L / 2; }); for (int k : {0, L / 2, L - 1}) { put([&](int l) { return l == k; }); put([&](int l) { return l != k; }); }
                std::vector<Init> I; for (int k : {0, L / 2, L - 1}) I.push_back({{0, k}}); I.push_back({}); for (int l = 0; l < L; ++l) I.back().push_back({0, l}); I.push_back({}); for (int l = 1; l < L; l += 2) I.back().push_back({l % 3 ? 0 : 1, l});
                auto step = [&](int f, int to, bool all) { std::vector<Rule> v; for (size_t k = 0; k <= sets.size(); ++k) { Rule r; r.from = f; r.to = to; r.wild = k == sets.size(); if (!r.wild) r.pre = sets[k]; r.op = POP; v.push_back(r); if (!all) continue; r.op = NOOP; v.push_back(r); for (int l : {0, L / 2, L - 1}) { r.oplabel = l; r.op = SWAP; v.push_back(r); if (l) { r.op = PUSH; v.push_back(r); } } } return v; };
                auto A = step(0, 1, true), B = step(1, 4, true), C = step(4, 2, false);
                for (size_t a = 0; a < A.size(); ++a) for (size_t b = 0; b < B.size(); ++b) { if (!mc::thorough() && L > 9 && (a + b) % 3) continue; for (size_t d = 0; d < C.size(); d += mc::thorough() ? 1 : 2) for (size_t x = 0; x < I.size(); ++x) { Sys s; s.n = 5; s.labels = L; s.rules = {A[a], B[b], C[(d + a) % C.size()]}; if ((a + b + d) % 2) { Rule e; e.from = 1; e.to = 4; e.op = POP; e.pre = {x % 2 ? 0 : L - 1}; s.rules.push_back(e); } Case c{s, Q[1], I[x], x % 2 == 0};
                    mc::run_case([&] { return std::to_string(L) + " labels, first/second/third step " + std::to_string(a) + "/" + std::to_string(b) + "/" + std::to_string((d + a) % C.size()) + ", initial set " + std::to_string(x); }, [&] { check<V>(c, 5); }); } }
            }
        }},
        {"long", [=] { // long ways to the terminal state: chains of swaps and no-ops, pushes answered by pops, fans, loops; whole, or broken in one place
            // roles: 2 terminal, 3 initial, 0, 1, 4, 5, ... work states
            std::vector<int> ns; for (int n = 2; n <= (mc::thorough() ? 40 : 12); ++n) ns.push_back(n); for (int n : {16, 17, 31, 32, 33, 64, 65}) if (mc::thorough() || n != 31) ns.push_back(n);
            auto role = [](int i) { return i < 2 ? i : i + 2; };
            for (int n : ns) for (int fam = 0; fam < 7; ++fam) for (int br = -1; br < n; ++br) { if (!mc::thorough() && n > 12 && br >= 0 && br != 0 && br != n / 2 && br != n - 1 && br != 1) continue; for (int order = 0; order < 4; ++order) for (int wd = 0; wd < 2; ++wd) {
                Sys s; s.labels = 5; int L = 5; int N = n + 3; Init I; std::vector<Rule>& R = s.rules;
                auto rule = [&](int f, int t, Op op, int ol, std::vector<int> pre, long w) { Rule r; r.from = f; r.to = t; r.op = op; r.oplabel = op == POP || op == NOOP ? -1 : ol; r.wild = pre.empty(); r.pre = pre; r.w = {w}; R.push_back(r); };
                auto nx = [&](int i) { return i >= n ? 2 : role(i); };
                switch (fam) {
                case 0: I = {{0, 0}}; for (int i = 0; i < n; ++i) rule(role(i), nx(i + 1), SWAP, (i + 1) % L, {i == br ? (i + 2) % L : i % L}, i % 3); break; // chain of swaps
                case 1: I = {{0, 0}}; for (int i = 0; i < n; ++i) { std::vector<int> pre{0, 1 + i % 3}; if (i == br) pre = {1, 2}; rule(role(i), nx(i + 1), NOOP, 0, pre, 1); if (i + 1 < n) rule(role(i), role(i + 1), POP, 0, {4}, 0); } break; // chain of no-ops
                case 2: { I = {{0, 0}}; int h = n / 2; for (int i = 0; i < h; ++i) rule(role(i), role(i + 1), PUSH, (i + 1) % L, {i % L}, 1); for (int i = h; i < n; ++i) { int top = (2 * h - i) % L; if (top < 0) top += L; if (2 * h - i < 0) top = 0; rule(role(i), nx(i + 1), 2 * h - i >= 0 ? POP : NOOP, 0, {i == br ? (top + 1) % L : top}, 2); } break; } // pushes, then as many pops
                case 3: for (int i = 0; i < n; ++i) { I.push_back({role(i), i % L}); rule(role(i), role(n), POP, 0, {i == br ? i % L : (i + 1) % L}, (i * 7) % 5); } rule(role(n), 2, NOOP, 0, {}, 0); N = n + 4; rule(role(n), 2, POP, 0, {0}, 1); break; // a fan in which at most one branch is open, but the stack is empty after it
                case 4: for (int i = 0; i < n; ++i) { I.push_back({role(i), i % L}); rule(role(i), role(n), SWAP, 4, {i == br ? i % L : (i + 1) % L}, (i * 7) % 5); } rule(role(n), 2, NOOP, 0, {4}, 0); N = n + 4; break; // the same with the stack kept
                case 5: I = {{0, 0}}; for (int i = 0; i < n; ++i) rule(role(i), role((i + 1) % n), i % 2 ? PUSH : SWAP, (i + 1) % L, {}, 1); rule(role(n - 1), 2, POP, 0, {br < 0 ? 4 : br % L}, 1); break; // a ring
                default: I = {{0, 0}}; for (int i = 0; i < n; ++i) { rule(role(i), role(i), PUSH, (i + 1) % L, {i % L}, 1); rule(role(i), nx(i + 1), POP, 0, {i == br ? (i + 3) % L : (i + 1) % L}, 1); if (i + 1 < n) rule(role(i + 1), role(i + 1), SWAP, (i + 1) % L, {i % L}, 0); } break; // push, pop and go on
                }
                s.n = N; std::vector<int> pm(N); std::vector<int> ids(N); for (int i = 0; i < N; ++i) ids[i] = i;
                if (order == 1) std::reverse(ids.begin(), ids.end()); if (order == 2) for (int i = 0; i < N; ++i) ids[i] = i % 2 ? i / 2 : N - 1 - i / 2; if (order == 3) std::rotate(ids.begin(), ids.begin() + N / 3 + 1, ids.end());
                for (int i = 0; i < N; ++i) pm[i] = ids[i]; if (order == 3) std::reverse(R.begin(), R.end());
                Case c{s, pm, I, order % 2 == 0};
                mc::run_case([&] { return "family " + std::to_string(fam) + " of " + std::to_string(n) + " states, broken at " + std::to_string(br) + ", id order " + std::to_string(order) + (wd ? ", weighted" : ""); }, [&] { if (wd) check<U>(c, N); else check<V>(c, N); }); } }
        }},
        {"weighted-initial", [=] { // a direct but heavy initial push into the terminal state next to longer, lighter ways
            auto al = rules(2, fam::PLAIN | fam::WILD, false, false, false, false);
            std::vector<Init> I = {{{0, 0}, {2, 0}}, {{0, 1}, {1, 0}, {2, 1}}, {{0, 0}, {0, 1}, {1, 0}, {2, 0}}};
            space<U>(4, al, 2, 1, 2, {{1, 2, 0, 3}, {0, 1, 3, 2}, {3, 0, 1, 2}}, I, {0, 1});
        }},
        {"weighted", [=] { space<U>(4, rules(2, fam::PLAIN | fam::WILD | fam::NOOPS, false, false, false, false), 2, 1, 2, P1, I2, {0, 1}); if (mc::thorough()) space<U>(4, rules(2, fam::PLAIN, false, false, false, false), 2, 3, 3, P1, I2, {0, 1}); }},
    };
    return mc::main_(argc, argv, c);
}
