// C05: fixed-point engines: longest run (unsigned and signed) and shortest run with negative weights, including unboundedness.
#include "trace_check.h"
#include "spaces.h"
#include "large.h"
using namespace fam; using namespace eng; using namespace spaces;
static void check(const Sys& s, const Pair& pr, bool is_signed) {
    mc::run_case([&] { return desc(s, pr); }, [&] {
        for (Trace t : {T_LONGEST, T_SFP}) {
            bool mx = t == T_LONGEST;
            auto want = opt_value(s, pr.i, pr.f, mx);
            mc::count("states", s.rules.size() + 1); bool inf = want && std::abs(*want) == INF;
            if (want && *want != 0) mc::count("nontrivial"); if (inf) mc::count("unbounded");
            for (Engine e : {POST, PRE, DUAL}) {
                Out o = is_signed ? fp_int(e, t, s, pr.i, pr.f) : fp_uint(e, t, s, pr.i, pr.f);
                mc::count("impl_runs"); mc::count("transitions", o.trace.size());
                auto who = [&] { return std::string(is_signed ? "int " : "uint ") + (e == DUAL ? "interleaving" : name(e)) + " " + name(t) + ": "; };
                if (o.verdict != want.has_value()) mc::fail(who() + "answers " + (o.verdict ? "yes" : "no") + ", the truth is " + (want ? "yes" : "no"));
                if (!o.verdict) continue;
                if (o.infinite != inf) mc::fail(who() + (inf ? "reports finite weight " + str(wv(o.weight)) + " although the optimum is unbounded" : "reports an unbounded optimum although it is " + std::to_string(*want)));
                if (inf) continue;
                if (o.weight[0] != *want) mc::fail(who() + "reports weight " + std::to_string(o.weight[0]) + ", the optimum is " + std::to_string(*want));
                auto err = tc::genuine(s, &pr.i, &pr.f, o.trace); if (!err.empty()) mc::fail(who() + err);
                if (tc::cost(s, o.trace, mx)[0] != *want) mc::fail(who() + "the returned trace weighs " + std::to_string(tc::cost(s, o.trace, mx)[0]) + ", reported optimum " + std::to_string(*want) + ": " + tc::str_trace(o.trace));
            }
        }
    });
}
// the oracle against explicit enumeration of all runs up to a length
static void validate(const Sys& s, const Pair& pr, int len) {
    mc::run_case([&] { return "oracle validation " + desc(s, pr); }, [&] {
        for (bool mx : {true, false}) {
            auto want = opt_value(s, pr.i, pr.f, mx);
            std::map<Conf, long> cur; for (auto& c : all_confs(s.n, s.labels, 2)) if (accepts(pr.i, c)) cur[c] = 0;
            std::optional<long> best; uint64_t tr = 0;
            for (int i = 0; i <= len; ++i) {
                for (auto& [c, w] : cur) if (accepts(pr.f, c) && (!best || (mx ? w > *best : w < *best))) best = w;
                std::map<Conf, long> nx; for (auto& [c, w] : cur) for (auto& r : s.rules) if (auto d = apply(r, c); d && d->s.size() <= 8) { ++tr; long nw = w + r.w[0]; auto it = nx.find(*d); if (it == nx.end() || (mx ? nw > it->second : nw < it->second)) nx[*d] = nw; }
                cur = nx;
            }
            mc::count("oracle_transitions", tr);
            if (best.has_value() && !want) mc::fail("oracle says unreachable, exploration found a run");
            if (want && !best) mc::fail("oracle says reachable, exploration found no short run");
            if (want && std::abs(*want) != INF && *best != *want) mc::fail("oracle value " + std::to_string(*want) + " explored value " + std::to_string(*best));
            if (want && std::abs(*want) == INF && !(mx ? *best >= 2 : *best <= -2)) mc::fail("oracle says unbounded, exploration only found " + std::to_string(*best));
        }
    });
}
// composite weights: lexicographic order is the order of the numbers w[0]*B^2 + w[1]*B + w[2] as long as the components stay small
static long scalar(const std::vector<long>& w) { long r = 0; for (int i = 0; i < 3; ++i) r = r * 1000 + (i < (int)w.size() ? w[i] : 0); return r; }
static void check_comp(const Sys& s, const Pair& pr) {
    mc::run_case([&] { std::string d = desc(s, pr) + " weights"; for (auto& r : s.rules) d += " " + str(wv(r.w)); return d; }, [&] {
        Sys m = s; bool neg = false; for (auto& r : m.rules) { for (long x : r.w) neg = neg || x < 0; r.w = {scalar(r.w)}; }
        for (Trace t : {T_LONGEST, T_SFP}) { bool mx = t == T_LONGEST; auto want = opt_value(m, pr.i, pr.f, mx); bool inf = want && std::abs(*want) == INF; mc::count("states", s.rules.size() + 1); if (want && *want != 0) mc::count("nontrivial"); if (inf) mc::count("unbounded");
            for (Engine e : {POST, PRE, DUAL}) for (int ty = 0; ty < 3; ++ty) { if (ty == 1 && neg) continue;
                Out o = ty == 0 ? fp_vint(e, t, s, pr.i, pr.f) : ty == 1 ? fp_vuint(e, t, s, pr.i, pr.f) : fp_aint(e, t, s, pr.i, pr.f); mc::count("impl_runs"); mc::count("transitions", o.trace.size());
                auto who = [&] { return std::string(ty == 0 ? "vector<int> " : ty == 1 ? "vector<uint> " : "array<int,3> ") + (e == DUAL ? "interleaving" : name(e)) + " " + name(t) + ": "; };
                if (o.verdict != want.has_value()) mc::fail(who() + "answers " + (o.verdict ? "yes" : "no") + ", the truth is " + (want ? "yes" : "no")); if (!o.verdict) continue;
                if (o.infinite != inf) mc::fail(who() + (inf ? "reports a finite weight although the optimum is unbounded" : "reports an unbounded optimum although it is finite")); if (inf) continue;
                if (scalar(o.weight) != *want) mc::fail(who() + "reports another weight than the optimum (as one number: " + std::to_string(scalar(o.weight)) + ", optimum " + std::to_string(*want) + ")");
                auto err = tc::genuine(s, &pr.i, &pr.f, o.trace); if (!err.empty()) mc::fail(who() + err);
                if (tc::cost(m, o.trace, mx)[0] != *want) mc::fail(who() + "the returned trace weighs " + std::to_string(tc::cost(m, o.trace, mx)[0]) + " (as one number), the optimum " + std::to_string(*want) + ": " + tc::str_trace(o.trace)); } }
    });
}
static void check_large(const large::Big& b) {
    Aut i = large::aut_of(b.s, b.init), f = large::aut_of(b.s, b.fin);
    mc::run_case([&] { return b.name; }, [&] {
        for (bool neg : {false, true}) {
            large::Big c = b; if (neg) for (auto& r : c.s.rules) r.w[0] = -r.w[0];
            large::Graph g(c); mc::count("states", g.conf.size()); mc::count("transitions", g.edges.size()); if (g.yes) mc::count("nontrivial"); if (g.mx_inf || g.mn_inf) mc::count("unbounded");
            for (Trace t : {T_LONGEST, T_SFP}) for (Engine e : {POST, PRE, DUAL}) for (bool sg : {false, true}) {
                if (neg && !sg) continue;
                bool mx = t == T_LONGEST, inf = mx ? g.mx_inf : g.mn_inf; long want = mx ? g.mx : g.mn;
                Out o = sg ? fp_int(e, t, c.s, i, f) : fp_uint(e, t, c.s, i, f); mc::count("impl_runs");
                auto who = [&] { return std::string(sg ? "int " : "uint ") + (neg ? "(negated weights) " : "") + (e == DUAL ? "interleaving" : name(e)) + " " + name(t) + ": "; };
                if (o.verdict != g.yes) mc::fail(who() + "wrong verdict"); if (!o.verdict) continue;
                if (o.infinite != inf) mc::fail(who() + (inf ? "reports a finite weight although the optimum is unbounded" : "reports an unbounded optimum although it is " + std::to_string(want)));
                if (inf) continue;
                if (o.weight[0] != want) mc::fail(who() + "reports weight " + std::to_string(o.weight[0]) + ", the optimum is " + std::to_string(want));
                auto err = tc::genuine(c.s, &i, &f, o.trace); if (!err.empty()) mc::fail(who() + err);
                if (tc::cost(c.s, o.trace, mx)[0] != want) mc::fail(who() + "the returned trace weighs " + std::to_string(tc::cost(c.s, o.trace, mx)[0]) + ", the optimum is " + std::to_string(want));
            }
        }
    });
}
int main(int argc, char** argv) {
    mc::Check c; c.property = "C05";
    c.rule = "every weighted system of the families x automaton pair x fixed-point engine; verdict, unboundedness, weight and trace compared with the exact optimum; non-trivial = optimum is not zero";
    c.assumptions = {"no arithmetic overflow (weights and runs are small)", "P-automata have no edges into control states and no epsilon edges"};
    c.bounds_quick = "2x1: all rule sets <=4, unsigned weights {0,1,2}, signed weights {-1,1}, {-2,0,1} for <=3; 2x2 <=2 rules (plain and wildcard) weights {-1,0,2}; 3x1 <=3; 1x2 all subsets; large: parametric families of sizes 1-40 and 65, weights of both signs; composite: vector and array weights of up to 3 components of both signs on 2x1 <=3 rules and 2x2 2 rules";
    c.bounds_thorough = c.bounds_quick + "; 2x1 <=5 rules, 2x2 <=3 rules, 3x1 <=4";
    c.suites = {
        {"large", [] { std::vector<int> z; for (int k = 1; k <= (mc::thorough() ? 80 : 40); ++k) z.push_back(k); z.push_back(mc::thorough() ? 128 : 65); large::each(z, check_large); }},
        {"oracle", [] { auto P = pairs(2, 1, P21); subsets(2, 1, alphabet(2, 1, PLAIN), 1, 3, [&](const Sys& s0) { weightings(s0, {{-1}, {1}}, [&](const Sys& s) { for (auto j : {0, 1, 3}) validate(s, P[j], 16); }); }); }},
        {"composite", [] { auto P = pairs(2, 1, P21); std::vector<std::vector<long>> W = {{}, {0, 1}, {1, -1}, {-1, 2}, {0, -1, 1}}; subsets(2, 1, alphabet(2, 1, PLAIN | NOOPS), 1, 2, [&](const Sys& s0) { weightings(s0, W, [&](const Sys& s) { for (auto& p : P) check_comp(s, p); }); });
            subsets(2, 1, alphabet(2, 1, PLAIN), 3, 3, [&](const Sys& s0) { weightings(s0, W, [&](const Sys& s) { for (size_t j = 0; j < 4; ++j) check_comp(s, P[j]); }); weightings(s0, {{}, {0, 1}, {1}}, [&](const Sys& s) { for (size_t j = 0; j < 3; ++j) check_comp(s, P[j]); }); });
            auto Q = pairs(2, 2, P22); subsets(2, 2, alphabet(2, 2, PLAIN | WILD), 1, 2, [&](const Sys& s0) { if (s0.rules.size() == 2) weightings(s0, {{0, 1}, {1, -1}, {-1, 0, 2}, {}}, [&](const Sys& s) { for (auto& p : Q) check_comp(s, p); }); if (s0.rules.size() < 2) { weightings(s0, W, [&](const Sys& s) { for (auto& p : Q) check_comp(s, p); }); return; } Sys s = s0; for (auto& v : std::vector<std::pair<std::vector<long>, std::vector<long>>>{{{0, 2}, {1}}, {{0, -1}, {0, 0, 1}}, {{1, -5}, {-1, 7}}}) { s.rules[0].w = v.first; s.rules[1].w = v.second; for (auto& p : Q) check_comp(s, p); } }); }},
        {"u21", [] { auto P = pairs(2, 1, P21); subsets(2, 1, alphabet(2, 1, PLAIN), 1, mc::thorough() ? 5 : 4, [&](const Sys& s0) { weightings(s0, {{0}, {1}, {2}}, [&](const Sys& s) { for (size_t j = 0; j < (s.rules.size() <= 3 ? P.size() : 3); ++j) check(s, P[j], false); }); }); }},
        {"s21", [] { auto P = pairs(2, 1, P21); subsets(2, 1, alphabet(2, 1, PLAIN | NOOPS), 1, 3, [&](const Sys& s0) { weightings(s0, {{-2}, {0}, {1}}, [&](const Sys& s) { for (auto& p : P) check(s, p, true); }); });
            subsets(2, 1, alphabet(2, 1, PLAIN), 4, mc::thorough() ? 5 : 4, [&](const Sys& s0) { weightings(s0, {{-1}, {1}}, [&](const Sys& s) { for (size_t j = 0; j < 4; ++j) check(s, P[j], true); }); }); }},
        {"s22", [] { auto P = pairs(2, 2, P22); subsets(2, 2, alphabet(2, 2, PLAIN | WILD), 1, 2, [&](const Sys& s0) { weightings(s0, {{-1}, {0}, {2}}, [&](const Sys& s) { for (auto& p : P) check(s, p, true); }); });
            subsets(2, 2, alphabet(2, 2, PLAIN), 3, 3, [&](const Sys& s0) { if (mc::thorough()) weightings(s0, {{-1}, {1}}, [&](const Sys& s) { for (auto& p : P) check(s, p, true); }); else { Sys s = s0; s.rules[0].w = {1}; s.rules[1].w = {-2}; s.rules[2].w = {1}; for (size_t j = 0; j < 4; ++j) check(s, P[j], true); } }); }},
        {"s31", [] { auto P = pairs(3, 1, P31); subsets(3, 1, alphabet(3, 1, PLAIN), 1, mc::thorough() ? 4 : 3, [&](const Sys& s0) { weightings(s0, {{-1}, {1}}, [&](const Sys& s) { for (auto& p : P) check(s, p, true); }); }); }},
        {"all12", [] { auto P = pairs(1, 2, P12); subsets(1, 2, alphabet(1, 2, PLAIN), 1, 99, [&](const Sys& s0) { for (int m = 1; m < 4; ++m) { Sys s = s0; for (size_t i = 0; i < s.rules.size(); ++i) s.rules[i].w = {(long)((i * m + m) % 3)}; for (auto& p : P) check(s, p, false); for (auto& r : s.rules) r.w[0] -= 1; for (auto& p : P) check(s, p, true); } }); }},
        {"det22", [] { auto P = pairs(2, 2, P22); deterministic(2, 2, false, [&](const Sys& s0) { Sys s = s0; for (size_t i = 0; i < s.rules.size(); ++i) s.rules[i].w = {(long)(i % 2 ? -1 : 2)}; for (size_t j = 0; j < 4; ++j) check(s, P[j], true); }); }},
    };
    return mc::main_(argc, argv, c);
}
