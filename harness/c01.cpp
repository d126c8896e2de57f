// C01: the reachability verdict of every engine equals the reference answer.
#include "mc.h"
#include "eng.h"
#include "spaces.h"
#include "large.h"
using namespace fam; using namespace eng; using namespace spaces;

static void check(const Sys& s, const Pair& pr, bool weighted, bool fixed) {
    mc::run_case([&] { return desc(s, pr); }, [&] {
        uint64_t steps = 0;
        bool want = reachable(s, pr.i, pr.f, &steps);
        mc::count("states", steps + 1); mc::count(want ? "reachable" : "unreachable");
        if (!s.rules.empty() && want) mc::count("nontrivial");
        auto cmp = [&](bool got, const char* what, Engine e, Trace t) {
            mc::count("impl_runs");
            mc::require_f(got == want, [&] { return std::string(what) + " engine " + name(e) + " with trace option " + name(t) + " answers " + (got ? "yes" : "no") + ", the truth is " + (want ? "yes" : "no"); });
        };
        for (Engine e : {POST, PRE, DUAL}) for (Trace t : {T_NONE, T_ANY}) cmp(run_void(e, t, s, pr.i, pr.f).verdict, "unweighted", e, t);
        for (Engine e : {POST, PRE}) cmp(run_void(e, T_NOET, s, pr.i, pr.f).verdict, "unweighted", e, T_NOET);
        if (weighted) { for (Engine e : {POST, PRE}) cmp(run_uint(e, T_NOET, s, pr.i, pr.f).verdict, "uint-weighted", e, T_NOET); cmp(run_uint(POST, T_NOET_SHORTEST, s, pr.i, pr.f).verdict, "uint-weighted", POST, T_NOET_SHORTEST); }
        if (weighted) for (Engine e : {POST, PRE, DUAL}) for (Trace t : {T_ANY, T_SHORTEST}) cmp(run_uint(e, t, s, pr.i, pr.f).verdict, "uint-weighted", e, t);
        if (fixed) for (Engine e : {POST, PRE, DUAL}) for (Trace t : {T_LONGEST, T_SFP}) cmp(fp_uint(e, t, s, pr.i, pr.f).verdict, "uint-weighted fixed-point", e, t);
    });
}
// the oracle itself, against explicit exploration of the configuration graph
static void validate(const Sys& s, int maxh) {
    mc::run_case([&] { return "oracle validation " + str(s); }, [&] {
        uint64_t st = 0, tr = 0;
        for (auto& c : all_confs(s.n, s.labels, 2)) {
            auto seen = explore(s, {c}, maxh, st, tr);
            for (auto& d : all_confs(s.n, s.labels, 2)) {
                bool a = seen.count(d), b = reachable(s, single(s, c), single(s, d));
                mc::require_f(a == b, [&] { return "oracle and explicit exploration disagree on " + str(c) + " ->* " + str(d) + ": explored=" + std::to_string(a) + " oracle=" + std::to_string(b); });
            }
        }
        mc::count("explored_states", st); mc::count("transitions", tr);
    });
}
static void check_large(const large::Big& b) {
    mc::run_case([&] { return b.name + (b.s.n + b.s.labels < 20 ? "\n" + str(b.s) : ""); }, [&] {
        large::Graph g(b); Aut i = large::aut_of(b.s, b.init), f = large::aut_of(b.s, b.fin);
        mc::count("states", g.conf.size()); mc::count("explored_states", g.conf.size()); mc::count("transitions", g.edges.size()); if (g.yes) mc::count("nontrivial");
        auto cmp = [&](bool got, const char* what, Engine e, Trace t) { mc::count("impl_runs"); mc::require_f(got == g.yes, [&] { return std::string(what) + " engine " + name(e) + " with trace option " + name(t) + " answers " + (got ? "yes" : "no") + ", the truth is " + (g.yes ? "yes" : "no"); }); };
        for (Engine e : {POST, PRE, DUAL}) { cmp(run_void(e, T_NONE, b.s, i, f).verdict, "unweighted", e, T_NONE); cmp(run_uint(e, T_SHORTEST, b.s, i, f).verdict, "uint-weighted", e, T_SHORTEST); if (b.s.n <= 80) cmp(fp_uint(e, T_LONGEST, b.s, i, f).verdict, "uint-weighted fixed-point", e, T_LONGEST); }
        cmp(run_void(POST, T_NOET, b.s, i, f).verdict, "unweighted", POST, T_NOET);
    });
}
// queries about one configuration: Solver::pre_star_accepts(automaton, state, stack)
static void single_query(const Sys& s, const std::string& text, int h) {
    Aut a = aut(s.n, s.labels, text);
    mc::run_case([&] { return str(s) + "\nfinal {" + text + "}"; }, [&] {
        auto q = all_confs(s.n, s.labels, h); uint64_t steps = 0; auto B = pre_star(s, a, &steps); mc::count("states", q.size()); mc::count("transitions", steps);
        for (int k = 0; k < 5; ++k) {
            Trace t = k == 0 || k == 2 ? T_NONE : k == 4 ? T_SHORTEST : T_ANY; auto m = k < 2 ? query_void(t, s, a, q) : query_uint(t, s, a, q);
            for (size_t j = 0; j < q.size(); ++j) {
                bool want = accepts(B, a, q[j]); mc::count("impl_runs"); if (want && !accepts(a, q[j])) mc::count("nontrivial");
                if (m[j].accepts != want) mc::fail(std::string(k < 2 ? "unweighted" : "uint-weighted") + " pre_star_accepts with trace option " + name(t) + " for " + str(q[j]) + " answers " + (want ? "no" : "yes"));
            }
        }
    });
}
// weights must not change the answer: signed, vector and array weights
static void check_weighted(const Sys& s, const Pair& pr, int ty) {
    mc::run_case([&] { return desc(s, pr); }, [&] {
        bool want = reachable(s, pr.i, pr.f); mc::count("states"); if (want) mc::count("nontrivial");
        auto cmp = [&](bool got, const char* what, Engine e, Trace t) { mc::count("impl_runs"); mc::require_f(got == want, [&] { return std::string(what) + " engine " + name(e) + " with trace option " + name(t) + " answers " + (got ? "yes" : "no") + ", the truth is " + (want ? "yes" : "no"); }); };
        if (ty == 0) for (Engine e : {POST, PRE, DUAL}) { for (Trace t : {T_NONE, T_ANY}) cmp(run_int(e, t, s, pr.i, pr.f).verdict, "int-weighted", e, t); for (Trace t : {T_LONGEST, T_SFP}) cmp(fp_int(e, t, s, pr.i, pr.f).verdict, "int-weighted fixed-point", e, t); }
        if (ty == 1) { for (Engine e : {POST, PRE, DUAL}) for (Trace t : {T_NONE, T_ANY, T_SHORTEST}) cmp(run_uint(e, t, s, pr.i, pr.f).verdict, "uint-weighted", e, t); for (Engine e : {POST, PRE}) cmp(run_uint(e, T_NOET, s, pr.i, pr.f).verdict, "uint-weighted", e, T_NOET); cmp(run_uint(POST, T_NOET_SHORTEST, s, pr.i, pr.f).verdict, "uint-weighted", POST, T_NOET_SHORTEST); }
        if (ty == 2) for (Engine e : {POST, PRE, DUAL}) for (Trace t : {T_ANY, T_SHORTEST}) cmp(run_vec(e, t, s, pr.i, pr.f).verdict, "vector-weighted", e, t);
        if (ty == 3) for (Engine e : {POST, PRE, DUAL}) for (Trace t : {T_ANY, T_SHORTEST}) cmp(run_arr(e, t, s, pr.i, pr.f).verdict, "array-weighted", e, t);
    });
}
static const std::vector<std::vector<long>> WT[4] = {{{-3}, {0}, {2}}, {{0}, {2}, {9}}, {{}, {1}, {0, 1}}, {{0, 0}, {1, 0}, {0, 2}}};

int main(int argc, char** argv) {
    mc::Check c; c.property = "C01";
    c.rule = "every system of the listed families x every listed initial/final automaton pair; non-trivial = at least one rule and the answer is yes";
    c.assumptions = {"P-automata have no edges into control states and no epsilon edges (the documented precondition of post*/pre*)"};
    c.bounds_quick = "2 states x 2 labels: all rule sets of size <=3 over 72 rules (pop/swap/push/noop; single-label and wildcard preconditions); all deterministic systems; 2x1: all rule subsets; 3x1 <=3 rules; 2x3 <=2 rules with every precondition set; large: parametric families of sizes 1-40, around 64, 128, 256, and 1000, 5000";
    c.bounds_thorough = c.bounds_quick + "; plus 2x2 rule sets of size 4 over 40 plain rules and 3 over 96 rules with label sets, 3x1 size 4, 1x2 all subsets, deterministic with noop";
    c.suites = {
        {"weights21", [] { auto P = pairs(2, 1, P21); for (int ty = 0; ty < 4; ++ty) subsets(2, 1, alphabet(2, 1, PLAIN | NOOPS), 1, 3, [&](const Sys& s0) { weightings(s0, WT[ty], [&](const Sys& s) { for (auto& p : P) check_weighted(s, p, ty); }); }); }},
        {"weights22", [] { auto P = pairs(2, 2, P22); for (int ty = 0; ty < 4; ++ty) subsets(2, 2, alphabet(2, 2, PLAIN | WILD), 1, 2, [&](const Sys& s0) { weightings(s0, WT[ty], [&](const Sys& s) { for (auto& p : P) check_weighted(s, p, ty); }); }); }},
        {"single", [] { for (auto t : {"1b", "1", "0,1ba", "0a+,1ab"}) subsets(2, 2, alphabet(2, 2, PLAIN | WILD), 0, 2, [&](const Sys& s) { single_query(s, t, 2); }); deterministic(2, 2, false, [&](const Sys& s) { single_query(s, "0ab,1", 1); }); subsets(2, 1, alphabet(2, 1, PLAIN), 3, 4, [&](const Sys& s) { single_query(s, "1aa,0a", 3); }); }},
        {"oracle", [] { subsets(2, 2, alphabet(2, 2, PLAIN), 0, mc::thorough() ? 3 : 2, [](const Sys& s) { validate(s, 7); }); }},
        {"large", [] { large::each(large::sizes(mc::thorough()), check_large); large::each({1000,5000}, check_large); }},
        {"sets2", [] { auto P = pairs(2, 2, P22), X = pairs(2, 2, P22x); P.insert(P.end(), X.begin(), X.end());
            subsets(2, 2, alphabet(2, 2, PLAIN | WILD | SETS | NOOPS), 0, 2, [&](const Sys& s) { for (auto& p : P) check(s, p, true, true); }); }},
        {"oneaut", [] { std::vector<Aut> A; all_one_state(2, 2, true, [&](const Aut& a) { A.push_back(a); }); auto al = alphabet(2, 2, PLAIN);
            // every one-state automaton against every singleton-rule system and a fixed partner, both ways round
            Aut f = aut(2, 2, "1ab,0,1b+"), i = aut(2, 2, "0ab,1b,0");
            subsets(2, 2, al, 0, 1, [&](const Sys& s) { for (auto& a : A) { check(s, {a, f, "initial enumerated"}, false, false); check(s, {i, a, "final enumerated"}, false, false); } }); }},
        {"sets3", [] { auto P = pairs(2, 2, P22); subsets(2, 2, alphabet(2, 2, PLAIN | WILD | NOOPS), 3, 3, [&](const Sys& s) { size_t k = mc::thorough() ? P.size() : 4; for (size_t j = 0; j < k; ++j) check(s, P[j], mc::thorough(), false); }); }},
        {"det22", [] { auto P = pairs(2, 2, P22); deterministic(2, 2, mc::thorough(), [&](const Sys& s) { for (auto& p : P) check(s, p, true, mc::thorough()); }); }},
        {"all21", [] { auto P = pairs(2, 1, P21); subsets(2, 1, alphabet(2, 1, PLAIN | (mc::thorough() ? NOOPS : 0)), 0, 99, [&](const Sys& s) { for (auto& p : P) check(s, p, true, true); }); }},
        {"all12", [] { auto P = pairs(1, 2, P12); subsets(1, 2, alphabet(1, 2, PLAIN), 0, 99, [&](const Sys& s) { for (auto& p : P) check(s, p, true, true); }); }},
        {"sets31", [] { auto P = pairs(3, 1, P31); subsets(3, 1, alphabet(3, 1, PLAIN), 1, mc::thorough() ? 5 : 4, [&](const Sys& s) { for (auto& p : P) check(s, p, s.rules.size() <= 4, s.rules.size() <= 3); }); }},
        {"sets23", [] { auto P = pairs(2, 3, P23); subsets(2, 3, alphabet(2, 3, PLAIN | WILD | SETS), 1, 2, [&](const Sys& s) { for (auto& p : P) check(s, p, true, false); }); }},
        {"sets4", [] { if (!mc::thorough()) return; auto P = pairs(2, 2, P22); subsets(2, 2, alphabet(2, 2, PLAIN), 4, 4, [&](const Sys& s) { for (auto& p : P) check(s, p, false, false); }); }},
    };
    return mc::main_(argc, argv, c);
}
