// C03: every returned trace is a genuine run.
#include "trace_check.h"
#include "spaces.h"
#include "large.h"
using namespace fam; using namespace eng; using namespace spaces;
static void check(const Sys& s, const Pair& pr, bool weighted, bool fixed) {
    mc::run_case([&] { return desc(s, pr); }, [&] {
        auto one = [&](const Out& o, const char* what, Engine e, Trace t) {
            mc::count("impl_runs");
            if (!o.verdict) return;
            mc::count("states", o.trace.size()); mc::count("transitions", o.trace.size() ? o.trace.size() - 1 : 0);
            if (o.trace.size() > 1) mc::count("nontrivial");
            if (o.has_trace && !o.infinite) { auto err = tc::genuine(s, &pr.i, &pr.f, o.trace); if (!err.empty()) mc::fail(std::string(what) + " " + name(e) + " trace option " + name(t) + ": " + err); }
            if (o.has_rules) { auto err = tc::rule_trace(s, pr.i, pr.f, o); if (!err.empty()) mc::fail(std::string(what) + " " + name(e) + ": " + err); }
        };
        for (Engine e : {POST, PRE, DUAL}) one(run_void(e, T_ANY, s, pr.i, pr.f, true), "unweighted", e, T_ANY);
        for (Engine e : {POST, PRE}) one(run_void(e, T_NOET, s, pr.i, pr.f), "unweighted", e, T_NOET);
        if (weighted) one(run_uint(POST, T_NOET_SHORTEST, s, pr.i, pr.f), "uint-weighted", POST, T_NOET_SHORTEST);
        if (weighted) for (Engine e : {POST, PRE, DUAL}) for (Trace t : {T_ANY, T_SHORTEST}) one(run_uint(e, t, s, pr.i, pr.f, true), "uint-weighted", e, t);
        if (fixed) for (Engine e : {POST, PRE, DUAL}) for (Trace t : {T_LONGEST, T_SFP}) one(fp_uint(e, t, s, pr.i, pr.f), "uint fixed-point", e, t);
    });
}
// traces of single memberships after saturation
static void member(const Sys& s, const std::string& text) {
    Aut a = aut(s.n, s.labels, text);
    mc::run_case([&] { return str(s) + "\nsaturated automaton {" + text + "} " + str(a); }, [&] {
        auto q = all_confs(s.n, s.labels, 3);
        for (int v = 0; v < 4; ++v) {
            bool post = v == 1; auto m = v < 2 ? saturate_void(post, s, a, q, true) : v == 2 ? query_void(T_ANY, s, a, q) : query_uint(T_SHORTEST, s, a, q);
            for (size_t k = 0; k < q.size(); ++k) if (m[k].accepts && m[k].traced) {
                mc::count("impl_runs"); mc::count("states", m[k].trace.size());
                auto err = post ? tc::genuine(s, &a, nullptr, m[k].trace) : tc::genuine(s, nullptr, &a, m[k].trace);
                if (err.empty() && !((post ? m[k].trace.back() : m[k].trace.front()) == q[k])) err = "trace does not contain the queried configuration at its end: " + tc::str_trace(m[k].trace);
                if (!err.empty()) mc::fail(std::string(v == 1 ? "after post*" : v == 0 ? "after pre*" : v == 2 ? "after pre_star_accepts" : "after shortest pre_star_accepts") + " trace of " + str(q[k]) + ": " + err);
            }
        }
    });
}
static void check_weighted(const Sys& s, const Pair& pr, int ty) {
    mc::run_case([&] { return desc(s, pr); }, [&] {
        auto one = [&](const Out& o, const char* what, Engine e, Trace t) {
            mc::count("impl_runs"); if (!o.verdict || o.infinite) return;
            mc::count("states", o.trace.size()); mc::count("transitions", o.trace.size() ? o.trace.size() - 1 : 0); if (o.trace.size() > 1) mc::count("nontrivial");
            auto err = tc::genuine(s, &pr.i, &pr.f, o.trace); if (!err.empty()) mc::fail(std::string(what) + " " + name(e) + " trace option " + name(t) + ": " + err);
        };
        if (ty == 0) for (Engine e : {POST, PRE, DUAL}) { one(run_int(e, T_ANY, s, pr.i, pr.f), "int-weighted", e, T_ANY); for (Trace t : {T_LONGEST, T_SFP}) one(fp_int(e, t, s, pr.i, pr.f), "int fixed-point", e, t); }
        if (ty == 1) for (Engine e : {POST, PRE, DUAL}) for (Trace t : {T_ANY, T_SHORTEST}) one(run_vec(e, t, s, pr.i, pr.f), "vector-weighted", e, t);
        if (ty == 2) for (Engine e : {POST, PRE, DUAL}) for (Trace t : {T_ANY, T_SHORTEST}) one(run_arr(e, t, s, pr.i, pr.f), "array-weighted", e, t);
    });
}
static const std::vector<std::vector<long>> WT[3] = {{{-3}, {0}, {2}}, {{}, {1}, {0, 1}}, {{0, 0}, {1, 0}, {0, 2}}};
static void check_large(const large::Big& b) {
    Aut i = large::aut_of(b.s, b.init), f = large::aut_of(b.s, b.fin);
    mc::run_case([&] { return b.name; }, [&] {
        auto one = [&](const Out& o, const char* what, Engine e, Trace t) {
            mc::count("impl_runs"); if (!o.verdict || o.infinite) return;
            mc::count("states", o.trace.size()); mc::count("transitions", o.trace.size() ? o.trace.size() - 1 : 0); if (o.trace.size() > 1) mc::count("nontrivial");
            auto err = tc::genuine(b.s, &i, &f, o.trace); if (err.empty() && o.has_rules) err = tc::rule_trace(b.s, i, f, o);
            if (!err.empty()) mc::fail(std::string(what) + " " + name(e) + " trace option " + name(t) + ": " + err);
        };
        for (Engine e : {POST, PRE, DUAL}) { one(run_void(e, T_ANY, b.s, i, f, true), "unweighted", e, T_ANY); for (Trace t : {T_ANY, T_SHORTEST}) one(run_uint(e, t, b.s, i, f, true), "uint-weighted", e, t); if (b.s.n <= 80) for (Trace t : {T_LONGEST, T_SFP}) one(fp_uint(e, t, b.s, i, f), "uint fixed-point", e, t); }
        one(run_void(POST, T_NOET, b.s, i, f), "unweighted", POST, T_NOET);
    });
}
int main(int argc, char** argv) {
    mc::Check c; c.property = "C03";
    c.rule = "every system of the families x automaton pair x engine/trace option; each returned trace is replayed step by step against the rules; non-trivial = trace with at least one step";
    c.assumptions = {"P-automata have no edges into control states and no epsilon edges", "infinite-weight answers carry no trace (documented TODO) and are excluded here"};
    c.bounds_quick = "as C01 (2x2 rule sets <=3, deterministic 2x2, all 2x1 and 1x2 subsets, 3x1 <=4, 2x3 <=2), weights 0/1/3 on 2x1 <=4 rules and 2x2 <=2 rules; large: parametric families as in C01";
    c.bounds_thorough = c.bounds_quick + "; 2x2 rule sets of 4, 3x1 of 5, weighted 2x2 <=3 rules";
    c.suites = {
        {"weights21", [] { auto P = pairs(2, 1, P21); for (int ty = 0; ty < 3; ++ty) subsets(2, 1, alphabet(2, 1, PLAIN | NOOPS), 1, 3, [&](const Sys& s0) { weightings(s0, WT[ty], [&](const Sys& s) { for (auto& p : P) check_weighted(s, p, ty); }); }); }},
        {"weights22", [] { auto P = pairs(2, 2, P22); for (int ty = 0; ty < 3; ++ty) subsets(2, 2, alphabet(2, 2, PLAIN | WILD), 1, 2, [&](const Sys& s0) { weightings(s0, WT[ty], [&](const Sys& s) { for (auto& p : P) check_weighted(s, p, ty); }); }); }},
        {"large", [] { large::each(large::sizes(mc::thorough()), check_large); }},
        {"sets2", [] { auto P = pairs(2, 2, P22), X = pairs(2, 2, P22x); P.insert(P.end(), X.begin(), X.end());
            subsets(2, 2, alphabet(2, 2, PLAIN | WILD | SETS | NOOPS), 0, 2, [&](const Sys& s) { for (auto& p : P) check(s, p, true, true); }); }},
        {"member", [] { subsets(2, 2, alphabet(2, 2, PLAIN | WILD), 1, 2, [&](const Sys& s) { for (auto t : {"1b", "0,1ba", "0a+,1ab"}) member(s, t); }); deterministic(2, 2, false, [&](const Sys& s) { member(s, "0ab,1"); }); }},
        {"sets3", [] { auto P = pairs(2, 2, P22); subsets(2, 2, alphabet(2, 2, PLAIN | WILD | NOOPS), 3, 3, [&](const Sys& s) { for (size_t j = 0; j < (mc::thorough() ? P.size() : 4); ++j) check(s, P[j], mc::thorough(), false); }); }},
        {"det22", [] { auto P = pairs(2, 2, P22); deterministic(2, 2, mc::thorough(), [&](const Sys& s) { for (auto& p : P) check(s, p, true, true); }); }},
        {"all21", [] { auto P = pairs(2, 1, P21); subsets(2, 1, alphabet(2, 1, PLAIN), 0, 99, [&](const Sys& s) { for (auto& p : P) check(s, p, true, true); }); }},
        {"all12", [] { auto P = pairs(1, 2, P12); subsets(1, 2, alphabet(1, 2, PLAIN), 0, 99, [&](const Sys& s) { for (auto& p : P) check(s, p, true, true); }); }},
        {"sets31", [] { auto P = pairs(3, 1, P31); subsets(3, 1, alphabet(3, 1, PLAIN), 1, mc::thorough() ? 5 : 4, [&](const Sys& s) { for (auto& p : P) check(s, p, s.rules.size() <= 4, s.rules.size() <= 3); }); }},
        {"sets23", [] { auto P = pairs(2, 3, P23); subsets(2, 3, alphabet(2, 3, PLAIN | WILD | SETS), 1, 2, [&](const Sys& s) { for (auto& p : P) check(s, p, true, false); }); }},
        {"w21", [] { auto P = pairs(2, 1, P21); subsets(2, 1, alphabet(2, 1, PLAIN), 1, 4, [&](const Sys& s0) { weightings(s0, {{0}, {1}, {3}}, [&](const Sys& s) { for (size_t j = 0; j < 4; ++j) check(s, P[j], true, s.rules.size() <= 3); }); }); }},
        {"w22", [] { auto P = pairs(2, 2, P22); subsets(2, 2, alphabet(2, 2, PLAIN), 1, mc::thorough() ? 3 : 2, [&](const Sys& s0) { weightings(s0, {{1}, {3}}, [&](const Sys& s) { for (size_t j = 0; j < 4; ++j) check(s, P[j], true, true); }); }); }},
        {"sets4", [] { if (!mc::thorough()) return; auto P = pairs(2, 2, P22); subsets(2, 2, alphabet(2, 2, PLAIN), 4, 4, [&](const Sys& s) { for (auto& p : P) check(s, p, false, false); }); }},
    };
    return mc::main_(argc, argv, c);
}
