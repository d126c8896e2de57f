// C04: shortest-trace engines return an optimal run for non-negative weights, and report its weight.
#include "trace_check.h"
#include "spaces.h"
#include "large.h"
using namespace fam; using namespace eng; using namespace spaces;
enum Ty { UINT = 1, INT = 2, VEC = 4, ARR = 8 };
static void check(const Sys& s, const Pair& pr, int types) {
    mc::run_case([&] { return desc(s, pr); }, [&] {
        auto want = min_weight(s, pr.i, pr.f);
        mc::count("states", s.rules.size() + 1); if (want && *want != WV{0, 0, 0}) mc::count("nontrivial");
        auto one = [&](const Out& o, const char* what, Engine e) {
            mc::count("impl_runs"); mc::count("transitions", o.trace.size());
            auto who = [&] { return std::string(what) + " " + name(e) + " shortest: "; };
            if (o.verdict != want.has_value()) mc::fail(who() + "answers " + (o.verdict ? "yes" : "no") + ", the truth is " + (want ? "yes" : "no"));
            if (!o.verdict) return;
            if (wv(o.weight) != *want) mc::fail(who() + "reports weight " + str(wv(o.weight)) + ", the minimum is " + str(*want) + "; trace " + tc::str_trace(o.trace));
            auto err = tc::genuine(s, &pr.i, &pr.f, o.trace); if (!err.empty()) mc::fail(who() + err);
            if (tc::cost(s, o.trace) != *want) mc::fail(who() + "the returned trace weighs " + str(tc::cost(s, o.trace)) + ", reported minimum " + str(*want) + ": " + tc::str_trace(o.trace));
            if (o.has_rules) { err = tc::rule_trace(s, pr.i, pr.f, o); if (!err.empty()) mc::fail(who() + err); if (wv(o.rules_total) != *want) mc::fail(who() + "rule trace reported with weight " + str(wv(o.rules_total)) + ", the minimum is " + str(*want)); }
        };
        if (types & UINT) one(run_uint(POST, T_NOET_SHORTEST, s, pr.i, pr.f), "uint, without early termination,", POST);
        for (Engine e : {POST, PRE, DUAL}) {
            if (types & UINT) one(run_uint(e, T_SHORTEST, s, pr.i, pr.f, true), "uint", e);
            if (types & INT) one(run_int(e, T_SHORTEST, s, pr.i, pr.f), "int", e);
            if (types & VEC) one(run_vec(e, T_SHORTEST, s, pr.i, pr.f), "vector<uint>", e);
            if (types & ARR) one(run_arr(e, T_SHORTEST, s, pr.i, pr.f), "array<uint,2>", e);
        }
    });
}
// weights of single memberships after shortest saturation
static void member(const Sys& s, const std::string& text) {
    Aut a = aut(s.n, s.labels, text);
    mc::run_case([&] { return str(s) + "\nsaturated automaton {" + text + "} " + str(a); }, [&] {
        auto q = all_confs(s.n, s.labels, 2);
        auto D = pre_star_min(s, a);
        for (bool post : {false, true}) {
            auto m = saturate_uint(post, true, s, a, q, true);
            for (size_t k = 0; k < q.size(); ++k) {
                mc::count("impl_runs");
                std::optional<WV> want = post ? min_weight(s, a, single(s, q[k])) : min_weight_conf(D, a, q[k]);
                auto who = [&] { return std::string(post ? "after shortest post* " : "after shortest pre* ") + str(q[k]) + ": "; };
                if (m[k].accepts != want.has_value()) mc::fail(who() + "accepted=" + std::to_string(m[k].accepts) + " truth=" + std::to_string(want.has_value()));
                if (want.has_value() == m[k].is_max) mc::fail(who() + "weight is the unreachable value although the configuration is " + (want ? "reachable" : "unreachable"));
                if (!want) continue;
                if (wv(m[k].weight) != *want) mc::fail(who() + "weight " + str(wv(m[k].weight)) + ", minimum " + str(*want));
                auto err = post ? tc::genuine(s, &a, nullptr, m[k].trace) : tc::genuine(s, nullptr, &a, m[k].trace);
                if (err.empty() && tc::cost(s, m[k].trace) != *want) err = "trace weighs " + str(tc::cost(s, m[k].trace)) + ", minimum " + str(*want) + ": " + tc::str_trace(m[k].trace);
                if (!err.empty()) mc::fail(who() + err);
            }
        }
        auto m = query_uint(T_SHORTEST, s, a, q);
        for (size_t k = 0; k < q.size(); ++k) {
            mc::count("impl_runs"); std::optional<WV> want = min_weight_conf(D, a, q[k]); auto who = [&] { return "shortest pre_star_accepts of " + str(q[k]) + ": "; };
            if (m[k].accepts != want.has_value()) mc::fail(who() + "answers " + (want ? "no" : "yes")); if (!want) continue;
            if (wv(m[k].weight) != *want) mc::fail(who() + "weight " + str(wv(m[k].weight)) + ", minimum " + str(*want));
            auto err = tc::genuine(s, nullptr, &a, m[k].trace); if (err.empty() && tc::cost(s, m[k].trace) != *want) err = "trace weighs " + str(tc::cost(s, m[k].trace)) + ", minimum " + str(*want);
            if (!err.empty()) mc::fail(who() + err);
        }
    });
}
static void check_large(const large::Big& b) {
    Aut i = large::aut_of(b.s, b.init), f = large::aut_of(b.s, b.fin);
    mc::run_case([&] { return b.name; }, [&] {
        large::Graph g(b); mc::count("states", g.conf.size()); mc::count("transitions", g.edges.size()); if (g.yes && g.mn) mc::count("nontrivial");
        auto one = [&](const Out& o, const char* what, Engine e) {
            mc::count("impl_runs"); auto who = [&] { return std::string(what) + " " + name(e) + " shortest: "; };
            if (o.verdict != g.yes) mc::fail(who() + "wrong verdict"); if (!o.verdict) return;
            if (wv(o.weight)[0] != g.mn) mc::fail(who() + "reports weight " + str(wv(o.weight)) + ", the minimum is " + std::to_string(g.mn));
            auto err = tc::genuine(b.s, &i, &f, o.trace); if (!err.empty()) mc::fail(who() + err);
            if (tc::cost(b.s, o.trace)[0] != g.mn) mc::fail(who() + "the returned trace weighs " + str(tc::cost(b.s, o.trace)) + ", the minimum is " + std::to_string(g.mn));
            if (o.has_rules) { err = tc::rule_trace(b.s, i, f, o); if (!err.empty()) mc::fail(who() + err); if (wv(o.rules_total)[0] != g.mn) mc::fail(who() + "rule trace weighs " + str(wv(o.rules_total))); }
        };
        for (Engine e : {POST, PRE, DUAL}) { one(run_uint(e, T_SHORTEST, b.s, i, f, true), "uint", e); if (b.s.n <= 80) one(run_int(e, T_SHORTEST, b.s, i, f), "int", e), one(run_vec(e, T_SHORTEST, b.s, i, f), "vector<uint>", e), one(run_arr(e, T_SHORTEST, b.s, i, f), "array<uint,2>", e); }
    });
}
int main(int argc, char** argv) {
    mc::Check c; c.property = "C04";
    c.rule = "every weighted system of the families x automaton pair x engine x weight type; the reported weight, the verdict and the cost of the returned trace are compared with the exact minimum; non-trivial = minimum is non-zero";
    c.assumptions = {"non-negative weights", "P-automata have no edges into control states and no epsilon edges"};
    c.bounds_quick = "2x1: all rule sets <=4 with weights {0,1,3}; 2x2: <=2 rules with weights {0,1,5}, <=3 rules with all-distinct weights; 3x1 <=4; 1x2 all subsets with position-dependent weights; vector/array weights on 2x1 <=3; large: parametric families as in C01";
    c.bounds_thorough = c.bounds_quick + "; 2x1 <=5 rules, 2x2 3 rules with weights {1,4}, deterministic 2x2 with weights {1,3}";
    static const std::vector<std::vector<long>> W013{{0}, {1}, {3}}, W015{{0}, {1}, {5}}, W14{{1}, {4}}, WV3{{}, {1}, {0, 1}, {1, 0}, {0, 0, 2}}, WA{{0, 0}, {1, 0}, {0, 2}, {1, 1}};
    c.suites = {
        {"large", [] { large::each(large::sizes(mc::thorough()), check_large); }},
        {"w21", [] { auto P = pairs(2, 1, P21); subsets(2, 1, alphabet(2, 1, PLAIN), 1, mc::thorough() ? 5 : 4, [&](const Sys& s0) { weightings(s0, W013, [&](const Sys& s) { for (auto& p : P) check(s, p, UINT); }); }); }},
        {"w22", [] { auto P = pairs(2, 2, P22), X = pairs(2, 2, P22x); P.insert(P.end(), X.begin(), X.end()); subsets(2, 2, alphabet(2, 2, PLAIN | WILD | NOOPS), 1, 2, [&](const Sys& s0) { weightings(s0, W015, [&](const Sys& s) { for (auto& p : P) check(s, p, UINT); }); }); }},
        {"w22x3", [] { auto P = pairs(2, 2, P22); subsets(2, 2, alphabet(2, 2, PLAIN | WILD), 3, 3, [&](const Sys& s0) {
            if (mc::thorough()) weightings(s0, W14, [&](const Sys& s) { for (auto& p : P) check(s, p, UINT); });
            else { Sys s = s0; s.rules[0].w = {1}; s.rules[1].w = {4}; s.rules[2].w = {2}; for (size_t j = 0; j < 4; ++j) check(s, P[j], UINT); s.rules[0].w = {7}; s.rules[1].w = {1}; s.rules[2].w = {0}; for (size_t j = 4; j < 6; ++j) check(s, P[j], UINT); } }); }},
        {"w31", [] { auto P = pairs(3, 1, P31); subsets(3, 1, alphabet(3, 1, PLAIN), 1, 4, [&](const Sys& s0) { Sys s = s0; std::vector<long> w{5, 1, 2, 9}; for (size_t i = 0; i < s.rules.size(); ++i) s.rules[i].w = {w[i]}; for (auto& p : P) check(s, p, UINT); w = {1, 3, 1, 0}; for (size_t i = 0; i < s.rules.size(); ++i) s.rules[i].w = {w[i]}; for (auto& p : P) check(s, p, UINT); }); }},
        {"w12", [] { auto P = pairs(1, 2, P12); subsets(1, 2, alphabet(1, 2, PLAIN), 1, 99, [&](const Sys& s0) { for (int m = 1; m < 5; ++m) { Sys s = s0; for (size_t i = 0; i < s.rules.size(); ++i) s.rules[i].w = {(long)((i * m + m * m) % 7)}; for (auto& p : P) check(s, p, UINT); } }); }},
        {"det22", [] { auto P = pairs(2, 2, P22); deterministic(2, 2, false, [&](const Sys& s0) { Sys s = s0; if (mc::thorough()) weightings(s0, {{1}, {3}}, [&](const Sys& x) { for (auto& p : P) check(x, p, UINT); }); else { for (size_t i = 0; i < s.rules.size(); ++i) s.rules[i].w = {(long)(i * 2 + 1)}; for (auto& p : P) check(s, p, UINT); } }); }},
        {"types21", [] { auto P = pairs(2, 1, P21);
            subsets(2, 1, alphabet(2, 1, PLAIN), 1, 3, [&](const Sys& s0) { weightings(s0, {{0}, {2}}, [&](const Sys& s) { for (auto& p : P) check(s, p, INT); });
                weightings(s0, WV3, [&](const Sys& s) { for (size_t j = 0; j < 3; ++j) check(s, P[j], VEC); }); weightings(s0, WA, [&](const Sys& s) { for (size_t j = 0; j < 3; ++j) check(s, P[j], ARR); }); }); }},
        {"member", [] { subsets(2, 2, alphabet(2, 2, PLAIN), 1, 2, [&](const Sys& s0) { weightings(s0, {{0}, {1}, {4}}, [&](const Sys& s) { for (auto t : {"1b", "0,1ba", "0a+,1ab"}) member(s, t); }); });
            deterministic(2, 2, false, [&](const Sys& s0) { Sys s = s0; for (size_t i = 0; i < s.rules.size(); ++i) s.rules[i].w = {(long)((i * 5 + 2) % 4)}; member(s, "0ab,1"); });
            subsets(2, 1, alphabet(2, 1, PLAIN), 1, 4, [&](const Sys& s0) { weightings(s0, {{1}, {3}}, [&](const Sys& s) { member(s, "1aa,0a"); }); }); }},
    };
    return mc::main_(argc, argv, c);
}
