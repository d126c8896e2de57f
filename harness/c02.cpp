// C02: after saturation the automaton accepts exactly the predecessors / successors.
#include "trace_check.h"
#include "spaces.h"
#include "large.h"
using namespace fam; using namespace eng; using namespace spaces;
static void check(const Sys& s, const Aut& a, int h, bool weighted) {
    mc::run_case([&] { return str(s) + "\nsaturated automaton " + str(a); }, [&] {
        auto q = all_confs(s.n, s.labels, h);
        uint64_t steps = 0; auto B = pre_star(s, a, &steps);
        mc::count("states", q.size());
        for (bool post : {false, true}) for (int eng = 0; eng < (weighted ? 5 : 1); ++eng) {
            auto m = eng >= 3 ? (eng == 3 ? saturate_void(post, s, a, q, false, nullptr, true) : saturate_uint(post, false, s, a, q, false, true)) : eng == 0 ? saturate_void(post, s, a, q, false) : saturate_uint(post, eng == 2, s, a, q, false);
            for (size_t k = 0; k < q.size(); ++k) {
                bool want = post ? reachable(s, a, single(s, q[k])) : accepts(B, a, q[k]);
                mc::count("impl_runs"); if (want && !accepts(a, q[k])) mc::count("nontrivial");
                auto who = [&] { return std::string(eng == 0 ? "unweighted " : eng == 1 ? "uint-weighted " : eng == 2 ? "uint-weighted shortest " : eng == 3 ? "unweighted no-trace " : "uint-weighted no-trace ") + (post ? "post*" : "pre*") + ": configuration " + str(q[k]) + " "; };
                if (m[k].accepts != want) mc::fail(who() + (want ? "is missing from the saturated automaton" : "is accepted but should not be"));
                if (!m[k].path.empty() != want) mc::fail(who() + "accept_path disagrees: truth " + std::to_string(want));
                if (want && m[k].path[0] != (size_t)q[k].p) mc::fail(who() + "accept_path does not start in the control state");
            }
        }
        mc::count("transitions", steps);
    });
}
// large systems: every reachable configuration and its neighbours, against the explicit configuration graph
static void check_large(const large::Big& b) {
    mc::run_case([&] { return b.name; }, [&] {
        large::Graph g(b); large::Big nb = b; std::set<Conf> q0(g.conf.begin(), g.conf.end());
        for (auto& c : g.conf) { // neighbours: other state, other top, other bottom, one symbol more or less
            Conf d = c; d.p = (c.p + 1) % b.s.n; q0.insert(d);
            if (!c.s.empty()) { d = c; d.s[0] = (c.s[0] + 1) % b.s.labels; q0.insert(d); d = c; d.s.back() = (c.s.back() + 1) % b.s.labels; q0.insert(d); d = c; d.s.pop_back(); q0.insert(d); d = c; d.s.erase(d.s.begin()); q0.insert(d); }
            d = c; d.s.push_back(0); q0.insert(d);
        }
        std::vector<Conf> q(q0.begin(), q0.end()); nb.init = q; large::Graph back(nb); // which of them can reach the final set
        Aut i = large::aut_of(b.s, b.init), f = large::aut_of(b.s, b.fin);
        mc::count("states", back.conf.size()); mc::count("transitions", back.edges.size());
        for (bool post : {false, true}) for (int eng = 0; eng < 3; ++eng) {
            auto m = eng == 0 ? saturate_void(post, b.s, post ? i : f, q, false) : saturate_uint(post, eng == 2, b.s, post ? i : f, q, false);
            for (size_t k = 0; k < q.size(); ++k) {
                bool want = post ? g.id.count(q[k]) : back.can[back.id[q[k]]]; mc::count("impl_runs"); if (want) mc::count("nontrivial");
                auto who = [&] { return std::string(eng == 0 ? "unweighted " : eng == 1 ? "uint-weighted " : "uint-weighted shortest ") + (post ? "post*" : "pre*") + ": configuration " + str(q[k]) + " "; };
                if (m[k].accepts != want) mc::fail(who() + (want ? "is missing from the saturated automaton" : "is accepted but should not be"));
                if (!m[k].path.empty() != want) mc::fail(who() + "accept_path disagrees: truth " + std::to_string(want));
            }
        }
    });
}
int main(int argc, char** argv) {
    mc::Check c; c.property = "C02";
    c.rule = "every system of the families x starting automaton; all configurations up to a stack height are queried; non-trivial = configuration added by saturation";
    c.assumptions = {"P-automata have no edges into control states and no epsilon edges"};
    c.bounds_quick = "2x2 <=2 rules over 96 rules x 10 automata, 3 rules over 60 x 2 automata, deterministic 2x2; 2x1 all subsets (stack height <=4); 3x1 <=3; every one-extra-state automaton x single rules; configurations up to height 3; large: parametric families of sizes 1-40, 64, 65, 128, 129";
    c.bounds_thorough = c.bounds_quick + "; 2x2 3 rules x all automata, 4 rules over 40 x 2 automata, 3x1 <=4, 2x3 <=2";
    static const std::vector<std::string> A22 = {"1b", "0,1ba", "0a+,1ab", "1", "0ab", "1%", "0aa,1bb+", "0b,1a", "0aba", "0%"};
    c.suites = {
        {"large", [] { auto z = large::sizes(mc::thorough()); if (!mc::thorough()) z.resize(40), z.push_back(64), z.push_back(65), z.push_back(128), z.push_back(129); large::each(z, check_large); }},
        {"sets2", [] { subsets(2, 2, alphabet(2, 2, PLAIN | WILD | SETS | NOOPS), 0, 2, [&](const Sys& s) { for (auto& t : A22) check(s, aut(2, 2, t), 3, true); }); }},
        {"sets3", [] { subsets(2, 2, alphabet(2, 2, PLAIN | WILD), 3, 3, [&](const Sys& s) { for (size_t j = 0; j < (mc::thorough() ? A22.size() : 2); ++j) check(s, aut(2, 2, A22[j]), 2, mc::thorough()); }); }},
        {"det22", [] { deterministic(2, 2, mc::thorough(), [&](const Sys& s) { for (size_t j = 0; j < 5; ++j) check(s, aut(2, 2, A22[j]), 3, false); }); }},
        {"all21", [] { subsets(2, 1, alphabet(2, 1, PLAIN), 0, 99, [&](const Sys& s) { for (auto t : {"1", "0a", "1aa", "0aaa,1a", "0a+"}) check(s, aut(2, 1, t), 4, true); }); }},
        {"all12", [] { subsets(1, 2, alphabet(1, 2, PLAIN | NOOPS), 0, 99, [&](const Sys& s) { for (auto t : {"0", "0a", "0ba", "0ab+"}) check(s, aut(1, 2, t), 3, false); }); }},
        {"sets31", [] { subsets(3, 1, alphabet(3, 1, PLAIN), 1, mc::thorough() ? 4 : 3, [&](const Sys& s) { for (auto t : {"2", "2a", "0aa", "1a,2aa"}) check(s, aut(3, 1, t), 3, false); }); }},
        {"oneaut", [] { std::vector<Aut> A; all_one_state(2, 2, true, [&](const Aut& a) { A.push_back(a); }); subsets(2, 2, alphabet(2, 2, PLAIN), 0, 1, [&](const Sys& s) { for (auto& a : A) check(s, a, 2, false); }); }},
        {"sets23", [] { if (mc::thorough()) subsets(2, 3, alphabet(2, 3, PLAIN | WILD | SETS), 1, 2, [&](const Sys& s) { for (auto t : {"0ab,1c", "1"}) check(s, aut(2, 3, t), 2, false); }); }},
        {"sets4", [] { if (mc::thorough()) subsets(2, 2, alphabet(2, 2, PLAIN), 4, 4, [&](const Sys& s) { for (size_t j = 0; j < 2; ++j) check(s, aut(2, 2, A22[j]), 2, false); }); }},
    };
    return mc::main_(argc, argv, c);
}
