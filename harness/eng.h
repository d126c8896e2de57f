// Plain interface to the engines of the code under test (implemented by eng_*.cpp, one translation unit per weight type).
#pragma once
#include "ref.h"
namespace eng {
enum Engine { POST, PRE, DUAL };
enum Trace { T_NONE, T_ANY, T_SHORTEST, T_NOET, T_LONGEST, T_SFP, T_NOET_SHORTEST };
inline const char* name(Engine e) { return e == POST ? "post*" : e == PRE ? "pre*" : "dual*"; }
inline const char* name(Trace t) { switch (t) { case T_NONE: return "none"; case T_ANY: return "any"; case T_SHORTEST: return "shortest"; case T_NOET: return "no-early-termination"; case T_LONGEST: return "longest"; case T_NOET_SHORTEST: return "no-early-termination shortest"; default: return "shortest-fixed-point"; } }
struct App { size_t from, to; uint32_t pre; int op; uint32_t oplabel; std::vector<long> w; };
struct Out {
    bool verdict = false;
    bool has_trace = false; std::vector<ref::Conf> trace;
    bool has_weight = false; std::vector<long> weight; bool infinite = false;
    bool has_rules = false, rules_weighted = false, has_rules_total = false; std::vector<long> rules_total; size_t rt_state = 0; std::vector<App> rules; std::vector<uint32_t> istack, fstack; std::vector<size_t> ipath, fpath;
};
struct Member { bool accepts = false; std::vector<size_t> path; bool traced = false; std::vector<ref::Conf> trace; bool has_weight = false; bool is_max = false; std::vector<long> weight; };
// want_rules: also ask for the rule trace with the accepting paths (T_ANY; T_SHORTEST except for dual*)
Out run_void(Engine, Trace, const ref::Sys&, const ref::Aut& init, const ref::Aut& fin, bool want_rules = false);
Out run_uint(Engine, Trace, const ref::Sys&, const ref::Aut& init, const ref::Aut& fin, bool want_rules = false);
Out run_int(Engine, Trace, const ref::Sys&, const ref::Aut& init, const ref::Aut& fin);
Out run_vec(Engine, Trace, const ref::Sys&, const ref::Aut& init, const ref::Aut& fin);   // std::vector<uint32_t>
Out run_arr(Engine, Trace, const ref::Sys&, const ref::Aut& init, const ref::Aut& fin);   // std::array<uint32_t,2>
Out fp_uint(Engine, Trace, const ref::Sys&, const ref::Aut& init, const ref::Aut& fin);   // fixed-point engines
Out fp_int(Engine, Trace, const ref::Sys&, const ref::Aut& init, const ref::Aut& fin);
Out fp_vint(Engine, Trace, const ref::Sys&, const ref::Aut& init, const ref::Aut& fin);   // std::vector<int32_t>
Out fp_vuint(Engine, Trace, const ref::Sys&, const ref::Aut& init, const ref::Aut& fin);  // std::vector<uint32_t>
Out fp_aint(Engine, Trace, const ref::Sys&, const ref::Aut& init, const ref::Aut& fin);   // std::array<int32_t,3>
// Solver::pre_star_accepts / get_trace on one automaton and one configuration at a time (a fresh automaton for each), trace = T_NONE, T_ANY or T_SHORTEST
std::vector<Member> query_void(Trace, const ref::Sys&, const ref::Aut& a, const std::vector<ref::Conf>& q);
std::vector<Member> query_uint(Trace, const ref::Sys&, const ref::Aut& a, const std::vector<ref::Conf>& q);
// saturate `a` forward/backward and query memberships afterwards
std::vector<Member> saturate_void(bool post, const ref::Sys&, const ref::Aut& a, const std::vector<ref::Conf>& q, bool traces, ref::Aut* out = nullptr, bool none = false);
std::vector<Member> saturate_uint(bool post, bool shortest, const ref::Sys&, const ref::Aut& a, const std::vector<ref::Conf>& q, bool traces, bool none = false);
}
