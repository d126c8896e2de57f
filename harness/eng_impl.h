#pragma once
#include "eng.h"
#include <pdaaal/Solver.h>
#include <pdaaal/SolverInstance.h>
namespace eng {
using namespace pdaaal;
template<typename T> struct conv { static T to(const std::vector<long>& w) { return (T)(w.empty() ? 0 : w[0]); } static std::vector<long> from(const T& t) { return {(long)t}; } };
template<typename I> struct conv<std::vector<I>> { static std::vector<I> to(const std::vector<long>& w) { return std::vector<I>(w.begin(), w.end()); } static std::vector<long> from(const std::vector<I>& t) { return std::vector<long>(t.begin(), t.end()); } };
template<typename I, size_t N> struct conv<std::array<I, N>> { static std::array<I, N> to(const std::vector<long>& w) { std::array<I, N> a{}; for (size_t i = 0; i < N && i < w.size(); ++i) a[i] = (I)w[i]; return a; } static std::vector<long> from(const std::array<I, N>& t) { return std::vector<long>(t.begin(), t.end()); } };

template<typename W> using pda_of = PDA<int, W>;
template<typename W, TraceInfoType ti = TraceInfoType::Single> using aut_of = PAutomaton<int, W, size_t, true, ti>;

template<typename W> void fill(pda_of<W>& pda, const ref::Sys& s) {
    for (int l = 0; l < s.labels; ++l) pda.insert_label(l);
    for (int i = 0; i < s.n; ++i) pda.insert_state(i);
    for (auto& r : s.rules) {
        std::vector<int> pre(r.pre);
        if constexpr (W::is_weight) pda.add_rule((size_t)r.from, (size_t)r.to, (op_t)r.op, r.oplabel < 0 ? 0 : r.oplabel, r.wild, pre, conv<typename W::type>::to(r.w));
        else pda.add_rule((size_t)r.from, (size_t)r.to, (op_t)r.op, r.oplabel < 0 ? 0 : r.oplabel, r.wild, pre);
    }
}
template<typename A, typename P> A make_aut(const P& pda, const ref::Aut& a) {
    std::vector<size_t> acc; for (int i = 0; i < a.pda; ++i) if (a.acc[i]) acc.push_back(i);
    A r(pda, acc, true);
    for (int i = a.pda; i < a.n; ++i) r.add_state(false, a.acc[i]);
    for (auto& e : a.edges) r.add_edge(e.f, e.t, e.l);
    return r;
}
template<typename TS> std::vector<ref::Conf> to_confs(const std::vector<TS>& t) { std::vector<ref::Conf> r; for (auto& x : t) r.push_back({(int)x._pdastate, std::vector<int>(x._stack.begin(), x._stack.end())}); return r; }

template<typename W, typename Inst> void grab_any(Out& o, Engine e, Inst& inst) {
    if (e == DUAL) o.trace = to_confs(Solver::get_trace_dual_search<Trace_Type::Any>(inst));
    else o.trace = to_confs(Solver::get_trace<Trace_Type::Any>(inst));
    o.has_trace = true;
}
template<typename W, typename Tup> void take_rules(Out& o, const Tup& tup) {
    o.has_rules = true; o.rt_state = std::get<0>(tup);
    for (auto& r : std::get<1>(tup)) {
        std::vector<long> w; if constexpr (W::is_weight) w = conv<typename W::type>::from(r._weight);
        o.rules.push_back({(size_t)r._from, (size_t)r._to, (uint32_t)r._pre, (int)r._op, (uint32_t)r._op_label, w});
    }
    o.rules_weighted = W::is_weight;
    o.istack = std::get<2>(tup); o.fstack = std::get<3>(tup); o.ipath = std::get<4>(tup); o.fpath = std::get<5>(tup);
}
template<typename W>
Out run(Engine e, Trace t, const ref::Sys& s, const ref::Aut& init, const ref::Aut& fin, bool want_rules = false) {
    pda_of<W> pda; fill<W>(pda, s);
    using A = aut_of<W>;
    PAutomatonProduct inst(pda, make_aut<A>(pda, init), make_aut<A>(pda, fin));
    Out o;
    switch (t) {
        case T_NONE:
            o.verdict = e == POST ? Solver::post_star_accepts<Trace_Type::None>(inst) : e == PRE ? Solver::pre_star_accepts<Trace_Type::None>(inst) : Solver::dual_search_accepts<Trace_Type::None>(inst);
            break;
        case T_NOET:
            o.verdict = e == POST ? Solver::post_star_accepts_no_ET(inst) : Solver::pre_star_accepts_no_ET(inst);
            if (o.verdict) grab_any<W>(o, e, inst);
            break;
        case T_NOET_SHORTEST:
            if constexpr (W::is_weight) {
                o.verdict = Solver::post_star_accepts_no_ET<Trace_Type::Shortest>(inst);
                if (o.verdict) { auto p = Solver::get_trace<Trace_Type::Shortest>(inst); o.trace = to_confs(p.first); o.has_trace = true; o.has_weight = true; o.weight = conv<typename W::type>::from(p.second); }
            }
            break;
        case T_ANY:
            o.verdict = e == POST ? Solver::post_star_accepts<Trace_Type::Any>(inst) : e == PRE ? Solver::pre_star_accepts<Trace_Type::Any>(inst) : Solver::dual_search_accepts<Trace_Type::Any>(inst);
            if (o.verdict) {
                if (want_rules) {
                    if (e == DUAL) take_rules<W>(o, Solver::get_rule_trace_and_paths<Trace_Type::Any, true>(inst)); else take_rules<W>(o, Solver::get_rule_trace_and_paths<Trace_Type::Any>(inst));
                }
                grab_any<W>(o, e, inst);
            }
            break;
        case T_SHORTEST:
            if constexpr (W::is_weight) {
                o.verdict = e == POST ? Solver::post_star_accepts<Trace_Type::Shortest>(inst) : e == PRE ? Solver::pre_star_accepts<Trace_Type::Shortest>(inst) : Solver::dual_search_accepts<Trace_Type::Shortest>(inst);
                if (o.verdict) {
                    auto take = [&](auto&& p) { o.trace = to_confs(p.first); o.has_trace = true; o.has_weight = true; o.weight = conv<typename W::type>::from(p.second); };
                    if (e == DUAL) take(Solver::get_trace_dual_search<Trace_Type::Shortest>(inst)); else take(Solver::get_trace<Trace_Type::Shortest>(inst));
                    if (want_rules && e != DUAL) { auto rt = Solver::get_rule_trace_and_paths<Trace_Type::Shortest>(inst); take_rules<W>(o, rt.first); o.rules_total = conv<typename W::type>::from(rt.second); o.has_rules_total = true; }
                }
            }
            break;
        default: break;
    }
    return o;
}
template<typename W>
Out run_fp(Engine e, Trace t, const ref::Sys& s, const ref::Aut& init, const ref::Aut& fin) {
    pda_of<W> pda; fill<W>(pda, s);
    using A = aut_of<W, TraceInfoType::Pair>;
    PAutomatonProduct inst(pda, make_aut<A>(pda, init), make_aut<A>(pda, fin));
    Out o;
    auto go = [&]<Trace_Type TT>() {
        auto take = [&](auto&& p) {
            o.trace = to_confs(p.first); o.has_trace = true; o.has_weight = true; o.weight = conv<typename W::type>::from(p.second);
            o.infinite = (TT == Trace_Type::Longest || W::is_signed) && p.second == internal::solver_weight<W, TT>::bottom();
        };
        if (e == POST) { o.verdict = Solver::post_star_fixed_point_accepts<TT>(inst); if (o.verdict) take(Solver::get_trace<TT>(inst)); }
        else if (e == PRE) { o.verdict = Solver::pre_star_fixed_point_accepts<TT>(inst); if (o.verdict) take(Solver::get_trace<TT>(inst)); }
        else {
            auto copy = inst.copy();
            auto [r, used_pre] = Solver::interleaving_fixed_point_accepts<TT>(inst, copy);
            o.verdict = r;
            if (r) take(Solver::get_trace<TT>(used_pre ? copy : inst));
        }
    };
    if (t == T_LONGEST) go.template operator()<Trace_Type::Longest>(); else go.template operator()<Trace_Type::ShortestFixedPoint>();
    return o;
}
template<typename W, bool shortest>
std::vector<Member> saturate(bool post, const ref::Sys& s, const ref::Aut& a, const std::vector<ref::Conf>& q, bool traces, ref::Aut* out = nullptr, bool none = false) {
    constexpr auto TT = shortest ? Trace_Type::Shortest : Trace_Type::Any;
    pda_of<W> pda; fill<W>(pda, s);
    auto aut = make_aut<aut_of<W>>(pda, a);
    if (none) { if (post) Solver::post_star<Trace_Type::None>(aut); else Solver::pre_star<Trace_Type::None, W>(aut); }
    else if (post) Solver::post_star<TT>(aut); else Solver::pre_star<TT, W, false>(aut);
    std::vector<Member> r;
    for (auto& c : q) {
        Member m; std::vector<uint32_t> st(c.s.begin(), c.s.end());
        m.accepts = aut.accepts(c.p, st);
        if constexpr (shortest && W::is_weight) {
            auto [p, w] = aut.template accept_path<TT>(c.p, st);
            m.path = p; m.has_weight = true; m.is_max = w == internal::solver_weight<W, TT>::max(); m.weight = conv<typename W::type>::from(w);
            if (traces && m.accepts) { auto [tr, w2] = Solver::get_trace<TT>(pda, aut, c.p, st); m.traced = true; m.trace = to_confs(tr); }
        } else {
            m.path = aut.template accept_path<TT>(c.p, st);
            if (traces && m.accepts) { m.traced = true; m.trace = to_confs(Solver::get_trace<TT>(pda, aut, c.p, st)); }
        }
        r.push_back(std::move(m));
    }
    if (out) {
        *out = ref::Aut(s.n, (int)aut.states().size() - s.n);
        for (auto& st : aut.states()) { out->acc[st->_id] = st->_accepting; for (const auto& [to, labels] : st->_edges) for (const auto& [l, tr] : labels) out->edges.push_back({(int)st->_id, l == aut_of<W>::epsilon ? -1 : (int)l, (int)to}); }
    }
    return r;
}
template<typename W>
std::vector<Member> query(Trace t, const ref::Sys& s, const ref::Aut& a, const std::vector<ref::Conf>& q) {
    pda_of<W> pda; fill<W>(pda, s); std::vector<Member> r;
    for (auto& c : q) {
        auto aut = make_aut<aut_of<W>>(pda, a); Member m; std::vector<uint32_t> st(c.s.begin(), c.s.end()); std::vector<int> sti(c.s.begin(), c.s.end());
        if (t == T_NONE) m.accepts = Solver::pre_star_accepts<Trace_Type::None>(aut, c.p, st);
        else if (t == T_ANY) { m.accepts = Solver::pre_star_accepts<Trace_Type::Any>(aut, c.p, st); if (m.accepts) { m.traced = true; m.trace = to_confs(Solver::get_trace(pda, aut, c.p, sti)); } }
        else if constexpr (W::is_weight) { m.accepts = Solver::pre_star_accepts<Trace_Type::Shortest>(aut, c.p, st); if (m.accepts) { auto [tr, w] = Solver::get_trace<Trace_Type::Shortest>(pda, aut, c.p, sti); m.traced = true; m.trace = to_confs(tr); m.has_weight = true; m.weight = conv<typename W::type>::from(w); } }
        r.push_back(std::move(m));
    }
    return r;
}
}
