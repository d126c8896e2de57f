// C21: queries over one pushdown system do not disturb each other: every sequence of build / copy / move / solve / read / discard.
#include "trace_check.h"
#include "eng_impl.h"
#include "spaces.h"

using namespace fam; using namespace eng; 
struct V { bool infinite = false; std::optional<long> w; }; // value of a query: nullopt = unreachable
enum K { BUILD, COPY, MOVE, REHOME, SOLVE, READ, DROP, SATURATE };
struct Op1 { K k; int slot = 0, arg = 0; };
struct Case { Sys s; std::vector<Pair> q; };
// ---- what the three kinds of instances do
struct Any { using W = pdaaal::weight<void>; static constexpr auto TI = pdaaal::TraceInfoType::Single; static constexpr bool sgn = false; static constexpr int engines = 3; static constexpr const char* name = "unweighted";
    static const char* eng(int e) { return e == 0 ? "post*" : e == 1 ? "pre*" : "dual*"; }
    template<typename I> static bool solve(I& i, int e) { return e == 0 ? pdaaal::Solver::post_star_accepts<pdaaal::Trace_Type::Any>(i) : e == 1 ? pdaaal::Solver::pre_star_accepts<pdaaal::Trace_Type::Any>(i) : pdaaal::Solver::dual_search_accepts<pdaaal::Trace_Type::Any>(i); }
    template<typename I> static void read(const I& i, int e, Out& o) { o.trace = to_confs(e == 2 ? pdaaal::Solver::get_trace_dual_search<pdaaal::Trace_Type::Any>(i) : pdaaal::Solver::get_trace<pdaaal::Trace_Type::Any>(i)); }
    static bool mx(int) { return false; } static V value(const Sys& s, const Pair& p, int) { V v; if (reachable(s, p.i, p.f)) v.w = 0; return v; } static constexpr bool weighted = false; };
struct Short { using W = pdaaal::weight<uint32_t>; static constexpr auto TI = pdaaal::TraceInfoType::Single; static constexpr bool sgn = false; static constexpr int engines = 3; static constexpr const char* name = "shortest";
    static const char* eng(int e) { return Any::eng(e); }
    template<typename I> static bool solve(I& i, int e) { return e == 0 ? pdaaal::Solver::post_star_accepts<pdaaal::Trace_Type::Shortest>(i) : e == 1 ? pdaaal::Solver::pre_star_accepts<pdaaal::Trace_Type::Shortest>(i) : pdaaal::Solver::dual_search_accepts<pdaaal::Trace_Type::Shortest>(i); }
    template<typename I> static void read(const I& i, int e, Out& o) { auto t = [&](auto&& p) { o.trace = to_confs(p.first); o.weight = {(long)p.second}; }; if (e == 2) t(pdaaal::Solver::get_trace_dual_search<pdaaal::Trace_Type::Shortest>(i)); else t(pdaaal::Solver::get_trace<pdaaal::Trace_Type::Shortest>(i)); }
    static bool mx(int) { return false; } static V value(const Sys& s, const Pair& p, int) { V v; if (auto w = ref::min_weight(s, p.i, p.f)) v.w = (*w)[0]; return v; } static constexpr bool weighted = true; };
struct Fixed { using W = pdaaal::weight<int32_t>; static constexpr auto TI = pdaaal::TraceInfoType::Pair; static constexpr bool sgn = true; static constexpr int engines = 4; static constexpr const char* name = "fixed-point";
    static const char* eng(int e) { return e == 0 ? "post* longest" : e == 1 ? "pre* longest" : e == 2 ? "post* shortest" : "pre* shortest"; }
    template<typename I> static bool solve(I& i, int e) { return e == 0 ? pdaaal::Solver::post_star_fixed_point_accepts<pdaaal::Trace_Type::Longest>(i) : e == 1 ? pdaaal::Solver::pre_star_fixed_point_accepts<pdaaal::Trace_Type::Longest>(i) : e == 2 ? pdaaal::Solver::post_star_fixed_point_accepts<pdaaal::Trace_Type::ShortestFixedPoint>(i) : pdaaal::Solver::pre_star_fixed_point_accepts<pdaaal::Trace_Type::ShortestFixedPoint>(i); }
    template<Trace_Type TT, typename I> static void rd(const I& i, Out& o) { auto p = pdaaal::Solver::get_trace<TT>(i); o.trace = to_confs(p.first); o.weight = {(long)p.second}; o.infinite = p.second == pdaaal::internal::solver_weight<W, TT>::bottom(); }
    template<typename I> static void read(const I& i, int e, Out& o) { if (e < 2) rd<pdaaal::Trace_Type::Longest>(i, o); else rd<pdaaal::Trace_Type::ShortestFixedPoint>(i, o); }
    static bool mx(int e) { return e < 2; } static V value(const Sys& s, const Pair& p, int e) { V v; v.w = opt_value(s, p.i, p.f, mx(e)); v.infinite = v.w && std::abs(*v.w) == INF; return v; } static constexpr bool weighted = true; };
template<typename P> std::string name(const Op1& o) { std::string n = std::to_string(o.slot), a = std::to_string(o.arg);
    switch (o.k) { case BUILD: return "build #" + n + " for query " + a; case COPY: return "copy #" + a + " to #" + n; case MOVE: return "move #" + n; case REHOME: return "move #" + n + " to an equal system"; case SOLVE: return std::string("solve #") + n + " by " + P::eng(o.arg); case READ: return "read #" + n + " again"; case DROP: return "discard #" + n; default: return "saturate the " + std::string(o.arg & 1 ? "final" : "initial") + " automaton of query " + std::to_string(o.arg / 2) + " on its own"; } }
template<typename Pda> std::string snapshot(const Pda& p) { std::ostringstream o; for (auto& st : p.states()) { o << "|"; for (auto& [r, l] : st._rules) { o << r._to << "," << r._operation << "," << r._op_label << ","; if constexpr (Pda::has_weight) o << r._weight; o << (l.wildcard() ? "*" : ""); for (auto x : l.labels()) o << "." << x; o << ";"; } for (auto x : st._pre_states) o << "<" << x; } o << "#" << p.number_of_labels(); return o.str(); }
// the model of a slot: which query it holds and whether it has been solved (and by which engine)
struct Slot { bool live = false; int q = 0, e = -1; };
template<typename P> struct Oracle { std::vector<std::vector<V>> v; Oracle(const Case& c) { for (auto& q : c.q) { v.emplace_back(); for (int e = 0; e < P::engines; ++e) v.back().push_back(P::value(c.s, q, e)); } } };
template<typename P, typename I> void judge(const I& i, bool verdict, const Case& c, const Oracle<P>& orc, const Slot& s, const std::string& when) {
    auto& v = orc.v[s.q][s.e]; auto who = [&] { return when + ": query " + std::to_string(s.q) + " by " + P::eng(s.e) + ": "; }; mc::count("impl_runs");
    if (verdict != v.w.has_value()) mc::fail(who() + "answers " + (verdict ? "yes" : "no") + ", the truth is " + (v.w ? "yes" : "no")); if (!verdict) return;
    Out o; P::read(i, s.e, o); mc::count("nontrivial");
    if constexpr (P::weighted) { if (o.infinite != v.infinite) mc::fail(who() + (v.infinite ? "reports a finite weight, the optimum is unbounded" : "reports an unbounded optimum")); if (v.infinite) return; if (o.weight[0] != *v.w) mc::fail(who() + "reports weight " + std::to_string(o.weight[0]) + ", the optimum is " + std::to_string(*v.w)); }
    auto err = tc::genuine(c.s, &c.q[s.q].i, &c.q[s.q].f, o.trace); if (!err.empty()) mc::fail(who() + err);
    if constexpr (P::weighted) if (tc::cost(c.s, o.trace, P::mx(s.e))[0] != *v.w) mc::fail(who() + "the trace weighs " + std::to_string(tc::cost(c.s, o.trace, P::mx(s.e))[0]) + ", the optimum is " + std::to_string(*v.w));
}
// every legal sequence of operations of exactly the given length (the judgements after every operation cover the shorter ones)
template<typename F> void sequences(int nq, int engines, int nslots, int depth, bool owning, bool sat, F&& fn) {
    std::vector<Op1> seq; std::vector<Slot> m(nslots);
    std::function<void()> rec = [&] {
        if ((int)seq.size() == depth) { fn((const std::vector<Op1>&)seq); return; }
        auto go = [&](Op1 o, auto&& upd) { auto keep = m; seq.push_back(o); upd(); rec(); seq.pop_back(); m = keep; };
        int fresh = -1; for (int i = 0; i < nslots && fresh < 0; ++i) if (!m[i].live) fresh = i;
        if (fresh >= 0) for (int q = 0; q < nq; ++q) go({BUILD, fresh, q}, [&] { m[fresh] = {true, q, -1}; });
        for (int i = 0; i < nslots; ++i) if (m[i].live) {
            if (!owning && fresh >= 0 && m[i].e < 0) go({COPY, fresh, i}, [&] { m[fresh] = {true, m[i].q, -1}; });
            if (m[i].e < 0) for (int e = 0; e < engines; ++e) go({SOLVE, i, e}, [&] { m[i].e = e; });
            bool again = !seq.empty() && seq.back().slot == i; // a second move or reading straight after the first adds nothing
            if (!(again && (seq.back().k == MOVE))) go({MOVE, i, 0}, [&] {});
            if (!owning && !(again && seq.back().k == REHOME)) go({REHOME, i, 0}, [&] {});
            if (m[i].e >= 0 && !(again && (seq.back().k == READ || seq.back().k == SOLVE))) go({READ, i, 0}, [&] {});
            if ((int)seq.size() + 1 < depth) go({DROP, i, 0}, [&] { m[i].live = false; });
        }
        if (sat) for (int x = 0; x < 2 * nq; ++x) go({SATURATE, 0, x}, [&] {});
    };
    rec();
}
template<typename P> void products(const Case& c, int nslots, int depth, bool sat) {
    using W = typename P::W; using A = aut_of<W, P::TI>; Oracle<P> orc(c);
    sequences(c.q.size(), P::engines, nslots, depth, false, sat, [&](const std::vector<Op1>& seq) { mc::run_case([&] { std::string d = std::string(P::name) + ": " + str(c.s); for (size_t i = 0; i < c.q.size(); ++i) d += "\nquery " + std::to_string(i) + ": " + c.q[i].name; for (auto& o : seq) d += "\n  " + name<P>(o); return d; }, [&] {
        pda_of<W> pda, twin; fill<W>(pda, c.s); fill<W>(twin, c.s); auto before = snapshot(pda); if (before != snapshot(twin)) mc::fail("the two systems differ from the start");
        using I = decltype(pdaaal::PAutomatonProduct(pda, make_aut<A>(pda, c.q[0].i), make_aut<A>(pda, c.q[0].f)));
        std::vector<std::unique_ptr<I>> s(nslots); std::vector<Slot> m(nslots); std::vector<char> verdict(nslots);
        auto solve = [&](int k, int e, const std::string& when) { verdict[k] = P::solve(*s[k], e); m[k].e = e; judge<P>(*s[k], verdict[k], c, orc, m[k], when); };
        int step = 0;
        for (auto& o : seq) { auto when = "step " + std::to_string(++step); mc::count("transitions");
            switch (o.k) {
            case BUILD: s[o.slot] = std::make_unique<I>(pda, make_aut<A>(pda, c.q[o.arg].i), make_aut<A>(pda, c.q[o.arg].f)); m[o.slot] = {true, o.arg, -1}; break;
            case COPY: s[o.slot] = std::make_unique<I>(s[o.arg]->copy()); m[o.slot] = {true, m[o.arg].q, -1}; break;
            case MOVE: s[o.slot] = std::make_unique<I>(std::move(*s[o.slot])); break;
            case REHOME: s[o.slot] = std::make_unique<I>(std::move(*s[o.slot]), &s[o.slot]->pda() == &pda ? twin : pda); break;
            case SOLVE: solve(o.slot, o.arg, when); break;
            case READ: judge<P>(*s[o.slot], verdict[o.slot], c, orc, m[o.slot], when); break;
            case DROP: s[o.slot].reset(); m[o.slot] = {}; break;
            case SATURATE: { auto a = make_aut<A>(pda, o.arg & 1 ? c.q[o.arg / 2].f : c.q[o.arg / 2].i); auto b = a; constexpr auto TT = P::weighted ? pdaaal::Trace_Type::Shortest : pdaaal::Trace_Type::Any; if constexpr (P::TI == pdaaal::TraceInfoType::Single) { pdaaal::Solver::post_star<TT>(a); pdaaal::Solver::pre_star<TT, W, false>(b); } break; } }
            mc::count("states");
        }
        for (int k = 0; k < nslots; ++k) if (s[k]) { if (m[k].e < 0) solve(k, (k + (int)seq.size()) % P::engines, "at the end"); else judge<P>(*s[k], verdict[k], c, orc, m[k], "at the end"); }
        if (snapshot(pda) != before || snapshot(twin) != before) mc::fail("the pushdown system has changed");
    }); });
}
template<typename P> void owners(const Case& c, int nslots, int depth) { // instances that own their system; a vector moves them when it grows
    using W = typename P::W; using SI = pdaaal::SolverInstance<int, W, size_t, true, P::TI>; using A = typename SI::pautomaton_t; Oracle<P> orc(c);
    sequences(c.q.size(), P::engines, nslots, depth, true, false, [&](const std::vector<Op1>& seq) { mc::run_case([&] { std::string d = std::string(P::name) + ", owning instances in a vector: " + str(c.s); for (size_t i = 0; i < c.q.size(); ++i) d += "\nquery " + std::to_string(i) + ": " + c.q[i].name; for (auto& o : seq) d += "\n  " + name<P>(o); return d; }, [&] {
        pda_of<W> plain; fill<W>(plain, c.s); auto before = snapshot(plain);
        std::vector<SI> v; std::vector<int> at(nslots, -1); std::vector<Slot> m(nslots); std::vector<char> verdict(nslots); // at: position in v
        auto solve = [&](int k, int e, const std::string& when) { auto& i = *v[at[k]]; verdict[k] = P::solve(i, e); m[k].e = e; judge<P>(i, verdict[k], c, orc, m[k], when); };
        auto take = [&](int k) { std::unique_ptr<SI> x; std::vector<SI> nv; nv.reserve(v.size()); for (int p = 0; p < (int)v.size(); ++p) { if (p == at[k]) x = std::make_unique<SI>(std::move(v[p])); else nv.emplace_back(std::move(v[p])); } for (int j = 0; j < nslots; ++j) if (at[j] > at[k]) --at[j]; at[k] = -1; v.swap(nv); return x; };
        int step = 0;
        for (auto& o : seq) { auto when = "step " + std::to_string(++step); mc::count("transitions"); mc::count("states");
            switch (o.k) {
            case BUILD: { pda_of<W> p; fill<W>(p, c.s); auto i = make_aut<A>(p, c.q[o.arg].i), f = make_aut<A>(p, c.q[o.arg].f); v.emplace_back(std::move(p), std::move(i), std::move(f)); at[o.slot] = (int)v.size() - 1; m[o.slot] = {true, o.arg, -1}; break; }
            case MOVE: { auto x = take(o.slot); v.emplace_back(std::move(*x)); at[o.slot] = (int)v.size() - 1; break; }
            case SOLVE: solve(o.slot, o.arg, when); break;
            case READ: judge<P>(*v[at[o.slot]], verdict[o.slot], c, orc, m[o.slot], when); break;
            case DROP: take(o.slot); m[o.slot] = {}; break;
            default: break; }
        }
        for (int k = 0; k < nslots; ++k) if (at[k] >= 0) { if (m[k].e < 0) solve(k, (k + (int)seq.size()) % P::engines, "at the end"); else judge<P>(*v[at[k]], verdict[k], c, orc, m[k], "at the end"); if (snapshot(v[at[k]]->pda()) != before) mc::fail("the pushdown system of an instance has changed"); }
    }); });
}
static Rule rl(int f, const char* pre, int t, ref::Op op, int ol, long w) { Rule r; r.from = f; r.to = t; r.op = op; r.oplabel = ol; r.wild = pre[0] == '*'; if (!r.wild) for (; *pre; ++pre) r.pre.push_back(*pre - 'a'); r.w = {w}; return r; }
static std::vector<Case> cases(bool neg) {
    std::vector<Case> r; auto mk = [&](int n, int L, std::vector<Rule> rs, const spaces::PL& q) { if (!neg) for (auto& x : rs) x.w[0] = std::abs(x.w[0]); Case c; c.s.n = n; c.s.labels = L; c.s.rules = rs; c.q = pairs(n, L, q); r.push_back(c); };
    mk(2, 2, {rl(0, "a", 0, ref::PUSH, 0, 1), rl(0, "a", 1, ref::SWAP, 1, 2), rl(1, "b", 1, ref::POP, -1, 3), rl(1, "a", 1, ref::SWAP, 1, -1)}, {{"0a", "1a"}, {"0ab", "1b,0b"}}); // grow, turn, shrink
    mk(2, 2, {rl(0, "*", 1, ref::PUSH, 0, 2), rl(1, "a", 0, ref::SWAP, 1, 1), rl(0, "ab", 0, ref::POP, -1, 0), rl(1, "a", 1, ref::NOOP, -1, 1)}, {{"0ab", "1abb"}, {"1a,0b", "0"}}); // wildcard and label sets
    mk(2, 2, {rl(0, "a", 1, ref::POP, -1, 1), rl(1, "a", 0, ref::SWAP, 1, 4), rl(0, "b", 0, ref::PUSH, 0, 2), rl(1, "b", 0, ref::PUSH, 1, 1)}, {{"0a+", "1a+"}, {"0aa", "0bb"}}); // yes and no
    mk(3, 2, {rl(0, "a", 1, ref::PUSH, 1, 5), rl(1, "b", 2, ref::POP, -1, 1), rl(2, "a", 0, ref::SWAP, 0, 0), rl(0, "a", 2, ref::SWAP, 1, 9), rl(2, "a", 2, ref::POP, -1, -2)}, {{"0ab", "2b"}, {"0aa", "0aa,2"}});
    return r;
}
int main(int argc, char** argv) {
    mc::Check c; c.property = "C21";
    c.rule = "every legal sequence of operations (build, copy, move, move to an equal system, solve by each engine, read the answer again, discard, saturate an automaton on its own) of the given length over one system with two queries; every answer, weight and trace, when given and when read again at any later point, is judged against the reference value of its query alone; the system is compared with its state before";
    c.assumptions = {"copies are taken of unsolved instances and each instance is solved once (the library refuses more); four systems of 2-3 control states; reference saturation as oracle (validated in C01, C04, C05); ptrie stand-in"};
    c.bounds_quick = "length 6 over two slots, length 5 over three slots, length 5 with saturations in between and for fixed-point instances; unweighted, shortest (uint32) and fixed-point (int32, longest and shortest) instances; owning instances in a growing vector length 6 (fixed-point 5); every system with 1-2 rules over 2 control states and 1 label at length 3";
    c.bounds_thorough = "one longer";
    auto all = [](auto&& f, bool neg) { for (auto& x : cases(neg)) f(x); }; auto d = [](int q) { return mc::thorough() ? q + 1 : q; };
    c.suites = {
        {"any", [=] { all([&](const Case& x) { products<Any>(x, 2, d(6), false); }, false); }},
        {"any_three", [=] { all([&](const Case& x) { products<Any>(x, 3, d(5), false); }, false); }},
        {"any_saturate", [=] { all([&](const Case& x) { products<Any>(x, 2, d(5), true); }, false); }},
        {"shortest", [=] { all([&](const Case& x) { products<Short>(x, 2, d(6), false); }, false); }},
        {"shortest_three", [=] { all([&](const Case& x) { products<Short>(x, 3, d(5), false); }, false); }},
        {"shortest_saturate", [=] { all([&](const Case& x) { products<Short>(x, 2, d(5), true); }, false); }},
        {"fixed", [=] { all([&](const Case& x) { products<Fixed>(x, 2, d(5), false); }, true); }},
        {"systems", [=] { auto al = alphabet(2, 1, PLAIN); subsets(2, 1, al, 1, 2, [&](const Sys& s0) { Case x; x.s = s0; long k = 1; for (auto& r : x.s.rules) r.w = {k++}; x.q = pairs(2, 1, {{"0a", "1a"}, {"0aa", "1,0"}}); products<Any>(x, 2, d(3), true); products<Short>(x, 2, d(3), true); products<Fixed>(x, 2, d(3), false); owners<Short>(x, 2, d(3)); }); }},
        {"owners_any", [=] { all([&](const Case& x) { owners<Any>(x, 3, d(6)); }, false); }},
        {"owners_shortest", [=] { all([&](const Case& x) { owners<Short>(x, 3, d(6)); }, false); }},
        {"owners_fixed", [=] { all([&](const Case& x) { owners<Fixed>(x, 2, d(5)); }, true); }},
    };
    return mc::main_(argc, argv, c);
}
