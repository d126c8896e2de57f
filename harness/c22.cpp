// C22: the DOT rendering of an automaton, read back as a graph, is the automaton.
#include "mc.h"
#include "fam.h"
#include "regex.h"
#include "eng_impl.h"
#include "spaces.h"
using namespace ref; using namespace pdaaal;
constexpr uint32_t NOLABEL = std::numeric_limits<uint32_t>::max();
// ---- a reader of the subset of DOT: statements "A" [..]; and "A" -> "B" [..];
struct Lab { bool neg = false, any = false, eps = false; std::string epsw; std::map<std::string, std::string> w; }; // label -> weight text
struct Dot { std::map<std::string, bool> node; std::set<std::string> invisible; std::map<std::pair<std::string, std::string>, std::vector<std::string>> edge; };
static const std::string EPSILON = "\xf0\x9d\x9c\x80";
static Dot parse(const std::string& t) {
    Dot d; size_t i = 0; auto bad = [&](const std::string& m) { mc::fail("the rendering is not well-formed (" + m + " at " + std::to_string(i) + "):\n" + t); };
    auto ws = [&] { while (i < t.size() && isspace((unsigned char)t[i])) ++i; }; auto eat = [&](const std::string& s) { ws(); if (t.compare(i, s.size(), s) == 0) { i += s.size(); return true; } return false; };
    auto word = [&] { ws(); std::string r; if (i < t.size() && t[i] == '"') { ++i; while (i < t.size() && t[i] != '"') { if (t[i] == '\\' && i + 1 < t.size()) r += t[i++]; r += t[i++]; } if (i >= t.size()) bad("open string"); ++i; return r; } while (i < t.size() && (isalnum((unsigned char)t[i]) || t[i] == '_')) r += t[i++]; if (r.empty()) bad("name expected"); return r; };
    if (!eat("digraph")) bad("digraph expected"); ws(); if (t[i] != '{') word(); if (!eat("{")) bad("{ expected");
    while (!eat("}")) { auto a = word(); std::string b; bool e = false; if (eat("->")) { e = true; b = word(); } std::map<std::string, std::string> at; if (eat("[")) while (!eat("]")) { auto k = word(); if (!eat("=")) bad("= expected"); at[k] = word(); eat(","); } eat(";");
        if (e) d.edge[{a, b}].push_back(at.count("label") ? at["label"] : ""); else if (at.count("shape")) { if (at["shape"] != "circle" && at["shape"] != "doublecircle") bad("shape " + at["shape"]); if (d.node.count(a)) bad("state " + a + " is shown twice"); d.node[a] = at["shape"] == "doublecircle"; } else if (at.count("style") && at["style"].substr(0, 5) == "invis") d.invisible.insert(a); else bad("statement without meaning"); }
    ws(); if (i != t.size()) bad("text after the end"); return d;
}
static Lab label(const std::string& s, bool weighted) {
    Lab l; size_t i = 0; auto bad = [&] { mc::fail("unreadable edge label '" + s + "'"); }; auto ws = [&] { while (i < s.size() && s[i] == ' ') ++i; };
    auto wt = [&] { std::string w; if (!weighted) return w; if (i >= s.size() || s[i] != '(') bad(); ++i; while (i < s.size() && s[i] != ')') w += s[i++]; if (i++ >= s.size()) bad(); return w; };
    if (i < s.size() && s[i] == '^') { l.neg = true; ++i; }
    if (s.compare(i, 1, "*") == 0) { l.any = true; ++i; } else if (s.compare(i, 2, "\\[") == 0) { i += 2; while (s.compare(i, 2, "\\]") != 0) { ws(); std::string n; while (i < s.size() && s[i] != ',' && s[i] != '(' && s[i] != '\\') n += s[i++]; auto w = wt(); if (!l.w.emplace(n, w).second) mc::fail("label shown twice in '" + s + "'"); if (i < s.size() && s[i] == ',') ++i; else if (s.compare(i, 2, "\\]") != 0) bad(); } i += 2; } else if (l.neg) bad();
    ws(); if (s.compare(i, EPSILON.size(), EPSILON) == 0) { i += EPSILON.size(); l.eps = true; l.epsw = wt(); } if (i != s.size()) bad(); return l;
}
// initial states: those an invisible node points to
static std::set<std::string> initials(Dot& d) { std::set<std::string> r; for (auto it = d.edge.begin(); it != d.edge.end();) if (d.invisible.count(it->first.first)) { r.insert(it->first.second); it = d.edge.erase(it); } else ++it; if (r.size() != d.invisible.size()) mc::fail("initial markers do not fit"); for (auto& [e, l] : d.edge) if (!d.node.count(e.first) || !d.node.count(e.second)) mc::fail("an edge uses a state that is not shown: " + e.first + " -> " + e.second); for (auto& x : r) if (!d.node.count(x)) mc::fail("an initial state is not shown"); return r; }
// ---- stack languages: the rendering has the language of the expression
template<typename T> void nfa_case(const Space& s, size_t i, const std::function<T(char)>& sym, bool compiled, bool printer) {
    Build<T> b{s, sym, 0}; auto n = b((int)i); if (compiled) n.compile(); std::ostringstream o; if (printer) n.to_dot(o, [](std::ostream& x, const T& e) { x << "<" << e << ">"; }); else n.to_dot(o);
    auto d = parse(o.str()); auto init = initials(d); mc::count("impl_runs"); mc::count("states", d.node.size()); if (d.node.size() != n.states().size()) mc::fail("the rendering shows another number of states");
    struct E { std::string to; bool eps; std::set<char> l; }; std::map<std::string, std::vector<E>> g;
    for (auto& [e, ls] : d.edge) for (auto& t : ls) { auto l = label(t, false); mc::count("transitions"); E x{e.second, l.eps, {}}; for (int k = 0; k < SY; ++k) { std::ostringstream nm; if (printer) nm << "<" << sym(SYM[k]) << ">"; else nm << sym(SYM[k]); bool in = l.w.count(nm.str()); if (l.any || in != l.neg) if (l.any || !l.w.empty()) x.l.insert(SYM[k]); } g[e.first].push_back(x); }
    for (size_t k = 0; k < W().w.size(); ++k) { std::set<std::string> cur = init; auto close = [&] { std::vector<std::string> wl(cur.begin(), cur.end()); while (!wl.empty()) { auto x = wl.back(); wl.pop_back(); for (auto& e : g[x]) if (e.eps && cur.insert(e.to).second) wl.push_back(e.to); } }; close();
        for (char c : W().w[k]) { std::set<std::string> nx; for (auto& x : cur) for (auto& e : g[x]) if (e.l.count(c)) nx.insert(e.to); cur = nx; close(); }
        bool acc = std::any_of(cur.begin(), cur.end(), [&](auto& x) { return d.node.at(x); }); if (acc != s.lang[i][k]) mc::fail("the rendering " + std::string(acc ? "accepts" : "does not accept") + " '" + W().w[k] + "':\n" + o.str()); }
    if (s.lang[i].any()) mc::count("nontrivial");
}
// ---- P-automata: exactly the states, edges and weights
struct We { int f, l, t; long w; }; struct Wa { int pda = 1, n = 1, labels = 2; std::vector<char> acc; std::vector<We> e; };
static std::string str(const Wa& a) { std::ostringstream o; o << "A(control states=" << a.pda << ", states=" << a.n << ", labels=" << a.labels << ", accepting="; for (int i = 0; i < a.n; ++i) if (a.acc[i]) o << i << "."; for (auto& x : a.e) o << " " << x.f << "-" << (x.l < 0 ? std::string("eps") : std::to_string(x.l)) << "->" << x.t << "(" << x.w << ")"; o << ")"; return o.str(); }
template<typename V> std::string num(const V& v) { std::ostringstream o; if constexpr (requires { v.size(); }) { o << "["; bool f = true; for (auto& x : v) { o << (f ? "" : ",") << x; f = false; } o << "]"; } else o << v; return o.str(); }
template<typename W_, Trace_Type TT, typename V> std::string wtext(const V& v, bool eps) { if (eps) return num(v); using S = internal::solver_weight<W_, TT>; if (v == S::max()) return "-"; if constexpr (TT == Trace_Type::Longest) if (v == S::bottom()) return "\xe2\x88\x9e"; if constexpr (W_::is_signed && (TT == Trace_Type::Shortest || TT == Trace_Type::ShortestFixedPoint)) if (v == S::bottom()) return "-\xe2\x88\x9e"; return num(v); }
// the rendering of any automaton object against its own observable states and edges
template<typename W_, Trace_Type TT, typename A> void same(const A& a, int pda_states, size_t labels, const std::string& text, const std::function<std::string(size_t)>& sn, const std::function<std::string(uint32_t)>& ln) {
    auto d = parse(text); auto init = initials(d); mc::count("impl_runs"); mc::count("states", a.states().size()); auto bad = [&](const std::string& m) { mc::fail(m + ":\n" + text); };
    if (d.node.size() != a.states().size()) bad("the rendering shows another number of states"); std::set<std::string> wi; for (int i = 0; i < pda_states; ++i) wi.insert(sn(i)); if (init != wi) bad("the initial states shown are not the control states");
    size_t edges = 0; for (auto& s : a.states()) { auto n = sn(s->_id); if (!d.node.count(n)) bad("state " + n + " is not shown"); if (d.node[n] != s->_accepting) bad("state " + n + " is shown with the wrong acceptance");
        for (const auto& [to, ls] : s->_edges) { if (ls.empty()) continue; ++edges; auto it = d.edge.find({n, sn(to)}); if (it == d.edge.end()) bad("the edge " + n + " -> " + sn(to) + " is missing"); if (it->second.size() != 1) bad("an edge is shown twice"); auto l = label(it->second[0], W_::is_weight); mc::count("transitions"); if (l.neg) bad("a complemented label set");
            bool eps = false; std::map<std::string, std::string> want; for (const auto& [x, tr] : ls) { std::string w; if constexpr (W_::is_weight) w = wtext<W_, TT>(tr.second, x == NOLABEL); if (x == NOLABEL) { eps = true; if (!l.eps || l.epsw != w) bad("the epsilon of " + n + " -> " + sn(to) + " is missing or has the wrong weight"); } else want[ln(x)] = w; }
            if (l.eps && !eps) bad("an epsilon that is not there"); if (l.any) { if (want.size() != labels) bad("'*' for an edge that has not all labels"); } else if (l.w != want) bad("the labels of " + n + " -> " + sn(to) + " are shown wrongly"); if (want.size() > 1 || eps) mc::count("nontrivial"); } }
    if (edges != d.edge.size()) bad("an edge is shown that is not there");
}
template<typename T> T val(long w) { if constexpr (requires(T t) { t.push_back(0); }) { if (w == 0) return {}; return T{(typename T::value_type)w, (typename T::value_type)(w + 1)}; } else return (T)w; }
template<typename W_, Trace_Type TT> void automaton_case(const Wa& a) {
    static std::map<std::pair<int, int>, std::unique_ptr<eng::pda_of<W_>>> ps; auto& pp = ps[{a.pda, a.labels}]; if (!pp) { pp = std::make_unique<eng::pda_of<W_>>(); Sys s; s.n = a.pda; s.labels = a.labels; eng::fill<W_>(*pp, s); } auto& pda = *pp;
    std::vector<size_t> acc; for (int i = 0; i < a.pda; ++i) if (a.acc[i]) acc.push_back(i); eng::aut_of<W_> r(pda, acc, true); for (int i = a.pda; i < a.n; ++i) r.add_state(false, a.acc[i]);
    for (auto& e : a.e) { uint32_t l = e.l < 0 ? NOLABEL : e.l; if constexpr (W_::is_weight) { using V = typename W_::type; using S = internal::solver_weight<W_, TT>; V v = e.w == 100 ? S::max() : val<V>(e.w); if constexpr (TT == Trace_Type::Longest || W_::is_signed) if (e.w == 101) v = S::bottom(); r.emplace_edge(e.f, l, e.t, std::make_pair(internal::trace_t(), v)); } else if (e.l < 0) r.add_epsilon_edge(e.f, e.t); else r.add_edge(e.f, e.t, l); }
    std::ostringstream o1, o2; r.template to_dot<TT>(o1); same<W_, TT>(r, a.pda, a.labels, o1.str(), [](size_t s) { return std::to_string(s); }, [](uint32_t l) { return std::to_string(l); });
    auto sn = [](size_t s) { return "state " + std::string(1, 'A' + s); }; auto ln = [](uint32_t l) { return "l" + std::to_string(l) + "'"; };
    r.template to_dot<TT>(o2, [&](std::ostream& s, const uint32_t& l) { s << ln(l); }, [&](std::ostream& s, const size_t& x) { s << sn(x); }); same<W_, TT>(r, a.pda, a.labels, o2.str(), sn, ln);
}
static void automata(int pda, int n, int labels, const std::vector<We>& es, int k, const std::vector<std::vector<int>>& accs, const std::function<void(const Wa&)>& fn) { std::vector<We> cur; std::function<void(size_t)> rec = [&](size_t i) { for (auto& ac : accs) { Wa a; a.pda = pda; a.n = n; a.labels = labels; a.acc.assign(n, 0); for (int x : ac) a.acc[x] = 1; a.e = cur; mc::run_case([&] { return str(a); }, [&] { fn(a); }); } if ((int)cur.size() == k) return; for (size_t j = i; j < es.size(); ++j) { cur.push_back(es[j]); rec(j + 1); cur.pop_back(); } }; rec(0); }
// ---- after solving: the saturated automaton and the product, with names of states and labels
template<typename W_, Trace_Type TT, TraceInfoType TI, typename F> void solved(const Sys& s, const fam::Pair& p, F&& solve) {
    using P = PDA<std::string, W_, fut::type::vector, std::string, false>; using A = PAutomaton<std::string, W_, std::string, false, TI>; P pda; auto lab = [](int l) { return std::string("lab") + (char)('a' + l); }; auto st = [](int q) { return "st" + std::to_string(q); };
    for (int l = 0; l < s.labels; ++l) pda.insert_label(lab(l)); for (int q = 0; q < s.n; ++q) pda.insert_state(st(q));
    for (auto& r : s.rules) { std::vector<std::string> pre; for (int l : r.pre) pre.push_back(lab(l)); auto ol = lab(r.oplabel < 0 ? 0 : r.oplabel); if constexpr (W_::is_weight) pda.add_rule((size_t)r.from, (size_t)r.to, (op_t)r.op, ol, r.wild, pre, (typename W_::type)r.w[0]); else pda.add_rule((size_t)r.from, (size_t)r.to, (op_t)r.op, ol, r.wild, pre); }
    PAutomatonProduct inst(pda, eng::make_aut<A>(pda, p.i), eng::make_aut<A>(pda, p.f)); solve(inst);
    auto sn = [&](size_t x) { return (int)x < s.n ? st((int)x) : std::to_string(x); }; auto ln = [&](uint32_t l) { return lab((int)l); };
    { std::ostringstream o; inst.template automaton_to_dot<TT>(o); same<W_, TT>(inst.automaton(), s.n, s.labels, o.str(), sn, ln); } { std::ostringstream o; inst.template product_automaton_to_dot<TT>(o); same<W_, TT>(inst.product_automaton(), s.n, s.labels, o.str(), sn, ln); }
    { std::ostringstream o; inst.template automaton_to_dot<TT>(o, inst.final_automaton()); same<W_, TT>(inst.final_automaton(), s.n, s.labels, o.str(), sn, ln); }
}
static void all_solved(const Sys& s, const fam::Pair& p) { mc::run_case([&] { return spaces::desc(s, p); }, [&] {
    solved<weight<void>, Trace_Type::Any, TraceInfoType::Single>(s, p, [](auto& i) { Solver::post_star_accepts_no_ET(i); }); solved<weight<void>, Trace_Type::Any, TraceInfoType::Single>(s, p, [](auto& i) { Solver::pre_star_accepts_no_ET(i); });
    solved<weight<uint32_t>, Trace_Type::Shortest, TraceInfoType::Single>(s, p, [](auto& i) { Solver::post_star_accepts<Trace_Type::Shortest>(i); }); solved<weight<int32_t>, Trace_Type::Longest, TraceInfoType::Pair>(s, p, [](auto& i) { Solver::post_star_fixed_point_accepts<Trace_Type::Longest>(i); });
    solved<weight<int32_t>, Trace_Type::ShortestFixedPoint, TraceInfoType::Pair>(s, p, [](auto& i) { Solver::pre_star_fixed_point_accepts<Trace_Type::ShortestFixedPoint>(i); }); }); }
int main(int argc, char** argv) {
    mc::Check c; c.property = "C22";
    c.rule = "the DOT text is read by an independent reader into a graph; for stack languages the graph must accept exactly the words of the expression (all words up to length 4), for P-automata and products it must have exactly the states, acceptance, initial markers, edges, labels and weights of the object";
    c.assumptions = {"label and state names without quotes, commas, parentheses or backslashes", "'-' stands for the weight of something unreached and the infinity sign for the unbounded weight, as the solvers use them", "ptrie stand-in"};
    c.bounds_quick = "all expressions <=2 operators over 7 atoms, 2 label types, compiled or not; all P-automata with <=5 of 17 edges over 2 control and 2 other states and 1-3 labels; weighted edges (uint32, int32, vector<int>, 3 trace types) <=4 edges incl. unreached and unbounded weights; saturated automata and products of all systems <=3 rules over 2 states, 1 label and <=2 rules over 2 labels with names";
    c.bounds_thorough = "3 operators; one more edge; one more rule";
    auto K = [](int k) { return mc::thorough() ? k + 1 : k; };
    c.suites = {
        {"nfa", [=] { Space s({{"a", "a", false, 0}, {"b", "b", false, 0}, {"ab", "ab", false, 0}, {"^a", "a", true, 0}, {"^bc", "bc", true, 0}, {".", "", true, 0}, {"eps", "", false, 1}}, K(2)); for (size_t i = 0; i < s.t.size(); ++i) for (int v = 0; v < 4; ++v) mc::run_case([&] { return "expression " + s.str(i) + (v & 1 ? ", compiled" : "") + (v & 2 ? ", with a label printer" : ""); }, [&] { nfa_case<char>(s, i, [](char c) { return c; }, v & 1, v & 2); nfa_case<std::string>(s, i, [](char c) { return "label " + std::string(1, c); }, v & 1, v & 2); }); }},
        {"automata", [=] { std::vector<We> es; for (int f : {0, 1, 2}) for (int t : {2, 3}) for (int l : {-1, 0, 1}) if (f != t || l >= 0) es.push_back({f, l, t, 0}); for (int labels : {2, 3}) automata(2, 4, labels, es, K(5), {{}, {0}, {1, 3}, {2, 3}}, automaton_case<weight<void>, Trace_Type::Any>); std::vector<We> e1; for (int f : {0, 1, 2}) for (int t : {0, 1, 2}) for (int l : {-1, 0}) e1.push_back({f, l, t, 0}); automata(1, 3, 1, e1, K(4), {{}, {0, 2}}, automaton_case<weight<void>, Trace_Type::None>); }},
        {"weighted", [=] { std::vector<We> es; for (int f : {0, 1}) for (int l : {-1, 0, 1}) for (long w : {0l, 1l, 7l, 100l, 101l}) if (l >= 0 || w < 100) es.push_back({f, l, f + 1, w}); es.push_back({0, 0, 2, 3}); es.push_back({1, 1, 0, 12});
            automata(1, 3, 2, es, K(4), {{2}, {0, 1}}, [](const Wa& a) { bool special = std::any_of(a.e.begin(), a.e.end(), [](auto& x) { return x.w >= 100; }); (void)special; automaton_case<weight<uint32_t>, Trace_Type::Shortest>(a); automaton_case<weight<uint32_t>, Trace_Type::Longest>(a); automaton_case<weight<int32_t>, Trace_Type::Shortest>(a); automaton_case<weight<int32_t>, Trace_Type::Longest>(a); automaton_case<weight<int32_t>, Trace_Type::ShortestFixedPoint>(a); automaton_case<weight<std::vector<int32_t>>, Trace_Type::Shortest>(a); automaton_case<weight<std::vector<int32_t>>, Trace_Type::Longest>(a); }); }},
        {"solved", [=] { using namespace fam; for (auto& p : pairs(2, 1, {{"0a", "1"}, {"0aa", "1a+"}, {"0a,1a", "0"}})) subsets(2, 1, alphabet(2, 1, PLAIN | NOOPS), 0, K(3), [&](const Sys& s0) { Sys s = s0; long w = 2; for (auto& r : s.rules) { r.w = {w}; ++w; } all_solved(s, p); });
            for (auto& p : pairs(2, 2, {{"0ab", "1%"}, {"0a,1b", "0b+"}})) subsets(2, 2, alphabet(2, 2, PLAIN | WILD), 0, K(2), [&](const Sys& s0) { Sys s = s0; for (auto& r : s.rules) r.w = {3}; all_solved(s, p); }); }},
    };
    return mc::main_(argc, argv, c);
}
