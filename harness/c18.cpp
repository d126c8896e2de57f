// C18: the product of two P-automata against the reference product, built at once and edge by edge.
#include "mc.h"
#include "fam.h"
#include "regex.h"
#include "eng_impl.h"
using namespace ref; using namespace pdaaal;
constexpr uint32_t EPS = std::numeric_limits<uint32_t>::max();
constexpr int P0 = 1;
struct WE { int f, l, t; long w; }; // l<0: epsilon
struct WA { int pda = 1, n = 1; std::vector<char> acc; std::vector<WE> e;
    void put(WE x) { for (auto& y : e) if (y.f == x.f && y.l == x.l && y.t == x.t) { if (x.w < y.w) y.w = x.w; return; } e.push_back(x); }
    std::string str() const { std::ostringstream o; o << "A(states=" << n << ",acc="; for (int i = 0; i < n; ++i) if (acc[i]) o << i << "."; for (auto& x : e) { o << " " << x.f << "-" << (x.l < 0 ? std::string("eps") : std::string(1, lname(x.l))) << "->" << x.t; if (x.w) o << "(w" << x.w << ")"; } o << ")"; return o.str(); } };
static WE ed(int f, int l, int t, long w = 0) { return {f, l, t, w}; }
// least weight of an accepting path of the product; sum: both automata count, otherwise the first only
static std::optional<long> best(const WA& a, const WA& b, bool sum) {
    std::map<std::pair<int, int>, long> d; std::set<std::pair<long, std::pair<int, int>>> q; for (int p = 0; p < a.pda; ++p) { d[{p, p}] = 0; q.insert({0, {p, p}}); }
    std::vector<std::vector<const WE*>> oa(a.n), ob(b.n); for (auto& e : a.e) oa[e.f].push_back(&e); for (auto& e : b.e) ob[e.f].push_back(&e);
    while (!q.empty()) { auto [w, s] = *q.begin(); q.erase(q.begin()); if (a.acc[s.first] && b.acc[s.second]) return w;
        auto go = [&](int x, int y, long c) { auto it = d.find({x, y}); if (it == d.end() || c < it->second) { if (it != d.end()) q.erase({it->second, {x, y}}); d[{x, y}] = c; q.insert({c, {x, y}}); } };
        for (auto* e : oa[s.first]) { if (e->l < 0) go(e->t, s.second, w + e->w); else for (auto* g : ob[s.second]) if (g->l == e->l) go(e->t, g->t, w + e->w + (sum ? g->w : 0)); }
        for (auto* g : ob[s.second]) if (g->l < 0) go(s.first, g->t, w + (sum ? g->w : 0)); }
    return std::nullopt;
}
template<typename W> typename eng::pda_of<W>& pda_for(int n) { static std::map<int, std::unique_ptr<eng::pda_of<W>>> m; auto& p = m[n]; if (!p) { p = std::make_unique<eng::pda_of<W>>(); Sys s; s.n = n; s.labels = 300; eng::fill<W>(*p, s); } return *p; }
template<typename W> auto anno(long w) { if constexpr (W::is_weight) return std::make_pair(internal::trace_t(), (typename W::type)w); else return internal::trace_t(); }
template<typename A, typename W> void put_edge(A& r, const WE& e) { if constexpr (W::is_weight) { auto [it, fresh] = r.emplace_edge(e.f, e.l < 0 ? EPS : e.l, e.t, anno<W>(e.w)); if (!fresh && (typename W::type)e.w < it->second.second) it->second = anno<W>(e.w); } else { if (e.l < 0) r.add_epsilon_edge(e.f, e.t); else r.add_edge(e.f, e.t, e.l); } }
template<typename W> eng::aut_of<W> mk(const eng::pda_of<W>& pda, const WA& a) {
    std::vector<size_t> acc; for (int i = 0; i < a.pda; ++i) if (a.acc[i]) acc.push_back(i);
    eng::aut_of<W> r(pda, acc, true); for (int i = a.pda; i < a.n; ++i) r.add_state(false, a.acc[i]);
    for (auto& e : a.e) put_edge<eng::aut_of<W>, W>(r, e);
    return r;
}
// the reported path must be an accepting path of both automata; returns its weight
static long path_ok(AutomatonPath<true> p, const WA& a, const WA& b, bool sum) {
    auto q = p; auto [x, y] = q.front_state(); if (x != y || (int)x >= a.pda) mc::fail("the path does not start in a control state"); long w = 0;
    while (!q.empty()) { auto [f, l, t] = q.front_edge(); q.pop(); bool ok = false; long bw = LONG_MAX;
        if (l == EPS) { for (auto& e : a.e) if (e.l < 0 && e.f == (int)f.first && e.t == (int)t.first && f.second == t.second) { ok = true; bw = std::min(bw, e.w); } for (auto& e : b.e) if (e.l < 0 && e.f == (int)f.second && e.t == (int)t.second && f.first == t.first) { ok = true; bw = std::min(bw, sum ? e.w : 0); } }
        else for (auto& e : a.e) if (e.l == (int)l && e.f == (int)f.first && e.t == (int)t.first) for (auto& g : b.e) if (g.l == (int)l && g.f == (int)f.second && g.t == (int)t.second) { ok = true; bw = std::min(bw, e.w + (sum ? g.w : 0)); }
        if (!ok) mc::fail("the path uses a step that is not in both automata"); w += bw; }
    auto [ex, ey] = q.front_state(); if (!a.acc[ex] || !b.acc[ey]) mc::fail("the path does not end in a common accepting state");
    // and its stack is accepted by both, from that control state
    auto conv = [](const WA& z) { Aut r; r.pda = z.pda; r.n = z.n; r.acc = z.acc; for (auto& e : z.e) r.edges.push_back({e.f, e.l, e.t}); return r; };
    auto [ps, st] = p.get_path_and_stack(); Conf c{(int)x, std::vector<int>(st.begin(), st.end())}; if (!accepts(conv(a), c) || !accepts(conv(b), c)) mc::fail("the stack of the path is not common to both");
    if (ps.size() != st.size() + 1) mc::fail("path and stack lengths do not fit");
    auto [l, r] = p.split(); if (l.stack() != p.stack() || r.stack() != p.stack()) mc::fail("the halves of the path have other stacks");
    return w;
}
template<typename W, typename I> void judge_path(const I& inst, const WA& a, const WA& b, bool want) {
    auto p = inst.template find_path<Trace_Type::Any, true>();
    if (!want) { mc::require(p.is_null(), "a path although there is no common configuration"); return; }
    mc::require(!p.is_null(), "no path although there is a common configuration"); path_ok(p, a, b, false);
    auto p1 = inst.template find_path<Trace_Type::Any, false>(); mc::require(p1 == p.split().first, "the path over one automaton is not the first half of the paired path");
}
template<typename W> void static_case(const WA& a, const WA& b) {
    auto& pda = pda_for<W>(a.pda); bool want = best(a, b, false).has_value(); mc::count("states", a.n * b.n); if (want) mc::count("nontrivial");
    auto t = [&](auto&& inst, const char* what, bool swap, auto&& run) { mc::count("impl_runs"); if (swap) inst.enable_pre_star(); bool r = run(inst); if (r != want) mc::fail(std::string(what) + (swap ? " (final automaton first)" : "") + ": says " + (r ? "non-empty" : "empty"));
        if (swap) judge_path<W>(inst, b, a, want); else judge_path<W>(inst, a, b, want); return 0; };
    auto et = [](auto& i) { return i.template initialize_product<false, true>(); }; auto full = [](auto& i) { return i.template initialize_product<false, false>(); }; auto dual = [](auto& i) { return i.template initialize_product<true>(); };
    using I = decltype(PAutomatonProduct(pda, mk<W>(pda, a), mk<W>(pda, b)));
    for (bool sw : {false, true}) { t(I(pda, mk<W>(pda, a), mk<W>(pda, b)), "early termination", sw, et); t(I(pda, mk<W>(pda, a), mk<W>(pda, b)), "full", sw, full); }
    t(I(pda, mk<W>(pda, a), mk<W>(pda, b)), "dual", false, dual);
    { I x(pda, mk<W>(pda, a), mk<W>(pda, b)); t(x.copy(), "copy", false, et); full(x); auto y = x.copy(); t(std::move(y), "copy of a built product", false, full);
      auto q = eng::pda_of<W>(pda); I z(std::move(x), q); judge_path<W>(z, a, b, want); { I u(pda, mk<W>(pda, a), mk<W>(pda, b)); u.enable_pre_star(); I v(std::move(u), q); mc::require(&v.automaton() == &v.final_automaton(), "the moved product forgets which automaton comes first"); bool r = v.template initialize_product<false, false>(); if (r != want) mc::fail("moved after choosing backward search: wrong verdict"); judge_path<W>(v, b, a, want); } I u(pda, mk<W>(pda, a), mk<W>(pda, b)); I v(std::move(u), q); t(std::move(v), "moved", true, full); }
}
using UW = weight<uint32_t>;
static void single_case(const WA& a, const WA& b); static void dual_case(const WA& a, const WA& b);
static void weighted_case(const WA& a, const WA& bw) {
    WA b = bw; for (auto& e : b.e) if (e.l < 0 && e.w) { WA z = bw; for (auto& x : z.e) x.w = 0; single_case(a, z); dual_case(a, bw); return; } // in single mode the fixed automaton carries no weights
    single_case(a, b); dual_case(a, b); static_case<UW>(a, b);
}
template<typename I> void judge_weighted(const WA& a, const WA& b, I& i, bool ret, std::optional<long> want, bool sum, const char* what) { mc::count("impl_runs"); if (ret != want.has_value()) mc::fail(std::string(what) + ": wrong verdict");
    auto [p, w] = i.template find_path<Trace_Type::Shortest, true>(); if (!want) { mc::require(p.is_null(), "a path although there is none"); return; } if ((long)w != *want) mc::fail(std::string(what) + ": least weight " + std::to_string(w) + " instead of " + std::to_string(*want)); if (path_ok(p, a, b, sum) != *want) mc::fail(std::string(what) + ": the path does not have the reported weight"); }
static void single_case(const WA& a, const WA& b) {
    auto& pda = pda_for<UW>(a.pda); using I = decltype(PAutomatonProduct(pda, mk<UW>(pda, a), mk<UW>(pda, b))); auto w1 = best(a, b, false);
    { I i(pda, mk<UW>(pda, a), mk<UW>(pda, b)); i.initialize_product<false, false, Trace_Type::Shortest>(); bool r = i.product_automaton().has_accepting_state(); judge_weighted(a, b, i, r, w1, false, "single"); }
    { I i(pda, mk<UW>(pda, a), mk<UW>(pda, b)); bool r = i.initialize_product<false, true, Trace_Type::Shortest>(); bool z = w1 && *w1 == 0; mc::count("impl_runs"); if (r != z) mc::fail("stops with yes although nothing of weight zero is accepted, or misses it"); }
}
static void dual_case(const WA& a, const WA& b) {
    auto& pda = pda_for<UW>(a.pda); using I = decltype(PAutomatonProduct(pda, mk<UW>(pda, a), mk<UW>(pda, b))); auto w2 = best(a, b, true); mc::count("states", a.n * b.n); if (w2 && *w2) mc::count("nontrivial");
    I i(pda, mk<UW>(pda, a), mk<UW>(pda, b)); i.initialize_product<true, false, Trace_Type::Shortest>(); bool r = i.product_automaton().has_accepting_state(); judge_weighted(a, b, i, r, w2, true, "dual");
}
// ---- edge by edge
struct Item { int which; WE e; }; // which: 0 first, 1 second automaton
static std::string items(const std::vector<Item>& s) { std::ostringstream o; for (auto& x : s) { o << (x.which ? " second:" : " first:") << x.e.f << "-" << (x.e.l < 0 ? std::string("eps") : std::string(1, lname(x.e.l))) << "->" << x.e.t; if (x.e.w) o << "(w" << x.e.w << ")"; } return o.str(); }
enum Mode { ONE, ONE_SWAP, DUAL };
// late: all edges are put into the automata before the first announcement
template<typename W> void incr(const WA& a0, const WA& b0, const std::vector<Item>& seq, Mode m, bool et, bool late, long param, int moved = -1) { // moved: -1 before the product is initialised, k>=0 after k extensions
    constexpr bool wt = W::is_weight; constexpr auto TT = wt ? Trace_Type::Shortest : Trace_Type::None;
    auto& pda = pda_for<W>(a0.pda); using I = decltype(PAutomatonProduct(pda, mk<W>(pda, a0), mk<W>(pda, b0)));
    WA a = a0, b = b0; I start = m == ONE_SWAP ? I(pda, mk<W>(pda, b0), mk<W>(pda, a0)) : I(pda, mk<W>(pda, a0), mk<W>(pda, b0)); if (m == ONE_SWAP) start.enable_pre_star();
    bool sum = m == DUAL; bool r = false; auto init = [&](I& i) { r = m == DUAL ? i.template initialize_product<true, true, TT>() : et ? i.template initialize_product<false, true, TT>() : i.template initialize_product<false, false, TT>(); };
    auto pda2 = eng::pda_of<W>(pda), pda3 = eng::pda_of<W>(pda); if (moved >= 0) init(start); auto ip = std::make_unique<I>(std::move(start), pda2); if (moved < 0) init(*ip);
    using AT = eng::aut_of<W>; auto A = [&]() -> auto& { return m == ONE_SWAP ? ip->final_automaton() : ip->initial_automaton(); }; auto B = [&]() -> auto& { return m == ONE_SWAP ? ip->initial_automaton() : ip->final_automaton(); };
    if (m != DUAL) mc::require(&A() == &ip->automaton(), "the growing automaton is not automaton()");
    mc::count("impl_runs"); auto par = [&] { if constexpr (wt) return (uint32_t)param; else return true; }();
    auto now = [&] { auto w = best(a, b, sum); return w && (!wt || *w <= param); };
    { auto w = best(a, b, sum); bool z = w && (!wt || *w == 0); if (r != z) mc::fail("wrong answer before any extension"); if (r && (et || m == DUAL)) return; }
    if (late) for (auto& x : seq) { put_edge<AT, W>(x.which ? B() : A(), x.e); (x.which ? b : a).put(x.e); }
    bool any = false;
    for (size_t k = 0; k < seq.size(); ++k) {
        if (moved > 0 && (size_t)moved == k) ip = std::make_unique<I>(std::move(*ip), pda3);
        auto& i = *ip; auto& x = seq[k]; mc::count("transitions");
        if (!late) { put_edge<AT, W>(x.which ? B() : A(), x.e); (x.which ? b : a).put(x.e); }
        auto an = anno<W>(x.e.w); uint32_t l = x.e.l < 0 ? EPS : x.e.l;
        if (m == DUAL) r = x.which ? i.template add_final_edge<TT>(x.e.f, l, x.e.t, an, par) : i.template add_initial_edge<TT>(x.e.f, l, x.e.t, an, par);
        else r = et ? i.template add_edge_product<true, TT>(x.e.f, l, x.e.t, an, par) : i.template add_edge_product<false, TT>(x.e.f, l, x.e.t, an, par);
        any = any || r;
        if (r && !now()) mc::fail("after extension " + std::to_string(k + 1) + ": a common configuration is reported that does not exist" + (wt ? " within the bound" : ""));
        if (!late && !r && now()) mc::fail("after extension " + std::to_string(k + 1) + ": the common configuration is missed");
        if (r && (et || m == DUAL)) break;
    }
    auto& i = *ip; if (now()) mc::count("nontrivial");
    if (!any && now() && !(seq.empty())) mc::fail("all edges are announced, but the common configuration is missed");
    if (!(any && (et || m == DUAL))) { // nothing was cut short: the product is complete
        auto w = best(a, b, sum);
        if constexpr (wt) { auto [p, pw] = i.template find_path<Trace_Type::Shortest, true>(); if (p.is_null() != !w) mc::fail("final path presence is wrong"); if (w) { if ((long)pw != *w) mc::fail("least weight " + std::to_string(pw) + " instead of " + std::to_string(*w)); if (path_ok(p, a, b, sum) != *w) mc::fail("the path does not have the least weight"); } }
        else judge_path<W>(i, a, b, w.has_value());
    } else { // the path of the early answer
        if constexpr (wt) { auto [p, pw] = i.template find_path<Trace_Type::Shortest, true>(); mc::require(!p.is_null(), "an answer without a path"); long v = path_ok(p, a, b, sum); if ((long)pw > param || v > (long)pw) mc::fail("the path of the early answer is heavier than reported"); }
        else judge_path<W>(i, a, b, true);
    }
}
static std::string desc(const WA& a, const WA& b, const std::vector<Item>& s, const char* m) { return "first " + a.str() + "\nsecond " + b.str() + "\n" + m + " extensions:" + items(s); }
// every automaton over the given edges with kmin..kmax of them
static std::vector<WA> automata(int pda, int n, const std::vector<WE>& es, int kmin, int kmax, const std::vector<std::vector<int>>& accs) {
    std::vector<WA> r; std::vector<WE> cur; std::function<void(size_t)> rec = [&](size_t i) { if ((int)cur.size() >= kmin) for (auto& ac : accs) { WA a; a.pda = pda; a.n = n; a.acc.assign(n, 0); for (int x : ac) a.acc[x] = 1; a.e = cur; r.push_back(a); } if ((int)cur.size() == kmax) return; for (size_t j = i; j < es.size(); ++j) { cur.push_back(es[j]); rec(j + 1); cur.pop_back(); } }; rec(0); return r; }
static void pairs(const std::vector<WA>& x, const std::vector<WA>& y, bool weighted) { for (auto& a : x) for (auto& b : y) mc::run_case([&] { return "first " + a.str() + "\nsecond " + b.str(); }, [&] { if (weighted) weighted_case(a, b); else static_case<weight<void>>(a, b); }); }
template<typename F> void sequences(const std::vector<Item>& al, int len, bool repeats, F&& fn) { std::vector<Item> s; std::vector<char> used(al.size()); std::function<void()> rec = [&] { if (!s.empty()) fn(s); if ((int)s.size() == len) return; for (size_t i = 0; i < al.size(); ++i) if (repeats || !used[i]) { used[i]++; s.push_back(al[i]); rec(); s.pop_back(); used[i]--; } }; rec(); }
// ---- parametric pairs with many states, labels or control states
static void large_pair(const std::string& name, const WA& a, const WA& b) {
    mc::run_case([&] { return name + ", built at once"; }, [&] { WA x = a, y = b; for (auto* z : {&x, &y}) for (auto& e : z->e) e.w = 0; static_case<weight<void>>(x, y); });
    mc::run_case([&] { return name + ", weighted, built at once"; }, [&] { weighted_case(a, b); });
    WA a0 = a, b0 = b; a0.e.clear(); b0.e.clear(); auto orders = [](std::vector<Item> s) { std::vector<std::vector<Item>> r{s}; std::reverse(s.begin(), s.end()); r.push_back(s); std::vector<Item> m; for (size_t i = 0, j = s.size(); i < j; ++i) { m.push_back(s[i]); if (i < --j) m.push_back(s[j]); } r.push_back(m); return r; };
    std::vector<Item> one, both; for (auto& e : a.e) one.push_back({0, e}); for (size_t i = 0; i < std::max(a.e.size(), b.e.size()); ++i) { if (i < a.e.size()) both.push_back({0, a.e[i]}); if (i < b.e.size()) both.push_back({1, b.e[i]}); }
    int k = 0; for (auto& s : orders(one)) { ++k; for (int m = 0; m < 4; ++m) mc::run_case([&] { return name + ", first automaton grows, order " + std::to_string(k) + ", mode " + std::to_string(m); }, [&] { incr<weight<void>>(a0, b, s, m == 1 ? ONE_SWAP : ONE, m == 1 || m == 3, m >= 2, 0); incr<UW>(a0, b, s, m == 1 ? ONE_SWAP : ONE, m == 1, m >= 2, 1000000); }); }
    k = 0; for (auto& s : orders(both)) { ++k; for (int m = 0; m < 2; ++m) mc::run_case([&] { return name + ", both grow, order " + std::to_string(k) + (m ? ", all inserted first" : ""); }, [&] { incr<weight<void>>(a0, b0, s, DUAL, true, m, 0); incr<UW>(a0, b0, s, DUAL, true, m, m ? 1000000 : 0); }); }
}
// every weighting of a fixed pair of automata: detours that are found late and improve what was found before
static void weightings() {
    struct Top { const char* name; int na, nb; std::vector<int> fa, fb; std::vector<WE> a, b; };
    const int A = 0, B = 1, C = 2;
    std::vector<Top> tops = {
        {"late epsilon detour", 6, 4, {5}, {3}, {ed(0, A, 1), ed(0, A, 2), ed(2, -1, 1), ed(0, A, 3), ed(3, B, 4), ed(1, B, 4), ed(4, C, 5)}, {ed(0, A, 1), ed(1, B, 2), ed(2, C, 3)}},
        {"two epsilon detours", 6, 4, {5}, {3}, {ed(0, A, 1), ed(0, A, 2), ed(2, -1, 3), ed(3, -1, 1), ed(1, B, 4), ed(3, B, 4), ed(4, C, 5)}, {ed(0, A, 1), ed(1, B, 2), ed(2, C, 3)}},
        {"late labelled detour", 6, 5, {5}, {4}, {ed(0, A, 1), ed(1, A, 2), ed(0, A, 3), ed(3, A, 2), ed(2, B, 4), ed(2, C, 4), ed(4, B, 5)}, {ed(0, A, 1), ed(1, A, 2), ed(2, B, 3), ed(2, C, 3), ed(3, B, 4)}},
        {"epsilon in the second automaton", 4, 6, {3}, {5}, {ed(0, A, 1), ed(1, B, 2), ed(2, C, 3)}, {ed(0, A, 1), ed(0, A, 2), ed(2, -1, 1), ed(0, A, 3), ed(3, B, 4), ed(1, B, 4), ed(4, C, 5)}},
        {"epsilon in both", 5, 5, {4}, {4}, {ed(0, A, 1), ed(0, -1, 2), ed(2, A, 1), ed(1, B, 3), ed(3, -1, 4)}, {ed(0, A, 1), ed(1, -1, 2), ed(1, B, 3), ed(2, B, 3), ed(3, -1, 4)}},
        {"cycle", 4, 4, {3}, {3}, {ed(0, A, 1), ed(1, A, 2), ed(2, A, 1), ed(2, B, 3), ed(1, B, 3)}, {ed(0, A, 1), ed(1, A, 1), ed(1, B, 3), ed(1, A, 2), ed(2, B, 3)}},
        {"control states", 4, 4, {3}, {3}, {ed(0, A, 2), ed(1, A, 2), ed(0, B, 3), ed(2, A, 3), ed(2, B, 3)}, {ed(0, A, 1), ed(1, A, 3), ed(1, B, 3), ed(1, A, 1), ed(0, B, 3)}}};
    for (auto& t : tops) { int pda = std::string(t.name) == "control states" ? 2 : 1; WA a, b; a.pda = b.pda = pda; a.n = t.na; b.n = t.nb; a.acc.assign(a.n, 0); b.acc.assign(b.n, 0); for (int x : t.fa) a.acc[x] = 1; for (int x : t.fb) b.acc[x] = 1; a.e = t.a; b.e = t.b;
        auto all = [&](WA& x, const std::vector<long>& ws, auto&& fn) { std::function<void(size_t)> rec = [&](size_t i) { if (i == x.e.size()) { fn(); return; } for (long w : ws) { x.e[i].w = w; rec(i + 1); } x.e[i].w = 0; }; rec(0); };
        auto both = [&] { mc::run_case([&] { return std::string(t.name) + ": first " + a.str() + "\nsecond " + b.str(); }, [&] { weighted_case(a, b); }); };
        WA& hard = b.e.size() > a.e.size() ? b : a; WA& easy = &hard == &a ? b : a;
        all(hard, mc::thorough() ? std::vector<long>{0, 1, 2, 3, 5} : std::vector<long>{0, 1, 3, 5}, both);
        if (easy.e.size() == hard.e.size()) all(easy, {0, 1, 3, 5}, both);
        all(hard, {0, 2, 5}, [&] { if (easy.e.size() <= 3) all(easy, {0, 1}, both); });
        // edge by edge: every rotation of the edges, forwards and backwards
        all(hard, mc::thorough() ? std::vector<long>{0, 1, 3} : std::vector<long>{0, 2}, [&] { WA g = hard, none = hard; none.e.clear(); std::vector<Item> it, bi; for (auto& e : g.e) it.push_back({0, e}), bi.push_back({0, e}); for (auto& e : easy.e) bi.push_back({1, e});
            for (int m = 0; m < 5; ++m) { auto s = m < 3 ? it : bi; for (int rev = 0; rev < 2; ++rev) { for (size_t k = 0; k < s.size(); ++k) { std::rotate(s.begin(), s.begin() + 1, s.end()); mc::run_case([&] { return std::string(t.name) + ": " + desc(g, easy, s, m == 0 ? "first grows" : m == 1 ? "final grows, stop at 3" : m == 2 ? "all inserted first" : m == 3 ? "dual, stop at 2" : "dual, moved in between"); },
                [&] { WA e0 = easy; if (m >= 3) e0.e.clear(); else for (auto& e : e0.e) e.w = 0; incr<UW>(none, e0, s, m == 1 ? ONE_SWAP : m >= 3 ? DUAL : ONE, m == 1 || m >= 3, m == 2, m == 1 ? 3 : m == 3 ? 2 : 1000, m == 4 ? (int)s.size() / 2 : m == 1 ? 0 : -1); }); } std::reverse(s.begin(), s.end()); } } });
    }
}
static void large() {
    std::vector<int> sizes; for (int i = 1; i <= (mc::thorough() ? 48 : 20); ++i) sizes.push_back(i); for (int i : {31, 32, 33, 63, 64, 65, 66, 127, 128, 129}) if (i > 66 ? true : i > sizes.back()) sizes.push_back(i); if (mc::thorough()) for (int i : {255, 256, 257}) sizes.push_back(i);
    auto mk = [](int pda, int n, std::vector<int> acc) { WA a; a.pda = pda; a.n = n; a.acc.assign(n, 0); for (int x : acc) a.acc[x] = 1; return a; };
    for (int N : {300, 513, 1000}) for (int k : {0, N / 2, N - 1}) { auto a = mk(N, N + 1, {k}), b = a; std::string n = "(" + std::to_string(N) + ")"; large_pair("empty stack in control state" + n + " " + std::to_string(k), a, b); b.acc[k] = 0; b.acc[(k + 1) % N] = b.acc[N] = 1; b.e = {ed(k, 7, N)}; large_pair("empty stacks in different control states" + n + " " + std::to_string(k), a, b); a.e = {ed(k, 7, N, 2)}; a.acc[N] = 1; large_pair("one label in control state" + n + " " + std::to_string(k), a, b); }
    for (int N : sizes) { std::string n = "(" + std::to_string(N) + ")";
        for (int bad : {-1, 0, N / 2, N - 1}) { auto a = mk(1, N + 1, {N}), b = a; for (int i = 0; i < N; ++i) { a.e.push_back(ed(i, i % 3, i + 1, i % 4)); b.e.push_back(ed(i, i == bad ? 3 : i % 3, i + 1, i % 2)); } large_pair("two chains" + n + " differing at " + std::to_string(bad), a, b); }
        for (int k : {0, N / 2, N - 1}) { auto a = mk(1, 3, {2}), b = mk(1, N + 2, {N + 1}); a.e = {ed(0, 0, 1, 1), ed(1, 0, 1, 1), ed(1, 1, 2, 5)}; b.e.push_back(ed(0, 0, 1)); for (int i = 1; i < N; ++i) b.e.push_back(ed(i, 0, i + 1, 1)); b.e.push_back(ed(k + 1, 1, N + 1)); large_pair("loop against a chain" + n + " left at " + std::to_string(k), a, b); large_pair("a chain" + n + " left at " + std::to_string(k) + " against a loop", b, a); }
        if (N <= 33) { auto a = mk(1, N + 1, {N}), b = mk(1, N + 2, {N + 1}); a.e.push_back(ed(0, 0, 1)); for (int i = 1; i <= N; ++i) a.e.push_back(ed(i, 0, i % N + 1, i == 1)); b.e.push_back(ed(0, 0, 1)); for (int i = 1; i <= N + 1; ++i) b.e.push_back(ed(i, 0, i % (N + 1) + 1, i == 2)); large_pair("cycles of coprime length" + n, a, b); }
        for (int k : {0, N / 2, N - 1}) { auto a = mk(1, 2, {1}), b = a; for (int l = 0; l < N; ++l) { if (l <= k) a.e.push_back(ed(0, l, 1, N - l)); if (l >= k) b.e.push_back(ed(0, l, 1, l)); } large_pair("label sets" + n + " meeting in " + std::to_string(k), a, b); if (k) { b.e.erase(b.e.begin()); large_pair("disjoint label sets" + n, a, b); } for (int l = 0; l < k; ++l) b.e.push_back(ed(0, l, 1, N + l)); large_pair("label sets" + n + " of different weights", a, b); }
        for (int k : {0, N / 2, N - 1}) { auto a = mk(N, N + 1, {N}), b = a; for (int i = 0; i < N; ++i) { a.e.push_back(ed(i, 0, N, i % 3)); b.e.push_back(ed(i, i == k ? 0 : 1, N, 1)); } large_pair("control states" + n + " meeting in " + std::to_string(k), a, b); auto c = a, d = a; for (auto& e : c.e) if (e.f != k) e.t = (e.f + 1) % N; d.e = {ed(0, 0, 0)}; d.e.clear(); for (int i = 0; i < N; ++i) d.e.push_back(ed(i, 0, i == N - 1 ? N : i + 1)); large_pair("rings of control states" + n + " left at " + std::to_string(k), c, d); }
        { auto a = mk(1, N + 2, {N + 1}), b = mk(1, 2, {1}); for (int i = 0; i < N; ++i) a.e.push_back(ed(i, -1, i + 1, i % 2)); a.e.push_back(ed(N, 0, N + 1)); b.e = {ed(0, 0, 1, 2)}; large_pair("epsilon chain" + n, a, b); b.e[0].l = 1; large_pair("epsilon chain" + n + " wrong label", a, b); }
        for (int k : {0, N / 2, N - 1}) { auto a = mk(N, N, {k}), b = mk(N, N, {k}); large_pair("empty stack in control state" + n + " " + std::to_string(k), a, b); b.acc[k] = 0; if (N > 1) b.acc[(k + 1) % N] = 1; large_pair("empty stacks in different control states" + n + " " + std::to_string(k), a, b); b.e = {ed((k + 1) % N, 0, k)}; large_pair("empty stacks and an edge" + n + " " + std::to_string(k), a, b); }
        // a fan: N states reached by the same label, one of which has the right continuation
        for (int k : {1, (N + 1) / 2, N}) { auto a = mk(1, N + 2, {N + 1}), b = mk(1, 3, {2}); for (int i = 1; i <= N; ++i) a.e.push_back(ed(0, 0, i, std::abs(i - k))); for (int i = 1; i <= N; ++i) a.e.push_back(ed(i, i == k ? 1 : 2, N + 1, 1)); b.e = {ed(0, 0, 1), ed(1, 1, 2, 1), ed(1, 3, 2)}; large_pair("fan" + n + " good " + std::to_string(k), a, b); large_pair("against a fan" + n + " good " + std::to_string(k), b, a); }
    }
}
int main(int argc, char** argv) {
    mc::Check c; c.property = "C18";
    c.rule = "every pair of automata within the bounds: emptiness of the product, built at once (with and without early termination, either automaton first, copied, moved, from NFAs) and edge by edge in every order (single and dual mode, edges inserted one at a time or all before the first announcement, repeated and improving announcements), compared with an independent search of the pair graph; every reported path is checked in both automata; non-trivial = non-empty intersection";
    c.assumptions = {"while only one automaton grows, the epsilon edges of the other one have weight zero", "an edge is put into its automaton before it is announced (the protocol of the saturation procedures)", "in early-termination mode nothing is judged after the first positive answer except its path"};
    c.bounds_quick = "static: 1 control state with <=2+2 extra states, <=4 edges each over 2 labels and epsilon; 2 control states; weights {0,1,2}; incremental: sequences of <=3 (single), <=3 (dual, 27 items), <=4 (dual, 14 items) extensions; the same with 2 control states and edges into control states; large: chains, loops, cycles, label sets, control states, epsilon chains and fans of 1-20, 32+-1, 64+-1, 128+-1 elements, at once and edge by edge in three orders; weightings: 7 fixed pairs with every weighting by {0,1,3,5}, edge by edge in every rotation";
    c.bounds_thorough = "static <=5 edges; incremental sequences one longer";
    std::vector<WE> all12; for (int f = 0; f < 3; ++f) for (int t = 1; t < 3; ++t) for (int l = 0; l < 2; ++l) all12.push_back(ed(f, l, t));
    std::vector<WE> eps3 = {ed(0, -1, 1), ed(0, -1, 2), ed(1, -1, 2)};
    auto plus = [](std::vector<WE> a, const std::vector<WE>& b) { a.insert(a.end(), b.begin(), b.end()); return a; };
    c.suites = {
        {"static", [=] { int k = mc::thorough() ? 4 : 3; pairs(automata(1, 3, plus(all12, eps3), 0, k, {{2}}), automata(1, 3, all12, 0, 3, {{2}, {1}}), false); pairs(automata(1, 3, all12, 0, 2, {{0, 1}, {0, 2}, {1, 2}, {}}), automata(1, 3, plus(all12, eps3), 0, 2, {{0}, {1}, {0, 2}, {1, 2}}), false); }},
        {"static_epsilon", [=] { std::vector<WE> s = {ed(0, -1, 1), ed(0, 0, 1), ed(1, 0, 2), ed(1, -1, 2), ed(2, 0, 1), ed(2, -1, 1), ed(0, 0, 2), ed(1, 1, 1)}; pairs(automata(1, 3, s, 0, 8, {{2}, {1}}), automata(1, 3, s, 0, 8, {{2}}), false); }},
        {"static_controls", [=] { std::vector<WE> s; for (int f = 0; f < 2; ++f) for (int t = 0; t < 3; ++t) for (int l = 0; l < 1; ++l) s.push_back(ed(f, l, t)); s.push_back(ed(2, 0, 2)); s.push_back(ed(2, 0, 0)); s.push_back(ed(0, 1, 2)); auto x = automata(2, 3, s, 0, mc::thorough() ? 5 : 4, {{2}, {0}, {1, 2}}); pairs(x, automata(2, 3, s, 0, 3, {{2}, {0}}), false); }},
        {"static_weighted", [=] { std::vector<WE> s = {ed(0, 0, 1, 1), ed(0, 0, 2, 2), ed(0, 1, 2, 0), ed(1, 0, 2, 0), ed(1, 1, 2, 1), ed(2, 0, 2, 1), ed(2, 1, 1, 0), ed(1, 0, 1, 2), ed(0, -1, 1, 1)}, t = {ed(0, 0, 1, 0), ed(0, 0, 2, 1), ed(0, 1, 1, 2), ed(1, 0, 2, 1), ed(1, 1, 2, 0), ed(1, 1, 1, 1), ed(2, 0, 2, 0), ed(2, 1, 2, 2)};
            pairs(automata(1, 3, s, 0, mc::thorough() ? 9 : 6, {{2}}), automata(1, 3, t, 0, mc::thorough() ? 8 : 5, {{2}, {1, 2}}), true); }},
        {"large", large}, {"weightings", weightings},
        {"nfa", [=] { // the constructor from two stack languages
            Space sp({{"a", "a", false, 0}, {"b", "b", false, 0}, {"^a", "a", true, 0}, {"eps", "", false, 1}}, mc::thorough() ? 3 : 2); std::vector<std::vector<size_t>> sts = {{0}, {0, 1}, {1}, {}};
            for (size_t x = 0; x < sp.t.size(); ++x) for (size_t y = 0; y < sp.t.size(); ++y) { if (!mc::thorough() && sp.t[x].size == 2 && sp.t[y].size == 2) continue; mc::run_case([&] { return "stacks " + sp.str(x) + " and " + sp.str(y); }, [&] {
                static auto pda = [] { PDA<char, weight<void>> p; for (char l : {'a', 'b', 'c'}) p.insert_label(l); p.insert_state(0); p.insert_state(1); return p; }();
                Build<char> bd{sp, [](char q) { return q; }, 0}; auto n1 = bd(x), n2 = bd(y); n1.compile(); n2.compile(); bool common = (sp.lang[x] & sp.lang[y]).any(); // words up to length 4: longer ones are not needed at these sizes
                for (auto& s1 : sts) for (auto& s2 : sts) { bool meet = std::any_of(s1.begin(), s1.end(), [&](size_t v) { return std::find(s2.begin(), s2.end(), v) != s2.end(); }); using I = PAutomatonProduct<PDA<char, weight<void>>, PAutomaton<char, weight<void>, size_t, true>, weight<void>>;
                    I i(pda, n1, s1, n2, s2); bool r = i.template initialize_product<false, false>(); mc::count("impl_runs"); mc::count("states"); if (r != (common && meet)) mc::fail("states {" + std::to_string(s1.size()) + "} / {" + std::to_string(s2.size()) + "}: says " + (r ? "non-empty" : "empty")); if (r) { mc::count("nontrivial"); auto p = i.template find_path<Trace_Type::Any, true>(); mc::require(!p.is_null(), "no path"); std::string w; for (auto l : p.get_path_and_stack().second) w += SYM[l]; if ((int)w.size() <= LEN && !(sp.lang[x][W().id.at(w)] && sp.lang[y][W().id.at(w)])) mc::fail("the path has stack '" + w + "', which is not in both"); mc::require(p.front_state().first == p.front_state().second && p.front_state().first < 2, "the path starts outside the control states"); } }
            }); } }},
        {"grow_one", [=] { // the first automaton grows
            std::vector<Item> al; for (auto& e : plus(all12, eps3)) al.push_back({0, e}); auto seconds = automata(1, 3, all12, 1, mc::thorough() ? 3 : 2, {{2}}); { WA x; x.pda = 1; x.n = 3; x.acc = {0, 0, 1}; for (auto& v : std::vector<std::vector<WE>>{{ed(0, 0, 1), ed(1, 0, 2), ed(1, 1, 1)}, {ed(0, 0, 1), ed(1, 1, 2), ed(0, 0, 2)}, {ed(0, 1, 1), ed(1, 0, 1), ed(1, 0, 2)}, {ed(0, 0, 2), ed(2, 0, 1), ed(1, 1, 2)}, {ed(0, 0, 1), ed(0, 1, 1), ed(1, 0, 1), ed(1, 1, 1), ed(1, 0, 2), ed(1, 1, 2)}}) { x.e = v; seconds.push_back(x); } }
            WA a; a.pda = 1; a.n = 3; 
            for (auto& b : seconds) for (int acc = 1; acc <= 2; ++acc) { a.acc = {0, 0, 0}; a.acc[acc] = 1; sequences(al, 3, false, [&](const std::vector<Item>& s) { for (int m = 0; m < 4; ++m) mc::run_case([&] { return desc(a, b, s, m == 0 ? "one at a time" : m == 1 ? "one at a time, with early termination, final automaton grows" : m == 2 ? "all inserted first" : "all inserted first, with early termination"); }, [&] { incr<weight<void>>(a, b, s, m == 1 ? ONE_SWAP : ONE, m == 1 || m == 3, m >= 2, 0); }); }); }
        }},
        {"grow_four", [=] { std::vector<Item> al; for (auto& e : {ed(0, 0, 1), ed(0, 0, 2), ed(1, 0, 2), ed(1, 0, 1), ed(1, 1, 2), ed(2, 0, 1), ed(0, -1, 1), ed(0, -1, 2), ed(1, 1, 1)}) al.push_back({0, e}); WA a, b; a.pda = b.pda = 1; a.n = b.n = 3; a.acc = {0, 0, 1}; b.acc = {0, 0, 1};
            for (auto& v : std::vector<std::vector<WE>>{{ed(0, 0, 1), ed(1, 0, 2), ed(1, 1, 1)}, {ed(0, 0, 1), ed(1, 1, 2), ed(0, 0, 2)}, {ed(0, 0, 1), ed(1, 0, 1), ed(1, 1, 2)}, {ed(0, 0, 2), ed(2, 0, 1), ed(1, 1, 2)}, {ed(0, 0, 1), ed(1, 0, 2), ed(2, 0, 1), ed(2, 1, 2)}}) { b.e = v; sequences(al, mc::thorough() ? 5 : 4, false, [&](const std::vector<Item>& s) { for (int m = 0; m < 3; ++m) mc::run_case([&] { return desc(a, b, s, m == 0 ? "one at a time" : m == 1 ? "with early termination" : "all inserted first, with early termination"); }, [&] { incr<weight<void>>(a, b, s, m == 1 ? ONE_SWAP : ONE, m >= 1, m == 2, 0); }); }); } }},
        {"grow_both", [=] { std::vector<Item> al; for (auto& e : plus(all12, eps3)) al.push_back({0, e}); for (auto& e : all12) al.push_back({1, e}); WA a, b; a.pda = b.pda = 1; a.n = b.n = 3; a.acc = {0, 0, 1}; b.acc = {0, 0, 1};
            std::vector<std::pair<std::vector<WE>, std::vector<WE>>> bases = {{{}, {}}, {{ed(0, 0, 1)}, {ed(0, 0, 1)}}, {{ed(0, 0, 1)}, {ed(1, 0, 2)}}, {{ed(0, 0, 1), ed(1, 1, 1)}, {ed(0, 0, 2), ed(2, 1, 1)}}, {{ed(1, 0, 2), ed(1, 1, 1)}, {ed(0, 0, 1), ed(0, 1, 2)}}, {{ed(0, -1, 1)}, {ed(1, 0, 2)}}};
            for (auto& [x, y] : bases) { a.e = x; b.e = y; sequences(al, 3, false, [&](const std::vector<Item>& s) { for (int late = 0; late < 2; ++late) mc::run_case([&] { return desc(a, b, s, late ? "dual, all inserted first" : "dual, one at a time"); }, [&] { incr<weight<void>>(a, b, s, DUAL, true, late, 0, late); }); }); } }},
        {"grow_both_four", [=] { std::vector<Item> al; for (auto& e : {ed(0, 0, 1), ed(0, 0, 2), ed(1, 0, 2), ed(1, 0, 1), ed(1, 1, 2), ed(0, -1, 1), ed(0, -1, 2)}) al.push_back({0, e}); for (auto& e : {ed(0, 0, 1), ed(0, 0, 2), ed(1, 0, 2), ed(1, 0, 1), ed(2, 0, 2), ed(1, 1, 2), ed(2, 1, 2)}) al.push_back({1, e}); WA a, b; a.pda = b.pda = 1; a.n = b.n = 3; a.acc = {0, 0, 1}; b.acc = {0, 0, 1};
            for (auto& x : std::vector<std::vector<WE>>{{}, {ed(0, 0, 1)}}) { a.e = x; b.e = {}; sequences(al, mc::thorough() ? 5 : 4, false, [&](const std::vector<Item>& s) { for (int late = 0; late < 2; ++late) mc::run_case([&] { return desc(a, b, s, late ? "dual, all inserted first" : "dual, one at a time"); }, [&] { incr<weight<void>>(a, b, s, DUAL, true, late, 0, 2); }); }); } }},
        {"grow_controls", [=] { // two control states; edges may lead into control states, as backward saturation makes them
            std::vector<WE> up = {ed(0, 0, 1), ed(0, 0, 0), ed(1, 0, 0), ed(1, 0, 2), ed(0, 0, 2), ed(1, 1, 2), ed(0, 1, 1), ed(2, 0, 2)};
            std::vector<std::vector<WE>> fixed = {{ed(0, 0, 2), ed(2, 0, 3), ed(2, 1, 3)}, {ed(0, 0, 2), ed(1, 0, 3), ed(2, 0, 2), ed(2, 0, 3)}, {ed(0, 1, 2), ed(1, 1, 2), ed(2, 0, 3), ed(0, 0, 2)}, {ed(0, -1, 2), ed(2, 0, 2), ed(2, 1, 3), ed(1, 0, 3)}, {ed(1, 0, 2), ed(2, 0, 2), ed(2, 1, 3), ed(0, 0, 2)}};
            std::vector<Item> one, both; for (auto& e : up) one.push_back({0, e}), both.push_back({1, e}); for (auto& e : {ed(0, 0, 2), ed(2, 0, 3), ed(2, 1, 3), ed(1, 0, 2), ed(2, 0, 2), ed(0, -1, 2)}) both.push_back({0, e});
            WA a, b; a.pda = b.pda = 2; a.n = 3; b.n = 4; a.acc = {0, 0, 1}; b.acc = {0, 0, 0, 1};
            for (int k = 0; k < 2; ++k) { if (k) a.acc = {0, 1, 0}; for (auto& v : fixed) { b.e = v; a.e = {}; sequences(one, mc::thorough() ? 5 : 4, false, [&](const std::vector<Item>& s) { for (int m = 0; m < 3; ++m) mc::run_case([&] { return desc(a, b, s, m == 0 ? "one at a time" : m == 1 ? "with early termination, final automaton grows" : "all inserted first"); }, [&] { incr<weight<void>>(a, b, s, m == 1 ? ONE_SWAP : ONE, m == 1, m == 2, 0); }); }); }
                for (auto& v : fixed) { WA x = b, y = a; x.e = v; y.e = {}; sequences(both, 3, false, [&](const std::vector<Item>& s) { for (int late = 0; late < 2; ++late) mc::run_case([&] { return desc(x, y, s, late ? "dual, all inserted first" : "dual, one at a time"); }, [&] { incr<weight<void>>(x, y, s, DUAL, true, late, 0); }); }); }
                { WA x = b, y = a; x.e = {ed(0, 0, 2)}; y.e = {ed(0, 0, 1)}; sequences(both, mc::thorough() ? 5 : 4, false, [&](const std::vector<Item>& s) { for (int late = 0; late < 2; ++late) mc::run_case([&] { return desc(x, y, s, late ? "dual, all inserted first" : "dual, one at a time"); }, [&] { incr<weight<void>>(x, y, s, DUAL, true, late, 0); }); }); } } }},
        {"grow_controls_weighted", [=] { std::vector<Item> both, one; for (auto& e : {ed(0, 0, 1, 2), ed(0, 0, 1, 0), ed(1, 0, 2, 1), ed(1, 0, 1, 1), ed(0, 0, 2, 4), ed(1, 1, 2, 0), ed(1, 0, 0, 0)}) both.push_back({1, e}), one.push_back({0, e}); for (auto& e : {ed(0, 0, 2, 1), ed(2, 0, 3, 1), ed(2, 1, 3, 0), ed(2, 0, 2, 0), ed(0, 0, 3, 3)}) both.push_back({0, e});
            WA a, b; a.pda = b.pda = 2; a.n = 3; b.n = 4; a.acc = {0, 0, 1}; b.acc = {0, 0, 0, 1};
            for (auto& v : std::vector<std::vector<WE>>{{ed(0, 0, 2), ed(2, 0, 3), ed(2, 1, 3)}, {ed(0, 0, 2, 1), ed(1, 0, 3), ed(2, 0, 2), ed(2, 0, 3)}}) { b.e = v; sequences(one, 4, false, [&](const std::vector<Item>& s) { for (int m = 0; m < 3; ++m) mc::run_case([&] { return desc(a, b, s, m == 0 ? "one at a time" : m == 1 ? "early termination at weight 2, final automaton grows" : "all inserted first"); }, [&] { incr<UW>(a, b, s, m == 1 ? ONE_SWAP : ONE, m == 1, m == 2, m == 1 ? 2 : 1000); }); });
                WA x = b, y = a; sequences(both, mc::thorough() ? 5 : 4, false, [&](const std::vector<Item>& s) { for (long k : {0l, 3l, 1000l}) mc::run_case([&] { return desc(x, y, s, ("dual, bound " + std::to_string(k) + ",").c_str()); }, [&] { incr<UW>(x, y, s, DUAL, true, k == 3, k); }); }); } }},
        {"grow_weighted", [=] { std::vector<Item> al; for (auto& e : {ed(0, 0, 1, 2), ed(0, 0, 1, 0), ed(0, 0, 2, 3), ed(1, 0, 2, 0), ed(1, 0, 2, 1), ed(1, 1, 2, 1), ed(0, -1, 1, 1), ed(2, 0, 2, 0), ed(1, 0, 1, 1)}) al.push_back({0, e}); WA a, b; a.pda = b.pda = 1; a.n = b.n = 3; a.acc = {0, 0, 1}; b.acc = {0, 0, 1};
            for (auto& v : std::vector<std::vector<WE>>{{ed(0, 0, 1), ed(1, 0, 2), ed(0, 0, 2)}, {ed(0, 0, 1), ed(1, 0, 1), ed(1, 0, 2)}, {ed(0, 0, 1, 1), ed(1, 1, 2), ed(0, 0, 2), ed(2, 0, 2)}}) for (auto& u : std::vector<std::vector<WE>>{{}, {ed(0, 0, 1, 4), ed(1, 0, 2, 4)}}) { b.e = v; a.e = u; sequences(al, mc::thorough() ? 5 : 4, false, [&](const std::vector<Item>& s) { for (int m = 0; m < 5; ++m) mc::run_case([&] { return desc(a, b, s, m == 0 ? "one at a time" : m == 1 ? "early termination at weight 2, final automaton grows" : m == 2 ? "early termination at weight 3, all inserted first" : m == 3 ? "one at a time, final automaton grows" : "early termination at weight 0"); }, [&] { incr<UW>(a, b, s, m == 1 || m == 3 ? ONE_SWAP : ONE, m == 1 || m == 2 || m == 4, m == 2, m == 1 ? 2 : m == 2 ? 3 : m == 4 ? 0 : 1000); }); }); } }},
        {"grow_both_weighted", [=] { std::vector<Item> al; for (auto& e : {ed(0, 0, 1, 2), ed(0, 0, 1, 0), ed(0, 0, 2, 3), ed(1, 0, 2, 1), ed(0, -1, 1, 1), ed(1, 0, 1, 0)}) al.push_back({0, e}); for (auto& e : {ed(0, 0, 1, 1), ed(0, 0, 2, 2), ed(1, 0, 2, 0), ed(1, 0, 2, 2), ed(2, 0, 2, 1)}) al.push_back({1, e}); WA a, b; a.pda = b.pda = 1; a.n = b.n = 3; a.acc = {0, 0, 1}; b.acc = {0, 0, 1};
            for (auto& [x, y] : std::vector<std::pair<std::vector<WE>, std::vector<WE>>>{{{}, {}}, {{ed(0, 0, 1, 3), ed(1, 0, 2, 2)}, {}}, {{}, {ed(0, 0, 1, 3), ed(1, 0, 2, 3)}}}) { a.e = x; b.e = y; sequences(al, mc::thorough() ? 5 : 4, false, [&](const std::vector<Item>& s) { for (long k : {0l, 2l, 4l, 1000l}) mc::run_case([&] { return desc(a, b, s, ("dual, bound " + std::to_string(k) + ",").c_str()); }, [&] { incr<UW>(a, b, s, DUAL, true, k == 4, k); }); }); } }},
    };
    return mc::main_(argc, argv, c);
}
