// C06: P-automata accept exactly the configurations they were built from; union, copies and reported paths.
#include "regex.h"
#include "rx.h"
#include "fam.h"
#include <pdaaal/PAutomaton.h>
#include <pdaaal/Solver.h>
using namespace ref;
static const std::vector<std::string>& words() { return W().w; }
using Void = weight<void>; using UInt = weight<uint32_t>;
template<typename Wt> using pda_of = PDA<char, Wt>;
template<typename Wt, TraceInfoType ti = TraceInfoType::Single> using aut_of = PAutomaton<char, Wt, size_t, true, ti>;
template<typename Wt> struct Pda : pda_of<Wt> { Pda(int n, const std::string& labels) { for (char c : labels) this->insert_label(c); for (int i = 0; i < n; ++i) this->insert_state(i); } };
static std::vector<uint32_t> enc(const std::string& w, const std::string& labels) { std::vector<uint32_t> r; for (char c : w) r.push_back(labels.find(c)); return r; }
using Set = std::function<bool(int, const std::string&)>;
template<typename A> bool path_ok(const A& a, const std::vector<size_t>& p, size_t state, const std::vector<uint32_t>& st) {
    if (p.size() != st.size() + 1 || p[0] != state) return false;
    for (size_t i = 0; i < st.size(); ++i) { bool ok = false; for (const auto& [to, labels] : a.states()[p[i]]->_edges) if (to == p[i + 1]) for (const auto& [l, tr] : labels) if (l == st[i]) ok = true; if (!ok) return false; }
    return a.states()[p.back()]->_accepting;
}
template<typename Wt, typename A> void exact(const A& a, int n, const std::string& labels, const Set& in, const std::string& what) {
    bool any = false, acc = false;
    mc::count("impl_runs");
    for (auto& s : a.states()) acc |= s->_accepting;
    if (a.has_accepting_state() != acc) mc::fail(what + ": has_accepting_state differs from the accepting flags");
    for (int p = 0; p < n; ++p) for (auto& w : words()) {
        if (w.find_first_not_of(labels) != std::string::npos) continue;
        bool want = in(p, w); any |= want; auto st = enc(w, labels);
        mc::count("states");
        auto who = [&] { return what + ": configuration <" + std::to_string(p) + "," + w + "> "; };
        if (a.accepts(p, st) != want) mc::fail(who() + (want ? "rejected" : "accepted"));
        auto path = a.template accept_path<Trace_Type::Any>(p, st);
        if (path.empty() == want) mc::fail(who() + "accept_path disagrees");
        if (want && !path_ok(a, path, p, st)) mc::fail(who() + "the reported accepting path is not one");
        if constexpr (Wt::is_weight) {
            auto [sp, wt] = a.template accept_path<Trace_Type::Shortest>(p, st);
            if (sp.empty() == want) mc::fail(who() + "shortest accept_path disagrees");
            if (want && (!path_ok(a, sp, p, st) || wt != Wt::zero())) mc::fail(who() + "the reported shortest accepting path is not one");
        }
    }
    auto judge = [&](const auto& fp, const char* nm) {
        if (fp.is_null()) { if (any) mc::fail(what + ": " + nm + " finds no path although the set is not empty"); return; }
        auto [states, st] = fp.get_path_and_stack();
        std::vector<size_t> ps(states.begin(), states.end());
        if (ps.empty() || ps[0] >= (size_t)n || !path_ok(a, ps, ps[0], st)) mc::fail(what + ": " + nm + " returned something that is not an accepting path");
        std::string w; for (auto l : st) { if (l >= labels.size()) mc::fail(what + ": " + nm + " used an unknown label"); w += labels[l]; }
        if (w.size() <= LEN && !in(ps[0], w)) mc::fail(what + ": " + nm + " returned a configuration outside the set");
    };
    judge(a.find_path(), "find_path");
    if constexpr (Wt::is_weight) { auto [fp, wt] = a.template find_path_shortest<false>(); judge(fp, "find_path_shortest"); }
    if (any) mc::count("nontrivial");
}
static std::vector<size_t> subset(int n, int m) { std::vector<size_t> r; for (int i = 0; i < n; ++i) if (m >> i & 1) r.push_back(i); return r; }
static const std::vector<std::string> ORD3 = {"abc", "cba", "bca", "ba"};

template<typename Wt> void single(int n, const std::string& labels, int p, const std::string& stack) {
    mc::run_case([&] { return "one configuration <" + std::to_string(p) + "," + stack + "> of " + std::to_string(n) + " states, labels added in the order " + labels + (Wt::is_weight ? ", uint weights" : ""); }, [&] {
        Pda<Wt> pda(n, labels); std::vector<char> st(stack.begin(), stack.end());
        Set in = [&](int q, const std::string& w) { return q == p && w == stack; };
        { aut_of<Wt> a(pda, (size_t)p, st); exact<Wt>(a, n, labels, in, "typed constructor"); }
        { internal::PAutomaton<Wt> a(static_cast<const internal::PDA<Wt>&>(pda), (size_t)p, enc(stack, labels)); exact<Wt>(a, n, labels, in, "internal constructor"); }
        { aut_of<Wt, TraceInfoType::Pair> a(pda, (size_t)p, st); for (int q = 0; q < n; ++q) for (auto& w : words()) if (w.find_first_not_of(labels) == std::string::npos && a.accepts(q, enc(w, labels)) != in(q, w)) mc::fail("two-trace automaton differs"); }
    });
}
template<typename Wt> void lang(const Space& s, int i, int n, int m, const std::string& labels) {
    mc::run_case([&] { return "states " + std::to_string(m) + " (bit mask, of " + std::to_string(n) + ") with stacks " + s.str(i) + ", labels added in the order " + labels + (Wt::is_weight ? ", uint weights" : ""); }, [&] {
        Pda<Wt> pda(n, labels);
        auto& L = s.lang[i];
        Set in = [&](int q, const std::string& w) { return (m >> q & 1) && L[W().id.at(w)]; };
        { Build<char> b{s, [](char c) { return c; }, 0}; auto nfa = b(i); nfa.compile(); aut_of<Wt> a(pda, nfa, subset(n, m)); exact<Wt>(a, n, labels, in, "from an NFA over labels"); }
        { Build<uint32_t> b{s, [&](char c) { return (uint32_t)labels.find(c); }, 0}; auto nfa = b(i); nfa.compile();
          aut_of<Wt> a(pda, nfa, subset(n, m)); exact<Wt>(a, n, labels, in, "from an NFA over label ids");
          internal::PAutomaton<Wt> ia(static_cast<const internal::PDA<Wt>&>(pda), nfa, subset(n, m)); exact<Wt>(ia, n, labels, in, "internal, from an NFA over label ids"); }
    });
}
// a pool of ways to build an automaton over two states and labels a,b
struct Item { std::string name; int kind; int p = 0; std::string stack; int term = 0, mask = 0; };
struct Pool { Space s; std::vector<Item> v; std::string labels; int n = 2;
    Pool(std::vector<Atom> at, int ops, int stacks, const std::string& l) : s(at, ops), labels(l) {
        for (auto& w : words()) if ((int)w.size() <= stacks && w.find('c') == std::string::npos) for (int p = 0; p < n; ++p) v.push_back({"<" + std::to_string(p) + "," + w + ">", 0, p, w});
        for (size_t t = 0; t < s.t.size(); ++t) for (int m = 0; m < 4; ++m) v.push_back({"{states " + std::to_string(m) + " x " + s.str(t) + "}", 1, 0, "", (int)t, m});
        for (int m = 0; m < 4; ++m) v.push_back({"{accepting states " + std::to_string(m) + "}", 2, 0, "", 0, m});
    }
    bool in(const Item& x, int q, const std::string& w) const { switch (x.kind) { case 0: return q == x.p && w == x.stack; case 1: return (x.mask >> q & 1) && s.lang[x.term][W().id.at(w)]; default: return (x.mask >> q & 1) && w.empty(); } }
    template<typename A, typename P> A make(const P& pda, const Item& x) const {
        if (x.kind == 0) return A(pda, (size_t)x.p, std::vector<char>(x.stack.begin(), x.stack.end()));
        if (x.kind == 1) { Build<char> b{s, [](char c) { return c; }, 0}; auto nfa = b(x.term); nfa.compile(); return A(pda, nfa, subset(n, x.mask)); }
        return A(pda, subset(n, x.mask), true);
    } };
template<typename Wt> void unions(const Pool& P, const std::vector<int>& ids) {
    mc::run_case([&] { std::string r = "union"; for (int i : ids) r += " | " + P.v[i].name; return r + ", labels in the order " + P.labels; }, [&] {
        Pda<Wt> pda(P.n, P.labels); using A = aut_of<Wt>;
        auto upto = [&](size_t k) { return Set([&, k](int q, const std::string& w) { for (size_t i = 0; i < k; ++i) if (P.in(P.v[ids[i]], q, w)) return true; return false; }); };
        A a = P.make<A>(pda, P.v[ids[0]]);
        for (size_t k = 1; k < ids.size(); ++k) { a.or_extend(P.make<A>(pda, P.v[ids[k]])); exact<Wt>(a, P.n, P.labels, upto(k + 1), "after " + std::to_string(k) + " unions"); }
    });
}
template<typename Wt> void copies(const Pool& P, int i, int j) {
    mc::run_case([&] { return "copy of " + P.v[i].name + ", then joined with " + P.v[j].name; }, [&] {
        using A = aut_of<Wt>; using I = internal::PAutomaton<Wt>;
        auto pda = std::make_unique<Pda<Wt>>(P.n, P.labels);
        Set si = [&](int q, const std::string& w) { return P.in(P.v[i], q, w); }, sj = [&](int q, const std::string& w) { return P.in(P.v[j], q, w); }, sij = [&](int q, const std::string& w) { return si(q, w) || sj(q, w); };
        auto a = std::make_unique<A>(P.make<A>(*pda, P.v[i]));
        A c(*a); exact<Wt>(c, P.n, P.labels, si, "copy");
        I ic(static_cast<const I&>(*a)); exact<Wt>(ic, P.n, P.labels, si, "internal copy");
        c.or_extend(P.make<A>(*pda, P.v[j])); exact<Wt>(c, P.n, P.labels, sij, "copy joined"); exact<Wt>(*a, P.n, P.labels, si, "original after joining the copy");
        A d(*a); for (int p = 0; p < P.n; ++p) d.set_state_accepting(p);
        exact<Wt>(d, P.n, P.labels, [&](int q, const std::string& w) { return w.empty() || si(q, w); }, "copy with all control states made accepting"); exact<Wt>(*a, P.n, P.labels, si, "original after changing the copy");
        I moved(std::move(ic)); exact<Wt>(moved, P.n, P.labels, si, "moved internal automaton");
        Pda<Wt> other(P.n, P.labels); A e(std::move(*a), other); a.reset(); pda.reset(); exact<Wt>(e, P.n, P.labels, si, "moved to another system"); // the first system no longer exists
        e.or_extend(P.make<A>(other, P.v[j])); exact<Wt>(e, P.n, P.labels, sij, "moved and joined");
    });
}
// ---- unions and copies of automata given by edges, with weights and with epsilon edges as post* leaves them (their continuations are added to the control state as well)
struct WE { int f, l, t; long w; }; // label 2 = epsilon; states 0, 1 control, 2, 3 extra
struct WA { std::vector<WE> e; int acc; };
static std::string show(const WA& x) { std::string r = "{accepting mask " + std::to_string(x.acc) + ":"; for (auto& e : x.e) r += " " + std::to_string(e.f) + "-" + (e.l == 2 ? "eps" : e.l ? "b" : "a") + "(" + std::to_string(e.w) + ")->" + std::to_string(e.t); return r + "}"; }
static WA closed(WA x) { size_t n = x.e.size(); auto put = [&](WE e) { for (auto& o : x.e) if (o.f == e.f && o.l == e.l && o.t == e.t) { o.w = std::min(o.w, e.w); return; } x.e.push_back(e); }; for (size_t i = 0; i < n; ++i) if (x.e[i].l == 2) for (size_t j = 0; j < n; ++j) if (x.e[j].l < 2 && x.e[j].f == x.e[i].t) put({x.e[i].f, x.e[j].l, x.e[j].t, x.e[i].w + x.e[j].w}); return x; }
static const long NOW = 1 << 20;
static long dist(const WA& x, int p, const std::string& w) { std::array<long, 4> d; d.fill(NOW); d[p] = 0; if (w.empty()) { for (auto& e : x.e) if (e.l == 2 && e.f == p) d[e.t] = std::min(d[e.t], e.w); } for (char c : w) { std::array<long, 4> n; n.fill(NOW); for (auto& e : x.e) if (e.l == c - 'a') n[e.t] = std::min(n[e.t], d[e.f] + e.w); d = n; } long m = NOW; for (int q = 0; q < 4; ++q) if (x.acc >> q & 1) m = std::min(m, d[q]); return m; }
template<typename Wt> aut_of<Wt> build(const Pda<Wt>& pda, const WA& x) {
    aut_of<Wt> a(pda, subset(2, x.acc & 3), true); a.add_state(false, x.acc & 4); a.add_state(false, x.acc & 8);
    for (auto& e : x.e) { if constexpr (Wt::is_weight) { auto an = std::make_pair(internal::trace_t(), (uint32_t)e.w); if (e.l == 2) a.add_epsilon_edge(e.f, e.t, an); else a.add_edge(e.f, e.t, e.l, an); } else { if (e.l == 2) a.add_epsilon_edge(e.f, e.t); else a.add_edge(e.f, e.t, e.l); } }
    return a;
}
template<typename Wt> void union_edges(const WA& x0, const WA& y0) {
    mc::run_case([&] { return std::string(Wt::is_weight ? "weighted " : "") + "union of " + show(x0) + " and " + show(y0); }, [&] {
        WA x = closed(x0), y = closed(y0); Pda<Wt> pda(2, "ab");
        auto judge = [&](const auto& a, const std::function<long(int, const std::string&)>& want, const char* what) {
            mc::count("impl_runs"); bool acc = false; for (auto& s : a.states()) acc |= s->_accepting; if (a.has_accepting_state() != acc) mc::fail(std::string(what) + ": has_accepting_state differs from the accepting flags");
            long best = NOW;
            for (int p = 0; p < 2; ++p) for (auto& w : words()) { if (w.size() > 3 || w.find('c') != std::string::npos) continue; long m = want(p, w); best = std::min(best, m); mc::count("states"); if (m < NOW) mc::count("nontrivial"); auto st = enc(w, "ab");
                auto who = [&] { return std::string(what) + ": <" + std::to_string(p) + "," + w + ">: "; };
                if (a.accepts(p, st) != (m < NOW)) mc::fail(who() + (m < NOW ? "rejected" : "accepted"));
                if constexpr (Wt::is_weight) { auto [path, wt] = a.template accept_path<Trace_Type::Shortest>(p, st); if (path.empty() != (m >= NOW)) mc::fail(who() + "shortest accepting path wrongly " + (path.empty() ? "missing" : "found")); if (m < NOW && wt != m) mc::fail(who() + "weight " + std::to_string(wt) + " instead of " + std::to_string(m)); if (m < NOW && !w.empty() && !path_ok(a, path, p, st)) mc::fail(who() + "the shortest accepting path is not one"); } }
            if constexpr (Wt::is_weight) { auto [fp, wt] = a.template find_path_shortest<false>(); if (fp.is_null() != (best >= NOW) || (best < NOW && wt != best)) mc::fail(std::string(what) + ": find_path_shortest finds weight " + std::to_string(wt) + " instead of " + std::to_string(best)); }
            else if (a.find_path().is_null() != (best >= NOW)) mc::fail(std::string(what) + ": find_path finds a path although the set is empty, or none although it is not");
        };
        auto dx = [&](int p, const std::string& w) { return dist(x, p, w); }; auto dxy = [&](int p, const std::string& w) { return std::min(dist(x, p, w), dist(y, p, w)); };
        auto a = build<Wt>(pda, x); aut_of<Wt> c(a); judge(c, dx, "copy"); a.or_extend(build<Wt>(pda, y)); judge(a, dxy, "union"); judge(c, dx, "copy after the union"); aut_of<Wt> d(a); judge(d, dxy, "copy of the union"); c.or_extend(std::move(d)); judge(c, dxy, "copy joined with the union");
    });
}
static void union_edges_all() {
    std::vector<WE> all; for (int f = 0; f < 4; ++f) for (int t = 2; t < 4; ++t) for (int l = 0; l < (f < 2 ? 3 : 2); ++l) all.push_back({f, l, t, (long)(all.size() * 7 % 4)});
    std::vector<WA> one, two; for (int acc : {8, 6, 13}) { one.push_back({{}, acc}); for (size_t i = 0; i < all.size(); ++i) { one.push_back({{all[i]}, acc}); for (size_t j = i + 1; j < all.size(); ++j) if (mc::thorough() || (i + j + acc) % 2 == 0) two.push_back({{all[i], all[j]}, acc}); } }
    for (auto& x : one) for (auto& y : one) { union_edges<UInt>(x, y); union_edges<Void>(x, y); }
    for (size_t i = 0; i < one.size(); ++i) for (size_t j = 0; j < two.size(); ++j) if (mc::thorough() || (i + j) % 2) { if (j & 2) { union_edges<UInt>(one[i], two[j]); union_edges<Void>(two[j], one[i]); } else { union_edges<UInt>(two[j], one[i]); union_edges<Void>(one[i], two[j]); } }
    if (mc::thorough()) for (size_t i = 0; i < two.size(); ++i) for (size_t j = 0; j < two.size(); ++j) union_edges<UInt>(two[i], two[j]);
}
// ---- large automata: many labels, control states, letters, unions
template<typename Wt> struct IntPda : PDA<int, Wt> { IntPda(int n, int labels) { for (int i = 0; i < labels; ++i) this->insert_label(i); for (int i = 0; i < n; ++i) this->insert_state(i); } };
template<typename A, typename In> void ask(const A& a, size_t p, const rx::Word& w, const In& in, const std::string& what) {
    std::vector<uint32_t> st(w.begin(), w.end()); bool want = in(p, w); mc::count("states"); auto who = [&] { return what + ": configuration <" + std::to_string(p) + "," + rx::show(w) + "> "; };
    if (a.accepts(p, st) != want) mc::fail(who() + (want ? "rejected" : "accepted"));
    auto path = a.template accept_path<Trace_Type::Any>(p, st); if (path.empty() == want) mc::fail(who() + "accept_path disagrees"); if (want && !path_ok(a, path, p, st)) mc::fail(who() + "the reported accepting path is not one");
    if constexpr (A::weight::is_weight) { auto [sp, wt] = a.template accept_path<Trace_Type::Shortest>(p, st); if (sp.empty() == want) mc::fail(who() + "shortest accept_path disagrees"); if (want && (!path_ok(a, sp, p, st) || wt != A::weight::zero())) mc::fail(who() + "the reported shortest accepting path is not one"); }
}
template<typename A, typename In> void found(const A& a, size_t n, bool any, const In& in, const std::string& what) {
    auto judge = [&](const auto& fp, const char* nm) { if (fp.is_null()) { if (any) mc::fail(what + ": " + nm + " finds no path although the set is not empty"); return; }
        auto [states, st] = fp.get_path_and_stack(); std::vector<size_t> ps(states.begin(), states.end()); if (ps.empty() || ps[0] >= n || !path_ok(a, ps, ps[0], st)) mc::fail(what + ": " + nm + " returned something that is not an accepting path"); if (!in(ps[0], rx::Word(st.begin(), st.end()))) mc::fail(what + ": " + nm + " returned a configuration outside the set"); };
    judge(a.find_path(), "find_path"); if constexpr (A::weight::is_weight) { auto [fp, wt] = a.template find_path_shortest<false>(); judge(fp, "find_path_shortest"); }
}
template<typename Wt> void biglang(const rx::Case& c, int n, std::vector<size_t> sts) {
    if (c.n > 30 && c.name.find("optional") != std::string::npos) return; // quadratically many edges
    if (c.amb && c.n > 9) return; // accepts() tries all paths one by one
    mc::run_case([&] { std::string r; for (auto s : sts) r += " " + std::to_string(s); return "control states" + r + " of " + std::to_string(n) + " with stacks " + c.name + (Wt::is_weight ? ", uint weights" : ""); }, [&] {
        IntPda<Wt> pda(n, c.A); std::vector<rx::Word> ws; for (auto& w : rx::words(c.e, c.A, 300)) if (w.size() <= (c.amb ? 6 : 100)) ws.push_back(w); if (ws.size() > 400) { std::vector<rx::Word> t; for (size_t i = 0; i < ws.size(); i += 1 + ws.size() / 400) t.push_back(ws[i]); ws = t; }
        if (c.amb) { std::vector<rx::Word> v{{}}; for (size_t i = 0; i < v.size() && v.size() < 400; ++i) for (int l = 0; l < std::min(c.A, 5); ++l) { auto x = v[i]; x.push_back(l); v.push_back(x); } ws.insert(ws.end(), v.begin(), v.end()); }
        std::map<rx::Word, bool> memo; bool any = false; auto in = [&](size_t p, const rx::Word& w) { if (!std::binary_search(sts.begin(), sts.end(), p)) return false; auto it = memo.find(w); if (it == memo.end()) it = memo.emplace(w, rx::match(c.e, w)).first; return it->second; };
        std::vector<size_t> probe = sts; if (sts.size() > 4) probe = {sts[0], sts[sts.size() / 2], sts.back()}; for (size_t q : {0, n / 2, n - 1}) if (std::find(probe.begin(), probe.end(), q) == probe.end()) probe.push_back(q);
        auto run = [&](const auto& a, const char* what) { mc::count("impl_runs"); for (auto p : probe) for (auto& w : ws) { ask(a, p, w, in, what); any = any || (p < (size_t)n && in(p, w)); } found(a, n, any, in, what); };
        auto nfa = rx::build<int>(c.e.get(), [](int i) { return i; }); nfa.compile(); PAutomaton<int, Wt, size_t, true, TraceInfoType::Single> a(pda, nfa, sts); run(a, "from an NFA over labels");
        auto nfa2 = rx::build<uint32_t>(c.e.get(), [](int i) { return (uint32_t)i; }); nfa2.compile(); internal::PAutomaton<Wt> b(static_cast<const internal::PDA<Wt>&>(pda), nfa2, sts); run(b, "from an NFA over label ids");
        auto copy = a; run(copy, "copy"); mc::count("nontrivial");
    });
}
// the union of k configurations / languages, added one by one; judged at the end and half way
template<typename Wt> void bigunion(int k, int n, int L, int kind) {
    mc::run_case([&] { return "union of " + std::to_string(k) + (kind == 0 ? " configurations" : kind == 1 ? " configurations and languages in turn" : " languages") + " over " + std::to_string(n) + " states and " + std::to_string(L) + " labels" + (Wt::is_weight ? ", uint weights" : ""); }, [&] {
        using A = PAutomaton<int, Wt, size_t, true, TraceInfoType::Single>; IntPda<Wt> pda(n, L); struct It { int kind; size_t p; rx::Word w; rx::P e; }; std::vector<It> v;
        for (int i = 0; i < k; ++i) { It t; t.kind = kind == 2 || (kind == 1 && i % 2); t.p = i * 7 % n; if (!t.kind) { for (int j = 0; j < (i % 6 == 5 ? i : i % 4); ++j) t.w.push_back((i + j * j) % L); } else t.e = i % 3 == 0 ? rx::sym(i % L) + rx::opt(rx::sym((i + 1) % L)) : i % 3 == 1 ? rx::plus(rx::set({i % L, (i + 2) % L})) : rx::set({i % L}, true) + rx::sym(0); v.push_back(t); }
        auto make = [&](const It& t) { if (!t.kind) return A(pda, t.p, t.w); auto nfa = rx::build<int>(t.e.get(), [](int i) { return i; }); nfa.compile(); return A(pda, nfa, std::vector<size_t>{t.p}); };
        A a = make(v[0]); size_t cnt = 1; auto in = [&](size_t p, const rx::Word& w) { for (size_t i = 0; i < cnt; ++i) if (v[i].p == p && (v[i].kind ? rx::match(v[i].e, w) : v[i].w == w)) return true; return false; };
        std::set<rx::Word> ws{{}}; for (int l = 0; l < L; l += L > 20 ? L / 10 : 1) { ws.insert({l}); ws.insert({l, 0}); ws.insert({l, (l + 1) % L}); } for (auto& t : v) if (!t.kind) { ws.insert(t.w); if (!t.w.empty()) { auto x = t.w; x.pop_back(); ws.insert(x); x = t.w; x.back() = (x.back() + 1) % L; ws.insert(x); x = t.w; x.push_back(0); ws.insert(x); } }
        auto judge = [&](const A& x, const char* what) { mc::count("impl_runs"); for (int p = 0; p < n; p += n > 12 ? n / 8 : 1) for (auto& w : ws) ask(x, p, w, in, what); for (size_t i = 0; i < v.size(); ++i) if (!v[i].kind) ask(x, v[i].p, v[i].w, in, what); found(x, n, true, in, what); };
        for (int i = 1; i < k; ++i) { a.or_extend(make(v[i])); cnt = i + 1; if (i == k / 2) judge(a, "half way"); }
        judge(a, "at the end"); auto c = a; judge(c, "copy"); mc::count("nontrivial");
    });
}
// ---- very long stacks
template<typename Wt> void deep(int len, int L, int n, int kind) {
    mc::run_case([&] { return std::string(kind ? "an NFA for one stack of length " : "one configuration with a stack of length ") + std::to_string(len) + " over " + std::to_string(L) + " labels, " + std::to_string(n) + " states" + (Wt::is_weight ? ", uint weights" : ""); }, [&] {
        using A = PAutomaton<int, Wt, size_t, true, TraceInfoType::Single>; IntPda<Wt> pda(n, L); rx::Word w; for (int i = 0; i < len; ++i) w.push_back(((i % 1000) * (i % 1000) + i / 3) % L); size_t p = n - 1;
        auto make = [&] { if (!kind) return A(pda, p, w); auto e = rx::sym(w[0]); for (int i = 1; i < len; ++i) e = e + rx::sym(w[i]); auto nfa = rx::build<int>(e.get(), [](int i) { return i; }); nfa.compile(); return A(pda, nfa, std::vector<size_t>{p}); };
        A a = make(); auto in = [&](size_t q, const rx::Word& x) { return q == p && x == w; };
        auto judge = [&](const A& x, const char* what) { mc::count("impl_runs"); std::vector<rx::Word> ws{w}; auto y = w; y.pop_back(); ws.push_back(y); y = w; y.push_back(w[0]); ws.push_back(y); if (L > 1) for (int i : {0, len / 2, len - 1}) { y = w; y[i] = (y[i] + 1) % L; ws.push_back(y); }
            for (auto& v : ws) { std::vector<uint32_t> st(v.begin(), v.end()); for (size_t q : {p, (size_t)0}) { bool want = in(q, v); mc::count("states"); auto bad = [&](const char* m) { mc::fail(std::string(what) + ": stack of length " + std::to_string(v.size()) + ": " + m); }; if (x.accepts(q, st) != want) bad("acceptance is wrong"); auto path = x.template accept_path<Trace_Type::Any>(q, st); if (path.empty() == want || (want && !path_ok(x, path, q, st))) bad("accept_path is wrong");
                if constexpr (Wt::is_weight) { auto [sp, wt] = x.template accept_path<Trace_Type::Shortest>(q, st); if (sp.empty() == want || (want && (!path_ok(x, sp, q, st) || wt != 0))) bad("the shortest accept_path is wrong"); } if (n == 1) break; } }
            auto look = [&](const auto& fp, const char* nm) { if (fp.is_null()) mc::fail(std::string(what) + ": " + nm + " finds no path"); auto [states, st] = fp.get_path_and_stack(); std::vector<size_t> ps(states.begin(), states.end()); if (ps.empty() || !in(ps[0], rx::Word(st.begin(), st.end())) || !path_ok(x, ps, p, st)) mc::fail(std::string(what) + ": " + nm + " is wrong"); };
            look(x.find_path(), "find_path"); if constexpr (Wt::is_weight) { auto [fp, wt] = x.template find_path_shortest<false>(); look(fp, "find_path_shortest"); if (wt != 0) mc::fail("wrong weight"); } };
        judge(a, "built"); auto c = a; judge(c, "copy"); if (len > 1) { A u = make(); u.or_extend(make()); judge(u, "joined with itself"); } mc::count("nontrivial");
        if constexpr (Wt::is_weight) { // every edge has a weight: the least weight of the only path is the sum
            A b(pda, std::vector<size_t>{}, true); uint64_t sum = 0; size_t cur = p; for (int i = 0; i < len; ++i) { size_t t = b.add_state(false, i == len - 1); b.add_edge(cur, t, w[i], std::make_pair(internal::trace_t(), (uint32_t)(i % 3))); sum += i % 3; cur = t; }
            std::vector<uint32_t> st(w.begin(), w.end()); auto [sp, wt] = b.template accept_path<Trace_Type::Shortest>(p, st); if (!path_ok(b, sp, p, st) || wt != sum) mc::fail("weight of the only accepting path is wrong"); auto [fp, fw] = b.template find_path_shortest<false>(); if (fp.is_null() || fw != sum) mc::fail("find_path_shortest: weight is wrong"); }
    });
}
// ---- names of automaton states: control states first, then extra states as they are named
template<typename S> S sname(int i); template<> std::string sname<std::string>(int i) { static const char* f[] = {"p", "", "q0", "aa", "a", "zz", "0", "b"}; return i < 8 ? f[i] : "s" + std::to_string(i * 7919 % 100003); } template<> size_t sname<size_t>(int i) { static const size_t f[] = {5, 0, 7, 300, 1, 70000, 2, 255}; return i < 8 ? f[i] : (size_t)i * 7919 % 100003 + 100000; }
template<typename S, typename Wt> void named(int np, int nx, int rot, int mask) { // np control states and nx extra states out of the names; bit i of mask: is the i-th extra state asked for before it is named
    mc::run_case([&] { return std::to_string(np) + " named control states, " + std::to_string(nx) + " named extra states, rotation " + std::to_string(rot) + ", mask " + std::to_string(mask) + (std::is_same_v<S, size_t> ? ", numbers" : ", strings"); }, [&] {
        using P = PDA<char, Wt, fut::type::vector, S, false>; int all = np + nx + 2; auto nm = [&](int i) { return sname<S>((i + rot) % all); }; P pda; pda.insert_label('a');
        for (int r = 0; r < 2; ++r) for (int i = 0; i < np; ++i) { size_t id = pda.insert_state(nm(i)); mc::require(id == (size_t)i, "wrong number of a control state"); }
        mc::require(pda.states().size() == (size_t)np, "number of control states"); PAutomaton<char, Wt, S, false, TraceInfoType::Single> a(pda, std::vector<size_t>{}, true);
        auto check = [&](int known) { mc::count("states"); for (int i = 0; i < all; ++i) { auto [e, id] = a.exists_state(nm(i)); if (e != (i < known)) mc::fail("state name " + std::to_string(i) + (e ? " is known" : " is unknown") + " with " + std::to_string(known) + " names"); if (e && id != (size_t)i) mc::fail("name " + std::to_string(i) + " is state " + std::to_string(id)); }
            for (int i = 0; i < all; ++i) { auto s = a.get_state_optional(i); if (s.has_value() != (i < known)) mc::fail("state " + std::to_string(i) + " wrongly has " + (s ? "a" : "no") + " name"); if (s && *s != nm(i)) mc::fail("wrong name of state " + std::to_string(i)); } };
        mc::count("impl_runs"); check(np);
        for (int i = 0; i < nx; ++i) { size_t id = a.add_state(false, i % 2); mc::require(id == (size_t)(np + i), "wrong number of an extra state"); if (i < 20 && (mask >> i & 1)) mc::require(!a.exists_state(nm(np + i)).first, "an extra state is known before it is named"); mc::require(a.insert_state(nm(np + i)) == id, "wrong number of a named extra state"); if (nx < 12 || i % 16 == 15) check(np + i + 1); }
        check(np + nx); if (nx) mc::count("nontrivial");
        // names survive the move to another system
        P other; other.insert_label('a'); for (int i = 0; i < np; ++i) other.insert_state(nm(i)); PAutomaton<char, Wt, S, false, TraceInfoType::Single> b(std::move(a), other);
        for (int i = 0; i < all; ++i) { auto [e, id] = b.exists_state(nm(i)); if (e != (i < np + nx) || (e && id != (size_t)i)) mc::fail("after a move name " + std::to_string(i) + " is wrong"); }
    });
}
int main(int argc, char** argv) {
    mc::Check c; c.property = "C06";
    c.rule = "every construction of the families; acceptance and accepting path of every configuration with a stack of length <=4 compared with the set it was built from; non-trivial = non-empty set";
    c.assumptions = {"control states given to a constructor are sorted, as the parsers give them", "automata joined by or_extend have no edges into control states (all constructors guarantee that)"};
    std::vector<Atom> full = {{"[a]", "a", false, 0}, {"[b]", "b", false, 0}, {"[a,b]", "ab", false, 0}, {"[^a]", "a", true, 0}, {"[^a,b]", "ab", true, 0}, {".", "", true, 0}, {"eps", "", false, 1}, {"none", "", false, 2}, {"[]", "", false, 0}};
    std::vector<Atom> mid = {{"[a]", "a", false, 0}, {"[^a]", "a", true, 0}, {"eps", "", false, 1}}, small = {{"[a]", "a", false, 0}, {"[b]", "b", false, 0}};
    c.bounds_quick = "1-3 states; single stacks <=4; 9 atoms with <=2 operators x control-state subsets x 4 label orders; unions of 2 and 3; complemented edges over <=4 labels; unions and copies of automata given by <=2 edges each, with weights and epsilon edges; weighted automata with <=3 edges; stack languages of up to 66 operators, labels or letters over up to 257 control states; unions of up to 70 sets over up to 40 states and 90 labels; stacks of length 62-66, 126-130, 254-258, 1000, 65534-65538; named states: <=3 control and <=4 extra states in every rotation, up to 260 of each";
    c.bounds_thorough = "additionally 3 atoms with 3 operators, larger union pools, weighted automata with <=4 edges";
    c.suites = {
        {"single", [] { for (int n = 1; n <= 3; ++n) for (std::string l : {"", "a", "ab", "ba", "abc", "cab"}) for (auto& w : words()) if (w.find_first_not_of(l) == std::string::npos) for (int p = 0; p < n; ++p) { single<Void>(n, l, p, w); if (w.size() < 3) single<UInt>(n, l, p, w); } }},
        {"lang", [=] { Space s(full, 2); for (size_t i = 0; i < s.t.size(); ++i) for (auto& o : ORD3) for (int m = 0; m < 4; ++m) if (s.t[i].size < 2 || mc::thorough() || (m >= 2 && (o == "cba" || o == "ba"))) lang<Void>(s, i, 2, m, o); }},
        {"langw", [=] { Space s(full, 1); for (size_t i = 0; i < s.t.size(); ++i) for (auto& o : ORD3) for (int m = 0; m < 8; ++m) lang<UInt>(s, i, 3, m, o); }},
        {"lang3", [=] { Space s(mc::thorough() ? mid : small, 3); for (size_t i = s.from[3]; i < s.t.size(); ++i) for (auto& o : {"abc", "ba"}) lang<Void>(s, i, 2, 2, o); }},
        {"union2", [=] { for (auto o : {"ab", "ba"}) { Pool P(mid, 1, 2, o); int k = P.v.size(); for (int i = 0; i < k; ++i) for (int j = 0; j < k; ++j) unions<Void>(P, {i, j}); } }},
        {"union_edges", union_edges_all},
        {"union3", [=] { Pool P(small, mc::thorough() ? 1 : 0, 1, "ab"); int k = P.v.size(); for (int i = 0; i < k; ++i) for (int j = 0; j < k; ++j) for (int l = 0; l < k; ++l) unions<UInt>(P, {i, j, l}); }},
        {"copies", [=] { Pool P(mid, 1, 2, "ba"), Q(small, 0, 1, "ab"); for (size_t i = 0; i < P.v.size(); ++i) for (size_t j = 0; j < P.v.size(); j += mc::thorough() ? 1 : 7) copies<Void>(P, i, j); for (size_t i = 0; i < Q.v.size(); ++i) for (size_t j = 0; j < Q.v.size(); ++j) copies<UInt>(Q, i, j); }},
        {"biglang", [] { rx::families(mc::thorough() ? std::vector<int>{1, 2, 3, 5, 8, 9, 16, 17, 18, 33, 40, 65, 129, 257} : std::vector<int>{3, 9, 17, 33, 66}, [](const rx::Case& c) { biglang<Void>(c, 3, {0, 2}); biglang<UInt>(c, 1, {0}); }); rx::families({6}, [](const rx::Case& c) { for (int n : {31, 64, 257}) { biglang<Void>(c, n, {(size_t)n / 2}); std::vector<size_t> odd; for (int i = 1; i < n; i += 2) odd.push_back(i); biglang<UInt>(c, n, odd); } }); }},
        {"bigunion", [] { for (int kind = 0; kind < 3; ++kind) for (int k : {2, 5, 9, 17, 33, 70}) for (int n : {1, 3, 40}) for (int L : {1, 3, 90}) { bigunion<Void>(k, n, L, kind); if (k < 40) bigunion<UInt>(k, n, L, kind); } }},
        {"deep", [] { std::vector<int> ls; for (int b : {64, 128, 256, 65536}) for (int d = -2; d <= 2; ++d) ls.push_back(b + d); ls.push_back(1000); if (mc::thorough()) { ls.push_back(200000); ls.push_back(1 << 20); } for (int len : ls) for (int L : {1, 3}) for (int kind = 0; kind < (len > 2000 ? 1 : 2); ++kind) { deep<Void>(len, L, 2, kind); if (len < 2000) deep<UInt>(len, L, 1, kind); } }}, // the weighted searches copy whole paths: quadratic
        {"named", [] { for (int np = 0; np <= 3; ++np) for (int nx = 0; nx <= 4; ++nx) for (int rot = 0; rot < np + nx + 2; ++rot) for (int m = 0; m < (1 << nx); ++m) { named<std::string, Void>(np, nx, rot, m); named<size_t, Void>(np, nx, rot, m); } for (int k : {17, 40, 100, 260}) for (int q : {0, 1, 17, 260}) { named<std::string, UInt>(k, q, k / 3, 5); named<size_t, UInt>(k, q, k / 3, 5); } }},
        {"negated", [] {
            for (int L = 0; L <= 4; ++L) for (int neg = 0; neg < 2; ++neg) for (int m = 0; m < (1 << L); ++m) for (int fm = 0; fm < 16; ++fm) mc::run_case([&] { return std::string("add_edges ") + (neg ? "complemented " : "") + "label mask " + std::to_string(m) + " of " + std::to_string(L) + " from states " + std::to_string(fm >> 1) + (fm & 1 ? ", many sources" : ", one by one"); }, [&] {
                Pda<Void> pda(3, std::string("abcd").substr(0, L)); aut_of<Void> a(pda, std::vector<size_t>{}, true); size_t t = a.add_state(false, true);
                std::vector<uint32_t> ls; for (int l = 0; l < L; ++l) if (m >> l & 1) ls.push_back(l);
                if (fm & 1) a.add_edges(subset(3, fm >> 1), t, neg, ls); else for (auto p : subset(3, fm >> 1)) a.add_edges(p, t, neg, ls);
                mc::count("impl_runs");
                for (int p = 0; p < 3; ++p) { size_t cnt = 0; for (const auto& [to, labels] : a.states()[p]->_edges) for (const auto& [l, tr] : labels) { ++cnt; mc::require(to == t && l < (uint32_t)L, "edge to nowhere"); }
                    size_t want = 0; for (int l = 0; l < L; ++l) { bool in = (fm >> 1 >> p & 1) && ((m >> l & 1) != neg); want += in; mc::count("states"); mc::require_f(a.accepts(p, {(uint32_t)l}) == in, [&] { return "state " + std::to_string(p) + " label " + std::to_string(l) + (in ? " missing" : " present"); }); if (in) mc::count("nontrivial"); }
                    mc::require(cnt == want, "number of edges"); }
            });
        }},
        {"weighted", [] {
            struct E { int f, l, t; }; std::vector<E> all; for (int f = 0; f < 4; ++f) for (int l = 0; l < 2; ++l) for (int t = 2; t < 4; ++t) all.push_back({f, l, t});
            std::vector<int> pick; std::vector<long> ws{0, 1, 3};
            std::function<void(size_t)> rec = [&](size_t from) {
                if (!pick.empty()) { size_t k = pick.size(); std::vector<size_t> c(k, 0); for (;;) {
                    for (int acc = 1; acc < 8; ++acc) mc::run_case([&] { std::string r = "accepting mask " + std::to_string(acc) + " (bits: state 2, 3, 1) edges"; for (size_t i = 0; i < k; ++i) r += " " + std::to_string(all[pick[i]].f) + "-" + "ab"[all[pick[i]].l] + "(" + std::to_string(ws[c[i]]) + ")->" + std::to_string(all[pick[i]].t); return r; }, [&] {
                        Pda<UInt> pda(2, "ab"); aut_of<UInt> a(pda, std::vector<size_t>(acc & 4 ? std::vector<size_t>{1} : std::vector<size_t>{}), true); a.add_state(false, acc & 1); a.add_state(false, acc & 2);
                        using TI = internal::trace_t; bool accs[4] = {false, (acc & 4) != 0, (acc & 1) != 0, (acc & 2) != 0};
                        for (size_t i = 0; i < k; ++i) a.add_edge(all[pick[i]].f, all[pick[i]].t, all[pick[i]].l, std::make_pair(TI(), (uint32_t)ws[c[i]]));
                        mc::count("impl_runs");
                        const long NO = 1 << 20; long best = NO;
                        for (int p = 0; p < 2; ++p) for (auto& w : words()) { if (w.find('c') != std::string::npos) continue;
                            std::array<long, 4> d{NO, NO, NO, NO}; d[p] = 0; for (char ch : w) { std::array<long, 4> n{NO, NO, NO, NO}; for (size_t i = 0; i < k; ++i) if (all[pick[i]].l == ch - 'a') n[all[pick[i]].t] = std::min(n[all[pick[i]].t], d[all[pick[i]].f] + ws[c[i]]); d = n; }
                            long m = NO; for (int q = 0; q < 4; ++q) if (accs[q]) m = std::min(m, d[q]); best = std::min(best, m); mc::count("states"); if (m < NO) mc::count("nontrivial");
                            auto st = enc(w, "ab"); auto [path, wt] = a.template accept_path<Trace_Type::Shortest>(p, st);
                            auto who = [&] { return "<" + std::to_string(p) + "," + w + ">: "; };
                            if (path.empty() != (m >= NO)) mc::fail(who() + "shortest accepting path wrongly " + (path.empty() ? "missing" : "found"));
                            if (m < NO) { if (!path_ok(a, path, p, st)) mc::fail(who() + "the shortest accepting path is not an accepting path"); if (wt != m) mc::fail(who() + "weight " + std::to_string(wt) + " instead of " + std::to_string(m)); }
                            if (a.accepts(p, st) != (m < NO)) mc::fail(who() + "accepts is wrong");
                        }
                        auto [fp, wt] = a.template find_path_shortest<false>();
                        if (fp.is_null() != (best >= NO)) mc::fail("find_path_shortest wrongly finds a path or none");
                        if (best < NO) { auto [ss, st] = fp.get_path_and_stack(); std::vector<size_t> ps(ss.begin(), ss.end()); if (!path_ok(a, ps, ps[0], st)) mc::fail("find_path_shortest: not an accepting path"); if (wt != best) mc::fail("find_path_shortest: weight " + std::to_string(wt) + " instead of " + std::to_string(best)); }
                    });
                    size_t i = 0; while (i < k && ++c[i] == ws.size()) c[i++] = 0; if (i == k) break; } }
                if (pick.size() == (mc::thorough() ? 4u : 3u)) return;
                for (size_t i = from; i < all.size(); ++i) { pick.push_back(i); rec(i + 1); pick.pop_back(); }
            };
            rec(0);
        }},
    };
    return mc::main_(argc, argv, c);
}
