// C07: automata built with the regular-expression operations accept exactly the language of the expression.
#include "mc.h"
#include "regex.h"
#include "rx.h"
template<typename T> void language(const NFA<T>& n, const Lang& want, const std::function<T(char)>& sym, const char* what, bool queries, NFA<T>* mut) {
    using S = typename NFA<T>::state_t;
    mc::require_f(n.empty_accept() == want[0], [&] { return std::string(what) + ": empty word " + (want[0] ? "rejected" : "accepted"); });
    struct E { std::vector<const S*> st; int w; }; std::vector<E> q; q.push_back({std::vector<const S*>(n.initial().begin(), n.initial().end()), 0});
    for (size_t i = 0; i < q.size(); ++i) {
        auto cur = q[i]; mc::count("states");
        bool acc = std::any_of(cur.st.begin(), cur.st.end(), [](const S* s) { return s->_accepting; });
        mc::require_f(acc == want[cur.w], [&] { return std::string(what) + ": word '" + W().w[cur.w] + "' " + (acc ? "accepted" : "rejected"); });
        if ((int)W().w[cur.w].size() == LEN) continue;
        for (int s = 0; s < SY; ++s) {
            mc::count("transitions");
            auto nx = NFA<T>::successor(cur.st, sym(SYM[s]));
            mc::require(std::is_sorted(nx.begin(), nx.end()) && std::adjacent_find(nx.begin(), nx.end()) == nx.end(), "successor list not sorted or with duplicates");
            if (nx.empty()) { // nothing below is accepted
                std::string p = W().w[cur.w] + SYM[s]; for (int k = 0; k < NW; ++k) if (want[k] && W().w[k].compare(0, p.size(), p) == 0) mc::fail(std::string(what) + ": word '" + W().w[k] + "' rejected");
                continue;
            }
            q.push_back({nx, W().id.at(W().w[cur.w] + SYM[s])});
        }
    }
    if (!queries || !mut) return;
    // label queries agree with successor, for every pair of states and every subset of the labels
    std::vector<const S*> all; for (auto& s : mut->states()) all.push_back(s.get());
    std::vector<std::vector<const S*>> froms; for (auto* s : all) froms.push_back({s}); froms.push_back(std::vector<const S*>(n.initial().begin(), n.initial().end()));
    for (auto& f : froms) {
        std::vector<std::vector<const S*>> succ; for (int s = 0; s < SY; ++s) succ.push_back(NFA<T>::successor(f, sym(SYM[s])));
        for (auto* g : all) {
            if (!(g->_accepting || g->has_non_epsilon())) continue; // such states are dropped from successor lists
            for (int s = 0; s < SY; ++s) { bool in = std::find(succ[s].begin(), succ[s].end(), g) != succ[s].end(); mc::require(NFA<T>::has_as_successor(f, sym(SYM[s]), g) == in, "has_as_successor disagrees with successor"); if (f.size() == 1) mc::require(NFA<T>::has_as_successor(f[0], sym(SYM[s]), g) == in, "has_as_successor (one state) disagrees with successor"); }
            for (int m = 0; m < 8; ++m) {
                std::vector<T> labels, exp; for (int s = 0; s < SY; ++s) if (m >> s & 1) { labels.push_back(sym(SYM[s])); if (std::find(succ[s].begin(), succ[s].end(), g) != succ[s].end()) exp.push_back(sym(SYM[s])); }
                std::sort(labels.begin(), labels.end()); std::sort(exp.begin(), exp.end()); auto got = NFA<T>::intersect_edge_labels(f, g, labels);
                mc::require(got == exp, "intersect_edge_labels disagrees with successor");
                if (f.size() == 1) mc::require(NFA<T>::intersect_edge_labels(f[0], g, labels) == exp, "intersect_edge_labels (one state) disagrees with successor");
                mc::count("label_queries");
            }
        }
    }
}
// prelabels: the labels of every edge from whose target the state can be reached
template<typename T> void prelabels(const std::vector<const typename NFA<T>::state_t*>& all, const std::vector<T>& u, const char* what) {
    using S = typename NFA<T>::state_t; std::map<const S*, std::vector<T>> on; auto edges_into = [&](const S* g) { std::set<const S*> reach{g}; bool ch = true; while (ch) { ch = false; for (auto* s : all) if (!reach.count(s)) for (auto& e : s->_edges) if (reach.count(e._destination)) { reach.insert(s); ch = true; break; } } return reach; };
    for (auto* g : all) { auto reach = edges_into(g); std::set<T> m; for (auto* s : all) for (auto& e : s->_edges) if (reach.count(e._destination)) for (auto& l : u) if (e.contains(l)) m.insert(l);
        mc::count("label_queries"); mc::require_f(g->prelabels(std::unordered_set<T>(u.begin(), u.end())) == std::vector<T>(m.begin(), m.end()), [&] { return std::string(what) + ": prelabels is not the set of labels on the way to the state"; }); }
}
template<typename T> void prelabels(const NFA<T>& n, const std::function<T(char)>& sym, const char* what) { std::vector<const typename NFA<T>::state_t*> all; for (auto& s : const_cast<NFA<T>&>(n).states()) all.push_back(s.get()); std::vector<T> u; for (int i = 0; i < SY; ++i) u.push_back(sym(SYM[i])); std::sort(u.begin(), u.end()); prelabels<T>(all, u, what); }
// the operations also work on an automaton that was already compiled
template<typename T> void after_compile(const NFA<T>& n, const Lang& l, const std::function<T(char)>& sym) {
    Lang e; e[0] = 1; Lang b; b[W().id.at("b")] = 1; auto atom = [&] { return NFA<T>(std::unordered_set<T>{sym('b')}); };
    for (int k = 0; k < 7; ++k) { NFA<T> c(n); Lang w; const char* what = "";
        switch (k) { case 0: c.question_extend(); w = l | e; what = "compiled, then ?"; break; case 1: c.plus_extend(); w = plus(l); what = "compiled, then +"; break; case 2: c.star_extend(); w = plus(l) | e; what = "compiled, then *"; break;
            case 3: c.concat(atom()); w = cat(l, b); what = "compiled, then a label"; break; case 4: c.or_extend(atom()); w = l | b; what = "compiled, then |"; break; case 5: { auto x = atom(); x.compile(); x.concat(std::move(c)); c = std::move(x); w = cat(b, l); what = "a label, then the compiled automaton"; break; } default: { NFA<T> d(n); c.concat(std::move(d)); w = cat(l, l); what = "compiled, twice in sequence"; } }
        c.compile(); language<T>(c, w, sym, what, false, nullptr); prelabels<T>(c, sym, what); }
}
template<typename T> void terms(const Space& s, const std::function<T(char)>& sym, int lo, bool variants, bool queries) {
    for (size_t i = lo; i < s.t.size(); ++i) mc::run_case([&] { return "expression " + s.str(i); }, [&] {
        for (int how = 0; how < (variants ? 4 : 1); ++how) {
            Build<T> b{s, sym, how}; auto n = b((int)i); n.compile(); mc::count("impl_runs");
            language<T>(n, s.lang[i], sym, how == 0 ? "built by moving" : how == 1 ? "built with copies" : how == 2 ? "built with assignment" : "built with move assignment", queries && how < 2, &n);
            if (variants && how == 0) {
                NFA<T> c(n); language<T>(c, s.lang[i], sym, "copy of the compiled automaton", queries, &c); c.compile(); language<T>(c, s.lang[i], sym, "copy compiled again", false, nullptr);
                NFA<T> d(std::unordered_set<T>{sym('a')}); d = c; { NFA<T> gone(std::move(c)); } language<T>(d, s.lang[i], sym, "assigned, original destroyed", queries, &d);
                auto& self = d; d = self; language<T>(d, s.lang[i], sym, "assigned to itself", false, nullptr);
                NFA<T> e(std::move(d)); language<T>(e, s.lang[i], sym, "moved", false, nullptr);
                prelabels<T>(n, sym, "built"); { auto p = std::make_unique<NFA<T>>(n); NFA<T> g(*p); p.reset(); prelabels<T>(g, sym, "copy, original destroyed"); NFA<T> h; { NFA<T> t(n); h = t; } prelabels<T>(h, sym, "assigned, original destroyed"); }
                after_compile<T>(n, s.lang[i], sym);
                // a copy continues to be usable, and independent of the original
                NFA<T> f(n); f.concat(NFA<T>(std::unordered_set<T>{sym('c')})); f.compile(); Lang l; l[W().id.at("c")] = 1; language<T>(f, cat(s.lang[i], l), sym, "copy extended", false, nullptr); language<T>(n, s.lang[i], sym, "original after extending the copy", false, nullptr);
            }
        }
        if (s.lang[i].count() > 1) mc::count("nontrivial");
    });
}
// edges with larger label sets: every subset of U labels, complemented or not, alone and in pairs; every label query against set arithmetic
template<typename T> struct Sets {
    std::vector<T> lab; T other; // lab: the universe, not in order; other: a label no set mentions
    using S = typename NFA<T>::state_t;
    NFA<T> atom(int m, bool neg) const { std::unordered_set<T> s; for (size_t i = 0; i < lab.size(); ++i) if (m >> i & 1) s.insert(lab[i]); return NFA<T>(std::move(s), neg); }
    int universe() const { return (1 << lab.size()) - 1; }
    std::vector<T> subset(int m, bool sorted = true) const { std::vector<T> r; for (size_t i = 0; i < lab.size(); ++i) if (m >> i & 1) r.push_back(lab[i]); if (sorted) std::sort(r.begin(), r.end()); return r; }
    // the words of length <=2 of n, as masks: len1[l], len2[l][k]
    void judge(NFA<T>& n, bool eps, int one, bool one_other, const std::function<bool(int, int)>& two) const {
        n.compile(); mc::count("impl_runs"); mc::require(n.empty_accept() == eps, "wrong answer for the empty word");
        std::vector<const S*> ini(n.initial().begin(), n.initial().end()); auto acc = [](const std::vector<const S*>& v) { return std::any_of(v.begin(), v.end(), [](auto* s) { return s->_accepting; }); };
        int K = lab.size(); auto L = [&](int i) { return i == K ? other : lab[i]; };
        for (int i = 0; i <= K; ++i) { auto a = NFA<T>::successor(ini, L(i)); bool want = i == K ? one_other : one >> i & 1; mc::count("transitions"); mc::require_f(acc(a) == want, [&] { return "label number " + std::to_string(i) + (want ? " is rejected" : " is accepted"); });
            for (int j = 0; j <= K; ++j) { bool w2 = two(i, j); mc::count("transitions"); mc::require_f(acc(NFA<T>::successor(a, L(j))) == w2, [&] { return "labels number " + std::to_string(i) + ", " + std::to_string(j) + (w2 ? " are rejected" : " are accepted"); }); } }
        std::vector<const S*> all; for (auto& s : n.states()) all.push_back(s.get());
        for (auto* g : all) { if (!(g->_accepting || g->has_non_epsilon())) continue;
            for (int k = -1; k < (int)all.size(); ++k) { auto from = k < 0 ? ini : std::vector<const S*>{all[k]}; int m = 0; for (int i = 0; i < K; ++i) { auto v = NFA<T>::successor(from, lab[i]); bool in = std::find(v.begin(), v.end(), g) != v.end(); m |= in << i; mc::require(NFA<T>::has_as_successor(from, lab[i], g) == in, "has_as_successor disagrees with successor"); }
                for (int q = 0; q <= universe(); ++q) { mc::count("label_queries"); mc::require(NFA<T>::intersect_edge_labels(from, g, subset(q)) == subset(q & m), "intersect_edge_labels disagrees with successor"); } } }
        // prelabels: the labels of every edge from whose target the state can be reached
        for (auto* g : all) { std::set<const S*> reach{g}; bool ch = true; while (ch) { ch = false; for (auto* s : all) if (!reach.count(s)) for (auto& e : s->_edges) if (reach.count(e._destination)) { reach.insert(s); ch = true; break; } }
            int m = 0; for (auto* s : all) for (auto& e : s->_edges) if (reach.count(e._destination)) for (int i = 0; i < K; ++i) if (e.contains(lab[i])) m |= 1 << i;
            auto u = subset(universe()); mc::require(g->prelabels(std::unordered_set<T>(u.begin(), u.end())) == subset(m), "prelabels is not the set of labels on the way to the state"); mc::count("label_queries"); }
    }
    void run(int pairs_bits) const {
        int K = lab.size(); auto in = [&](int m, bool neg, int i) { return (i < K && (m >> i & 1)) != neg; }; auto mask = [&](int m, bool neg) { return neg ? universe() & ~m : m; };
        for (int m = 0; m <= universe(); ++m) for (bool ng : {false, true}) mc::run_case([&] { return std::string("one edge with label set ") + (ng ? "^" : "") + std::to_string(m); }, [&] { auto n = atom(m, ng); judge(n, false, mask(m, ng), ng, [](int, int) { return false; });
            for (auto& s : n.states()) for (auto& e : s->_edges) { mc::require(e.empty(K) == (mask(m, ng) == 0), "edge_t::empty"); mc::require(e.wildcard(K) == (mask(m, ng) == universe()), "edge_t::wildcard"); }
            auto c = n; c.plus_extend(); judge(c, false, mask(m, ng), ng, [&](int i, int j) { return in(m, ng, i) && in(m, ng, j); }); mc::count("nontrivial"); });
        for (int m = 0; m < 1 << pairs_bits; ++m) for (bool ng : {false, true}) for (int k = 0; k < 1 << pairs_bits; ++k) for (bool nk : {false, true}) mc::run_case([&] { return std::string("two edges with label sets ") + (ng ? "^" : "") + std::to_string(m) + ", " + (nk ? "^" : "") + std::to_string(k); }, [&] { mc::count("nontrivial");
            { auto n = atom(m, ng); n.or_extend(atom(k, nk)); judge(n, false, mask(m, ng) | mask(k, nk), ng || nk, [](int, int) { return false; }); }
            { auto n = atom(m, ng); n.concat(atom(k, nk)); judge(n, false, 0, false, [&](int i, int j) { return in(m, ng, i) && in(k, nk, j); }); }
            { auto n = atom(m, ng); n.star_extend(); n.concat(atom(k, nk)); judge(n, false, mask(k, nk), nk, [&](int i, int j) { return in(m, ng, i) && in(k, nk, j); }); } });
    }
};
// expressions with dozens to hundreds of operators, labels and letters
template<typename T> void big(const rx::Case& c, const std::function<T(int)>& lab) {
    mc::run_case([&] { return "expression " + c.name; }, [&] {
        auto n = rx::build<T>(c.e.get(), lab); n.compile(); mc::count("impl_runs"); mc::count("nontrivial");
        std::vector<std::pair<rx::Word, bool>> q; for (auto& w : rx::words(c.e, c.A, 300)) q.push_back({w, rx::match(c.e, w)});
        auto judge = [&](const NFA<T>& m, const char* what) { mc::require(m.empty_accept() == rx::match(c.e, {}), "empty word"); for (auto& [w, want] : q) { mc::count("states"); mc::count("transitions", w.size()); mc::require_f(rx::accepts<T>(m, w, lab) == want, [&, &w = w, want = want] { return std::string(what) + ": word " + rx::show(w) + (want ? " rejected" : " accepted"); }); } };
        judge(n, "built");
        { NFA<T> d(n); judge(d, "copied"); NFA<T> e(std::unordered_set<T>{lab(0)}); e = d; { NFA<T> gone(std::move(d)); } judge(e, "assigned, original destroyed"); NFA<T> f(std::move(e)); f.compile(); judge(f, "moved and compiled again"); }
        if (n.states().size() < 60) { NFA<T> d; { NFA<T> t(n); d = t; } std::vector<const typename NFA<T>::state_t*> v; for (auto& s : d.states()) v.push_back(s.get()); std::vector<T> u; for (int i = 0; i < c.A; ++i) u.push_back(lab(i)); std::sort(u.begin(), u.end()); prelabels<T>(v, u, "copy, original destroyed"); }
        // label queries between the states of the compiled automaton
        using S = typename NFA<T>::state_t; std::vector<const S*> all; for (auto& s : n.states()) all.push_back(s.get());
        std::vector<T> u; for (int i = 0; i < c.A; ++i) u.push_back(lab(i)); std::sort(u.begin(), u.end()); std::vector<const S*> ini(n.initial().begin(), n.initial().end());
        size_t st = all.size() > 24 ? all.size() / 12 : 1;
        for (size_t k = 0; k <= all.size(); k += st) { auto from = k == 0 ? ini : std::vector<const S*>{all[k - 1]};
            std::map<const S*, std::vector<T>> to; for (auto& l : u) for (auto* g : NFA<T>::successor(from, l)) to[g].push_back(l);
            for (size_t j = 0; j < all.size(); j += st) { auto* g = all[j]; if (!(g->_accepting || g->has_non_epsilon())) continue; auto& want = to[g]; mc::count("label_queries"); mc::require(NFA<T>::intersect_edge_labels(from, g, u) == want, "intersect_edge_labels disagrees with successor");
                std::vector<T> half, hw; for (size_t i = 0; i < u.size(); i += 2) half.push_back(u[i]); std::set_intersection(half.begin(), half.end(), want.begin(), want.end(), std::back_inserter(hw)); mc::require(NFA<T>::intersect_edge_labels(from, g, half) == hw, "intersect_edge_labels disagrees with successor"); mc::require(NFA<T>::has_as_successor(from, u[j % u.size()], g) == std::binary_search(want.begin(), want.end(), u[j % u.size()]), "has_as_successor disagrees with successor"); } }
    });
}
int main(int argc, char** argv) {
    mc::Check c; c.property = "C07";
    c.rule = "every expression with at most the given number of operators over the given atoms, built with the real operations; acceptance of every word up to length 4 over three symbols compared with the language of the expression; non-trivial = language with more than one word";
    c.assumptions = {"compile() is called when construction is finished, as the parser does (the operations are also applied to compiled automata, which are then compiled again)"};
    std::vector<Atom> full = {{"[a]", "a", false, 0}, {"[b]", "b", false, 0}, {"[a,b]", "ab", false, 0}, {"[^a]", "a", true, 0}, {"[^a,b]", "ab", true, 0}, {".", "", true, 0}, {"eps", "", false, 1}, {"none", "", false, 2}, {"[]", "", false, 0}};
    std::vector<Atom> mid = {{"[a]", "a", false, 0}, {"[^a]", "a", true, 0}, {"[b]", "b", false, 0}, {"default", "", false, 3}}, small = {{"[a]", "a", false, 0}, {"[b]", "b", false, 0}}, one = {{"[a]", "a", false, 0}};
    c.bounds_quick = "9 atoms with <=2 operators (all construction variants), 4 atoms with <=2 operators over non-consecutive integers, 4 atoms with 3 operators, 2 atoms with 4, 1 atom with 5; words of length <=4 over 3 symbols; one edge with every (complemented) subset of 5 labels, two with every subset of 3, and all label queries on them; 25 families of expressions with up to 128 operators, labels or letters, each with the systematic words of the family and all their single edits";
    c.bounds_thorough = "9 atoms with <=3, 4 atoms with 4, 2 atoms with 5, 1 atom with 6 operators";
    auto chr = std::function<char(char)>([](char x) { return x; });
    auto num = std::function<size_t(char)>([](char x) { return (size_t)(x == 'a' ? 70000 : x == 'b' ? 3 : 500); });
    c.suites = {
        {"variants", [=] { Space s(full, 2); terms<char>(s, chr, 0, true, true); }},
        {"ints", [=] { Space s(mid, 2); terms<size_t>(s, num, 0, true, true); }},
        {"sets", [=] { Sets<size_t>{{9, 70000, 3, 500, 0}, 42}.run(3); Sets<std::string>{{"b", "", "aa", "c"}, "zz"}.run(2); if (mc::thorough()) { Sets<char>{{'x', 'a', 'q', 'b', 'm', 'c', 'n'}, 'z'}.run(4); } }},
        {"big", [=] { rx::families(rx::sizes(mc::thorough()), [](const rx::Case& c) { big<size_t>(c, [](int i) { return (size_t)(i % 2 ? 100000 - i : i); }); }); rx::families({7, 20, 66}, [](const rx::Case& c) { big<std::string>(c, [](int i) { return "l" + std::to_string(i * 37 % 1009); }); big<char>(c, [](int i) { return (char)(i * 3); }); }); }},
        {"mid", [=] { Space s(mid, mc::thorough() ? 4 : 3); terms<char>(s, chr, s.from[mc::thorough() ? 3 : 2], false, !mc::thorough()); }},
        {"small", [=] { Space s(small, mc::thorough() ? 5 : 4); terms<char>(s, chr, s.from[mc::thorough() ? 4 : 3], false, false); }},
        {"one", [=] { Space s(one, mc::thorough() ? 6 : 5); terms<char>(s, chr, s.from[mc::thorough() ? 5 : 4], false, false); }},
        {"full3", [=] { if (!mc::thorough()) return; Space s(full, 3); terms<char>(s, chr, s.from[3], false, false); }},
    };
    return mc::main_(argc, argv, c);
}
