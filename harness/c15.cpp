// C15: abstraction-refinement solving against direct solving, on every small concrete system and every abstraction of it.
#include "mc.h"
#include "fam.h"
#include <pdaaal/cegar/CegarPdaFactory.h>
using namespace ref; using namespace pdaaal;
namespace {
using label_t = std::string; using state_t = size_t;
label_t ln(int l) { return std::string(1, char('a' + l)); }
int li(const label_t& s) { if (s.size() != 1 || (unsigned char)s[0] < 'a') mc::fail("a label that does not exist"); return (unsigned char)s[0] - 'a'; }
// ---- header expressions: a sequence of label sets, each with a quantifier; position automaton for the reference
struct Item { std::vector<int> syms; bool neg = false; char q = 0; bool in(int l) const { return (std::find(syms.begin(), syms.end(), l) != syms.end()) != neg; } };
struct Hdr { std::string text; std::vector<Item> it; };
Hdr hdr(const std::string& t) {
    Hdr h; h.text = t;
    for (size_t i = 0; i < t.size(); ++i) { Item x; if (t[i] == '.') x.neg = true; else if (t[i] == '[') { ++i; if (t[i] == '^') { x.neg = true; ++i; } for (; t[i] != ']'; ++i) x.syms.push_back((unsigned char)t[i] - 'a'); } else x.syms.push_back((unsigned char)t[i] - 'a');
        if (i + 1 < t.size() && (t[i+1] == '*' || t[i+1] == '+' || t[i+1] == '?')) x.q = t[++i]; h.it.push_back(x); }
    return h;
}
NFA<label_t> nfa(const Hdr& h) {
    NFA<label_t> r(true); bool first = true;
    for (auto& x : h.it) { std::unordered_set<label_t> s; for (int l : x.syms) s.insert(ln(l)); NFA<label_t> n(std::move(s), x.neg); if (x.q == '*') n.star_extend(); else if (x.q == '+') n.plus_extend(); else if (x.q == '?') n.question_extend(); if (first) r = std::move(n); else r.concat(std::move(n)); first = false; }
    r.compile(); return r;
}
Aut aut(const Hdr& h, int n, int labels, const std::vector<int>& states) {
    Aut a(n); int k = h.it.size(); auto skip = [&](int i) { return h.it[i].q == '*' || h.it[i].q == '?'; };
    std::vector<int> pos; for (int i = 0; i < k; ++i) { bool acc = true; for (int j = i + 1; j < k; ++j) acc = acc && skip(j); pos.push_back(a.add(acc)); }
    bool eps = true; for (int i = 0; i < k; ++i) eps = eps && skip(i);
    auto go = [&](int from, int i) { for (int l = 0; l < labels; ++l) if (h.it[i].in(l)) a.edges.push_back({from, l, pos[i]}); };
    for (int p : states) { if (eps) a.acc[p] = 1; for (int i = 0; i < k; ++i) { go(p, i); if (!skip(i)) break; } }
    for (int i = 0; i < k; ++i) { if (h.it[i].q == '*' || h.it[i].q == '+') go(pos[i], i); for (int j = i + 1; j < k; ++j) { go(pos[i], j); if (!skip(j)) break; } }
    return a;
}
// ---- the concrete system. A rule with two==true pops a label below the matched one as well (two abstract steps, one concrete one)
struct CRule { Rule r; bool two = false; };
struct Concrete { int n = 0, labels = 0; std::vector<CRule> rules; std::vector<int> init, fin; std::vector<int> sabs, labs;
    std::string str() const { std::ostringstream o; o << "states=" << n << " labels=" << labels << " initial={"; for (int s : init) o << s << ","; o << "} final={"; for (int s : fin) o << s << ","; o << "} rules:"; for (auto& c : rules) o << "  " << ref::str(c.r) << (c.two ? " and pop one more" : ""); o << "  state classes "; for (int s : sabs) o << s; o << " label classes "; for (int l : labs) o << l; return o.str(); }
    Sys sys() const { Sys s; s.n = n; s.labels = labels; for (auto& c : rules) if (!c.two) s.rules.push_back(c.r); else { Rule a = c.r; a.to = s.n; s.rules.push_back(a); Rule b; b.from = s.n++; b.to = c.r.to; b.op = ref::POP; b.wild = true; s.rules.push_back(b); } return s; } };
struct Step { const CRule* rule = nullptr; bool second = false; int from = 0, to = 0; std::vector<int> popped; }; // popped: the labels this step takes off, top first
struct Config { Step step; Header<label_t> header; size_t state; bool half = false; };
struct Trace { std::vector<Conf> confs; std::vector<const CRule*> rules; };

using refinement_t = std::variant<std::pair<Refinement<state_t>, Refinement<label_t>>, user_rule_t<weight<void>>>;
struct Factory : public CegarPdaFactory<label_t> {
    using base = CegarPdaFactory<label_t>; using label_t = std::string; using abstract_rule_t = base::abstract_rule_t;
    const Concrete& c; RefinementMapping<state_t> map; std::vector<size_t> ini, acc; size_t rounds = 0, refinements = 0; std::vector<size_t> mids;
    static std::unordered_set<label_t> all(const Concrete& c) { std::unordered_set<label_t> r; for (int l = 0; l < c.labels; ++l) r.insert(ln(l)); return r; }
    explicit Factory(const Concrete& c) : base(all(c), std::function<int(const label_t&)>([&c](const label_t& l) { return c.labs[li(l)]; })), c(c) {
        AbstractionMapping<state_t, int> m(std::function<int(const state_t&)>([&c](const state_t& s) { return c.sabs[s]; }));
        for (int s = 0; s < c.n; ++s) m.insert(s);
        map = RefinementMapping<state_t>(std::move(m));
    }
    size_t as(int s) const { auto [f, id] = map.exists(s); mc::require(f, "a state is unknown to the mapping"); return id; }
    size_t al(int l) const { auto [f, id] = this->abstract_label(ln(l)); mc::require(f, "a label is unknown to the mapping"); return id; }
    size_t mid(const CRule& r) const { return mids[&r - c.rules.data()]; }
    static pdaaal::op_t op(ref::Op o) { return o == ref::PUSH ? pdaaal::PUSH : o == ref::POP ? pdaaal::POP : o == ref::SWAP ? pdaaal::SWAP : pdaaal::NOOP; }
    void build_pda() override {
        ++rounds; mc::count("impl_runs");
        if (rounds > (size_t)c.n + c.labels + 1) mc::fail("refinement makes no progress: " + std::to_string(rounds) + " rounds");
        ini.clear(); acc.clear(); for (int s : c.init) ini.push_back(as(s)); for (int s : c.fin) acc.push_back(as(s));
        for (auto* v : {&ini, &acc}) { std::sort(v->begin(), v->end()); v->erase(std::unique(v->begin(), v->end()), v->end()); }
        mids.assign(c.rules.size(), 0); size_t next = map.size(); for (size_t i = 0; i < c.rules.size(); ++i) if (c.rules[i].two) mids[i] = next++;
        for (auto& r : c.rules) {
            abstract_rule_t a; a._from = as(r.r.from); a._to = r.two ? mid(r) : as(r.r.to); a._op = op(r.r.op);
            a._op_label = r.r.oplabel >= 0 ? al(r.r.oplabel) : std::numeric_limits<uint32_t>::max();
            if (r.r.wild) this->add_wildcard_rule(a); else { a._pre = al(r.r.pre[0]); this->add_rule(a); }
            if (r.two) { abstract_rule_t b; b._from = mid(r); b._to = as(r.r.to); b._op = pdaaal::POP; b._op_label = std::numeric_limits<uint32_t>::max(); this->add_wildcard_rule(b); }
        }
    }
    const std::vector<size_t>& initial() override { return ini; }
    const std::vector<size_t>& accepting() override { return acc; }
    void refine(refinement_t&& r) { ++refinements; mc::count("transitions"); mc::require(r.index() == 0, "a rule refinement out of nowhere"); map.refine(std::get<0>(r).first); }
    void refine(HeaderRefinement<label_t>&&) { ++refinements; mc::count("transitions"); }
};
template<refinement_option_t opt> struct Recon : public CegarPdaReconstruction<label_t, state_t, const std::vector<Config>&, Trace> {
    using label_t = std::string; using concrete_trace_t = Trace;
    using base = CegarPdaReconstruction<label_t, state_t, const std::vector<Config>&, Trace>; using arule = typename base::abstract_rule_t; using header_t = Header<label_t>;
    using refinement_t = typename base::refinement_t; using header_refinement_t = typename base::header_refinement_t;
    const Factory& f; const Concrete& c; std::deque<std::vector<Config>> temps;
    Recon(const Factory& f, const typename base::product_t& i, const NFA<label_t>& a, const NFA<label_t>& b) : base(i, a, b), f(f), c(f.c) {}
    bool match(const CRule& r, const arule& a) const {
        return f.as(r.r.from) == a._from && Factory::op(r.r.op) == a._op && (r.two ? f.mid(r) : f.as(r.r.to)) == a._to && (r.r.wild || this->label_maps_to(ln(r.r.pre[0]), a._pre)) && (r.r.oplabel < 0 || this->label_maps_to(ln(r.r.oplabel), a._op_label));
    }
    const CRule* second(const arule& a) const { for (auto& r : c.rules) if (r.two && f.mid(r) == a._from) return &r; return nullptr; }
    void from(std::vector<Config>& out, const arule& a, size_t state, const header_t& h) {
        for (auto& r : c.rules) if ((size_t)r.r.from == state && match(r, a)) {
            std::vector<label_t> post; size_t pops = 0; bool wild = r.r.wild; label_t pre = wild ? label_t() : ln(r.r.pre[0]);
            switch (r.r.op) { case ref::POP: pops = 1; break; case ref::SWAP: pops = 1; post = {ln(r.r.oplabel)}; break; case ref::PUSH: if (!wild) { pops = 1; post = {pre}; } post.push_back(ln(r.r.oplabel)); break; case ref::NOOP: if (!wild) { pops = 1; post = {pre}; } break; }
            std::optional<std::pair<header_t, std::vector<label_t>>> res; size_t more = r.two ? 1 : 0;
            if (wild) res = this->update_header_wildcard_pre(h, post, pops + more); else res = this->update_header(h, pre, post, more);
            mc::count("header_updates");
            if (!res) continue;
            Config k; k.step.rule = &r; k.header = res->first; k.state = r.r.to; size_t spec = 0;
            if (k.header.size() + (r.two ? 1 : 0) != h.size() + (r.r.op == ref::PUSH) - (r.r.op == ref::POP)) mc::fail("the header has the wrong size after a rule");
            if (r.r.op == ref::POP || r.r.op == ref::SWAP) for (size_t i = 0; i < 1 + more; ++i) {
                if (i == 0 && !wild) { k.step.popped.push_back(r.r.pre[0]); continue; }
                if (i < h.concrete_part.size()) k.step.popped.push_back(li(h.concrete_part[h.concrete_part.size() - 1 - i]));
                else { mc::require(spec < res->second.size(), "a popped wildcard got no label"); k.step.popped.push_back(li(res->second[spec++])); }
            }
            mc::require(spec == res->second.size(), "labels are reported for wildcards that were not popped");
            out.push_back(std::move(k));
        }
    }
    const std::vector<Config>& initial_concrete_rules(const arule& a) override { temps.emplace_back(); for (int s : c.init) if (f.as(s) == a._from) from(temps.back(), a, s, this->initial_header()); return temps.back(); }
    const std::vector<Config>& search_concrete_rules(const arule& a, const Config& k) override {
        temps.emplace_back();
        if (auto* r = second(a)) { mc::require(k.step.rule == r && !k.step.second, "the abstract trace leaves an intermediate state it did not enter"); Config n = k; n.step.second = true; temps.back().push_back(n); }
        else from(temps.back(), a, k.state, k.header);
        return temps.back();
    }
    refinement_t refinement(const arule& a, std::vector<std::pair<state_t, label_t>>&& X) {
        std::vector<std::pair<state_t, label_t>> Y; std::vector<state_t> YW; 
        for (auto& r : c.rules) if (match(r, a) && r.r.wild) YW.push_back(r.r.from);
        std::sort(YW.begin(), YW.end()); YW.erase(std::unique(YW.begin(), YW.end()), YW.end());
        for (auto& r : c.rules) if (match(r, a) && !r.r.wild && !std::binary_search(YW.begin(), YW.end(), (size_t)r.r.from)) Y.emplace_back(r.r.from, ln(r.r.pre[0]));
        mc::require(!X.empty(), "no concrete configuration at the point where the trace fails"); mc::require(!Y.empty() || !YW.empty(), "the abstract trace uses a rule without a concrete counterpart");
        for (auto& x : X) if (std::find(Y.begin(), Y.end(), x) != Y.end() || std::binary_search(YW.begin(), YW.end(), x.first)) mc::fail("refinement is asked for although a concrete rule applies at the deepest configuration");
        return make_refinement<opt>(std::move(X), std::move(Y), a._from, a._pre, std::move(YW));
    }
    void pairs(std::vector<std::pair<state_t, label_t>>& X, const arule& a, size_t state, const header_t& h) { for (auto& l : this->pre_labels(h)) { if (!this->label_maps_to(l, a._pre)) mc::fail("the top of the header does not belong to the class of the abstract rule"); X.emplace_back(state, l); } }
    refinement_t find_initial_refinement(const arule& a) override { std::vector<std::pair<state_t, label_t>> X; for (int s : c.init) if (f.as(s) == a._from) pairs(X, a, s, this->initial_header()); return refinement(a, std::move(X)); }
    refinement_t find_refinement(const arule& a, const std::vector<Config>& ks) override { std::vector<std::pair<state_t, label_t>> X; for (auto& k : ks) if (f.as(k.state) == a._from) pairs(X, a, k.state, k.header); return refinement(a, std::move(X)); }
    header_t get_header(const Config& k) override { return k.header; }
    Trace get_concrete_trace(std::vector<Config>&& ks, std::vector<label_t>&& fh, size_t init) override {
        Trace t; std::vector<int> st; for (auto it = fh.rbegin(); it != fh.rend(); ++it) st.push_back(li(*it));
        auto need = [&] { mc::require(!st.empty(), "the returned run goes below the empty stack"); };
        for (auto it = ks.rbegin(); it != ks.rend(); ++it) {
            if (it->step.second) continue; auto& r = *it->step.rule; t.confs.push_back({r.r.to, st}); t.rules.push_back(&r);
            if (r.r.op == ref::PUSH) { need(); st.erase(st.begin()); } else if (r.r.op == ref::SWAP) { need(); st[0] = it->step.popped[0]; } else if (r.r.op == ref::POP) st.insert(st.begin(), it->step.popped.begin(), it->step.popped.end());
        }
        int s0 = -1; if (!ks.empty()) s0 = ks[0].step.rule->r.from; else for (int s : c.init) if (f.as(s) == init) s0 = s;
        mc::require(s0 >= 0, "the initial state of an empty run is not initial"); t.confs.push_back({s0, st});
        std::reverse(t.confs.begin(), t.confs.end()); std::reverse(t.rules.begin(), t.rules.end()); return t;
    }
};
void check_trace(const Concrete& c, const Trace& t, const Aut& ia, const Aut& fa) {
    mc::require(t.confs.size() == t.rules.size() + 1, "run and rules do not fit");
    if (!accepts(ia, t.confs[0])) mc::fail("the run starts in " + str(t.confs[0]) + ", which is not an initial configuration");
    for (size_t i = 0; i < t.rules.size(); ++i) { auto d = apply(t.rules[i]->r, t.confs[i]); if (d && t.rules[i]->two) { if (d->s.empty()) d.reset(); else d->s.erase(d->s.begin()); } if (!d || !(*d == t.confs[i + 1])) mc::fail("step " + std::to_string(i + 1) + " of the run, " + str(t.confs[i]) + " to " + str(t.confs[i + 1]) + ", is not by the rule " + str(t.rules[i]->r)); }
    if (!accepts(fa, t.confs.back())) mc::fail("the run ends in " + str(t.confs.back()) + ", which is not a final configuration");
}
enum Eng { POST, PRE, DUAL };
template<refinement_option_t opt> void solve(const Concrete& c, Eng e, const Hdr& ih, const Hdr& fh, const Aut& ia, const Aut& fa, bool want, const char* name) {
    auto in = nfa(ih), fn = nfa(fh); Factory f(c); CEGAR<Factory, Recon<opt>> cegar; std::optional<Trace> r;
    switch (e) { case POST: r = cegar.template cegar_solve<false, false>(std::move(f), in, fn); break; case PRE: r = cegar.template cegar_solve<true, false>(std::move(f), in, fn); break; case DUAL: r = cegar.template cegar_solve<false, true>(std::move(f), in, fn); break; }
    if (r.has_value() != want) mc::fail(std::string(name) + (r ? ": a run is returned although there is none" : ": no run is found although there is one") + ", after " + std::to_string(f.refinements) + " refinements");
    if (f.refinements) { mc::count("nontrivial"); mc::count(r ? "runs_after_refinement" : "refuted_after_refinement"); }
    if (r) { check_trace(c, *r, ia, fa); mc::count("states", r->confs.size()); }
}
void one(const Concrete& c, const Hdr& ih, const Hdr& fh) {
    auto s = c.sys(); Aut ia = aut(ih, s.n, s.labels, c.init), fa = aut(fh, s.n, s.labels, c.fin); uint64_t steps = 0; bool want = reachable(s, ia, fa, &steps); mc::count("states", steps + 1);
    constexpr auto B = refinement_option_t::best_refinement, F = refinement_option_t::fast_refinement;
    solve<B>(c, POST, ih, fh, ia, fa, want, "post*, best refinement"); solve<F>(c, POST, ih, fh, ia, fa, want, "post*, fast refinement");
    solve<B>(c, PRE, ih, fh, ia, fa, want, "pre*, best refinement"); solve<F>(c, PRE, ih, fh, ia, fa, want, "pre*, fast refinement");
    solve<B>(c, DUAL, ih, fh, ia, fa, want, "dual search, best refinement"); solve<F>(c, DUAL, ih, fh, ia, fa, want, "dual search, fast refinement");
}
// every partition of 0..n-1, in restricted growth form, whose classes are uniform in kind[]
std::vector<std::vector<int>> partitions(int n, const std::vector<int>& kind) { std::vector<std::vector<int>> r; std::vector<int> p; std::function<void(int)> rec = [&](int m) { int i = p.size(); if (i == n) { r.push_back(p); return; } for (int k = 0; k <= m; ++k) { bool ok = true; for (int j = 0; j < i; ++j) if (p[j] == k && kind[j] != kind[i]) ok = false; if (!ok) continue; p.push_back(k); rec(std::max(m, k + 1)); p.pop_back(); } }; rec(0); return r; }
std::vector<int> kinds(const Concrete& c) { std::vector<int> k(c.n, 0); for (int s : c.init) k[s] |= 1; for (int s : c.fin) k[s] |= 2; return k; }
Rule R(int f, int l, int t, ref::Op o, int ol = -1) { Rule r; r.from = f; r.to = t; r.op = o; r.oplabel = ol; if (l < 0) r.wild = true; else r.pre = {l}; return r; }
using HP = std::vector<std::pair<std::string, std::string>>;
// every choice of kmin..kmax rules, every abstraction that keeps initial and final states apart (coarsest_only: only those that merge something)
void family(Concrete c, const std::vector<CRule>& al, int kmin, int kmax, const HP& hs, bool all_abs = true) {
    auto sp = partitions(c.n, kinds(c)), lp = partitions(c.labels, std::vector<int>(c.labels, 0));
    if (!all_abs) { sp = {sp[0]}; lp = {lp[0]}; }
    std::function<void(size_t)> rec = [&](size_t i) {
        if ((int)c.rules.size() >= kmin) for (auto& s : sp) for (auto& l : lp) { c.sabs = s; c.labs = l; for (auto& [a, b] : hs) { auto x = hdr(a), y = hdr(b); mc::run_case([&] { return c.str() + "\ninitial header <" + a + "> final header <" + b + ">"; }, [&] { one(c, x, y); }); } }
        if ((int)c.rules.size() == kmax) return;
        for (size_t j = i; j < al.size(); ++j) { c.rules.push_back(al[j]); rec(j + 1); c.rules.pop_back(); }
    }; rec(0);
}
std::vector<CRule> rules(int n, int labels, bool noop, bool wild, const std::vector<int>& from, const std::vector<int>& to) { std::vector<CRule> r; (void)n; for (int f : from) for (int t : to) for (int l = wild ? -1 : 0; l < labels; ++l) { r.push_back({R(f, l, t, ref::POP)}); if (noop) r.push_back({R(f, l, t, ref::NOOP)}); for (int o = 0; o < labels; ++o) { r.push_back({R(f, l, t, ref::SWAP, o)}); r.push_back({R(f, l, t, ref::PUSH, o)}); } } return r; }
// ---- parametric systems with many states, many labels and long headers, each under several abstractions
void abstractions(Concrete c, const std::string& name, const HP& hs) {
    auto k = kinds(c); auto cls = [&](std::function<int(int)> f) { std::vector<int> r; std::map<std::pair<int,int>, int> id; for (int s = 0; s < c.n; ++s) r.push_back(id.emplace(std::make_pair(k[s], f(s)), id.size()).first->second); return r; };
    auto lcl = [&](std::function<int(int)> f) { std::vector<int> r; std::map<int,int> id; for (int s = 0; s < c.labels; ++s) r.push_back(id.emplace(f(s), id.size()).first->second); return r; };
    std::vector<std::function<int(int)>> fs = {[](int) { return 0; }, [](int x) { return x % 2; }, [](int x) { return x % 3; }, [](int x) { return x / 4; }, [](int x) { return x; }};
    for (size_t i = 0; i < fs.size(); ++i) for (size_t j = 0; j < fs.size(); ++j) { if (!mc::thorough() && i && j && i != j) continue; c.sabs = cls(fs[i]); c.labs = lcl(fs[j]);
        for (auto& [a, b] : hs) { auto x = hdr(a), y = hdr(b); mc::run_case([&] { return name + ": " + c.str() + "\ninitial header <" + a + "> final header <" + b + ">"; }, [&] { mc::count("large_cases"); one(c, x, y); }); } }
}
std::string S(int l) { return std::string(1, char('a' + l)); }
std::string rep(const std::string& s, int n) { std::string r; while (n-- > 0) r += s; return r; }
std::string set(int from, int to, bool neg = false) { std::string r = neg ? "[^" : "["; for (int i = from; i < to; ++i) r += S(i); return r + "]"; }
Concrete C(int n, int labels, std::vector<int> i, std::vector<int> f) { Concrete k; k.n = n; k.labels = labels; k.init = i; k.fin = f; return k; }
void large() {
    const bool T = mc::thorough();
    // the top is rewritten along a chain of states; one link of the chain may expect the wrong label
    for (int n : T ? std::vector<int>{3, 6, 10, 16, 24, 32} : std::vector<int>{3, 6, 10, 16}) for (int bad : {-1, 0, n / 2, n - 1}) { auto c = C(n + 1, n + 1, {0}, {n}); for (int i = 0; i < n; ++i) c.rules.push_back({R(i, i == bad ? (i + 1) % n : i, i + 1, ref::SWAP, i + 1)}); abstractions(c, "swap chain", {{"a", S(n)}, {".", "[^a]"}, {set(0, n) + ".", S(n) + "[^" + S(0) + "]"}, {set(1, n + 1), set(0, n)}}); }
    // ... in one state: only the labels tell the steps apart
    for (int n : T ? std::vector<int>{4, 8, 16, 24} : std::vector<int>{4, 8, 12}) for (int bad : {-1, 1, n - 1}) { auto c = C(1, n + 1, {0}, {0}); for (int i = 0; i < n; ++i) if (i != bad) c.rules.push_back({R(0, i, 0, ref::SWAP, i + 1)}); abstractions(c, "swap chain in one state", {{"a", S(n)}, {S(n), "a"}, {"a.*", S(n) + S(n) + "?"}, {set(0, n / 2) + "a", S(n) + "[^" + S(0) + "]"}}); }
    // push a word, pop it again in reverse order; one pop may expect the wrong label
    for (int n : T ? std::vector<int>{2, 4, 7, 12, 20} : std::vector<int>{2, 4, 7, 12}) for (int bad : {-1, 0, n - 1}) { auto c = C(2 * n + 1, n + 1, {0}, {2 * n}); for (int i = 0; i < n; ++i) c.rules.push_back({R(i, i % 2 ? -1 : i ? i : 0, i + 1, ref::PUSH, i + 1)}); for (int i = 0; i < n; ++i) c.rules.push_back({R(n + i, i == bad ? 0 : n - i, n + i + 1, ref::POP)}); abstractions(c, "push and pop", {{"a", "a"}, {".+", "[^b]"}, {"a" + rep(".", n), "." + rep("[^a]", n)}}); }
    // long headers of which only the first labels are touched: the rest is chosen so that both expressions accept it
    for (int n : T ? std::vector<int>{5, 10, 20, 40, 80} : std::vector<int>{5, 10, 20, 40}) for (int lb : {2, 5, 12}) for (int touch : {0, 1, 3}) { auto c = C(2, lb, {0}, {1}); if (!touch) { c.n = 1; c.fin = {0}; } else { c.n = touch + 1; c.fin = {touch}; for (int i = 0; i < touch; ++i) c.rules.push_back({R(i, i == 1 ? -1 : 0, i + 1, i == 2 ? ref::POP : ref::SWAP, i == 2 ? -1 : i == 0 ? 1 : 0)}); }
        std::string p = "a", q = touch == 3 ? "" : touch == 2 ? "a" : touch == 1 ? "b" : "a"; auto at = [&](int i, const std::string& x, const std::string& r) { return rep(r, i) + x + rep(r, n - 1 - i); };
        HP h = {{p + rep(".", n), q + rep("[^a]", n)}, {p + rep("[^b]", n), q + rep("[^a]", n)}, {p + rep(set(0, (lb + 1) / 2), n), q + rep(set(lb / 2, lb), n)}, {p + rep(".", n), q + rep(".", n - 1)}, {p + rep(".", n) + ".*", q + ".*" + rep("b", n)}};
        for (int i : {0, 1, n / 2, n - 1}) { h.push_back({p + at(i, "a", "."), q + at(i, "[^a]", "[^b]?")}); h.push_back({p + at(i, "[^b]", "b"), q + at(i, "[^a]", "b")}); h.push_back({p + at(i, set(0, (lb + 1) / 2), "."), q + at(i, set(lb / 2, lb), ".")}); }
        abstractions(c, "long header", h); }
    // a long word is pushed and stays; the final header asks for it, or for another label in one place
    for (int n : T ? std::vector<int>{2, 5, 9, 14, 20, 32} : std::vector<int>{2, 5, 9, 14, 20}) for (int lb : {2, 5}) { auto c = C(n + 1, lb, {0}, {n}); std::string word, init = "a"; for (int i = 0; i < n; ++i) { int l = (i * 7 + i / 3) % lb; c.rules.push_back({R(i, -1, i + 1, ref::PUSH, l)}); word = S(l) + word; }
        HP h = {{"a", word + "a"}, {"[^a]", rep(".", n) + "a"}, {"..", rep(".", n) + "[^a]b"}}; std::set<int> at{0, 1, n / 2, n - 2, n - 1, std::min(n - 1, 8)}; for (int j : at) { std::string w = word; w[j] = w[j] == 'a' ? 'b' : 'a'; h.push_back({"a", w + "a"}); h.push_back({".", rep(".", j) + "[^" + word[j] + "]" + rep(".", n - 1 - j) + "."}); h.push_back({".b", rep(".", j) + word[j] + rep(".", n - 1 - j) + "[^b]."}); }
        abstractions(c, "pushed word", h); }
    // k ways into merged states, of which only one goes on
    for (int k : T ? std::vector<int>{3, 6, 12, 20} : std::vector<int>{3, 6, 12}) for (int good : {-1, 0, k / 2, k - 1}) for (int lab : {0, 1}) { auto c = C(2 * k + 2, k + 2, {0}, {2 * k + 1}); for (int i = 0; i < k; ++i) { c.rules.push_back({R(0, lab ? i : -1, 1 + i, ref::PUSH, lab ? i + 1 : 0)}); c.rules.push_back({R(1 + i, -1, 1 + k + i, ref::NOOP)}); c.rules.push_back({R(1 + k + i, i == good ? (lab ? i + 1 : 0) : k + 1, 2 * k + 1, ref::POP)}); } abstractions(c, "many branches", {{".", "."}, {"[^a]", "[^" + S(1) + "]"}, {set(0, k / 2 + 1), set(0, k)}}); }
    // many labels, all of one class: the header asks for one half of them, the rules for the other
    for (int n : T ? std::vector<int>{8, 20, 60, 140} : std::vector<int>{8, 20, 60}) for (int j : {0, n / 2, n - 1}) { auto c = C(3, n, {0}, {2}); c.rules.push_back({R(0, j, 1, ref::POP)}); c.rules.push_back({R(1, n - 1 - j, 2, ref::SWAP, j)}); c.rules.push_back({R(1, -1, 1, ref::PUSH, (j + 1) % n)}); abstractions(c, "many labels", {{"..", "."}, {set(0, n / 2) + set(n / 2, n), "."}, {set(0, n / 2) + ".", "[^" + S(j) + "]"}, {".[^" + S(n - 1 - j) + "]", S(j)}, {"..+", S(j) + set(0, n / 3, true)}, {"." + set(0, n / 2, true) + ".", S(j) + S(n - 1)}}); }
    // rules that pop two labels, along a long header
    for (int n : T ? std::vector<int>{2, 4, 8, 14} : std::vector<int>{2, 4, 8}) for (int bad : {-1, 0, n - 1}) { auto c = C(n + 1, 3, {0}, {n}); for (int i = 0; i < n; ++i) c.rules.push_back({R(i, i == bad ? 2 : i % 3 == 2 ? -1 : 0, i + 1, ref::POP), true}); abstractions(c, "long double pops", {{rep("a.", n), ""}, {rep("[ab][^b]", n) + ".", "[^a]"}, {rep("[^b]", 2 * n) + "b?", "b?"}, {".*", "ab"}}); }
}
}
int main(int argc, char** argv) {
    mc::Check c; c.property = "C15"; c.rule = "cegar_solve finds a run iff the concrete system has one; the run is a run of the concrete system; every round refines the abstraction";
    c.assumptions = {"the state abstraction does not merge initial with non-initial, nor accepting with non-accepting states (the solver checks headers only)", "all labels of the header expressions belong to the label set", "initial() and accepting() are sorted", "no weights (documented as unsupported)", "the concrete side (rule matching, Reconstruction) is the harness's own implementation of the documented interface"};
    const HP H2 = {{"a", "b"}, {"[ab]", ""}, {"[^a]", "a"}, {".", "[^b]"}, {"a.", "b"}, {"a?", "a?"}, {".*", "b[^b]"}, {"[^b]+", ".+"}};
    const HP H3 = {{"a", "b"}, {"[ab]", "[^ab]"}, {"[^a]c?", "[ac]"}, {"[bc][^b]", "[^bc]*"}, {".*", "c[^a]"}, {"[^c].", ".[ab]"}};
    const HP H4 = {{"a", "b"}, {".", "[^a]"}, {"[^b]+", "b?"}, {"a.*", "ba"}};
    auto mk = [](int n, int l, std::vector<int> i, std::vector<int> f) { Concrete k; k.n = n; k.labels = l; k.init = i; k.fin = f; return k; };
    c.suites.push_back({"2-states-2-labels", [=] { family(mk(2, 2, {0}, {1}), rules(2, 2, false, true, {0, 1}, {0, 1}), 0, mc::thorough() ? 3 : 2, H2); }});
    c.suites.push_back({"initial-is-final", [=] { family(mk(2, 2, {0, 1}, {0, 1}), rules(2, 2, true, true, {0, 1}, {0, 1}), 0, 2, {{"a?", "b?"}, {".", "[^a]"}, {"[^a]*", "a*"}, {"ab", "b?a"}}); family(mk(2, 2, {0}, {0, 1}), rules(2, 2, false, false, {0, 1}, {0, 1}), 0, 2, {{"a", "b?"}, {".", "[^a]"}, {"[^a]*", "a*"}, {"", ""}}); family(mk(2, 3, {0}, {0}), rules(2, 3, false, false, {0}, {0}), 0, 1, H3); }});
    c.suites.push_back({"1-state-3-labels", [=] { family(mk(1, 3, {0}, {0}), rules(1, 3, false, true, {0}, {0}), 0, mc::thorough() ? 4 : 3, H3); }});
    c.suites.push_back({"2-states-3-labels", [=] { family(mk(2, 3, {0}, {1}), rules(2, 3, false, false, {0}, {0, 1}), 1, mc::thorough() ? 3 : 2, H3); }});
    // the states between the initial and the final one may be merged
    c.suites.push_back({"4-states-2-labels", [=] { auto a = rules(4, 2, false, false, {0}, {1, 2}), b = rules(4, 2, false, false, {1, 2}, {3}); a.insert(a.end(), b.begin(), b.end()); family(mk(4, 2, {0}, {3}), a, 2, mc::thorough() ? 4 : 3, mc::thorough() ? H4 : HP{{"a", "b"}, {"[^b]+", "b?"}}); }});
    c.suites.push_back({"two-initial-states", [=] { auto a = rules(4, 2, false, true, {0, 1}, {2, 3}), b = rules(4, 2, false, true, {2, 3}, {2, 3}); if (mc::thorough()) a.insert(a.end(), b.begin(), b.end()); family(mk(4, 2, {0, 1}, {2, 3}), a, 1, 2, H2); }});
    c.suites.push_back({"5-states", [=] { std::vector<CRule> a; for (int t : {1, 2, 3}) for (int l : {-1, 0, 1}) for (auto o : {ref::POP, ref::PUSH, ref::SWAP}) a.push_back({R(0, l, t, o, o == ref::POP ? -1 : l == 0 ? 1 : 0)}); for (int f : {1, 2, 3}) { for (int l : {-1, 0, 1}) a.push_back({R(f, l, 4, ref::POP)}); a.push_back({R(f, 0, f % 3 + 1, ref::SWAP, 1)}); } family(mk(5, 2, {0}, {4}), a, 3, mc::thorough() ? 4 : 3, mc::thorough() ? HP{{"a.", "b?"}, {"[^b]b", "."}} : HP{{"a.", "b?"}}); }});
    // a rule that pops two labels: the abstract system needs two steps
    c.suites.push_back({"two-pops", [=] { auto a = rules(3, 2, false, true, {0, 1}, {1, 2}); std::vector<CRule> t; for (int f : {0, 1}) for (int g : {1, 2}) for (int l : {-1, 0, 1}) t.push_back({R(f, l, g, ref::POP), true}); t.insert(t.end(), a.begin(), a.end()); family(mk(3, 2, {0}, {2}), t, 1, 2, {{"a.", "b?"}, {"[^a].*", "a"}, {"a[ab].", "[^a]"}, {".*", "ab"}}); if (mc::thorough()) { auto c3 = mk(4, 2, {0}, {3}); std::vector<CRule> u; for (int f : {0, 1, 2}) for (int g : {1, 2, 3}) for (int l : {-1, 0, 1}) { u.push_back({R(f, l, g, ref::POP), true}); u.push_back({R(f, l, g, ref::PUSH, 1)}); } family(c3, u, 2, 3, {{"a.", "b?"}, {"a[^a].", ".?"}}); } }});
    c.suites.push_back({"large", large});
    c.bounds_quick = "2 states x 2 labels: every system of up to 2 of 60 rules (pop, swap, push, one label or wildcard); 1-2 states x 3 labels, up to 3/2 rules; 4-5 states with mergeable intermediate states, 2-3 rules; rules popping two labels; every partition of labels and of states that keeps initial and final states apart; 4-8 pairs of header expressions; post*, pre*, dual search x best, fast refinement; suite large: chains of 3-16 swaps, 2-12 pushes and pops, headers of 5-40 positions, 3-12 branches, 8-60 labels, pushed words of 2-20 labels, 2-8 double pops under 13 abstractions";
    c.bounds_thorough = "as quick with up to 3 rules on 2 states, 4 rules on 1 state x 3 labels and 4-5 states, and rules popping two labels on 4 states; large: up to 32 swaps, 80 header positions, 140 labels, 25 abstractions";
    return mc::main_(argc, argv, c);
}
