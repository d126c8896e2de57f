// C16: problem instances survive a write-read round trip; reading yields exactly what is written. Documents are generated from abstract
// systems/automata by an own printer, read by the real readers (text and msgpack), written by to_json and read again.
#include "jobs.h"
#include "jread.h"
#include "jdoc.h"
using namespace jref; using namespace pdaaal;
namespace {
using namespace jdoc;
std::set<std::string> nosig;
void same(const Inst& w, const Inst& g, const char* when) { try { jobs::same_pda(w.pda, g.pda, true); jobs::same_aut(w.ini, g.ini, w.pda.states, nosig, "initial"); jobs::same_aut(w.fin, g.fin, w.pda.states, nosig, "final"); } catch (mc::Violation& v) { mc::fail(std::string(when) + ": " + v.msg); } }
void check(const Doc& d, bool parts) {
    J j = inst_json(d); Inst want; if (read_inst_doc(j, want) == BAD) throw std::logic_error("generator made a malformed document: " + text(j));
    std::string t = text(j); Inst got; auto r = jread::inst(t, false, false, got); if (!r.ok) mc::fail("rejected: " + r.err); same(want, got, "read"); mc::count("states"); mc::count("transitions", want.pda.rules.size() + want.ini.edges.size() + want.fin.edges.size()); if (!want.pda.rules.empty() || !want.ini.edges.empty()) mc::count("nontrivial");
    if (want.pda.rules.size() > 1 || !want.ini.edges.empty()) { Inst g; r = jread::inst(jread::msgpack(t), true, true, g); if (!r.ok) mc::fail("msgpack rejected: " + r.err); same(want, g, "read from msgpack"); }
    std::string wi, wp, w1, w2; r = jread::rewrite(t, wi, wp, w1, w2); if (!r.ok) mc::fail("rejected: " + r.err);
    { Inst g; r = jread::inst(wi, false, false, g); if (!r.ok) mc::fail("the instance as written cannot be read back: " + r.err + "\n" + wi); same(want, g, "written and read back"); }
    { Pda g; r = jread::pda(wp, false, d.p.wk, d.p.named, g); if (!r.ok) mc::fail("the system as written cannot be read back: " + r.err + "\n" + wp); try { jobs::same_pda(want.pda, g, true); } catch (mc::Violation& v) { mc::fail("system written and read back: " + v.msg); } }
    if (parts) for (int n = 0; n < 2; ++n) { Pda p; Aut g; r = jread::aut(wp, n ? w2 : w1, false, d.p.wk, d.p.named, n, p, g); if (!r.ok) mc::fail("the automaton as written cannot be read back: " + r.err + "\n" + (n ? w2 : w1)); try { jobs::same_aut(n ? want.fin : want.ini, g, want.pda.states, nosig, n ? "final" : "initial"); } catch (mc::Violation& v) { mc::fail("automaton written and read back: " + v.msg); } }
}
void run(const Doc& d, bool parts) { mc::run_case([&] { return text(inst_json(d)); }, [&] { check(d, parts); }); }
std::vector<std::vector<long long>> weights(int wk) { switch (wk) { case 0: return {{}}; case 1: return {{0}, {1}, {4294967294ll}}; case 2: return {{0}, {-1}, {2147483646}, {-2147483647}}; case 3: return {{}, {1}, {0, 2}, {4294967294ll, 0, 1}}; default: return {{}, {-1}, {2147483646, -2147483647}, {0, 0}}; } }
std::vector<Rule> all_rules(const std::vector<std::string>& st, const std::vector<std::string>& lab, int wk) {
    std::vector<Rule> out; std::vector<std::string> pre = lab; pre.push_back("*");
    for (auto& f : st) for (auto& t : st) for (auto& p : pre) for (auto& w : weights(wk)) { Rule r; r.from = f; r.to = t; r.pre = p; r.wild = p == "*"; r.w = w; out.push_back(r); for (auto& l : lab) { r.word = {l}; out.push_back(r); r.word = {l, PRE}; out.push_back(r); } if (r.wild) { r.word = {PRE}; out.push_back(r); } }
    return out;
}
std::vector<std::string> names(bool named, int n) { std::vector<std::string> r; const char* nm[] = {"p", "q", "r"}; for (int i = 0; i < n; ++i) r.push_back(named ? nm[i] : std::to_string(i)); return r; }
Doc base(bool named, int wk, int n) { Doc d; d.p.named = named; d.p.wk = wk; d.p.states = names(named, n); return d; }
J cs(const Pda& p, int i) { return p.named ? S(p.states[i]) : N(i); }

void pda_docs() { for (int named = 0; named < 2; ++named) for (int wk = 0; wk < 5; ++wk) {
    auto rs = all_rules(names(named, 2), {"A", "B"}, wk);
    Doc d = base(named, wk, 2); d.a[0].acc = {N(9)}; d.a[0].e = {{cs(d.p, 0), "A", N(9)}}; d.a[1].acc = {cs(d.p, 1)};
    for (int repr = 0; repr < 16; ++repr) run(d, true);
    for (size_t x = 0; x < rs.size(); ++x) { d.p.rules = {rs[x]}; for (int repr = 0; repr < 16; ++repr) { d.repr = repr; run(d, true); }
        for (size_t y = 0; y < rs.size(); ++y) { if (!mc::thorough() && wk && rs[x].w != rs[y].w && x % 3 != y % 3) continue; d.p.rules = {rs[x], rs[y]}; d.repr = (x + y) % 16; run(d, false); } }
} }
void pda_three() { for (int named = 0; named < 2; ++named) { // three states, up to three rules that differ in one thing only
    auto all = all_rules(names(named, 3), {"A", "B"}, 0); std::vector<Rule> rs; for (size_t i = 0; i < all.size(); ++i) if (i % (mc::thorough() ? 2 : 5) == 0) rs.push_back(all[i]);
    Doc d = base(named, 0, 3);
    for (size_t x = 0; x < rs.size(); ++x) for (size_t y = x; y < rs.size(); ++y) for (size_t z = y; z < rs.size(); ++z) { d.p.rules = {rs[z], rs[x], rs[y]}; d.repr = (x + y + z) % 16; run(d, false); }
} }
void aut_docs() { for (int named = 0; named < 2; ++named) for (int wk = 0; wk < 5; wk += mc::thorough() ? 1 : 2) {
    Doc d = base(named, wk, 3); Rule r; r.from = d.p.states[0]; r.to = d.p.states[0]; r.pre = "A"; if (wk == 2) r.w = {1}; if (wk == 4) r.w = {1, 2}; if (wk == 1) r.w = {3}; d.p.rules = {r};
    std::vector<J> st; if (named) st = {S("p"), S("r"), S("x"), S("y"), N(3), N(0)}; else st = {N(0), N(2), N(3), N(7), N(4)}; // p/r, 0/2: control states (the last one without rules); the others are extra states
    std::vector<AE> es; for (auto& f : st) for (auto& t : st) for (const char* l : {"A", "C", ""}) es.push_back({f, l, t});
    std::vector<std::vector<J>> accs; for (size_t i = 0; i < st.size(); ++i) { accs.push_back({st[i]}); for (size_t k = 0; k < i; ++k) accs.push_back({st[i], st[k]}); } accs.push_back({});
    for (size_t k = 0; k < accs.size(); ++k) { d.a[0].acc = accs[k]; d.a[1].acc = accs[accs.size() - 1 - k]; d.a[0].e = {}; d.a[1].e = {}; run(d, true);
        for (size_t x = 0; x < es.size(); ++x) { d.a[0].e = {es[x]}; d.a[1].e = {}; d.repr = (x & 1) * 4; run(d, true);
            for (size_t y = 0; y < es.size(); ++y) { if ((!mc::thorough() && (x + y + k) % 4)) continue; d.a[0].e = {es[x], es[y]}; d.a[1].e = {es[y], es[x]}; d.repr = ((x + y) & 1) * 4; run(d, true); } } }
    // three edges in a row over every choice of states
    d.a[1] = {}; d.a[1].acc = {st.back()};
    for (auto& a : st) for (auto& b : st) for (auto& c : st) for (auto& e : st) for (int k = 0; k < 2; ++k) { d.a[0].acc = k ? std::vector<J>{e} : std::vector<J>{e, b}; d.a[0].e = {{a, "A", b}, {b, k ? "" : "B", c}, {c, "A", e}}; d.a[1].e = {{c, "B", e}, {a, "", c}}; run(d, true); }
} }
void odd_names() { // names with characters that need escaping, names that look like numbers or keys
    std::vector<std::string> nm = {"", "0", "1", "p q", "\"", "\\", "\n", "\xc3\xa9", "*", "pda", "states", "to", "null", "[", "a/b"};
    std::vector<std::string> lb = {"0", "1", "a b", "\"", "\\", "\t", "\xc3\xa9", "states", "pop", "null", "]"};
    for (auto& s : nm) for (auto& t : nm) for (auto& l : lb) for (int op = 0; op < 4; ++op) { Doc d; d.p.named = true; d.p.wk = op % 3; d.p.states = {s}; d.p.add(t); Rule r; r.from = s; r.to = t; r.pre = l; if (op == 1) r.word = {l}; if (op == 2) r.word = {l, PRE}; if (op == 3) { r.pre = "*"; r.wild = true; r.word = {PRE}; } if (d.p.wk) r.w = {2}; d.p.rules = {r}; d.a[0].acc = {S("extra"), N(0)}; d.a[0].e = {{S(s), l, S("extra")}, {S(t), "", N(0)}, {N(0), l, N(1)}}; d.a[1].acc = {S(t)}; run(d, true); }
}
// systems and automata built through the programming interface, with other label and state types
template<typename P> std::string name_of(const P& p, size_t i) { return jobs::sname(p, i); }
template<typename W> typename W::type mkw(int k) { if constexpr (!W::is_weight) return {}; else if constexpr (W::is_vector) return typename W::type{}; else return (typename W::type)k; }
template<typename P> void api_one(const std::vector<std::tuple<int, int, int, int, int, bool>>& rules /*from,to,op,oplabel,pre(-1 wild),*/, int extra_states, int autk) {
    using Wt = typename P::weight; using T = decltype(std::declval<P>().get_symbol(0)); using St = typename P::expose_state_t;
    P p; auto lab = [](int i) { if constexpr (std::is_same_v<T, std::string>) return std::string(1, (char)('A' + i)); else return (T)('A' + i); };
    for (int i = 0; i < 2; ++i) p.insert_label(lab(1 - i));
    auto st = [&](int i) -> size_t { if constexpr (std::is_same_v<St, std::string>) return p.insert_state("s" + std::to_string(2 - i)); else if constexpr (P::expose_skip_state_mapping) return p.insert_state(i); else return p.insert_state((St)(10 - i)); };
    for (auto& [f, t, op, ol, pre, w] : rules) { std::vector<T> pv; if (pre == 2) pv = {lab(0), lab(1)}; else if (pre >= 0) pv = {lab(pre)}; size_t a = st(f), b = st(t);
        if constexpr (P::has_weight) { typename Wt::type x{}; if constexpr (std::is_integral_v<typename Wt::type>) x = w ? 3 : 0; else { x = Wt::zero(); if constexpr (requires { x.emplace_back(1); }) { if (w) x.emplace_back(3); } else { x[0] = w; } } p.add_rule(a, b, (op_t)op, lab(ol), pre < 0, pv, x); }
        else p.add_rule(a, b, (op_t)op, lab(ol), pre < 0, pv); }
    for (int i = 0; i < extra_states; ++i) st(2 + i);
    if (p.states().empty()) st(0);
    Pda want = [&] { Pda r; r.named = !P::expose_skip_state_mapping; r.states.clear(); for (size_t i = 0; i < p.states().size(); ++i) r.states.push_back(name_of(p, i)); for (auto& [f, t, op, ol, pre, w] : rules) { auto sn = [&](int i) { return name_of(p, st(i)); }; auto one = [&](std::string l, bool wild) { Rule x; x.from = sn(f); x.to = sn(t); x.pre = l; x.wild = wild; std::string o(1, (char)('A' + ol)); if (op == SWAP) x.word = {o}; if (op == NOOP) x.word = {PRE}; if (op == PUSH) x.word = {o, PRE};
            if constexpr (P::has_weight) { if constexpr (std::is_integral_v<typename Wt::type>) x.w = {w ? 3 : 0}; else if constexpr (requires(typename Wt::type v) { v.emplace_back(1); }) { if (w) x.w = {3}; } else x.w = {w, 0}; } r.rules.push_back(x); };
            if (pre < 0) one("*", true); else if (pre == 2) { one("A", false); one("B", false); } else one(std::string(1, (char)('A' + pre)), false); } return r; }();
    if constexpr (!P::has_weight) want.wk = 0; else if constexpr (!std::is_integral_v<typename Wt::type>) want.wk = Wt::is_signed ? 4 : 3; else want.wk = Wt::is_signed ? 2 : 1;
    if (p.states().size() > (size_t)0) { std::string js = p.to_json().dump(); Pda got; auto r = jread::pda(js, false, want.wk, want.named, got); if (!r.ok) mc::fail("cannot be read back: " + r.err + "\n" + js); jobs::same_pda(want, got, true); mc::count("nontrivial"); mc::count("states"); }
    if (autk >= 0) if constexpr (requires { typename pda_to_pautomaton_t<P>; }) {
        using A = pda_to_pautomaton_t<P>; A a = autk == 0 ? A(p, (size_t)0, std::vector<T>{}) : autk == 1 ? A(p, (size_t)0, std::vector<T>{lab(0)}) : autk == 2 ? A(p, (size_t)(p.states().size() - 1), std::vector<T>{lab(0), lab(1), lab(0)}) : A(p, std::vector<size_t>{}, true);
        if (autk == 3) { auto x = a.add_state(false, true); auto y = a.add_state(false, false); a.add_edge(0, y, 0); a.add_epsilon_edge(0, x); a.add_edge(y, x, 1); a.add_edge(y, y, 0); }
        Aut w = [&] { Aut r; size_t n = p.states().size(); auto nm = [&](size_t i) { return i < n ? "c:" + name_of(p, i) : "i:" + std::to_string(i); }; for (auto& s : a.states()) { if (s->_accepting) r.accepting.insert(nm(s->_id)); for (auto& [to, ls] : s->_edges) for (auto& [l, tw] : ls) { std::string ln; if (l != A::epsilon) ln = jobs::lname(p.get_symbol(l)); r.edges.insert({nm(s->_id), ln, nm(to)}); } } return r; }();
        std::string js = a.to_json().dump(); Pda gp; Aut g; auto r = jread::aut(p.to_json().dump(), js, false, want.wk, want.named, false, gp, g); if (!r.ok) mc::fail("the automaton cannot be read back: " + r.err + "\n" + js);
        jobs::same_aut(w, g, want.states, nosig, "api");
        A b(p, std::vector<size_t>{p.states().size() - 1}, true); PAutomatonProduct prod(p, std::move(a), std::move(b)); js = prod.to_json().dump(); Inst gi; r = jread::inst(js, false, false, gi); if (!r.ok) mc::fail("the instance cannot be read back: " + r.err + "\n" + js); jobs::same_pda(want, gi.pda, true); jobs::same_aut(w, gi.ini, want.states, nosig, "initial"); Aut w2; w2.accepting = {"c:" + want.states.back()}; jobs::same_aut(w2, gi.fin, want.states, nosig, "final");
    }
}
void api() {
    std::vector<std::tuple<int, int, int, int, int, bool>> rs; for (int f = 0; f < 2; ++f) for (int t = 0; t < 2; ++t) for (int op : {PUSH, POP, SWAP, NOOP}) for (int ol = 0; ol < ((op == POP || op == NOOP) ? 1 : 2); ++ol) for (int pre = -1; pre < 3; ++pre) for (int w = 0; w < 2; ++w) rs.push_back({f, t, op, ol, pre, (bool)w});
    auto each = [&](const std::vector<std::tuple<int, int, int, int, int, bool>>& r, int ex, int ak) { mc::run_case([&] { std::string s = "rules (from,to,op,label,pre,weight):"; for (auto& [a, b, c, d, e, f] : r) s += " (" + std::to_string(a) + "," + std::to_string(b) + "," + std::to_string(c) + "," + std::to_string(d) + "," + std::to_string(e) + "," + std::to_string(f) + ")"; return s + " extra states " + std::to_string(ex) + " automaton " + std::to_string(ak); }, [&] {
        api_one<PDA<std::string, weight<void>, fut::type::vector, std::string>>(r, ex, ak); api_one<PDA<char, weight<uint32_t>, fut::type::vector, size_t>>(r, ex, ak); api_one<PDA<char, weight<int32_t>, fut::type::vector, size_t, false>>(r, ex, ak); api_one<PDA<std::string, weight<std::vector<uint32_t>>, fut::type::vector, size_t>>(r, ex, ak); api_one<PDA<char, weight<std::array<int32_t, 2>>, fut::type::vector, size_t>>(r, ex, ak); api_one<PDA<char, weight<void>, fut::type::hash, size_t>>(r, ex, -1); }); };
    for (int ex = 0; ex < 3; ++ex) for (int ak = 0; ak < 4; ++ak) each({}, ex, ak);
    for (auto& r : rs) for (int ex = 0; ex < 2; ++ex) for (int ak = 0; ak < 4; ++ak) each({r}, ex, ak);
    for (size_t x = 0; x < rs.size(); ++x) for (size_t y = x + 1; y < rs.size(); ++y) if (mc::thorough() || (x + y) % 3 == 0) each({rs[x], rs[y]}, (x + y) % 2, (int)((x + y) / 3 % 4));
}
// large documents: read, from msgpack, written and read back
void large_docs() {
    std::vector<size_t> ns; for (size_t n = 1; n <= (mc::thorough() ? 70 : 20); ++n) ns.push_back(n); for (size_t n : {31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 254, 255, 256, 257, 300}) ns.push_back(n); if (mc::thorough()) for (size_t n : {511, 512, 513, 1000}) ns.push_back(n);
    for (int f = 0; f < LARGE; ++f) for (size_t n : ns) for (int named = 0; named < 2; ++named) for (int wk = 0; wk < 5; ++wk) { if (n > 70 && wk != (int)(n + f) % 5) continue; for (int repr : {0, 5, 10, 15}) { if (n > 33 && repr != (int)(n % 4) * 5) continue;
        mc::run_case([&] { return std::string(large_name(f)) + ", " + std::to_string(n) + (named ? ", named" : ", indexed") + ", weights " + std::to_string(wk) + ", form " + std::to_string(repr); }, [&] {
            Doc d = jdoc::large(f, n, named, wk); d.repr = repr; J j = inst_json(d); Inst want; if (read_inst_doc(j, want) == BAD) throw std::logic_error("generator made a malformed document: " + text(j)); std::string t = text(j); mc::count("states"); mc::count("nontrivial"); mc::count("transitions", want.pda.rules.size() + want.ini.edges.size());
            std::string c1 = canon(want.ini, want.pda.states), c2 = canon(want.fin, want.pda.states);
            auto eq = [&](const Pda& p, const char* when) { try { jobs::same_pda(want.pda, p, true); } catch (mc::Violation& v) { mc::fail(std::string(when) + ": " + v.msg.substr(0, 600)); } };
            auto eqa = [&](const Aut& g, int k, const char* when) { auto c = canon(g, want.pda.states); if (c != (k ? c2 : c1)) mc::fail(std::string(when) + ": the automaton differs; expected\n" + (k ? c2 : c1).substr(0, 600) + "\ngot\n" + c.substr(0, 600)); };
            auto eqi = [&](const Inst& g, const char* when) { eq(g.pda, when); eqa(g.ini, 0, when); eqa(g.fin, 1, when); };
            { Inst g; auto r = jread::inst(t, false, false, g); if (!r.ok) mc::fail("rejected: " + r.err); eqi(g, "read"); }
            { Inst g; auto r = jread::inst(jread::msgpack(t), true, true, g); if (!r.ok) mc::fail("msgpack rejected: " + r.err); eqi(g, "read from msgpack"); }
            std::string wi, wp, w1, w2; auto r = jread::rewrite(t, wi, wp, w1, w2); if (!r.ok) mc::fail("rejected: " + r.err);
            { Inst g; r = jread::inst(wi, false, true, g); if (!r.ok) mc::fail("the instance as written cannot be read back: " + r.err); eqi(g, "written and read back"); }
            { Pda g; r = jread::pda(wp, false, wk, named, g); if (!r.ok) mc::fail("the system as written cannot be read back: " + r.err); eq(g, "system written and read back"); }
            for (int k = 0; k < 2; ++k) { Pda p; Aut g; r = jread::aut(wp, k ? w2 : w1, false, wk, named, k, p, g); if (!r.ok) mc::fail("the automaton as written cannot be read back: " + r.err); eqa(g, k, "automaton written and read back"); }
        }); } }
}
// the legacy automaton format: "states" lists, for every state, its edges; an object keyed by names, or an array for indexed states
template<typename P, TraceInfoType ti> void legacy_one(int n, const std::vector<std::string>& ctl, const std::vector<std::string>& extra, const std::vector<std::tuple<int, int, int>>& edges, int accmask, int style) {
    P p; for (auto& c : ctl) { if constexpr (std::is_same_v<typename P::expose_state_t, std::string>) p.insert_state(c); else p.insert_state(std::stoul(c)); } p.insert_label("B"); p.insert_label("A");
    std::vector<std::string> all = ctl; all.insert(all.end(), extra.begin(), extra.end()); const char* L[] = {"A", "C", ""};
    Aut want; std::map<std::string, J> st; std::vector<J> arr; auto nm = [&](int i) { return (i < n ? "c:" : "x:") + all[i]; };
    for (int i = 0; i < (int)all.size(); ++i) { std::vector<J> es; for (auto& [f, l, t] : edges) if (f == i) { es.push_back(J::obj({{"label", S(L[l])}, {"to", P::expose_skip_state_mapping ? N(t) : S(all[t].c_str())}})); want.edges.insert({nm(f), L[l], nm(t)}); }
        std::vector<std::pair<std::string, J>> o{{"edges", J::arr(es)}}; if (i < n) o.push_back({"initial", J::boolean(true)}); else if (style & 1) o.push_back({"initial", J::boolean(false)});
        if (i < 20 && (accmask >> i & 1)) { o.push_back({"accepting", J::boolean(true)}); want.accepting.insert(nm(i)); } else if (style & 1) o.insert(o.begin(), {"accepting", J::boolean(false)});
        J x = J::obj({}); for (auto& [k, v] : o) { x.k.push_back(k); x.a.push_back(v); } arr.push_back(x); }
    J states; if (P::expose_skip_state_mapping) states = J::arr(arr); else { states = J::obj({}); std::vector<int> ord; for (int i = 0; i < (int)all.size(); ++i) ord.push_back(style & 2 ? (int)all.size() - 1 - i : i); for (int i : ord) { states.k.push_back(all[i]); states.a.push_back(arr[i]); } }
    const char* key = style & 4 ? "other" : "P-automaton"; J doc = J::obj({{key, J::obj({{"states", states}})}});
    std::istringstream in(text(doc)); mc::count("impl_runs"); auto a = parsing::PAutomatonJsonParser_Old::parse<ti>(in, p, key); auto got = jobs::aut(a, p); mc::count("nontrivial", !edges.empty());
    if (a.states().size() != all.size()) mc::fail("another number of states than listed");
    std::set<std::string> sg{"A", "C"}; auto x = jref::configs(want, ctl, sg, 3), y = jref::configs(got, ctl, sg, 3); mc::count("states", x.size()); if (x != y || want.edges.size() != got.edges.size() || want.accepting.size() != got.accepting.size()) mc::fail("the automaton read differs from the one written in " + text(doc));
}
void legacy() {
    auto go = [&](int n, int m, const std::vector<std::tuple<int, int, int>>& e, int acc, int style, int wt) { mc::run_case([&] { std::string s = "legacy automaton, " + std::to_string(n) + " control and " + std::to_string(m) + " extra states, edges (from,label,to):"; for (auto& [f, l, t] : e) s += " (" + std::to_string(f) + "," + std::to_string(l) + "," + std::to_string(t) + ")"; return s + " accepting mask " + std::to_string(acc) + " style " + std::to_string(style) + " weight " + std::to_string(wt); }, [&] {
        std::vector<std::string> ix, nx, cn(n), xn(m), cm(n), xm(m), ci(n), xi(m); for (int i = 0; i < n; ++i) { cn[i] = std::string(1, "qpr"[i]); cm[i] = std::to_string(i ? 3 + i : 12); ci[i] = std::to_string(i); } for (int i = 0; i < m; ++i) { xn[i] = i % 2 ? "a" + std::to_string(i) : "x" + std::to_string(9 - i); xm[i] = std::to_string(i == 0 ? 5000 : i < 3 ? i : 100 + i); xi[i] = std::to_string(n + i); }
        if (wt) { legacy_one<PDA<std::string, weight<uint32_t>, fut::type::vector, std::string>, TraceInfoType::Single>(n, cn, xn, e, acc, style); legacy_one<PDA<std::string, weight<std::vector<int32_t>>>, TraceInfoType::Pair>(n, ci, xi, e, acc, style); }
        else { legacy_one<PDA<std::string, weight<void>, fut::type::vector, std::string>, TraceInfoType::Pair>(n, cn, xn, e, acc, style); legacy_one<PDA<std::string>, TraceInfoType::Single>(n, ci, xi, e, acc, style); legacy_one<PDA<std::string, weight<void>, fut::type::vector, size_t, false>, TraceInfoType::Single>(n, cm, xm, e, acc, style); } }); };
    for (int n = 1; n <= 2; ++n) for (int m = 0; m <= 3; ++m) { int k = n + m; std::vector<std::tuple<int, int, int>> es; for (int f = 0; f < k; ++f) for (int t = 0; t < k; ++t) for (int l = 0; l < 3; ++l) es.push_back({f, l, t});
        for (int acc = 0; acc < 1 << k; ++acc) { for (int st = 0; st < 8; ++st) go(n, m, {}, acc, st, st & 1); for (size_t x = 0; x < es.size(); ++x) { for (int st : {0, 3}) go(n, m, {es[x]}, acc, st, (int)(x + acc) % 2); for (size_t y = x + 1; y < es.size(); ++y) if (mc::thorough() || (x * 5 + y * 3 + acc) % (k > 3 ? 29 : 3) == 0) go(n, m, {es[x], es[y]}, acc, (int)(x + y) % 8, (int)(x + acc) % 2); } }
        for (int a = 0; a < k; ++a) for (int b = 0; b < k; ++b) for (int c = 0; c < k; ++c) for (int d = 0; d < k; ++d) for (int l = 0; l < 3; ++l) go(n, m, {{a, l, b}, {b, (l + 1) % 3, c}, {c, 0, d}}, 1 << d | (l == 1 ? 1 : 0), (a + b + c + d) % 8, l == 2); }
    for (int m : {10, 40, 130}) for (int st = 0; st < 8; ++st) { std::vector<std::tuple<int, int, int>> up, dn; for (int i = 0; i <= m; ++i) { up.push_back({i, i % 2, i + 1}); dn.push_back({i ? i : 0, i % 3, i ? i - 1 : m}); } go(1, m + 1, up, 1 << 2 | 1 << 9, st, st & 1); go(1, m + 1, dn, 1 << 8, st, 0); }
}
}
int main(int argc, char** argv) {
    mc::Check c; c.property = "C16";
    c.rule = "every document: the rules, states, weights and automata read are exactly those written in it, also from msgpack, and again after to_json; every system/automaton built by the API: the same after to_json and reading";
    c.assumptions = {"'*' and the empty string are not labels", "rules are compared per matched label (a no-op rule with a label equals a swap to that label)", "automata are compared by the configurations they accept up to stack height 3 and their number of edges", "ptrie replaced by an equivalent std container", "the JSON library (nlohmann) is trusted"};
    c.bounds_quick = "named/indexed x 5 weight types: all systems with <=2 rules over 2 states, 2 labels and wildcard, extreme weights; 3 rules over 3 states (every fifth rule); automata with <=3 edges over 2 control and 3-4 extra states (named, numbered, mixed), epsilon and new labels; odd names; API-built systems of <=2 rules for 6 label/state/weight/container types; 14 families of documents with up to 300 states, labels, rules, edges, weight components or characters in a name; legacy automaton documents (named, indexed, numbered states): <=2 control and <=3 extra states with <=2 edges, chains of 3, up to 131 extra states";
    c.bounds_thorough = "all pairs of rules with all weights, all pairs of edges, all weight types for automata; families up to 1000";
    c.suites = {{"pda_docs", pda_docs}, {"pda_three", pda_three}, {"aut_docs", aut_docs}, {"odd_names", odd_names}, {"api", api}, {"large", large_docs}, {"legacy", legacy}};
    return mc::main_(argc, argv, c);
}
