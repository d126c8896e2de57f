// C20: systems built from successor functions, and the mapping between values and identifiers.
#include "mc.h"
#include "fam.h"
#include "regex.h"
#include <pdaaal/PDAFactory.h>
#include <pdaaal/Solver.h>
#include <pdaaal/utils/ptrie_interface.h>
using namespace ref; using namespace pdaaal;
namespace {
enum class Big : uint64_t {};
struct Packed { uint16_t a; uint16_t b; bool operator==(const Packed& o) const { return a == o.a && b == o.b; } };
// ---- successor functions
template<typename T> struct Lab; template<> struct Lab<std::string> { static std::string of(int l) { return l < 0 ? std::string(".") : std::string(1, lname(l)); } }; template<> struct Lab<int> { static int of(int l) { return l < 0 ? -7 : l * 100 - 50; } }; template<> struct Lab<char> { static char of(int l) { return l < 0 ? '*' : lname(l); } };
struct Fn { int n = 0, labels = 0; std::vector<std::vector<Rule>> rules; std::vector<size_t> init; std::vector<char> acc; std::vector<size_t> names; // names: the number under which each state is known
    std::string str() const { std::ostringstream o; o << "labels=" << labels << " initial={"; for (auto s : init) o << names[s] << ","; o << "} accepting={"; for (int s = 0; s < n; ++s) if (acc[s]) o << names[s] << ","; o << "}"; for (int s = 0; s < n; ++s) { o << "\n  " << names[s] << ":"; for (auto& r : rules[s]) { Rule q = r; q.from = names[r.from]; q.to = names[r.to]; o << " [" << ref::str(q) << "]"; } } return o.str(); }
    std::vector<char> explored() const { std::vector<char> s(n, 0); std::vector<size_t> w = init; for (auto x : w) s[x] = 1; while (!w.empty()) { auto x = w.back(); w.pop_back(); for (auto& r : rules[x]) if (!s[r.to]) { s[r.to] = 1; w.push_back(r.to); } } return s; }
    Sys sys() const { auto e = explored(); Sys s; s.n = n; s.labels = labels; for (int x = 0; x < n; ++x) if (e[x]) for (auto& r : rules[x]) s.rules.push_back(r); return s; } };
op_t op(ref::Op o) { return o == ref::PUSH ? pdaaal::PUSH : o == ref::POP ? pdaaal::POP : o == ref::SWAP ? pdaaal::SWAP : pdaaal::NOOP; }
template<typename T, typename W> struct Dfs : public DFS_PDAFactory<T, W> {
    using base = DFS_PDAFactory<T, W>; using rule_t = typename base::rule_t; const Fn& f; std::vector<size_t> ini; std::unordered_map<size_t, int> index;
    static std::unordered_set<T> all(int n) { std::unordered_set<T> r; for (int l = 0; l < n; ++l) r.insert(Lab<T>::of(l)); return r; }
    explicit Dfs(const Fn& f) : base(all(f.labels), Lab<T>::of(-1)), f(f) { for (auto s : f.init) ini.push_back(f.names[s]); for (int i = 0; i < f.n; ++i) index[f.names[i]] = i; }
    int at(size_t s) const { auto i = index.find(s); if (i == index.end()) mc::fail("asked for a state that does not exist"); return i->second; }
    rule_t conv(const Rule& r) const { rule_t x; x._from = f.names[r.from]; x._to = f.names[r.to]; x._pre = Lab<T>::of(r.wild ? -1 : r.pre[0]); x._op = op(r.op); if (r.oplabel >= 0) x._op_label = Lab<T>::of(r.oplabel); if constexpr (W::is_weight) x._weight = (typename W::type)r.w[0]; return x; }
    const std::vector<size_t>& initial() override { return ini; }
    bool accepting(size_t s) override { return f.acc[at(s)]; }
    std::vector<rule_t> rules(size_t s) override { mc::count("transitions"); std::vector<rule_t> r; for (auto& x : f.rules[at(s)]) r.push_back(conv(x)); return r; }
};
template<typename T, typename W> struct Direct : public PDAFactory<T, W> { // all rules at once
    using base = PDAFactory<T, W>; using rule_t = typename base::rule_t; Dfs<T, W> d; std::vector<size_t> acc;
    explicit Direct(const Fn& f) : base(Dfs<T, W>::all(f.labels)), d(f) { for (int s = 0; s < f.n; ++s) if (f.acc[s]) acc.push_back(f.names[s]); std::sort(acc.begin(), acc.end()); }
    void build_pda() override { for (auto& rs : d.f.rules) for (auto& r : rs) { const auto x = d.conv(r); if (r.wild) this->add_wildcard_rule(x); else this->add_rule(x); } }
    const std::vector<size_t>& initial() override { return d.ini; }
    const std::vector<size_t>& accepting() override { return acc; }
};
using Key = std::tuple<size_t, int, size_t, int, int, long>; // from, matched label, to, op, label, weight
template<typename W> std::multiset<Key> expect(const Sys& s, const Fn& f) { std::set<Key> r; for (auto& x : s.rules) for (int l = 0; l < s.labels; ++l) if (x.matches(l)) { int o = x.op, ol = x.oplabel; r.insert({f.names[x.from], l, f.names[x.to], o, ol, W::is_weight ? x.w[0] : 0}); } return {r.begin(), r.end()}; }
template<typename P, typename T> int lab(const P&, int labels, const T& v) { for (int l = 0; l < labels; ++l) if (Lab<T>::of(l) == v) return l; return -2; }
template<typename T, typename W, typename P> std::multiset<Key> got(const P& pda, const Fn& f) { std::multiset<Key> r; for (auto& x : pda.all_rules()) { int o = x._op == pdaaal::PUSH ? ref::PUSH : x._op == pdaaal::POP ? ref::POP : x._op == pdaaal::SWAP ? ref::SWAP : ref::NOOP; long w = 0; if constexpr (W::is_weight) w = (long)x._weight; r.insert({x._from, lab(pda, f.labels, x._pre), x._to, o, (x._op == pdaaal::PUSH || x._op == pdaaal::SWAP) ? lab(pda, f.labels, x._op_label) : -1, w}); } return r; }
template<typename T> NFA<T> nfa(const std::string& t) { NFA<T> r(true); bool first = true; for (size_t i = 0; i < t.size(); ++i) { NFA<T> n(t[i] == '.' ? std::unordered_set<T>{} : std::unordered_set<T>{Lab<T>::of(t[i] - 'a')}, t[i] == '.'); if (i + 1 < t.size() && t[i + 1] == '*') { n.star_extend(); ++i; } if (first) r = std::move(n); else r.concat(std::move(n)); first = false; } r.compile(); return r; }
Aut aut(const std::string& t, int n, int labels, const std::vector<int>& st) { std::vector<std::pair<int, bool>> it; for (size_t i = 0; i < t.size(); ++i) { int s = t[i] == '.' ? -1 : t[i] - 'a'; bool q = i + 1 < t.size() && t[i + 1] == '*'; if (q) ++i; it.push_back({s, q}); }
    Aut a(n); int k = it.size(); std::vector<int> pos; for (int i = 0; i < k; ++i) { bool acc = true; for (int j = i + 1; j < k; ++j) acc = acc && it[j].second; pos.push_back(a.add(acc)); }
    auto go = [&](int from, int i) { for (int l = 0; l < labels; ++l) if (it[i].first < 0 || it[i].first == l) a.edges.push_back({from, l, pos[i]}); };
    for (int p : st) { bool all = true; for (int i = 0; i < k; ++i) { go(p, i); if (!it[i].second) { all = false; break; } } if (all) a.acc[p] = 1; }
    for (int i = 0; i < k; ++i) { if (it[i].second) go(pos[i], i); for (int j = i + 1; j < k; ++j) { go(pos[i], j); if (!it[j].second) break; } }
    return a; }
template<typename T, typename W, typename F> void compiled(F&& fac, const Fn& f, const Sys& want, const std::string& ih, const std::string& fh, const char* how, int eng, int moved, int known = -1) {
    std::vector<int> in(f.init.begin(), f.init.end()), fin; for (int s = 0; s < f.n; ++s) if (f.acc[s]) fin.push_back(s);
    Aut ia = aut(ih, f.n, f.labels, in), fa = aut(fh, f.n, f.labels, fin); bool reach = known < 0 || f.n <= 22 ? reachable(want, ia, fa) : known; if (known >= 0) mc::require(reach == (bool)known, "harness: the known answer is wrong"); if (reach) mc::count("nontrivial");
    auto x = nfa<T>(ih), y = nfa<T>(fh); mc::count("impl_runs");
    auto inst0 = fac.compile(x, y); using I = decltype(inst0); std::optional<I> inst1; if (moved) inst1.emplace(std::move(inst0)); I& inst = moved ? *inst1 : inst0;
    auto g = got<T, W>(inst->pda(), f), w = expect<W>(want, f);
    if (g != w) { for (auto& k : w) if (!g.count(k)) mc::fail(std::string(how) + ": a rule from state " + std::to_string(std::get<0>(k)) + " to " + std::to_string(std::get<2>(k)) + " is missing"); mc::fail(std::string(how) + ": the system has a rule that was not explored, or has it twice"); }
    bool v = eng == 0 ? Solver::post_star_accepts(*inst) : eng == 1 ? Solver::pre_star_accepts<Trace_Type::None>(*inst) : Solver::dual_search_accepts<Trace_Type::None>(*inst);
    if (v != reach) mc::fail(std::string(how) + ": answers " + (v ? "yes" : "no"));
    if (v && eng == 0) { // and the trace is one of the function
        auto t = Solver::get_trace<Trace_Type::Any>(*inst); mc::require(!t.empty(), "no trace"); std::vector<Conf> cs; for (auto& k : t) { int p = -1; for (int i = 0; i < f.n; ++i) if (f.names[i] == k._pdastate) p = i; mc::require(p >= 0, "a state of the trace does not exist"); Conf c; c.p = p; for (auto& l : k._stack) c.s.push_back(lab(inst->pda(), f.labels, l)); cs.push_back(c); }
        mc::require(accepts(ia, cs.front()) && accepts(fa, cs.back()), "the trace does not connect initial and final configurations");
        for (size_t i = 0; i + 1 < cs.size(); ++i) { bool ok = false; for (auto& r : want.rules) if (auto d = apply(r, cs[i])) ok = ok || *d == cs[i + 1]; mc::require(ok, "a step of the trace is not by a rule"); }
    }
}
template<typename T, typename W> void fn_case(const Fn& f, const std::string& ih, const std::string& fh, int known = -1) {
    auto s = f.sys(); mc::count("states", f.n);
    for (int eng = 0; eng < 3; ++eng) { Dfs<T, W> d(f); compiled<T, W>(d, f, s, ih, fh, "depth-first factory", eng, eng == 1, known); }
    Sys all = s; all.rules.clear(); for (auto& rs : f.rules) for (auto& r : rs) all.rules.push_back(r);
    Direct<T, W> p(f); compiled<T, W>(p, f, all, ih, fh, "plain factory", 2, 0, known);
}
template<typename F> void lists(const std::vector<Rule>& menu, int len, F&& fn) { std::vector<Rule> cur; std::function<void()> rec = [&] { fn(cur); if ((int)cur.size() == len) return; for (auto& r : menu) { cur.push_back(r); rec(); cur.pop_back(); } }; rec(); }
Rule R(int f, int l, int t, ref::Op o, int ol = -1, long w = 0) { Rule r; r.from = f; r.to = t; r.op = o; r.oplabel = ol; r.w = {w}; if (l < 0) r.wild = true; else r.pre = {l}; return r; }
template<typename T, typename W> void family(int n, int len, const std::vector<std::function<Rule(int, int)>>& kinds, const std::vector<std::vector<size_t>>& inits, const std::vector<std::vector<char>>& accs, const std::vector<std::vector<size_t>>& names, const std::vector<std::pair<std::string, std::string>>& hs) {
    std::vector<std::vector<std::vector<Rule>>> per(n); for (int s = 0; s < n; ++s) { std::vector<Rule> menu; for (int t = 0; t < n; ++t) for (auto& k : kinds) menu.push_back(k(s, t)); lists(menu, len, [&](auto& l) { per[s].push_back(l); }); }
    Fn f; f.n = n; f.labels = 2; f.rules.resize(n); std::function<void(int)> rec = [&](int s) { if (s == n) { for (auto& i : inits) for (auto& a : accs) for (auto& nm : names) for (auto& [x, y] : hs) { f.init = i; f.acc = a; f.names = nm; mc::run_case([&] { return f.str() + "\ninitial header <" + x + "> final header <" + y + ">"; }, [&] { fn_case<T, W>(f, x, y); }); } return; } for (auto& l : per[s]) { f.rules[s] = l; rec(s + 1); } }; rec(0);
}
// ---- parametric successor functions with many states, rules, initial or accepting states
void large() {
    std::vector<int> sizes; for (int i = 1; i <= (mc::thorough() ? 70 : 20); ++i) sizes.push_back(i); for (int i : {31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257}) if (i > sizes.back()) sizes.push_back(i); if (mc::thorough()) sizes.push_back(513);
    for (int n : sizes) {
        auto run = [&](const char* name, const Fn& f, const std::string& ih, const std::string& fh, bool known) {
            for (int how = 0; how < 4; ++how) { Fn g = f; g.names.resize(g.n); for (int i = 0; i < g.n; ++i) g.names[i] = how == 0 ? i : how == 1 ? g.n - 1 - i : how == 2 ? 3 * i + 1 : 70000 + 256 * i; // renumbered; initial() has to be sorted
                std::sort(g.init.begin(), g.init.end(), [&](size_t a, size_t b) { return g.names[a] < g.names[b]; }); if (how == 3 && n > 33) continue;
                mc::run_case([&] { return std::string(name) + "(" + std::to_string(n) + "), numbering " + std::to_string(how) + ", headers <" + ih + "> <" + fh + ">"; }, [&] { fn_case<std::string, weight<void>>(g, ih, fh, known); }); } };
        auto mk = [&](int k) { Fn f; f.n = k; f.labels = 2; f.rules.resize(k); f.acc.assign(k, 0); return f; };
        { auto f = mk(n + 1); f.init = {0}; for (int i = 0; i < n; ++i) f.rules[i] = {R(i, i % 2 ? 1 : 0, i + 1, ref::SWAP, i % 2 ? 0 : 1)}; f.acc[n] = 1; run("chain of swaps", f, "a", n % 2 ? "b" : "a", true); run("chain of swaps", f, "a", n % 2 ? "a" : "b", false); }
        { auto f = mk(n + 1); f.init = {0}; for (int i = 0; i < n; ++i) f.rules[i] = {R(i, -1, i + 1, ref::PUSH, 1)}; f.acc[n] = 1; run("chain of wildcard pushes", f, "a", "bb*a", true); f.rules[n / 2] = {R(n / 2, 1, n / 2 + 1, ref::PUSH, 1)}; run("chain of pushes, one of them on b", f, "a", "bb*a", n > 1); }
        { auto f = mk(n + 1); f.init = {0}; for (int i = 0; i < n; ++i) f.rules[i] = {R(i, -1, i + 1, ref::POP)}; f.acc[n] = 1; run("chain of wildcard pops", f, "a*", "", true); run("chain of wildcard pops", f, "a*b", "ab", true); }
        { auto f = mk(n + 2); f.init = {0}; for (int i = 1; i <= n; ++i) f.rules[0].push_back(R(0, 0, i, ref::NOOP)); f.rules[n] = {R(n, 0, n + 1, ref::SWAP, 1)}; f.acc[n + 1] = 1; run("fan", f, "a", "b", true); std::reverse(f.rules[0].begin(), f.rules[0].end()); auto twice = f.rules[0]; f.rules[0].insert(f.rules[0].end(), twice.begin(), twice.end()); for (int i = 1; i <= n; ++i) f.acc[i] = 1; run("fan, rules given twice, all accepting", f, "a", "b", true); run("fan, rules given twice, all accepting", f, "b", "a", false); }
        { auto f = mk(n + 1); for (int i = 0; i < n; ++i) f.init.push_back(i); f.rules[n / 2] = {R(n / 2, 0, n, ref::POP)}; f.acc[n] = 1; run("many initial states", f, "ab", "b", true); run("many initial states", f, "bb", "b", false); for (int i = 0; i < n; ++i) if (i != n / 2) f.acc[i] = 1; run("many initial and accepting states", f, "a", "", true); }
        { auto f = mk(n); f.init = {(size_t)(n - 1)}; for (int i = 0; i < n; ++i) { if (2 * i + 1 < n) f.rules[n - 1 - i].push_back(R(n - 1 - i, 0, n - 1 - (2 * i + 1), ref::PUSH, 0)); if (2 * i + 2 < n) f.rules[n - 1 - i].push_back(R(n - 1 - i, 0, n - 1 - (2 * i + 2), ref::SWAP, 0)); } for (int i = 0; i < n; ++i) f.acc[i] = i % 3 == 0; run("tree", f, "a", "aaa*", [&] { for (int i = 1; i < n; ++i) { if ((n - 1 - i) % 3) continue; int d = 0; for (int j = i; j > 0; j = (j - 1) / 2) d += j % 2; if (d >= 1) return true; } return false; }()); }
        { auto f = mk(n + 1); f.init = {0}; for (int i = 0; i < n; ++i) { f.rules[i].push_back(R(i, 0, (i + 1) % n, ref::PUSH, 0)); if (i % 7 == 3) f.rules[i].push_back(R(i, -1, i, ref::POP)); } f.rules[n - 1].push_back(R(n - 1, 0, n, ref::SWAP, 1)); f.acc[n] = 1; run("cycle", f, "a", "baa*", true); run("cycle", f, "a", "b", n == 1 || (n - 1) % 7 == 3); }
    }
}
// many values of one type, in several orders, every value twice
template<typename T> void many(const char* type, const std::vector<T>& v) {
    for (int order = 0; order < 3; ++order) mc::run_case([&] { return std::string(type) + ": " + std::to_string(v.size()) + " values, order " + std::to_string(order); }, [&] {
        std::vector<size_t> seq; size_t n = v.size(); for (size_t i = 0; i < n; ++i) seq.push_back(order == 0 ? i : order == 1 ? n - 1 - i : (i % 2 ? n - 1 - i / 2 : i / 2)); mc::count("impl_runs"); mc::count("nontrivial");
        utils::ptrie_set<T> s; utils::ptrie_map<T, size_t> m; PDA<T, weight<void>, fut::type::vector, T, false> pda;
        for (int round = 0; round < 2; ++round) for (size_t k = 0; k < n; ++k) { const T& x = v[seq[k]]; mc::count("transitions"); auto [f1, i1] = s.insert(x); auto [f2, i2] = m.insert(x); auto l = pda.insert_label(x); auto st = pda.insert_state(x);
            if (f1 != (round == 0) || f2 != f1 || i1 != k || i2 != k || l != k || st != k) mc::fail("insertion " + std::to_string(k) + " gives identifiers " + std::to_string(i1) + ", " + std::to_string(i2) + ", " + std::to_string(l) + ", " + std::to_string(st)); if (round == 0) m.get_data(i2) = k * 3 + 1; else if (m.get_data(i2) != k * 3 + 1) mc::fail("the data changed"); }
        for (size_t k = 0; k < n; ++k) { const T& x = v[seq[k]]; mc::count("states"); if (!(s.at(k) == x) || !(m.at(k) == x) || !(pda.get_symbol(k) == x) || !(pda.get_state(k) == x)) mc::fail("identifier " + std::to_string(k) + " gives back another value"); auto e = s.exists(x); if (!e.first || e.second != k) mc::fail("value " + std::to_string(k) + " is not found"); }
        mc::require(s.size() == n && m.size() == n && pda.number_of_labels() == n, "wrong number of values"); });
}
void many_values() {
    auto ints = [](auto z, size_t n, auto step, auto start) { std::vector<decltype(z)> r; for (size_t i = 0; i < n; ++i) r.push_back((decltype(z))(start + (decltype(z))i * step)); return r; };
    for (size_t n : {256, 257, 1000, 70000}) { many<int>("int", ints(int(), n, 1, -300)); many<uint32_t>("uint32", ints(uint32_t(), n, 251u, 4000000000u)); many<size_t>("size_t", ints(size_t(), n, (size_t)1 << 33, (size_t)7)); }
    many<uint16_t>("uint16", ints(uint16_t(), 65536, (uint16_t)1, (uint16_t)0)); many<uint8_t>("uint8", ints(uint8_t(), 256, (uint8_t)1, (uint8_t)0));
    { std::vector<std::string> a, b, d; for (int i = 0; i <= 520; ++i) a.push_back(std::string(i, 'x')); for (int i = 0; i < 256; ++i) for (int j = 0; j < 256; j += 5) b.push_back(std::string(1, (char)i) + std::string(1, (char)j)); for (int len : {1, 2, 31, 32, 33, 63, 64, 65, 127, 128, 129, 254, 255, 256, 257, 1000}) for (int pos : {0, len / 2, len - 1}) for (char ch : {'p', 'q', (char)0, (char)255}) { std::string x(len, 'm'); x[pos] = ch; if (std::find(d.begin(), d.end(), x) == d.end()) d.push_back(x); } many("string, every length", a); many("string, two bytes", b); many("string, one different byte", d);
}
    { std::vector<std::vector<int>> a; for (int i = 0; i <= 300; ++i) a.push_back(std::vector<int>(i, 0)); for (int len : {1, 2, 31, 32, 33, 63, 64, 65, 66, 128, 256, 300}) for (int pos : {0, len / 2, len - 1}) for (int x : {1, 256, 1 << 30, -1}) { std::vector<int> y(len, 0); y[pos] = x; if (std::find(a.begin(), a.end(), y) == a.end()) a.push_back(y); } many("vector<int>", a); }
    { using T = std::tuple<std::vector<int>, std::vector<int>>; std::vector<T> a; for (int i = 0; i <= 66; ++i) for (int j = 0; j <= 66; ++j) a.push_back({std::vector<int>(i, 0), std::vector<int>(j, 0)}); many("tuple<vector,vector>", a); }
    { using T = std::tuple<size_t, uint8_t, std::vector<uint16_t>>; std::vector<T> a; for (size_t i = 0; i < 16; ++i) for (int j = 0; j < 16; ++j) for (int k = 0; k < 9; ++k) a.push_back({i << (4 * i), (uint8_t)(j * 17), std::vector<uint16_t>(k * k * k, (uint16_t)(257 * j))}); std::vector<T> b; for (auto& x : a) if (std::find(b.begin(), b.end(), x) == b.end()) b.push_back(x); many("tuple<size_t,byte,vector>", b); }
    { using T = std::variant<int, uint8_t, std::vector<int>>; std::vector<T> a; for (int i = 0; i < 300; ++i) a.push_back(i - 150); for (int i = 0; i < 256; ++i) a.push_back((uint8_t)i); for (int i = 0; i < 130; ++i) a.push_back(std::vector<int>(i, i)); many("variant", a); }
}
// ---- values and identifiers
template<typename V> std::string show(const V&) { return "?"; }
template<typename T> void values(const char* type, const std::vector<T>& v, int len) {
    // every sequence (with repetitions) of insertions and queries
    std::vector<size_t> seq; std::function<void()> rec = [&] {
        mc::run_case([&] { std::string s = std::string("values of type ") + type + ", inserted in the order"; for (auto i : seq) s += " #" + std::to_string(i); return s; }, [&] {
            utils::ptrie_set<T> s; utils::ptrie_map<T, size_t> m; std::vector<size_t> order; auto id = [&](size_t i) { return std::find_if(order.begin(), order.end(), [&](size_t j) { return v[j] == v[i]; }) - order.begin(); }; mc::count("impl_runs");
            PDA<T, weight<void>, fut::type::vector, T, false> pda;
            for (auto i : seq) {
                size_t want = id(i); bool fresh = want == order.size(); mc::count("transitions");
                auto [f1, i1] = s.insert(v[i]); if (f1 != fresh || i1 != want) mc::fail("set: value #" + std::to_string(i) + " got the identifier " + std::to_string(i1) + (f1 ? " (new)" : " (known)") + ", expected " + std::to_string(want));
                auto [f2, i2] = m.insert(v[i]); if (f2 != fresh || i2 != want) mc::fail("map: value #" + std::to_string(i) + " got the identifier " + std::to_string(i2));
                if (fresh) m.get_data(i2) = 1000 + i; else if (m.get_data(i2) != 1000 + order[want]) mc::fail("map: the data of a value changed");
                auto l = pda.insert_label(v[i]); auto st = pda.insert_state(v[i]); if (l != want || st != want) mc::fail("system: label or state #" + std::to_string(i) + " got the identifier " + std::to_string(l) + " / " + std::to_string(st));
                if (fresh) order.push_back(i);
            }
            if (order.size() > 1) mc::count("nontrivial");
            mc::require(s.size() == order.size() && m.size() == order.size() && pda.number_of_labels() == order.size(), "wrong number of values");
            for (size_t i = 0; i < v.size(); ++i) { size_t want = id(i); bool in = want < order.size(); auto a = s.exists(v[i]), b = m.exists(v[i]), c = pda.exists_label(v[i]), d = pda.exists_state(v[i]); mc::count("states");
                if (a.first != in || b.first != in || c.first != in || d.first != in) mc::fail("value #" + std::to_string(i) + (in ? " is not found" : " is found although it was never inserted"));
                if (in && (a.second != want || b.second != want || c.second != want || d.second != want)) mc::fail("value #" + std::to_string(i) + " is found under another identifier"); }
            for (size_t k = 0; k < order.size(); ++k) { const T x = v[order[k]]; if (!(s.at(k) == x) || !(m.at(k) == x) || !(pda.get_symbol(k) == x) || !(pda.get_state(k) == x)) mc::fail("identifier " + std::to_string(k) + " gives back another value than was inserted"); }
            // iteration through identifiers
            std::vector<size_t> ids; for (size_t k = 0; k < order.size(); ++k) { ids.push_back(order.size() - 1 - k); ids.push_back(k); }
            auto b = utils::ptrie_access_iterator(ids.cbegin(), &s), e = utils::ptrie_access_iterator(ids.cend(), &s); mc::require((size_t)(e - b) == ids.size(), "iterator distance");
            size_t k = 0; for (auto it = b; it != e; ++it, ++k) { const T x = v[order[ids[k]]]; if (!(*it == x) || !(b[k] == x) || !(*(b + k) == x) || !(*(e - (ids.size() - k)) == x)) mc::fail("the iterator gives another value"); if (!(it < e) || it > e || !(it <= it) || !(it >= b)) mc::fail("iterator comparison"); }
            mc::require(k == ids.size(), "the iterator visits too few values"); for (auto it = e; it != b;) { --it; --k; if (!(*it == v[order[ids[k]]])) mc::fail("backwards iterator"); } { auto it = b; for (size_t q = 0; q < ids.size(); ++q) { auto o = it++; if (!(*o == v[order[ids[q]]])) mc::fail("post-increment"); } mc::require(it == e, "post-increment end"); for (size_t q = ids.size(); q-- > 0;) { auto o = it--; if (o - b != (long)q + 1 || !(*it == v[order[ids[q]]])) mc::fail("post-decrement"); } it += ids.size(); mc::require(it == e, "+="); it -= ids.size(); mc::require(it == b && ids.size() + b == e, "-="); }
        });
        if ((int)seq.size() == len) return; for (size_t i = 0; i < v.size(); ++i) { seq.push_back(i); rec(); seq.pop_back(); } };
    rec();
}
}
int main(int argc, char** argv) {
    mc::Check c; c.property = "C20"; c.rule = "the compiled system has exactly the rules of the states reachable through the successor function; its verdicts and traces are those of the reference; values and identifiers correspond one to one";
    c.assumptions = {"initial() is sorted (the automaton constructor asserts sortedness)", "every label of a rule other than the wildcard label is in the label set", "the ids of labels are not part of the property, only that they correspond to the values", "ptrie replaced by an equivalent std container (the byte conversion of pdaaal is what is checked)"};
    using K = std::function<Rule(int, int)>; using U = weight<uint32_t>; using V = weight<void>;
    K pop = [](int f, int t) { return R(f, 0, t, ref::POP); }, wswap = [](int f, int t) { return R(f, -1, t, ref::SWAP, 1); }, push = [](int f, int t) { return R(f, 1, t, ref::PUSH, 0); }, wpop = [](int f, int t) { return R(f, -1, t, ref::POP); }, noop = [](int f, int t) { return R(f, 0, t, ref::NOOP); }, swap = [](int f, int t) { return R(f, 0, t, ref::SWAP, 1); }, wpush = [](int f, int t) { return R(f, -1, t, ref::PUSH, 1); }, wnoop = [](int f, int t) { return R(f, -1, t, ref::NOOP); }, pop1 = [](int f, int t) { return R(f, 0, t, ref::POP, -1, 3); };
    const std::vector<std::pair<std::string, std::string>> HS = {{"a", ""}, {".*", "b"}}, HL = {{"a", ""}, {"ab", "b"}, {".*", "b"}, {"", ""}, {"b*", "ab*"}};
    c.suites.push_back({"3-states-any-successors", [=] { family<std::string, V>(3, 1, {pop, wswap, push, noop}, {{0}, {0, 2}, {2}}, {{0, 0, 1}, {1, 1, 0}}, {{0, 1, 2}}, HL); }});
    c.suites.push_back({"2-states-lists", [=] { family<std::string, V>(2, 2, {pop, wswap, push}, {{0}, {1}, {0, 1}, {}, {0, 0, 1}}, {{0, 1}, {1, 1}, {0, 0}}, {{0, 1}}, HL); if (mc::thorough()) family<std::string, V>(2, 3, {pop, wpush}, {{0}, {1}}, {{0, 1}, {1, 0}}, {{0, 1}}, HS); }});
    c.suites.push_back({"state-numbers", [=] { family<int, V>(3, 1, {wpop, push}, {{0}, {0, 1}, {1}}, {{0, 0, 1}, {0, 1, 1}}, {{2, 7, 3}, {0, 5, 9}, {4, 6, 1}}, HL); }});
    c.suites.push_back({"wildcards", [=] { family<char, V>(2, 2, {wpop, wpush, wnoop, swap}, {{0}}, {{0, 1}}, {{0, 1}}, HL); }});
    c.suites.push_back({"weights", [=] { family<std::string, U>(2, 2, {pop, pop1, wswap, wpush}, {{0}}, {{0, 1}}, {{0, 1}}, {{"a", ""}, {"ab", "b"}}); }});
    c.suites.push_back({"4-states-chains", [=] { family<std::string, V>(4, 1, mc::thorough() ? std::vector<K>{pop, push, wswap} : std::vector<K>{pop, push}, {{1}, {0, 3}}, {{0, 0, 1, 1}}, {{0, 1, 2, 3}}, {{"ab", "b"}}); }});
    c.suites.push_back({"values", [] { int L = mc::thorough() ? 4 : 3;
        values<bool>("bool", {false, true}, 4); values<char>("char", {'a', 0, (char)-1, (char)128, 'b'}, L); values<unsigned char>("unsigned char", {0, 1, 127, 128, 255}, L); values<int16_t>("int16", {0, 1, -1, 256, 255, INT16_MIN, INT16_MAX}, L);
        values<int>("int", {0, 1, -1, 256, 65536, 1 << 24, INT_MIN, INT_MAX, 257}, L); values<uint32_t>("uint32", {0, 1, 255, 256, 1u << 31, UINT32_MAX}, L); values<size_t>("size_t", {0, 1, 255, 256, 1ull << 32, 1ull << 63, SIZE_MAX, 1ull << 56}, L); values<long>("long", {0, -1, LONG_MIN, LONG_MAX, 1l << 40}, L);
        values<Big>("enum", {Big(0), Big(1), Big(1ull << 40), Big(SIZE_MAX)}, L); values<Packed>("struct", {{0, 0}, {0, 1}, {1, 0}, {255, 256}, {256, 255}}, L); values<std::array<uint8_t, 3>>("array", {{0, 0, 0}, {0, 0, 1}, {1, 0, 0}, {255, 0, 255}}, L);
        values<std::string>("string", {"", "a", "b", "ab", "ba", "aa", std::string(1, '\0'), std::string(2, '\0'), std::string("a\0", 2), std::string("a\0b", 3), std::string(40, 'x'), std::string(300, 'y'), "\xff\x80"}, L);
        using vi = std::vector<int>; values<vi>("vector<int>", {vi{}, vi{0}, vi{0, 0}, vi{1}, vi{256}, vi{0, 1}, vi{1, 0}, vi{-1, INT_MIN}, vi{0, 0, 0}}, L); using vc = std::vector<char>; values<vc>("vector<char>", {vc{}, vc{0}, vc{0, 0}, vc{'a'}, vc{(char)-1}}, L);
        using t1 = std::tuple<int, char>; values<t1>("tuple<int,char>", {{0, 0}, {0, 1}, {1, 0}, {256, (char)-1}, {-1, 'a'}, {1 << 24, 0}}, L); using t2 = std::tuple<vi, vi>; values<t2>("tuple<vector,vector>", {{vi{}, vi{}}, {vi{1}, vi{}}, {vi{}, vi{1}}, {vi{1, 2}, vi{3}}, {vi{1}, vi{2, 3}}, {vi{0}, vi{0, 0}}, {vi{0, 0}, vi{0}}}, L);
        using t3 = std::tuple<uint8_t, vi, std::tuple<char, size_t>>; values<t3>("tuple<byte,vector,tuple>", {{0, vi{}, {0, 0}}, {1, vi{}, {0, 0}}, {0, vi{0}, {0, 0}}, {0, vi{}, {1, 0}}, {0, vi{}, {0, 1}}, {0, vi{7, 8}, {9, SIZE_MAX}}}, L);
        using vt = std::vector<t1>; values<vt>("vector<tuple>", {vt{}, vt{{0, 0}}, vt{{0, 0}, {0, 0}}, vt{{1, 0}}, vt{{0, 1}}, vt{{1, 2}, {3, 4}}, vt{{3, 4}, {1, 2}}}, L); using t4 = std::tuple<int>; values<t4>("tuple<int>", {t4{0}, t4{1}, t4{-1}}, L); using tv = std::tuple<vt, char>; values<tv>("tuple<vector<tuple>,char>", {{vt{}, 0}, {vt{{0, 0}}, 0}, {vt{}, 1}, {vt{{1, 2}, {3, 4}}, 5}}, L);
        using v1 = std::variant<int>; values<v1>("variant<int>", {v1{0}, v1{1}, v1{256}}, L); using v2 = std::variant<int, char, vi>; values<v2>("variant<int,char,vector>", {v2{0}, v2{1}, v2{(char)0}, v2{(char)1}, v2{vi{}}, v2{vi{0}}, v2{vi{1, 2}}, v2{256}}, L);
        using v3 = std::variant<size_t, size_t>; values<v3>("variant<size_t,size_t>", {v3(std::in_place_index<0>, 0), v3(std::in_place_index<1>, 0), v3(std::in_place_index<0>, 1), v3(std::in_place_index<1>, SIZE_MAX)}, L); using v4 = std::tuple<v2, v2>; values<v4>("tuple<variant,variant>", {{v2{0}, v2{0}}, {v2{(char)0}, v2{0}}, {v2{0}, v2{(char)0}}, {v2{vi{1}}, v2{vi{}}}, {v2{vi{}}, v2{vi{1}}}}, L); using v5 = std::variant<t2, v2>; values<v5>("variant<tuple,variant>", {v5{t2{vi{1}, vi{}}}, v5{t2{vi{}, vi{1}}}, v5{v2{1}}, v5{v2{(char)1}}, v5{v2{vi{1}}}}, L);
    }});
    c.suites.push_back({"large", [] { large(); }}); c.suites.push_back({"many-values", [] { many_values(); }});
    c.bounds_quick = "every successor function over 2-4 states with up to 1-2 rules per state in every order and with repetitions (pop, push, swap, noop, wildcard; weighted), several sets of initial and accepting states, non-consecutive state numbers, 2-5 pairs of header expressions, depth-first and plain factory, post*, pre*, dual; every sequence of up to 3 insertions for 26 types of values (integers, strings, vectors, tuples, variants and their nestings); successor functions with 1-20, 32+-1, 64+-1, 128+-1, 256+-1 states, rules, initial or accepting states (chains, fans, trees, cycles; 4 numberings); up to 70000 values of one type, strings of length 0-520, vectors of length 0-300";
    c.bounds_thorough = "as quick, 3 rules per state, and every sequence of up to 4 insertions";
    return mc::main_(argc, argv, c);
}
