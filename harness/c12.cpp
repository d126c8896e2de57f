// C12: the rule storage contains exactly what was added, in every representation.
#include "mc.h"
#include <pdaaal/PDA.h>
#include <numeric>
using namespace pdaaal;
static const char LAB[] = "abc";
enum Api { TYPED_ONE, TYPED_SET, RULE, WILD_RULE, INT_RULE, INT_WILD, DETAIL, NEWSTATE, NEWLABEL, APIS };
static const char* APIN[] = {"add_rule(label)", "add_rule(label list)", "add_rule(rule)", "add_wildcard_rule(rule)", "add_rule(untyped)", "add_wildcard_rule(untyped)", "add_rule_detail", "insert_state", "insert_label"};
struct Op { Api api; int from = 0, to = 0; op_t op = POP; char l = 'a'; std::string pre; bool wild = false; int w = 0;
    std::string str() const { if (api == NEWSTATE) return "insert_state(" + std::to_string(from) + ")"; if (api == NEWLABEL) return std::string("insert_label(") + l + ")"; std::string o = op == POP ? "pop" : op == NOOP ? "noop" : op == PUSH ? std::string("push ") + l : std::string("swap ") + l; return std::string(APIN[api]) + ": " + std::to_string(from) + " -[" + (wild ? "*" : pre) + "]-> " + std::to_string(to) + " " + o + " weight " + std::to_string(w); } };
struct Key { int from, to, op; char l; int w; auto operator<=>(const Key&) const = default; };
struct Val { bool wild = false; std::set<char> pre; bool operator==(const Val&) const = default; };
struct Model { std::map<Key, Val> r; size_t states = 0; std::string labels; std::set<std::pair<int, int>> pred; // (to, from) ever added
    void add(const Op& o, bool weighted) {
        if (o.api == NEWSTATE) { states = std::max<size_t>(states, o.from + 1); return; }
        if (o.api == NEWLABEL) { if (labels.find(o.l) == std::string::npos) labels += o.l; return; }
        auto& v = r[{o.from, o.to, o.op, (o.op == POP || o.op == NOOP) ? '-' : o.l, weighted ? o.w : 0}];
        if (o.wild) { v.wild = true; v.pre.clear(); } else if (!v.wild) v.pre.insert(o.pre.begin(), o.pre.end());
        states = std::max<size_t>(states, std::max(o.from, o.to) + 1); pred.insert({o.to, o.from});
    } };
template<typename Wt> auto weight_of(int w) { if constexpr (std::is_same_v<typename Wt::type, std::vector<int32_t>>) return w == 0 ? std::vector<int32_t>{} : std::vector<int32_t>{0, w}; else return (typename Wt::type)w; }
template<typename P> void perform(P& p, const Op& o) {
    using Wt = typename P::weight; constexpr bool wd = P::has_weight; using rule_t = typename P::rule_t;
    auto id = [&](char c) { return (uint32_t)p.exists_label(c).second; };
    std::vector<char> pre(o.pre.begin(), o.pre.end());
    std::vector<uint32_t> ids; for (char c : o.pre) ids.push_back(id(c)); std::sort(ids.begin(), ids.end()); ids.erase(std::unique(ids.begin(), ids.end()), ids.end());
    uint32_t ol = o.op == POP || o.op == NOOP ? std::numeric_limits<uint32_t>::max() : id(o.l);
    switch (o.api) {
    case TYPED_ONE: if constexpr (wd) { if (o.w) p.add_rule((size_t)o.from, (size_t)o.to, o.op, o.l, o.pre[0], weight_of<Wt>(o.w)); else p.add_rule((size_t)o.from, (size_t)o.to, o.op, o.l, o.pre[0]); } else p.add_rule((size_t)o.from, (size_t)o.to, o.op, o.l, o.pre[0]); break;
    case TYPED_SET: if constexpr (wd) { if (o.w) p.add_rule((size_t)o.from, (size_t)o.to, o.op, o.l, o.wild, pre, weight_of<Wt>(o.w)); else p.add_rule((size_t)o.from, (size_t)o.to, o.op, o.l, o.wild, pre); } else p.add_rule((size_t)o.from, (size_t)o.to, o.op, o.l, o.wild, pre); break;
    case RULE: if constexpr (wd) { const rule_t r(o.from, o.pre[0], o.to, o.op, o.l, weight_of<Wt>(o.w)); p.add_rule(r); } else { const rule_t r(o.from, o.pre[0], o.to, o.op, o.l); p.add_rule(r); } break;
    case WILD_RULE: if constexpr (wd) { const rule_t r(o.from, 'a', o.to, o.op, o.l, weight_of<Wt>(o.w)); p.add_wildcard_rule(r); } else { const rule_t r(o.from, 'a', o.to, o.op, o.l); p.add_wildcard_rule(r); } break;
    case INT_RULE: case INT_WILD: { user_rule_t<Wt> r = [&] { if constexpr (wd) return user_rule_t<Wt>(o.from, o.pre.empty() ? 0 : id(o.pre[0]), o.to, o.op, ol, weight_of<Wt>(o.w)); else return user_rule_t<Wt>(o.from, o.pre.empty() ? 0 : id(o.pre[0]), o.to, o.op, ol); }(); auto& i = static_cast<typename P::parent_t&>(p); if (o.api == INT_RULE) i.add_rule(r); else i.add_wildcard_rule(r); break; }
    case DETAIL: { typename P::parent_t::rule_t r; r._to = o.to; r._operation = o.op; r._op_label = ol; if constexpr (wd) r._weight = weight_of<Wt>(o.w); if constexpr (std::is_same_v<typename P::parent_t, internal::PDA<Wt>>) p.add_rule_detail(o.from, r, o.wild, ids); else { if constexpr (wd) p.add_rule((size_t)o.from, (size_t)o.to, o.op, o.l, o.wild, pre, weight_of<Wt>(o.w)); else p.add_rule((size_t)o.from, (size_t)o.to, o.op, o.l, o.wild, pre); } break; }
    case NEWSTATE: mc::require(p.insert_state(o.from) == (size_t)o.from, "insert_state of an index returns another index"); break;
    default: p.insert_label(o.l);
    }
}
template<typename Wt> int num(const typename Wt::type& w) { if constexpr (std::is_same_v<typename Wt::type, std::vector<int32_t>>) return w.empty() ? 0 : w.back(); else return (int)w; }
template<typename P> void compare(const P& p, const Model& m, bool exact_pred, const std::string& when) {
    using Wt = typename P::weight; constexpr bool wd = P::has_weight; mc::count("states");
    auto bad = [&](const std::string& s) { mc::fail(when + ": " + s); };
    if (p.states().size() != m.states) bad("number of states");
    if (p.number_of_labels() != m.labels.size()) bad("number of labels");
    for (char c : m.labels) { auto [f, i] = p.exists_label(c); if (!f || p.get_symbol(i) != c) bad("label table"); }
    std::map<Key, Val> got; std::set<std::pair<int, int>> pred; bool neg = false;
    for (size_t s = 0; s < p.states().size(); ++s) {
        if (p.exists_state(s) != std::make_pair(true, s)) bad("exists_state");
        for (const auto& [rule, labels] : p.states()[s]._rules) {
            Key k{(int)s, (int)rule._to, rule._operation, '-', 0}; if (rule._operation == PUSH || rule._operation == SWAP) k.l = p.get_symbol(rule._op_label);
            if constexpr (wd) { k.w = num<Wt>(rule._weight); if (k.w < 0) neg = true; }
            if (got.count(k)) bad("a rule is stored twice");
            auto& v = got[k]; v.wild = labels.wildcard(); uint32_t last = 0; bool first = true;
            for (auto l : labels.labels()) { if (!first && l <= last) bad("precondition not sorted or with duplicates"); first = false; last = l; v.pre.insert(p.get_symbol(l)); }
            if (v.wild && !v.pre.empty()) bad("wildcard with labels");
            for (uint32_t l = 0; l < p.number_of_labels(); ++l) if (labels.contains(l) != (v.wild || v.pre.count(p.get_symbol(l)))) bad("contains() disagrees with the labels");
            if (labels.empty() != (!v.wild && v.pre.empty())) bad("empty() disagrees with the labels");
        }
        size_t before = 0; bool first = true; for (auto q : p.states()[s]._pre_states) { pred.insert({(int)s, (int)q}); if (!first && q <= before) bad("predecessors not sorted"); before = q; first = false; }
    }
    if (got != m.r) { std::string d; for (auto& [k, v] : m.r) if (!got.count(k)) d += " missing"; else if (!(got[k] == v)) d += " precondition differs"; for (auto& [k, v] : got) if (!m.r.count(k)) d += " extra"; bad("stored rules differ from the ones added:" + d); }
    if (exact_pred && pred != m.pred) bad("predecessor information differs");
    for (auto& [k, v] : m.r) if (!pred.count({k.to, k.from})) bad("a predecessor is missing");
    if constexpr (wd) if constexpr (Wt::is_signed && !std::is_same_v<typename Wt::type, std::vector<int32_t>>) if (p.has_negative_weight(std::less<int>{}) != neg) bad("has_negative_weight");
    // all_rules: exactly the expansion
    if constexpr (std::is_same_v<P, PDA<char, Wt>>) {
        std::map<std::tuple<Key, char>, int> want, have;
        for (auto& [k, v] : m.r) for (char c : m.labels) if (v.wild || v.pre.count(c)) want[{k, c}]++;
        for (auto& r : p.all_rules()) { Key k{(int)r._from, (int)r._to, r._op, (r._op == PUSH || r._op == SWAP) ? r._op_label : '-', 0}; if constexpr (wd) k.w = num<Wt>(r._weight); have[{k, r._pre}]++; }
        if (want != have) bad("all_rules differs from the rules added");
    }
}
template<typename Wt, fut::type C> void sequence(const std::vector<const Op*>& ops, const std::string& labels, bool setctor) {
    std::unordered_set<char> init; if (setctor) init.insert(labels.begin(), labels.end());
    PDA<char, Wt, C> p(init); if (!setctor) for (char c : labels) p.insert_label(c);
    Model m; m.labels = labels; if (setctor) std::sort(m.labels.begin(), m.labels.end()); mc::count("impl_runs");
    size_t n = 0; for (auto* o : ops) { perform(p, *o); m.add(*o, is_weighted<Wt>); mc::count("transitions"); compare(p, m, true, "after operation " + std::to_string(++n)); }
    auto clear = [&](PDA<char, Wt>& q, Model qm, int s, const std::string& when) { q.clear_state(s); std::erase_if(qm.r, [&](auto& kv) { return kv.first.from == s || kv.first.to == s; }); compare(q, qm, false, when + ", clear_state(" + std::to_string(s) + ")"); mc::count("transitions"); mc::require(q.states()[s]._rules.empty() && q.states()[s]._pre_states.empty(), "clear_state leaves something at the state"); return qm; };
    if constexpr (C == fut::type::hash) {
        PDA<char, Wt> v(std::move(p)); compare(v, m, true, "converted to the solving representation");
        // the converted system can still be extended
        auto m2 = m; for (auto* o : ops) { Op x = *o; if (x.api == DETAIL) x.api = TYPED_SET; x.to = (x.to + 1) % 2; perform(v, x); m2.add(x, is_weighted<Wt>); } compare(v, m2, true, "extended after the conversion");
        for (size_t s = 0; s < m2.states; ++s) m2 = clear(v, m2, s, "converted");
    } else {
        for (size_t s = 0; s < m.states; ++s) { PDA<char, Wt> q(p); compare(q, m, true, "copy"); auto qm = clear(q, m, s, "copy"); for (size_t t = 0; t < m.states; ++t) if (t != s) { auto q2 = q; clear(q2, qm, t, "copy, clear_state(" + std::to_string(s) + ")"); } }
        compare(p, m, true, "original after changing copies");
    }
    if (m.r.size() < ops.size()) mc::count("nontrivial");
}
template<typename Wt> void run(const std::vector<Op>& u, int depth, const std::string& labels, bool setctor, const char* wn) {
    std::vector<int> d(depth);
    auto go = [&](auto tag) { constexpr fut::type C = decltype(tag)::value;
        mc::run_case([&] { std::string s = std::string(wn) + (C == fut::type::hash ? ", hash storage" : ", sorted storage") + ", labels added in the order " + labels + (setctor ? " (as a set)" : ""); for (int x : d) s += "\n  " + u[x].str(); return s; },
            [&] { std::vector<const Op*> v; for (int x : d) v.push_back(&u[x]); sequence<Wt, C>(v, labels, setctor); }); };
    for (;;) { go(std::integral_constant<fut::type, fut::type::vector>{}); go(std::integral_constant<fut::type, fut::type::hash>{}); int k = depth - 1; while (k >= 0 && ++d[k] == (int)u.size()) d[k--] = 0; if (k < 0) break; }
}
static std::vector<Op> universe(int size, bool wt) { // 0 small, 1 large
    std::vector<Op> u; std::vector<int> ws = wt ? std::vector<int>{0, 2} : std::vector<int>{0};
    if (size == 0) {
        for (int w : ws) { for (const char* pre : {"a", "cb", "bab", ""}) u.push_back({TYPED_SET, 0, 1, PUSH, 'b', pre, false, w}); u.push_back({TYPED_SET, 0, 1, PUSH, 'b', "", true, w}); u.push_back({TYPED_ONE, 0, 0, POP, 'a', "c", false, w}); u.push_back({WILD_RULE, 0, 2, NOOP, 'a', "", true, w}); u.push_back({DETAIL, 1, 0, SWAP, 'c', "ac", false, w}); }
        u.push_back({INT_RULE, 0, 1, PUSH, 'b', "c"}); u.push_back({RULE, 2, 1, SWAP, 'a', "b"}); u.push_back({NEWSTATE, 2}); u.push_back({NEWLABEL, 0, 0, POP, 'd'});
    } else {
        for (int w : wt ? std::vector<int>{0, 2, -1} : ws) for (auto [f, t] : std::vector<std::pair<int, int>>{{0, 1}, {0, 0}, {1, 0}, {0, 2}, {2, 1}}) for (auto [op, l] : std::vector<std::pair<op_t, char>>{{POP, 'a'}, {NOOP, 'a'}, {PUSH, 'a'}, {PUSH, 'c'}, {SWAP, 'a'}, {SWAP, 'b'}}) {
            for (const char* pre : {"b", "ca", "abc"}) u.push_back({TYPED_SET, f, t, op, l, pre, false, w}); u.push_back({TYPED_SET, f, t, op, l, "ab", true, w}); u.push_back({TYPED_ONE, f, t, op, l, "a", false, w}); u.push_back({RULE, f, t, op, l, "c", false, w});
            u.push_back({WILD_RULE, f, t, op, l, "", true, w}); u.push_back({INT_RULE, f, t, op, l, "b", false, w}); u.push_back({INT_WILD, f, t, op, l, "", true, w}); u.push_back({DETAIL, f, t, op, l, "bc", false, w}); u.push_back({DETAIL, f, t, op, l, "", true, w}); }
        u.push_back({NEWSTATE, 3}); u.push_back({NEWLABEL, 0, 0, POP, 'd'});
    }
    return u;
}
static std::vector<uint32_t> bits(int m) { std::vector<uint32_t> r; for (int i = 0; i < 5; ++i) if (m >> i & 1) r.push_back(i * 2); return r; }
// ---- larger systems: many labels per rule, many rules per state, many states, large state numbers
struct LRule { size_t from, to; op_t op; int l; bool wild; std::vector<int> pre; int w; };
using LKey = std::tuple<size_t, size_t, int, int, int>; using LModel = std::map<LKey, std::pair<bool, std::set<int>>>;
template<typename P> void lcompare(const P& p, const LModel& m, size_t states, bool exact_pred, const std::string& when) {
    LModel got; constexpr bool wd = P::has_weight; std::set<std::pair<size_t, size_t>> pred, want;
    mc::require_f(p.states().size() == states, [&] { return when + ": number of states"; });
    for (size_t s = 0; s < states; ++s) {
        for (const auto& [r, ls] : p.states()[s]._rules) {
            int w = 0; if constexpr (wd) w = (int)r._weight;
            LKey k{s, r._to, r._operation, (r._operation == PUSH || r._operation == SWAP) ? p.get_symbol(r._op_label) : -1, w};
            mc::require_f(!got.count(k), [&] { return when + ": a rule is stored twice"; });
            auto& v = got[k]; v.first = ls.wildcard(); mc::require_f(std::is_sorted(ls.labels().begin(), ls.labels().end()), [&] { return when + ": precondition not sorted"; });
            for (auto l : ls.labels()) v.second.insert(p.get_symbol(l)); mc::require_f(v.second.size() == ls.labels().size(), [&] { return when + ": duplicate labels"; });
            for (uint32_t l = 0; l < p.number_of_labels(); ++l) mc::require_f(ls.contains(l) == (v.first || v.second.count(p.get_symbol(l))), [&] { return when + ": contains() disagrees"; });
        }
        for (auto q : p.states()[s]._pre_states) pred.insert({s, q});
    }
    mc::require_f(got == m, [&] { return when + ": stored rules differ from the ones added"; });
    for (auto& [k, v] : m) want.insert({std::get<1>(k), std::get<0>(k)});
    if (exact_pred) mc::require_f(pred == want, [&] { return when + ": predecessors differ"; }); else for (auto& x : want) mc::require_f(pred.count(x), [&] { return when + ": a predecessor is missing"; });
    mc::count("states");
}
template<typename Wt> void large_system(int nlab, const std::vector<LRule>& rules, const std::vector<size_t>& clear, const std::string& name) {
    mc::run_case([&] { return name; }, [&] {
        PDA<int, Wt> a; PDA<int, Wt, fut::type::hash> b; LModel m; size_t states = 0;
        for (int l = 0; l < nlab; ++l) { a.insert_label((l + nlab / 3) % nlab); b.insert_label(nlab - 1 - l); }
        auto add = [&](auto& p, const LRule& r) { if constexpr (is_weighted<Wt>) p.add_rule(r.from, r.to, r.op, r.l, r.wild, r.pre, (typename Wt::type)r.w); else p.add_rule(r.from, r.to, r.op, r.l, r.wild, r.pre); };
        for (auto& r : rules) { add(a, r); add(b, r); mc::count("transitions"); states = std::max({states, r.from + 1, r.to + 1}); auto& v = m[{r.from, r.to, r.op, (r.op == PUSH || r.op == SWAP) ? r.l : -1, is_weighted<Wt> ? r.w : 0}]; if (r.wild) { v.first = true; v.second.clear(); } else if (!v.first) v.second.insert(r.pre.begin(), r.pre.end()); }
        lcompare(a, m, states, true, "sorted storage"); lcompare(b, m, states, true, "hash storage");
        PDA<int, Wt> c(std::move(b)); lcompare(c, m, states, true, "converted"); PDA<int, Wt> d(c); lcompare(d, m, states, true, "copied");
        size_t n = 0; std::set<std::tuple<LKey, int>> all; for (auto& r : c.all_rules()) { int w = 0; if constexpr (is_weighted<Wt>) w = (int)r._weight; ++n; all.insert({LKey{r._from, r._to, r._op, (r._op == PUSH || r._op == SWAP) ? r._op_label : -1, w}, r._pre}); }
        std::set<std::tuple<LKey, int>> want; for (auto& [k, v] : m) if (v.first) for (int l = 0; l < nlab; ++l) want.insert({k, l}); else for (int l : v.second) want.insert({k, l});
        mc::require(n == want.size() && all == want, "all_rules differs from the rules added");
        for (auto s : clear) { for (auto* p : {&a, &c}) p->clear_state(s); std::erase_if(m, [&](auto& kv) { return std::get<0>(kv.first) == s || std::get<1>(kv.first) == s; }); lcompare(a, m, states, false, "after clear_state(" + std::to_string(s) + ")"); lcompare(c, m, states, false, "converted, after clear_state(" + std::to_string(s) + ")"); }
        mc::count("nontrivial"); mc::count("impl_runs");
    });
}
template<typename Wt> void large() {
    std::vector<int> ns; for (int n = 1; n <= (mc::thorough() ? 70 : 36); ++n) ns.push_back(n); for (int n : {63, 64, 65, 66, 128, 130, 255, 256, 257}) if (n > ns.back()) ns.push_back(n);
    for (int n : ns) for (int pat = 0; pat < 6; ++pat) {
        // one rule, its precondition collected in pieces
        std::vector<LRule> rs; auto piece = [&](std::vector<int> v, int w = 0) { rs.push_back({0, 1, PUSH, n / 2, false, v, w}); };
        auto range = [&](int lo, int hi, int st) { std::vector<int> v; for (int i = lo; i < hi; i += st) v.push_back(i); return v; };
        if (pat == 0) for (int i = 0; i < n; ++i) piece({i}); else if (pat == 1) for (int i = n; i-- > 0;) piece({i});
        else if (pat == 2) { piece(range(0, n, 2)); piece(range(1, n, 2)); piece(range(0, n, 3)); } else if (pat == 3) { piece(range(n / 2, n, 1)); piece(range(0, n / 2, 1)); piece({n - 1, 0}); }
        else if (pat == 4) { piece(range(0, n, 3)); piece(range(0, n, 5)); piece(range(0, n, 5), 1); piece({}, 1); } else { piece(range(0, n - 1, 1)); piece(range(0, n, 1), 2); rs.push_back({0, 1, PUSH, n / 2, true, {}, 2}); piece({0}, 2); }
        large_system<Wt>(n, rs, {1}, "one rule with " + std::to_string(n) + " labels, pattern " + std::to_string(pat));
        // n rules of one state / into one state / a chain
        rs.clear();
        for (int i = 0; i < n; ++i) { int j = pat % 2 ? n - 1 - i : i; op_t op = (op_t)(1 << (j % 4)); 
            if (pat < 2) rs.push_back({0, (size_t)j / 2, op, j % n, j % 7 == 0, {j % n, (j + 3) % n}, j}); else if (pat < 4) rs.push_back({(size_t)j, 2, op, (j * 3) % n, false, {(j * 5) % n}, j % 3}); else rs.push_back({(size_t)j, (size_t)(j + 1) % n, op, j / 2, false, {j}, -(j % 2)}); }
        if constexpr (std::is_same_v<Wt, weight<uint32_t>>) for (auto& r : rs) r.w = std::abs(r.w);
        large_system<Wt>(n, rs, pat < 2 ? std::vector<size_t>{1 % (size_t)std::max(1, (n + 1) / 2)} : pat < 4 ? std::vector<size_t>{2} : std::vector<size_t>{0, (size_t)n / 2}, std::to_string(n) + " rules, shape " + std::to_string(pat));
    }
    for (size_t big : {255ul, 256ul, 257ul, 65535ul, 65536ul, 65537ul, 70000ul}) { std::vector<LRule> rs; for (size_t s : {big, big % 256, big % 65536, (size_t)3}) for (size_t t : {big, big % 256, big - 1, (size_t)3}) { rs.push_back({s, t, PUSH, 1, false, {0}, 0}); rs.push_back({s, t, POP, 0, false, {1}, 0}); } large_system<Wt>(2, rs, {big, 3}, "state numbers around " + std::to_string(big)); }
    for (int big : {300, 65540}) { std::vector<LRule> rs; for (int l : {0, 1, big - 65536 < 0 ? 2 : big - 65536, 255, 256, 257, big - 5, big - 4, big - 3, big - 1}) for (int l2 : {0, 1, 255, 256, big - 4, big - 1}) { rs.push_back({0, 1, SWAP, l, false, {l2}, 0}); rs.push_back({1, 0, PUSH, l2, false, {l, l2}, 0}); } large_system<Wt>(big, rs, {}, std::to_string(big) + " labels"); }
}
// ---- rules as values: equality, order, hashing and the conversions between the kinds of rules
template<typename Wt> void rule_values() {
    using P = PDA<char, Wt>; using I = internal::pda_rule_t<Wt>; using U = user_rule_t<Wt>; using T = typename P::rule_t; constexpr bool wd = is_weighted<Wt>;
    struct D { size_t from, to; uint32_t pre, ol; op_t op; int w; auto tie() const { return std::make_tuple(from, to, pre, ol, (int)op, w); } };
    std::vector<D> v; for (size_t f : {0ul, 2ul, 70000ul}) for (size_t t : {0ul, 2ul, 70000ul}) for (uint32_t p = 0; p < 2; ++p) for (uint32_t o = 0; o < 3; ++o) for (op_t op : {POP, PUSH, SWAP, NOOP}) for (int w = 0; w < (wd ? 3 : 1); ++w) v.push_back({f, t, p, o, op, w});
    auto wt = [](int w) { return weight_of<Wt>(w * 7 - (std::is_signed_v<int> && w == 2 && Wt::is_signed ? 20 : 0)); };
    auto user = [&](const D& d) { if constexpr (wd) return U(d.from, d.pre, d.to, d.op, d.ol, wt(d.w)); else return U(d.from, d.pre, d.to, d.op, d.ol); };
    auto impl = [&](const D& d) { I r; r._to = d.to; r._operation = d.op; r._op_label = d.ol; if constexpr (wd) r._weight = wt(d.w); return r; };
    for (size_t i = 0; i < v.size(); ++i) mc::run_case([&] { return "rule value number " + std::to_string(i); }, [&] {
        const D& a = v[i]; mc::count("impl_runs"); mc::count("nontrivial"); const U ua = user(a); const I ia = impl(a); P pda; for (char c : {'x', 'y', 'z'}) pda.insert_label(c);
        for (auto& b : v) { mc::count("states"); const U ub = user(b); const I ib = impl(b); bool eq = a.tie() == b.tie(), ieq = a.to == b.to && a.op == b.op && a.ol == b.ol && a.w == b.w;
            mc::require((ua == ub) == eq && (ua != ub) == !eq, "equality of rules"); mc::require((ia == ib) == ieq && (ia != ib) == !ieq, "equality of stored rules"); mc::require((int)(ia < ib) + (int)(ib < ia) == (ieq ? 0 : 1), "order of stored rules is not total"); mc::require(!ieq || absl::HashOf(ia) == absl::HashOf(ib), "equal stored rules hash differently"); }
        bool lab = a.op == PUSH || a.op == SWAP; mc::require(ua._from == a.from && ua._to == a.to && ua._pre == a.pre && ua._op == a.op && ua._op_label == a.ol, "fields of a rule");
        mc::require(ua.to_impl_rule() == ia, "to_impl_rule"); const U back(a.from, a.pre, ia); { D c = a; if (!lab) c.ol = std::numeric_limits<uint32_t>::max(); mc::require(back == user(c), "rule made from a stored rule"); }
        auto typed = [&](const T& t) { mc::require(t._from == a.from && t._to == a.to && t._pre == "xyz"[a.pre] && t._op == a.op && (!lab || t._op_label == "xyz"[a.ol]), "fields of the typed rule"); if constexpr (wd) mc::require(t._weight == wt(a.w), "weight of the typed rule"); };
        typed(T(pda, ua)); typed(T(pda, a.from, a.pre, ia)); if constexpr (wd) typed(T(a.from, "xyz"[a.pre], a.to, a.op, "xyz"[a.ol], wt(a.w))); else typed(T(a.from, "xyz"[a.pre], a.to, a.op, "xyz"[a.ol]));
        const U none; mc::require(none._from == std::numeric_limits<size_t>::max() && none._to == std::numeric_limits<size_t>::max() && none._pre == std::numeric_limits<uint32_t>::max() && none._op == POP, "the unset rule"); if constexpr (wd) mc::require(none._weight == Wt::zero(), "weight of the unset rule");
    });
}
int main(int argc, char** argv) {
    mc::Check c; c.property = "C12";
    c.rule = "every sequence of rule additions of the given length over the given operations is applied to the real storage; after every step rules, preconditions, predecessors, counts and the expansion are compared with an abstract set of rules, then the system is copied, converted and states are cleared; all pairs of label sets for the precondition operations; non-trivial = two additions merged into one rule";
    c.assumptions = {"labels named by a rule are known to the system (the documented protocol)", "precondition id lists handed to the untyped interface are sorted", "after clear_state the predecessor lists of other states may still name the cleared state (an over-approximation the searches tolerate)"};
    c.bounds_quick = "332 operations in sequences of 2 (994 when weighted, in sequences of 1; 2 with a stride), 12 / 20 operations in sequences of 3, 12 in sequences of 4; three states, 3 labels (4 with insertion) in several id orders; void, unsigned, signed, vector weights; label sets over 5 labels; larger systems: 1..36 (and around 64, 128, 256) labels in one rule, rules of one state, rules into one state, in 6 patterns each; state numbers to 70000, 65540 labels; precondition operations on progressions up to 70 labels";
    c.bounds_thorough = "weighted pairs in full, sequences of 4 over 20 and of 5 over 12 operations";
    using V = weight<void>; using U = weight<uint32_t>; using I = weight<int32_t>; using VV = weight<std::vector<int32_t>>;
    c.suites = {
        {"rule-values", [] { rule_values<weight<void>>(); rule_values<weight<uint32_t>>(); rule_values<weight<int32_t>>(); rule_values<weight<std::vector<int32_t>>>(); }},
        {"pairs", [] { auto u = universe(1, false); run<V>(u, 1, "cab", false, "unweighted"); run<V>(u, 2, "cab", false, "unweighted"); }},
        {"pairs-weighted", [] { auto u = universe(1, true); run<I>(u, 1, "bca", false, "signed weights"); std::vector<Op> v; for (size_t i = 0; i < u.size(); i += mc::thorough() ? 1 : 5) v.push_back(u[i]); run<I>(v, 2, "bca", false, "signed weights"); }},
        {"triples", [] { auto u = universe(0, false); for (const char* l : {"abc", "cba", "bca"}) { run<V>(u, 3, l, false, "unweighted"); } run<V>(u, 3, "cab", true, "unweighted"); }},
        {"triples-weighted", [] { auto u = universe(0, true); run<U>(u, 3, "cba", false, "unsigned weights"); run<VV>(u, 3, "bac", false, "vector weights"); }},
        {"deep", [] { auto u = universe(0, false); run<V>(u, mc::thorough() ? 5 : 4, "cab", false, "unweighted"); if (mc::thorough()) run<U>(universe(0, true), 4, "cba", false, "unsigned weights"); }},
        {"large", [] { large<V>(); large<I>(); if (mc::thorough()) large<U>(); }},
        {"labels-large", [] { for (int n = 1; n <= 70; ++n) for (int sa = 1; sa <= 5; ++sa) for (int sb = 1; sb <= 5; ++sb) for (int off = 0; off < 2; ++off) mc::run_case([&] { return "progressions with stride " + std::to_string(sa) + " and " + std::to_string(sb) + ", offset " + std::to_string(off) + " below " + std::to_string(n); }, [&] {
            std::vector<uint32_t> a, b, un, in; for (int i = 0; i < n; i += sa) a.push_back(i); for (int i = off; i < n; i += sb) b.push_back(i); std::set_union(a.begin(), a.end(), b.begin(), b.end(), std::back_inserter(un)); std::set_intersection(a.begin(), a.end(), b.begin(), b.end(), std::back_inserter(in));
            auto mk = [&] { internal::labels_t x; x.merge(false, a); return x; }; mc::count("states"); mc::count("impl_runs"); mc::count("nontrivial", n > 1);
            auto x = mk(); x.merge(false, b); mc::require(x.labels() == un, "merge gives the wrong labels"); for (int i = 0; i < n + 2; ++i) mc::require(x.contains(i) == std::binary_search(un.begin(), un.end(), (uint32_t)i), "contains is wrong");
            x = mk(); bool r = x.intersect(b, n + 1); mc::require(x.labels() == in && r == !in.empty(), "intersection gives the wrong labels");
            x = mk(); r = x.noop_pre_filter(std::set<uint32_t>(b.begin(), b.end())); mc::require(x.labels() == in && r == (in.size() != a.size()), "filter gives the wrong labels");
            x = internal::labels_t(); x.merge(true, {}); x.intersect(b, n + 1); mc::require(x.labels() == b && !x.wildcard(), "intersection of the wildcard is wrong"); x.merge(false, a); mc::require(x.labels() == un, "merge after intersection is wrong");
        }); }},
        {"labels", [] { for (int a = 0; a < 33; ++a) for (int b = 0; b < 33; ++b) for (int e = 0; e < 3; ++e) mc::run_case([&] { return "label sets " + std::to_string(a) + (a == 32 ? " (wildcard)" : "") + " and " + std::to_string(b) + (b == 32 ? " (wildcard)" : "") + " (bit masks), operation " + std::to_string(e); }, [&] {
            internal::labels_t x; if (a == 32) x.merge(true, {}); else x.merge(false, bits(a)); mc::count("impl_runs"); mc::count("states");
            auto is = [&](int m, bool wild, const char* w) { if (x.wildcard() != wild || x.labels() != (wild ? std::vector<uint32_t>{} : bits(m))) mc::fail(std::string(w) + " gives the wrong labels"); };
            is(a, a == 32, "construction");
            if (e == 0) { x.merge(b == 32, b == 32 ? std::vector<uint32_t>{} : bits(b)); is(a | b, a == 32 || b == 32, "merge"); internal::labels_t y; y.merge(false, bits(3)); x.clear(); mc::require(x.empty(), "clear leaves labels"); }
            else if (e == 1) { if (b == 32) return; // all labels: 5 (the ids are 0,2,4,6,8, only the number matters)
                bool r = x.intersect(bits(b), 5); int all = 31; int want = (a == 32 ? all : a) & b; if (b == 31) is(a, a == 32, "intersection with all labels"); else is(want, false, "intersection"); mc::require(r == (want != 0), "intersect reports the wrong emptiness"); if (want) mc::count("nontrivial"); }
            else { if (b == 32) return; auto v = bits(b); std::set<uint32_t> s(v.begin(), v.end()); bool r = x.noop_pre_filter(s); int want = (a == 32 ? 31 : a) & b; is(want, false, "filter"); mc::require(r == (a == 32 || want != a), "filter reports the wrong change"); }
        }); }},
    };
    return mc::main_(argc, argv, c);
}
