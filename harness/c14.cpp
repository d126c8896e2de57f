// C14: refinements separate what they must; combining and applying them loses nothing.
#include "mc.h"
#include <pdaaal/cegar/Refinement.h>
#include <pdaaal/cegar/AbstractionMapping.h>
#include <pdaaal/cegar/AbstractionPDA.h>
#include <algorithm>
#include <map>
using namespace pdaaal;
namespace {
template<typename T> T val(int i); // distinct values whose order differs between the types
template<> size_t val<size_t>(int i) { return (size_t)i; }
template<> int val<int>(int i) { return 7 - 2 * i; }
template<> std::string val<std::string>(int i) { const char* s[] = {"b", "", "aa", "a", "zz", "c"}; return s[i]; }
template<typename A> std::string sh(const A& a) { if constexpr (std::is_same_v<A, std::string>) return "'" + a + "'"; else return std::to_string(a); }
template<typename A, typename B> std::string sh(const std::vector<std::pair<A, B>>& v) { std::string r; for (auto& [a, b] : v) r += "(" + sh(a) + "," + sh(b) + ")"; return r; }
template<typename A> std::string sh(const std::vector<A>& v) { std::string r = "{"; for (auto& a : v) r += sh(a) + " "; return r + "}"; }
template<typename A> std::string sh(const Refinement<A>& f) { std::string r; for (auto& p : f.partitions()) r += sh(p); return r; }
// class of every element; fails if an element is in two classes or a class is empty
template<typename A> std::map<A, int> classes(const Refinement<A>& r, const char* what) {
    std::map<A, int> c; int n = 0;
    for (auto& p : r.partitions()) { if (p.empty() && r.partitions().size() > 1) mc::fail(std::string(what) + ": an empty class: " + sh(r)); for (auto& a : p) if (!c.emplace(a, n).second) mc::fail(std::string(what) + ": " + sh(a) + " is in two classes (or twice): " + sh(r)); ++n; }
    return c;
}
template<typename A, typename B> void check_pairs(const std::vector<std::pair<A, B>>& X, const std::vector<std::pair<A, B>>& Y, const std::vector<A>& W) {
    mc::run_case([&] { return "matching " + sh(X) + " mismatching " + sh(Y) + " wildcard " + sh(W); }, [&] {
        mc::count("states"); mc::count("impl_runs", 2); if (X.size() + Y.size() > 2) mc::count("nontrivial");
        std::set<A> as; std::set<B> bs; for (auto* v : {&X, &Y}) for (auto& [a, b] : *v) { as.insert(a); bs.insert(b); } for (auto& a : W) as.insert(a);
        { auto x = X, y = Y; auto w = W; auto [ra, rb] = make_refinement<refinement_option_t::best_refinement>(std::move(x), std::move(y), 3, 5, std::move(w));
          if (ra.abstract_id != 3 || rb.abstract_id != 5) mc::fail("best: wrong abstract id");
          auto ca = classes(ra, "best, first component"); auto cb = classes(rb, "best, second component");
          for (auto& a : as) if (!ca.count(a)) mc::fail("best: " + sh(a) + " has no class"); for (auto& b : bs) if (!cb.count(b)) mc::fail("best: " + sh(b) + " has no class");
          if (ca.size() != as.size() || cb.size() != bs.size()) mc::fail("best: not exactly the involved elements are classified: " + sh(ra) + " / " + sh(rb));
          for (auto& [a, b] : X) { for (auto& [c, d] : Y) { mc::count("transitions"); if (ca[a] == ca[c] && cb[b] == cb[d]) mc::fail("best: (" + sh(a) + "," + sh(b) + ") and (" + sh(c) + "," + sh(d) + ") are not separated: " + sh(ra) + " / " + sh(rb)); } for (auto& c : W) if (ca[a] == ca[c]) mc::fail("best: " + sh(a) + " and the wildcard element " + sh(c) + " are not separated: " + sh(ra)); } }
        { auto x = X, y = Y; auto w = W; auto [ra, rb] = make_refinement<refinement_option_t::fast_refinement>(std::move(x), std::move(y), 3, 5, std::move(w));
          if (ra.abstract_id != 3 || rb.abstract_id != 5) mc::fail("fast: wrong abstract id");
          auto ca = classes(ra, "fast, first component"); auto cb = classes(rb, "fast, second component");
          for (auto& [a, n] : ca) if (!as.count(a)) mc::fail("fast: classifies an element that is not involved"); for (auto& [b, n] : cb) if (!bs.count(b)) mc::fail("fast: classifies an element that is not involved");
          bool some = false; // at least one matching and one mismatching pair must be separated
          auto apart = [](auto& c, auto& u, auto& v) { return c.count(u) && c.count(v) && c[u] != c[v]; };
          for (auto& [a, b] : X) { for (auto& [c, d] : Y) if (apart(ca, a, c) || apart(cb, b, d)) some = true; for (auto& c : W) if (apart(ca, a, c)) some = true; }
          if (!some) mc::fail("fast: nothing is separated: " + sh(ra) + " / " + sh(rb)); }
    });
}
template<typename A, typename B> void pairs(int na, int nb, bool wild, int orders) {
    int n = na * nb; uint64_t tot = 1; for (int i = 0; i < n; ++i) tot *= 3;
    for (uint64_t m = 0; m < tot; ++m) {
        std::vector<std::pair<A, B>> X, Y; uint64_t k = m; std::vector<char> used(na, 0);
        for (int i = 0; i < n; ++i, k /= 3) { int d = k % 3; if (!d) continue; used[i / nb] = 1; (d == 1 ? X : Y).emplace_back(val<A>(i / nb), val<B>(i % nb)); }
        if (X.empty()) continue;
        for (int w = 0; w < (wild ? 1 << na : 1); ++w) {
            std::vector<A> W; bool ok = true; for (int a = 0; a < na; ++a) if (w >> a & 1) { if (used[a]) ok = false; W.push_back(val<A>(a)); } if (!ok || (Y.empty() && W.empty())) continue; std::sort(W.begin(), W.end());
            for (int o = 0; o < orders; ++o) { auto x = X, y = Y; if (o == 1) { std::reverse(x.begin(), x.end()); std::reverse(y.begin(), y.end()); } if (o == 2) { x.push_back(x[0]); if (!y.empty()) y.insert(y.begin(), y.back()); } check_pairs<A, B>(x, y, W); }
        }
    }
}
// ---- combining
template<typename T> struct Req { std::vector<T> a, b; };
template<typename T> std::vector<Req<T>> requests(int n) { std::vector<Req<T>> r; int tot = 1; for (int i = 0; i < n; ++i) tot *= 3; for (int m = 0; m < tot; ++m) { Req<T> q; int k = m; for (int i = 0; i < n; ++i, k /= 3) { if (k % 3 == 1) q.a.push_back(val<T>(i)); if (k % 3 == 2) q.b.push_back(val<T>(i)); } if (!q.a.empty() && !q.b.empty()) r.push_back(q); } return r; }
template<typename T> void verify_combined(const Refinement<T>& f, const std::vector<const Req<T>*>& qs, const std::vector<std::vector<T>>& start) {
    auto c = classes(f, "combine"); std::set<T> all; for (auto& p : start) all.insert(p.begin(), p.end()); for (auto* q : qs) { all.insert(q->a.begin(), q->a.end()); all.insert(q->b.begin(), q->b.end()); }
    for (auto& x : all) if (!c.count(x)) mc::fail(sh(x) + " was lost: " + sh(f)); if (c.size() != all.size()) mc::fail("not exactly the mentioned elements are classified: " + sh(f));
    auto apart = [&](const T& x, const T& y) { mc::count("transitions"); if (c[x] == c[y]) mc::fail(sh(x) + " and " + sh(y) + " are no longer separated: " + sh(f)); };
    for (auto* q : qs) for (auto& x : q->a) for (auto& y : q->b) apart(x, y);
    for (size_t i = 0; i < start.size(); ++i) for (size_t j = 0; j < i; ++j) for (auto& x : start[i]) for (auto& y : start[j]) apart(x, y);
}
template<typename T> void sequences(int n, int len, bool header) {
    auto R = requests<T>(n); std::vector<const Req<T>*> qs; std::vector<int> ids;
    std::function<void()> rec = [&] {
        if (qs.size() >= 1) mc::run_case([&] { std::string s = "combine"; for (size_t i = 0; i < qs.size(); ++i) s += " [" + (header ? std::to_string(ids[i]) + ": " : std::string()) + sh(qs[i]->a) + "|" + sh(qs[i]->b) + "]"; return s; }, [&] {
            mc::count("states"); mc::count("impl_runs"); if (qs.size() > 1) mc::count("nontrivial");
            auto mk = [](const Req<T>* q, size_t id, bool swap) { auto a = q->a, b = q->b; std::reverse(a.begin(), a.end()); return swap ? Refinement<T>(std::move(b), std::move(a), id) : Refinement<T>(std::move(a), std::move(b), id); };
            if (header) { HeaderRefinement<T> h; for (size_t i = 0; i < qs.size(); ++i) h.combine(mk(qs[i], ids[i], i % 2)); if (h.empty()) mc::fail("empty after combining"); std::set<size_t> seen;
                for (auto& r : h.refinements()) { if (!seen.insert(r.abstract_id).second) mc::fail("two refinements of the same class"); std::vector<const Req<T>*> own; for (size_t i = 0; i < qs.size(); ++i) if ((size_t)ids[i] == r.abstract_id) own.push_back(qs[i]); if (own.empty()) mc::fail("a refinement of a class nobody asked for"); verify_combined<T>(r, own, {}); }
                for (size_t i = 0; i < qs.size(); ++i) if (!seen.count(ids[i])) mc::fail("a requested refinement was dropped"); }
            else { Refinement<T> r = mk(qs[0], 4, false); for (size_t i = 1; i < qs.size(); ++i) r.combine(mk(qs[i], 4, i % 2)); if (r.abstract_id != 4) mc::fail("the id changed"); verify_combined<T>(r, qs, {}); }
        });
        if ((int)qs.size() == len) return;
        for (auto& q : R) for (int id = 0; id < (header ? 2 : 1); ++id) { qs.push_back(&q); ids.push_back(id); rec(); qs.pop_back(); ids.pop_back(); }
    };
    rec();
}
// a request combined with every possible refinement of >=2 classes (as they arise from earlier combinations)
void onto_partition(int n, int maxc) {
    auto R = requests<size_t>(n); std::vector<int> cls(n, -1);
    std::function<void(int, int)> rec = [&](int i, int used) {
        if (i < n) { for (int c = -1; c <= std::min(used, maxc - 1); ++c) { cls[i] = c; rec(i + 1, std::max(used, c + 1)); } return; }
        if (used < 2) return; std::vector<std::vector<size_t>> P(used); for (int k = 0; k < n; ++k) if (cls[k] >= 0) P[cls[k]].push_back(k);
        for (auto& q : R) mc::run_case([&] { std::string s = "combine classes"; for (auto& p : P) s += " " + sh(p); return s + " with " + sh(q.a) + "|" + sh(q.b); }, [&] { mc::count("states"); mc::count("impl_runs"); mc::count("nontrivial"); Refinement<size_t> r(1); r.partitions() = P; auto a = q.a, b = q.b; r.combine(Refinement<size_t>(std::move(a), std::move(b), 1)); std::vector<const Req<size_t>*> qs{&q}; verify_combined<size_t>(r, qs, P);
            Refinement<size_t> e(1); a = q.a; b = q.b; e.combine(Refinement<size_t>(std::move(a), std::move(b), 1)); verify_combined<size_t>(e, qs, {}); });
    };
    rec(0, 0);
}
// ---- mappings
template<typename C> void verify_map(const RefinementMapping<C>& m, const std::map<C, size_t>& want, size_t size, const std::vector<C>& absent) {
    if (m.size() != size) mc::fail("size " + std::to_string(m.size()) + ", expected " + std::to_string(size));
    std::map<size_t, std::set<C>> inv; for (auto& [c, id] : want) { inv[id].insert(c); if (m.exists(c) != std::make_pair(true, id)) mc::fail(sh(c) + " maps to class " + std::to_string(m.exists(c).second) + ", expected " + std::to_string(id)); for (size_t k = 0; k <= size; ++k) if (m.maps_to(c, k) != (k == id)) mc::fail("maps_to(" + sh(c) + "," + std::to_string(k) + ") is wrong"); }
    for (auto& c : absent) { if (m.exists(c).first) mc::fail(sh(c) + " is in the mapping"); for (size_t k = 0; k < size; ++k) if (m.maps_to(c, k)) mc::fail(sh(c) + " maps to a class"); }
    for (size_t k = 0; k <= size; ++k) { auto v = m.get_concrete_values(k); if (v.size() != inv[k].size() || std::set<C>(v.begin(), v.end()) != inv[k]) mc::fail("class " + std::to_string(k) + " holds " + sh(v)); std::vector<C> w; auto range = m.get_concrete_values_range(k); for (auto it = range.begin(); it != range.end(); ++it) w.push_back(*it); if (w != v) mc::fail("the range of class " + std::to_string(k) + " holds " + sh(w) + " instead of " + sh(v)); }
    std::vector<C> all; for (auto& [c, id] : want) all.push_back(c); int n = (int)all.size();
    for (int s = 0; s < (1 << n); ++s) { std::vector<C> in; std::set<size_t> ids; for (int i = 0; i < n; ++i) if (s >> i & 1) { in.push_back(all[i]); ids.insert(want.at(all[i])); } if (m.encode_many(in) != std::vector<size_t>(ids.begin(), ids.end())) mc::fail("encode_many of " + sh(in) + " is wrong"); }
}
template<typename C, typename AT> void mappings(int n, int k, int depth) { // n values, each assigned to one of k abstract values, inserted in every rotation; then every sequence of refinements
    int tot = 1; for (int i = 0; i < n; ++i) tot *= k;
    for (int f = 0; f < tot; ++f) for (int rot = 0; rot < n; ++rot) {
        std::map<C, AT> fn; { int x = f; for (int i = 0; i < n; ++i, x /= k) fn[val<C>(i)] = val<AT>(x % k); }
        auto build = [&](std::map<C, size_t>& want, bool extra) {
            std::map<AT, size_t> ids; AbstractionMapping<C, AT> am(std::function<AT(const C&)>([fn](const C& c) { auto it = fn.find(c); return it == fn.end() ? val<AT>(0) : it->second; }));
            for (int rep = 0; rep < 2; ++rep) for (int i = 0; i < n; ++i) { C c = val<C>((i + rot) % n); AT a = fn[c];
                if (extra && rep == 0 && i == n - 1) { bool fr = !ids.count(val<AT>(k - 1)); size_t id = fr ? ids.size() : ids[val<AT>(k - 1)]; auto r = am.insert_abstract(val<AT>(k - 1)); if (r != std::make_pair(fr, id)) mc::fail("insert_abstract gives a wrong answer"); ids.emplace(val<AT>(k - 1), id);
                    bool fr2 = !ids.count(a); size_t id2 = fr2 ? ids.size() : ids[a]; auto e0 = am.exists(c, true); if (e0.first != !fr2 || (!fr2 && e0.second != id2)) mc::fail("exists of an ignored value is wrong"); auto r2 = am.insert(c, true); if (r2 != std::make_pair(fr2, id2)) mc::fail("insert of an ignored value gives a wrong answer"); ids.emplace(a, id2); if (am.exists(c).first) mc::fail("an ignored value is in the mapping"); }
                auto before = am.exists(c); if (before.first != (want.count(c) > 0)) mc::fail("exists(" + sh(c) + ") is wrong before insertion " + std::to_string(rep)); if (before.first && before.second != want[c]) mc::fail("exists(" + sh(c) + ") gives a wrong class");
                bool fresh = !ids.count(a) ; size_t id = fresh ? ids.size() : ids[a]; auto r = am.insert(c); if (r != std::make_pair(fresh && !want.count(c), id)) mc::fail("insert(" + sh(c) + ") returned (" + std::to_string(r.first) + "," + std::to_string(r.second) + ")"); ids.emplace(a, id); want[c] = id;
                if (am.map(c) != a || am.get_abstract_value(id) != a) mc::fail("wrong abstract value of " + sh(c)); }
            if (am.size() != ids.size()) mc::fail("wrong number of abstract values"); for (int x = 0; x <= k; ++x) { AT a = val<AT>(x); auto v = am.get_concrete_values(a); std::vector<C> w; auto rg = am.get_concrete_values_range(a); for (auto it = rg.begin(); it != rg.end(); ++it) w.push_back(*it); std::set<C> ex; for (auto& [c, y] : fn) if (y == a) ex.insert(c); if (v != w || std::set<C>(v.begin(), v.end()) != ex || v.size() != ex.size()) mc::fail("concrete values of an abstract value are wrong"); }
            return std::make_pair(std::move(am), ids.size());
        };
        auto show = [&] { std::string s; for (int i = 0; i < n; ++i) s += " " + sh(val<C>((i + rot) % n)) + "->" + sh(fn[val<C>((i + rot) % n)]); return s; };
        mc::run_case([&] { return "abstraction" + show(); }, [&] { mc::count("states"); mc::count("impl_runs"); { std::map<C, size_t> w; build(w, true); } std::map<C, size_t> want; auto [am, size] = build(want, false); RefinementMapping<C> m(std::move(am)); verify_map<C>(m, want, size, {val<C>(n)}); });
        // refinement sequences: every step splits one class by a partial partition of its members into up to 3 parts
        struct Step { size_t id; std::vector<std::vector<C>> P; };
        std::vector<Step> steps;
        std::function<void(const std::map<C, size_t>&, size_t)> rec = [&](const std::map<C, size_t>& cur, size_t size) {
            std::map<size_t, std::vector<C>> inv; for (auto& [c, id] : cur) inv[id].push_back(c);
            for (auto& [id, mem] : inv) { int t = 1; for (size_t i = 0; i < mem.size(); ++i) t *= 4;
                for (int x = 0; x < t; ++x) { Step st; st.id = id; std::vector<std::vector<C>> P(3); int y = x; for (size_t i = 0; i < mem.size(); ++i, y /= 4) if (y % 4) P[y % 4 - 1].push_back(mem[i]); if (P[1].empty() && !P[2].empty()) continue; if (P[0].empty()) continue; for (auto& p : P) if (!p.empty()) st.P.push_back(p);
                    steps.push_back(st); std::map<C, size_t> next; size_t nsize = size;
                    mc::run_case([&] { std::string s = "abstraction" + show() + ", refined:"; for (auto& z : steps) { s += " class " + std::to_string(z.id) + ":"; for (auto& p : z.P) s += sh(p); } return s; }, [&] {
                        mc::count("states"); mc::count("impl_runs"); mc::count("nontrivial"); std::map<C, size_t> want; auto [am, sz] = build(want, false); RefinementMapping<C> m(std::move(am));
                        for (auto& z : steps) { Refinement<C> r(z.id); r.partitions() = z.P; auto old = want; size_t osz = m.size();
                            for (auto& p : z.P) for (auto& c : p) if (old[c] != z.id) return; // the implementation numbered the classes of an earlier step differently: this sequence is not applicable
                            m.refine(r); mc::count("transitions");
                            // any numbering of the new classes is fine: read it off, then check it is a split of that class only
                            size_t expect = osz + (z.P.size() >= 2 ? z.P.size() - 1 : 0); std::map<C, int> part; for (size_t i = 0; i < z.P.size(); ++i) for (auto& c : z.P[i]) part[c] = (int)i;
                            for (auto& [c, id] : old) { auto [ex, nid] = m.exists(c); if (!ex) mc::fail(sh(c) + " was lost"); if (!part.count(c) && nid != id) mc::fail(sh(c) + " was moved although it is not part of the refinement"); if (part.count(c) && nid != id && nid < osz) mc::fail(sh(c) + " was moved into an old class"); want[c] = nid; }
                            for (auto& [c, i] : part) for (auto& [d, j] : part) if ((want[c] == want[d]) != (i == j || z.P.size() < 2)) mc::fail(sh(c) + " and " + sh(d) + (i == j ? " were separated" : " were not separated"));
                            if (m.size() != expect) mc::fail("the number of classes is " + std::to_string(m.size()) + ", expected " + std::to_string(expect)); verify_map<C>(m, want, m.size(), {val<C>(n)}); }
                    });
                    if ((int)steps.size() < depth) { // model: the largest part stays (first of the largest)
                        next = cur; if (st.P.size() >= 2) { size_t big = 0; for (size_t i = 1; i < st.P.size(); ++i) if (st.P[i].size() > st.P[big].size()) big = i; for (size_t i = 0; i < st.P.size(); ++i) if (i != big) { for (auto& c : st.P[i]) next[c] = nsize; ++nsize; } }
                        rec(next, nsize); }
                    steps.pop_back(); } }
        };
        std::map<C, size_t> cur; { std::map<AT, size_t> ids; for (int i = 0; i < n; ++i) { C c = val<C>((i + rot) % n); auto it = ids.emplace(fn[c], ids.size()).first; cur[c] = it->second; } std::set<size_t> u; for (auto& [c, i] : cur) u.insert(i); rec(cur, u.size()); }
    }
}
// ---- the mapping inside an abstract pushdown system: the label interface, refinement, container conversion
template<typename C, typename P> void verify_pda(const P& p, const std::map<C, size_t>& want, size_t size, const C& absent, const char* when) {
    auto bad = [&](const std::string& s) { mc::fail(std::string(when) + ": " + s); };
    if (p.number_of_labels() != size) bad("number of labels " + std::to_string(p.number_of_labels()) + ", expected " + std::to_string(size));
    std::map<size_t, std::set<C>> inv; for (auto& [c, id] : want) { inv[id].insert(c); if (p.abstract_label(c) != std::make_pair(true, id)) bad(sh(c) + " has the wrong abstract label"); for (size_t k = 0; k <= size; ++k) if (p.maps_to(c, k) != (k == id)) bad("maps_to(" + sh(c) + "," + std::to_string(k) + ") is wrong"); }
    if (p.abstract_label(absent).first) bad("an absent label has an abstract label"); for (size_t k = 0; k < size; ++k) if (p.maps_to(absent, k)) bad("an absent label maps to a class");
    for (size_t k = 0; k < size; ++k) { auto v = p.get_concrete_labels(k); if (v.size() != inv[k].size() || std::set<C>(v.begin(), v.end()) != inv[k]) bad("class " + std::to_string(k) + " holds " + sh(v)); std::vector<C> w; auto range = p.get_concrete_labels_range(k); for (auto it = range.begin(); it != range.end(); ++it) w.push_back(*it); if (w != v) bad("the range of a class is wrong"); }
    std::vector<C> all; for (auto& [c, id] : want) all.push_back(c); std::sort(all.begin(), all.end()); int n = (int)all.size();
    for (int s = 0; s < (1 << n); ++s) { std::vector<C> in; std::set<C> set; for (int i = 0; i < n; ++i) if (s >> i & 1) { in.push_back(all[i]); set.insert(all[i]); } std::vector<uint32_t> pos, neg; for (auto& [id, mem] : inv) { bool any = false, full = true; for (auto& c : mem) (set.count(c) ? any : full) = set.count(c) > 0; if (any) pos.push_back((uint32_t)id); if (any && full) neg.push_back((uint32_t)id); }
        mc::count("transitions", 2); if (p.encode_labels(in, false) != pos) bad("encoding of " + sh(in)); if (p.encode_labels(in, true) != neg) bad("encoding of the complement of " + sh(in)); }
}
template<typename C> void abstract_pda(int n, int k, bool header) {
    int tot = 1; for (int i = 0; i < n; ++i) tot *= k;
    for (int f = 0; f < tot; ++f) {
        std::map<C, int> fn; { int x = f; for (int i = 0; i < n; ++i, x /= k) fn[val<C>(i)] = x % k; }
        std::map<int, std::vector<C>> groups; for (auto& [c, a] : fn) groups[a].push_back(c);
        // one split of every group: element -> part (0 = not mentioned)
        std::vector<std::pair<int, std::vector<int>>> splits; for (auto& [a, mem] : groups) { int t = 1; for (size_t i = 0; i < mem.size(); ++i) t *= 3; for (int x = 0; x < t; ++x) { std::vector<int> part; int y = x; bool h1 = false, h2 = false; for (size_t i = 0; i < mem.size(); ++i, y /= 3) { part.push_back(y % 3); h1 |= y % 3 == 1; h2 |= y % 3 == 2; } if (h1 && h2) splits.push_back({a, part}); } }
        splits.push_back({-1, {}});
        for (size_t i = 0; i < splits.size(); ++i) for (size_t j = 0; j < splits.size(); ++j) for (int how = 0; how < 3; ++how) {
            if (splits[i].first >= 0 && splits[i].first == splits[j].first) continue; if (splits[j].first < 0 && j + 1 != splits.size()) continue; if (header && (splits[i].first < 0 || splits[j].first < 0)) continue;
            mc::run_case([&] { std::string s = "abstract system"; for (auto& [c, a] : fn) s += " " + sh(c) + "->" + std::to_string(a); for (auto* x : {&splits[i], &splits[j]}) if (x->first >= 0) { s += ", split group " + std::to_string(x->first) + " as"; for (int p : x->second) s += " " + std::to_string(p); } return s + (header ? " (one header refinement)" : "") + ", way " + std::to_string(how); }, [&] {
                mc::count("states"); mc::count("impl_runs"); if (splits[i].first >= 0) mc::count("nontrivial"); C absent = val<C>(n);
                std::unordered_set<C> labels; for (auto& [c, a] : fn) labels.insert(c); std::function<int(const C&)> g = [fn](const C& c) { auto it = fn.find(c); return it == fn.end() ? 0 : it->second; };
                using H = AbstractionPDA<C, weight<void>, fut::type::hash>; using V = AbstractionPDA<C, weight<void>, fut::type::vector>; H h(labels, std::move(g));
                std::map<C, size_t> want; std::set<size_t> ids; for (auto& [c, a] : fn) { auto [e, id] = h.abstract_label(c); if (!e) mc::fail(sh(c) + " has no abstract label"); want[c] = id; ids.insert(id); } for (auto& [c, a] : fn) for (auto& [d, b] : fn) if ((want[c] == want[d]) != (a == b)) mc::fail("labels are grouped differently from the abstraction"); if (!ids.empty() && *ids.rbegin() >= ids.size()) mc::fail("the abstract labels are not numbered 0..");
                size_t size = ids.size(); verify_pda<C>(h, want, size, absent, "built");
                auto apply = [&](auto& p, std::vector<const std::pair<int, std::vector<int>>*> todo, bool hd) {
                    HeaderRefinement<C> hr; std::map<C, int> part; auto old = want; size_t osz = size;
                    for (auto* x : todo) { if (x->first < 0) continue; std::vector<C> a, b; auto& mem = groups[x->first]; for (size_t m = 0; m < mem.size(); ++m) { if (x->second[m] == 1) a.push_back(mem[m]); if (x->second[m] == 2) b.push_back(mem[m]); if (x->second[m]) part[mem[m]] = x->first * 4 + x->second[m]; } size_t id = old[a[0]]; ++size; Refinement<C> r(std::move(a), std::move(b), id); if (hd) hr.combine(std::move(r)); else p.refine(r); }
                    if (hd) p.refine(hr);
                    for (auto& [c, id] : old) { auto [e, nid] = p.abstract_label(c); if (!e) mc::fail(sh(c) + " was lost"); if (!part.count(c) && nid != id) mc::fail(sh(c) + " was moved although it is not part of the refinement"); if (part.count(c) && nid != id && nid < osz) mc::fail(sh(c) + " was moved into an old class"); want[c] = nid; }
                    for (auto& [c, x] : part) for (auto& [d, y] : part) if ((want[c] == want[d]) != (x == y)) mc::fail(sh(c) + " and " + sh(d) + (x == y ? " were separated" : " were not separated")); };
                auto* A = &splits[i]; auto* B = &splits[j];
                if (how == 0) { if (header) apply(h, {A, B}, true); else { apply(h, {A}, false); verify_pda<C>(h, want, size, absent, "after one refinement"); apply(h, {B}, false); } verify_pda<C>(h, want, size, absent, "after refining"); V v(std::move(h)); verify_pda<C>(v, want, size, absent, "converted after refining"); }
                else if (how == 1) { V v(std::move(h)); verify_pda<C>(v, want, size, absent, "converted"); if (header) apply(v, {A, B}, true); else { apply(v, {A}, false); apply(v, {B}, false); } verify_pda<C>(v, want, size, absent, "after refining"); H w(v.move_label_map()); verify_pda<C>(w, want, size, absent, "taken over by a new system"); }
                else { if (header) apply(h, {A, B}, true); else apply(h, {A}, false); V v(h.move_label_map()); verify_pda<C>(v, want, size, absent, "taken over"); if (!header) { apply(v, {B}, false); verify_pda<C>(v, want, size, absent, "refined after being taken over"); } }
            });
        }
    }
}
// ---- large families
void biggrid(int n) {
    using V = std::vector<std::pair<size_t, size_t>>; size_t N = n; auto run = [&](auto x, auto y, std::vector<size_t> w = {}) { V X, Y; for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < N; ++j) { if (x(i, j)) X.emplace_back(i, j); else if (y(i, j)) Y.emplace_back(i, j); } if (X.empty() || (Y.empty() && w.empty())) return; if (X.size() * Y.size() > 4000000) return; check_pairs<size_t, size_t>(X, Y, w); std::reverse(X.begin(), X.end()); check_pairs<size_t, size_t>(X, Y, w); };
    run([](size_t i, size_t j) { return i == j; }, [](size_t, size_t) { return true; }); run([](size_t i, size_t j) { return i < j; }, [](size_t, size_t) { return true; }); run([](size_t i, size_t j) { return (i + j) % 2; }, [](size_t, size_t) { return true; }); run([](size_t i, size_t j) { return i == j; }, [](size_t i, size_t j) { return j == i + 1; }); run([](size_t, size_t j) { return j == 0; }, [](size_t, size_t j) { return j == 1; });
    run([](size_t i, size_t) { return i == 0; }, [](size_t i, size_t) { return i == 1; }); run([](size_t i, size_t j) { return i == 0 && j == 0; }, [](size_t i, size_t j) { return i == 0 || j == 0; }); run([](size_t i, size_t j) { return i == j; }, [](size_t i, size_t j) { return i == 0 || j == 0; }); run([](size_t i, size_t j) { return i % 3 == j % 3; }, [](size_t i, size_t j) { return (i * j) % 5 == 1; });
    run([=](size_t i, size_t j) { return i == j && i < N / 2; }, [=](size_t i, size_t j) { return j == i + 1 && i + 1 < N / 2; }, [=] { std::vector<size_t> w; for (size_t i = N; i < 2 * N; ++i) w.push_back(i); return w; }()); run([](size_t i, size_t j) { return j == 0 && i % 2; }, [](size_t, size_t) { return false; }, {N + 1, N + 2});
}
void bigcombine(int n, int kind) {
    mc::run_case([&] { return "combining refinements of " + std::to_string(n) + " elements, way " + std::to_string(kind); }, [&] {
        std::vector<Req<size_t>> R; auto add = [&](auto f) { Req<size_t> q; for (int i = 0; i < n; ++i) { int v = f(i); if (v == 1) q.a.push_back(i); if (v == 2) q.b.push_back(i); } if (!q.a.empty() && !q.b.empty()) R.push_back(q); };
        switch (kind) { case 0: for (int b = 0; (1 << b) < n; ++b) add([=](int i) { return 1 + (i >> b & 1); }); break; case 1: for (int t = 1; t < n; t += std::max(1, n / 12)) add([=](int i) { return i < t ? 1 : 2; }); break; case 2: for (int m = 2; m < 9; ++m) add([=](int i) { return i % m == 0 ? 1 : i % m == 1 ? 2 : 0; }); break; case 3: for (int t = 0; t < n; t += std::max(1, n / 16)) add([=](int i) { return i == t ? 1 : i / 7 == t / 7 ? 2 : 0; }); break; default: add([=](int i) { return i < n / 2 ? 1 : 2; }); add([=](int i) { return i % 2 ? 1 : 2; }); add([=](int i) { return i % 3 == 0 ? 1 : 2; }); add([=](int i) { return i == n - 1 ? 1 : 2; }); }
        if (R.empty()) return; mc::count("states"); mc::count("impl_runs"); mc::count("nontrivial"); std::vector<const Req<size_t>*> qs; for (auto& q : R) qs.push_back(&q);
        auto mk = [](const Req<size_t>& q, size_t id) { auto a = q.a, b = q.b; return Refinement<size_t>(std::move(a), std::move(b), id); };
        Refinement<size_t> r = mk(R[0], 9); for (size_t i = 1; i < R.size(); ++i) r.combine(mk(R[i], 9)); verify_combined<size_t>(r, qs, {});
        HeaderRefinement<size_t> h; for (size_t i = 0; i < R.size(); ++i) h.combine(mk(R[i], i % 3)); for (auto& x : h.refinements()) { std::vector<const Req<size_t>*> own; for (size_t i = 0; i < R.size(); ++i) if (i % 3 == x.abstract_id) own.push_back(&R[i]); if (own.empty()) mc::fail("a refinement nobody asked for"); verify_combined<size_t>(x, own, {}); } if (h.refinements().size() != std::min<size_t>(3, R.size())) mc::fail("a refinement was dropped");
    });
}
template<typename C> C bigval(int i); template<> size_t bigval<size_t>(int i) { return (size_t)i * 40503 % 1000003; } template<> std::string bigval<std::string>(int i) { return "v" + std::to_string(i * 7919 % 1000003); }
template<typename C> void bigmapping(int n, int k, int kind) {
    mc::run_case([&] { return std::to_string(n) + " values in " + std::to_string(k) + " classes, refined in way " + std::to_string(kind); }, [&] {
        std::map<C, int> idx; for (int i = 0; i < n; ++i) idx[bigval<C>(i)] = i; AbstractionMapping<C, int> am(std::function<int(const C&)>([&, k](const C& c) { return idx.at(c) % k; })); std::vector<size_t> cls(n); for (int i = 0; i < n; ++i) { auto [f, id] = am.insert(bigval<C>(i)); mc::require(id == (size_t)(i % k) && f == (i < k), "insert of a value is wrong"); cls[i] = id; } mc::require(am.size() == (size_t)std::min(n, k), "wrong number of abstract values");
        RefinementMapping<C> m(std::move(am)); mc::count("states"); mc::count("impl_runs"); mc::count("nontrivial");
        auto verify = [&] { std::map<size_t, std::set<C>> inv; for (int i = 0; i < n; ++i) { auto [e, id] = m.exists(bigval<C>(i)); mc::count("transitions"); if (!e || id != cls[i]) mc::fail("value " + std::to_string(i) + " is in the wrong class"); if (!m.maps_to(bigval<C>(i), id) || m.maps_to(bigval<C>(i), id + 1)) mc::fail("maps_to is wrong"); inv[id].insert(bigval<C>(i)); }
            for (size_t c = 0; c < m.size(); ++c) { auto v = m.get_concrete_values(c); if (v.size() != inv[c].size() || std::set<C>(v.begin(), v.end()) != inv[c]) mc::fail("class " + std::to_string(c) + " does not hold its values"); } for (int step : {1, 3, 7}) { std::vector<C> in; std::set<size_t> out; for (int i = 0; i < n; i += step) { in.push_back(bigval<C>(i)); out.insert(cls[i]); } if (m.encode_many(in) != std::vector<size_t>(out.begin(), out.end())) mc::fail("encode_many is wrong"); } };
        verify();
        for (int round = 0; round < 6; ++round) { size_t target = cls[(size_t)round * 131 % n]; std::vector<int> mem; for (int i = 0; i < n; ++i) if (cls[i] == target) mem.push_back(i); int parts = kind == 0 ? 2 : kind == 1 ? std::max<int>(2, (int)mem.size()) : 3 + round; std::vector<std::vector<C>> P(parts); std::vector<int> part(n, -1);
            for (size_t x = 0; x < mem.size(); ++x) { int q = kind == 0 ? (x == mem.size() / 2) : kind == 1 ? (int)x : (int)((x * x + round) % (parts + 1)) - 1; if (q >= 0) { P[q].push_back(bigval<C>(mem[x])); part[mem[x]] = q; } } std::vector<std::vector<C>> Q; for (auto& p : P) if (!p.empty()) Q.push_back(p); if (Q.size() < 2) continue;
            Refinement<C> r(target); r.partitions() = Q; size_t osz = m.size(); m.refine(r); if (m.size() != osz + Q.size() - 1) mc::fail("wrong number of classes"); std::map<int, size_t> seen; std::set<size_t> used; for (int i = 0; i < n; ++i) { auto [e, id] = m.exists(bigval<C>(i)); if (!e) mc::fail("a value was lost"); if (part[i] < 0) { if (id != cls[i]) mc::fail("a value that is not refined was moved"); continue; } if (id != target && (id < osz || id >= m.size())) mc::fail("a value was moved to a wrong class"); auto [it, fresh] = seen.emplace(part[i], id); if (it->second != id) mc::fail("values of one part were separated"); if (fresh && !used.insert(id).second) mc::fail("two parts were not separated"); cls[i] = id; }
            verify(); }
    });
}
}
int main(int argc, char** argv) {
    mc::Check c; c.property = "C14";
    c.rule = "every set of matching/mismatching pairs over a small universe: classes are disjoint, complete and separate every matching from every mismatching pair; every sequence of combined refinements: all requested separations hold; every abstraction and sequence of refinements applied to it: the mapping is a function, only the refined class is split, as requested";
    c.assumptions = {"matching and mismatching pairs are disjoint; wildcard elements occur in no pair (preconditions asserted by the code)", "refined elements belong to the refined class", "fast refinement only has to separate some matching pair from some mismatching pair", "which part of a refined class keeps its number is left open, but sequences of refinements are generated for the choice of the largest part", "ptrie replaced by an equivalent std container"};
    c.bounds_quick = "pairs: 3x3 universe (all 3^9 labellings, wildcard subsets, 3 orders, 3 value types), 2x4, 4x2, 1x5, 5x1; combine: 4 elements length <=3, 6 elements length 2, onto every partition of 5 elements into <=3 classes, two class ids; mappings: 4 values, 3 abstract values, 2 refinement steps; abstract systems: 5 labels, 2-3 groups, every pair of splits, three ways of refining and converting; families with up to 65x65 pairs, combinations over up to 300 elements, mappings of up to 20000 values and 5000 classes";
    c.bounds_thorough = "pairs 4x3; combine 5 elements length 3, 4 elements length 4; mappings 5 values";
    c.suites = {{"pairs", [] { pairs<size_t, size_t>(3, 3, true, 3); pairs<std::string, int>(3, 3, true, 1); pairs<int, std::string>(2, 4, true, 2); pairs<size_t, std::string>(4, 2, true, 2); pairs<size_t, int>(1, 5, true, 1); pairs<std::string, std::string>(5, 1, true, 1); if (mc::thorough()) pairs<size_t, int>(4, 3, true, 1); }},
        {"combine", [] { sequences<size_t>(4, mc::thorough() ? 4 : 3, false); sequences<std::string>(3, 4, false); sequences<size_t>(6, 2, false); if (mc::thorough()) sequences<int>(5, 3, false); }},
        {"header", [] { sequences<size_t>(3, 4, true); sequences<std::string>(4, 2, true); }},
        {"onto", [] { onto_partition(5, 3); onto_partition(mc::thorough() ? 6 : 4, 4); }},
        {"mapping", [] { mappings<size_t, int>(4, 3, mc::thorough() ? 3 : 2); mappings<std::string, std::string>(3, 3, 3); mappings<std::string, size_t>(4, 2, 2); if (mc::thorough()) mappings<size_t, size_t>(5, 2, 2); }},
        {"system", [] { abstract_pda<size_t>(4, 3, false); abstract_pda<std::string>(4, 2, true); abstract_pda<int>(5, 2, true); abstract_pda<std::string>(mc::thorough() ? 5 : 3, 3, false); }},
        {"large", [] { for (int n : {5, 6, 8, 9, 12, 16, 17, 24, 33, 40, 65}) biggrid(n); for (int n : {7, 16, 17, 33, 64, 65, 130, 257, 300}) for (int kind = 0; kind < 5; ++kind) bigcombine(n, kind); for (int n : {20, 65, 257, 1000, mc::thorough() ? 70000 : 20000}) for (int k : {1, 2, 17, 256, 300, 5000}) for (int kind = 0; kind < 3; ++kind) { bigmapping<size_t>(n, k, kind); bigmapping<std::string>(n, k, kind); } }}};
    return mc::main_(argc, argv, c);
}
