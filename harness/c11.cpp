// C11: containers and worksets behave like abstract sets and maps, after every operation sequence up to a depth.
#include "mc.h"
#include <pdaaal/utils/fut_set.h>
#include <pdaaal/utils/more_algorithms.h>
#include <pdaaal/utils/workset.h>
#include <optional>
#include <tuple>
using namespace pdaaal;
// enumerate all sequences of length exactly 1..depth over an alphabet of `a` letters, body gets the sequence
template<typename D, typename F> void sequences(int a, int depth, D&& desc, F&& body) {
    std::vector<int> s;
    for (int len = 1; len <= depth; ++len) {
        s.assign(len, 0);
        for (;;) {
            mc::run_case([&] { return desc(s); }, [&] { body(s); });
            int i = len - 1; while (i >= 0 && ++s[i] == a) s[i--] = 0;
            if (i < 0) break;
        }
    }
}
struct Op { std::string name; };
template<typename K> K key(int i);
template<> int key<int>(int i) { return (i * 7) % 5 - 1; } // insertion order differs from value order
template<> std::string key<std::string>(int i) { return i == 0 ? "m" : i == 1 ? "" : i == 2 ? "a long key that does not fit inline" : "z"; }
template<> size_t key<size_t>(int i) { return i == 0 ? 5 : i == 1 ? 0 : i == 2 ? (size_t)-1 : 3; }
template<typename V> V val(int i);
template<> int val<int>(int i) { return 10 + i; }
template<> std::string val<std::string>(int i) { return i ? "second value which is rather long" : "first"; }

// ---- vector_map
template<typename K, typename V> void vmap(const std::string& n, int nk, int depth) {
    const int per = 4; // emplace v0, emplace v1 (rvalue key), assign v0, assign v1 (rvalue key)
    int A = nk * per + 4; // + clear, resize to size/2, copy-assign round, move round
    auto desc = [=](const std::vector<int>& s) { std::ostringstream o; o << n << ":"; for (int x : s) { if (x < nk * per) { const char* nm[] = {"emplace", "try_emplace", "insert_or_assign", "insert_or_assign&&"}; o << " " << nm[x % per] << "(key" << x / per << ",v" << (x % per) % 2 << ")"; } else { const char* nm[] = {"clear", "halve", "copy", "move"}; o << " " << nm[x - nk * per]; } } return o.str(); };
    sequences(A, depth, desc, [&](const std::vector<int>& s) {
        fut::vector_map<K, V> m; std::map<K, V> r;
        for (int x : s) {
            mc::count("transitions");
            if (x < nk * per) {
                K k = key<K>(x / per); int op = x % per; V v = val<V>(op % 2);
                bool fresh; bool want = !r.count(k);
                if (op == 0) { auto [it, f] = m.emplace(k, v); fresh = f; if (want) r[k] = v; mc::require(it->first == k && it->second == r[k], "emplace returned a wrong position"); }
                else if (op == 1) { auto [it, f] = m.try_emplace(K(k), v); fresh = f; if (want) r[k] = v; mc::require(it->first == k && it->second == r[k], "try_emplace returned a wrong position"); }
                else if (op == 2) { auto [it, f] = m.insert_or_assign(k, v); fresh = f; r[k] = v; mc::require(it->first == k && it->second == v, "insert_or_assign returned a wrong position"); }
                else { auto [it, f] = m.insert_or_assign(K(k), v); fresh = f; r[k] = v; mc::require(it->first == k && it->second == v, "insert_or_assign returned a wrong position"); }
                mc::require(fresh == want, "wrong insertion flag");
            } else switch (x - nk * per) {
                case 0: m.clear(); r.clear(); break;
                case 1: { size_t h = r.size() / 2; m.resize(h); while (r.size() > h) r.erase(std::prev(r.end())); break; }
                case 2: { fut::vector_map<K, V> c(m), d; d = c; c.clear(); m.clear(); m = d; break; }
                case 3: { fut::vector_map<K, V> c(std::move(m)); m = fut::vector_map<K, V>(); m.emplace(key<K>(0), val<V>(0)); m = std::move(c); break; }
            }
            mc::count("states");
            const auto& cm = m;
            mc::require(m.size() == r.size() && m.empty() == r.empty(), "wrong size");
            auto it = r.begin(); size_t i = 0;
            for (auto& e : cm) { mc::require(it != r.end() && e.first == it->first && e.second == it->second, "iteration differs from the ordered map"); mc::require(cm[i].first == e.first, "indexing differs"); ++i; ++it; }
            for (int q = 0; q < nk + 1; ++q) {
                K k = key<K>(q % 4); auto ri = r.find(k);
                mc::require(cm.contains(k) == (ri != r.end()), "contains is wrong");
                auto a = m.find(k); auto b = cm.find(k);
                mc::require((a != m.end()) == (ri != r.end()) && (b != cm.end()) == (ri != r.end()), "find is wrong");
                if (ri != r.end()) mc::require(a->second == ri->second && b->first == k, "find returns the wrong element");
                mc::require((size_t)(cm.lower_bound(k) - cm.begin()) == (size_t)std::distance(r.begin(), r.lower_bound(k)), "lower_bound is wrong");
            }
        }
        if (r.size() > 1) mc::count("nontrivial");
    });
}
template<typename K> void vset(const std::string& n, int nk, int depth) {
    int A = nk + 4;
    auto desc = [=](const std::vector<int>& s) { std::ostringstream o; o << n << ":"; for (int x : s) { if (x < nk) o << " emplace(key" << x << ")"; else { const char* nm[] = {"clear", "halve", "copy", "move"}; o << " " << nm[x - nk]; } } return o.str(); };
    sequences(A, depth, desc, [&](const std::vector<int>& s) {
        fut::vector_set<K> m; std::set<K> r;
        for (int x : s) {
            mc::count("transitions");
            if (x < nk) { K k = key<K>(x); auto [it, f] = m.emplace(k); mc::require(*it == k && f == r.insert(k).second, "emplace is wrong"); }
            else switch (x - nk) {
                case 0: m.clear(); r.clear(); break;
                case 1: { size_t h = r.size() / 2; m.resize(h); while (r.size() > h) r.erase(std::prev(r.end())); break; }
                case 2: { fut::vector_set<K> c(m), d; d = c; c.clear(); m.clear(); m = d; break; }
                case 3: { fut::vector_set<K> c(std::move(m)); m = fut::vector_set<K>(); m.emplace(key<K>(0)); m = std::move(c); break; }
            }
            mc::count("states");
            const auto& cm = m;
            mc::require(m.size() == r.size() && m.empty() == r.empty() && std::equal(cm.begin(), cm.end(), r.begin(), r.end()), "contents or order differ");
            for (int q = 0; q < 4; ++q) {
                K k = key<K>(q); bool in = r.count(k);
                mc::require(cm.contains(k) == in, "contains is wrong");
                mc::require((m.find(k) != m.end()) == in && (cm.find(k) != cm.end()) == in && (!in || *cm.find(k) == k), "find is wrong");
                mc::require((size_t)(cm.lower_bound(k) - cm.begin()) == (size_t)std::distance(r.begin(), r.lower_bound(k)), "lower_bound is wrong");
            }
        }
        if (r.size() > 1) mc::count("nontrivial");
    });
}
// ---- nested maps: two keys and a value / three-level, every container flavour
template<fut::type... C> void fut_map3(const std::string& n, int depth) { // (int,string) -> int
    using S = fut::set<std::tuple<int, std::string, int>, C...>; const int nk = 2, ns = 2;
    int A = nk * ns * 4 + 3;
    auto desc = [=](const std::vector<int>& s) { std::ostringstream o; o << n << ":"; for (int x : s) { if (x >= nk * ns * 4) { const char* nm[] = {"clear", "copy", "move"}; o << " " << nm[x - nk * ns * 4]; } else o << (x % 4 < 2 ? " emplace" : " insert_or_assign") << "(" << key<int>(x / 4 / ns) << ",'" << key<std::string>(x / 4 % ns) << "',v" << x % 2 << ")"; } return o.str(); };
    sequences(A, depth, desc, [&](const std::vector<int>& s) {
        S m; std::map<int, std::map<std::string, int>> r;
        for (int x : s) {
            mc::count("transitions");
            if (x >= nk * ns * 4) switch (x - nk * ns * 4) { case 0: m.clear(); r.clear(); break; case 1: { S c(m); m.clear(); m = c; break; } default: { S c(std::move(m)); m = S(); m = std::move(c); } }
            else {
                int a = key<int>(x / 4 / ns); std::string b = key<std::string>(x / 4 % ns); int v = val<int>(x % 2);
                bool want = !r[a].count(b);
                if (x % 4 < 2) { auto p = x % 2 ? m.emplace(a, b, v) : m.emplace(int(a), std::string(b), v); mc::require(p.second == want, "wrong insertion flag"); r[a].emplace(b, v); mc::require(p.first->first == b && p.first->second == r[a][b], "wrong position"); }
                else { auto p = x % 2 ? m.insert_or_assign(a, b, v) : m.insert_or_assign(int(a), std::string(b), v); mc::require(p.second == want, "wrong insertion flag"); r[a][b] = v; mc::require(p.first->first == b && p.first->second == v, "wrong position"); }
            }
            mc::count("states");
            const S& c = m; size_t total = 0, outer = 0; for (auto& [a, i] : r) { total += i.size(); ++outer; }
            mc::require(c.size() == outer && c.empty() == !outer, "wrong outer size");
            size_t seen = 0; for (auto&& [a, inner] : c) for (auto&& [b, v] : inner) { ++seen; auto i = r.find(a); mc::require(i != r.end() && i->second.count(b) && i->second[b] == v, "iteration yields a foreign element"); }
            mc::require(seen == total, "iteration misses or repeats an element");
            for (int qa = 0; qa < 3; ++qa) for (int qb = 0; qb < 3; ++qb) {
                int a = key<int>(qa); std::string b = key<std::string>(qb); auto i = r.find(a); bool in = i != r.end() && i->second.count(b);
                mc::require(c.contains(a, b) == in, "contains is wrong");
                auto* g = c.get(a, b); auto* h = m.get(a, b);
                mc::require((g != nullptr) == in && (h != nullptr) == in && (!in || (*g == i->second[b] && *h == *g)), "get is wrong");
                mc::require((c.find(a) != c.end()) == (i != r.end()) && (m.find(a) != m.end()) == (i != r.end()), "find is wrong");
            }
            std::array<fut::type, sizeof...(C)> ty{C...};
            if (ty[0] == fut::type::vector) { std::optional<int> last; for (auto&& [a, inner] : c) { mc::require(!last || *last < a, "outer level not ordered"); last = a; } }
            if (ty[1] == fut::type::vector) for (auto&& [a, inner] : c) { std::optional<std::string> last; for (auto&& [b, v] : inner) { mc::require(!last || *last < b, "inner level not ordered"); last = b; } }
            if (total > 1) mc::count("nontrivial");
        }
    });
}
template<fut::type... C> void fut_set3(const std::string& n, int depth) { // three keys, a set
    using S = fut::set<std::tuple<size_t, int, uint32_t>, C...>; using T = std::tuple<size_t, int, uint32_t>;
    std::vector<T> els; for (size_t a : {5ul, 0ul}) for (int b : {3, -1}) for (uint32_t c : {7u, 2u}) els.push_back({a, b, c});
    int N = els.size(), A = N * 2 + 2;
    auto desc = [=](const std::vector<int>& s) { std::ostringstream o; o << n << ":"; for (int x : s) { if (x >= 2 * N) o << (x == 2 * N ? " clear" : " copy"); else { auto [a, b, c] = els[x / 2]; o << (x % 2 ? " insert_or_assign" : " emplace") << "(" << a << "," << b << "," << c << ")"; } } return o.str(); };
    sequences(A, depth, desc, [&](const std::vector<int>& s) {
        S m; std::set<T> r;
        for (int x : s) {
            mc::count("transitions");
            if (x == 2 * N) { m.clear(); r.clear(); } else if (x > 2 * N) { S c(m); m.clear(); m = std::move(c); }
            else { auto [a, b, c] = els[x / 2]; auto p = x % 2 ? m.insert_or_assign(a, b, c) : m.emplace(a, b, c); mc::require(p.second == r.insert(els[x / 2]).second && *p.first == c, "emplace is wrong"); }
            mc::count("states");
            const S& cm = m; size_t seen = 0; for (auto&& [a, i] : cm) for (auto&& [b, j] : i) for (auto& c : j) { ++seen; mc::require(r.count(T(a, b, c)), "iteration yields a foreign element"); }
            mc::require(seen == r.size(), "iteration misses an element");
            for (auto& [a, b, c] : els) mc::require(cm.contains(a, b, c) == (bool)r.count(T(a, b, c)), "contains is wrong");
            if (r.size() > 1) mc::count("nontrivial");
        }
    });
}
// conversions from the hashed to the ordered representation: every content
template<typename K, typename V> void conversions(const std::string& n) {
    for (int m = 0; m < 81; ++m) mc::run_case([&] { return n + " conversion of content " + std::to_string(m); }, [&] {
        fut::set<std::tuple<K, V>, fut::type::hash> h; std::map<K, V> r; int x = m;
        std::unordered_set<K> hs;
        for (int k = 0; k < 4; ++k, x /= 3) if (x % 3) { h.emplace(key<K>(k), val<V>(x % 3 - 1)); r[key<K>(k)] = val<V>(x % 3 - 1); hs.insert(key<K>(k)); }
        auto h2 = h; fut::set<std::tuple<K, V>, fut::type::vector> a(h), b(std::move(h2)), c; c = a;
        for (auto* p : {&a, &b, &c}) {
            mc::require(p->size() == r.size(), "conversion changes the size"); auto it = r.begin();
            for (auto& e : *p) { mc::require(e.first == it->first && e.second == it->second, "conversion changes content or order"); ++it; }
            for (int k = 0; k < 4; ++k) { auto g = p->get(key<K>(k)); auto i = r.find(key<K>(k)); mc::require((g != nullptr) == (i != r.end()) && (!g || *g == i->second), "look-up after conversion is wrong"); }
        }
        auto hs2 = hs; fut::vector_set<K> s1(hs), s2(std::move(hs2)); std::set<K> rs(hs.begin(), hs.end());
        for (auto* p : {&s1, &s2}) mc::require(std::equal(p->begin(), p->end(), rs.begin(), rs.end()), "set conversion is wrong");
        mc::count("states"); mc::count("nontrivial", r.size() > 1);
    });
}
// ---- priority set: all sequences of emplace(weight, element) / pop
template<typename Comp> void prio(const std::string& n, int depth) {
    const int E = 3, W = 3; int A = E * W + 1;
    auto desc = [=](const std::vector<int>& s) { std::ostringstream o; o << n << ":"; for (int x : s) { if (x == E * W) o << " pop"; else o << " emplace(w" << x / E << ",e" << x % E << ")"; } return o.str(); };
    sequences(A, depth, desc, [&](const std::vector<int>& s) {
        priority_set<int, size_t, Comp> q; std::map<size_t, int> pend; std::set<size_t> done; Comp comp;
        auto check = [&] {
            mc::count("states");
            mc::require(q.empty() == pend.empty(), "emptiness is wrong");
            if (pend.empty()) return;
            auto [w, e] = q.top(); auto it = pend.find(e);
            mc::require(it != pend.end(), "an element is offered that is not pending");
            mc::require(it->second == w, "an element is offered with a priority other than its best");
            for (auto& [e2, w2] : pend) mc::require(!comp(w, w2), "a better element is pending");
            mc::require(q.back() == e, "back differs from top");
        };
        for (size_t i = 0; i < s.size(); ++i) {
            mc::count("transitions"); int x = s[i];
            if (x == E * W) { if (pend.empty()) return; auto e = q.top().second; pend.erase(e); done.insert(e); if (i % 2) q.pop(); else q.pop_back(); }
            else { size_t e = x % E; int w = x / E; q.emplace(w, e); if (!done.count(e)) { auto it = pend.find(e); if (it == pend.end() || comp(it->second, w)) pend[e] = w; } }
            check();
        }
        while (!pend.empty()) { auto e = q.top().second; pend.erase(e); done.insert(e); q.pop(); check(); }
        mc::count("nontrivial");
    });
}
// ---- round-based workset
template<bool enforce> struct Ws : fixed_point_workset<Ws<enforce>, std::pair<int, int>, enforce> { // (round, element)
    using base = fixed_point_workset<Ws<enforce>, std::pair<int, int>, enforce>;
    std::array<int, 3> succ; int stop; std::vector<std::tuple<bool, int, int>> log; int guard = 0;
    Ws(size_t limit, std::array<int, 3> s, int init, int st) : base(limit), succ(s), stop(st) { for (int e = 0; e < 3; ++e) if (init >> e & 1) { this->emplace(0, e); if (enforce) this->emplace(0, e); } }
    template<bool bottom> bool step_with(std::pair<int, int>&& x) {
        log.push_back({bottom, x.first, x.second}); if (++guard > 400) return false;
        if (stop >= 0 && (int)log.size() > stop) return false;
        for (int e = 0; e < 3; ++e) if (succ[x.second] >> e & 1) this->emplace(x.first + 1, e);
        return true;
    }
};
template<bool enforce> void workset(const char* n) {
    int lim = mc::thorough() ? 5 : 3;
    for (int f = 0; f < 512; ++f) for (int init = 0; init < 8; ++init) for (int L = 0; L <= lim; ++L) for (int stop : {-1, 0, 2}) {
        std::array<int, 3> succ{f & 7, f >> 3 & 7, f >> 6};
        if (!enforce) { bool fn = true; for (int x : succ) fn &= __builtin_popcount(x) <= 1; fn &= __builtin_popcount(init) <= 1; if (!fn) continue; } // without duplicate removal the producer must not produce any
        mc::run_case([&] { return std::string(n) + " successors " + std::to_string(succ[0]) + "," + std::to_string(succ[1]) + "," + std::to_string(succ[2]) + " initial " + std::to_string(init) + " limit " + std::to_string(L) + " stop after " + std::to_string(stop); }, [&] {
            Ws<enforce> w(L, succ, init, stop); w.run();
            std::vector<std::set<std::pair<bool, int>>> want; // per round: (phase, element)
            int cur = init; bool fix = false; std::vector<std::pair<bool, int>> rounds;
            for (int ph = 0; ph < 2 && !fix; ++ph) for (int i = 0; i < L; ++i) { if (!cur) { fix = true; break; } rounds.push_back({ph, cur}); int nx = 0; for (int e = 0; e < 3; ++e) if (cur >> e & 1) nx |= succ[e]; cur = nx; }
            size_t k = 0; bool stopped = false;
            for (size_t r = 0; r < rounds.size() && !stopped; ++r) {
                int left = rounds[r].second;
                while (left) {
                    if (stop >= 0 && (int)k == stop + 1) { stopped = true; break; }
                    mc::require_f(k < w.log.size(), [&] { return "a pending element of round " + std::to_string(r) + " is never processed"; });
                    auto [b, d, e] = w.log[k++];
                    mc::require_f(d == (int)r && b == rounds[r].first && (left >> e & 1), [&] { return "step " + std::to_string(k - 1) + " processes element " + std::to_string(e) + " of round " + std::to_string(d) + (b ? " (final phase)" : "") + " instead of one pending in round " + std::to_string(r); });
                    left &= ~(1 << e);
                }
            }
            mc::require(k == w.log.size(), "more steps than pending elements");
            mc::count("states", k); mc::count("transitions", k); mc::count("nontrivial", k > 1);
        });
    }
}
void disjoint() {
    for (int a = 0; a < 64; ++a) for (int b = 0; b < 64; ++b) mc::run_case([&] { return "is_disjoint of subsets " + std::to_string(a) + " and " + std::to_string(b); }, [&] {
        std::vector<int> x, y; std::vector<std::pair<int, char>> px, py;
        for (int i = 0; i < 6; ++i) { if (a >> i & 1) { x.push_back(i); px.push_back({i, 'x'}); } if (b >> i & 1) { y.push_back(i); py.push_back({i, 'a'}); py.push_back({i, 'b'}); } }
        bool want = !(a & b); mc::count("states"); mc::count("nontrivial", a && b);
        mc::require(is_disjoint(x, y) == want, "is_disjoint is wrong");
        mc::require(is_disjoint(px, py, CompFirst<int, char>{}) == want, "is_disjoint by first component is wrong");
        mc::require(is_disjoint(px, y, CompFirst<int, char>{}) == want, "is_disjoint with keys is wrong");
    });
}
// ---- larger contents: every size up to the bound x every insertion pattern (plus all permutations of a few keys), then re-insertion, update, look-up of present and absent keys
std::vector<std::vector<int>> patterns(int n) {
    std::vector<std::vector<int>> out; std::vector<int> p(n);
    for (int i = 0; i < n; ++i) p[i] = i;
    out.push_back(p); std::reverse(p.begin(), p.end()); out.push_back(p);
    p.clear(); for (int l = 0, h = n - 1; l <= h; ++l, --h) { p.push_back(l); if (l != h) p.push_back(h); } out.push_back(p); std::reverse(p.begin(), p.end()); out.push_back(p);
    for (int m : {3, 5, 7, 11}) { p.clear(); for (int s = 0; s < m; ++s) for (int i = s; i < n; i += m) p.push_back(i); out.push_back(p); std::reverse(p.begin(), p.end()); out.push_back(p); }
    p.clear(); for (int i = 0; i < n; ++i) { p.push_back(i / 2 + (i % 2) * ((n + 1) / 2)); } out.push_back(p);
    p.clear(); for (int i = 0; i < n; ++i) { p.push_back(i); p.push_back(i / 2); } out.push_back(p); // repeats
    return out;
}
template<typename M, typename R> void same_map(const M& m, const R& r, int lo, int hi) {
    mc::require(m.size() == r.size(), "wrong size"); auto it = r.begin();
    for (auto& e : m) { mc::require(it != r.end() && e.first == it->first && e.second == it->second, "iteration differs from the ordered map"); ++it; }
    for (int k = lo; k <= hi; ++k) { auto i = r.find(k); auto j = m.find(k); mc::require(m.contains(k) == (i != r.end()) && (j != m.end()) == (i != r.end()) && (i == r.end() || j->second == i->second), "look-up is wrong"); mc::require((size_t)(m.lower_bound(k) - m.begin()) == (size_t)std::distance(r.begin(), r.lower_bound(k)), "lower_bound is wrong"); }
}
void grow(int n, const std::vector<int>& ord, const std::string& name) {
    mc::run_case([&] { return name; }, [&] {
        fut::vector_map<int, int> m; std::map<int, int> r; fut::vector_set<int> s; fut::set<std::tuple<int, int>, fut::type::hash> h; std::unordered_set<int> hs;
        fut::set<std::tuple<int, int, int>, fut::type::hash, fut::type::vector> n1; fut::set<std::tuple<int, int, int>, fut::type::vector, fut::type::hash> n2;
        fut::set<std::tuple<int, int>, fut::type::vector, fut::type::vector> n3; std::map<int, std::map<int, int>> rn;
        size_t step = 0;
        for (int o : ord) {
            int k = 2 * o + 1; bool fresh = !r.count(k); ++step; mc::count("transitions");
            auto a = step % 2 ? m.emplace(k, o) : m.try_emplace(int(k), o); mc::require(a.second == fresh && a.first->first == k, "emplace is wrong");
            if (fresh) r[k] = o;
            if (step % 5 == 0) { auto b = m.insert_or_assign(k, -o - 1); mc::require(!b.second && b.first->second == -o - 1, "insert_or_assign is wrong"); r[k] = -o - 1; }
            auto c = s.emplace(k); mc::require(c.second == fresh && *c.first == k, "set emplace is wrong");
            h.insert_or_assign(k, r[k]); hs.insert(k);
            int k1 = k % 8 < 4 ? 1 : k / 9; bool f2 = !rn[k1].count(k);
            mc::require(n1.emplace(k1, k, o).second == f2 && n2.emplace(k1, k, o).second == f2 && n3.emplace(k1, k).second == f2, "nested emplace is wrong"); if (f2) rn[k1][k] = o;
        }
        same_map(m, r, -1, 2 * n + 2);
        mc::require(s.size() == r.size(), "wrong set size"); { auto it = r.begin(); for (auto& e : s) { mc::require(e == it->first, "set order is wrong"); ++it; } }
        for (int k = -1; k <= 2 * n + 2; ++k) mc::require(s.contains(k) == (bool)r.count(k) && (s.find(k) != s.end()) == (bool)r.count(k), "set look-up is wrong");
        { auto h2 = h; fut::set<std::tuple<int, int>, fut::type::vector> a(h), b(std::move(h2)); same_map(a, r, -1, 2 * n + 2); same_map(b, r, -1, 2 * n + 2); auto hs2 = hs; fut::vector_set<int> c(hs), d(std::move(hs2)); mc::require(std::equal(c.begin(), c.end(), s.begin(), s.end()) && std::equal(d.begin(), d.end(), s.begin(), s.end()), "set conversion is wrong"); }
        size_t t1 = 0, t2 = 0, t3 = 0, want = 0; for (auto& [a, i] : rn) want += i.size();
        for (auto& [a, i] : n1) for (auto& [b, v] : i) { ++t1; mc::require(rn.count(a) && rn[a].count(b) && rn[a][b] == v, "nested iteration is wrong"); }
        for (auto& [a, i] : n2) for (auto& [b, v] : i) { ++t2; mc::require(rn.count(a) && rn[a].count(b) && rn[a][b] == v, "nested iteration is wrong"); }
        for (auto& [a, i] : n3) for (auto& b : i) { ++t3; mc::require(rn.count(a) && rn[a].count(b), "nested iteration is wrong"); }
        mc::require(t1 == want && t2 == want && t3 == want, "nested iteration misses or repeats an element");
        for (auto& [a, i] : rn) for (int b = 0; b <= 2 * n + 2; ++b) { auto j = i.find(b); bool in = j != i.end(); auto *g = n1.get(a, b), *g2 = n2.get(a, b); mc::require(n1.contains(a, b) == in && n2.contains(a, b) == in && n3.contains(a, b) == in && (g != nullptr) == in && (g2 != nullptr) == in && (!in || (*g == j->second && *g2 == j->second)), "nested look-up is wrong"); }
        mc::count("states"); mc::count("nontrivial", n > 1);
        // the prioritised set, filled in the same order, drained half way and refilled
        for (int v = 0; v < 4; ++v) {
            priority_set<int, size_t, CompSwapArgs<int>> q; std::map<size_t, int> pend; std::set<size_t> done;
            auto put = [&](size_t e, int w) { q.emplace(w, e); if (done.count(e)) return; auto it = pend.find(e); if (it == pend.end() || w < it->second) pend[e] = w; };
            auto take = [&] { auto [w, e] = q.top(); auto it = pend.find(e); mc::require(it != pend.end() && it->second == w, "an element is offered that is not pending, or with a worse priority"); for (auto& [e2, w2] : pend) mc::require(!(w2 < w), "a better element is pending"); pend.erase(e); done.insert(e); q.pop(); mc::require(q.empty() == pend.empty(), "emptiness is wrong"); };
            int i = 0; for (int o : ord) { put(o, v == 0 ? o : v == 1 ? n - o : v == 2 ? (o * 7) % 5 : 3); if (v == 1) put(o / 2, o); if (++i % 3 == 0 && !pend.empty()) take(); mc::count("transitions"); }
            for (int o : ord) put(o, (o * 5) % 7 - 3);
            while (!pend.empty()) take();
        }
    });
}
void sizes() {
    int N = mc::thorough() ? 140 : 70;
    std::vector<int> ns; for (int n = 0; n <= N; ++n) ns.push_back(n); for (int n : {127, 128, 129, 255, 256, 257, 300}) if (n > N) ns.push_back(n);
    for (int n : ns) { int k = 0; for (auto& p : patterns(n)) grow(n, p, "insert " + std::to_string(n) + " keys in order pattern " + std::to_string(k++)); }
    for (int n = 2; n <= (mc::thorough() ? 8 : 7); ++n) { std::vector<int> p(n); for (int i = 0; i < n; ++i) p[i] = i; do grow(n, p, [&] { std::string t = "insert in the order"; for (int x : p) t += " " + std::to_string(x); return t; }()); while (std::next_permutation(p.begin(), p.end())); }
}
// larger sorted vectors: arithmetic progressions and blocks of every offset, stride and length
void disjoint_large() {
    std::vector<std::vector<int>> vs; 
    for (int st : {1, 2, 3, 5, 8}) for (int off : {0, 1, 2, 7, 20, 33}) for (int len : {0, 1, 2, 3, 8, 9, 16, 17, 33, 40}) { std::vector<int> v; for (int i = 0; i < len; ++i) v.push_back(off + i * st); vs.push_back(v); }
    for (int off : {0, 10, 40}) { std::vector<int> v; for (int i = 0; i < 30; ++i) v.push_back(off + i * (i + 1) / 2); vs.push_back(v); v.push_back(1000); vs.push_back(v); }
    for (size_t a = 0; a < vs.size(); ++a) for (size_t b = 0; b < vs.size(); ++b) mc::run_case([&] { return "is_disjoint of large vectors " + std::to_string(a) + " and " + std::to_string(b); }, [&] {
        auto &x = vs[a], &y = vs[b]; std::set<int> sx(x.begin(), x.end()); bool want = true; for (int i : y) want &= !sx.count(i);
        std::vector<std::pair<int, char>> px; for (int i : x) px.push_back({i, 'x'});
        mc::require(is_disjoint(x, y) == want, "is_disjoint is wrong"); mc::require(is_disjoint(px, y, CompFirst<int, char>{}) == want, "is_disjoint with keys is wrong");
        mc::count("states"); mc::count("nontrivial", !x.empty() && !y.empty());
    });
}
int main(int argc, char** argv) {
    using fut::type; mc::Check c; c.property = "C11";
    c.rule = "every operation sequence up to the depth, starting from the empty container, compared with std::map/std::set after every operation; non-trivial = at least two elements present / at least two steps";
    c.assumptions = {"keys and values from small sets that include extreme values and strings"};
    c.bounds_quick = "vector_map: 3 keys x 2 values, depth 4 (int) and 4 (string); vector_set depth 5; nested flavours depth 4 (maps) and 4 (sets); priority set: 3 weights x 3 elements, depth 5; round workset: all successor functions on 3 elements, limits 0..3; larger contents: every size 0..70 and seven sizes around 128/256 in 14 insertion patterns and every permutation of up to 7 keys, for maps, sets, nested forms, conversions and the priority set; is_disjoint on all pairs of 306 larger vectors";
    c.bounds_thorough = "one level deeper everywhere, round limits up to 5, sizes to 140, permutations of 8 keys";
    c.suites = {
        {"vector_map", [] { int d = mc::thorough() ? 5 : 4; vmap<int, int>("vector_map<int,int>", 3, d); vmap<std::string, std::string>("vector_map<string,string>", 3, mc::thorough() ? 5 : 4); vmap<size_t, std::string>("vector_map<size_t,string>", 3, mc::thorough() ? 4 : 3); }},
        {"vector_set", [] { int d = mc::thorough() ? 7 : 5; vset<int>("vector_set<int>", 4, d); vset<std::string>("vector_set<string>", 4, d - 1); vset<size_t>("vector_set<size_t>", 4, d - 1); }},
        {"nested_map", [] { int d = mc::thorough() ? 5 : 4; fut_map3<type::hash, type::vector>("map<hash,vector>", d); fut_map3<type::vector, type::hash>("map<vector,hash>", d); fut_map3<type::vector, type::vector>("map<vector,vector>", d); fut_map3<type::hash, type::hash>("map<hash,hash>", d); }},
        {"nested_set", [] { int d = mc::thorough() ? 5 : 4; fut_set3<type::hash, type::vector, type::vector>("set<hash,vector,vector>", d); fut_set3<type::vector, type::vector, type::hash>("set<vector,vector,hash>", d); fut_set3<type::vector, type::hash, type::vector>("set<vector,hash,vector>", d - 1); fut_set3<type::hash, type::hash, type::hash>("set<hash,hash,hash>", d - 1); }},
        {"conversion", [] { conversions<int, int>("int"); conversions<std::string, std::string>("string"); conversions<size_t, std::string>("size_t"); }},
        {"priority", [] { int d = mc::thorough() ? 6 : 5; prio<std::less<int>>("max-heap", d); prio<CompSwapArgs<int>>("min-heap", d); }},
        {"workset", [] { workset<true>("duplicate-removing workset"); workset<false>("plain workset"); }},
        {"disjoint", [] { disjoint(); disjoint_large(); }},
        {"sizes", [] { sizes(); }},
    };
    return mc::main_(argc, argv, c);
}
