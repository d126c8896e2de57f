// C13: AutomatonPath against an abstract edge sequence, for every operation sequence.
#include "mc.h"
#include <tuple>
#include <pdaaal/AutomatonPath.h>
#include <absl/hash/hash.h>
using namespace pdaaal;
constexpr uint32_t EPS = std::numeric_limits<uint32_t>::max();
template<bool P> using St = std::conditional_t<P, std::pair<size_t, size_t>, size_t>;
static bool g_big = false; // extreme ids instead of small ones
template<bool P> St<P> st(int i) { if (g_big) { constexpr size_t M = std::numeric_limits<size_t>::max(); if constexpr (P) { static const std::pair<size_t, size_t> v[] = {{M - 1, 0xffffffffull}, {0x100000000ull, M - 1}, {0, 0x80000000ull}, {0x100000007ull, 7}}; return v[i]; } else { static const size_t v[] = {M - 1, 0x100000000ull, 0, 0xffffffffull}; return v[i]; } }
     if constexpr (P) { static const std::pair<size_t, size_t> v[] = {{0, 3}, {7, 0}, {5, 5}, {1, 2}}; return v[i]; } else { static const size_t v[] = {0, 3, 7, 1}; return v[i]; } }
static uint32_t lab(int i) { if (g_big) { static const uint32_t v[] = {EPS - 1, 0x80000000u, EPS}; return v[i]; } static const uint32_t v[] = {0, 4, EPS}; return v[i]; }
template<bool P> struct Abs { St<P> end; std::vector<std::pair<St<P>, uint32_t>> e; }; // front first: (from, label)
template<bool P> St<P> to_of(const Abs<P>& a, size_t i) { return i + 1 < a.e.size() ? a.e[i + 1].first : a.end; }
template<bool P> AutomatonPath<P> build(const Abs<P>& a, int how) {
    if (how == 0) { AutomatonPath<P> p(a.end); for (size_t i = a.e.size(); i-- > 0;) p.emplace(a.e[i].first, a.e[i].second); return p; }
    std::vector<St<P>> path; std::vector<uint32_t> stack; for (auto& [f, l] : a.e) { path.push_back(f); stack.push_back(l); } path.push_back(a.end);
    return AutomatonPath<P>(path, stack);
}
template<bool P> void observe(AutomatonPath<P> p, const Abs<P>& a) {
    mc::count("states");
    for (size_t popped = 0;; ++popped) { // the whole suffix chain
        Abs<P> b{a.end, {a.e.begin() + popped, a.e.end()}};
        mc::require(!p.is_null(), "a real path reports to be null");
        mc::require(p.empty() == b.e.empty() && p.edges_size() == b.e.size(), "wrong size");
        mc::require(p.front_state() == (b.e.empty() ? b.end : b.e[0].first), "wrong front state");
        std::vector<uint32_t> s; for (auto& [f, l] : b.e) s.push_back(l);
        mc::require(p.stack() == s, "wrong stack");
        std::vector<St<P>> ps; std::vector<uint32_t> ss; for (auto& [f, l] : b.e) if (l != EPS) { ps.push_back(f); ss.push_back(l); } ps.push_back(b.end);
        auto [gp, gs] = p.get_path_and_stack();
        mc::require(gp == ps && gs == ss, "wrong path and stack");
        mc::require(p == build(b, 0) && p == build(b, 1) && !(p != build(b, 1)), "equal sequences, different paths");
        mc::require(absl::Hash<AutomatonPath<P>>()(p) == absl::Hash<AutomatonPath<P>>()(build(b, 1)), "equal paths, different hashes");
        if constexpr (P) {
            auto [l, r] = p.split(); Abs<false> x{b.end.first, {}}, y{b.end.second, {}};
            for (auto& [f, lb] : b.e) { x.e.push_back({f.first, lb}); y.e.push_back({f.second, lb}); }
            mc::require(l == build(x, 0) && r == build(y, 1) && l.stack() == s && r.front_state() == (y.e.empty() ? y.end : y.e[0].first), "split is wrong");
        }
        if (b.e.empty()) break;
        mc::require(p.front_edge() == std::make_tuple(b.e[0].first, b.e[0].second, to_of(b, 0)), "wrong front edge");
        if (b.e[0].second != EPS || b.e[0].first == to_of(b, 0)) { // removal of a leading empty step (from a state to itself)
            auto q = p; q.remove_epsilon(); Abs<P> c = b; if (c.e[0].second == EPS) c.e.erase(c.e.begin());
            mc::require(q == build(c, 0), "remove_epsilon is wrong"); mc::require(p == build(b, 0), "remove_epsilon changed a copy");
        }
        p.pop(); mc::count("transitions");
    }
}
template<bool P> void ops(int depth) { // pushes, pops, removal of empty steps, in any order
    const int A = 3 * 3 + 3;
    std::vector<int> s;
    for (int len = 0; len <= depth; ++len) for (int end = 0; end < 2; ++end) {
        s.assign(len, 0);
        for (;;) {
            mc::run_case([&] { std::ostringstream o; o << (P ? "pair" : "single") << " path from end state #" << end << ":"; for (int x : s) { if (x < 9) o << " push(state#" << x / 3 << "," << (int)lab(x % 3) << ")"; else o << (x == 9 ? " pop" : x == 10 ? " remove_epsilon" : " copy"); } return o.str(); }, [&] {
                AutomatonPath<P> p(st<P>(end)); Abs<P> a{st<P>(end), {}};
                for (int x : s) {
                    mc::count("transitions");
                    if (x < 9) { p.emplace(st<P>(x / 3), lab(x % 3)); a.e.insert(a.e.begin(), {st<P>(x / 3), lab(x % 3)}); }
                    else if (x == 9) { if (a.e.empty()) return; p.pop(); a.e.erase(a.e.begin()); }
                    else if (x == 10) { if (!a.e.empty() && a.e[0].second == EPS && a.e[0].first != to_of(a, 0)) return; p.remove_epsilon(); if (!a.e.empty() && a.e[0].second == EPS) a.e.erase(a.e.begin()); }
                    else { AutomatonPath<P> q(p), r; r = q; p = AutomatonPath<P>(st<P>(3)); p = std::move(r); }
                }
                observe(p, a); if (a.e.size() > 1) mc::count("nontrivial");
            });
            int i = len - 1; while (i >= 0 && ++s[i] == A) s[i--] = 0;
            if (i < 0) break;
        }
    }
}
template<bool P> void equality(int maxlen) { // every pair of sequences: equal exactly when the sequences are
    std::vector<Abs<P>> all;
    std::function<void(Abs<P>)> rec = [&](Abs<P> a) { all.push_back(a); if ((int)a.e.size() < maxlen) for (int f = 0; f < 2; ++f) for (int l = 0; l < 3; ++l) { auto b = a; b.e.insert(b.e.begin(), {st<P>(f), lab(l)}); rec(b); } };
    for (int e = 0; e < 3; ++e) rec(Abs<P>{st<P>(e), {}});
    for (size_t i = 0; i < all.size(); ++i) mc::run_case([&] { return std::string(P ? "pair" : "single") + " equality of sequence #" + std::to_string(i) + " with all others"; }, [&] {
        auto p = build(all[i], 0);
        for (size_t j = 0; j < all.size(); ++j) { auto q = build(all[j], 1); bool eq = i == j; mc::count("transitions"); mc::require((p == q) == eq && (p != q) == !eq, "equality is wrong"); }
        mc::count("states");
    });
    mc::run_case([&] { return std::string("null path"); }, [&] { AutomatonPath<P> n; mc::require(n.is_null() && n.empty() && n.edges_size() == 0 && n == AutomatonPath<P>(), "the null path is wrong"); mc::require(n != AutomatonPath<P>(st<P>(0)), "the null path equals a real path"); });
}
// long paths: every length x pattern; growing, shrinking and regrowing; a change at any one position makes the path different
template<bool P> void long_paths() {
    std::vector<int> ns; for (int n = 0; n <= (mc::thorough() ? 80 : 40); ++n) ns.push_back(n); for (int n : {63, 64, 65, 66, 127, 128, 129, 255, 256, 257, 300}) if (n > ns.back()) ns.push_back(n);
    for (int n : ns) for (int pat = 0; pat < 5; ++pat) for (int pops : {0, 1, n / 2, n}) mc::run_case([&] { return std::string(P ? "pair" : "single") + " path: " + std::to_string(n) + " pushes in pattern " + std::to_string(pat) + ", " + std::to_string(pops) + " pops, pushed again"; }, [&] {
        if (pops > n) return;
        auto state = [&](int i) -> St<P> { if constexpr (P) return {(size_t)(pat == 0 ? i : pat == 1 ? i % 2 : pat == 2 ? 1000 - i : pat == 3 ? 70000 + i * 3 : i / 7), (size_t)(pat == 0 ? i + 1 : pat == 1 ? i % 3 : pat == 2 ? i : 5)}; else return (size_t)(pat == 0 ? i : pat == 1 ? i % 2 : pat == 2 ? 1000 - i : pat == 3 ? 70000 + i * 3 : i / 7); };
        auto label = [&](int i) -> uint32_t { return pat == 0 ? i : pat == 1 ? i % 3 : pat == 2 ? 300 - i % 300 : pat == 3 ? (i % 5 == 0 ? EPS : 65530 + i) : i % 64; };
        AutomatonPath<P> p(state(0)); std::vector<std::pair<St<P>, uint32_t>> back; // back of the vector = front of the path
        auto abs = [&] { Abs<P> a{state(0), {}}; a.e.assign(back.rbegin(), back.rend()); return a; };
        for (int i = 1; i <= n; ++i) { p.emplace(state(i), label(i)); back.push_back({state(i), label(i)}); mc::count("transitions"); }
        for (int i = 0; i < pops; ++i) { p.pop(); back.pop_back(); mc::count("transitions"); }
        for (int i = 0; i < pops; ++i) { p.emplace(state(i + 2), label(i + 5)); back.push_back({state(i + 2), label(i + 5)}); }
        p.emplace(p.front_state(), EPS); p.remove_epsilon();
        auto a = abs(); if (n <= 40 || pops == n / 2) observe<P>(p, a); else { mc::require(p == build(a, 0) && p == build(a, 1) && p.edges_size() == a.e.size(), "wrong path"); mc::count("states"); }
        if (n <= 80) for (size_t i = 0; i < a.e.size(); ++i) { auto b = a; b.e[i].second ^= 1; mc::require(p != build(b, 1) && !(build(b, 0) == p), "different labels, equal paths"); b = a; b.e[i].first = [&]() -> St<P> { if constexpr (P) return {b.e[i].first.first, b.e[i].first.second + 1}; else return b.e[i].first + 1; }(); mc::require(p != build(b, 1) && !(build(b, 0) == p), "different states, equal paths"); }
        if (!a.e.empty()) { auto b = a; b.e.erase(b.e.begin()); mc::require(p != build(b, 0), "a proper suffix equals the path"); b = a; b.e.pop_back(); mc::require(p != build(b, 0), "a proper prefix equals the path"); }
        if (n > 1) mc::count("nontrivial");
    });
}
int main(int argc, char** argv) {
    mc::Check c; c.property = "C13";
    c.rule = "every sequence of push(state,label)/pop/remove-empty-step/copy up to the depth from two end states, all observers compared with an explicit edge list after it and for all its suffixes; every pair of short sequences for equality";
    c.assumptions = {"an empty step is only removed where it leads from a state to itself (the documented precondition)"};
    c.bounds_quick = "3 states x 3 labels (one the empty step), depth 5, single and paired states; equality over all sequences of length <=3; the same with state/label ids at the ends of their ranges, depth 4; paths of every length 0..40 and around 64/128/256 in 5 patterns with pops and regrowth, and a change at every position";
    c.bounds_thorough = "depth 6, equality length <=4";
    c.suites = { {"ops_single", [] { ops<false>(mc::thorough() ? 6 : 5); }}, {"ops_pair", [] { ops<true>(mc::thorough() ? 6 : 5); }},
        {"equality", [] { equality<false>(mc::thorough() ? 4 : 3); equality<true>(mc::thorough() ? 4 : 3); }},
        {"long", [] { long_paths<false>(); long_paths<true>(); }},
        {"extreme_ids", [] { g_big = true; ops<false>(mc::thorough() ? 5 : 4); ops<true>(mc::thorough() ? 5 : 4); equality<false>(2); equality<true>(2); g_big = false; }} };
    return mc::main_(argc, argv, c);
}
