// Independent reference semantics of pushdown systems: explicit configurations, naive (textbook) saturation used as an
// exact oracle, and an explicit-state exploration of the configuration graph used to validate the oracle itself.
#pragma once
#include <algorithm>
#include <array>
#include <climits>
#include <cstdint>
#include <deque>
#include <map>
#include <optional>
#include <set>
#include <sstream>
#include <string>
#include <vector>

namespace ref {
enum Op { PUSH = 1, POP = 2, SWAP = 4, NOOP = 8 };
struct Rule {
    int from = 0, to = 0;
    Op op = POP;
    int oplabel = -1;
    bool wild = false;
    std::vector<int> pre;
    std::vector<long> w{0};
    bool matches(int l) const { return wild || std::find(pre.begin(), pre.end(), l) != pre.end(); }
};
struct Sys {
    int n = 0, labels = 0;
    std::vector<Rule> rules;
};
struct Aut { // P-automaton: states 0..pda-1 are the control states
    int pda = 0, n = 0;
    std::vector<char> acc;
    struct E { int f, l, t; };
    std::vector<E> edges;
    Aut() = default;
    explicit Aut(int pda_, int extra = 0) : pda(pda_), n(pda_ + extra), acc(pda_ + extra, 0) {}
    int add(bool a = false) { acc.push_back(a); return n++; }
};
struct Conf {
    int p = 0; std::vector<int> s;
    bool operator<(const Conf& o) const { return p != o.p ? p < o.p : s < o.s; }
    bool operator==(const Conf& o) const { return p == o.p && s == o.s; }
};

inline char lname(int l) { return l < 26 ? 'a' + l : '?'; }
inline std::string str(const Rule& r) {
    std::ostringstream o;
    o << r.from << "<";
    if (r.wild) o << "*"; else for (size_t i = 0; i < r.pre.size(); ++i) o << (i ? "," : "") << lname(r.pre[i]);
    o << ">->" << r.to << " ";
    switch (r.op) { case POP: o << "pop"; break; case SWAP: o << "swap " << lname(r.oplabel); break; case PUSH: o << "push " << lname(r.oplabel); break; case NOOP: o << "noop"; break; }
    if (r.w != std::vector<long>{0}) { o << " w="; for (size_t i = 0; i < r.w.size(); ++i) o << (i ? "," : "") << r.w[i]; if (r.w.empty()) o << "[]"; }
    return o.str();
}
inline std::string str(const Sys& s) {
    std::ostringstream o; o << "PDA(states=" << s.n << ",labels=" << s.labels << "){";
    for (size_t i = 0; i < s.rules.size(); ++i) o << (i ? "; " : "") << str(s.rules[i]);
    o << "}"; return o.str();
}
inline std::string str(const Aut& a) {
    std::ostringstream o; o << "A(states=" << a.n << ",acc=";
    for (int i = 0; i < a.n; ++i) if (a.acc[i]) o << i << ".";
    for (auto& e : a.edges) { o << " " << e.f << "-"; if (e.l < 0) o << "eps"; else o << lname(e.l); o << "->" << e.t; }
    o << ")"; return o.str();
}
inline std::string str(const Conf& c) { std::string r = "<" + std::to_string(c.p) + ","; for (int l : c.s) r += lname(l); return r + ">"; }

inline std::optional<Conf> apply(const Rule& r, const Conf& c) {
    if (c.p != r.from || c.s.empty() || !r.matches(c.s[0])) return std::nullopt;
    Conf d{r.to, c.s};
    switch (r.op) {
        case POP: d.s.erase(d.s.begin()); break;
        case SWAP: d.s[0] = r.oplabel; break;
        case PUSH: d.s.insert(d.s.begin(), r.oplabel); break;
        case NOOP: break;
    }
    return d;
}
// does the automaton accept the configuration (epsilon edges, label -1, followed anywhere)
inline bool accepts(const Aut& a, const Conf& c) {
    std::set<int> cur{c.p};
    auto close = [&](std::set<int>& s) { bool ch = true; while (ch) { ch = false; for (auto& e : a.edges) if (e.l < 0 && s.count(e.f) && s.insert(e.t).second) ch = true; } };
    close(cur);
    for (int l : c.s) { std::set<int> nx; for (auto& e : a.edges) if (e.l == l && cur.count(e.f)) nx.insert(e.t); close(nx); cur = std::move(nx); if (cur.empty()) return false; }
    for (int q : cur) if (a.acc[q]) return true;
    return false;
}
inline Aut single(const Sys& s, const Conf& c) {
    Aut a(s.n); int last = c.p;
    if (c.s.empty()) { a.acc[c.p] = 1; return a; }
    for (size_t i = 0; i < c.s.size(); ++i) { int q = a.add(i + 1 == c.s.size()); a.edges.push_back({last, c.s[i], q}); last = q; }
    return a;
}

// ---- boolean pre* (naive saturation until nothing changes); requires no edge into a control state.
struct Bits { int n, L; std::vector<char> b; Bits(int n_, int L_) : n(n_), L(L_), b(n_ * n_ * L_, 0) {} char& at(int f, int l, int t) { return b[(f * L + l) * n + t]; } char at(int f, int l, int t) const { return b[(f * L + l) * n + t]; } };
inline Bits pre_star(const Sys& s, const Aut& a, uint64_t* steps = nullptr) {
    Bits B(a.n, s.labels);
    for (auto& e : a.edges) B.at(e.f, e.l, e.t) = 1;
    bool ch = true;
    while (ch) {
        ch = false;
        for (auto& r : s.rules) for (int g = 0; g < s.labels; ++g) if (r.matches(g)) for (int q = 0; q < a.n; ++q) {
            if (B.at(r.from, g, q)) continue;
            bool ok = false;
            switch (r.op) {
                case POP: ok = q == r.to; break;
                case SWAP: ok = B.at(r.to, r.oplabel, q); break;
                case NOOP: ok = B.at(r.to, g, q); break;
                case PUSH: for (int m = 0; m < a.n && !ok; ++m) ok = B.at(r.to, r.oplabel, m) && B.at(m, g, q); break;
            }
            if (ok) { B.at(r.from, g, q) = 1; ch = true; if (steps) ++*steps; }
        }
    }
    return B;
}
inline bool accepts(const Bits& B, const Aut& a, const Conf& c) {
    std::vector<char> cur(a.n, 0); cur[c.p] = 1;
    for (int l : c.s) { std::vector<char> nx(a.n, 0); for (int f = 0; f < a.n; ++f) if (cur[f]) for (int t = 0; t < a.n; ++t) if (B.at(f, l, t)) nx[t] = 1; cur = nx; }
    for (int q = 0; q < a.n; ++q) if (cur[q] && a.acc[q]) return true;
    return false;
}
// does some configuration of `init` lie in pre*(fin) given as B over fin's states
inline bool meets(const Bits& B, const Aut& fin, const Aut& init, int labels) {
    std::set<std::pair<int,int>> seen; std::vector<std::pair<int,int>> wl;
    for (int p = 0; p < fin.pda; ++p) { seen.insert({p, p}); wl.push_back({p, p}); }
    while (!wl.empty()) {
        auto [x, y] = wl.back(); wl.pop_back();
        if (init.acc[x] && fin.acc[y]) return true;
        for (auto& e : init.edges) if (e.f == x) for (int t = 0; t < fin.n; ++t) if (B.at(y, e.l, t) && seen.insert({e.t, t}).second) wl.push_back({e.t, t});
    }
    return false;
}
inline bool reachable(const Sys& s, const Aut& init, const Aut& fin, uint64_t* steps = nullptr) { return meets(pre_star(s, fin, steps), fin, init, s.labels); }

// ---- weighted: weights are vectors of longs compared lexicographically (missing components are zero).
constexpr long INF = LONG_MAX / 4;
using WV = std::array<long, 3>;
inline WV wv(const std::vector<long>& w) { WV r{0, 0, 0}; for (size_t i = 0; i < w.size() && i < 3; ++i) r[i] = w[i]; return r; }
inline WV add(const WV& a, const WV& b) { return {a[0] + b[0], a[1] + b[1], a[2] + b[2]}; }
inline std::string str(const WV& a) { return std::to_string(a[0]) + "," + std::to_string(a[1]) + "," + std::to_string(a[2]); }
struct Dist { int n, L; std::vector<std::optional<WV>> d; Dist(int n_, int L_) : n(n_), L(L_), d(n_ * n_ * L_) {} std::optional<WV>& at(int f, int l, int t) { return d[(f * L + l) * n + t]; } const std::optional<WV>& at(int f, int l, int t) const { return d[(f * L + l) * n + t]; } };
// non-negative (lexicographically >= 0 with decreasing impossible) weights: iterate to the least fixed point.
inline Dist pre_star_min(const Sys& s, const Aut& a) {
    Dist D(a.n, s.labels);
    for (auto& e : a.edges) D.at(e.f, e.l, e.t) = WV{0, 0, 0};
    bool ch = true; 
    while (ch) {
        ch = false;
        for (auto& r : s.rules) { WV rw = wv(r.w); for (int g = 0; g < s.labels; ++g) if (r.matches(g)) for (int q = 0; q < a.n; ++q) {
            auto relax = [&](const WV& x) { auto& d = D.at(r.from, g, q); if (!d || x < *d) { d = x; ch = true; } };
            switch (r.op) {
                case POP: if (q == r.to) relax(rw); break;
                case SWAP: if (auto& x = D.at(r.to, r.oplabel, q)) relax(add(rw, *x)); break;
                case NOOP: if (auto& x = D.at(r.to, g, q)) relax(add(rw, *x)); break;
                case PUSH: for (int m = 0; m < a.n; ++m) { auto& x = D.at(r.to, r.oplabel, m); auto& y = D.at(m, g, q); if (x && y) relax(add(rw, add(*x, *y))); } break;
            }
        } }
    }
    return D;
}
inline std::optional<WV> min_meet(const Dist& D, const Aut& fin, const Aut& init) {
    std::map<std::pair<int,int>, WV> best; 
    for (int p = 0; p < fin.pda; ++p) best[{p, p}] = WV{0, 0, 0};
    bool ch = true;
    while (ch) {
        ch = false;
        auto copy = best;
        for (auto& [k, w] : copy) for (auto& e : init.edges) if (e.f == k.first) for (int t = 0; t < fin.n; ++t) if (auto& x = D.at(k.second, e.l, t)) {
            WV nw = add(w, *x); auto it = best.find({e.t, t});
            if (it == best.end() || nw < it->second) { best[{e.t, t}] = nw; ch = true; }
        }
    }
    std::optional<WV> r;
    for (auto& [k, w] : best) if (init.acc[k.first] && fin.acc[k.second] && (!r || w < *r)) r = w;
    return r;
}
inline std::optional<WV> min_weight(const Sys& s, const Aut& init, const Aut& fin) { return min_meet(pre_star_min(s, fin), fin, init); }
inline std::optional<WV> min_weight_conf(const Dist& D, const Aut& fin, const Conf& c) { // lightest run from c into fin
    std::map<int, WV> cur{{c.p, WV{0,0,0}}};
    for (int l : c.s) { std::map<int, WV> nx; for (auto& [f, w] : cur) for (int t = 0; t < fin.n; ++t) if (auto& x = D.at(f, l, t)) { WV nw = add(w, *x); auto it = nx.find(t); if (it == nx.end() || nw < it->second) nx[t] = nw; } cur = nx; }
    std::optional<WV> r; for (auto& [q, w] : cur) if (fin.acc[q] && (!r || w < *r)) r = w;
    return r;
}

// ---- optimal value over all runs when cycles may improve it without bound (scalar weights):
// value = nullopt: no run; +-INF: unbounded. maximise when `mx`.
// Jacobi (full-sweep) Kleene iteration of the grammar equations: after N rounds (N = number of unknowns) every finite value
// is reached; an unknown that still improves is unbounded; unboundedness then propagates for N further rounds.
inline std::optional<long> opt_value(const Sys& s, const Aut& init, const Aut& fin, bool mx) {
    const long BEST = mx ? INF : -INF;
    auto better = [mx](long a, long b) { return mx ? a > b : a < b; };
    auto plus = [BEST](long a, long b) { return (a == BEST || b == BEST) ? BEST : a + b; };
    // unknowns: edges of pre*(fin)
    int n = fin.n, L = s.labels;
    std::vector<std::optional<long>> d(n * n * L);
    auto idx = [n, L](int f, int l, int t) { return (f * L + l) * n + t; };
    std::vector<std::optional<long>> base(n * n * L);
    for (auto& e : fin.edges) base[idx(e.f, e.l, e.t)] = 0;
    d = base;
    int N = n * n * L + 1;
    for (int phase = 0; phase < 2; ++phase) for (int it = 0; it < N; ++it) {
        auto nd = base; bool ch = false;
        for (auto& r : s.rules) { long rw = r.w.empty() ? 0 : r.w[0]; for (int g = 0; g < L; ++g) if (r.matches(g)) for (int q = 0; q < n; ++q) {
            auto& x = nd[idx(r.from, g, q)];
            auto relax = [&](long v) { if (!x || better(v, *x)) x = v; };
            switch (r.op) {
                case POP: if (q == r.to) relax(rw); break;
                case SWAP: if (auto& y = d[idx(r.to, r.oplabel, q)]) relax(plus(rw, *y)); break;
                case NOOP: if (auto& y = d[idx(r.to, g, q)]) relax(plus(rw, *y)); break;
                case PUSH: for (int m = 0; m < n; ++m) { auto& y = d[idx(r.to, r.oplabel, m)]; auto& z = d[idx(m, g, q)]; if (y && z) relax(plus(rw, plus(*y, *z))); } break;
            }
        } }
        for (size_t i = 0; i < d.size(); ++i) if (nd[i] && (!d[i] || better(*nd[i], *d[i]))) { ch = true; d[i] = phase ? BEST : *nd[i]; }
        if (!ch) { phase = 2; break; }
    }
    // product with init: optimal path, same scheme
    std::map<std::pair<int,int>, long> v;
    for (int p = 0; p < fin.pda; ++p) v[{p, p}] = 0;
    int M = init.n * fin.n + 1;
    for (int phase = 0; phase < 2; ++phase) for (int it = 0; it < M; ++it) {
        bool ch = false; auto nv = v;
        for (auto& [k, w] : v) for (auto& e : init.edges) if (e.f == k.first) for (int t = 0; t < n; ++t) if (auto& x = d[idx(k.second, e.l, t)]) {
            long c = plus(w, *x); auto j = nv.find({e.t, t});
            if (j == nv.end() || better(c, j->second)) { nv[{e.t, t}] = phase ? BEST : c; ch = true; }
        }
        v = nv; if (!ch) { phase = 2; break; }
    }
    std::optional<long> r;
    for (auto& [k, w] : v) if (init.acc[k.first] && fin.acc[k.second] && (!r || better(w, *r))) r = w;
    return r;
}

// the same for vector weights compared lexicographically
struct OptV { bool inf = false; WV w{0, 0, 0}; };
inline std::optional<OptV> opt_value_v(const Sys& s, const Aut& init, const Aut& fin, bool mx) {
    using O = std::optional<OptV>;
    auto better = [mx](const OptV& a, const OptV& b) { if (b.inf) return false; if (a.inf) return true; return mx ? a.w > b.w : a.w < b.w; };
    auto plus = [](const OptV& a, const OptV& b) { OptV r; r.inf = a.inf || b.inf; if (!r.inf) r.w = add(a.w, b.w); return r; };
    int n = fin.n, L = s.labels; auto idx = [n, L](int f, int l, int t) { return (f * L + l) * n + t; };
    std::vector<O> base(n * n * L); for (auto& e : fin.edges) base[idx(e.f, e.l, e.t)] = OptV{};
    auto d = base; int N = n * n * L + 1;
    for (int phase = 0; phase < 2; ++phase) for (int it = 0; it < N; ++it) {
        auto nd = base; bool ch = false;
        for (auto& r : s.rules) { OptV rw; rw.w = wv(r.w); for (int g = 0; g < L; ++g) if (r.matches(g)) for (int q = 0; q < n; ++q) {
            auto& x = nd[idx(r.from, g, q)]; auto relax = [&](const OptV& v) { if (!x || better(v, *x)) x = v; };
            switch (r.op) {
                case POP: if (q == r.to) relax(rw); break;
                case SWAP: if (auto& y = d[idx(r.to, r.oplabel, q)]) relax(plus(rw, *y)); break;
                case NOOP: if (auto& y = d[idx(r.to, g, q)]) relax(plus(rw, *y)); break;
                case PUSH: for (int m = 0; m < n; ++m) { auto& y = d[idx(r.to, r.oplabel, m)]; auto& z = d[idx(m, g, q)]; if (y && z) relax(plus(rw, plus(*y, *z))); } break;
            }
        } }
        for (size_t i = 0; i < d.size(); ++i) if (nd[i] && (!d[i] || better(*nd[i], *d[i]))) { ch = true; if (phase) d[i] = OptV{true, {0, 0, 0}}; else d[i] = nd[i]; }
        if (!ch) { phase = 2; break; }
    }
    std::map<std::pair<int,int>, OptV> v; for (int p = 0; p < fin.pda; ++p) v[{p, p}] = OptV{};
    int M = init.n * fin.n + 1;
    for (int phase = 0; phase < 2; ++phase) for (int it = 0; it < M; ++it) {
        bool ch = false; auto nv = v;
        for (auto& [k, w] : v) for (auto& e : init.edges) if (e.f == k.first) for (int t = 0; t < n; ++t) if (auto& x = d[idx(k.second, e.l, t)]) {
            OptV c = plus(w, *x); auto j = nv.find({e.t, t});
            if (j == nv.end() || better(c, j->second)) { nv[{e.t, t}] = phase ? OptV{true, {0, 0, 0}} : c; ch = true; }
        }
        v = nv; if (!ch) { phase = 2; break; }
    }
    O r; for (auto& [k, w] : v) if (init.acc[k.first] && fin.acc[k.second] && (!r || better(w, *r))) r = w;
    return r;
}

// all configurations up to a stack height
inline std::vector<Conf> all_confs(int n, int labels, int maxh) {
    std::vector<std::vector<int>> st{{}}; std::vector<std::vector<int>> layer{{}};
    for (int h = 0; h < maxh; ++h) { std::vector<std::vector<int>> nl; for (auto& x : layer) for (int l = 0; l < labels; ++l) { auto y = x; y.push_back(l); nl.push_back(y); } st.insert(st.end(), nl.begin(), nl.end()); layer = nl; }
    std::vector<Conf> r; for (int p = 0; p < n; ++p) for (auto& x : st) r.push_back({p, x});
    return r;
}
// explicit-state exploration with a bound on the stack height; returns lightest weight to every configuration seen
inline std::map<Conf, WV> explore(const Sys& s, const std::vector<Conf>& start, size_t maxh, uint64_t& states, uint64_t& transitions) {
    std::map<Conf, WV> best; std::set<std::pair<WV, Conf>> q;
    for (auto& c : start) { best[c] = WV{0,0,0}; q.insert({WV{0,0,0}, c}); }
    while (!q.empty()) {
        auto [w, c] = *q.begin(); q.erase(q.begin());
        ++states;
        for (auto& r : s.rules) if (auto d = apply(r, c)) {
            ++transitions;
            if (d->s.size() > maxh) continue;
            WV nw = add(w, wv(r.w)); auto it = best.find(*d);
            if (it == best.end() || nw < it->second) { if (it != best.end()) q.erase({it->second, *d}); best[*d] = nw; q.insert({nw, *d}); }
        }
    }
    return best;
}
}
