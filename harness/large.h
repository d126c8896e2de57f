// Parametric systems with hundreds of states, labels, rules or stack symbols whose reachable configurations are finite.
// The oracle is the explicit configuration graph.
#pragma once
#include "ref.h"
#include <functional>
namespace large {
using namespace ref;
struct Big { std::string name; Sys s; std::vector<Conf> init, fin; bool slow = false; };
inline Aut aut_of(const Sys& s, const std::vector<Conf>& cs) {
    Aut a(s.n);
    for (auto& c : cs) { if (c.s.empty()) { a.acc[c.p] = 1; continue; } int last = c.p; for (size_t i = 0; i < c.s.size(); ++i) { int q = a.add(i + 1 == c.s.size()); a.edges.push_back({last, c.s[i], q}); last = q; } }
    return a;
}
struct Graph {
    std::vector<Conf> conf; std::map<Conf, int> id; struct E { int f, t; long w; }; std::vector<E> edges; std::vector<char> is_fin, can;
    bool yes = false; long mn = 0, mx = 0; bool mx_inf = false, mn_inf = false; int ninit = 0;
    explicit Graph(const Big& b) {
        std::vector<std::vector<int>> by(b.s.n); for (size_t i = 0; i < b.s.rules.size(); ++i) by[b.s.rules[i].from].push_back(i);
        auto add = [&](const Conf& c) { auto [it, fresh] = id.emplace(c, conf.size()); if (fresh) conf.push_back(c); return it->second; };
        for (auto& c : b.init) add(c); ninit = conf.size();
        for (size_t i = 0; i < conf.size(); ++i) { Conf c = conf[i]; for (int k : by[c.p]) if (auto d = apply(b.s.rules[k], c)) { int t = add(*d); edges.push_back({(int)i, t, b.s.rules[k].w.empty() ? 0 : b.s.rules[k].w[0]}); } }
        size_t n = conf.size(); is_fin.assign(n, 0); for (auto& c : b.fin) if (auto it = id.find(c); it != id.end()) is_fin[it->second] = 1;
        std::vector<std::vector<int>> out(n), in(n); for (size_t i = 0; i < edges.size(); ++i) { out[edges[i].f].push_back(i); in[edges[i].t].push_back(i); }
        can.assign(n, 0); std::vector<int> wl; for (size_t i = 0; i < n; ++i) if (is_fin[i]) can[i] = 1, wl.push_back(i);
        while (!wl.empty()) { int x = wl.back(); wl.pop_back(); for (int k : in[x]) if (!can[edges[k].f]) can[edges[k].f] = 1, wl.push_back(edges[k].f); }
        for (int i = 0; i < ninit; ++i) yes = yes || can[i];
        if (!yes) return;
        const long NO = LONG_MIN; // longest and shortest by relaxation; every configuration is reachable, only those that can reach a final one matter
        for (int dir : {1, -1}) {
            std::vector<long> d(n, NO); std::deque<int> q; std::vector<char> inq(n, 0); std::vector<int> cnt(n, 0); bool inf = false;
            for (int i = 0; i < ninit; ++i) if (can[i]) d[i] = 0, q.push_back(i), inq[i] = 1;
            while (!q.empty() && !inf) { int x = q.front(); q.pop_front(); inq[x] = 0; if (++cnt[x] > (int)n + 1) { inf = true; break; } for (int k : out[x]) { int y = edges[k].t; if (!can[y]) continue; long v = d[x] + dir * edges[k].w; if (d[y] == NO || v > d[y]) { d[y] = v; if (!inq[y]) q.push_back(y), inq[y] = 1; } } }
            long best = NO; for (size_t i = 0; i < n; ++i) if (is_fin[i] && d[i] != NO) best = std::max(best, d[i]);
            if (dir > 0) mx = best, mx_inf = inf; else mn = -best, mn_inf = inf;
        }
    }
};
inline Rule R(int f, std::vector<int> pre, int t, Op op, int ol = -1, long w = 1) { Rule r; r.from = f; r.to = t; r.op = op; r.oplabel = ol; r.pre = std::move(pre); r.w = {w}; return r; }
inline Rule RW(int f, int t, Op op, int ol = -1, long w = 1) { Rule r = R(f, {}, t, op, ol, w); r.wild = true; return r; }
inline Big drop(Big b, size_t k, const char* what) { b.name += what; b.s.rules.erase(b.s.rules.begin() + k); return b; }
template<typename F> void each(const std::vector<int>& sizes, F&& fn) {
    for (int N : sizes) {
        std::string n = "(" + std::to_string(N) + ")";
        for (int L : {1, 3}) { // a chain of N swaps
            Big b; b.name = "chain" + n + " labels " + std::to_string(L); b.s.n = N + 1; b.s.labels = L;
            for (int i = 0; i < N; ++i) b.s.rules.push_back(R(i, {i % L}, i + 1, i % 7 == 3 && L == 1 ? NOOP : SWAP, (i + 1) % L, i % 5));
            b.init = {{0, {0}}}; b.fin = {{N, {N % L}}}; fn(b); fn(drop(b, N / 2, " without the middle rule")); if (L == 3) { std::reverse(b.s.rules.begin(), b.s.rules.end()); b.name += " reversed rules"; fn(b); }
        }
        { Big b; b.name = "push and pop" + n; b.s.n = 2 * N + 1; b.s.labels = 4; for (int i = 0; i < N; ++i) { b.s.rules.push_back(R(i, {i ? (i - 1) % 3 : 3}, i + 1, PUSH, i % 3, 1 + i % 2)); }
          for (int i = 0; i < N; ++i) b.s.rules.push_back(R(N + i, {(N - 1 - i) % 3}, N + i + 1, POP, -1, i % 4)); b.init = {{0, {3}}}; b.fin = {{2 * N, {3}}}; fn(b); fn(drop(b, N + N / 2, " without a pop rule")); b.init = {{0, {3, 1}}, {0, {3, 2, 2}}}; b.fin = {{2 * N, {3, 2, 2}}}; b.name += " under a longer stack"; fn(b); }
        { Big b; b.name = "wildcard push and pop" + n; b.s.n = 2 * N + 1; b.s.labels = 2; for (int i = 0; i < N; ++i) b.s.rules.push_back(RW(i, i + 1, PUSH, i % 2)); for (int i = 0; i < N; ++i) b.s.rules.push_back(RW(N + i, N + i + 1, POP)); b.init = {{0, {1, 0}}}; b.fin = {{2 * N, {1, 0}}}; fn(b); b.fin = {{2 * N, {0, 0}}}; b.name += " wrong stack"; fn(b); }
        { Big b; b.name = "label ring" + n; b.s.n = 1; b.s.labels = N + 1; for (int l = 0; l < N; ++l) b.s.rules.push_back(R(0, {l}, 0, SWAP, l + 1, l % 3)); b.init = {{0, {0}}}; b.fin = {{0, {N}}}; fn(b); fn(drop(b, N / 2, " without the middle rule")); }
        { Big b; b.name = "label sets" + n; b.s.n = 2; b.s.labels = N + 1; std::vector<int> all, low; for (int l = 0; l <= N; ++l) { if (l != N / 2) all.push_back(l); if (l < N / 2) low.push_back(l); } if (!low.empty()) b.s.rules.push_back(R(0, low, 1, POP, -1, 5)); if (!all.empty()) b.s.rules.push_back(R(0, all, 1, POP, -1, 2)); b.fin = {{1, {}}}; for (int l : {0, N / 2, N}) { Big c = b; c.init = {{0, {l}}}; c.name += " top " + std::to_string(l); fn(c); } }
        { Big b; b.name = "long stack" + n; b.s.n = 1; b.s.labels = 3; b.s.rules = {R(0, {0}, 0, POP), R(0, {1}, 0, POP, -1, 0)}; Conf c{0, {}}; for (int i = 0; i < N; ++i) c.s.push_back(i * i % 2); b.init = {c}; b.fin = {{0, {}}}; fn(b); b.init[0].s[N / 2] = 2; b.name += " with a symbol that cannot be popped"; fn(b); }
        { Big b; b.name = "fan" + n; b.s.n = N + 2; b.s.labels = 2; for (int k : {1, (N + 1) / 2, N}) { Big c = b; c.name += " best " + std::to_string(k); for (int i = 1; i <= N; ++i) c.s.rules.push_back(R(0, {0}, i, SWAP, 1, std::abs(i - k) + 1)); for (int i = 1; i <= N; ++i) c.s.rules.push_back(R(i, {1}, N + 1, POP, -1, i == k ? 0 : 1)); c.init = {{0, {0}}}; c.fin = {{N + 1, {}}}; fn(c); c.s.rules.resize(N); c.s.rules.push_back(R(k, {1}, N + 1, POP, -1, 3)); c.name += " one way out"; fn(c); } }
        { Big b; b.name = "many initial" + n; b.s.n = N + 1; b.s.labels = 2; for (int k : {0, N / 2, N - 1}) { Big c = b; c.name += " good " + std::to_string(k); for (int i = 0; i < N; ++i) c.init.push_back({i, {0}}); c.s.rules.push_back(R(k, {0}, N, PUSH, 1, 1)); c.fin = {{N, {1, 0}}}; fn(c); c.fin = {{N, {0, 1}}}; c.name += " wrong stack"; fn(c); } }
        { Big b; b.name = "diamonds" + n; b.s.n = N + 1; b.s.labels = 2; for (int i = 0; i < N; ++i) { b.s.rules.push_back(R(i, {0}, i + 1, SWAP, 0, 1 + i % 2)); b.s.rules.push_back(R(i, {0}, i + 1, SWAP, 1, 2 - i % 2)); b.s.rules.push_back(R(i, {1}, i + 1, SWAP, 0, 3)); b.s.rules.push_back(R(i, {1}, i + 1, NOOP, -1, 0)); } b.init = {{0, {0}}}; b.fin = {{N, {0}}}; fn(b); }
        { Big b; b.name = "cycle" + n; b.s.n = N + 1; b.s.labels = 2; for (int i = 0; i < N; ++i) b.s.rules.push_back(R(i, {0}, (i + 1) % N, SWAP, 0, i == N / 2)); b.s.rules.push_back(R(N - 1, {0}, N, SWAP, 1, 7)); b.init = {{0, {0}}}; b.fin = {{N, {1}}}; fn(b); }
        // one procedure (state N, symbol 0) with M return states and N callers, each with a symbol of its own
        for (int M : N > 1 ? std::vector<int>{2, N} : std::vector<int>{1}) { if (N > 64 && M > 2) M = N > 300 ? 5 : N / 2; int P = N, ret = N + 1, goal = N + 1 + M;
            for (int k : {0, N / 2, N - 1}) { Big b; b.name = "callers" + n + " returns " + std::to_string(M) + " good " + std::to_string(k); b.s.n = N + M + 2; b.s.labels = N + 1; for (int i = 0; i < N; ++i) { b.init.push_back({i, {i + 1}}); b.s.rules.push_back(R(i, {i + 1}, P, PUSH, 0, 1 + i % 2)); } for (int j = 0; j < M; ++j) b.s.rules.push_back(R(P, {0}, ret + j, POP, -1, j % 3)); b.s.rules.push_back(R(ret + k % M, {k + 1}, goal, SWAP, 0, 2)); b.fin = {{goal, {0}}}; fn(b); std::reverse(b.s.rules.begin(), b.s.rules.end()); b.name += " reversed rules"; fn(b); }
            // the calls follow each other, each returning through another state
            Big b; b.name = "successive calls" + n + " returns " + std::to_string(M); b.s.n = N + M + 2; b.s.labels = N + 1; for (int i = 0; i < N; ++i) b.s.rules.push_back(R(i, {i + 1}, P, PUSH, 0, 1 + i % 2)); for (int j = 0; j < M; ++j) b.s.rules.push_back(R(P, {0}, ret + j, POP, -1, j % 3)); for (int i = 0; i < N; ++i) b.s.rules.push_back(R(ret + (M - 1 - i * 7 % M), {i + 1}, i + 1 < N ? i + 1 : goal, SWAP, i + 1 < N ? i + 2 : 0, i % 3)); b.init = {{0, {1}}}; b.fin = {{goal, {0}}}; fn(b); fn(drop(b, N + M + N / 2, " without a return")); std::reverse(b.s.rules.begin(), b.s.rules.end()); b.name += " reversed rules"; fn(b); }
        if (N <= 10) { // A_i -> A_{i-1} A_{i-1}: the only run has length exponential in N
            Big b; b.name = "doubling" + n; b.s.n = N + 2; b.s.labels = N + 1; for (int i = 1; i <= N; ++i) { b.s.rules.push_back(R(0, {i}, i, SWAP, i - 1, 0)); b.s.rules.push_back(R(i, {i - 1}, 0, PUSH, i - 1, 0)); } b.s.rules.push_back(R(0, {0}, 0, POP, -1, 1)); b.init = {{0, {N}}}; b.fin = {{0, {}}}; fn(b); }
    }
}
inline std::vector<int> sizes(bool thorough) { std::vector<int> r; for (int i = 1; i <= (thorough ? 140 : 40); ++i) r.push_back(i); for (int i : {63, 64, 65, 127, 128, 129}) if (!thorough) r.push_back(i); for (int i : {255, 256, 257}) r.push_back(i); return r; }
}
