// Families of small systems and automata, enumerated completely.
#pragma once
#include "ref.h"
#include <functional>
namespace fam {
using namespace ref;
enum Pre { PLAIN = 1, WILD = 2, SETS = 4, NOOPS = 8 };
inline std::vector<Rule> alphabet(int n, int L, int flags) {
    std::vector<Rule> r;
    for (int f = 0; f < n; ++f) for (int t = 0; t < n; ++t) {
        std::vector<std::pair<bool, std::vector<int>>> pres;
        if (flags & PLAIN) for (int l = 0; l < L; ++l) pres.push_back({false, {l}});
        if (flags & SETS) for (int m = 1; m < (1 << L); ++m) if (__builtin_popcount(m) > 1) { std::vector<int> v; for (int l = 0; l < L; ++l) if (m >> l & 1) v.push_back(l); pres.push_back({false, v}); }
        if (flags & WILD) pres.push_back({true, {}});
        for (auto& [w, p] : pres) {
            auto mk = [&](Op o, int ol) { Rule x; x.from = f; x.to = t; x.op = o; x.oplabel = ol; x.wild = w; x.pre = p; r.push_back(x); };
            mk(POP, -1);
            for (int l = 0; l < L; ++l) mk(SWAP, l);
            for (int l = 0; l < L; ++l) mk(PUSH, l);
            if (flags & NOOPS) mk(NOOP, -1);
        }
    }
    return r;
}
// every subset of `al` with kmin..kmax elements, as a system; fn is called with a reusable Sys
template<typename F> void subsets(int n, int L, const std::vector<Rule>& al, int kmin, int kmax, F&& fn) {
    std::vector<int> idx; Sys s; s.n = n; s.labels = L;
    std::function<void(size_t)> rec = [&](size_t from) {
        if ((int)idx.size() >= kmin) fn((const Sys&)s);
        if ((int)idx.size() == kmax) return;
        for (size_t i = from; i < al.size(); ++i) { idx.push_back(i); s.rules.push_back(al[i]); rec(i + 1); idx.pop_back(); s.rules.pop_back(); }
    };
    rec(0);
}
// every system with at most one rule per head (state, label)
template<typename F> void deterministic(int n, int L, bool noop, F&& fn) {
    std::vector<std::vector<Rule>> heads;
    auto al = alphabet(n, L, PLAIN | (noop ? NOOPS : 0));
    for (int f = 0; f < n; ++f) for (int l = 0; l < L; ++l) { std::vector<Rule> h; for (auto& r : al) if (r.from == f && r.pre[0] == l) h.push_back(r); heads.push_back(h); }
    Sys s; s.n = n; s.labels = L;
    std::function<void(size_t)> rec = [&](size_t i) {
        if (i == heads.size()) { fn((const Sys&)s); return; }
        rec(i + 1);
        for (auto& r : heads[i]) { s.rules.push_back(r); rec(i + 1); s.rules.pop_back(); }
    };
    rec(0);
}
// every assignment of weights from `ws` to the rules of s
template<typename F> void weightings(const Sys& s0, const std::vector<std::vector<long>>& ws, F&& fn) {
    Sys s = s0; size_t k = s.rules.size(); std::vector<size_t> c(k, 0);
    for (;;) {
        for (size_t i = 0; i < k; ++i) s.rules[i].w = ws[c[i]];
        fn((const Sys&)s);
        size_t i = 0; while (i < k && ++c[i] == ws.size()) c[i++] = 0;
        if (i == k) break;
    }
}
// ---- automata. text: comma separated configurations "0ab" / patterns: state, then letters, '+' suffix = last letter may repeat, '%' = any further stack
inline Aut aut(int n, int L, const std::string& text) {
    Aut a(n); size_t i = 0;
    while (i < text.size()) {
        int p = (unsigned char)text[i++] - 48; int last = p; std::string w; 
        while (i < text.size() && text[i] != ',') w += text[i++];
        ++i;
        bool any = !w.empty() && w.back() == '%'; if (any) w.pop_back();
        bool rep = !w.empty() && w.back() == '+'; if (rep) w.pop_back();
        if (w.empty() && !any) { a.acc[p] = 1; continue; }
        for (size_t k = 0; k < w.size(); ++k) { int q = a.add(k + 1 == w.size()); a.edges.push_back({last, w[k] - 'a', q}); last = q; }
        if (rep) a.edges.push_back({last, w.back() - 'a', last});
        if (any) {
            if (last < n) { a.acc[last] = 1; int q = a.add(true); for (int l = 0; l < L; ++l) a.edges.push_back({last, l, q}); last = q; }
            for (int l = 0; l < L; ++l) a.edges.push_back({last, l, last});
        }
    }
    return a;
}
struct Pair { Aut i, f; std::string name; };
inline std::vector<Pair> pairs(int n, int L, const std::vector<std::pair<std::string, std::string>>& t) { std::vector<Pair> r; for (auto& [x, y] : t) r.push_back({aut(n, L, x), aut(n, L, y), "init{" + x + "} final{" + y + "}"}); return r; }
// all automata with one extra state f: any subset of edges P x Gamma -> f and f x Gamma -> f, any accepting flags on P, f accepting
template<typename F> void all_one_state(int n, int L, bool pacc, F&& fn) {
    int bits = n * L + L + (pacc ? n : 0);
    for (int m = 0; m < (1 << bits); ++m) {
        Aut a(n, 1); a.acc[n] = 1; int b = 0;
        for (int p = 0; p < n; ++p) for (int l = 0; l < L; ++l) if (m >> b++ & 1) a.edges.push_back({p, l, n});
        for (int l = 0; l < L; ++l) if (m >> b++ & 1) a.edges.push_back({n, l, n});
        if (pacc) for (int p = 0; p < n; ++p) if (m >> b++ & 1) a.acc[p] = 1;
        fn((const Aut&)a);
    }
}
}
