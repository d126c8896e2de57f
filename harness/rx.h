// Expressions of any size over numbered labels, with an independent matcher (memoised end positions), their text form,
// and parametric families with dozens to hundreds of operators, labels and letters.
#pragma once
#include "mc.h"
#include <pdaaal/NFA.h>
#include <memory>
#include <bitset>
#include <optional>
namespace rx {
enum Op { SET, CAT, OR, QUES, PLUS, STAR };
struct Node; using P = std::shared_ptr<const Node>;
struct Node { Op op; std::set<int> syms; bool neg = false; P a, b; };
using Word = std::vector<int>;
inline P set(std::set<int> s, bool neg = false) { auto n = std::make_shared<Node>(); n->op = SET; n->syms = std::move(s); n->neg = neg; return n; }
inline P sym(int i) { return set({i}); }
inline P dot() { return set({}, true); }
inline P mk(Op o, P a, P b = nullptr) { auto n = std::make_shared<Node>(); n->op = o; n->a = std::move(a); n->b = std::move(b); return n; }
inline P operator+(P a, P b) { return mk(CAT, std::move(a), std::move(b)); }
inline P operator|(P a, P b) { return mk(OR, std::move(a), std::move(b)); }
inline P opt(P a) { return mk(QUES, std::move(a)); }
inline P plus(P a) { return mk(PLUS, std::move(a)); }
inline P star(P a) { return mk(STAR, std::move(a)); }
// ---- reference matcher: set of end positions from a start position
using Ends = std::bitset<640>; constexpr size_t MAXWORD = 639;
struct Matcher { const Word& w; std::unordered_map<const Node*, std::vector<std::optional<Ends>>> memo;
    const Ends& ends(const Node* n, size_t i) {
        { auto& row = memo[n]; if (row.empty()) row.resize(w.size() + 1); if (row[i]) return *row[i]; }
        Ends r; auto each = [](const Ends& m, auto&& f) { for (size_t k = m._Find_first(); k < m.size(); k = m._Find_next(k)) f(k); };
        switch (n->op) {
            case SET: if (i < w.size() && (n->syms.count(w[i]) > 0) != n->neg) r[i + 1] = 1; break;
            case OR: r = ends(n->a.get(), i); r |= ends(n->b.get(), i); break;
            case CAT: { Ends m = ends(n->a.get(), i); each(m, [&](size_t k) { r |= ends(n->b.get(), k); }); break; }
            case QUES: r = ends(n->a.get(), i); r[i] = 1; break;
            default: { Ends m = ends(n->a.get(), i); r = m; each(m, [&](size_t k) { if (k > i) r |= ends(n, k); }); if (n->op == STAR) r[i] = 1; } // a repetition that consumes nothing adds nothing
        }
        auto& slot = memo[n][i]; slot = r; return *slot;
    } };
inline bool match(const P& e, const Word& w) { Matcher m{w, {}}; return m.ends(e.get(), 0)[w.size()]; }
// ---- the real construction
template<typename T> pdaaal::NFA<T> build(const Node* n, const std::function<T(int)>& lab) {
    switch (n->op) {
        case SET: { std::unordered_set<T> s; for (int i : n->syms) s.insert(lab(i)); return pdaaal::NFA<T>(std::move(s), n->neg); }
        case CAT: { auto x = build<T>(n->a.get(), lab); x.concat(build<T>(n->b.get(), lab)); return x; }
        case OR: { auto x = build<T>(n->a.get(), lab); x.or_extend(build<T>(n->b.get(), lab)); return x; }
        case QUES: { auto x = build<T>(n->a.get(), lab); x.question_extend(); return x; }
        case PLUS: { auto x = build<T>(n->a.get(), lab); x.plus_extend(); return x; }
        default: { auto x = build<T>(n->a.get(), lab); x.star_extend(); return x; }
    }
}
// ---- text with minimal brackets (prec 0 alternatives, 1 sequence, 2 operand); sep is put wherever white space is allowed
inline void text(const Node* n, const std::function<std::string(int)>& lab, const std::string& sep, int prec, std::string& out) {
    switch (n->op) {
        case SET: { if (n->syms.empty()) { out += "."; return; } out += n->neg ? "[^" : "["; bool f = true; for (auto it = n->syms.rbegin(); it != n->syms.rend(); ++it) { if (!f) out += sep + "," + sep; f = false; out += lab(*it); } out += "]"; return; }
        case CAT: { bool br = prec > 1; if (br) out += "(" + sep; text(n->a.get(), lab, sep, 1, out); out += sep; text(n->b.get(), lab, sep, 1, out); if (br) out += sep + ")"; return; }
        case OR: { bool br = prec > 0; if (br) out += "(" + sep; text(n->a.get(), lab, sep, 0, out); out += sep + "|" + sep; text(n->b.get(), lab, sep, 0, out); if (br) out += sep + ")"; return; }
        default: if (n->a->op == SET) text(n->a.get(), lab, sep, 2, out); else { out += "(" + sep; text(n->a.get(), lab, sep, 0, out); out += sep + ")"; } out += n->op == QUES ? "?" : n->op == PLUS ? "+" : "*";
    }
}
// ---- words to ask: words of the language chosen in a few systematic ways, and every prefix, suffix, deletion, substitution, duplication of them
inline void choose(const Node* n, int how, int A, int& tick, Word& out) {
    ++tick;
    switch (n->op) {
        case SET: { if (!n->neg) { auto v = std::vector<int>(n->syms.begin(), n->syms.end()); if (v.empty()) return; out.push_back(how == 0 ? v.front() : how == 1 ? v.back() : v[tick % v.size()]); } else { std::vector<int> v; for (int i = 0; i < A; ++i) if (!n->syms.count(i)) v.push_back(i); if (v.empty()) return; out.push_back(how == 0 ? v.front() : how == 1 ? v.back() : v[tick % v.size()]); } return; }
        case CAT: choose(n->a.get(), how, A, tick, out); choose(n->b.get(), how, A, tick, out); return;
        case OR: choose(how == 0 ? n->a.get() : how == 1 ? n->b.get() : tick % 2 ? n->a.get() : n->b.get(), how, A, tick, out); return;
        default: { int k = how == 0 ? 1 : how == 1 ? (n->op == PLUS ? 1 : 0) : how == 2 ? (n->op == QUES ? tick % 2 : 1 + tick % 2) : (n->op == PLUS ? 1 + (tick >> 1) % 2 : (tick >> 1) % 2); for (int i = 0; i < k && out.size() < 600 && (i == 0 || tick < 2000); ++i) choose(n->a.get(), how, A, tick, out); }
    }
}
inline std::set<Word> words(const P& e, int A, size_t maxlen, size_t stride = 1) {
    std::set<Word> base, r; for (int how = 0; how < (A > 40 ? 4 : 6); ++how) for (int t0 = 0; t0 < (how < 2 ? 1 : A > 40 ? 2 : 3); ++t0) { Word w; int t = t0; choose(e.get(), how, A, t, w); if (w.size() <= maxlen) base.insert(w); }
    r = base; r.insert(Word{}); for (int i = 0; i < A; i += A > 40 && i > 2 && i < A - 4 ? 5 : 1) r.insert(Word{i});
    for (auto& w : base) { size_t st = w.size() > 20 ? std::max<size_t>(stride, w.size() / (w.size() > 60 ? 6 : 12)) : 1;
        for (size_t i = 0; i < w.size(); i += (i + 2 >= w.size() || i < 2) ? 1 : st) { r.insert(Word(w.begin(), w.begin() + i)); r.insert(Word(w.begin() + i, w.end()));
            auto d = w; d.erase(d.begin() + i); r.insert(d); d = w; d.insert(d.begin() + i, w[i]); r.insert(d); for (int s : {(w[i] + 1) % A, (w[i] + A - 1) % A, 0, A - 1}) { d = w; d[i] = s; r.insert(d); } }
        for (int s : {0, A / 2, A - 1}) { auto d = w; d.push_back(s); r.insert(d); }
        auto d = w; d.insert(d.end(), w.begin(), w.end()); if (d.size() <= 2 * maxlen) r.insert(d); }
    return r;
}
struct Case { std::string name; P e; int A; bool amb = false; int n = 0; }; // amb: some words have many ways to match
template<typename F> void families(const std::vector<int>& sizes, F&& fun) {
    for (int n : sizes) {
        auto fn = [&](Case c) { c.n = n; fun(c); };
        auto nm = [&](const char* s) { return std::string(s) + "(" + std::to_string(n) + ")"; };
        auto fold = [&](Op o, bool right, const std::function<P(int)>& f) { P r; if (right) { for (int i = n - 1; i >= 0; --i) r = r ? mk(o, f(i), r) : f(i); } else for (int i = 0; i < n; ++i) r = r ? mk(o, r, f(i)) : f(i); return r; };
        auto L = [](int i) { return sym(i); }; auto L3 = [](int i) { return sym(i * i % 3); };
        for (bool r : {false, true}) {
            std::string d = r ? ", right-nested" : "";
            fn(Case{nm("sequence of different labels") + d, fold(CAT, r, L), n + 1});
            fn(Case{nm("alternatives") + d, fold(OR, r, L), n + 1});
            fn(Case{nm("sequence of optional labels") + d, fold(CAT, r, [&](int i) { return opt(sym(i)); }), n});
            fn(Case{nm("starred alternatives, then a label") + d, star(fold(OR, r, L)) + sym(n), n + 2});
            fn(Case{nm("alternatives of words") + d, fold(OR, r, [&](int i) { return i % 3 == 0 ? sym(i) : i % 3 == 1 ? sym(i) + sym(0) : sym(i) + (sym(n) + sym(i)); }), n + 2});
        }
        fn(Case{nm("sequence over three labels"), fold(CAT, false, L3), 4});
        fn(Case{nm("sequence of starred labels"), fold(CAT, false, [&](int i) { return star(sym(i % 4)); }), 5, true});
        fn(Case{nm("sequence of sets"), fold(CAT, false, [&](int i) { return set({i, (i * 7 + 1) % (n + 2)}, i % 3 == 2); }), n + 2});
        fn(Case{nm("repeated sequence"), plus(fold(CAT, true, L3)), 4});
        fn(Case{nm("alternatives of repeated words, repeated"), plus(fold(OR, false, [&](int i) { return plus(sym(i) + opt(sym((i + 1) % n))); })) + opt(sym(n)), n + 1, true});
        fn(Case{nm("alternatives of complements, in sequence"), (set({0, n / 2, n}, true) | set({n / 3}, true)) + fold(OR, false, [&](int i) { return i % 2 ? set({i}) : set({i, n}, false); }), n + 2});
        { std::set<int> s, ev; for (int i = 0; i < n; ++i) { s.insert(i); if (i % 2 == 0) ev.insert(i); }
          for (bool ng : {false, true}) { std::string d = ng ? ", complemented" : ""; fn(Case{nm("one set") + d, set(s, ng), n + 2}); fn(Case{nm("every other label") + d, set(ev, ng) + star(set(s, ng)), n + 2}); fn(Case{nm("one set and its rest") + d, set(ev, ng) | (set(ev, !ng) + set(ev, ng)), n + 1}); } }
        if (n <= 40) {
            { P e = sym(0); for (int i = 1; i <= n; ++i) e = i % 4 == 0 ? star(e) + sym(i % 5) : i % 4 == 1 ? opt(e) + opt(sym(i % 5)) : i % 4 == 2 ? plus(e) : sym(i % 5) | e; fn(Case{nm("nested operators"), e, 5, true}); }
            { P e = sym(0); for (int i = 1; i <= n; ++i) e = opt(sym(i % 3) + e); fn(Case{nm("nested options"), e, 4, true}); }
            { P e = sym(0); for (int i = 1; i <= n; ++i) e = star(e | sym(i % 4)) + (i % 2 ? opt(sym(i % 3)) : sym(i % 4)); fn(Case{nm("nested stars"), e, 4, true}); }
            { P e = sym(0); for (int i = 1; i <= n; ++i) e = plus(e + opt(sym(i % 4))); fn(Case{nm("nested repetitions"), e, 4, true}); }
            { P e = dot(); for (int i = 1; i <= n; ++i) e = (e | set({i % 4}, true)) + (i % 3 ? opt(dot()) : star(set({i % 4}))); fn(Case{nm("nested wildcards"), e, 5, true}); }
        }
    }
}
inline std::vector<int> sizes(bool th) { std::vector<int> r; for (int i = 1; i <= (th ? 70 : 18); ++i) r.push_back(i); for (int i : th ? std::vector<int>{100, 127, 128, 129, 255, 256, 257} : std::vector<int>{31, 32, 33, 64, 65, 128}) r.push_back(i); return r; }
inline std::string show(const Word& w) { std::string r; for (size_t i = 0; i < w.size(); ++i) r += (i ? " " : "") + std::to_string(w[i]); return "[" + r + "]"; }
template<typename T> bool accepts(const pdaaal::NFA<T>& n, const Word& w, const std::function<T(int)>& lab) {
    using S = typename pdaaal::NFA<T>::state_t; std::vector<const S*> cur(n.initial().begin(), n.initial().end());
    for (int l : w) { cur = pdaaal::NFA<T>::successor(cur, lab(l)); if (cur.empty()) return false; }
    return std::any_of(cur.begin(), cur.end(), [](auto* s) { return s->_accepting; });
}
}
