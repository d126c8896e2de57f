// Expressions over NFA operations with their exact languages (words up to length 4 over three symbols).
#pragma once
#include "mc.h"
#include <pdaaal/NFA.h>
#include <bitset>
using namespace pdaaal;
// symbols: 'a','b','c' ; words up to length LEN, indexed
constexpr int SY = 3; static const char SYM[SY + 1] = "abc";
constexpr int LEN = 4; constexpr int NW = 1 + 3 + 9 + 27 + 81;
using Lang = std::bitset<NW>;
struct Words { std::vector<std::string> w; std::map<std::string, int> id; std::vector<std::vector<std::pair<int, int>>> splits;
    Words() { w.push_back(""); for (size_t i = 0; i < w.size(); ++i) if ((int)w[i].size() < LEN) for (int s = 0; s < SY; ++s) w.push_back(w[i] + SYM[s]); for (size_t i = 0; i < w.size(); ++i) id[w[i]] = i;
        for (auto& x : w) { std::vector<std::pair<int, int>> v; for (size_t k = 0; k <= x.size(); ++k) v.push_back({id[x.substr(0, k)], id[x.substr(k)]}); splits.push_back(v); } } };
static const Words& W() { static Words x; return x; }
static Lang cat(const Lang& a, const Lang& b) { Lang r; for (int i = 0; i < NW; ++i) for (auto& [x, y] : W().splits[i]) if (a[x] && b[y]) { r[i] = 1; break; } return r; }
static Lang plus(const Lang& a) { Lang r = a; for (int i = 0; i < LEN; ++i) { Lang n = r | cat(r, a); if (n == r) break; r = n; } return r; }

enum TOp { ATOM, QUES, PLUS, STAR, CAT, OR };
struct Term { TOp op; int a = -1, b = -1; int size = 0; };
struct Atom { std::string name; std::string syms; bool neg; int special; }; // special: 0 label set, 1 NFA(true), 2 NFA(false), 3 default constructed
struct Space { std::vector<Atom> atoms; std::vector<Term> t; std::vector<Lang> lang; std::vector<int> from; // from[s]: first term of size s
    Space(std::vector<Atom> at, int maxops) : atoms(at) {
        from.push_back(0); for (size_t i = 0; i < atoms.size(); ++i) { t.push_back({ATOM, (int)i}); lang.push_back(atom(atoms[i])); }
        for (int s = 1; s <= maxops; ++s) {
            from.push_back(t.size()); int end = t.size();
            for (int x = from[s - 1]; x < end; ++x) for (TOp o : {QUES, PLUS, STAR}) { t.push_back({o, x, -1, s}); Lang l = lang[x]; if (o != QUES) l = plus(l); if (o != PLUS) l[0] = 1; lang.push_back(l); }
            for (int i = 0; i < s; ++i) { int j = s - 1 - i; int e1 = i + 1 < (int)from.size() ? from[i + 1] : end, e2 = j + 1 < (int)from.size() ? from[j + 1] : end;
                for (int x = from[i]; x < e1; ++x) for (int y = from[j]; y < e2; ++y) { t.push_back({CAT, x, y, s}); lang.push_back(cat(lang[x], lang[y])); t.push_back({OR, x, y, s}); lang.push_back(lang[x] | lang[y]); } }
        }
    }
    static Lang atom(const Atom& a) { Lang l; if (a.special) { if (a.special != 2) l[0] = 1; return l; } for (int i = 0; i < SY; ++i) { bool in = a.syms.find(SYM[i]) != std::string::npos; if (in != a.neg) l[W().id.at(std::string(1, SYM[i]))] = 1; } return l; }
    std::string str(int i) const { auto& x = t[i]; switch (x.op) { case ATOM: return atoms[x.a].name; case QUES: return "(" + str(x.a) + ")?"; case PLUS: return "(" + str(x.a) + ")+"; case STAR: return "(" + str(x.a) + ")*"; case CAT: return "(" + str(x.a) + " " + str(x.b) + ")"; default: return "(" + str(x.a) + "|" + str(x.b) + ")"; } }
};
// how: 0 moves only, 1 every intermediate result copied, 2 every intermediate result assigned onto a non-empty automaton, 3 moved through assignment
template<typename T> struct Build { const Space& s; std::function<T(char)> sym; int how;
    NFA<T> fix(NFA<T>&& n) {
        if (how == 0) return std::move(n);
        if (how == 1) { NFA<T> c(n); return c; }
        if (how == 2) { NFA<T> c(std::unordered_set<T>{sym('b')}); c.plus_extend(); c = n; return c; }
        NFA<T> c(std::unordered_set<T>{sym('a')}); c = std::move(n); return c;
    }
    NFA<T> operator()(int i) {
        auto& x = s.t[i];
        if (x.op == ATOM) { auto& a = s.atoms[x.a]; if (a.special == 1) return fix(NFA<T>(true)); if (a.special == 2) return fix(NFA<T>(false)); if (a.special == 3) return fix(NFA<T>()); std::unordered_set<T> l; for (char c : a.syms) l.insert(sym(c)); return fix(NFA<T>(std::move(l), a.neg)); }
        NFA<T> n = (*this)(x.a);
        switch (x.op) { case QUES: n.question_extend(); break; case PLUS: n.plus_extend(); break; case STAR: n.star_extend(); break; case CAT: n.concat((*this)(x.b)); break; default: n.or_extend((*this)(x.b)); }
        return fix(std::move(n));
    } };
