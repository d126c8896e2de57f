// C08: texts denote exactly the set their notation describes; anything else is rejected.
#include "regex.h"
#include "rx.h"
#include <pdaaal/parsing/NfaParser.h>
#include <parsing/PAutomatonParser.h>
#include <pdaaal/PDA.h>
#include <fstream>
#include <optional>

// ---------------------------------------------------------------- reference reading of the notation (independent of the parser)
struct Reject {};
using LabelOf = std::function<int(const std::string&)>; // class of a label: 0..2 for symbol a,b,c
struct Reader {
    const std::string& s; size_t i = 0; LabelOf lab; bool general = false; // general: a wildcard or a complement was read
    Reader(const std::string& t, LabelOf l) : s(t), lab(std::move(l)) {}
    bool at(char c) const { return i < s.size() && s[i] == c; }
    static bool space(char c) { return c == ' ' || (c >= '\t' && c <= '\r'); }
    void ws() { while (i < s.size()) { if (space(s[i])) ++i; else if (s[i] == '#') { while (i < s.size() && s[i] != '\n') ++i; if (i < s.size()) ++i; } else break; } }
    void need(char c) { if (!at(c)) throw Reject{}; ++i; }
    static bool word(char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9') || c == '_'; }
    std::string label() { size_t b = i; while (i < s.size() && word(s[i])) ++i; if (b == i) throw Reject{}; return s.substr(b, i - b); }
    bool starts_value() const { return at('.') || at('(') || at('['); }
    Lang value() {
        if (at('.')) { ++i; general = true; Lang l; for (int k = 0; k < SY; ++k) l[1 + k] = 1; return l; }
        if (at('(')) { ++i; ws(); Lang l = expr(); ws(); need(')'); return l; }
        need('['); bool neg = at('^'); if (neg) { ++i; general = true; }
        std::set<int> in; in.insert(lab(label()));
        for (;;) { size_t b = i; ws(); if (!at(',')) { i = b; break; } ++i; ws(); in.insert(lab(label())); }
        need(']'); Lang l; for (int k = 0; k < SY; ++k) if ((in.count(k) > 0) != neg) l[1 + k] = 1; return l;
    }
    Lang unary() { Lang l = value(); if (at('*')) { ++i; l = plus(l); l[0] = 1; } else if (at('+')) { ++i; l = plus(l); } else if (at('?')) { ++i; l[0] = 1; } return l; }
    Lang seq() { Lang l = unary(); for (;;) { size_t b = i; ws(); if (!starts_value()) { i = b; return l; } l = cat(l, unary()); } }
    Lang expr() { if (!starts_value()) throw Reject{}; Lang l = seq(); for (;;) { size_t b = i; ws(); if (!at('|')) { i = b; return l; } ++i; ws(); l = l | seq(); } }
    Lang opt_expr() { ws(); Lang l; if (starts_value()) l = expr(); else l[0] = 1; ws(); return l; }
    Lang file() { Lang l = opt_expr(); if (i != s.size()) throw Reject{}; return l; }
    // configuration sets
    using StateOf = std::function<int(const std::string&)>; // throws Reject if unknown
    StateOf st;
    std::string state() {
        if (i < s.size() && s[i] >= '0' && s[i] <= '9') { size_t b = i; while (i < s.size() && s[i] >= '0' && s[i] <= '9') ++i; return s.substr(b, i - b); }
        if (i < s.size() && word(s[i])) { size_t b = i; while (i < s.size() && word(s[i])) ++i; return s.substr(b, i - b); }
        need('"'); std::string r; for (;;) { if (i >= s.size()) throw Reject{}; char c = s[i++]; if (c == '"') return r; if (c == '\\') { if (!at('"') && !at('\\')) throw Reject{}; r += s[i++]; } else if ((unsigned char)c < 0x20) throw Reject{}; else r += c; }
    }
    struct AtomSet { std::set<int> states; Lang lang; bool general; };
    AtomSet atom() {
        AtomSet a; need('<'); ws();
        if (at('[')) { ++i; a.states.insert(st(state())); for (;;) { size_t b = i; ws(); if (!at(',')) { i = b; break; } ++i; ws(); a.states.insert(st(state())); } need(']'); } else a.states.insert(st(state()));
        ws(); need(','); general = false; a.lang = opt_expr(); a.general = general; need('>'); return a;
    }
    std::vector<AtomSet> atoms() { std::vector<AtomSet> r; ws(); r.push_back(atom()); for (;;) { size_t b = i; ws(); if (!at('|')) { i = b; break; } ++i; ws(); r.push_back(atom()); } ws(); if (i != s.size()) throw Reject{}; return r; }
};
static std::string show(const std::string& t) { std::string r = "text {"; for (char c : t) { if (c == '\n') r += "\\n"; else if (c == '\t') r += "\\t"; else if (c == '\r') r += "\\r"; else if (c == '\f') r += "\\f"; else if (c == '\v') r += "\\v"; else if (c == 0) r += "\\0"; else r += c; } return r + "}"; }
static int cls(const std::string& l) { if (l == "a") return 0; if (l == "b") return 1; if (l == "c") return 2; int h = 0; for (char ch : l) h = h * 5 + (unsigned char)ch + 1; return h % 3; }

static void accepts(const NFA<size_t>& n, const Lang& want) {
    using S = NFA<size_t>::state_t; struct E { std::vector<const S*> st; int w; }; std::vector<E> q; q.push_back({std::vector<const S*>(n.initial().begin(), n.initial().end()), 0});
    std::vector<char> seen(NW); int maxlen = mc::thorough() ? 4 : 3;
    for (size_t i = 0; i < q.size(); ++i) {
        auto cur = q[i]; mc::count("states"); seen[cur.w] = 1;
        bool acc = std::any_of(cur.st.begin(), cur.st.end(), [](const S* s) { return s->_accepting; }) || (cur.w == 0 && n.empty_accept());
        mc::require_f(acc == want[cur.w], [&] { return "word '" + W().w[cur.w] + "' " + (acc ? "accepted" : "rejected"); });
        if ((int)W().w[cur.w].size() == maxlen) continue;
        for (int s = 0; s < SY; ++s) { mc::count("transitions"); auto nx = NFA<size_t>::successor(cur.st, (size_t)s); if (!nx.empty()) q.push_back({nx, W().id.at(W().w[cur.w] + SYM[s])}); }
    }
    for (int k = 0; k < NW; ++k) if ((int)W().w[k].size() <= maxlen && want[k] && !seen[k]) mc::fail("word '" + W().w[k] + "' rejected");
}
static void regex_text(const std::string& t, const std::string& file = "") {
    mc::run_case([&] { return "regular expression, " + show(t); }, [&] {
        std::optional<Lang> want; try { want = Reader(t, cls).file(); } catch (const Reject&) {}
        std::optional<NFA<size_t>> got; std::string why; mc::count("impl_runs");
        auto label = [](const std::string& l) -> size_t { return cls(l); };
        try { if (!file.empty()) { std::ofstream(file, std::ios::binary) << t; got = NfaParser::parse_file(file, label); } else got = NfaParser::parse_string(t, label); } catch (const std::exception& e) { why = e.what(); }
        if (got.has_value() != want.has_value()) mc::fail(want ? "a valid expression is rejected: " + why : std::string("accepted although it is not an expression"));
        if (!want) { mc::require(!why.empty(), "rejected without a message"); return; }
        mc::count("accepted"); if (want->count() > 1) mc::count("nontrivial");
        got->compile(); accepts(*got, *want);
    });
}
template<typename F> void strings(const std::vector<std::string>& toks, int lo, int hi, F&& f) {
    for (int n = lo; n <= hi; ++n) { std::vector<int> d(n); for (;;) { std::string t; for (int x : d) t += toks[x]; f(t); int k = n - 1; while (k >= 0 && ++d[k] == (int)toks.size()) d[k--] = 0; if (k < 0) break; } }
}
static std::vector<std::string> chars(const std::string& s) { std::vector<std::string> r; for (char c : s) r.push_back(std::string(1, c)); return r; }
static std::string scratch() { const char* s = getenv("VF_SCRATCH"); return std::string(s ? s : "/tmp") + "/c08_" + std::to_string(getpid()); }

// ---------------------------------------------------------------- configuration sets
static const std::vector<std::string> NAMES = {"s", "0", "s0", "10", "\"", "\\", " ", "", ",", "_", "[", "0s", "é"};
enum Kind { NAMED, INDEX, MAPPED }; // states named by strings / by index / by arbitrary numbers
template<typename Wt, TraceInfoType ti> void config_text(Kind k, const std::string& t, const std::string& labels, bool file, bool newlab) {
    // reference
    std::vector<size_t> ids;
    Reader::StateOf st; static const std::vector<size_t> NUM = {7, 0, 10, 4000000000ul};
    if (k == NAMED) st = [](const std::string& n) { auto it = std::find(NAMES.begin(), NAMES.end(), n); if (it == NAMES.end()) throw Reject{}; return (int)(it - NAMES.begin()); };
    else st = [k](const std::string& n) { if (n.empty() || n.size() > 12 || n.find_first_not_of("0123456789") != std::string::npos) throw Reject{}; size_t v = std::stoul(n); if (k == INDEX) { if (v >= 11) throw Reject{}; return (int)v; } auto it = std::find(NUM.begin(), NUM.end(), v); if (it == NUM.end()) throw Reject{}; return (int)(it - NUM.begin()); };
    auto lab = [&](const std::string& l) -> int { if (l != "a" && l != "b" && l != "c") return -1; return l[0] - 'a'; };
    std::vector<Reader::AtomSet> want; bool ok = true; Reader rd(t, lab); rd.st = st; try { want = rd.atoms(); } catch (const Reject&) { ok = false; }
    auto judge = [&](auto& pda, int nstates) {
        mc::count("impl_runs");
        using A = decltype(parsing::PAutomatonParser::parse_string<ti>(t, pda)); std::optional<A> got; std::string why;
        try { if (file) { auto fn = scratch(); std::ofstream(fn, std::ios::binary) << t; got.emplace(parsing::PAutomatonParser::parse_file<ti>(fn, pda)); unlink(fn.c_str()); } else got.emplace(parsing::PAutomatonParser::parse_string<ti>(t, pda)); } catch (const std::exception& e) { why = e.what(); }
        if (got.has_value() != ok) mc::fail(ok ? "a valid text is rejected: " + why : std::string("accepted although it is not a configuration set"));
        if (!ok) return;
        mc::count("accepted");
        // symbol of W() -> label id of the pda
        std::vector<std::pair<bool, uint32_t>> id; for (int s = 0; s < SY; ++s) { auto [f, i] = pda.exists_label(std::string(1, SYM[s])); id.push_back({f, (uint32_t)i}); }
        bool nt = false; int maxlen = mc::thorough() ? 4 : 3;
        for (int q = 0; q < nstates; ++q) for (int w = 0; w < NW && (int)W().w[w].size() <= maxlen; ++w) {
            std::vector<uint32_t> stk; bool have = true; for (char c : W().w[w]) { auto [f, i] = id[c - 'a']; have &= f; stk.push_back(i); }
            bool exp = false; for (auto& a : want) exp |= a.states.count(q) && a.lang[w];
            if (!have) { mc::require_f(!exp || newlab, [&] { return "label of the text unknown afterwards"; }); continue; }
            // a wildcard ranges over the labels known when its part of the text is read: do not judge new labels in that case
            if (newlab && W().w[w].find('c') != std::string::npos) { bool g = false; for (size_t x = 0; x + 1 <= want.size(); ++x) g |= want[x].general; if (g) continue; }
            mc::count("states"); nt |= exp;
            size_t sid = ids[q];
            if (got->accepts(sid, stk) != exp) mc::fail("configuration <state " + std::to_string(q) + ", " + W().w[w] + "> " + (exp ? "rejected" : "accepted"));
        }
        if (nt) mc::count("nontrivial");
    };
    auto fill = [&](auto& pda) { for (char c : labels) pda.insert_label(std::string(1, c)); };
    if (k == NAMED) { PDA<std::string, Wt, fut::type::vector, std::string> pda; fill(pda); for (auto& n : NAMES) ids.push_back(pda.insert_state(n)); judge(pda, NAMES.size()); }
    else if (k == INDEX) { PDA<std::string, Wt> pda; fill(pda); for (size_t i = 0; i < 11; ++i) ids.push_back(pda.insert_state(i)); judge(pda, 11); }
    else { PDA<std::string, Wt, fut::type::vector, size_t, false> pda; fill(pda); for (auto n : NUM) ids.push_back(pda.insert_state(n)); judge(pda, NUM.size()); }
}

static const char* KIND[] = {"states named by strings", "states by index", "states named by numbers"};
static void config(Kind k, const std::string& t, const std::string& labels, bool file = false, int wt = 0) {
    mc::run_case([&] { return std::string("configuration set, ") + KIND[k] + ", labels added in the order " + labels + (wt ? ", weighted" : "") + (file ? ", from a file" : "") + ", " + show(t); }, [&] {
        bool newlab = labels.size() < 3;
        if (wt == 1) config_text<weight<uint32_t>, TraceInfoType::Single>(k, t, labels, file, newlab); else if (wt == 2) config_text<weight<void>, TraceInfoType::Pair>(k, t, labels, file, newlab); else config_text<weight<void>, TraceInfoType::Single>(k, t, labels, file, newlab);
    });
}
// regular expressions as token sequences printed with all combinations of space styles
static std::string join(const std::vector<std::string>& v, int style) { // style 0 nothing, 1 blanks, 2 newline/comment
    std::string r; for (size_t i = 0; i < v.size(); ++i) { if (i || style == 2) r += style == 0 ? "" : style == 1 ? " " : style == 2 ? "\n# x > | ] comment\n\t" : "\r\n\f\v"; r += v[i]; } if (style == 2) r += " # end"; return r; }
// ---- long texts: expressions with dozens to hundreds of operators, labels and letters, long label names, long white space and comments
static std::string labname(int i, int style) { return style == 0 ? "l" + std::to_string(i) : style == 1 ? std::to_string(i) : style == 2 ? "_" + std::string(i % 70, 'x') + std::to_string(i) : std::string(1 + i / 26, 'A' + i % 26); }
static void bigtext(const rx::Case& c, int style, const std::string& sep) {
    mc::run_case([&] { return "expression " + c.name + ", label style " + std::to_string(style) + ", separator " + show(sep).substr(0, 40); }, [&] {
        std::string t; rx::text(c.e.get(), [&](int i) { return labname(i, style); }, sep, 0, t); std::map<std::string, size_t> id; for (int i = 0; i < c.A; ++i) id[labname(i, style)] = i;
        mc::count("impl_runs"); mc::count("nontrivial"); std::optional<NFA<size_t>> n; try { n = NfaParser::parse_string(t, [&](const std::string& l) -> size_t { auto it = id.find(l); if (it == id.end()) mc::fail("the parser asks for a label '" + l + "' that the text does not contain"); return it->second; }); } catch (const std::exception& e) { mc::fail(std::string("a valid expression is rejected: ") + e.what()); }
        n->compile(); mc::require(n->empty_accept() == rx::match(c.e, {}), "empty word");
        for (auto& w : rx::words(c.e, c.A, 150)) { mc::count("states"); bool want = rx::match(c.e, w); mc::require_f(rx::accepts<size_t>(*n, w, [](int i) { return (size_t)i; }) == want, [&] { return "word " + rx::show(w) + (want ? " rejected" : " accepted"); }); }
        // cutting the text anywhere inside a bracket must not be accepted
        for (size_t i = 0, st = 1 + t.size() / 60; i < t.size(); i += st) { std::string u = t.substr(0, i); long d = 0; for (char ch : u) d += ch == '[' || ch == '(' ? 1 : ch == ']' || ch == ')' ? -1 : 0; if (d <= 0 || u.find('#') != std::string::npos) continue; mc::count("rejected_cuts"); bool ok = true; try { (void)NfaParser::parse_string(u, [](const std::string&) { return (size_t)0; }); } catch (const std::exception&) { ok = false; } mc::require(!ok, "a text cut inside a bracket is accepted"); }
    });
}
// a configuration set of k parts over n control states and L labels
static void bigconf(int k, int n, int L, int style, const std::string& sep) {
    mc::run_case([&] { return "set of " + std::to_string(k) + " parts over " + std::to_string(n) + " states and " + std::to_string(L) + " labels, style " + std::to_string(style) + ", separator " + show(sep).substr(0, 40); }, [&] {
        auto stname = [&](int i) { return style == 0 ? "p" + std::to_string(i) : style == 1 ? std::to_string(i) : "\"p " + std::to_string(i) + "\\\"\""; }; auto raw = [&](int i) { return style == 2 ? "p " + std::to_string(i) + "\"" : stname(i); };
        PDA<std::string, weight<void>, fut::type::vector, std::string> pda; for (int l = 0; l < L; ++l) pda.insert_label(labname(l, 0)); std::vector<size_t> ids; for (int i = 0; i < n; ++i) ids.push_back(pda.insert_state(raw(i)));
        struct Part { std::set<int> st; rx::P e; }; std::vector<Part> parts; std::string t = sep;
        for (int i = 0; i < k; ++i) { Part p; for (int j = 0; j <= i % 5; ++j) p.st.insert((i * 7 + j * j) % n); p.e = i % 4 == 0 ? rx::sym(i % L) : i % 4 == 1 ? rx::star(rx::sym(i % L)) + rx::sym((i + 1) % L) : i % 4 == 2 ? rx::set({i % L}, true) + rx::opt(rx::set({0, i % L})) : rx::sym(i % L) + (rx::sym(0) | rx::dot());
            if (i) t += sep + "|" + sep; t += "<" + sep; if (p.st.size() == 1 && i % 2) t += stname(*p.st.begin()); else { t += "["; bool f = true; for (int q : p.st) { if (!f) t += sep + "," + sep; f = false; t += stname(q); } t += "]"; } t += sep + "," + sep; rx::text(p.e.get(), [](int l) { return labname(l, 0); }, sep, 0, t); t += sep + ">"; parts.push_back(p); }
        t += sep; mc::count("impl_runs"); mc::count("nontrivial"); using A = decltype(parsing::PAutomatonParser::parse_string<TraceInfoType::Single>(t, pda)); std::optional<A> got; try { got.emplace(parsing::PAutomatonParser::parse_string<TraceInfoType::Single>(t, pda)); } catch (const std::exception& e) { mc::fail(std::string("a valid text is rejected: ") + e.what()); }
        std::set<rx::Word> ws{{}}; for (int l = 0; l < L; l += L > 16 ? L / 8 : 1) { ws.insert({l}); ws.insert({l, (l + 1) % L}); ws.insert({l, 0}); ws.insert({l, l, (l + 1) % L}); } for (int i = 0; i < k; i += 1 + k / 12) { ws.insert({i % L}); ws.insert({i % L, i % L}); ws.insert({i % L, i % L, (i + 1) % L}); ws.insert({(i + 1) % L}); ws.insert({(i + 1) % L, i % L}); }
        for (int q = 0; q < n; q += n > 24 ? n / 16 : 1) for (auto& w : ws) { bool want = false; for (auto& p : parts) want = want || (p.st.count(q) && rx::match(p.e, w)); std::vector<uint32_t> st; for (int l : w) st.push_back(pda.exists_label(labname(l, 0)).second); mc::count("states"); mc::require_f(got->accepts(ids[q], st) == want, [&] { return "configuration <" + raw(q) + "," + rx::show(w) + "> " + (want ? "rejected" : "accepted"); }); }
    });
}
int main(int argc, char** argv) {
    mc::Check c; c.property = "C08";
    c.rule = "every text over the given alphabets up to the given length is given to the real parser; acceptance/rejection and the denoted language (all words up to length 3, 4 in the thorough tier) or configuration set (all states, all such stacks) are compared with an independent reading of the notation; non-trivial = more than one word, or a non-empty configuration set";
    c.assumptions = {"the notation is the one documented by the grammar (labels [A-Za-z0-9_]+, '#' comments to the end of the line, postfix operators directly behind their operand)", "a label that the system did not know is added to it; a wildcard or complement in a text that also introduces new labels is only judged on stacks of the known labels"};
    c.bounds_quick = "regular expressions: all character strings of length <=5 over 16 characters, all sequences of <=6 of 12 tokens, all label-set strings of length <=6 over 9 characters; configuration sets: all control-state parts of length <=5 over 11 characters, and all texts of 1-3 parts from lists of control-state and stack notations in 4 layouts; 25 families of expressions with up to 130 operators, labels or letters, and sets of up to 90 parts over up to 300 states and 80 labels, in several layouts";
    c.bounds_thorough = "character strings <=6, token sequences <=7, label-set strings <=7, control-state parts <=6; words of length <=4";
    c.suites = {
        {"characters", [] { strings(chars("a.()[]^,*+?| #\n_"), 0, mc::thorough() ? 6 : 5, [](const std::string& t) { regex_text(t); }); }},
        {"tokens", [] { strings({"[a]", "[b]", "[^a]", ".", "(", ")", "*", "+", "?", "|", " ", "#(\n"}, 0, mc::thorough() ? 7 : 6, [](const std::string& t) { regex_text(t); }); }},
        {"labelset", [] { strings(chars("ab, ^[]1-"), 0, mc::thorough() ? 7 : 6, [](const std::string& t) { regex_text("[" + t); }); }},
        {"bracketed", [] { strings({"[a]", "(", ")", "*", "|", "([b]", "[c])"}, 0, mc::thorough() ? 8 : 7, [](const std::string& t) { regex_text(t); }); }},
        {"layout", [] { // every expression of <=2 (3) operators over four atoms, minimal and full brackets, four layouts; as text and as file
            std::vector<Atom> at = {{"[a]", "a", false, 0}, {"[b,a]", "ab", false, 0}, {"[^b]", "b", true, 0}, {".", "", true, 0}}; Space s(at, mc::thorough() ? 3 : 2);
            for (size_t i = 0; i < s.t.size(); ++i) for (int st = 0; st < 4; ++st) {
                std::vector<std::string> v; std::function<void(int, int)> emit = [&](int x, int prec) { auto& t = s.t[x]; // prec 0 alternatives, 1 sequence, 2 operand
                    if (t.op == ATOM) { v.push_back(s.atoms[t.a].name); return; }
                    if (t.op == CAT || t.op == OR) { int p = t.op == OR ? 0 : 1; bool br = prec > p; if (br) v.push_back("("); emit(t.a, p); if (p == 0) v.push_back("|"); emit(t.b, p); if (br) v.push_back(")"); return; }
                    size_t b = v.size(); (void)b; auto& in = s.t[t.a]; bool br = in.op != ATOM; if (br) v.push_back("("); emit(t.a, 0); if (br) v.push_back(")"); v.back() += t.op == QUES ? "?" : t.op == PLUS ? "+" : "*"; };
                emit(i, 0); std::string t = join(v, st);
                mc::run_case([&] { return "reference reading of " + show(t); }, [&] { Lang l; try { l = Reader(t, cls).file(); } catch (const Reject&) { mc::fail("harness: text not readable"); } mc::require(l == s.lang[i], "harness: the reference reading differs from the expression"); });
                regex_text(t); if (s.t[i].size <= 1) regex_text(t, scratch());
            } }},
        {"states", [] { for (Kind k : {NAMED, INDEX, MAPPED}) strings(chars("s01[], \"\\#\n"), 0, mc::thorough() ? 6 : k == NAMED ? 5 : 4, [&](const std::string& t) { config(k, "<" + t + ",[a]>", "abc"); }); }},
        {"quoted", [] { strings({"s", "0", "\"", "\\", "\\\"", "\\\\", " ", ",", "é", "\t", "[", "_"}, 0, mc::thorough() ? 5 : 4, [&](const std::string& t) { config(NAMED, "<\"" + t + "\",[a]>", "abc"); }); for (Kind k : {INDEX, MAPPED}) strings({"0", "1", "7", "s", "-", "+", " ", "4000000000", "."}, 0, 3, [&](const std::string& t) { config(k, "<\"" + t + "\",[a]>", "abc"); config(k, "<" + t + ",[a]>", "abc"); }); }},
        {"frames", [] { strings({"<", "0", "[0,10]", ",", "[a]", "[^a]", "*", ">", "|", " "}, 0, mc::thorough() ? 7 : 6, [&](const std::string& t) { config(INDEX, t, "abc"); }); }},
        {"bigtext", [] { rx::families(mc::thorough() ? rx::sizes(true) : std::vector<int>{2, 5, 9, 12, 17, 33, 40, 66, 130}, [](const rx::Case& c) { bigtext(c, c.n % 4, c.n % 3 ? "" : " \n"); if (c.n <= 12) for (int st = 0; st < 4; ++st) for (std::string sep : {std::string(" "), std::string("\t\r\n") + std::string(70, ' '), std::string("#") + std::string(300, '[') + "\n", std::string("# a|]\n  #\n")}) if (mc::thorough() || (st + c.n + sep.size()) % 3 == 0) bigtext(c, st, sep); }); }},
        {"bigconf", [] { for (int k : {1, 2, 5, 17, 40, 90}) for (int n : {1, 7, 70, 300}) for (int L : {2, 5, 80}) for (int st = 0; st < 3; ++st) for (std::string sep : {"", " ", "\n#>\n"}) bigconf(k, n, L, st, sep); }},
        {"texts", [] {
            std::map<Kind, std::vector<std::vector<std::string>>> inits = {
                {NAMED, {{"s"}, {"0"}, {"\"s0\""}, {"[s]"}, {"[s", ",", "0]"}, {"[\"é\"", ",", "_", ",", "\"0s\"]"}, {"[0", ",", "0", ",", "0]"}, {"nosuch"}, {"\"nosuch\""}, {"[s", ",", "nosuch]"}, {"[s", ",", "\"nosuch\"]"}, {"\"\""}, {"\"\\\"\""}}},
                {INDEX, {{"0"}, {"10"}, {"[3", ",", "1", ",", "2]"}, {"[0]"}, {"11"}, {"[0", ",", "11]"}, {"s"}, {"\"4\""}, {"007"}, {"99999999999999999999999"}, {"4294967296"}, {"4294967297"}, {"[0", ",", "4294967297]"}, {"18446744073709551616"}, {"18446744073709551617"}, {"[\"4294967306\"]"}, {"9223372036854775808"}}},
                {MAPPED, {{"7"}, {"0"}, {"[10", ",", "7]"}, {"4000000000"}, {"1"}, {"[0", ",", "1]"}, {"\"7\""}, {"4294967303"}, {"[7", ",", "4294967296]"}, {"18446744073709551623"}}}};
            std::vector<std::vector<std::string>> rx = {{}, {"[a]"}, {"[a]*"}, {"."}, {".*"}, {"[^a]", "[c]?"}, {"[a,b]", "|", "[c]", "[c]"}, {"(", "[a]", "|", ".", ")+"}, {"[b", ",", "c]"}, {"[^a", ",", "b", ",", "c]"}, {"[a"}, {"[a]", "|"}, {"*"}};
            auto part = [&](const std::vector<std::string>& in, const std::vector<std::string>& r) { std::vector<std::string> v = {"<"}; v.insert(v.end(), in.begin(), in.end()); v.push_back(","); v.insert(v.end(), r.begin(), r.end()); v.push_back(">"); return v; };
            for (auto& [k, is] : inits) {
                std::vector<std::vector<std::string>> parts; for (auto& i : is) for (auto& r : rx) parts.push_back(part(i, r));
                for (auto& p : parts) for (int st = 0; st < 4; ++st) for (const char* lb : {"abc", "cab", "ba", ""}) { config(k, join(p, st), lb); if (st == 0) for (int w = 1; w < 3; ++w) config(k, join(p, st), lb, w == 1, w); if (lb[0] == 'a') for (const char* junk : {"x", ">", "|", ",", "<", "#", " ", "0"}) { config(k, join(p, st) + junk, lb); config(k, junk + join(p, st), lb); } }
                for (auto& p : parts) for (auto& q : parts) { auto v = p; v.push_back("|"); v.insert(v.end(), q.begin(), q.end()); config(k, join(v, (int)(v.size() % 4)), "bca"); if (mc::thorough()) { config(k, join(v, 2), "ab"); config(k, join(v, 0), "abc", true, 1); } }
                // triples from a short list
                std::vector<std::vector<std::string>> sh; for (size_t i = 0; i < 3; ++i) for (size_t r : {0, 2, 5, 6}) sh.push_back(part(is[i], rx[r]));
                for (auto& p : sh) for (auto& q : sh) for (auto& r : sh) { auto v = p; v.push_back("|"); v.insert(v.end(), q.begin(), q.end()); v.push_back("|"); v.insert(v.end(), r.begin(), r.end()); config(k, join(v, 1), "cb"); config(k, join(v, 0), "acb", false, 1); }
            } }},
    };
    return mc::main_(argc, argv, c);
}
