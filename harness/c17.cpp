// C17: malformed problem instances are rejected, well-formed ones accepted whatever the key order. Every single (and, for the small
// templates, every double) structural mutation of the template documents goes through the real readers; the verdict and, when the
// document is well-formed, the result are compared with an independent reading of the format (jref.h).
#include "jobs.h"
#include "jread.h"
#include "jdoc.h"
#include <pdaaal/utils/flags.h>
using namespace jref;
namespace {
struct Kind { enum { INST, PDA, AUT } k; int wk = 0; bool named = false; J ctx; }; // ctx: the PDA document an automaton refers to
struct Tpl { std::string name; Kind kind; J doc; };
J S(const char* s) { return J::str(s); } J N(uint64_t n) { return J::num(n); }
J rule(J to, const char* op, const char* l, std::optional<J> w = {}) { auto r = J::obj({{"to", to}, {op, S(l)}}); if (w) { r.k.push_back("weight"); r.a.push_back(*w); } return r; }
std::vector<Tpl> templates() {
    std::vector<Tpl> t;
    auto typ = [](bool n, J w) { return J::obj({{"state-names", J::boolean(n)}, {"weight-type", w}}); };
    auto inst = [](J a, J b, J c, J d) { return J::obj({{"instance", J::arr({a, b, c, d})}}); };
    // small ones first (used for double mutations)
    t.push_back({"small-indexed", {Kind::INST}, inst(typ(false, S("none")), J::obj({{"states", J::arr({J::obj({{"A", rule(N(0), "pop", "")}})})}}), J::obj({{"accepting", J::arr({N(1)})}, {"edges", J::arr({J::arr({N(0), S("A"), N(1)})})}}), J::obj({{"accepting", J::arr()}, {"edges", J::arr()}}))});
    t.push_back({"small-named", {Kind::INST}, inst(typ(true, S("uint")), J::obj({{"states", J::obj({{"p", J::obj({{"A", J::arr({rule(S("p"), "swap", "A", N(1))})}})}})}}), J::obj({{"accepting", J::arr({S("p")})}, {"edges", J::arr()}}), J::obj({{"accepting", J::arr({S("q")})}, {"edges", J::arr({J::arr({S("p"), S("A"), S("q")})})}}))});
    t.push_back({"vec-indexed", {Kind::INST}, inst(typ(false, J::arr({S("int")})), J::obj({{"states", J::arr({J::obj({{"*", rule(N(0), "swap", "*", J::arr({N(1), J::neg(-2)}))}})})}}), J::obj({{"accepting", J::arr({N(0)})}, {"edges", J::arr()}}), J::obj({{"accepting", J::arr()}, {"edges", J::arr()}}))});
    // README-like
    t.push_back({"readme-named", {Kind::INST}, inst(typ(true, S("uint")),
        J::obj({{"states", J::obj({{"p0", J::obj({{"A", rule(S("p1"), "pop", "", N(1))}, {"B", rule(S("p0"), "push", "A", N(0))}})}, {"p1", J::obj({{"A", J::arr({rule(S("p0"), "swap", "A", N(2)), rule(S("p2"), "push", "B", N(1))})}})}, {"p2", J::obj({{"B", rule(S("p2"), "pop", "", N(3))}})}})}}),
        J::obj({{"accepting", J::arr({N(3)})}, {"edges", J::arr({J::arr({S("p0"), S("A"), N(3)}), J::arr({S("p0"), S("B"), N(4)}), J::arr({N(4), S("A"), N(3)}), J::arr({S("p1"), S("A"), N(3)})})}}),
        J::obj({{"accepting", J::arr({S("p2"), N(3)})}, {"edges", J::arr({J::arr({S("p2"), S("A"), N(3)})})}}))});
    t.push_back({"indexed-int", {Kind::INST}, inst(typ(false, S("int")),
        J::obj({{"states", J::arr({J::obj({{"A", rule(N(1), "pop", "", J::neg(-1))}, {"*", rule(N(0), "swap", "B", N(0))}}), J::obj({{"A", J::arr({rule(N(0), "swap", "A", N(2)), rule(N(2), "push", "B", J::neg(-3))})}}), J::obj()})}}),
        J::obj({{"accepting", J::arr({N(3)})}, {"edges", J::arr({J::arr({N(2), S("A"), N(3)}), J::arr({N(0), S(""), N(4)}), J::arr({N(4), S("B"), N(3)})})}, {"initial", J::arr({N(0), N(2)})}}),
        J::obj({{"edges", J::arr({J::arr({N(2), S("A"), N(9)})})}, {"accepting", J::arr({N(2), N(9)})}}))});
    t.push_back({"vec-named", {Kind::INST}, inst(typ(true, J::arr({S("uint"), N(2)})),
        J::obj({{"states", J::obj({{"p", J::obj({{"A", rule(S("q"), "push", "B", J::arr({N(1), N(2)}))}, {"B", rule(S("p"), "pop", "", J::arr())}})}})}}),
        J::obj({{"accepting", J::arr({S("x"), N(7)})}, {"edges", J::arr({J::arr({S("p"), S("A"), S("x")}), J::arr({S("x"), S("B"), N(7)})})}}), J::obj({{"accepting", J::arr({S("q")})}, {"edges", J::arr()}}))});
    // separate documents
    J pi = J::obj({{"pda", J::obj({{"states", J::arr({J::obj({{"A", rule(N(1), "pop", "")}, {"B", rule(N(0), "push", "A")}}), J::obj({{"A", J::arr({rule(N(0), "swap", "A"), rule(N(2), "push", "B")})}}), J::obj({{"*", rule(N(2), "swap", "*")}})})}})}});
    J pn = J::obj({{"pda", J::obj({{"states", J::obj({{"p0", J::obj({{"A", rule(S("p1"), "pop", "")}, {"B", rule(S("p0"), "push", "A")}})}, {"p1", J::obj({{"A", J::arr({rule(S("p0"), "swap", "A"), rule(S("p2"), "push", "B")})}})}})}})}});
    t.push_back({"pda-indexed", {Kind::PDA, 0, false}, pi}); t.push_back({"pda-named", {Kind::PDA, 0, true}, pn});
    t.push_back({"pda-uint", {Kind::PDA, 1, false}, J::obj({{"pda", J::obj({{"states", J::arr({J::obj({{"A", rule(N(1), "pop", "", N(5))}}), J::obj()})}})}})});
    t.push_back({"pda-int", {Kind::PDA, 2, true}, J::obj({{"pda", J::obj({{"states", J::obj({{"p", J::obj({{"*", rule(S("p"), "pop", "", J::neg(-5))}})}})}})}})});
    t.push_back({"pda-vec", {Kind::PDA, 4, false}, J::obj({{"pda", J::obj({{"states", J::arr({J::obj({{"A", rule(N(0), "pop", "", J::arr({N(5), J::neg(-5)}))}})})}})}})});
    t.push_back({"pda-extra", {Kind::PDA, 0, false}, J::obj({{"info", J::obj({{"a", J::arr({N(1), J::arr({S("x"), J::null()}), J::obj({{"b", J::boolean(true)}, {"c", J::arr()}})})}, {"pda", J::neg(-1)}})}, {"pda", J::obj({{"n", J::flt("1.5")}, {"states", J::arr({J::obj({{"A", rule(N(0), "pop", "")}})})}, {"m", J::arr({S("a"), S("b")})}})}, {"z", J::obj()}})});
    t.push_back({"aut-indexed", {Kind::AUT, 0, false, pi}, J::obj({{"P-automaton", J::obj({{"accepting", J::arr({N(3), N(0)})}, {"initial", J::arr({N(0), N(1), N(2)})}, {"edges", J::arr({J::arr({N(0), S("A"), N(3)}), J::arr({N(3), S(""), N(4)}), J::arr({N(4), S("C"), N(1)})})}})}})});
    t.push_back({"aut-named", {Kind::AUT, 0, true, pn}, J::obj({{"P-automaton", J::obj({{"edges", J::arr({J::arr({S("p0"), S("A"), N(3)}), J::arr({N(3), S("B"), S("p1")}), J::arr({S("p2"), S("B"), N(4)})})}, {"initial", J::arr({S("p0"), S("p1")})}, {"accepting", J::arr({N(3), S("p0"), N(4)})}})}})});
    t.push_back({"aut-mixed", {Kind::AUT, 0, true, pn}, J::obj({{"P-automaton", J::obj({{"edges", J::arr({J::arr({S("p0"), S("A"), N(3)}), J::arr({N(3), S("B"), S("x")}), J::arr({S("x"), S("B"), S("y")}), J::arr({S("y"), S("A"), N(5)})})}, {"initial", J::arr()}, {"accepting", J::arr({S("y"), N(5)})}})}})});
    return t;
}
void judge(const Kind& k, const J& doc, int form) { // form: 0 text, 1 msgpack (only for documents without duplicate keys), 2 text with Pair trace information
    std::string bytes = text(doc); if (form == 1) bytes = jread::msgpack(bytes);
    V v; jread::Res r; mc::count("states");
    if (k.k == Kind::INST) {
        Inst want, got; v = read_inst_doc(doc, want); r = jread::inst(bytes, form == 1, form == 2, got);
        if (v == OK) { if (!r.ok) mc::fail("a well-formed document is rejected: " + r.err); mc::count("nontrivial"); jobs::same_pda(want.pda, got.pda, true); std::set<std::string> sg; jobs::same_aut(want.ini, got.ini, want.pda.states, sg, "initial"); jobs::same_aut(want.fin, got.fin, want.pda.states, sg, "final"); return; }
    } else if (k.k == Kind::PDA) {
        Pda want, got; want.wk = k.wk; want.named = k.named; v = read_pda_doc(doc, want); r = jread::pda(bytes, form == 1, k.wk, k.named, got);
        if (v == OK) { if (!r.ok) mc::fail("a well-formed document is rejected: " + r.err); mc::count("nontrivial"); jobs::same_pda(want, got, true); return; }
    } else {
        Pda p, gp; p.named = k.named; p.wk = k.wk; read_pda_doc(k.ctx, p); Aut want, got; v = read_aut_doc(doc, p, want); r = jread::aut(text(k.ctx), bytes, form == 1, k.wk, k.named, form == 2, gp, got);
        if (v == OK) { if (!r.ok) mc::fail("a well-formed document is rejected: " + r.err); mc::count("nontrivial"); std::set<std::string> sg; jobs::same_aut(want, got, p.states, sg, "read"); return; }
    }
    if (v == BAD) { if (r.ok) mc::fail("a malformed document is accepted"); if (r.err.empty()) mc::fail("a malformed document is rejected without an error text"); }
}
// ---- mutations: visit(doc, what) for every single mutation of doc
using Visit = std::function<void(const J&, const std::string&)>;
const std::vector<J>& values() { static std::vector<J> v{J::null(), J::boolean(true), J::boolean(false), N(0), N(1), N(2), N(7), J::neg(-1), J::flt("1.5"), S(""), S("x"), S("A"), S("*"), S("none"), S("uint"), S("int"), S("p"), J::arr(), J::obj()}; return v; }
const std::vector<J>& numbers() { static std::vector<J> v{N(2147483646), N(2147483647), N(2147483648), N(4294967294), N(4294967295), N(4294967296), N(9223372036854775808ull), N(18446744073709551615ull), J::neg(-2147483647), J::neg(-2147483648ll), J::neg(-2147483649ll), J::neg(INT64_MIN), J::flt("1e3"), J::flt("-0.0"), J::flt("18446744073709551616")}; return v; }
const std::vector<J>& extras() { static std::vector<J> v{J::null(), J::boolean(true), N(1), J::neg(-1), J::flt("1.5"), S("s"), J::arr(), J::obj(), J::arr({N(1), N(2)}), J::obj({{"a", J::obj({{"b", J::arr({N(1), J::obj()})}})}, {"c", J::null()}}), J::arr({S("x"), J::arr({S("y"), J::boolean(false)}), J::obj({{"k", N(3)}, {"l", S("z")}})}), J::obj({{"a", J::arr()}, {"b", J::obj()}, {"states", J::arr()}})}; return v; }
const std::vector<std::string>& names() { static std::vector<std::string> v{"zzz", "to", "pop", "swap", "push", "weight", "states", "pda", "initial", "accepting", "edges", "*", "A", "state-names", "weight-type", "instance", "P-automaton", "", "p"}; return v; }
void mutate(const J& root, J& cur, J& node, const std::string& path, const Visit& visit, bool top) { // cur: copy of root that is edited in place; node: the place
    (void)root;
    const J orig = node;
    auto put = [&](const J& x, const std::string& what) { if (x == orig) return; node = x; visit(cur, path + ": " + what); node = orig; };
    for (auto& x : values()) put(x, "replaced by " + text(x));
    if (orig.t == J::Uint || orig.t == J::Int) for (auto& x : numbers()) if (x.t != J::Uint || x.u == UINT64_MAX || path.size() < 3 || path.substr(path.size() - 3) != "/to") put(x, "replaced by " + text(x)); // (state indices in between only exhaust memory)
    put(J::arr({orig}), "wrapped in an array"); put(J::obj({{"k", orig}}), "wrapped in an object");
    if (orig.t == J::Obj) { J x = orig; x.t = J::Arr; x.k.clear(); put(x, "made an array"); }
    if (orig.t == J::Arr) { J x = orig; x.t = J::Obj; x.k.clear(); for (size_t n = 0; n < x.a.size(); ++n) x.k.push_back("k" + std::to_string(n)); put(x, "made an object"); if (!orig.a.empty()) put(orig.a[0], "replaced by its first element"); }
    if (orig.t == J::Obj) {
        for (size_t n = 0; n < orig.a.size(); ++n) {
            J x = orig; x.a.erase(x.a.begin() + n); x.k.erase(x.k.begin() + n); put(x, "key " + orig.k[n] + " deleted");
            x = orig; x.a.push_back(orig.a[n]); x.k.push_back(orig.k[n]); put(x, "key " + orig.k[n] + " repeated");
            for (auto& nm : names()) { x = orig; x.k[n] = nm; put(x, "key " + orig.k[n] + " renamed " + nm); }
        }
        for (auto& nm : names()) { J x = orig; x.k.push_back(nm); x.a.push_back(orig.a.empty() ? J::obj() : orig.a[0]); put(x, "key " + nm + " added"); }
        for (auto& e : extras()) { J x = orig; x.k.push_back("zzz"); x.a.push_back(e); put(x, "zzz:" + text(e) + " appended"); x = orig; x.k.insert(x.k.begin(), "zzz"); x.a.insert(x.a.begin(), e); put(x, "zzz:" + text(e) + " prepended"); }
        for (size_t n = 1; n < orig.a.size(); ++n) { J x = orig; std::rotate(x.a.begin(), x.a.begin() + n, x.a.end()); std::rotate(x.k.begin(), x.k.begin() + n, x.k.end()); put(x, "keys rotated"); }
    }
    if (orig.t == J::Arr) {
        for (size_t n = 0; n < orig.a.size(); ++n) { J x = orig; x.a.erase(x.a.begin() + n); put(x, "element deleted"); x = orig; x.a.insert(x.a.begin() + n, orig.a[n]); put(x, "element repeated"); if (n) { x = orig; std::swap(x.a[n - 1], x.a[n]); put(x, "elements swapped"); } }
        for (auto& e : extras()) { J x = orig; x.a.push_back(e); put(x, text(e) + " appended"); x = orig; x.a.insert(x.a.begin(), e); put(x, text(e) + " prepended"); }
    }
    for (size_t n = 0; n < orig.a.size(); ++n) mutate(root, cur, node.a[n], path + (orig.t == J::Obj ? "/" + orig.k[n] : "/" + std::to_string(n)), visit, false);
}
void each(const J& doc, const Visit& v) { J cur = doc; mutate(doc, cur, cur, "", v, true); }
bool has_dup(const J& j) { if (j.t == J::Obj) { std::set<std::string> s(j.k.begin(), j.k.end()); if (s.size() != j.k.size()) return true; } for (auto& x : j.a) if (has_dup(x)) return true; return false; }

void singles() { for (auto& t : templates()) {
    mc::run_case([&] { return t.name + " unchanged\n" + text(t.doc); }, [&] { judge(t.kind, t.doc, 0); judge(t.kind, t.doc, 1); judge(t.kind, t.doc, 2); });
    each(t.doc, [&](const J& d, const std::string& what) { mc::run_case([&] { return t.name + " " + what + "\n" + text(d); }, [&] { judge(t.kind, d, 0); judge(t.kind, d, 2); if (!has_dup(d) && text(d).find("18446744073709551616") == std::string::npos) judge(t.kind, d, 1); }); });
} }
void doubles() { auto ts = templates(); for (auto& t : ts) { bool in = mc::thorough() || t.name == "small-indexed" || t.name == "small-named" || t.name == "vec-indexed" || t.name == "pda-int" || t.name == "pda-vec"; if (!in) continue;
    size_t full = text(t.doc).size();
    each(t.doc, [&](const J& d1, const std::string& w1) {
        J c1 = d1; if (text(c1).size() > 2 * full + 40) return;
        each(c1, [&](const J& d, const std::string& w2) { mc::run_case([&] { return t.name + " " + w1 + " and " + w2 + "\n" + text(d); }, [&] { judge(t.kind, d, 0); }); });
    });
} }
// permutations of the keys of every object, all combinations within one object, one object at a time plus all reversed
void orders() { for (auto& t : templates()) {
    std::function<void(J&, J&)> rec = [&](J& root, J& n) {
        if (n.t == J::Obj && n.a.size() > 1) { J o = n; std::vector<size_t> p(n.a.size()); for (size_t i = 0; i < p.size(); ++i) p[i] = i;
            do { J x = o; for (size_t i = 0; i < p.size(); ++i) { x.k[i] = o.k[p[i]]; x.a[i] = o.a[p[i]]; } n = x; mc::run_case([&] { return t.name + " permuted\n" + text(root); }, [&] { judge(t.kind, root, 0); judge(t.kind, root, 2); }); } while (std::next_permutation(p.begin(), p.end()));
            n = o; }
        for (auto& c : n.a) rec(root, c);
    };
    J c = t.doc; rec(c, c);
    std::function<void(J&)> rev = [&](J& n) { if (n.t == J::Obj) { std::reverse(n.k.begin(), n.k.end()); std::reverse(n.a.begin(), n.a.end()); } for (auto& x : n.a) rev(x); };
    c = t.doc; rev(c); mc::run_case([&] { return t.name + " all keys reversed\n" + text(c); }, [&] { judge(t.kind, c, 0); });
    rec(c, c);
} }
// text level: every truncation, every single character deleted / replaced by a structural character: never accepted with another meaning than a strict JSON reader gives it
J from_dom(const nlohmann::ordered_json& d) {
    if (d.is_null()) return J::null(); if (d.is_boolean()) return J::boolean(d.get<bool>()); if (d.is_number_unsigned()) return N(d.get<uint64_t>()); if (d.is_number_integer()) return J::neg(d.get<int64_t>()); if (d.is_number_float()) return J::flt(d.dump()); if (d.is_string()) return S(d.get<std::string>().c_str());
    if (d.is_array()) { J a = J::arr(); for (auto& x : d) a.a.push_back(from_dom(x)); return a; }
    J o = J::obj(); for (auto& [k, x] : d.items()) { o.k.push_back(k); o.a.push_back(from_dom(x)); } return o;
}
struct DupCheck : nlohmann::json_sax<nlohmann::ordered_json> { // own duplicate-key detection (a DOM loses duplicates)
    std::vector<std::set<std::string>> st; bool dup = false;
    bool null() override { return true; } bool boolean(bool) override { return true; } bool number_integer(number_integer_t) override { return true; } bool number_unsigned(number_unsigned_t) override { return true; } bool number_float(number_float_t, const string_t&) override { return true; } bool string(string_t&) override { return true; } bool binary(binary_t&) override { return true; }
    bool start_object(std::size_t) override { st.emplace_back(); return true; } bool key(string_t& k) override { if (!st.back().insert(k).second) dup = true; return true; } bool end_object() override { st.pop_back(); return true; } bool start_array(std::size_t) override { return true; } bool end_array() override { return true; } bool parse_error(std::size_t, const std::string&, const nlohmann::detail::exception&) override { return false; }
};
void judge_text(const Kind& k, const std::string& s) {
    auto dom = nlohmann::ordered_json::parse(s, nullptr, false);
    if (!dom.is_discarded()) { DupCheck dc; nlohmann::ordered_json::sax_parse(s, &dc); if (!dc.dup) { judge(k, from_dom(dom), 0); } return; }
    jread::Res r; Inst i; Pda p; Aut a; mc::count("states");
    if (k.k == Kind::INST) r = jread::inst(s, false, false, i); else if (k.k == Kind::PDA) r = jread::pda(s, false, k.wk, k.named, p); else r = jread::aut(text(k.ctx), s, false, k.wk, k.named, false, p, a);
    if (r.ok) mc::fail("text that is not JSON is accepted"); if (r.err.empty()) mc::fail("rejected without an error text");
}
void texts() { for (auto& t : templates()) { std::string s = text(t.doc);
    for (size_t n = 0; n < s.size(); ++n) {
        mc::run_case([&] { return t.name + " truncated\n" + s.substr(0, n); }, [&] { judge_text(t.kind, s.substr(0, n)); });
        std::string x = s; x.erase(n, 1); mc::run_case([&] { return t.name + " one character deleted\n" + x; }, [&] { judge_text(t.kind, x); });
        for (char c : std::string("{}[],:\"0-eA \\")) { x = s; x[n] = c; mc::run_case([&] { return t.name + " one character replaced\n" + x; }, [&] { judge_text(t.kind, x); }); x = s; x.insert(n, 1, c); mc::run_case([&] { return t.name + " one character inserted\n" + x; }, [&] { judge_text(t.kind, x); }); }
    }
    for (const char* tail : {"}", "]", "x", "{}", ",", " 1", "null"}) { std::string x = s + tail; mc::run_case([&] { return t.name + " trailing text\n" + x; }, [&] { judge_text(t.kind, x); }); }
    std::string mp = jread::msgpack(s);
    for (size_t n = 0; n < mp.size(); ++n) mc::run_case([&] { return t.name + " msgpack truncated at " + std::to_string(n); }, [&] { jread::Res r; Inst i; Pda p; Aut a; auto b = mp.substr(0, n); if (t.kind.k == Kind::INST) r = jread::inst(b, true, false, i); else if (t.kind.k == Kind::PDA) r = jread::pda(b, true, t.kind.wk, t.kind.named, p); else r = jread::aut(text(t.kind.ctx), b, true, t.kind.wk, t.kind.named, false, p, a); if (r.ok) mc::fail("truncated msgpack is accepted"); });
    for (size_t n = 0; n < mp.size(); ++n) for (int b = 0; b < 256; b += mc::thorough() ? 1 : 17) { mc::run_case([&] { return t.name + " msgpack byte " + std::to_string(n) + " set to " + std::to_string(b); }, [&] { auto x = mp; x[n] = (char)b; jread::Res r; Inst i; Pda p; Aut a; if (t.kind.k == Kind::INST) r = jread::inst(x, true, false, i); else if (t.kind.k == Kind::PDA) r = jread::pda(x, true, t.kind.wk, t.kind.named, p); else r = jread::aut(text(t.kind.ctx), x, true, t.kind.wk, t.kind.named, false, p, a); (void)r; mc::count("states"); }); }
} }
// required-key flags: exhaustive over the masks
template<size_t N> void flags_n() {
    using F = pdaaal::utils::flags<N>; using M = pdaaal::utils::flag_mask<N>; using T = typename F::flag_t;
    mc::run_case([&] { return "flags<" + std::to_string(N) + ">"; }, [&] {
        auto bit = [](size_t i) { return i == 0 ? (T)0 : (T)((T)1 << (i - 1)); }; auto full = [](size_t n) { T x = 0; for (size_t i = 0; i < n; ++i) x |= (T)((T)1 << i); return x; };
        for (size_t i = 0; i <= N; ++i) { if (F::flag(i) != bit(i)) mc::fail("flag"); if (F::fill(i) != full(i)) mc::fail("fill"); }
        if (F::template fill<N>() != full(N) || F::template fill<0>() != 0 || F::template flag<N>() != bit(N) || F::template fill<(N > 1 ? N - 1 : 0)>() != full(N > 1 ? N - 1 : 0)) mc::fail("static fill/flag");
        uint64_t lim = N >= 10 ? 1024 : (1ull << N);
        auto chk = [&](T m) { mc::count("states");
            auto sp = F::split_to_single_flags(m); T u = 0; for (auto f : sp) { if (!F::is_single_flag(f) || (u & f)) mc::fail("split"); u |= f; } if (u != m) mc::fail("split misses a flag");
            if (F::is_single_flag(m) != (__builtin_popcountll(m) == 1)) mc::fail("is_single_flag");
            M k(m); if (k.has_missing_flags() != (m != 0)) mc::fail("has_missing_flags"); if (k.get_missing_flags() != sp) mc::fail("get_missing_flags");
            for (size_t i = 1; i <= N; ++i) { mc::count("transitions"); if (k.needs_flag(bit(i)) != ((m & bit(i)) != 0)) mc::fail("needs_flag"); M c = k; c.got_flag(bit(i)); if (c.get_missing_flags() != F::split_to_single_flags(m & ~bit(i))) mc::fail("got_flag"); T a = m; F::add(a, bit(i)); if (a != (T)(m | bit(i))) mc::fail("add"); a = m; F::remove(a, bit(i)); if (a != (T)(m & ~bit(i))) mc::fail("remove"); }
            if (N <= 5) for (uint64_t f = 0; f < lim; ++f) { if (F::contains(m, (T)f) != ((m & f) == f) || F::select(m, (T)f) != (T)(m & f)) mc::fail("contains"); }
        };
        for (uint64_t m = 0; m < lim; ++m) chk((T)m);
        for (size_t i = 0; i <= N; ++i) for (size_t j = 0; j <= N; ++j) { chk((T)(bit(i) | bit(j))); chk((T)(full(i) & ~full(j))); }
        mc::count("nontrivial");
    });
}
template<size_t... I> void flags_all(std::index_sequence<I...>) { (flags_n<I + 1>(), ...); }
void flags() { flags_all(std::make_index_sequence<64>{}); }
// single mutations of larger documents, ignored values of any depth and number
void large() {
    for (int f = 0; f < jdoc::LARGE; ++f) for (size_t n : {5, 12, 40, 130, 260}) for (int named = 0; named < 2; ++named) { int wk = (int)(f + n + named) % 5; if (f == 5) wk = 3 + named;
        J doc = jdoc::inst_json(jdoc::large(f, n, named, wk)); Kind k{Kind::INST}; size_t i = 0, step = mc::thorough() ? (n > 40 ? 37 : 3) : n <= 5 ? 5 : n <= 12 ? 23 : n <= 40 ? 97 : 499;
        each(doc, [&](const J& d, const std::string& what) { if (i++ % step) return; mc::run_case([&] { return std::string(jdoc::large_name(f)) + " " + std::to_string(n) + (named ? " named " : " indexed ") + what; }, [&] { judge(k, d, (int)(i / step % 2) * 2); }); });
    }
    auto nest = [](size_t n, int kind) { J x = N(1); for (size_t i = 0; i < n; ++i) x = (kind == 0 || (kind == 2 && i % 2)) ? J::arr({x}) : J::obj({{"states", x}}); return x; };
    for (auto& t : templates()) if (t.kind.k == Kind::PDA) for (int where = 0; where < 2; ++where) for (int front = 0; front < 2; ++front) {
        auto with = [&](const std::string& what, const std::vector<J>& xs) { J d = t.doc; J* o = &d; if (where) for (size_t q = 0; q < d.k.size(); ++q) if (d.k[q] == "pda") o = &d.a[q]; size_t q = 0; for (auto& x : xs) { std::string key = "ignored" + std::to_string(q++); if (front) { o->k.insert(o->k.begin(), key); o->a.insert(o->a.begin(), x); } else { o->k.push_back(key); o->a.push_back(x); } }
            mc::run_case([&] { return t.name + " with " + what + (where ? " in the system" : " at the top") + (front ? " in front" : " at the end"); }, [&] { for (int form = 0; form < 3; ++form) judge(t.kind, d, form); }); };
        for (size_t n : {1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300}) { for (int kind = 0; kind < 3; ++kind) with("a value nested " + std::to_string(n) + " deep", {nest(n, kind)});
            with(std::to_string(n) + " values", std::vector<J>(n, J::obj({{"to", N(0)}}))); with("an array of " + std::to_string(n), {J::arr(std::vector<J>(n, J::arr({S("A"), N(1)})))}); }
    }
}
}
int main(int argc, char** argv) {
    mc::Check c; c.property = "C17";
    c.rule = "a document is accepted exactly when the documented format allows it, with the meaning the format gives it, and otherwise rejected by an exception with a text; never a crash, hang or other exception";
    c.assumptions = {"repeated state names, repeated labels within a state, '*' as an ordinary label, state indices above 1000, and the length given with a vector weight type are left open (only: no crash)", "ptrie replaced by an equivalent std container", "the JSON tokenizer (nlohmann) is trusted"};
    c.bounds_quick = "15 template documents (instances, systems, automata; named/indexed; 5 weight types): every single structural mutation in text/msgpack/both trace kinds, every double mutation of 5 of them, every key order, every truncation and single-character edit; every 5th to 499th single mutation of 14 families of documents of size 5, 12, 40, 130, 260; ignored values nested up to 300 deep and up to 300 of them; all masks of flags<1..64> up to 10 bits";
    c.bounds_thorough = "double mutations of all templates, all msgpack single-byte edits";
    c.suites = {{"singles", singles}, {"orders", orders}, {"texts", texts}, {"flags", flags}, {"large", large}, {"doubles", doubles}};
    return mc::main_(argc, argv, c);
}
