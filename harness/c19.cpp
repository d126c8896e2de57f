// C19: the command line tool: one well-formed JSON document whose result, weight and trace are those of the problem; unsupported
// combinations are refused. The tool's own main is run on documents generated from the reference systems.
#include "trace_check.h"
#include "spaces.h"
#include "jref.h"
#include "jread.h"
#include "cli.h"
#include <nlohmann/json.hpp>
using namespace fam; using namespace spaces; using jref::J;
using NJ = nlohmann::json;
namespace {
struct Kind { int wk; bool named; };
bool is_vec(int wk) { return wk >= 3; }
J N(uint64_t n) { return J::num(n); } J S(const std::string& s) { return J::str(s); }
const std::vector<std::string> SN = {"p", "q", "r"};
const std::vector<std::string> LN = {"A", "B", "C"};
J state(const Kind& k, int i) { return k.named ? S(SN[i]) : N(i); }
J pda_json(const Kind& k, const Sys& s) {
    J st = k.named ? J::obj() : J::arr();
    for (int q = 0; q < s.n; ++q) {
        J o = J::obj(); std::map<std::string, std::vector<J>> by; std::vector<std::string> order;
        for (auto& r : s.rules) if (r.from == q) { J j = J::obj({{"to", state(k, r.to)}});
            switch (r.op) { case POP: j.k.push_back("pop"); j.a.push_back(S("")); break; case SWAP: j.k.push_back("swap"); j.a.push_back(S(LN[r.oplabel])); break; case PUSH: j.k.push_back("push"); j.a.push_back(S(LN[r.oplabel])); break; case NOOP: j.k.push_back("swap"); j.a.push_back(S("*")); break; }
            if (k.wk) { j.k.push_back("weight"); if (is_vec(k.wk)) { J a = J::arr(); for (auto w : r.w) a.a.push_back(J::neg(w)); j.a.push_back(a); } else j.a.push_back(J::neg(r.w.empty() ? 0 : r.w[0])); }
            std::vector<std::string> keys; if (r.wild) keys = {"*"}; else for (int l : r.pre) keys.push_back(LN[l]);
            for (auto& key : keys) { if (!by.count(key)) order.push_back(key); J x = j; if (r.op == NOOP && !r.wild) x.a[1] = S(key); by[key].push_back(x); } }
        for (auto& key : order) { o.k.push_back(key); o.a.push_back(by[key].size() == 1 ? by[key][0] : J::arr(by[key])); }
        if (k.named) { st.k.push_back(SN[q]); st.a.push_back(o); } else st.a.push_back(o);
    }
    return J::obj({{"states", st}});
}
J aut_json(const Kind& k, const Aut& a, bool initial = false) {
    auto nm = [&](int i) { return i < a.pda ? state(k, i) : N(i); };
    J acc = J::arr(), ed = J::arr(); for (int i = 0; i < a.n; ++i) if (a.acc[i]) acc.a.push_back(nm(i));
    for (auto& e : a.edges) ed.a.push_back(J::arr({nm(e.f), S(LN[e.l]), nm(e.t)}));
    J o = J::obj({{"accepting", acc}, {"edges", ed}}); if (initial) { J in = J::arr(); for (int i = 0; i < a.pda; ++i) in.a.push_back(nm(i)); o.k.push_back("initial"); o.a.push_back(in); } return o;
}
J inst_json(const Kind& k, const Sys& s, const Aut& i, const Aut& f) {
    J wt = k.wk == 0 ? S("none") : k.wk == 1 ? S("uint") : k.wk == 2 ? S("int") : k.wk == 3 ? J::arr({S("uint")}) : J::arr({S("int")});
    return J::obj({{"instance", J::arr({J::obj({{"state-names", J::boolean(k.named)}, {"weight-type", wt}}), pda_json(k, s), aut_json(k, i), aut_json(k, f)})}});
}
std::string lang_text(const Kind& k, const std::string& t) { // fam::aut notation -> the tool's regular expressions
    std::string out; size_t i = 0;
    while (i < t.size()) { int p = t[i++] - '0'; if (!out.empty()) out += " | "; out += "< [" + (k.named ? SN[p] : std::to_string(p)) + "] ,"; while (i < t.size() && t[i] != ',') { if (t[i] == '%') out += " .*"; else if (t[i] == '+') out += "+"; else out += " [" + LN[t[i] - 'a'] + "]"; ++i; } ++i; out += " >"; }
    return out;
}
// ---- reading the answer
struct Ans { bool has_result = false, result = false; std::string engine; bool has_engine = false, has_weight = false, inf = false, neginf = false; WV w{0, 0, 0}; std::vector<Conf> trace; std::string raw; };
Ans answer(const cli::Res& r, const Kind& k, int n) {
    Ans a; a.raw = r.out; NJ j; std::map<std::string, int> keys;
    try { j = NJ::parse(r.out, [&](int depth, NJ::parse_event_t e, NJ& v) { if (e == NJ::parse_event_t::key && depth == 1) keys[v.get<std::string>()]++; return true; }); } catch (const std::exception& e) { mc::fail(std::string("the output is not one well-formed JSON document: ") + e.what() + "\n" + r.out); }
    if (!j.is_object()) mc::fail("the output is not a JSON object: " + r.out);
    for (auto& [key, c] : keys) if (c != 1) mc::fail("key '" + key + "' occurs twice in the output: " + r.out);
    if (j.contains("engine")) { a.has_engine = true; if (!j["engine"].is_string()) mc::fail("engine is not a string: " + r.out); a.engine = j["engine"]; }
    if (j.contains("result")) { a.has_result = true; if (!j["result"].is_boolean()) mc::fail("result is not a boolean: " + r.out); a.result = j["result"]; }
    if (j.contains("weight")) { a.has_weight = true; auto& w = j["weight"]; auto num = [&](const NJ& x) { if (!x.is_number_integer()) mc::fail("weight is not an integer: " + r.out); return x.get<long>(); };
        if (w.is_string()) { if (w == "infinity") a.inf = true; else if (w == "negative infinity") a.neginf = true; else mc::fail("strange weight: " + r.out); }
        else if (is_vec(k.wk)) { if (!w.is_array() || w.size() > 3) mc::fail("weight is not a vector: " + r.out); for (size_t i = 0; i < w.size(); ++i) a.w[i] = num(w[i]); } else a.w[0] = num(w); }
    if (j.contains("trace") && !j["trace"].is_null()) { if (!j["trace"].is_array()) mc::fail("trace is not a list: " + r.out);
        for (auto& e : j["trace"]) { if (!e.is_object() || !e.contains("state") || !e.contains("stack") || !e["stack"].is_array()) mc::fail("strange trace element: " + r.out); Conf c;
            if (e["state"].is_string() && k.named) { auto it = std::find(SN.begin(), SN.begin() + n, e["state"].get<std::string>()); if (it == SN.begin() + n) mc::fail("unknown state in the trace: " + r.out); c.p = (int)(it - SN.begin()); } else if (e["state"].is_number_unsigned()) c.p = (int)e["state"].get<size_t>(); else mc::fail("strange state in the trace: " + r.out);
            for (auto& l : e["stack"]) { if (!l.is_string()) mc::fail("strange label in the trace: " + r.out); auto it = std::find(LN.begin(), LN.end(), l.get<std::string>()); if (it == LN.end()) mc::fail("unknown label in the trace: " + r.out); c.s.push_back((int)(it - LN.begin())); }
            a.trace.push_back(c); } }
    return a;
}
struct Want { bool reach; std::optional<WV> mn; std::optional<OptV> lo, hi; bool neg = false; };
Want truth(const Sys& s, const Aut& i, const Aut& f, int wk) { Want w; w.reach = reachable(s, i, f); for (auto& r : s.rules) if (wv(r.w) < WV{0, 0, 0}) w.neg = true; if (wk) { if (!w.neg) w.mn = min_weight(s, i, f); w.hi = opt_value_v(s, i, f, true); w.lo = opt_value_v(s, i, f, false); } return w; }
const char* EN[] = {"", "post*", "pre*", "dual*"};
void judge(const cli::Res& r, const Kind& k, const Sys& s, const Aut& i, const Aut& f, const Want& w, int e, int t) {
    auto fail = [&](const std::string& m) { mc::fail("-e " + std::to_string(e) + " -t " + std::to_string(t) + ": " + m); };
    mc::count("impl_runs");
    if (r.sig) fail("the tool was killed by signal " + std::to_string(r.sig) + "; stderr: " + r.err);
    bool unsupported = e > 3 || (e && t >= 2 && !k.wk);
    if (unsupported) { if (r.rc == 0) fail("accepted although the instance does not support it: " + r.out); if (r.err.empty()) fail("refused without an error message"); if (r.out.find("\"result\"") != std::string::npos) fail("refused, but an answer was printed: " + r.out); return; }
    if (r.rc != 0) fail("exit status " + std::to_string(r.rc) + ": " + r.err);
    if (e == 0) { if (r.out.find("\"result\"") != std::string::npos) fail("an answer without verification: " + r.out); if (!r.out.empty()) answer(r, k, s.n); return; }
    Ans a; try { a = answer(r, k, s.n); } catch (mc::Violation& v) { fail(v.msg); }
    if (!a.has_result) fail("no result: " + r.out);
    if (a.has_engine && a.engine != EN[e]) fail("names engine " + a.engine);
    if (!a.has_engine) fail("names no engine: " + r.out);
    if (a.result != w.reach) fail(std::string("result ") + (a.result ? "true" : "false") + ", the truth is " + (w.reach ? "true" : "false"));
    mc::count("transitions", a.trace.size());
    if (!a.result) { if (!a.trace.empty()) fail("a trace although the answer is no: " + r.out); if (a.has_weight) fail("a weight although the answer is no: " + r.out); return; }
    if (t == 0) { if (!a.trace.empty()) fail("a trace although none was asked for: " + r.out); if (a.has_weight) fail("a weight although no trace was asked for: " + r.out); return; }
    if (t == 1) { if (a.has_weight) fail("a weight although any trace was asked for: " + r.out); auto err = tc::genuine(s, &i, &f, a.trace); if (!err.empty()) fail(err); return; }
    if (!a.has_weight) fail("no weight: " + r.out);
    WV want{0, 0, 0};
    if (t == 2) { if (a.inf || a.neginf) fail("infinite weight of a shortest trace: " + r.out); want = *w.mn; }
    else { auto& o = t == 3 ? *w.hi : *w.lo; if (a.inf != (t == 3 && o.inf) || a.neginf != (t == 4 && o.inf)) fail(std::string("the optimum is ") + (o.inf ? "unbounded" : str(o.w)) + " but the output is " + r.out); if (o.inf) return; want = o.w; }
    if (a.w != want) fail("weight " + str(a.w) + ", the optimum is " + str(want));
    auto err = tc::genuine(s, &i, &f, a.trace); if (!err.empty()) fail(err);
    if (tc::cost(s, a.trace, t == 3) != want) fail("the trace weighs " + str(tc::cost(s, a.trace, t == 3)) + ", reported " + str(want) + ": " + tc::str_trace(a.trace));
}
std::vector<std::string> opts(int e, int t) { return {"-e", std::to_string(e), "-t", std::to_string(t)}; }
std::vector<std::string> operator+(std::vector<std::string> a, const std::vector<std::string>& b) { a.insert(a.end(), b.begin(), b.end()); return a; }
void bulk(const Sys& s, const Pair& p, Kind k, bool weighted_only = false) {
    mc::run_case([&] { return desc(s, p) + "\n" + text(inst_json(k, s, p.i, p.f)); }, [&] {
        auto w = truth(s, p.i, p.f, k.wk); std::string doc = text(inst_json(k, s, p.i, p.f)); mc::count("states"); if (w.reach) mc::count("nontrivial");
        for (int e = 1; e <= 3; ++e) for (int t = weighted_only ? 2 : 0; t <= (k.wk ? 4 : 1); ++t) { if (t == 2 && w.neg) continue; judge(cli::inproc(opts(e, t) + std::vector<std::string>{"--input", "-"}, doc), k, s, p.i, p.f, w, e, t); }
    });
}
std::string scratch() { return getenv("VF_SCRATCH") ? getenv("VF_SCRATCH") : "/tmp"; }
struct File { std::string n; File(const std::string& c, const std::string& ext) { static int id = 0; n = scratch() + "/f" + std::to_string(getpid()) + "_" + std::to_string(id++) + ext; std::ofstream o(n, std::ios::binary); o << c; } ~File() { unlink(n.c_str()); } };
std::string slurp(const std::string& n) { std::ifstream f(n, std::ios::binary); std::stringstream s; s << f.rdbuf(); return s.str(); }
// the same problem through every way of passing it, in a process of its own
void ways(const Sys& s, const std::string& ti, const std::string& tf, Kind k) {
    Pair p{aut(s.n, s.labels, ti), aut(s.n, s.labels, tf), "init{" + ti + "} final{" + tf + "}"}; std::string doc = text(inst_json(k, s, p.i, p.f));
    mc::run_case([&] { return "every way of input: " + desc(s, p) + "\n" + doc; }, [&] {
        auto w = truth(s, p.i, p.f, k.wk); mc::count("states"); if (w.reach) mc::count("nontrivial");
        File fi(doc, ".json"), fm(jread::msgpack(doc), ".bin"), fp(text(J::obj({{"pda", pda_json(k, s)}})), ".json"), f1(text(J::obj({{"P-automaton", aut_json(k, p.i, true)}})), ".json"), f2(text(J::obj({{"P-automaton", aut_json(k, p.f, true)}})), ".json"), g1(lang_text(k, ti), ".txt"), g2(lang_text(k, tf), ".txt");
        std::vector<std::pair<std::vector<std::string>, std::string>> ways{{{"--input", fi.n}, ""}, {{"--input", "-"}, doc}, {{}, doc}, {{"--input", fm.n, "--msgpack"}, ""}, {{"--msgpack"}, slurp(fm.n)}, {{"-s", "--input", fi.n}, ""}};
        if (k.wk < 3) { const char* wn[] = {"none", "uint", "int"}; std::vector<std::string> c; if (k.named) c.push_back("--state-names"); if (k.wk) { c.push_back("--weight"); c.push_back(wn[k.wk]); }
            ways.push_back({c + std::vector<std::string>{"--pda", fp.n, "-i", g1.n, "-f", g2.n}, ""}); ways.push_back({c + std::vector<std::string>{"-p", fp.n, "--initial-automaton", f1.n, "--final-automaton", f2.n, "--json-automata"}, ""});
            ways.push_back({c + std::vector<std::string>{"--format", "PDAAAL", "--pda", "-", "-i", g1.n, "-f", g2.n}, slurp(fp.n)}); }
        for (int e = 0; e <= 4; ++e) for (int t = 0; t <= 4; ++t) { if (e && t == 2 && w.neg) continue; for (auto& [args, in] : ways) {
            auto r = cli::inproc(args + opts(e, t), in); try { judge(r, k, s, p.i, p.f, w, e, t); } catch (mc::Violation& v) { std::string o; for (auto& x : args) o += x + " "; mc::fail(o + v.msg); } } }
        // written by --print-...: the same problem again
        for (int how = 0; how < 3; ++how) { // verified as well, silently, and without any engine
        File o1("", ".json"), o2("", ".json"); std::vector<std::string> a{"--input", fi.n, "--print-solver-instance", o1.n, "--print-pda-json", o2.n, "-e", how == 2 ? "0" : "2"}; if (how == 1) a.push_back("-s"); auto r = cli::inproc(a, ""); judge(r, k, s, p.i, p.f, w, how == 2 ? 0 : 2, 0);
        for (int e = 1; e <= (how ? 1 : 3); ++e) for (int t : {1, 4}) if (t == 1 || k.wk) judge(cli::inproc(opts(e, t) + std::vector<std::string>{"--input", o1.n}, ""), k, s, p.i, p.f, w, e, t);
        if (k.wk < 3) { const char* wn[] = {"none", "uint", "int"}; std::vector<std::string> c{"--weight", wn[k.wk], "--pda", o2.n, "-i", g1.n, "-f", g2.n, "-e", "1", "-t", "1"}; if (k.named) c.push_back("--state-names"); judge(cli::inproc(c, ""), k, s, p.i, p.f, w, 1, 1); } }
    });
}
void process(const Sys& s, const Pair& p, Kind k) {
    std::string doc = text(inst_json(k, s, p.i, p.f));
    mc::run_case([&] { return "process: " + desc(s, p) + "\n" + doc; }, [&] { auto w = truth(s, p.i, p.f, k.wk); mc::count("states"); for (int e = 0; e <= 4; ++e) for (int t = 0; t <= 4; ++t) { if (e && t == 2 && w.neg) continue; judge(cli::forked(opts(e, t), doc), k, s, p.i, p.f, w, e, t); } });
}
void refusal(const std::string& what, const std::vector<std::string>& args, const std::string& in) {
    std::string o; for (auto& x : args) o += x + " ";
    mc::run_case([&] { return "must be refused (" + what + "): " + o + "\n" + in; }, [&] { auto r = cli::forked(args, in); mc::count("impl_runs"); mc::count("states"); mc::count("nontrivial");
        if (r.sig) mc::fail("killed by signal " + std::to_string(r.sig) + " instead of an error: " + r.err); if (r.rc == 0) mc::fail("accepted: " + r.out); if (r.err.empty()) mc::fail("no error message"); if (r.out.find("\"result\"") != std::string::npos) mc::fail("an answer was printed: " + r.out); });
}
const std::vector<std::vector<long>> WU{{0}, {1}, {3}}, WI{{-2}, {0}, {1}}, WVU{{}, {1}, {0, 1}, {1, 0}, {0, 0, 2}}, WVI{{-1}, {0, 1}, {1, -1}, {0, 0, -1}};
void weighted(const Sys& s0, const Pair& p, int wk, bool named) { weightings(s0, wk == 1 ? WU : wk == 2 ? WI : wk == 3 ? WVU : WVI, [&](const Sys& s) { bulk(s, p, {wk, named}); }); }
void u22() { auto P = pairs(2, 2, P22), X = pairs(2, 2, P22x); P.insert(P.end(), X.begin(), X.end()); size_t n = 0; subsets(2, 2, alphabet(2, 2, PLAIN | WILD | NOOPS | SETS), 0, mc::thorough() ? 3 : 2, [&](const Sys& s) { for (size_t j = 0; j < P.size(); ++j) bulk(s, P[j], {0, (bool)(++n % 2)}); }); }
void det() { auto P = pairs(2, 2, P22); size_t n = 0; deterministic(2, 2, false, [&](const Sys& s) { for (size_t j = 0; j < (mc::thorough() ? P.size() : 3); ++j) bulk(s, P[j], {0, (bool)(++n % 2)}); }); }
void u31() { auto P = pairs(3, 1, P31); subsets(3, 1, alphabet(3, 1, PLAIN), 0, mc::thorough() ? 4 : 3, [&](const Sys& s) { for (auto& p : P) bulk(s, p, {0, false}); }); }
void w21() { auto P = pairs(2, 1, P21); size_t n = 0; for (int wk = 1; wk <= 4; ++wk) subsets(2, 1, alphabet(2, 1, PLAIN), 0, 2 + (wk < 3 || mc::thorough()), [&](const Sys& s0) { for (size_t j = 0; j < P.size(); j += (mc::thorough() ? 1 : 1 + (s0.rules.size() > 2) * 2)) weighted(s0, P[j], wk, ++n % 2); }); }
void w22() { auto P = pairs(2, 2, P22); size_t n = 0; subsets(2, 2, alphabet(2, 2, PLAIN | WILD | NOOPS), 2, 2, [&](const Sys& s0) { for (int wk = 1; wk <= 4; ++wk) { Sys s = s0; s.rules[0].w = wk == 1 ? WU[2] : wk == 2 ? WI[0] : wk == 3 ? WVU[4] : WVI[0]; s.rules[1].w = wk == 1 ? WU[1] : wk == 2 ? WI[2] : wk == 3 ? WVU[1] : WVI[2]; size_t z = n++; bulk(s, P[z % P.size()], {wk, z / 8 % 2 == 0}); } }); }
void big() { auto P = pairs(2, 1, PL{{"0a", "1"}, {"0aa", "1"}, {"0a", "1a"}}); // weights near the limits of their types
    for (auto& p : P) for (int wk = 1; wk <= 4; ++wk) subsets(2, 1, alphabet(2, 1, PLAIN), 1, 2, [&](const Sys& s0) { bool loop = false; for (auto& r : s0.rules) if (r.from == r.to || r.from == 1) loop = true; if (loop) return; Sys s = s0; long m = wk % 2 ? 4294967290l : 2147483640l; s.rules[0].w = {m}; if (s.rules.size() > 1) s.rules[1].w = {wk % 2 ? 1l : -m}; bulk(s, p, {wk, false}); }); }
void input_ways() { std::vector<std::tuple<std::string, std::string>> P{{"0a", "1"}, {"0ab+", "1ba"}, {"0a,1b", "0b+"}, {"0a", "1%"}, {"0", "0"}}; size_t n = 0;
    subsets(2, 2, alphabet(2, 2, PLAIN | WILD | NOOPS), 0, 2, [&](const Sys& s0) { size_t z = n++; if (s0.rules.size() == 2 && !mc::thorough() && z % 3) return; Sys s = s0; int wk = (int)(z / 3 % 5); bool nm = z / 15 % 2; for (size_t i = 0; i < s.rules.size(); ++i) s.rules[i].w = wk == 0 ? std::vector<long>{0} : wk == 1 ? WU[1 + i % 2] : wk == 2 ? WI[2 - 2 * (i % 2)] : wk == 3 ? WVU[1 + i % 2] : WVI[1 + i % 2]; auto& [a, b] = P[z / 30 % P.size()]; ways(s, a, b, {wk, nm}); }); }
void processes() { auto P = pairs(2, 1, P21); size_t n = 0; subsets(2, 1, alphabet(2, 1, PLAIN), 1, 2, [&](const Sys& s0) { size_t z = n++; Sys s = s0; int wk = (int)(z % 5); for (size_t i = 0; i < s.rules.size(); ++i) s.rules[i].w = wk == 0 ? std::vector<long>{0} : wk == 1 ? WU[1 + i % 2] : wk == 2 ? WI[2 - 2 * (i % 2)] : wk == 3 ? WVU[1 + i % 2] : WVI[1 + i % 2]; process(s, P[z % P.size()], {wk, (bool)(z / 5 % 2)}); }); }
void refusals() {
    Sys s; s.n = 2; s.labels = 1; s.rules = alphabet(2, 1, PLAIN); s.rules.resize(3); auto p = pairs(2, 1, P21)[0];
    for (int wk = 0; wk <= 4; ++wk) for (bool nm : {false, true}) { Kind k{wk, nm}; std::string d = text(inst_json(k, s, p.i, p.f)), pd = text(J::obj({{"pda", pda_json(k, s)}})), a = lang_text(k, "0a"), b = lang_text(k, "1");
        for (const char* e : {"4", "7", "18446744073709551615", "x", "", "-1x"}) for (const char* t : {"0", "1", "2", "3", "4"}) refusal("engine", {"-e", e, "-t", t}, d);
        for (const char* e : {"0", "1", "2", "3"}) for (const char* t : {"5", "x", "-1", "12", ""}) refusal("trace type", {"-e", e, "-t", t}, d);
        for (const char* e : {"1", "2", "3"}) { std::vector<std::string> E{"-e", e}; if (!wk) for (const char* t : {"2", "3", "4"}) { refusal("unweighted", E + std::vector<std::string>{"-t", t}, d); refusal("unweighted, silent", E + std::vector<std::string>{"-s", "-t", t}, d); }
            refusal("unknown option", E + std::vector<std::string>{"--frobnicate"}, d); refusal("no such file", E + std::vector<std::string>{"--input", scratch() + "/nope.json"}, d); refusal("text as msgpack", E + std::vector<std::string>{"--msgpack"}, d); refusal("msgpack as text", E, jread::msgpack(d)); refusal("empty input", E, ""); refusal("half a document", E, d.substr(0, d.size() / 2)); refusal("two documents", E, d + d); refusal("a PDA instead of an instance", E, pd);
            refusal("unwritable output", E + std::vector<std::string>{"--print-pda-json", scratch() + "/nodir/x"}, d); refusal("unwritable output", E + std::vector<std::string>{"--print-solver-instance", scratch() + "/nodir/x"}, d); }
        // separate files
        static std::vector<std::unique_ptr<File>> keep; auto file = [&](const std::string& c, const char* x) { keep.push_back(std::make_unique<File>(c, x)); return keep.back()->n; };
        if (wk < 3) { const char* wn[] = {"none", "uint", "int"}; std::string fp = file(pd, ".json"), g1 = file(a, ".txt"), g2 = file(b, ".txt"), bad = file("< [0] , [A", ".txt"), aj = file(text(J::obj({{"P-automaton", aut_json(k, p.i, true)}})), ".json");
            std::vector<std::string> c{"-e", "1"}; auto c2 = c; if (nm) c2.push_back("--state-names"); auto F = std::vector<std::string>{"--pda", fp, "-i", g1, "-f", g2};
            for (int x = 0; x < 3; ++x) if ((x == 0) != (wk == 0)) refusal("another weight type", c2 + F + std::vector<std::string>{"--weight", wn[x]}, "");
            for (const char* x : {"real", "", "uint ", "i", "in", "ui", "uin", "n", "non", "ints", "uint32", "nones", "0", "weight"}) refusal("unknown weight type", c2 + F + std::vector<std::string>{"--weight", x}, "");
            auto c3 = c; if (!nm) c3.push_back("--state-names"); refusal("the other kind of states", c3 + F + std::vector<std::string>{"--weight", wn[wk]}, "");
            auto W = std::vector<std::string>{"--weight", wn[wk]};
            for (const char* x : {"moped", "xml", "", "p", "pda", "pdaaa", "pdaaalx", "json"}) refusal("format", c2 + F + W + std::vector<std::string>{"--format", x}, "");
            refusal("text as JSON automata", c2 + F + W + std::vector<std::string>{"--json-automata"}, ""); refusal("JSON as text automata", c2 + W + std::vector<std::string>{"--pda", fp, "-i", aj, "-f", aj}, "");
            refusal("bad automaton", c2 + W + std::vector<std::string>{"--pda", fp, "-i", g1, "-f", bad}, ""); refusal("no such automaton", c2 + W + std::vector<std::string>{"--pda", fp, "-i", g1 + "x", "-f", g2}, ""); refusal("no such pda", c2 + W + std::vector<std::string>{"--pda", fp + "x", "-i", g1, "-f", g2}, "");
            if (!wk) for (const char* t : {"2", "3", "4"}) refusal("unweighted", c2 + F + W + std::vector<std::string>{"-t", t}, ""); } }
}
void readme() { // the example of the documentation
    std::string d = R"({"instance":[{"state-names":true,"weight-type":"uint"},{"states":{"p":{"A":{"to":"q","pop":"","weight":1},"B":{"to":"p","push":"A","weight":0}},"q":{"A":[{"to":"p","swap":"A","weight":2},{"to":"r","push":"B","weight":1}]},"r":{"B":{"to":"r","pop":"","weight":3}}}},{"accepting":[3],"edges":[["p","A",3],["p","B",4],[4,"A",3],["q","A",3]]},{"accepting":["r",3],"edges":[["r","A",3]]}]})";
    Sys s; s.n = 3; s.labels = 2; auto rule = [&](int f, int l, int t, Op o, int ol, long w) { Rule r; r.from = f; r.to = t; r.op = o; r.oplabel = ol; r.pre = {l}; r.w = {w}; s.rules.push_back(r); }; rule(0, 0, 1, POP, -1, 1); rule(0, 1, 0, PUSH, 0, 0); rule(1, 0, 0, SWAP, 0, 2); rule(1, 0, 2, PUSH, 1, 1); rule(2, 1, 2, POP, -1, 3);
    Aut i(3, 2), f(3, 1); i.acc[3] = 1; i.edges = {{0, 0, 3}, {0, 1, 4}, {4, 0, 3}, {1, 0, 3}}; f.acc[2] = f.acc[3] = 1; f.edges = {{2, 0, 3}};
    for (int e = 1; e <= 3; ++e) for (int t = 0; t <= 4; ++t) mc::run_case([&] { return "example of the documentation -e " + std::to_string(e) + " -t " + std::to_string(t); }, [&] { Kind k{1, true}; auto w = truth(s, i, f, 1); mc::count("states"); judge(cli::forked(opts(e, t), d), k, s, i, f, w, e, t); judge(cli::inproc(opts(e, t), d), k, s, i, f, w, e, t); }); }
}
int main(int argc, char** argv) {
    mc::Check c; c.property = "C19";
    c.rule = "every generated instance x engine x trace option: the tool's output is one JSON object, and its result, weight and trace are compared with the exact answer of the reference; every listed unsupported combination must exit nonzero with a message and no answer";
    c.assumptions = {"shortest trace (-t 2) is only asked for non-negative weights, as documented", "the state of a trace element is the position of the state in the document", "the JSON library (nlohmann) is trusted to parse the output", "ptrie replaced by an equivalent std container", "the tool's main function is called in the harness process (and in forked processes), compiled with assertions on"};
    c.bounds_quick = "unweighted: all systems <=2 rules over 2 states, 2 labels (plain, set, wildcard, no-op) x 16 automaton pairs, deterministic 2x2, 3x1 <=3 rules; uint/int/vector weights: 2x1 <=3 (vectors <=2) rules with all weights, 2x2 2 rules; 9 ways of input; 25 option combinations in own processes; refusals";
    c.bounds_thorough = "2x2 <=3 rules, 3x1 <=4, vectors <=3 rules, all input ways";
    c.suites = {{"readme", readme}, {"refusals", refusals}, {"processes", processes}, {"input_ways", input_ways}, {"big", big}, {"w22", w22}, {"w21", w21}, {"u22", u22}, {"u31", u31}, {"det", det}};
    return mc::main_(argc, argv, c);
}
