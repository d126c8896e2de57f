#include "jobs.h"
#include "jread.h"
using namespace pdaaal; using namespace pdaaal::parsing;
namespace jread {
std::string msgpack(const std::string& text) { auto v = nlohmann::json::to_msgpack(nlohmann::json::parse(text)); return std::string(v.begin(), v.end()); }
template<TraceInfoType ti> static Res inst_t(const std::string& bytes, bool mp, jref::Inst& out) {
    std::istringstream in(bytes); Res r; mc::count("impl_runs");
    try {
        auto v = SolverInstanceJsonParser::parse<ti>(in, mp ? json::input_format_t::msgpack : json::input_format_t::json);
        std::visit([&](auto&& si) { auto& pr = *si; out.pda = jobs::pda(pr.pda()); out.ini = jobs::aut(pr.initial_automaton(), pr.pda()); out.fin = jobs::aut(pr.final_automaton(), pr.pda()); }, v);
        r.ok = true;
    } catch (const std::runtime_error& e) { r.err = e.what(); }
    return r;
}
Res inst(const std::string& bytes, bool mp, bool pair, jref::Inst& out) { return pair ? inst_t<TraceInfoType::Pair>(bytes, mp, out) : inst_t<TraceInfoType::Single>(bytes, mp, out); }
Res rewrite(const std::string& bytes, std::string& wi, std::string& wp, std::string& w1, std::string& w2) {
    std::istringstream in(bytes); Res r; mc::count("impl_runs");
    try {
        auto v = SolverInstanceJsonParser::parse<TraceInfoType::Single>(in);
        std::visit([&](auto&& si) { wi = si->to_json().dump(); wp = si->pda().to_json().dump(); w1 = si->initial_automaton().to_json().dump(); w2 = si->final_automaton().to_json().dump(); }, v);
        r.ok = true;
    } catch (const std::runtime_error& e) { r.err = e.what(); }
    return r;
}
}
