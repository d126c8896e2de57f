#include "jobs.h"
#include "jread.h"
using namespace pdaaal; using namespace pdaaal::parsing;
namespace jread {
template<typename W, bool named> static Res pda_t(const std::string& bytes, bool mp, jref::Pda& out) {
    std::istringstream in(bytes); std::stringstream warn; Res r; mc::count("impl_runs");
    try { auto p = PdaJsonParser::parse<W, named>(in, warn, mp ? json::input_format_t::msgpack : json::input_format_t::json); out = jobs::pda(p); r.ok = true; }
    catch (const std::runtime_error& e) { r.err = e.what(); }
    return r;
}
template<typename W, bool named, TraceInfoType ti> static Res aut_t(const std::string& doc, const std::string& bytes, bool mp, jref::Pda& p, jref::Aut& out) {
    std::istringstream in(doc); std::stringstream warn; Res r; mc::count("impl_runs");
    auto pda = PdaJsonParser::parse<W, named>(in, warn);
    try { std::istringstream in2(bytes); auto a = PAutomatonJsonParser::parse<ti>(in2, pda, mp ? json::input_format_t::msgpack : json::input_format_t::json); out = jobs::aut(a, pda); r.ok = true; }
    catch (const std::runtime_error& e) { r.err = e.what(); }
    p = jobs::pda(pda); return r;
}
#define DISPATCH(F, ...) switch (wk) { case 0: return named ? F(weight<void>, true) : F(weight<void>, false); case 1: return named ? F(weight<uint32_t>, true) : F(weight<uint32_t>, false); case 2: return named ? F(weight<int32_t>, true) : F(weight<int32_t>, false); case 3: return named ? F(weight<std::vector<uint32_t>>, true) : F(weight<std::vector<uint32_t>>, false); default: return named ? F(weight<std::vector<int32_t>>, true) : F(weight<std::vector<int32_t>>, false); }
Res pda(const std::string& bytes, bool mp, int wk, bool named, jref::Pda& out) {
#define P1(...) pda_t<__VA_ARGS__>(bytes, mp, out)
    DISPATCH(P1)
}
Res aut(const std::string& doc, const std::string& bytes, bool mp, int wk, bool named, bool pair, jref::Pda& p, jref::Aut& out) {
#define P2(...) (pair ? aut_t<__VA_ARGS__, TraceInfoType::Pair>(doc, bytes, mp, p, out) : aut_t<__VA_ARGS__, TraceInfoType::Single>(doc, bytes, mp, p, out))
    DISPATCH(P2)
}
}
