#pragma once
#include "jref.h"
namespace jread {
struct Res { bool ok = false; std::string err; };
// the real readers; a rejected document gives ok=false and the text of the std::runtime_error, every other outcome propagates
Res inst(const std::string& bytes, bool msgpack, bool pair, jref::Inst& out);
Res pda(const std::string& bytes, bool msgpack, int wk, bool named, jref::Pda& out);
// reads pda_doc, then the automaton document relative to it
Res aut(const std::string& pda_doc, const std::string& bytes, bool msgpack, int wk, bool named, bool pair, jref::Pda& p, jref::Aut& out);
// write-read: instance document -> instance -> to_json -> instance; also the parts separately
Res rewrite(const std::string& bytes, std::string& written_inst, std::string& written_pda, std::string& written_ini, std::string& written_fin);
std::string msgpack(const std::string& text);
}
