#include "eng_impl.h"
namespace eng {
Out run_void(Engine e, Trace t, const ref::Sys& s, const ref::Aut& i, const ref::Aut& f, bool rules) { return run<weight<void>>(e, t, s, i, f, rules); }
std::vector<Member> saturate_void(bool post, const ref::Sys& s, const ref::Aut& a, const std::vector<ref::Conf>& q, bool tr, ref::Aut* out, bool none) { return saturate<weight<void>, false>(post, s, a, q, tr, out, none); }
std::vector<Member> query_void(Trace t, const ref::Sys& s, const ref::Aut& a, const std::vector<ref::Conf>& q) { return query<weight<void>>(t, s, a, q); }
}
