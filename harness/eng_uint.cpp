#include "eng_impl.h"
namespace eng {
Out run_uint(Engine e, Trace t, const ref::Sys& s, const ref::Aut& i, const ref::Aut& f, bool rules) { return run<weight<uint32_t>>(e, t, s, i, f, rules); }
std::vector<Member> saturate_uint(bool post, bool sh, const ref::Sys& s, const ref::Aut& a, const std::vector<ref::Conf>& q, bool tr, bool none) {
    return sh ? saturate<weight<uint32_t>, true>(post, s, a, q, tr, nullptr, none) : saturate<weight<uint32_t>, false>(post, s, a, q, tr, nullptr, none);
}
std::vector<Member> query_uint(Trace t, const ref::Sys& s, const ref::Aut& a, const std::vector<ref::Conf>& q) { return query<weight<uint32_t>>(t, s, a, q); }
}
