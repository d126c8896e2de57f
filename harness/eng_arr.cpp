#include "eng_impl.h"
namespace eng { Out run_arr(Engine e, Trace t, const ref::Sys& s, const ref::Aut& i, const ref::Aut& f) { return run<weight<std::array<uint32_t,2>>>(e, t, s, i, f); } }
