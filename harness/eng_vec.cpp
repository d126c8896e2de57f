#include "eng_impl.h"
namespace eng { Out run_vec(Engine e, Trace t, const ref::Sys& s, const ref::Aut& i, const ref::Aut& f) { return run<weight<std::vector<uint32_t>>>(e, t, s, i, f); } }
