#include "eng_impl.h"
namespace eng { Out run_int(Engine e, Trace t, const ref::Sys& s, const ref::Aut& i, const ref::Aut& f) { return run<weight<int32_t>>(e, t, s, i, f); } }
