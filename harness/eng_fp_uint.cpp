#include "eng_impl.h"
namespace eng { Out fp_uint(Engine e, Trace t, const ref::Sys& s, const ref::Aut& i, const ref::Aut& f) { return run_fp<weight<uint32_t>>(e, t, s, i, f); } }
