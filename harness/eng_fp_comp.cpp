#include "eng_impl.h"
namespace eng {
Out fp_vint(Engine e, Trace t, const ref::Sys& s, const ref::Aut& i, const ref::Aut& f) { return run_fp<weight<std::vector<int32_t>>>(e, t, s, i, f); }
Out fp_vuint(Engine e, Trace t, const ref::Sys& s, const ref::Aut& i, const ref::Aut& f) { return run_fp<weight<std::vector<uint32_t>>>(e, t, s, i, f); }
Out fp_aint(Engine e, Trace t, const ref::Sys& s, const ref::Aut& i, const ref::Aut& f) { return run_fp<weight<std::array<int32_t, 3>>>(e, t, s, i, f); }
}
