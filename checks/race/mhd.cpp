// All kernels of a MHD step (boundary filling, conversion, fluxes, update, sources, time step)
#include "common.h"
#include "muscl/SolverMHDMuscl.h"
#include "muscl/SolverMHDMuscl.cpp"
#include "shared/SolverBase.cpp"
typedef ppkMHD::muscl::SolverMHDMuscl<DIM> S;
extern "C" void v_main() {
  sizes(3, 8, true);
  static ConfigMap cm; S s(P, cm); s.compute_dt_local(); s.m_iteration = R::pick(1); s.godunov_unsplit();
  v_assert(R::count > 3, "the kernels have been launched");
}
