// All kernels of a hydro step (boundary filling, conversion, fluxes, update, sources, time step)
#include "common.h"
#include "muscl/SolverHydroMuscl.h"
#include "muscl/SolverHydroMuscl.cpp"
#include "shared/SolverBase.cpp"
typedef ppkMHD::muscl::SolverHydroMuscl<DIM> S;
extern "C" void v_main() {
  sizes(2, DIM == 2 ? 4 : 5, false);
  static ConfigMap cm; S s(P, cm); s.compute_dt_local(); s.m_iteration = R::pick(1); s.godunov_unsplit(v_real());
  v_assert(R::count > 3, "the kernels have been launched");
}
