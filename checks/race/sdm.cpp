// All kernels of the spectral difference solver (time step, boundary filling, interpolation, fluxes, limiter, positivity, integrators)
#include "common.h"
#include "sdm/SolverHydroSDM.h"
#include "shared/SolverBase.cpp"
typedef ppkMHD::sdm::SolverHydroSDM<DIM, ORD> S;
extern "C" void v_main() {
  sizes(1, DIM + 2, false);
  P.settings.mu = v_real(); P.settings.kappa = v_real();
#ifdef NATIVE
  if (P.settings.mu < 1) P.settings.mu = 0;
  if (P.settings.kappa < 1) P.settings.kappa = 0;
#endif
  static ConfigMap cm; S s(P, cm); s.compute_dt_local(); s.time_integration(v_real());
  v_assert(R::count > 3, "the kernels have been launched");
}
