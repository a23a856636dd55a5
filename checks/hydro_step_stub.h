// Replaces riemann_hydro by an uninterpreted function that has exactly the symmetries proven for
// the real solvers by C07 (assume/guarantee): the scheme around the solver is the real code.
#pragma once
#include <Kokkos_Core.hpp>
#include "../engine/sym.h"
#define riemann_hydro real_riemann_hydro
#include "shared/RiemannSolvers.h"
#undef riemann_hydro
namespace ppkMHD {
extern int stub_swap, stub_refl;
template <class H> void stub_riemann(const H &ql, const H &qr, H &f) {
  const int n = ql.size(), nt = n - 3; for (int v = 0; v < n; ++v) f[v] = 0;
  for (int sw = 0; sw <= (stub_swap && nt == 2); ++sw) for (int m = 0; m <= stub_refl; ++m) for (int a = 0; a <= stub_refl; ++a) for (int b = 0; b <= (stub_refl && nt == 2); ++b) {
    double s[16]; for (int side = 0; side < 2; ++side) { const H &q = (side ^ m) ? qr : ql; double *o = s + side * n; for (int v = 0; v < n; ++v) o[v] = q[v];
      if (m) o[IU] = -o[IU]; if (a) o[IV] = -o[IV]; if (b) o[IW] = -o[IW]; if (sw) { double t = o[IV]; o[IV] = o[IW]; o[IW] = t; } }
    double r[5]; for (int v = 0; v < n; ++v) r[v] = rt_uf("riemann", v, 2 * n, s);
    if (sw) { double t = r[IV]; r[IV] = r[IW]; r[IW] = t; } if (a) r[IV] = -r[IV]; if (b) r[IW] = -r[IW]; if (m) for (int v = 0; v < n; ++v) if (v != IU) r[v] = -r[v];
    for (int v = 0; v < n; ++v) f[v] = f[v] + r[v];
  }
}
inline void riemann_hydro(const HydroState2d &l, const HydroState2d &r, HydroState2d &, HydroState2d &f, const HydroParams &) { stub_riemann(l, r, f); }
inline void riemann_hydro(const HydroState3d &l, const HydroState3d &r, HydroState3d &, HydroState3d &f, const HydroParams &) { stub_riemann(l, r, f); }
}
