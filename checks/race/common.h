// Shared set-up of the kernel checks: symbolic sizes and parameters
#include <string>
#include <vector>
#include <memory>
#include <array>
#include <iostream>
#include <iomanip>
#include <sstream>
#include <fstream>
#include <algorithm>
#include <unordered_map>
#include <limits>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cassert>
#include <omp.h>
#ifdef NATIVE
extern "C" inline double omp_get_wtime() { return 0; }
#endif
#include <sys/stat.h>
#include <Kokkos_Core.hpp>
#ifdef NATIVE
#include <random>
static int v_ints[1024], broken, fails; static const char *kn = "?"; static std::mt19937 rng; static int wk, wr, wc, wi[5];
extern "C" int v_int(int i) { return v_ints[i & 1023]; }
extern "C" void v_assert(int c, const char *m) { if (!c && !broken && strcmp(m, "REACHED")) { if (++fails < 4) printf("NATIVE-FAIL %s: kernel %s (work item %d, array %d, element %d %d %d %d %d)\n", m, kn, wc, wr, wi[0], wi[1], wi[2], wi[3], wi[4]); } }
extern "C" void v_assume(int c) { if (!c) broken = 1; }
extern "C" double v_real() { return std::uniform_real_distribution<double>(0.25, 2)(rng); }
extern "C" void v_kernel(const char *n) { static char b[200]; const char *f = strstr(n, "F = "); snprintf(b, 200, "%s", f ? f + 4 : n); if (char *e = strstr(b, ", A = ")) *e = 0; kn = b; }
extern "C" void v_where(int k, int r, int c, int a, int b, int d, int e, int f) { if (R::active && r == R::watch && a == R::at[0] && b == R::at[1] && d == R::at[2]) { wk = k; wr = r; wc = c; wi[0] = a; wi[1] = b; wi[2] = d; wi[3] = e; wi[4] = f; } if (!R::active) { wr = r; wc = c; wi[0] = a; wi[1] = b; wi[2] = d; wi[3] = e; wi[4] = f; } }
#else
extern "C" { inline void v_where(int, int, int, int, int, int, int, int) {} }
#endif
extern "C" __attribute__((noinline, used)) void v_gstore() { v_assert(!R::active, "no work item writes to global data"); }
#define virtual
#define override
#define private public
#define protected public
#define USE_DOUBLE
#include "shared/HydroParams.h"
#ifdef NATIVE
#include "utils/monitoring/OpenMPTimer.cpp"
#endif
using namespace ppkMHD;
#ifndef DIM
#define DIM 2
#endif
#ifndef NMAX
#define NMAX 100
#endif
#ifdef NATIVE
void HydroParams::print() {}
#endif
static HydroParams P;
static void sizes(int gw, int nbvar, bool mhd) {
  P.ghostWidth = gw; P.nbvar = nbvar; P.mhdEnabled = mhd; P.dimType = DIM == 2 ? TWO_D : THREE_D;
#ifdef FIXED
  static const int fx[3] = FIXED; P.nx = fx[0]; P.ny = fx[1]; P.nz = fx[2];
#else
  P.nx = R::pick(127); P.ny = R::pick(127); P.nz = R::pick(127); v_assume(P.nx >= gw && P.nx <= NMAX && P.ny >= gw && P.ny <= NMAX && P.nz >= gw && P.nz <= NMAX);
#endif
  if (DIM == 2) P.nz = 1;
  P.imin = P.jmin = P.kmin = 0; P.isize = P.nx + 2 * gw; P.jsize = P.ny + 2 * gw; P.ksize = DIM == 2 ? 1 : P.nz + 2 * gw; P.imax = P.isize - 1; P.jmax = P.jsize - 1; P.kmax = P.ksize - 1;
  P.dx = v_real(); P.dy = v_real(); P.dz = v_real(); P.niter_riemann = 2; P.settings.slope_type = 2;
P.implementationVersion = IMPL;
  int *bc[6] = {(int *)&P.boundary_type_xmin, (int *)&P.boundary_type_xmax, (int *)&P.boundary_type_ymin, (int *)&P.boundary_type_ymax, (int *)&P.boundary_type_zmin, (int *)&P.boundary_type_zmax};
  for (int i = 0; i < 6; ++i) { int b = R::pick(7); v_assume(b >= BC_DIRICHLET && b <= BC_PERIODIC); *bc[i] = b; }
}
#ifdef NATIVE
extern "C" void v_main();
int main(int ac, char **av) { for (int i = 2; i < ac; ++i) v_ints[i - 2] = atoi(av[i]); int bad = 0; for (int s = 0; s < atoi(av[1]) && !bad; ++s) { rng.seed(s); broken = fails = 0; R::nreg = R::nvar = R::active = R::count = 0; v_main(); bad = fails; } printf("NATIVE-DONE fails=%d\n", bad); return bad ? 1 : 0; }
#endif
