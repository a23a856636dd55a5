// Spectral difference solver SolverHydroSDM<DIM,ORD>: conservation, uniform flow, time integrators, reference scheme, limiter,
// positivity correction, boundaries, time step (C04 C12 C21-C24 C28)
#include "hsetup.h"
#ifdef STUB
#include "hydro_step_stub.h"
namespace ppkMHD { int stub_swap = 0, stub_refl = 0; }
#endif
#include "sdm/SolverHydroSDM.h"
using namespace ppkMHD; using namespace ppkMHD::sdm;
constexpr int D = DIM, N = ORD, ND = DIM == 2 ? ORD * ORD : ORD * ORD * ORD, NV = DIM + 2;
using Sol = SolverHydroSDM<D, N>; using DA = typename Sol::DataArray; using St = typename std::conditional<D == 2, HydroState2d, HydroState3d>::type;
static Args *A; static const int MV[3] = {IU, IV, IW};
// ------------------------------------------------------------------ independent geometry
static double SP[N], FP[N + 1], W[N];         // solution points, flux points, quadrature weights of [0,1]
static double lag(const double *x, int n, int i, double t) { double l = 1; for (int k = 0; k < n; ++k) if (k != i) l *= (t - x[k]) / (x[i] - x[k]); return l; }
static double dlag(const double *x, int n, int i, double t) { double s = 0; for (int m = 0; m < n; ++m) if (m != i) { double l = 1 / (x[i] - x[m]); for (int k = 0; k < n; ++k) if (k != i && k != m) l *= (t - x[k]) / (x[i] - x[k]); s += l; } return s; }
static void geometry() {
  for (int i = 0; i < N; ++i) SP[i] = 0.5 * (1 - std::cos(M_PI * (2 * i + 1) / (2.0 * N)));
  FP[0] = 0; FP[N] = 1; // Legendre roots of degree N-1 by Newton iteration
  for (int i = 1; i < N; ++i) { double x = std::cos(M_PI * (i - 0.25) / (N - 0.5)); for (int it = 0; it < 60; ++it) { double p0 = 1, p1 = x; for (int k = 2; k < N; ++k) { double p2 = ((2 * k - 1) * x * p1 - (k - 1) * p0) / k; p0 = p1; p1 = p2; } double dp = N == 2 ? 1 : (N - 1) * (x * p1 - p0) / (x * x - 1); x -= p1 / dp; } FP[N - i] = 0.5 * (1 + x); }
  for (int i = 0; i < N; ++i) { double s = 0; const int M = 4; // integral of the Lagrange polynomial by composite Gauss-Legendre (3 points, exact to degree 5)
    for (int c = 0; c < M; ++c) for (int g = 0; g < 3; ++g) { double t = (c + 0.5 * (1 + (g - 1) * std::sqrt(0.6))) / M; s += lag(SP, N, i, t) * (g == 1 ? 8.0 : 5.0) / 18 / M; } W[i] = s; }
}
// ------------------------------------------------------------------ array access
template <class Arr> static double &at(Arr &a, int i, int j, int k, int v) { if constexpr (D == 2) return a(i, j, v); else return a(i, j, k, v); }
static int dof(int x, int y, int z, int v) { return D == 2 ? x + N * y + N * N * v : x + N * y + N * N * z + N * N * N * v; }
struct Box {
  HydroParams P; Sol *s; int n[3]; double dx[3], gam; ConfigMap cm; bool keepdx;
  Box(bool symgeo) : cm(A->config()) {
    P.setup(cm); if (symgeo) { P.dx = sym("dx", 0.25, 1); P.dy = sym("dy", 0.25, 1); if (D == 3) P.dz = sym("dz", 0.25, 1); }
    { Quiet q; s = new Sol(P, cm); } n[0] = P.nx; n[1] = P.ny; n[2] = D == 3 ? P.nz : 1; dx[0] = P.dx; dx[1] = P.dy; dx[2] = P.dz; gam = P.settings.gamma0;
  }
  template <class F> void cells(F f) { for (int k = 0; k < n[2]; ++k) for (int j = 0; j < n[1]; ++j) for (int i = 0; i < n[0]; ++i) f(i + 1, j + 1, D == 3 ? k + 1 : 0); }
  template <class F> void all(F f) { for (int k = 0; k < (D == 3 ? n[2] + 2 : 1); ++k) for (int j = 0; j < n[1] + 2; ++j) for (int i = 0; i < n[0] + 2; ++i) f(i, j, k); }
  template <class F> static void dofs(F f) { for (int z = 0; z < (D == 3 ? N : 1); ++z) for (int y = 0; y < N; ++y) for (int x = 0; x < N; ++x) f(x, y, z); }
  static double w(int x, int y, int z) { return W[x] * W[y] * (D == 3 ? W[z] : 1.0); }
  // admissible state everywhere: primitive values in a box in which no floor is reached
  template <class Arr> void fill(Arr &U, bool ghosts = false, bool raw = false) {
    bool nar = A->i("narrow");
    auto one = [&](int i, int j, int k) { dofs([&](int x, int y, int z) { std::string t = S(i) + S(j) + S(k) + "_" + S(x) + S(y) + S(z);
      if (raw) { for (int v = 0; v < NV; ++v) at(U, i, j, k, dof(x, y, z, v)) = sym("q" + S(v) + t, v == ID ? 1 : -2, 2); return; }
      double r = sym("r" + t, nar ? 1 : RHO_LO, nar ? 1.25 : RHO_HI), p = sym("p" + t, nar ? 1 : P_LO, nar ? 1.25 : P_HI), m = 0; at(U, i, j, k, dof(x, y, z, ID)) = r;
      for (int d = 0; d < D; ++d) { double vb = nar ? 0.25 : V_AB, u = sym(std::string(1, "uvw"[d]) + t, -vb, vb); at(U, i, j, k, dof(x, y, z, MV[d])) = r * u; m += u * u; }
      at(U, i, j, k, dof(x, y, z, IE)) = p / (gam - 1) + 0.5 * r * m; }); };
    if (ghosts) all(one); else cells(one);
  }
  template <class Arr> double total(Arr &U, int v) { double t = 0; cells([&](int i, int j, int k) { dofs([&](int x, int y, int z) { t += w(x, y, z) * at(U, i, j, k, dof(x, y, z, v)); }); }); return t; }
};
#include "sdm_modes.h"
int main(int argc, char **argv) {
  Args a(argc, argv); A = &a; Kokkos::initialize(argc, argv); geometry();
  run(a.s("mode")); rt_finish(); fflush(stdout); _Exit(0);
}
