// Initial conditions (C19): the functors that fill the state array run on a small block of cells
// with the mesh, the adiabatic index and every real problem parameter symbolic.
#include "hsetup.h"
#include <cmath>
#include "muscl/SolverHydroMuscl.h"
#include "muscl/SolverMHDMuscl.h"
#include "muscl/HydroInitFunctors2D.h"
#include "muscl/HydroInitFunctors3D.h"
#include "muscl/MHDInitFunctors2D.h"
#include "muscl/MHDInitFunctors3D.h"
using namespace ppkMHD::muscl;
static Args *A; static HydroParams P; static double G; static bool mhd; static int dim, N[3], gw;
static DataArray2d U2; static DataArray3d U3; static VectorField2d g2; static VectorField3d g3;
static double u(const int *c, int v) { return dim == 2 ? U2(c[0], c[1], v) : U3(c[0], c[1], c[2], v); }
static double pos(const int *c, int d) { const double lo[3] = {P.xmin, P.ymin, P.zmin}, h[3] = {P.dx, P.dy, P.dz}; return lo[d] + (c[d] - gw + 0.5) * h[d]; }
static std::string cn(const std::string &l, const int *c) { return l + " (" + S(c[0]) + "," + S(c[1]) + "," + S(c[2]) + ")"; }
static bool in(const int *c) { for (int d = 0; d < dim; ++d) if (c[d] < gw || c[d] >= N[d] - gw) return false; return true; }
template <class F> static void cells(F f) { for (int k = 0; k < (dim == 3 ? N[2] : 1); ++k) for (int j = 0; j < N[1]; ++j) for (int i = 0; i < N[0]; ++i) { int c[3] = {i, j, k}; f(c); } }
// magnetic field at the centre of a cell: mean of the two faces, or the value of the cell itself when the neighbour is outside the block
static double bc(const int *c, int d, bool uniform) { const int B[3] = {IA, IB, IC}; double b = u(c, B[d]); if (uniform || d >= dim) return b; int e[3] = {c[0], c[1], c[2]}; e[d]++; return 0.5 * (b + u(e, B[d])); }
static double pressure(const int *c, bool uniform = true) {
  double m2 = u(c, IU) * u(c, IU) + u(c, IV) * u(c, IV); if (dim == 3 || mhd) m2 += u(c, IW) * u(c, IW);
  double e = u(c, IE) - 0.5 * m2 / u(c, ID); if (mhd) for (int d = 0; d < 3; ++d) { double b = bc(c, d, uniform); e -= 0.5 * b * b; }
  return (G - 1) * e;
}
static void state(const int *c, double rho, double vx, double vy, double vz, double p, const double *B = nullptr, bool uniform = true) {
  claim_eq(u(c, ID), rho, cn("density", c)); claim_eq(u(c, IU), rho * vx, cn("momentum x", c)); claim_eq(u(c, IV), rho * vy, cn("momentum y", c));
  if (dim == 3 || mhd) claim_eq(u(c, IW), rho * vz, cn("momentum z", c));
  if (mhd && B) { claim_eq(u(c, IA), B[0], cn("field x", c)); claim_eq(u(c, IB), B[1], cn("field y", c)); claim_eq(u(c, IC), B[2], cn("field z", c)); }
  claim_eq(pressure(c, uniform), p, cn("pressure", c));
}
static void divfree(const int *c) {
  const int B[3] = {IA, IB, IC}; const double h[3] = {P.dx, P.dy, P.dz}; double s = 0, big = 1;
  for (int d = 0; d < dim; ++d) { int e[3] = {c[0], c[1], c[2]}; e[d]++; s += (u(e, B[d]) - u(c, B[d])) / h[d]; }
  claim_eq(s, 0, cn("divergence", c), 1e-9, big);
}
static double rho(const char *n) { return sym(n, 0.125, 8); }
static double vel(const char *n) { return sym(n, -2, 2); }
#define APPLY(F2, F3, ...) do { if (dim == 2) F2::apply(P, __VA_ARGS__, U2); else F3::apply(P, __VA_ARGS__, U3); Kokkos::fence(); } while (0)
#define APPLYM(H2, H3, M2, M3, ...) do { if (mhd) APPLY(M2, M3, __VA_ARGS__); else APPLY(H2, H3, __VA_ARGS__); } while (0)
#define APPLYG(F2, F3, ...) do { if (dim == 2) F2::apply(P, __VA_ARGS__, U2, g2); else F3::apply(P, __VA_ARGS__, U3, g3); Kokkos::fence(); } while (0)
static double sq(double x) { return x * x; }

static void implode(ConfigMap &cm) {
  ImplodeParams q(cm); q.rho_out = rho("rho_out"); q.p_out = rho("p_out"); q.rho_in = rho("rho_in"); q.p_in = rho("p_in"); q.shape = A->i("shape");
  q.u_out = vel("u_out"); q.v_out = vel("v_out"); q.w_out = vel("w_out"); q.u_in = vel("u_in"); q.v_in = vel("v_in"); q.w_in = vel("w_in");
  q.Bx_in = q.Bx_out = vel("Bx"); q.By_in = q.By_out = vel("By"); q.Bz_in = q.Bz_out = vel("Bz");   // a uniform field: anything else has a divergence at the oblique interface
  APPLYM(InitImplodeFunctor2D, InitImplodeFunctor3D, InitImplodeFunctor2D_MHD, InitImplodeFunctor3D_MHD, q);
  cells([&](int *c) {
    double x = pos(c, 0), y = pos(c, 1), s = x + y + (dim == 3 ? pos(c, 2) : 0); bool out;
    if (q.shape == 1) { if (dim == 2 && !mhd) { s = x + y * y; out = s > 0.5 && s < 1.5; } else out = s > 0.5 && s < 2.5; }
    else out = s > (P.xmin + P.xmax) / 2 + P.ymin + (dim == 3 ? P.zmin : 0);
    const bool w3 = dim == 3; double B[3] = {q.Bx_in, q.By_in, w3 ? q.Bz_in : 0};
    if (out) state(c, q.rho_out, q.u_out, q.v_out, w3 ? q.w_out : 0, q.p_out, B); else state(c, q.rho_in, q.u_in, q.v_in, w3 ? q.w_in : 0, q.p_in, B);
  });
}
static void blast(ConfigMap &cm) {
  BlastParams q(cm); q.blast_radius = sym("radius", 1.0 / 16, 1); q.blast_center_x = sym("cx", -1, 1); q.blast_center_y = sym("cy", -1, 1); q.blast_center_z = sym("cz", -1, 1);
  q.blast_density_in = rho("rho_in"); q.blast_density_out = rho("rho_out"); q.blast_pressure_in = rho("p_in"); q.blast_pressure_out = rho("p_out");
  APPLYM(InitBlastFunctor2D, InitBlastFunctor3D, InitBlastFunctor2D_MHD, InitBlastFunctor3D_MHD, q);
  cells([&](int *c) {
    double d2 = sq(pos(c, 0) - q.blast_center_x) + sq(pos(c, 1) - q.blast_center_y) + (dim == 3 ? sq(pos(c, 2) - q.blast_center_z) : 0); double B[3] = {0.5, 0.5, 0.5};
    if (d2 < sq(q.blast_radius)) state(c, q.blast_density_in, 0, 0, 0, q.blast_pressure_in, B); else state(c, q.blast_density_out, 0, 0, 0, q.blast_pressure_out, B);
  });
}
static void kh(ConfigMap &cm) {
  const std::string t = A->s("pert"); KHParams q(cm); q.p_rand = t == "rand"; q.p_sine_rob = t == "rob"; q.p_sine = t == "sine"; q.seed = 12; q.mode = A->i("n", 2);
  q.d_in = rho("d_in"); q.d_out = rho("d_out"); q.pressure = rho("p"); q.vflow_in = vel("v_in"); q.vflow_out = vel("v_out"); q.amplitude = sym("ampl", 0, 1); q.w0 = sym("w0", -1, 1); q.delta = sym("delta", 1.0 / 64, 1);
  APPLYM(InitKelvinHelmholtzFunctor2D, InitKelvinHelmholtzFunctor3D, InitKelvinHelmholtzFunctor2D_MHD, InitKelvinHelmholtzFunctor3D_MHD, q);
  cells([&](int *c) {
    const int a = dim - 1; double x = pos(c, 0), y = pos(c, 1), h = pos(c, a); const double B[3] = {0.5, 0, 0};
    if (t == "rand") {
      double lo = a == 1 ? P.ymin : P.zmin, hi = a == 1 ? P.ymax : P.zmax, n = (h - lo) / (hi - lo); bool out = n < 0.25 || n > 0.75; double d = out ? q.d_out : q.d_in, v[3] = {out ? q.vflow_out : q.vflow_in, 0, 0};
      claim_eq(u(c, ID), d, cn("density", c)); const int M[3] = {IU, IV, IW};
      for (int e = 0; e < dim; ++e) { claim_le(u(c, M[e]), d * (v[e] + 0.5 * q.amplitude), cn("perturbation at most half the amplitude", c)); claim_le(d * (v[e] - 0.5 * q.amplitude), u(c, M[e]), cn("perturbation at least minus half the amplitude", c)); }
      claim_eq(pressure(c), q.pressure, cn("pressure", c));
    } else {
      double d, vx, vy = 0, vz = 0;
      if (t == "rob") {
        double ramp = 1 / (1 + std::exp(2 * (h - 0.25) / q.delta)) + 1 / (1 + std::exp(2 * (0.75 - h) / q.delta));
        d = q.d_in + ramp * (q.d_out - q.d_in); vx = q.vflow_in + ramp * (q.vflow_out - q.vflow_in);
        if (dim == 2) vy = q.w0 * std::sin(q.mode * M_PI * x); else { vy = 0.5 * vx; vz = q.w0 * std::sin(q.mode * M_PI * x) * std::sin(q.mode * M_PI * y); }
      } else {
        bool inner = h >= 0.25 && h <= 0.75; d = inner ? q.d_in : q.d_out; vx = inner ? q.vflow_in : q.vflow_out; (dim == 2 ? vy : vz) = q.w0 * std::sin(q.mode * M_PI * x);
      }
      state(c, d, vx, vy, vz, q.pressure, B);
    }
  });
}
static void gresho(ConfigMap &cm) {
  GreshoParams q(cm); q.rho0 = rho("rho0"); q.Ma = sym("Ma", 1.0 / 16, 0.5); APPLY(InitGreshoVortexFunctor2D, InitGreshoVortexFunctor3D, q);
  cells([&](int *c) {
    double x = pos(c, 0), y = pos(c, 1), r = std::sqrt(x * x + y * y), t = std::atan2(y, x), p0 = q.rho0 / (G * q.Ma * q.Ma), w, p;
    if (r < 0.2) { w = 5 * r; p = p0 + 12.5 * r * r; } else if (r < 0.4) { w = 2 - 5 * r; p = p0 + 12.5 * r * r + 4 * (1 - 5 * r - std::log(0.2) + std::log(r)); } else { w = 0; p = p0 - 2 + 4 * std::log(2.0); }
    state(c, q.rho0, -std::sin(t) * w, std::cos(t) * w, 0, p);
  });
}
static void quadrant(ConfigMap &) {
  HydroState2d s[4]; for (int a = 0; a < 4; ++a) for (int v = 0; v < 4; ++v) s[a][v] = sym("s" + S(a) + "_" + S(v), -4, 4); double xt = sym("xt", -1, 1), yt = sym("yt", -1, 1); int conf = A->i("conf");
  { InitFourQuadrantFunctor2D::apply(P, U2, conf, s[0], s[1], s[2], s[3], xt, yt); Kokkos::fence(); }
  cells([&](int *c) { bool r = !(pos(c, 0) < xt), t = !(pos(c, 1) < yt); int q = r ? (t ? 0 : 3) : (t ? 1 : 2); for (int v = 0; v < 4; ++v) claim_eq(u(c, v), s[q][v], cn("quadrant state " + S(v), c)); });
}
static void vortex(ConfigMap &cm) {
  IsentropicVortexParams q(cm); q.rho_a = rho("rho_a"); q.T_a = sym("T_a", 0.5, 4); q.u_a = vel("u_a"); q.v_a = vel("v_a"); q.vortex_x = sym("cx", -1, 1); q.vortex_y = sym("cy", -1, 1); q.beta = sym("beta", -5, 5);
  InitIsentropicVortexFunctor2D::apply(P, q, U2); Kokkos::fence();
  cells([&](int *c) {
    double x = pos(c, 0) - q.vortex_x, y = pos(c, 1) - q.vortex_y, r = std::sqrt(x * x + y * y), f = q.beta / (2 * M_PI) * std::exp(0.5 * (1 - r * r));
    double T = q.T_a - (G - 1) * q.beta * q.beta / (8 * G * M_PI * M_PI) * std::exp(1 - r * r), d = q.rho_a * std::pow(T / q.T_a, 1 / (G - 1)); state(c, d, q.u_a - y * f, q.v_a + x * f, 0, d * T);
  });
}
static void strat(ConfigMap &cm, bool bubble) {    // stratified problems: Rayleigh-Taylor instability and rising bubble
  double gv[3] = {sym("gx", -0.25, 0.25), sym("gy", -0.25, 0.25), sym("gz", -0.25, 0.25)}; if (dim == 2) gv[2] = 0; const bool alloc = A->i("grav", 1);
  if (alloc) { if (dim == 2) g2 = VectorField2d("g", N[0], N[1]); else g3 = VectorField3d("g", N[0], N[1], N[2]); }
  RayleighTaylorInstabilityParams t(cm); RisingBubbleParams b(cm);
  if (bubble) { b.R = sym("R", 1.0 / 16, 1); b.x0 = sym("cx", -1, 1); b.y0 = sym("cy", -1, 1); b.z0 = sym("cz", -1, 1); b.din = rho("din"); b.dout = rho("dout"); b.gx = gv[0]; b.gy = gv[1]; b.gz = gv[2]; APPLYG(RisingBubbleFunctor2D, RisingBubbleFunctor3D, b); }
  else { t.amplitude = sym("ampl", -2, 2); t.d0 = rho("d0"); t.d1 = rho("d1"); t.gx = gv[0]; t.gy = gv[1]; t.gz = gv[2]; APPLYG(RayleighTaylorInstabilityFunctor2D, RayleighTaylorInstabilityFunctor3D, t); }
  cells([&](int *c) {
    double x[3] = {pos(c, 0), pos(c, 1), dim == 3 ? pos(c, 2) : 0}, d, m = 0, p = 1; const int a = dim - 1;
    if (bubble) { double r = std::sqrt(sq(x[0] - b.x0) + sq(x[1] - b.y0) + (dim == 3 ? sq(x[2] - b.z0) : 0)); d = r < b.R ? b.din : b.dout; }
    else { double mid = a == 1 ? (P.ymin + P.ymax) / 2 : (P.zmin + P.zmax) / 2; d = x[a] > mid ? t.d1 : t.d0; m = t.amplitude * (1 + std::cos(2 * M_PI * x[0] / (P.xmax - P.xmin))) * (1 + std::cos(2 * M_PI * x[1] / (P.ymax - P.ymin))) / 4; }
    for (int e = 0; e < dim; ++e) p += d * gv[e] * x[e];
    claim_eq(u(c, ID), d, cn("density", c)); const int M[3] = {IU, IV, IW}; for (int e = 0; e < dim; ++e) claim_eq(u(c, M[e]), e == a ? m : 0.0, cn(std::string("momentum ") + "xyz"[e], c)); claim_eq(pressure(c), p, cn("pressure", c));
    if (alloc) for (int e = 0; e < dim; ++e) claim_eq(dim == 2 ? g2(c[0], c[1], e) : g3(c[0], c[1], c[2], e), gv[e], cn(std::string("gravity ") + "xyz"[e], c));
  });
}
static void disk(ConfigMap &cm) {
  DiskParams q(cm); PointSourceGravity g(cm); g.GM = sym("GM", 0.125, 4); g.eps = sym("eps", 1.0 / 64, 0.25); g.xs = sym("xs", -1, 1); g.ys = sym("ys", -1, 1); g.zs = sym("zs", -1, 1);
  q.radius = sym("radius", 0.25, 1); q.radius_inner = sym("radius_inner", 1.0 / 64, 0.125); q.ref_density = rho("rho0"); q.contrast_density = sym("contrast", 2, 128); q.contrast_width = sym("width", 1.0 / 64, 0.25); q.ref_sound_speed = sym("cs", 1.0 / 16, 2);
  const bool centre = A->i("centre"); q.xc = centre ? 0.0 : sym("cx", -1, 1); q.yc = centre ? 0.0 : sym("cy", -1, 1); q.zc = sym("cz", -1, 1);
  if (dim == 2) g2 = VectorField2d("g", N[0], N[1]); else g3 = VectorField3d("g", N[0], N[1], N[2]);
  if (dim == 2) InitDiskFunctor2D::apply(P, q, g, U2, g2); else InitDiskFunctor3D::apply(P, q, g, U3, g3);
  Kokkos::fence();
  cells([&](int *c) {
    double x = pos(c, 0) - q.xc, y = pos(c, 1) - q.yc, r = std::sqrt(x * x + y * y), rr = r < q.radius_inner ? q.radius_inner : r, cs = q.ref_sound_speed / std::sqrt(rr / q.radius), d = u(c, ID);
    claim_le(1e-6, d, cn("density positive", c), 1e-12, 1e-6);
    if (centre) { claim_eq(u(c, IU), 0, cn("no momentum on the axis", c)); claim_eq(u(c, IV), 0, cn("no momentum on the axis", c)); }
    else { claim_eq(u(c, IU) * x + u(c, IV) * y, 0, cn("rotation about the axis", c)); claim_eq(pressure(c), cs * cs * d, cn("pressure", c), 1e-9); }
    if (dim == 3) claim_eq(u(c, IW), 0, cn("momentum z", c));
  });
}
static void orszag(ConfigMap &cm) {
  OrszagTangParams q(cm); q.kt = sym("kt", 0, 2); APPLY(InitOrszagTangFunctor2D, InitOrszagTangFunctor3D, q); const double tp = 2 * M_PI, B0 = 1 / std::sqrt(4 * M_PI);
  cells([&](int *c) {
    double x = pos(c, 0), y = pos(c, 1), k = dim == 3 ? std::cos(2 * tp * q.kt * (pos(c, 2) - P.zmin) / (P.zmax - P.zmin)) : 1, d = G * G / (4 * M_PI), B[3] = {-B0 * k * std::sin(y * tp), B0 * k * std::sin(2 * x * tp), 0};
    if (c[0] + 1 < N[0] && c[1] + 1 < N[1] && (dim == 2 || c[2] + 1 < N[2])) { state(c, d, -std::sin(y * tp), std::sin(x * tp), 0, G / (4 * M_PI), B, false); divfree(c); }
  });
}
static void rotor(ConfigMap &cm) {
  RotorParams q(cm); q.r0 = sym("r0", 1.0 / 16, 0.25); q.r1 = q.r0 + sym("taper", 1.0 / 64, 0.25); q.u0 = vel("u0"); q.p0 = rho("p0"); q.b0 = vel("b0"); APPLY(InitRotorFunctor2D_MHD, InitRotorFunctor3D_MHD, q);
  cells([&](int *c) {
    double x = pos(c, 0) - (P.xmin + P.xmax) / 2, y = pos(c, 1) - (P.ymin + P.ymax) / 2, r = std::sqrt(x * x + y * y), B[3] = {q.b0, 0, 0}, d, w;   // w: angular velocity
    if (r <= q.r0) { d = 10; w = q.u0 / q.r0; } else if (r <= q.r1) { double f = (q.r1 - r) / (q.r1 - q.r0); d = 1 + 9 * f; w = f * q.u0 / r; } else { d = 1; w = 0; }
    state(c, d, -y * w, x * w, 0, q.p0, B);
  });
}
static void loop(ConfigMap &cm) {
  FieldLoopParams q(cm); q.radius = sym("radius", 0.125, 1); q.density_in = rho("rho_in"); q.amplitude = sym("ampl", -1, 1); q.vflow = vel("vflow"); APPLY(InitFieldLoopFunctor2D_MHD, InitFieldLoopFunctor3D_MHD, q);
  cells([&](int *c) {
    if (!in(c)) return; double x = pos(c, 0), y = pos(c, 1), d = std::sqrt(x * x + y * y) < q.radius ? q.density_in : 1, ct = 2 / std::sqrt(5.0), vz = dim == 3 ? q.vflow : q.vflow / std::sqrt(1.0 * P.nx * P.nx + P.ny * P.ny + 1);
    claim_eq(u(c, ID), d, cn("density", c)); claim_eq(u(c, IU), d * q.vflow * ct, cn("momentum x", c)); claim_eq(u(c, IV), d * q.vflow * ct / 2, cn("momentum y", c)); claim_eq(u(c, IW), d * vz, cn("momentum z", c)); claim_eq(u(c, IC), 0, cn("field z", c));
    bool inner = true; for (int e = 0; e < dim; ++e) { int n[3] = {c[0], c[1], c[2]}; n[e]++; inner = inner && in(n); }
    claim_eq(pressure(c, false), 1, cn("pressure", c)); if (inner) divfree(c);
  });
}
static void wave(ConfigMap &cm) {
  WaveParams q(cm); q.wave_amplitude = sym("ampl", 0, 0.125); q.dby = sym("dby", -0.25, 0.25); q.dbz = sym("dbz", -0.25, 0.25); q.bx0 = vel("bx0"); q.by0 = vel("by0"); q.bz0 = vel("bz0"); q.k_par = sym("k", 0.5, 8); InitWaveFunctor3D_MHD::apply(P, q, U3); Kokkos::fence();
  cells([&](int *c) { if (!in(c)) return; claim_le(0.5, u(c, ID), cn("density positive", c)); divfree(c); });
}
int main(int argc, char **argv) {
  A = new Args(argc, argv); Kokkos::initialize();
  {
    ConfigMap cm = A->config(); const std::string prob = A->s("prob"); dim = A->i("dim"); mhd = A->i("mhd"); gw = A->i("gw");
    { Quiet q; P.setup(cm); }
    for (int d = 0; d < 3; ++d) N[d] = A->i(std::string("n") + "xyz"[d], 1); if (dim == 2) N[2] = 1;
    P.ghostWidth = gw; P.isize = N[0]; P.jsize = N[1]; P.ksize = N[2]; P.nx = N[0] - 2 * gw; P.ny = N[1] - 2 * gw; P.nz = dim == 3 ? N[2] - 2 * gw : 1;
    if (P.nx < 1) P.nx = 3; if (P.ny < 1) P.ny = 3; if (P.nz < 1) P.nz = 3;
    G = sym("gamma", 1.125, 2); P.settings.gamma0 = G;
    P.dx = sym("dx", 1.0 / 64, 0.5); P.dy = sym("dy", 1.0 / 64, 0.5); P.dz = sym("dz", 1.0 / 64, 0.5); P.xmin = sym("xmin", -1, 1); P.ymin = sym("ymin", -1, 1); P.zmin = sym("zmin", -1, 1);
    if (A->i("centre")) { P.dx = P.dy = 0.25; P.xmin = P.ymin = -0.125; }
    P.xmax = P.xmin + P.nx * P.dx; P.ymax = P.ymin + P.ny * P.dy; P.zmax = P.zmin + P.nz * P.dz;
    if (dim == 2) U2 = DataArray2d("U", N[0], N[1], P.nbvar); else U3 = DataArray3d("U", N[0], N[1], N[2], P.nbvar);
    if (prob == "implode") implode(cm); if (prob == "blast") blast(cm); if (prob == "kh") kh(cm); if (prob == "gresho") gresho(cm); if (prob == "quadrant") quadrant(cm); if (prob == "vortex") vortex(cm);
    if (prob == "rt") strat(cm, false); if (prob == "bubble") strat(cm, true); if (prob == "disk") disk(cm); if (prob == "ot") orszag(cm); if (prob == "rotor") rotor(cm); if (prob == "loop") loop(cm); if (prob == "wave") wave(cm);
  }
  rt_finish(); fflush(stdout); _Exit(0);
}
