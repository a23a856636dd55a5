// Whole-step harness for SolverHydroMuscl<2|3>: properties C01 C04 C08 C09 C17(step)
#include "hsetup.h"
#include <array>
#ifdef STUB
#include "hydro_step_stub.h"
namespace ppkMHD { int stub_swap = 0, stub_refl = 0; }
#include "muscl/SolverHydroMuscl.h"
#include "muscl/SolverHydroMuscl.cpp"
#else
#include "muscl/SolverHydroMuscl.h"
#endif
using namespace ppkMHD::muscl;
static double at(DataArray2d &a, int i, int j, int, int v) { return a(i, j, v); }
static double at(DataArray3d &a, int i, int j, int k, int v) { return a(i, j, k, v); }
static void put(DataArray2d &a, int i, int j, int, int v, double x) { a(i, j, v) = x; }
static void put(DataArray3d &a, int i, int j, int k, int v, double x) { a(i, j, k, v) = x; }

struct Geo { double dx, dy, dz; };
template <int dim> struct Box {
  HydroParams P; SolverHydroMuscl<dim> *s; int gw, nx, ny, nz, nv; double gam;
  Box(ConfigMap &cm, int impl, const Geo *g) {
    P.setup(cm); if (impl >= 0) P.implementationVersion = impl;
    if (g) { P.dx = g->dx; P.dy = g->dy; P.dz = g->dz; }
    { Quiet q; s = new SolverHydroMuscl<dim>(P, cm); }
    gw = P.ghostWidth; nx = P.nx; ny = P.ny; nz = dim == 3 ? P.nz : 1; nv = P.nbvar; gam = P.settings.gamma0;
  }
  template <class F> void each(F f) { for (int k = 0; k < nz; ++k) for (int j = 0; j < ny; ++j) for (int i = 0; i < nx; ++i) f(i, j, k); }
  // primitive state -> conservative cell
  void set(int i, int j, int k, double r, double p, double u, double v, double w) {
    i += gw; j += gw; k += gw; put(s->U, i, j, k, ID, r); put(s->U, i, j, k, IP, p / (gam - 1) + 0.5 * r * (u * u + v * v + w * w));
    put(s->U, i, j, k, IU, r * u); put(s->U, i, j, k, IV, r * v); if (dim == 3) put(s->U, i, j, k, IW, r * w);
  }
  double in(int i, int j, int k, int v) { return at(s->U, i + gw, j + gw, k + gw, v); }
  double out(int i, int j, int k, int v) { return at(s->U2, i + gw, j + gw, k + gw, v); }
  void step(double dt) { Kokkos::fence(); s->godunov_unsplit_impl(s->U, s->U2, dt); Kokkos::fence(); }
};
struct Prim { double r, p, u[3]; };
static Prim prim(int dim, int i, int j, int k) {
  auto n = [&](const char *b) { return nm(b, i, j, dim == 3 ? k : -1); }; Prim q;
  q.r = sym(n("r"), RHO_LO, RHO_HI); q.p = sym(n("p"), P_LO, P_HI); q.u[0] = sym(n("u"), -V_AB, V_AB); q.u[1] = sym(n("v"), -V_AB, V_AB); q.u[2] = dim == 3 ? sym(n("w"), -V_AB, V_AB) : 0; return q;
}
static void setg(VectorField2d &g, int i, int j, int, int d, double x) { g(i, j, d) = x; }
static void setg(VectorField3d &g, int i, int j, int k, int d, double x) { g(i, j, k, d) = x; }
// the published MUSCL-Hancock step, written from its definition: limited slopes of the primitive variables, half a time step of the
// primitive Euler equations, Riemann fluxes at the faces, conservative update, time-centred gravity source
template <int dim, class G> void reference(const Args &A, Box<dim> &B, const Geo &g, double dt, bool grav, G gr) {
  const double h[3] = {g.dx, g.dy, g.dz}, gam = B.gam, sr = B.P.settings.smallr, type = B.P.settings.slope_type; const int N[3] = {B.nx, B.ny, B.nz}, nq = 2 + dim;
  struct Q { double v[5]; };     // r p u v w
  std::map<std::array<int, 3>, Q> q; std::map<std::array<int, 4>, Q> face;
  auto wrap = [&](std::array<int, 3> c) { for (int d = 0; d < 3; ++d) c[d] = (c[d] + 2 * N[d]) % N[d]; return c; };
  B.each([&](int i, int j, int k) { Prim p = prim(dim, i, j, k); q[{i, j, k}] = Q{{p.r, p.p, p.u[0], p.u[1], p.u[2]}}; });
  auto lim = [&](double a, double b) { if (type == 0) return 0.0; double c = 0.5 * (a + b), x = type * a, y = type * b, m = std::fmin(std::fabs(x), std::fabs(y)); m = x * y <= 0 ? 0.0 : m; double sg = c >= 0 ? 1.0 : -1.0; return sg * std::fmin(m, std::fabs(c)); };
  // states on the low (side 0) and high (side 1) face of every cell and direction: key {i,j,k,2*d+side}
  B.each([&](int i, int j, int k) {
    std::array<int, 3> c{i, j, k}; Q s[3], &o = q[c], t = o;
    for (int d = 0; d < dim; ++d) { auto l = c, r = c; --l[d]; ++r[d]; Q &a = q[wrap(l)], &b = q[wrap(r)]; for (int v = 0; v < nq; ++v) s[d].v[v] = lim(o.v[v] - a.v[v], b.v[v] - o.v[v]); }
    for (int d = 0; d < dim; ++d) { double k2 = 0.5 * dt / h[d], vn = o.v[2 + d], dv = s[d].v[2 + d]; t.v[0] = t.v[0] - k2 * (vn * s[d].v[0] + o.v[0] * dv); t.v[1] = t.v[1] - k2 * (vn * s[d].v[1] + gam * o.v[1] * dv); for (int e = 0; e < dim; ++e) t.v[2 + e] = t.v[2 + e] - k2 * (vn * s[d].v[2 + e] + (e == d ? s[d].v[1] / o.v[0] : 0.0)); }
    for (int d = 0; d < dim; ++d) for (int sd = 0; sd < 2; ++sd) { Q f = t; for (int v = 0; v < nq; ++v) f.v[v] = sd ? t.v[v] + 0.5 * s[d].v[v] : t.v[v] - 0.5 * s[d].v[v]; f.v[0] = std::fmax(sr, f.v[0]); if (grav) for (int e = 0; e < dim; ++e) f.v[2 + e] = f.v[2 + e] + 0.5 * dt * gr(i, j, k, e); face[{i, j, k, 2 * d + sd}] = f; }
  });
  using St = typename std::conditional<dim == 2, HydroState2d, HydroState3d>::type; const int M[3] = {IU, IV, IW};
  auto flux = [&](std::array<int, 3> c, int d, double *F) {     // flux through the low face of cell c along d
    auto l = c; --l[d]; c = wrap(c); l = wrap(l); St a, b, gd, f; for (int side = 0; side < 2; ++side) { St &x = side ? b : a; auto &cc = side ? c : l; Q &z = face[{cc[0], cc[1], cc[2], 2 * d + (side ? 0 : 1)}]; x[ID] = z.v[0]; x[IP] = z.v[1]; for (int e = 0; e < dim; ++e) x[M[e]] = z.v[2 + e]; std::swap(x[IU], x[M[d]]); }
    riemann_hydro(a, b, gd, f, B.P); std::swap(f[IU], f[M[d]]); for (int v = 0; v < nq; ++v) F[v] = f[v]; };
  B.each([&](int i, int j, int k) {
    std::array<int, 3> c{i, j, k}; double u[5]; for (int v = 0; v < nq; ++v) u[v] = B.in(i, j, k, v); double r0 = u[ID];
    for (int d = 0; d < dim; ++d) { double a[5], b[5]; auto r = c; ++r[d]; flux(c, d, a); flux(r, d, b); for (int v = 0; v < nq; ++v) u[v] = u[v] + dt / h[d] * (a[v] - b[v]); }
    if (grav) { double k0 = 0, k1 = 0, rn = std::fmax(sr, u[ID]); if (dim == 3) rn = u[ID]; for (int e = 0; e < dim; ++e) { k0 += u[M[e]] * u[M[e]]; u[M[e]] = u[M[e]] + 0.5 * dt * gr(i, j, k, e) * (r0 + rn); k1 += u[M[e]] * u[M[e]]; } double e0 = 0.5 * k0 / rn, e1 = 0.5 * k1 / rn; u[IP] = u[IP] + (e1 - e0); }
    for (int v = 0; v < nq; ++v) claim_eq(B.out(i, j, k, v), u[v], nm("cell", i, j, k) + " var " + S(v), 1e-8, 10); });
}
template <int dim> int run(const Args &A) {
  ConfigMap cm = A.config(); std::string mode = A.s("mode", "conserve");
#ifdef STUB
  stub_swap = mode == "perm" || mode == "ref"; stub_refl = mode == "mirror";
#endif
  double dt = sym("dt", DT_LO, DT_HI);
  Geo g{0.5, 0.5, 0.5}; if (A.i("symgeo")) { g.dx = sym("dx", 0.25, 1); g.dy = sym("dy", 0.25, 1); if (dim == 3) g.dz = sym("dz", 0.25, 1); }
  if (A.i("cubic")) { g.dx = g.dy = g.dz = sym("dx", 0.25, 1); }
  Box<dim> B(cm, -1, &g); int nv = B.nv; bool uni = mode == "uniform";
  B.each([&](int i, int j, int k) { Prim q = uni ? prim(dim, 0, 0, 0) : prim(dim, i, j, k); B.set(i, j, k, q.r, q.p, q.u[0], q.u[1], q.u[2]); });
  std::vector<double> in; B.each([&](int i, int j, int k) { for (int v = 0; v < nv; ++v) in.push_back(B.in(i, j, k, v)); });
  const bool grav = A.i("grav"); auto gr = [&](int i, int j, int k, int d) { i = (i + B.nx) % B.nx; j = (j + B.ny) % B.ny; k = (k + B.nz) % B.nz; return sym(nm("g", i, j, k) + "_" + S(d), -1, 1); };
  if (grav) for (int k = 0; k < (dim == 3 ? B.P.ksize : 1); ++k) for (int j = 0; j < B.P.jsize; ++j) for (int i = 0; i < B.P.isize; ++i) for (int d = 0; d < dim; ++d) { double v = gr(i + B.nx - B.gw, j + B.ny - B.gw, dim == 3 ? k + B.nz - B.gw : 0, d); setg(B.s->gravity, i, j, k, d, v); }
  B.step(dt);
  if (mode == "ref") { reference<dim>(A, B, g, dt, grav, gr); return 0; }
  if (mode == "conserve") {
    for (int v = 0; v < nv; ++v) { double a = 0, b = 0; size_t q = 0; B.each([&](int i, int j, int k) { a = a + in[q++ * nv + v]; b = b + B.out(i, j, k, v); }); claim_eq(b, a, "total " + S(v), 1e-8, 10); }
  } else if (uni) {
    size_t q = 0; B.each([&](int i, int j, int k) { for (int v = 0; v < nv; ++v) claim_eq(B.out(i, j, k, v), in[q * nv + v], nm("steady", i, j, k) + " var " + S(v), 1e-8, 10); ++q; });
  } else if (mode == "impl") {           // another implementation version on the same input
    Box<dim> D(cm, A.i("other", 1), &g);
    B.each([&](int i, int j, int k) { Prim q = prim(dim, i, j, k); D.set(i, j, k, q.r, q.p, q.u[0], q.u[1], q.u[2]); });
    D.step(dt);
    B.each([&](int i, int j, int k) { for (int v = 0; v < nv; ++v) claim_eq(D.out(i, j, k, v), B.out(i, j, k, v), nm("cell", i, j, k) + " var " + S(v), 1e-8, 10); });
  } else if (mode == "perm" || mode == "mirror") {
    // perm: axis d of the second problem is axis pi[d] of the first; mirror: axis m reversed
    int pi[3] = {0, 1, 2}, m = -1; if (mode == "perm") { std::string ps = A.s("perm", "102"); for (int d = 0; d < 3; ++d) pi[d] = ps[d] - '0'; } else m = A.i("axis", 0);
    double gg[3] = {g.dx, g.dy, g.dz}; Geo g2{gg[pi[0]], gg[pi[1]], gg[pi[2]]}; Box<dim> D(cm, -1, &g2); int n[3] = {B.nx, B.ny, B.nz}; const int M[3] = {IU, IV, IW};
    auto src = [&](int i, int j, int k, int *o) { int x[3] = {i, j, k}; for (int d = 0; d < 3; ++d) o[pi[d]] = x[d]; if (m >= 0) o[m] = n[m] - 1 - o[m]; };
    B.each([&](int i, int j, int k) { int o[3]; src(i, j, k, o); Prim q = prim(dim, o[0], o[1], o[2]); double u[3]; for (int d = 0; d < 3; ++d) u[d] = q.u[pi[d]]; if (m >= 0) u[m] = -u[m]; D.set(i, j, k, q.r, q.p, u[0], u[1], u[2]); });
    D.step(dt);
    B.each([&](int i, int j, int k) { int o[3]; src(i, j, k, o); for (int v : {(int)ID, (int)IP}) claim_eq(D.out(i, j, k, v), B.out(o[0], o[1], o[2], v), nm("cell", i, j, k) + " var " + S(v), 1e-8, 10);
      for (int d = 0; d < dim; ++d) { double w = B.out(o[0], o[1], o[2], M[pi[d]]); if (d == m) w = -w; claim_eq(D.out(i, j, k, M[d]), w, nm("cell", i, j, k) + " var " + S(M[d]), 1e-8, 10); } });
  }
  return 0;
}
int main(int argc, char **argv) {
  Args A(argc, argv);
  Kokkos::initialize();
  { if (A.ini["run.solver_name"] == "Hydro_Muscl_2D") run<2>(A); else run<3>(A); }
  rt_finish(); fflush(stdout); _Exit(0);
}
