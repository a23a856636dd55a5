// Whole-step harness for SolverMHDMuscl<2|3>: properties C02 C03 C04 C08 C09
#include "hsetup.h"
#ifdef STUB
// riemann_mhd and compute_emf are replaced by uninterpreted functions (with the symmetries proven by C07 when asked)
#include <Kokkos_Core.hpp>
#define riemann_mhd real_riemann_mhd
#define compute_emf real_compute_emf
#include "shared/RiemannSolvers_MHD.h"
#undef riemann_mhd
#undef compute_emf
namespace ppkMHD {
int stub_sym = 0;
inline void riemann_mhd(MHDState &ql, MHDState &qr, MHDState &f, const HydroParams &) {
  for (int v = 0; v < 8; ++v) f[v] = 0;
  int M = stub_sym ? 1 : 0;                       // 1: mirror, transverse reflections and exchange
  for (int sw = 0; sw <= M; ++sw) for (int m = 0; m <= M; ++m) for (int a = 0; a <= M; ++a) for (int b = 0; b <= M; ++b) {
    double s[16]; for (int side = 0; side < 2; ++side) { MHDState &q = (side ^ m) ? qr : ql; double *o = s + side * 8; for (int v = 0; v < 8; ++v) o[v] = q[v];
      // the solvers average the normal field first
      o[IA] = 0.5 * (ql[IA] + qr[IA]);
      if (m) { o[IU] = -o[IU]; o[IA] = -o[IA]; } if (a) { o[IV] = -o[IV]; o[IB] = -o[IB]; } if (b) { o[IW] = -o[IW]; o[IC] = -o[IC]; } if (sw) { std::swap(o[IV], o[IW]); std::swap(o[IB], o[IC]); } }
    double r[8]; for (int v = 0; v < 8; ++v) r[v] = v == IA ? 0.0 : rt_uf("riemann", v, 16, s);
    if (sw) { std::swap(r[IV], r[IW]); std::swap(r[IB], r[IC]); } if (a) { r[IV] = -r[IV]; r[IB] = -r[IB]; } if (b) { r[IW] = -r[IW]; r[IC] = -r[IC]; } if (m) for (int v = 0; v < 8; ++v) if (v != IU && v != IA) r[v] = -r[v];
    for (int v = 0; v < 8; ++v) f[v] = f[v] + r[v];
  }
}
template <EmfDir d> inline real_t compute_emf(MHDState (&q)[4], const HydroParams &, real_t = 0) {
  const int D = d == EMFX ? 0 : d == EMFY ? 1 : 2, x = (D + 1) % 3, y = (D + 2) % 3; double e = 0; int M = stub_sym ? 1 : 0; const int id[4] = {IRT, ILT, IRB, ILB};
  for (int sw = 0; sw <= M; ++sw) for (int mx = 0; mx <= M; ++mx) for (int my = 0; my <= M; ++my) for (int mz = 0; mz <= M; ++mz) {
    double s[32]; for (int k = 0; k < 4; ++k) { int kk = k; if (sw) kk = (kk == 1 ? 2 : kk == 2 ? 1 : kk); int src = kk ^ (mx ? (sw ? 1 : 1) : 0) ^ (my ? 2 : 0); MHDState &o = q[id[src]]; double *t = s + 8 * k;
      double u = o[IU + x], v = o[IU + y], w = o[IU + D], a = o[IA + x], b = o[IA + y], c = o[IA + D]; if (mx) { u = -u; a = -a; } if (my) { v = -v; b = -b; } if (mz) { w = -w; c = -c; } if (sw) { std::swap(u, v); std::swap(a, b); }
      t[0] = o[ID]; t[1] = o[IP]; t[2] = u; t[3] = v; t[4] = w; t[5] = a; t[6] = b; t[7] = c; }
    double r = rt_uf("emf", 0, 32, s); if (sw) r = -r; if (mx) r = -r; if (my) r = -r; e = e + r;
  }
  return e;
}
}
#include "muscl/SolverMHDMuscl.h"
#include "muscl/SolverMHDMuscl.cpp"
#else
#include "muscl/SolverMHDMuscl.h"
#endif
using namespace ppkMHD::muscl;
static double at(DataArray2d &a, int i, int j, int, int v) { return a(i, j, v); }
static double at(DataArray3d &a, int i, int j, int k, int v) { return a(i, j, k, v); }
static void put(DataArray2d &a, int i, int j, int, int v, double x) { a(i, j, v) = x; }
static void put(DataArray3d &a, int i, int j, int k, int v, double x) { a(i, j, k, v) = x; }
struct Geo { double d[3]; };
static bool cutT = false;
template <int dim> struct Sol : SolverMHDMuscl<dim> { double dt; Sol(HydroParams &p, ConfigMap &c) : SolverMHDMuscl<dim>(p, c), dt(0) {} double compute_dt_local() override { return dt; } };
template <int dim> struct Box {
  HydroParams P; Sol<dim> *s; int gw, n[3], nv; double gam;
  Box(ConfigMap &cm, int impl, const Geo &g) {
    P.setup(cm); if (impl >= 0) P.implementationVersion = impl; P.dx = g.d[0]; P.dy = g.d[1]; P.dz = g.d[2];
    { Quiet q; s = new Sol<dim>(P, cm); } gw = P.ghostWidth; n[0] = P.nx; n[1] = P.ny; n[2] = dim == 3 ? P.nz : 1; nv = P.nbvar; gam = P.settings.gamma0;
  }
  template <class F> void each(F f) { for (int k = 0; k < n[2]; ++k) for (int j = 0; j < n[1]; ++j) for (int i = 0; i < n[0]; ++i) f(i, j, k); }
  double in(int i, int j, int k, int v) { return at(s->U, i + gw, j + gw, k + gw, v); }
  double out(int i, int j, int k, int v) { return at(s->U2, i + gw, j + gw, k + gw, v); }
  void set(int i, int j, int k, int v, double x) { put(s->U, i + gw, j + gw, k + gw, v, x); }
  void step(double dt) { s->dt = dt; s->m_t = 0; s->m_dt = 0; s->m_tEnd = 1e6; Kokkos::fence(); s->godunov_unsplit_impl(s->U, s->U2); Kokkos::fence(); }
  int wrap(int x, int d) { return (x + n[d]) % n[d]; }
};
// primitive cell: density, pressure, velocity; face field: left faces.  In 2D the z component is cell centred.
struct Cell { double r, p, u[3], b[3]; };
static Cell cell(int dim, int i, int j, int k) {
  auto n = [&](const char *b) { return nm(b, i, j, dim == 3 ? k : -1); }; Cell q; const char *U[3] = {"u", "v", "w"}, *B[3] = {"a", "b", "c"};
  q.r = sym(n("r"), RHO_LO, RHO_HI); q.p = sym(n("p"), P_LO, P_HI); for (int d = 0; d < 3; ++d) { q.u[d] = sym(n(U[d]), -V_AB, V_AB); q.b[d] = sym(n(B[d]), -B_AB, B_AB); } return q;
}
// fills the interior: G(i,j,k) gives the cell of the global problem; energy uses the face averages
template <int dim, class G> void fill(Box<dim> &B, G g) {
  B.each([&](int i, int j, int k) { Cell q = g(i, j, k); double b[3]; int x[3] = {i, j, k};
    for (int d = 0; d < 3; ++d) { if (d >= dim) { b[d] = q.b[d]; continue; } int y[3] = {i, j, k}; y[d] = B.wrap(x[d] + 1, d); b[d] = 0.5 * (q.b[d] + g(y[0], y[1], y[2]).b[d]); }
    double e = q.p / (B.gam - 1) + 0.5 * q.r * (q.u[0] * q.u[0] + q.u[1] * q.u[1] + q.u[2] * q.u[2]) + 0.5 * (b[0] * b[0] + b[1] * b[1] + b[2] * b[2]);
    B.set(i, j, k, ID, q.r); B.set(i, j, k, IP, e); for (int d = 0; d < 3; ++d) { B.set(i, j, k, IU + d, q.r * q.u[d]); B.set(i, j, k, IA + d, q.b[d]); } });
}
template <int dim> int run(const Args &A) {
  if (A.i("tame")) tame(); ConfigMap cm = A.config(); std::string mode = A.s("mode"); double dt = sym("dt", DT_LO, DT_HI); Geo g;
#ifdef STUB
  stub_sym = mode == "perm" || mode == "mirror";
#endif
  const char *DN[3] = {"dx", "dy", "dz"}; for (int d = 0; d < 3; ++d) g.d[d] = d < dim && A.i("symgeo", 1) ? sym(DN[d], DX_LO, 1) : 0.5;
  Box<dim> B(cm, -1, g); int nv = B.nv; bool uni = mode == "uniform";
  auto src = [&](int i, int j, int k) { return uni ? cell(dim, 0, 0, 0) : cell(dim, i, j, k); };
  auto cname = [&](const char *p, int i, int j, int k) { return nm(p, i, j, dim == 3 ? k : -1); };
  fill(B, src); std::vector<double> in; B.each([&](int i, int j, int k) { for (int v = 0; v < nv; ++v) in.push_back(B.in(i, j, k, v)); });
  B.step(dt);
  if (mode == "conserve") { for (int v = 0; v < nv; ++v) { double a = 0, b = 0; size_t q = 0; B.each([&](int i, int j, int k) { a = a + in[q++ * nv + v]; b = b + B.out(i, j, k, v); }); claim_eq(b, a, "total " + S(v), 1e-8, 10); } }
  else if (uni) { size_t q = 0; B.each([&](int i, int j, int k) { for (int v = 0; v < nv; ++v) claim_eq(B.out(i, j, k, v), in[q * nv + v], cname("steady", i, j, k) + " var " + S(v), 1e-8, 10); ++q; }); }
  else if (mode == "divb") {
    auto div = [&](bool out, int i, int j, int k) { int x[3] = {i, j, k}; double s = 0; for (int d = 0; d < dim; ++d) { int y[3] = {i, j, k}; y[d] = B.wrap(x[d] + 1, d);
        auto get = [&](int *p) { return out ? B.out(p[0], p[1], p[2], IA + d) : in[(size_t)((p[2] * B.n[1] + p[1]) * B.n[0] + p[0]) * nv + IA + d]; }; s = s + (get(y) - get(x)) / g.d[d]; } return s; };
    B.each([&](int i, int j, int k) { claim_eq(div(true, i, j, k), div(false, i, j, k), cname("div B", i, j, k), 1e-8, 30); });
  } else if (mode == "impl") {
    Box<dim> D(cm, A.i("other", 1), g); fill(D, src); D.step(dt);
    B.each([&](int i, int j, int k) { for (int v = 0; v < nv; ++v) claim_eq(D.out(i, j, k, v), B.out(i, j, k, v), cname("cell", i, j, k) + " var " + S(v), 1e-8, 10); });
  } else {
    // second problem with permuted axes, or mirrored along one (face fields move to the other face)
    int pi[3] = {0, 1, 2}, m = -1; if (mode == "perm") { std::string ps = A.s("perm", "102"); for (int d = 0; d < 3; ++d) pi[d] = ps[d] - '0'; } else m = A.i("axis", 0);
    Geo g2; for (int d = 0; d < 3; ++d) g2.d[d] = g.d[pi[d]]; Box<dim> D(cm, -1, g2);
    auto org = [&](int i, int j, int k, int *o, bool face = false) { int x[3] = {i, j, k}; for (int d = 0; d < 3; ++d) o[pi[d]] = x[d]; if (m >= 0) { o[m] = B.n[m] - 1 - o[m]; if (face) o[m] = B.wrap(o[m] + 1, m); } };
    fill(D, [&](int i, int j, int k) { int o[3], f[3]; org(i, j, k, o); Cell q = src(o[0], o[1], o[2]), r = q; for (int d = 0; d < 3; ++d) { r.u[d] = q.u[pi[d]]; r.b[d] = q.b[pi[d]]; }
      if (m >= 0) { org(i, j, k, f, m < dim); r.u[m] = -r.u[m]; r.b[m] = -src(f[0], f[1], f[2]).b[m]; } return r; });
    D.step(dt);
    B.each([&](int i, int j, int k) { int o[3], f[3]; org(i, j, k, o); for (int v : {(int)ID, (int)IP}) claim_eq(D.out(i, j, k, v), B.out(o[0], o[1], o[2], v), cname("cell", i, j, k) + " var " + S(v), 1e-8, 10);
      for (int d = 0; d < 3; ++d) { double w = B.out(o[0], o[1], o[2], IU + pi[d]), b = B.out(o[0], o[1], o[2], IA + pi[d]); if (d == m) { org(i, j, k, f, true); w = -w; b = -B.out(f[0], f[1], f[2], IA + d); }
        claim_eq(D.out(i, j, k, IU + d), w, cname("cell", i, j, k) + " var " + S(IU + d), 1e-8, 10); claim_eq(D.out(i, j, k, IA + d), b, cname("cell", i, j, k) + " var " + S(IA + d), 1e-8, 10); } });
  }
  return 0;
}
int main(int argc, char **argv) {
  Args A(argc, argv); Kokkos::initialize();
  { if (A.ini["run.solver_name"] == "MHD_Muscl_2D") run<2>(A); else run<3>(A); }
  rt_finish(); fflush(stdout); _Exit(0);
}
