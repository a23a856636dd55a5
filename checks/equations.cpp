// C20: the Euler equations used by the spectral-difference solver: conversions, fluxes, viscous fluxes, speed of sound, eigenvectors
#include "hsetup.h"
#include "shared/EulerEquations.h"
using namespace ppkMHD;
static Args *A;
static double ab(double x) { return std::fabs(x); }
template <int dim> struct Eq {
  using E = EulerEquations<dim>; using St = typename E::HydroState;
  static constexpr int NV = dim + 2; static constexpr int M[3] = {IU, IV, IW};
  static St cons(const std::string &n) { St q; for (int v = 0; v < NV; ++v) q[v] = sym(n + S(v), v == ID ? 0.125 : -8, 8); return q; }
  template <int d> static void flux(const St &q, double p, St &f) { if constexpr (d == 0) E::flux_x(q, p, f); else if constexpr (d == 1) E::flux_y(q, p, f); else if constexpr (dim == 3) E::flux_z(q, p, f); }
  using G = typename E::GradTensor; using V = typename E::Vector;
  template <int d> static void fvisc(const G &g, const V &v, const V &f, double mu, St &o) { if constexpr (d == 0) E::flux_visc_x(g, v, f, mu, o); else if constexpr (d == 1) E::flux_visc_y(g, v, f, mu, o); else if constexpr (dim == 3) E::flux_visc_z(g, v, f, mu, o); }
  static double grad(const G &g, int comp, int dir) {     // d(velocity comp)/d(dir)
    if constexpr (dim == 2) { int t[2][2] = {{E::U_X, E::U_Y}, {E::V_X, E::V_Y}}; return g[t[comp][dir]]; }
    else { int t[3][3] = {{E::U_X, E::U_Y, E::U_Z}, {E::V_X, E::V_Y, E::V_Z}, {E::W_X, E::W_Y, E::W_Z}}; return g[t[comp][dir]]; }
  }
  static void thermo(double gamma) {
    std::string L = "thermo" + S(dim) + "d "; St q = cons("q"), w; double mm = 0; for (int d = 0; d < dim; ++d) mm += q[M[d]] * q[M[d]];
    double p = (gamma - 1) * (q[IE] - 0.5 * mm / q[ID]), fl = 1e-7 * q[ID], ref = p > fl ? p : fl;
    E::convert_to_primitive(q, w, gamma);
    claim_eq(w[ID], q[ID], L + "density"); for (int d = 0; d < dim; ++d) claim_eq(w[M[d]] * q[ID], q[M[d]], L + "velocity " + S(d));
    claim_eq(w[IP], ref, L + "pressure"); claim_eq(E::compute_pressure(q, gamma), ref, L + "compute_pressure");
    St z; z[ID] = sym("r", 0.125, 8); z[IP] = sym("p", 0.125, 8); for (int d = 0; d < dim; ++d) z[M[d]] = sym("u" + S(d), -2, 2);
    double c = E::compute_speed_of_sound(z, gamma); claim_le(0, c, L + "speed of sound positive"); claim_eq(c * c * z[ID], gamma * z[IP], L + "speed of sound");
  }
  template <int d> static void fluxes() {
    std::string L = "flux" + S(dim) + "d dir" + S(d) + " "; St q = cons("q"), f; double p = sym("p", -8, 8), un = q[M[d]] / q[ID];
    flux<d>(q, p, f); claim_eq(f[ID], q[M[d]], L + "mass"); claim_eq(f[IE], un * (q[IE] + p), L + "energy");
    for (int e = 0; e < dim; ++e) claim_eq(f[M[e]], un * q[M[e]] + (e == d ? p : 0), L + "momentum " + S(e));
    G g; V v, t; for (size_t i = 0; i < g.size(); ++i) g[i] = sym("g" + S(i), -2, 2); for (int i = 0; i < dim; ++i) { v[i] = sym("v" + S(i), -2, 2); t[i] = sym("t" + S(i), -2, 2); }
    double mu = sym("mu", 0, 2), div = 0, work = t[d]; for (int e = 0; e < dim; ++e) div += grad(g, e, e);
    fvisc<d>(g, v, t, mu, f); claim_eq(f[ID], 0, L + "viscous mass");
    for (int e = 0; e < dim; ++e) { double tau = mu * (grad(g, d, e) + grad(g, e, d)) - (e == d ? 2 * mu * div / dim : 0); claim_eq(f[M[e]], tau, L + "viscous momentum " + S(e)); work += v[e] * tau; }
    claim_eq(f[IE], work, L + "viscous energy");
  }
  template <int d> static void eigen(double gamma) {
    std::string L = "eigen" + S(dim) + "d dir" + S(d) + " "; St q; double r = sym("r", 0.125, 8), c = sym("c", 0.125, 8), u[3], V2 = 0;
    q[ID] = r; for (int e = 0; e < dim; ++e) { u[e] = sym("u" + S(e), -2, 2); q[M[e]] = r * u[e]; V2 += u[e] * u[e]; }
    double p = r * c * c / gamma; q[IE] = p / (gamma - 1) + 0.5 * r * V2;
    St x; for (int v = 0; v < NV; ++v) x[v] = sym("x" + S(v), -2, 2);
    St y = x; E::template cons_to_charac<d>(y, q, c, gamma); E::template charac_to_cons<d>(y, q, c, gamma); for (int v = 0; v < NV; ++v) claim_eq(y[v], x[v], L + "to characteristic and back " + S(v));
    y = x; E::template charac_to_cons<d>(y, q, c, gamma); E::template cons_to_charac<d>(y, q, c, gamma); for (int v = 0; v < NV; ++v) claim_eq(y[v], x[v], L + "from characteristic and back " + S(v));
    for (int k = 0; k < NV; ++k) {
      St e; for (int v = 0; v < NV; ++v) e[v] = v == k; E::template charac_to_cons<d>(e, q, c, gamma);
      double lam = u[d] + (k == ID ? -c : k == IE ? c : 0), dp = e[IE] + 0.5 * V2 * e[ID]; for (int m = 0; m < dim; ++m) dp -= u[m] * e[M[m]]; dp *= gamma - 1;
      double dun = (e[M[d]] - u[d] * e[ID]) / r; std::string l = L + "wave " + S(k) + " ";
      claim_eq(e[M[d]], lam * e[ID], l + "mass");
      for (int m = 0; m < dim; ++m) claim_eq(e[M[d]] * u[m] + u[d] * (e[M[m]] - u[m] * e[ID]) + (m == d ? dp : 0), lam * e[M[m]], l + "momentum " + S(m));
      claim_eq(dun * (q[IE] + p) + u[d] * (e[IE] + dp), lam * e[IE], l + "energy");
    }
  }
  static void run() {
    double gamma = sym("gamma", 1.0625, 3); std::string m = A->s("mode"), dd = A->s("dir", "0");
    if (m == "thermo") thermo(gamma);
    else if (m == "flux") { fluxes<0>(); fluxes<1>(); if constexpr (dim == 3) fluxes<2>(); }
    else { if (dd == "0") eigen<0>(gamma); else if (dd == "1") eigen<1>(gamma); else if constexpr (dim == 3) eigen<2>(gamma); }
  }
};
int main(int argc, char **argv) {
  Args a(argc, argv); A = &a; Kokkos::initialize(argc, argv);
  if (a.i("dim", 2) == 2) Eq<2>::run(); else Eq<3>::run();
  rt_finish(); fflush(stdout); _Exit(0);
}
