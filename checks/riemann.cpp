// Function-level harness for every Riemann solver a configuration can select, and for the
// edge electromotive force (C05, C06, C07).
#include "hsetup.h"
#include <cmath>
#include "shared/RiemannSolvers.h"
#include "shared/RiemannSolvers_MHD.h"
static HydroParams P; static double gam;
static double T(double x) { return x; }
template <int N> struct V { double x[N]; double &operator[](int i) { return x[i]; } double operator[](int i) const { return x[i]; } };
// ---- reference: conserved variables and physical flux along x
static const int NH = 8;                       // common layout: ID IP IU IV IW IA IB IC
typedef V<NH> St;
static int NV, dim; static bool mhd;
static St cons(const St &q) {
  St u; double k = 0; for (int d = 0; d < 3; ++d) k = k + q[IU + d] * q[IU + d]; double m = 0; for (int d = 0; d < 3; ++d) m = m + q[IA + d] * q[IA + d];
  u[ID] = q[ID]; for (int d = 0; d < 3; ++d) { u[IU + d] = q[ID] * q[IU + d]; u[IA + d] = q[IA + d]; } u[IP] = q[IP] / (gam - 1) + 0.5 * q[ID] * k + 0.5 * m; return u;
}
static St flux(const St &q) {
  St f, u = cons(q); double m = 0, vb = 0; for (int d = 0; d < 3; ++d) { m = m + q[IA + d] * q[IA + d]; vb = vb + q[IA + d] * q[IU + d]; } double pt = q[IP] + 0.5 * m;
  f[ID] = u[IU]; f[IP] = (u[IP] + pt) * q[IU] - q[IA] * vb; f[IU] = u[IU] * q[IU] + pt - q[IA] * q[IA]; f[IV] = u[IV] * q[IU] - q[IA] * q[IB]; f[IW] = u[IW] * q[IU] - q[IA] * q[IC];
  f[IA] = 0; f[IB] = q[IB] * q[IU] - q[IA] * q[IV]; f[IC] = q[IC] * q[IU] - q[IA] * q[IW]; return f;
}
// ---- calling the code under check; the flux is preset to unconstrained values
struct Res { St f, g; };
static int ncall = 0;
static Res call(const St &l, const St &r) {
  Res o; std::string t = S(ncall++); auto pre = [&](int v) { return sym("uninit" + t + "_" + S(v), 100, 200); };
  for (int v = 0; v < NH; ++v) o.f[v] = o.g[v] = 0;
  if (mhd) { MHDState a, b, f; for (int v = 0; v < 8; ++v) { a[v] = l[v]; b[v] = r[v]; f[v] = pre(v); } riemann_mhd(a, b, f, P); for (int v = 0; v < 8; ++v) o.f[v] = f[v]; }
  else if (dim == 2) { HydroState2d a, b, f, g; for (int v = 0; v < 4; ++v) { a[v] = l[v]; b[v] = r[v]; f[v] = pre(v); g[v] = 0; } riemann_hydro(a, b, g, f, P); for (int v = 0; v < 4; ++v) { o.f[v] = f[v]; o.g[v] = g[v]; } }
  else { HydroState3d a, b, f, g; for (int v = 0; v < 5; ++v) { a[v] = l[v]; b[v] = r[v]; f[v] = pre(v); g[v] = 0; } riemann_hydro(a, b, g, f, P); for (int v = 0; v < 5; ++v) { o.f[v] = f[v]; o.g[v] = g[v]; } }
  return o;
}
static double ulo = -V_AB, uhi = V_AB, rlo = RHO_LO, rhi = RHO_HI, plo = P_LO, phi = P_HI; static std::string zero;   // zero: components forced to 0
static St state(const std::string &t) {
  St q; for (int v = 0; v < NH; ++v) q[v] = 0; q[ID] = sym("r" + t, rlo, rhi); q[IP] = sym("p" + t, plo, phi); const char *n[3] = {"u", "v", "w"}, *b[3] = {"a", "b", "c"};
  auto z = [&](const char *c) { return zero.find(c) != std::string::npos; };
  for (int d = 0; d < (mhd ? 3 : dim); ++d) q[IU + d] = z(n[d]) ? 0.0 : d ? sym(n[d] + t, -V_AB, V_AB) : sym(n[d] + t, ulo, uhi);
  if (mhd) for (int d = 0; d < 3; ++d) q[IA + d] = z(b[d]) ? 0.0 : sym(b[d] + t, -B_AB, B_AB);
  return q;
}
static double mn(double a, double b) { return std::fmin(a, b); }
static double mx(double a, double b) { return std::fmax(a, b); }
static double fast(const St &q, int d = 0) { double b2 = q[IA] * q[IA] + q[IB] * q[IB] + q[IC] * q[IC], c2 = gam * q[IP] / q[ID]; double h = 0.5 * (b2 / q[ID] + c2); return std::sqrt(h + std::sqrt(h * h - c2 * q[IA + d] * q[IA + d] / q[ID])); }
static double csound(const St &q) { return mhd ? fast(q) : std::sqrt(gam * q[IP] / q[ID]); }
static const char *VN[8] = {"mass", "energy", "momentum n", "momentum t1", "momentum t2", "B n", "B t1", "B t2"};
static void cmp(const St &a, const St &b, const std::string &l) { for (int v = 0; v < NV; ++v) claim_eq(a[v], b[v], l + " flux of " + VN[v], 1e-8, 30); }
// ---- published formulas
static St ref_llf(const St &l, const St &r) { double c = mx(std::fabs(l[IU]) + csound(l), std::fabs(r[IU]) + csound(r)); St f, a = flux(l), b = flux(r), u = cons(l), w = cons(r); for (int v = 0; v < NH; ++v) f[v] = 0.5 * (a[v] + b[v] - c * (w[v] - u[v])); return f; }
static St ref_hll(const St &l, const St &r) {
  double c = mx(csound(l), csound(r)), sl = mn(mn(l[IU], r[IU]) - c, 0.0), sr = mx(mx(l[IU], r[IU]) + c, 0.0);
  St f, a = flux(l), b = flux(r), u = cons(l), w = cons(r); for (int v = 0; v < NH; ++v) f[v] = (sr * a[v] - sl * b[v] + sl * sr * (w[v] - u[v])) / (sr - sl); return f;
}
static St ref_hllc(const St &l, const St &r) {   // Toro (10.37)-(10.39)
  double c = mx(csound(l), csound(r)), sl = mn(l[IU], r[IU]) - c, sr = mx(l[IU], r[IU]) + c;
  double sm = (r[IP] - l[IP] + l[ID] * l[IU] * (sl - l[IU]) - r[ID] * r[IU] * (sr - r[IU])) / (l[ID] * (sl - l[IU]) - r[ID] * (sr - r[IU]));
  if (sl > 0) return flux(l); if (!(sr > 0)) return flux(r);
  bool left = sm > 0; const St &k = left ? l : r; double s = left ? sl : sr; St u = cons(k), f = flux(k), w; double m = k[ID] * (s - k[IU]) / (s - sm);
  w[ID] = m; w[IU] = m * sm; w[IV] = m * k[IV]; w[IW] = m * k[IW]; w[IP] = m * (u[IP] / k[ID] + (sm - k[IU]) * (sm + k[IP] / (k[ID] * (s - k[IU]))));
  for (int v : {(int)ID, (int)IP, (int)IU, (int)IV, (int)IW}) f[v] = f[v] + s * (w[v] - u[v]); return f;
}
static St ref_hlld(const St &l, const St &r) {   // Miyoshi & Kusano 2005, fluxes by the jump conditions across each wave
  double c = mx(fast(l), fast(r)), S[2] = {mn(l[IU], r[IU]) - c, mx(l[IU], r[IU]) + c}, a = l[IA]; const St *K[2] = {&l, &r};
  double pt[2], d[2]; for (int s = 0; s < 2; ++s) { const St &k = *K[s]; pt[s] = k[IP] + 0.5 * (a * a + k[IB] * k[IB] + k[IC] * k[IC]); d[s] = k[ID] * (S[s] - k[IU]); }
  double sm = (d[1] * r[IU] - d[0] * l[IU] - pt[1] + pt[0]) / (d[1] - d[0]); double ps = (d[1] * pt[0] - d[0] * pt[1] + d[0] * d[1] * (r[IU] - l[IU])) / (d[1] - d[0]);
  St u1[2], q1[2], u[2] = {cons(l), cons(r)}, f[2] = {flux(l), flux(r)}; double rs[2];
  for (int s = 0; s < 2; ++s) { const St &k = *K[s]; double den = k[ID] * (S[s] - k[IU]) * (S[s] - sm) - a * a; if (rt_symbolic()) rt_assume_lt(1e-6 * a * a, std::fabs(den)); double num = k[ID] * (S[s] - k[IU]) * (S[s] - k[IU]) - a * a; rs[s] = d[s] / (S[s] - sm);
    double v = k[IV] - a * k[IB] * (sm - k[IU]) / den, w = k[IW] - a * k[IC] * (sm - k[IU]) / den, b = k[IB] * num / den, cc = k[IC] * num / den;
    double vb = k[IU] * a + k[IV] * k[IB] + k[IW] * k[IC], vs = sm * a + v * b + w * cc;
    double e = ((S[s] - k[IU]) * u[s][IP] - pt[s] * k[IU] + ps * sm + a * (vb - vs)) / (S[s] - sm);
    q1[s][IV] = v; q1[s][IW] = w; q1[s][IB] = b; q1[s][IC] = cc; u1[s][ID] = rs[s]; u1[s][IU] = rs[s] * sm; u1[s][IV] = rs[s] * v; u1[s][IW] = rs[s] * w; u1[s][IP] = e; u1[s][IA] = a; u1[s][IB] = b; u1[s][IC] = cc; }
  double g0 = std::sqrt(rs[0]), g1 = std::sqrt(rs[1]), aa = std::fabs(a), A0 = sm - aa / g0, A1 = sm + aa / g1, sg = a >= 0 ? 1.0 : -1.0;
  if (S[0] > 0) return f[0]; if (!(S[1] > 0)) return f[1];
  auto jump = [&](int s, St x) { for (int v = 0; v < NH; ++v) x[v] = x[v] + S[s] * (u1[s][v] - u[s][v]); x[IP] = (u1[s][IP] + ps) * sm - a * (sm * a + q1[s][IV] * q1[s][IB] + q1[s][IW] * q1[s][IC]); return x; };
  if (A0 > 0) return jump(0, f[0]);
  if (!(sm > 0) && !(A1 > 0)) return jump(1, f[1]);
  int s = sm > 0 ? 0 : 1; double g = g0 + g1; St w;
  double v = (g0 * q1[0][IV] + g1 * q1[1][IV] + (q1[1][IB] - q1[0][IB]) * sg) / g, ww = (g0 * q1[0][IW] + g1 * q1[1][IW] + (q1[1][IC] - q1[0][IC]) * sg) / g;
  double b = (g0 * q1[1][IB] + g1 * q1[0][IB] + g0 * g1 * (q1[1][IV] - q1[0][IV]) * sg) / g, cc = (g0 * q1[1][IC] + g1 * q1[0][IC] + g0 * g1 * (q1[1][IW] - q1[0][IW]) * sg) / g;
  double vs = sm * a + q1[s][IV] * q1[s][IB] + q1[s][IW] * q1[s][IC], vss = sm * a + v * b + ww * cc; double e = u1[s][IP] + (s ? 1 : -1) * (s ? g1 : g0) * (vs - vss) * sg;
  // inside the two Alfven waves the flux is the physical one of the intermediate state
  w[ID] = rs[s] * sm; w[IU] = rs[s] * sm * sm + ps - a * a; w[IV] = rs[s] * sm * v - a * b; w[IW] = rs[s] * sm * ww - a * cc; w[IP] = (e + ps) * sm - a * vss; w[IA] = 0; w[IB] = b * sm - a * v; w[IC] = cc * sm - a * ww; return w;
}
// ---- electromotive force
static double emf(int d, const St *q) {   // q: RT, LT, RB, LB in the enum order of the code
  MHDState e[4]; int id[4] = {IRT, ILT, IRB, ILB}; for (int k = 0; k < 4; ++k) for (int v = 0; v < 8; ++v) e[id[k]][v] = q[k][v];
  return d == 2 ? compute_emf<EMFZ>(e, P) : d == 1 ? compute_emf<EMFY>(e, P) : compute_emf<EMFX>(e, P);
}
static St swapc(const St &q, int x, int y) { St o = q; o[IU + x] = q[IU + y]; o[IU + y] = q[IU + x]; o[IA + x] = q[IA + y]; o[IA + y] = q[IA + x]; return o; }
static St rot(const St &q) { St o = q; for (int d = 0; d < 3; ++d) { o[IU + (d + 1) % 3] = q[IU + d]; o[IA + (d + 1) % 3] = q[IA + d]; } return o; }
static St flip(const St &q, int x) { St o = q; o[IU + x] = -q[IU + x]; o[IA + x] = -q[IA + x]; return o; }
static void run_emf(const Args &A, const std::string &mode) {
  int d = A.i("emfdir", 2), x = (d + 1) % 3, y = (d + 2) % 3; bool one = mode == "consist"; mhd = true; const char *t[4] = {"RT", "LT", "RB", "LB"};
  St q[4]; for (int k = 0; k < 4; ++k) q[k] = state(one ? "" : t[k]);
  if (mode == "super") { int ax = A.i("axis", 0); double sg = A.i("dir", 1); (void)ax; // all four corner states flow the same way along both axes: corner the flow comes from
    double sx = A.i("dx", 1), sy = A.i("dy", 1); for (int k = 0; k < 4; ++k) { q[k][IU + x] = sx * sym(std::string("un") + t[k], 40, 44); q[k][IU + y] = sy * sym(std::string("ut") + t[k], 40, 44); } (void)sg; }
  double e = emf(d, q);
  // field components are averaged across the faces they are normal to: RT is the lower left corner cell, LB the upper right one
  auto bx = [&](int k) { return k < 2 ? 0.5 * (q[0][IA + x] + q[1][IA + x]) : 0.5 * (q[2][IA + x] + q[3][IA + x]); };
  auto by = [&](int k) { return k % 2 == 0 ? 0.5 * (q[0][IA + y] + q[2][IA + y]) : 0.5 * (q[1][IA + y] + q[3][IA + y]); };
  auto E = [&](int k) { return q[k][IU + x] * by(k) - q[k][IU + y] * bx(k); };
  if (one) claim_eq(e, E(0), "electromotive force of four identical states", 1e-8, 30);
  else if (mode == "super") { int k = (A.i("dx", 1) > 0 ? 0 : 1) + (A.i("dy", 1) > 0 ? 0 : 2); claim_eq(e, E(k), "electromotive force of the upwind corner", 1e-8, 100); }
  else if (mode == "swap") { St s[4] = {swapc(q[0], x, y), swapc(q[2], x, y), swapc(q[1], x, y), swapc(q[3], x, y)}; claim_eq(emf(d, s), -e, "exchange of the two axes changes the sign", 1e-8, 30); }
  else if (mode == "mirror") { St s[4] = {flip(q[1], x), flip(q[0], x), flip(q[3], x), flip(q[2], x)}; claim_eq(emf(d, s), -e, "reflection changes the sign", 1e-8, 30); }
  else if (mode == "rot") { St s[4]; for (int k = 0; k < 4; ++k) s[k] = rot(q[k]); claim_eq(emf((d + 1) % 3, s), e, "cyclic permutation of the axes", 1e-8, 30); }
  else if (mode == "neg") { St s[4]; for (int k = 0; k < 4; ++k) { s[k] = q[k]; for (int c = 0; c < 3; ++c) s[k][IA + c] = -q[k][IA + c]; } claim_eq(emf(d, s), -e, "reversing the field changes the sign", 1e-8, 30); }
}
int main(int argc, char **argv) {
  Args A(argc, argv); Kokkos::initialize();
  { ConfigMap cm = A.config(); { Quiet q; P.setup(cm); } std::string mode = A.s("mode"), kind = A.s("kind"); mhd = kind == "mhd"; dim = kind == "hydro2d" ? 2 : 3; NV = mhd ? 8 : dim == 2 ? 4 : 5; zero = A.s("zero");
    gam = sym("gamma", 1.1, 2); P.settings.gamma0 = gam; P.settings.gamma6 = (gam + 1) / (2 * gam); P.settings.smallp = P.settings.smallc * P.settings.smallc / gam; P.settings.smallpp = P.settings.smallr * P.settings.smallp;
    std::string rs = A.ini["hydro.riemann"]; int dir = A.i("dir", 1);
    if (kind == "emf") run_emf(A, mode);
    else if (mode == "consist") { St q = state(""); if (A.i("dir", 0)) q[IU] = dir * sym("un", 0.001, 40); Res o = call(q, q); cmp(o.f, flux(q), "consistency:"); if (rs == "approx" && !mhd) for (int v = 0; v < NV; ++v) claim_eq(o.g[v], q[v], std::string("consistency: interface state ") + VN[v], 1e-8, 10); }
    else if (mode == "super") {
      if (rs == "approx") { rlo = plo = 0.5; rhi = phi = 2; ulo = dir > 0 ? 10 : -11; uhi = dir > 0 ? 11 : -10; } else { ulo = dir > 0 ? -1 : -40; uhi = dir > 0 ? 40 : 1; }
      St l = state("l"), r = state("r"); if (mhd) r[IA] = l[IA];
      if (rs != "approx") { double c = mx(csound(l), csound(r)); if (dir > 0) rt_assume_lt(0.0, mn(l[IU], r[IU]) - c); else rt_assume_lt(mx(l[IU], r[IU]) + c, 0.0); }
      Res o = call(l, r); cmp(o.f, flux(dir > 0 ? l : r), dir > 0 ? "supersonic to the right:" : "supersonic to the left:"); }
    else if (mode == "formula") { St l = state("l"), r = state("r"); Res o = call(l, r); if (mhd) { double a = 0.5 * (l[IA] + r[IA]); l[IA] = r[IA] = a; }
      if (rs == "approx") { cmp(o.f, flux(o.g), "flux of the interface state:"); }
      else cmp(o.f, rs == "llf" ? ref_llf(l, r) : rs == "hll" ? ref_hll(l, r) : rs == "hllc" ? ref_hllc(l, r) : ref_hlld(l, r), "formula:"); }
    else if (mode == "mirror") { St l = state("l"), r = state("r"); Res o = call(l, r), m = call(flip(r, 0), flip(l, 0)); St e = o.f; for (int v = 0; v < NV; ++v) if (v != IU && v != IA) e[v] = -e[v]; cmp(m.f, e, "mirror:"); }
    else if (mode == "trans") { St l = state("l"), r = state("r"); Res o = call(l, r), m = call(swapc(l, 1, 2), swapc(r, 1, 2)); cmp(m.f, swapc(o.f, 1, 2), "transverse exchange:"); }
    else if (mode == "tflip") { St l = state("l"), r = state("r"); Res o = call(l, r), m = call(flip(l, 1), flip(r, 1)); cmp(m.f, flip(o.f, 1), "transverse reflection:"); }
    else if (mode == "neg") { St l = state("l"), r = state("r"); Res o = call(l, r); St a = l, b = r, e = o.f; for (int d = 0; d < 3; ++d) { a[IA + d] = -l[IA + d]; b[IA + d] = -r[IA + d]; e[IA + d] = -o.f[IA + d]; } Res m = call(a, b); cmp(m.f, e, "field reversal:"); }
  }
  rt_finish(); fflush(stdout); _Exit(0);
}
