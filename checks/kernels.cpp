// Cell kernels of the finite-volume schemes: limited slopes (C10), primitive conversion (C11),
// time step (C12), gravity source term (C17)
#include "hsetup.h"
#include "muscl/SolverHydroMuscl.h"
#include "muscl/SolverMHDMuscl.h"
using namespace ppkMHD::muscl;
#define fabs std::fabs
#define sqrt std::sqrt
static Args *A;
static const char *VN[8] = {"r", "p", "u", "v", "w", "a", "b", "c"};
// ---------------------------------------------------------------- C10
static void slope_claims(const std::string &l, double q, double qp, double qm, double s, double srev, int type) {
  double a = q - qm, b = qp - q;
  if (type == 0) { claim_eq(s, 0.0, l + " zero for type 0"); return; }
  claim_le(0.0, s * a, l + " sign left"); claim_le(0.0, s * b, l + " sign right");
  claim_le(fabs(s), 2 * fabs(a), l + " left face within range"); claim_le(fabs(s), 2 * fabs(b), l + " right face within range");
  claim_eq(srev, -s, l + " antisymmetric");
  if (!A->i("case")) return;
  double m = std::fmin(std::fmin(type * fabs(a), type * fabs(b)), 0.5 * fabs(a + b)), ref = a * b > 0 ? (a > 0 ? m : -m) : 0.0;
  claim_eq(s, ref, l + " limiter");
}
static double g(const std::string &n) { return sym(n, -2, 2); }
template <class St> static St state(const std::string &n, int nv) { St q; for (int v = 0; v < nv; ++v) q[v] = g(n + VN[v]); return q; }
// case c: 1..4 = signs of (centre - left, right - centre): ++ +- -+ --
static double nbv(double q, bool plus, const std::string &n) { int c = A->i("case") - 1; bool neg = plus ? (c & 1) : (c & 2); double d = sym("diff_" + n, 0.0009765625, 2); if (neg) d = -d; return plus ? q + d : q - d; }
template <class St> static St nbstate(const St &q, int k, int nv) { std::string n = "n" + S(k); if (!A->i("case")) return state<St>(n, nv); St x; for (int v = 0; v < nv; ++v) x[v] = nbv(q[v], k % 2 == 0, n + VN[v]); return x; }
template <class St> static St garbage(const std::string &n) { St q; for (size_t v = 0; v < q.size(); ++v) q[v] = g("undefined_" + n + VN[v]); return q; }
static int mode_slope() {
  auto cm = A->config(); HydroParams P; P.setup(cm); int type = A->i("type", 1); P.settings.slope_type = type; std::string k = A->s("kind");
  int flat = A->i("flat");      // 1: equal left and centre, 2: equal centre and right
  if (k == "hydro2d") {
    HydroBaseFunctor2D F(P); using St = HydroState2d; St q = state<St>("q", 4), x[4]; for (int n = 0; n < 4; ++n) x[n] = nbstate(q, n, 4);
    if (flat == 1) x[1] = x[3] = q; if (flat == 2) x[0] = x[2] = q;
    St dx = garbage<St>("dx"), dy = garbage<St>("dy"), ex = dx, ey = dy; F.slope_unsplit_hydro_2d(q, x[0], x[1], x[2], x[3], dx, dy); F.slope_unsplit_hydro_2d(q, x[1], x[0], x[3], x[2], ex, ey);
    for (int v = 0; v < 4; ++v) { slope_claims(k + " x " + VN[v], q[v], x[0][v], x[1][v], dx[v], ex[v], type); slope_claims(k + " y " + VN[v], q[v], x[2][v], x[3][v], dy[v], ey[v], type); }
  } else if (k == "hydro3d") {
    HydroBaseFunctor3D F(P); using St = HydroState3d; St q = state<St>("q", 5), x[6]; for (int n = 0; n < 6; ++n) x[n] = nbstate(q, n, 5);
    if (flat) for (int d = 0; d < 3; ++d) x[2 * d + (flat == 1)] = q;
    St d[3], e[3]; for (int i = 0; i < 3; ++i) d[i] = e[i] = garbage<St>("d" + S(i));
    F.slope_unsplit_hydro_3d(q, x[0], x[1], x[2], x[3], x[4], x[5], d[0], d[1], d[2]); F.slope_unsplit_hydro_3d(q, x[1], x[0], x[3], x[2], x[5], x[4], e[0], e[1], e[2]);
    for (int i = 0; i < 3; ++i) for (int v = 0; v < 5; ++v) slope_claims(k + " " + S(i) + " " + VN[v], q[v], x[2 * i][v], x[2 * i + 1][v], d[i][v], e[i][v], type);
  } else if (k == "mhd2d") {
    MHDBaseFunctor2D F(P); using St = MHDState; St q = state<St>("q", 8), x[4]; for (int n = 0; n < 4; ++n) x[n] = nbstate(q, n, 8);
    if (flat == 1) x[1] = x[3] = q; if (flat == 2) x[0] = x[2] = q;
    St nb[3][3]; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) nb[i][j] = garbage<St>("nb" + S(i) + S(j)); nb[1][1] = q; nb[2][1] = x[0]; nb[0][1] = x[1]; nb[1][2] = x[2]; nb[1][0] = x[3];
    St rb[3][3]; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) rb[i][j] = nb[2 - i][2 - j];
    St d[2] = {garbage<St>("d0"), garbage<St>("d1")}, e[2] = {d[0], d[1]}; F.slope_unsplit_hydro_2d(nb, d); F.slope_unsplit_hydro_2d(rb, e);
    for (int i = 0; i < 2; ++i) for (int v = 0; v < 8; ++v) slope_claims(k + " nb " + S(i) + " " + VN[v], q[v], x[2 * i][v], x[2 * i + 1][v], d[i][v], e[i][v], type);
    St o = garbage<St>("o"), r = o; F.slope_unsplit_hydro_2d(q, x[0], x[1], o); F.slope_unsplit_hydro_2d(q, x[1], x[0], r);
    for (int v = 0; v < 8; ++v) slope_claims(k + " one " + VN[v], q[v], x[0][v], x[1][v], o[v], r[v], type);
    real_t bf[6] = {q[IA], x[2][IA], x[3][IA], q[IB], x[0][IB], x[1][IB]}, br[6] = {q[IA], x[3][IA], x[2][IA], q[IB], x[1][IB], x[0][IB]}, db[2][3], dr[2][3]; F.slope_unsplit_mhd_2d(bf, db); F.slope_unsplit_mhd_2d(br, dr);
    slope_claims(k + " face bx along y", bf[0], bf[1], bf[2], db[IY][IX], dr[IY][IX], type); slope_claims(k + " face by along x", bf[3], bf[4], bf[5], db[IX][IY], dr[IX][IY], type);
    DataArray2d U("U", 3, 3, 8), V("V", 3, 3, 8); for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) for (int v = 0; v < 8; ++v) { U(i, j, v) = nb[i][j][v]; V(i, j, v) = nb[2 - i][2 - j][v]; }
    for (int v = IA; v <= IC; ++v) { slope_claims(k + " array x " + VN[v], q[v], x[0][v], x[1][v], F.compute_limited_slope<DIR_X>(U, 1, 1, v), F.compute_limited_slope<DIR_X>(V, 1, 1, v), type);
      slope_claims(k + " array y " + VN[v], q[v], x[2][v], x[3][v], F.compute_limited_slope<DIR_Y>(U, 1, 1, v), F.compute_limited_slope<DIR_Y>(V, 1, 1, v), type); }
  } else {
    MHDBaseFunctor3D F(P); using St = MHDState; St q = state<St>("q", 8), x[6]; for (int n = 0; n < 6; ++n) x[n] = nbstate(q, n, 8);
    if (flat) for (int d = 0; d < 3; ++d) x[2 * d + (flat == 1)] = q;
    St d[3], e[3]; for (int i = 0; i < 3; ++i) d[i] = e[i] = garbage<St>("d" + S(i));
    F.slope_unsplit_hydro_3d(q, x[0], x[1], x[2], x[3], x[4], x[5], d); F.slope_unsplit_hydro_3d(q, x[1], x[0], x[3], x[2], x[5], x[4], e);
    for (int i = 0; i < 3; ++i) for (int v = 0; v < 8; ++v) slope_claims(k + " " + S(i) + " " + VN[v], q[v], x[2 * i][v], x[2 * i + 1][v], d[i][v], e[i][v], type);
    St o = garbage<St>("o"), r = o; F.slope_unsplit_hydro_3d(q, x[0], x[1], o); F.slope_unsplit_hydro_3d(q, x[1], x[0], r);
    for (int v = 0; v < 8; ++v) slope_claims(k + " one " + VN[v], q[v], x[0][v], x[1][v], o[v], r[v], type);
    real_t bf[15], br[15], db[3][3], dr[3][3]; for (int i = 0; i < 15; ++i) bf[i] = i % 5 && A->i("case") ? nbv(bf[i - i % 5], i % 5 % 2 == 1, "bf" + S(i)) : g("bf" + S(i)); for (int i = 0; i < 15; i += 5) { if (flat) { bf[i + 1 + (flat == 1)] = bf[i]; bf[i + 3 + (flat == 1)] = bf[i]; } br[i] = bf[i]; br[i + 1] = bf[i + 2]; br[i + 2] = bf[i + 1]; br[i + 3] = bf[i + 4]; br[i + 4] = bf[i + 3]; }
    F.slope_unsplit_mhd_3d(bf, db); F.slope_unsplit_mhd_3d(br, dr);
    const int w[6][4] = {{0, 1, IY, IX}, {0, 3, IZ, IX}, {5, 6, IX, IY}, {5, 8, IZ, IY}, {10, 11, IX, IZ}, {10, 13, IY, IZ}};
    for (auto &y : w) slope_claims(k + " face b" + S(y[3]) + " along " + S(y[2]), bf[y[0]], bf[y[1]], bf[y[1] + 1], db[y[2]][y[3]], dr[y[2]][y[3]], type);
    DataArray3d U("U", 3, 3, 3, 8), V("V", 3, 3, 3, 8); for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) for (int l = 0; l < 3; ++l) for (int v = 0; v < 8; ++v) { U(i, j, l, v) = g("U" + S(i) + S(j) + S(l) + VN[v]); }
    for (int v = 0; v < 8; ++v) { U(1, 1, 1, v) = q[v]; U(2, 1, 1, v) = x[0][v]; U(0, 1, 1, v) = x[1][v]; U(1, 2, 1, v) = x[2][v]; U(1, 0, 1, v) = x[3][v]; U(1, 1, 2, v) = x[4][v]; U(1, 1, 0, v) = x[5][v]; }
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) for (int l = 0; l < 3; ++l) for (int v = 0; v < 8; ++v) V(i, j, l, v) = U(2 - i, 2 - j, 2 - l, v);
    for (int v = IA; v <= IC; ++v) { slope_claims(k + " array x " + VN[v], q[v], x[0][v], x[1][v], F.compute_limited_slope<DIR_X>(U, 1, 1, 1, v), F.compute_limited_slope<DIR_X>(V, 1, 1, 1, v), type);
      slope_claims(k + " array y " + VN[v], q[v], x[2][v], x[3][v], F.compute_limited_slope<DIR_Y>(U, 1, 1, 1, v), F.compute_limited_slope<DIR_Y>(V, 1, 1, 1, v), type);
      slope_claims(k + " array z " + VN[v], q[v], x[4][v], x[5][v], F.compute_limited_slope<DIR_Z>(U, 1, 1, 1, v), F.compute_limited_slope<DIR_Z>(V, 1, 1, 1, v), type); }
  }
  return 0;
}
// ---------------------------------------------------------------- C11
// conservative state c[8] with energy index IP; q the primitives; B the cell-centred field
static void prim_claims(const std::string &l, const double *u, const double *q, int nu, const double *B, const HydroParams &P, double cs, bool iso, bool free) {
  double sr = P.settings.smallr, sp = P.settings.smallp, gm = P.settings.gamma0;
  claim_le(sr, q[ID], l + " density floor"); if (!iso) claim_le(q[ID] * sp, q[IP], l + " pressure floor");
  if (B) for (int d = 0; d < 3; ++d) claim_eq(q[IA + d], B[d], l + " cell-centred field " + S(d));
  if (free) { claim_eq(q[ID], u[ID], l + " density"); double ke = 0, me = 0; for (int d = 0; d < nu; ++d) { claim_eq(q[ID] * q[IU + d], u[IU + d], l + " momentum " + S(d)); ke += q[ID] * q[IU + d] * q[IU + d]; } if (B) for (int d = 0; d < 3; ++d) me += B[d] * B[d];
    if (!iso) claim_eq(q[IP] / (gm - 1) + 0.5 * ke + 0.5 * me, u[IP], l + " total energy"); }
  else { double ke = 0; for (int d = 0; d < nu; ++d) { claim_eq(q[ID] * q[IU + d], u[IU + d], l + " momentum " + S(d)); } }
  if (iso) claim_eq(q[IP], q[ID] * P.settings.cIso * P.settings.cIso, l + " isothermal pressure");
  if (cs >= 0) claim_eq(cs * cs * q[ID], iso ? q[IP] : gm * q[IP], l + " sound speed");
}
static void cons(double *u, int nu, const std::string &n, bool free, const double *B, const HydroParams &P) {
  if (free) {   // from primitives well above the floors
    double r = sym(n + "r", RHO_LO, RHO_HI), p = sym(n + "p", P_LO, P_HI), e = p / (P.settings.gamma0 - 1); u[ID] = r; for (int d = 0; d < nu; ++d) { double v = sym(n + VN[2 + d], -V_AB, V_AB); u[IU + d] = r * v; e += 0.5 * r * v * v; }
    if (B) for (int d = 0; d < 3; ++d) e += 0.5 * B[d] * B[d]; u[IP] = e;
  } else { u[ID] = sym(n + "d", -2, 2); u[IP] = sym(n + "e", -2, 2); for (int d = 0; d < nu; ++d) u[IU + d] = sym(n + "m" + S(d), -2, 2); }
}
static int mode_prim() {
  auto cm = A->config(); HydroParams P; P.setup(cm); P.settings.gamma0 = sym("gamma", 1.125, 2); bool free = A->i("free", 1), iso = A->i("iso"); std::string k = A->s("kind");
  if (!free) { P.settings.smallr = sym("smallr", 0.03125, 0.5); P.settings.smallp = sym("smallp", 0.03125, 0.5); } if (iso) P.settings.cIso = sym("cIso", 0.25, 2);
  const int is = P.isize, js = P.jsize, ks = P.ksize; double *NB = nullptr;
  if (k == "hydro2d") { HydroBaseFunctor2D F(P); HydroState2d u, q; double c = 0, U_[4], Q_[4]; cons(U_, 2, "", free, NB, P); for (int v = 0; v < 4; ++v) u[v] = U_[v]; F.computePrimitives(u, &c, q); for (int v = 0; v < 4; ++v) Q_[v] = q[v]; prim_claims("cell", U_, Q_, 2, NB, P, c, iso, free); }
  if (k == "hydro3d") { HydroBaseFunctor3D F(P); HydroState3d u, q; double c = 0, U_[5], Q_[5]; cons(U_, 3, "", free, NB, P); for (int v = 0; v < 5; ++v) u[v] = U_[v]; F.computePrimitives(u, &c, q); for (int v = 0; v < 5; ++v) Q_[v] = q[v]; prim_claims("cell", U_, Q_, 3, NB, P, c, iso, free); }
  if (k[0] == 'h') {        // the kernel applied to the whole array, ghost cells included
    int D = k == "hydro2d" ? 2 : 3, nv = D + 2; DataArray2d a("a", is, js, 4), b("b", is, js, 4); DataArray3d a3("a3", is, js, D == 3 ? ks : 1, 5), b3("b3", is, js, D == 3 ? ks : 1, 5);
    for (int i = 0; i < is; ++i) for (int j = 0; j < js; ++j) for (int l = 0; l < (D == 3 ? ks : 1); ++l) { double u[5]; cons(u, D, nm("c", i, j, l), free, NB, P); for (int v = 0; v < nv; ++v) if (D == 2) a(i, j, v) = u[v]; else a3(i, j, l, v) = u[v]; }
    if (D == 2) ConvertToPrimitivesFunctor2D::apply(P, a, b); else ConvertToPrimitivesFunctor3D::apply(P, a3, b3); Kokkos::fence();
    for (int i = 0; i < is; ++i) for (int j = 0; j < js; ++j) for (int l = 0; l < (D == 3 ? ks : 1); ++l) { double u[5], q[5]; for (int v = 0; v < nv; ++v) { u[v] = D == 2 ? a(i, j, v) : a3(i, j, l, v); q[v] = D == 2 ? b(i, j, v) : b3(i, j, l, v); } prim_claims("array" + nm("", i, j, l), u, q, D, NB, P, -1, iso, free); }
    return 0;
  }
  int D = k == "mhd2d" ? 2 : 3;
  { double U_[8], Q_[8], nb[3], B[3], c = 0; for (int d = 0; d < 3; ++d) { U_[IA + d] = sym("b" + S(d), -B_AB, B_AB); nb[d] = sym("nb" + S(d), -B_AB, B_AB); B[d] = 0.5 * (U_[IA + d] + nb[d]); } cons(U_, 3, "", free, B, P);
    MHDState u, q; for (int v = 0; v < 8; ++v) u[v] = U_[v]; if (D == 2) MHDBaseFunctor2D(P).constoprim_mhd(u, nb, c, q); else MHDBaseFunctor3D(P).constoprim_mhd(u, nb, c, q); for (int v = 0; v < 8; ++v) Q_[v] = q[v]; prim_claims("cell", U_, Q_, 3, B, P, iso ? -1 : c, iso, free); if (iso) claim_eq(c, P.settings.cIso, "isothermal sound speed"); }
  DataArray2d a("a", is, js, 8), b("b", is, js, 8); int kk = D == 3 ? ks : 1; DataArray3d a3("a3", is, js, kk, 8), b3("b3", is, js, kk, 8);
  auto at = [&](int i, int j, int l, int v) -> double & { return D == 2 ? a(i, j, v) : a3(i, j, l, v); };
  for (int i = 0; i < is; ++i) for (int j = 0; j < js; ++j) for (int l = 0; l < kk; ++l) for (int d = 0; d < 3; ++d) at(i, j, l, IA + d) = sym(nm("B", i, j, l) + S(d), -B_AB, B_AB);
  auto cc = [&](int i, int j, int l, double *B) { B[0] = 0.5 * (at(i, j, l, IA) + at(i + 1, j, l, IA)); B[1] = 0.5 * (at(i, j, l, IB) + at(i, j + 1, l, IB)); B[2] = D == 3 ? 0.5 * (at(i, j, l, IC) + at(i, j, l + 1, IC)) : at(i, j, l, IC); };
  auto each = [&](auto f) { for (int i = 0; i + 1 < is; ++i) for (int j = 0; j + 1 < js; ++j) for (int l = 0; l < (D == 3 ? ks - 1 : 1); ++l) f(i, j, l); };
  each([&](int i, int j, int l) { double B[3], u[8]; cc(i, j, l, B); cons(u, 3, nm("c", i, j, l), free, B, P); for (int v = 0; v < IA; ++v) at(i, j, l, v) = u[v]; });
  if (D == 2) ConvertToPrimitivesFunctor2D_MHD::apply(P, a, b); else ConvertToPrimitivesFunctor3D_MHD::apply(P, a3, b3); Kokkos::fence();
  each([&](int i, int j, int l) { double B[3], u[8], q[8]; cc(i, j, l, B); for (int v = 0; v < 8; ++v) { u[v] = at(i, j, l, v); q[v] = D == 2 ? b(i, j, v) : b3(i, j, l, v); } prim_claims("array" + nm("", i, j, l), u, q, 3, B, P, -1, iso, free); });
  return 0;
}
// ---------------------------------------------------------------- C12
template <class So, int D, bool MHD> static int dt_run() {
  auto cm = A->config(); HydroParams P; P.setup(cm); P.settings.cfl = sym("cfl", 0.125, 1); if (A->i("symgamma")) P.settings.gamma0 = sym("gamma", 1.125, 2); double gm = P.settings.gamma0; P.dx = sym("dx", 0.25, 1); P.dy = sym("dy", 0.25, 1); P.dz = sym("dz", 0.25, 1);
  So *s; { Quiet q; s = new So(P, cm); } int gw = P.ghostWidth, nx = P.nx, ny = P.ny, nz = D == 3 ? P.nz : 1, nv = P.nbvar; s->m_t = 0; s->m_tEnd = 1e9; s->m_iteration = A->i("iter"); auto Ua = s->m_iteration % 2 ? s->U2 : s->U; auto Ub = s->m_iteration % 2 ? s->U : s->U2;
  auto at = [&](auto &U, int i, int j, int l, int v) -> double & { if constexpr (D == 2) return U(i, j, v); else return U(i, j, l, v); };
  double h[3] = {P.dx, P.dy, P.dz}, cfl = P.settings.cfl, best = 0; bool grav = A->i("grav");
  // the other array holds an unrelated state, the ghost cells of both hold extreme values
  auto all = [&](auto f) { for (int i = 0; i < P.isize; ++i) for (int j = 0; j < P.jsize; ++j) for (int l = 0; l < (D == 3 ? P.ksize : 1); ++l) f(i, j, l); };
  all([&](int i, int j, int l) { for (int v = 0; v < nv; ++v) { at(Ua, i, j, l, v) = 0; at(Ub, i, j, l, v) = 0; } at(Ua, i, j, l, ID) = 1; at(Ua, i, j, l, IP) = 1e5; at(Ub, i, j, l, ID) = 1; at(Ub, i, j, l, IP) = 1e5; at(Ub, i, j, l, IU) = 50; });
  auto inn = [&](auto f) { for (int l = 0; l < nz; ++l) for (int j = 0; j < ny; ++j) for (int i = 0; i < nx; ++i) f(i, j, l); };
  if (MHD) inn([&](int i, int j, int l) { for (int d = 0; d < 3; ++d) at(Ua, i + gw, j + gw, l + gw, IA + d) = sym(nm("B", i, j, l) + S(d), -B_AB, B_AB); });
  struct C { double v[3], c2, g[3], B[3], r, p; }; std::vector<C> cells; const int NU = MHD ? 3 : D;
  inn([&](int i, int j, int l) { C c; std::string n = nm("c", i, j, l); c.r = sym(n + "r", RHO_LO, RHO_HI); c.p = sym(n + "p", P_LO, P_HI); double e = c.p / (gm - 1); for (int d = 0; d < 3; ++d) { c.v[d] = d < NU ? sym(n + VN[2 + d], -V_AB, V_AB) : 0; c.g[d] = 0; c.B[d] = 0; e += 0.5 * c.r * c.v[d] * c.v[d]; }
    if (MHD) { int I[3] = {i, j, l}, N[3] = {nx, ny, nz}; for (int d = 0; d < 3; ++d) { int J[3] = {I[0], I[1], I[2]}; if (d < D) J[d] = (J[d] + 1) % N[d]; c.B[d] = 0.5 * (at(Ua, i + gw, j + gw, l + gw, IA + d) + at(Ua, J[0] + gw, J[1] + gw, J[2] + gw, IA + d)); e += 0.5 * c.B[d] * c.B[d]; } }
    at(Ua, i + gw, j + gw, l + gw, ID) = c.r; at(Ua, i + gw, j + gw, l + gw, IP) = e; for (int d = 0; d < NU; ++d) at(Ua, i + gw, j + gw, l + gw, IU + d) = c.r * c.v[d];
    if constexpr (!MHD) if (grav) for (int d = 0; d < D; ++d) { c.g[d] = sym(n + "g" + S(d), 0.125, 2) * (d == 1 ? -1 : 1); if constexpr (D == 2) s->gravity(i + gw, j + gw, d) = c.g[d]; else s->gravity(i + gw, j + gw, l + gw, d) = c.g[d]; }
    cells.push_back(c); });
  { Quiet q; s->next_iteration(); } double dt = s->m_dt; Kokkos::fence(); if (A->i("ret")) dt = s->compute_dt_local();
  int ci = 0; double hm = h[0]; for (int d = 1; d < D; ++d) hm = std::fmin(hm, h[d]);
  for (auto &c : cells) { std::string l = "cell " + S(ci++); double sum = 0, c2 = gm * c.p / c.r, b2 = c.B[0] * c.B[0] + c.B[1] * c.B[1] + c.B[2] * c.B[2], dd = 0.5 * (b2 / c.r + c2), us = 0, gs = 0;
    for (int d = 0; d < D; ++d) { double cd = MHD ? sqrt(dd + sqrt(dd * dd - c2 * c.B[d] * c.B[d] / c.r)) : sqrt(c2); sum += (cd + fabs(c.v[d])) / h[d]; us += cd + fabs(c.v[d]); gs += fabs(c.g[d]); }
    if (grav) { double k = gs * cfl * hm / (us * us); if (nx * ny * nz == 1) { if (k > 1e-4) claim_eq(dt * us / hm + 0.5 * gs * dt * dt / hm, cfl, l + " CFL with acceleration"); else claim_le(dt * us / hm, cfl, l + " CFL"); } k = std::fmax(k, 1e-4); sum = us * k / (sqrt(1.0 + 2.0 * k) - 1.0) / hm; }
    best = std::fmax(best, sum); }
  claim_eq(dt * best, cfl, "largest time step allowed by the CFL condition of every cell"); return 0;
}
static int mode_dt() { std::string k = A->s("kind"); if (k == "hydro2d") return dt_run<SolverHydroMuscl<2>, 2, false>(); if (k == "hydro3d") return dt_run<SolverHydroMuscl<3>, 3, false>(); if (k == "mhd2d") return dt_run<SolverMHDMuscl<2>, 2, true>(); return dt_run<SolverMHDMuscl<3>, 3, true>(); }
// ---------------------------------------------------------------- C17
template <int D> static int grav_kernel() {
  auto cm = A->config(); HydroParams P; P.setup(cm); bool floor = A->i("floor"), zero = A->i("zero"); if (floor) P.settings.smallr = sym("smallr", 0.25, 1); double sr = P.settings.smallr, dt = sym("dt", DT_LO, 1);
  int is = P.isize, js = P.jsize, ks = D == 3 ? P.ksize : 1, gw = P.ghostWidth, nv = D + 2; DataArray2d a("a", is, js, 4), b("b", is, js, 4); DataArray3d a3("a3", is, js, ks, 5), b3("b3", is, js, ks, 5); VectorField2d g2("g", is, js); VectorField3d g3("g", is, js, ks);
  auto at = [&](DataArray2d &x, DataArray3d &y, int i, int j, int l, int v) -> double & { return D == 2 ? x(i, j, v) : y(i, j, l, v); };
  auto all = [&](auto f) { for (int i = 0; i < is; ++i) for (int j = 0; j < js; ++j) for (int l = 0; l < ks; ++l) f(i, j, l); };
  std::vector<double> old;
  all([&](int i, int j, int l) { std::string n = nm("c", i, j, l); at(a, a3, i, j, l, ID) = sym(n + "r0", RHO_LO, RHO_HI); at(b, b3, i, j, l, ID) = sym(n + "r1", RHO_LO, RHO_HI); for (int v = 1; v < nv; ++v) { at(a, a3, i, j, l, v) = sym(n + "o" + VN[v], -4, 4); at(b, b3, i, j, l, v) = sym(n + "n" + VN[v], -4, 4); }
    for (int d = 0; d < D; ++d) { double gv = zero ? 0.0 : sym(n + "g" + S(d), -2, 2); if (D == 2) g2(i, j, d) = gv; else g3(i, j, l, d) = gv; } for (int v = 0; v < nv; ++v) old.push_back(at(b, b3, i, j, l, v)); });
  if (D == 2) GravitySourceTermFunctor2D::apply(P, a, b, g2, dt); else GravitySourceTermFunctor3D::apply(P, a3, b3, g3, dt); Kokkos::fence(); size_t o = 0;
  all([&](int i, int j, int l) { std::string n = nm("cell", i, j, l); bool in = i >= gw && i < is - gw && j >= gw && j < js - gw && (D == 2 || (l >= gw && l < ks - gw)); const double *u0 = &old[o]; o += nv; double rn = std::fmax(sr, u0[ID]), k0 = 0, k1 = 0;
    claim_eq(at(b, b3, i, j, l, ID), u0[ID], n + " density unchanged");
    for (int d = 0; d < D; ++d) { double gv = in ? (D == 2 ? g2(i, j, d) : g3(i, j, l, d)) : 0.0; claim_eq(at(b, b3, i, j, l, IU + d) - u0[IU + d], 0.5 * dt * gv * (at(a, a3, i, j, l, ID) + rn), n + " momentum " + S(d)); k0 += u0[IU + d] * u0[IU + d]; k1 += at(b, b3, i, j, l, IU + d) * at(b, b3, i, j, l, IU + d); }
    claim_eq(at(b, b3, i, j, l, IP) - u0[IP], 0.5 * (k1 - k0) / rn, n + " energy"); });
  return 0;
}
template <int D> static int grav_step() {      // whole step: uniform gas and field (exact), zero field (no change), mass
  auto cm = A->config(); HydroParams P; P.setup(cm); std::string m = A->s("what"); P.dx = sym("dx", 0.25, 1); P.dy = sym("dy", 0.25, 1); P.dz = sym("dz", 0.25, 1); double gm = P.settings.gamma0, dt = sym("dt", DT_LO, DT_HI);
  using So = SolverHydroMuscl<D>; So *s, *t = nullptr; { Quiet q; s = new So(P, cm); if (m == "zero") { t = new So(P, cm); t->m_gravity_enabled = false; } if (m == "impl") { HydroParams P1 = P; P1.implementationVersion = 1; t = new So(*new HydroParams(P1), cm); } }
  claim_bool(s->m_gravity_enabled, "gravity enabled by the parameters");
  int gw = P.ghostWidth, nx = P.nx, ny = P.ny, nz = D == 3 ? P.nz : 1, nv = P.nbvar; auto at = [&](auto &U, int i, int j, int l, int v) -> double & { if constexpr (D == 2) return U(i + gw, j + gw, v); else return U(i + gw, j + gw, l + gw, v); };
  auto gr = [&](So *z, int i, int j, int l, int d) -> double & { if constexpr (D == 2) return z->gravity(i, j, d); else return z->gravity(i, j, l, d); };
  auto inn = [&](auto f) { for (int l = 0; l < nz; ++l) for (int j = 0; j < ny; ++j) for (int i = 0; i < nx; ++i) f(i, j, l); };
  bool uni = m == "uniform";
  inn([&](int i, int j, int l) { std::string n = uni ? "c" : nm("c", i, j, l); double r = sym(n + "r", RHO_LO, RHO_HI), e = sym(n + "p", P_LO, P_HI) / (gm - 1); at(s->U, i, j, l, ID) = r; for (int d = 0; d < D; ++d) { double v = sym(n + VN[2 + d], -V_AB, V_AB); at(s->U, i, j, l, IU + d) = r * v; e += 0.5 * r * v * v; } at(s->U, i, j, l, IP) = e; if (t) for (int v = 0; v < nv; ++v) at(t->U, i, j, l, v) = at(s->U, i, j, l, v); });
  for (int i = 0; i < P.isize; ++i) for (int j = 0; j < P.jsize; ++j) for (int l = 0; l < (D == 3 ? P.ksize : 1); ++l) for (int d = 0; d < D; ++d) { double gv = m == "zero" ? 0.0 : sym(uni ? "g" + S(d) : nm("g", (i + nx - gw) % nx, (j + ny - gw) % ny, D == 3 ? (l + nz - gw) % nz : 0) + "_" + S(d), -1, 1); gr(s, i, j, l, d) = gv; if (t && m == "impl") gr(t, i, j, l, d) = gv; }
  Kokkos::fence(); s->godunov_unsplit_impl(s->U, s->U2, dt); if (t) t->godunov_unsplit_impl(t->U, t->U2, dt); Kokkos::fence();
  if (t) inn([&](int i, int j, int l) { for (int v = 0; v < nv; ++v) claim_eq(at(s->U2, i, j, l, v), at(t->U2, i, j, l, v), nm("cell", i, j, l) + " var " + S(v)); });
  double m0 = 0, m1 = 0; inn([&](int i, int j, int l) { m0 += at(s->U, i, j, l, ID); m1 += at(s->U2, i, j, l, ID); }); claim_eq(m1, m0, "total mass");
  if (uni) inn([&](int i, int j, int l) { std::string n = nm("cell", i, j, l); double r = at(s->U, i, j, l, ID), k0 = 0, k1 = 0; claim_eq(at(s->U2, i, j, l, ID), r, n + " density"); for (int d = 0; d < D; ++d) { double a = at(s->U, i, j, l, IU + d), b = at(s->U2, i, j, l, IU + d); claim_eq(b - a, dt * r * gr(s, gw, gw, D == 3 ? gw : 0, d), n + " momentum " + S(d)); k0 += a * a; k1 += b * b; } claim_eq(at(s->U2, i, j, l, IP) - at(s->U, i, j, l, IP), 0.5 * (k1 - k0) / r, n + " energy"); });
  return 0;
}
static int mode_grav() { bool d3 = A->s("kind") == "hydro3d"; if (A->s("what") == "kernel") return d3 ? grav_kernel<3>() : grav_kernel<2>(); return d3 ? grav_step<3>() : grav_step<2>(); }
int main(int argc, char **argv) {
  Args a(argc, argv); A = &a; Kokkos::initialize(); int rc = 1; std::string m = a.s("mode"); if (a.i("tame")) tame();
  if (m == "slope") rc = mode_slope(); if (m == "prim") rc = mode_prim(); if (m == "dt") rc = mode_dt(); if (m == "grav") rc = mode_grav();
  rt_finish(); fflush(stdout); _Exit(rc);
}
