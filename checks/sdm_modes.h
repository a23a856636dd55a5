// modes of the spectral difference harness (included by sdm.cpp)
#pragma once
#ifdef RKSTUB
// The right-hand side is an arbitrary function: every evaluation returns fresh unknowns. Its input and the state of the ghost cells are recorded.
static Box *RB; static std::vector<std::vector<double>> rk_in; static int rk_bad_ghost = 0;
static std::vector<double> interior(Box &b, const DA &U) { DA u = U; std::vector<double> r; b.cells([&](int i, int j, int k) { for (int v = 0; v < ND * NV; ++v) r.push_back(at(u, i, j, k, v)); }); return r; }
static double rhs(int call, size_t m) { return sym("f" + S(call) + "_" + S((int)m), -2, 2); }
namespace ppkMHD { namespace sdm {
template <> void SolverHydroSDM<D, N>::compute_fluxes_divergence(DA U, DA F, real_t) {
  if (!RB) return; Box &b = *RB; Kokkos::fence(); int c = rk_in.size(); rk_in.push_back(interior(b, U));
  b.all([&](int i, int j, int k) { int q[3] = {i, j, k}; bool ghost = false; for (int d = 0; d < D; ++d) { if (q[d] == 0) { q[d] = b.n[d]; ghost = true; } else if (q[d] == b.n[d] + 1) { q[d] = 1; ghost = true; } }
    if (ghost) for (int v = 0; v < ND * NV; ++v) claim_eq(at(U, i, j, k, v), at(U, q[0], q[1], q[2], v), "ghost cells before evaluation " + S(c) + " " + S(i) + S(j) + S(k) + " " + S(v)); });
  size_t m = 0; b.cells([&](int i, int j, int k) { for (int v = 0; v < ND * NV; ++v) at(F, i, j, k, v) = rhs(c, m++); });
}
} }
static void mode_rk() {
  Box b(false); b.fill(b.s->U, false, true); std::vector<double> u = interior(b, b.s->U), o; double dt = sym("dt", DT_LO, 0.5);
  RB = &b; b.s->time_integration_impl(b.s->U, b.s->Uaux, dt); Kokkos::fence(); o = interior(b, b.s->U); RB = nullptr;
  // Shu-Osher form published by Gottlieb & Shu / Spiteri & Ruuth: stage i = sum_k alpha_ik u_k + beta_ik dt L(u_k), L = -divergence
  std::string w = A->s("integ"); int ns = w == "fe" ? 1 : w == "rk2" ? 2 : w == "rk3" ? 3 : 5; double a[5][5] = {}, be[5][5] = {};
  if (w == "fe") { a[0][0] = be[0][0] = 1; }
  if (w == "rk2") { a[0][0] = be[0][0] = 1; a[1][0] = a[1][1] = be[1][1] = 0.5; }
  if (w == "rk3") { a[0][0] = be[0][0] = 1; a[1][0] = 0.75; a[1][1] = be[1][1] = 0.25; a[2][0] = 1.0 / 3; a[2][2] = be[2][2] = 2.0 / 3; }
  if (w == "rk54") { a[0][0] = 1; be[0][0] = 0.391752226571890; a[1][0] = 0.444370493651235; a[1][1] = 0.555629506348765; be[1][1] = 0.368410593050371;
    a[2][0] = 0.620101851488403; a[2][2] = 0.379898148511597; be[2][2] = 0.251891774271694; a[3][0] = 0.178079954393132; a[3][3] = 0.821920045606868; be[3][3] = 0.544974750228521;
    a[4][2] = 0.517231671970585; a[4][3] = 0.096059710526147; be[4][3] = 0.063692468666290; a[4][4] = 0.386708617503269; be[4][4] = 0.226007483236906; }
  // the table itself: consistency and the order conditions of the equivalent Butcher coefficients (constants)
  double B[6][5] = {}; for (int i = 0; i < ns; ++i) { double s = 0; for (int k = 0; k <= i; ++k) { s += a[i][k]; for (int m = 0; m < ns; ++m) B[i + 1][m] += a[i][k] * B[k][m]; B[i + 1][k] += be[i][k]; } claim_eq(s, 1, w + " stage " + S(i) + " is a convex combination", 1e-12); }
  double c[5] = {}; for (int i = 0; i < ns; ++i) for (int m = 0; m < ns; ++m) c[i] += B[i][m]; auto cond = [&](auto f, double v, const char *t) { double s = 0; for (int i = 0; i < ns; ++i) s += B[ns][i] * f(i); claim_eq(s, v, w + " order condition " + t, 1e-11); };
  auto Ac = [&](auto g) { return [&B, ns, g](int i) { double s = 0; for (int m = 0; m < ns; ++m) s += B[i][m] * g(m); return s; }; };
  cond([](int) { return 1.0; }, 1, "1"); if (ns >= 2) cond([&](int i) { return c[i]; }, 0.5, "2");
  if (ns >= 3) { cond([&](int i) { return c[i] * c[i]; }, 1.0 / 3, "3a"); cond(Ac([&](int m) { return c[m]; }), 1.0 / 6, "3b"); }
  if (ns == 5) { auto c1 = [&](int m) { return c[m]; }; cond([&](int i) { return c[i] * c[i] * c[i]; }, 0.25, "4a"); cond([&](int i) { return c[i] * Ac(c1)(i); }, 0.125, "4b"); cond(Ac([&](int m) { return c[m] * c[m]; }), 1.0 / 12, "4c"); cond(Ac(Ac(c1)), 1.0 / 24, "4d"); }
  claim_bool((int)rk_in.size() == ns, w + " number of evaluations"); if ((int)rk_in.size() != ns) return;
  for (size_t m = 0; m < u.size(); ++m) { double st[6]; st[0] = u[m]; for (int i = 0; i < ns; ++i) { st[i + 1] = 0; for (int k = 0; k <= i; ++k) st[i + 1] = st[i + 1] + a[i][k] * st[k] - be[i][k] * dt * rhs(k, m); }
    for (int i = 0; i < ns; ++i) claim_eq(rk_in[i][m], st[i], w + " input of evaluation " + S(i) + " " + S((int)m)); claim_eq(o[m], st[ns], w + " result " + S((int)m)); }
}
#endif
// ------------------------------------------------------------------ whole steps
static void mode_cons() {
  Box b(true); b.fill(b.s->U); double dt = sym("dt", DT_LO, DT_HI), t0[NV]; for (int v = 0; v < NV; ++v) t0[v] = b.total(b.s->U, v);
  b.s->time_integration_impl(b.s->U, b.s->Uaux, dt); Kokkos::fence(); for (int v = 0; v < NV; ++v) claim_eq(b.total(b.s->U, v), t0[v], "total " + S(v));
}
static void mode_free() {
  Box b(true); double r = sym("r", RHO_LO, RHO_HI), p = sym("p", P_LO, P_HI), q[NV], m = 0; q[ID] = r; for (int d = 0; d < D; ++d) { double u = sym(std::string(1, "uvw"[d]), -V_AB, V_AB); q[MV[d]] = r * u; m += u * u; } q[IE] = p / (b.gam - 1) + 0.5 * r * m;
  b.cells([&](int i, int j, int k) { for (int v = 0; v < NV; ++v) b.dofs([&](int x, int y, int z) { at(b.s->U, i, j, k, dof(x, y, z, v)) = q[v]; }); });
  double dt = sym("dt", DT_LO, DT_HI); b.s->time_integration_impl(b.s->U, b.s->Uaux, dt); Kokkos::fence();
  b.cells([&](int i, int j, int k) { for (int v = 0; v < NV; ++v) b.dofs([&](int x, int y, int z) { claim_eq(at(b.s->U, i, j, k, dof(x, y, z, v)), q[v], "uniform flow " + S(i) + S(j) + S(k) + "_" + S(x) + S(y) + S(z) + " " + S(v)); }); });
}
#ifdef STUB
// one forward Euler step against the definition of the scheme; the Riemann solver is an uninterpreted function
static void mode_ref() {
  Box b(true); b.fill(b.s->U); double dt = sym("dt", DT_LO, DT_HI), mu = b.P.settings.mu, sr = b.P.settings.smallr; int n0 = b.n[0], n1 = b.n[1], n2 = b.n[2];
  auto U = [&](int i, int j, int k, int x, int y, int z, int v) { return at(b.s->U, (i + n0) % n0 + 1, (j + n1) % n1 + 1, D == 3 ? (k + n2) % n2 + 1 : 0, dof(x, y, z, v)); };
  double S2F[N][N + 1], DER[N + 1][N]; for (int i = 0; i < N; ++i) for (int f = 0; f <= N; ++f) { S2F[i][f] = lag(SP, N, i, FP[f]); DER[f][i] = dlag(FP, N + 1, f, SP[i]); }
  struct C3 { int c[3]; }; auto shift = [](C3 c, int d, int s) { c.c[d] += s; return c; };
  auto val = [&](C3 c, C3 s, int v) { return U(c.c[0], c.c[1], c.c[2], s.c[0], s.c[1], s.c[2], v); };
  // value of quantity g at flux point f of the line of cell c through solution point s along d
  auto line = [&](auto g, C3 c, C3 s, int d, int f) { double r = 0; for (int x = 0; x < N; ++x) { C3 t = s; t.c[d] = x; r = r + g(c, t) * S2F[x][f]; } return r; };
  auto state = [&](C3 c, C3 s, int d, int f) { St q; for (int v = 0; v < NV; ++v) q[v] = line([&](C3 cc, C3 t) { return val(cc, t, v); }, c, s, d, f); q[ID] = std::fmax(q[ID], sr); return q; };
  auto press = [&](const St &q) { double m = 0; for (int d = 0; d < D; ++d) m = m + q[MV[d]] * q[MV[d]]; double p = (b.gam - 1) * (q[IE] - 0.5 * m / q[ID]); return std::fmax(p, 1e-7 * q[ID]); };
  auto prim = [&](const St &q) { St w; w[ID] = q[ID]; w[IP] = press(q); for (int d = 0; d < D; ++d) w[MV[d]] = q[MV[d]] / q[ID]; return w; };
  auto flux = [&](C3 c, C3 s, int d, int f) { St F; if (f > 0 && f < N) { St q = state(c, s, d, f); double p = press(q), un = q[MV[d]] / q[ID]; F[ID] = q[MV[d]]; F[IE] = un * (q[IE] + p); for (int e = 0; e < D; ++e) F[MV[e]] = un * q[MV[e]] + (e == d ? p : 0.0); return F; }
    C3 L = f ? c : shift(c, d, -1), R = f ? shift(c, d, 1) : c; St l = prim(state(L, s, d, N)), r = prim(state(R, s, d, 0)); std::swap(l[IU], l[MV[d]]); std::swap(r[IU], r[MV[d]]); stub_riemann(l, r, F); std::swap(F[IU], F[MV[d]]); return F; };
  auto vel = [&](int e) { return [&, e](C3 c, C3 s) { return val(c, s, MV[e]) / val(c, s, ID); }; };
  auto avg = [&](auto g, C3 c, C3 s, int d, int f) { if (f == 0) return 0.5 * (line(g, shift(c, d, -1), s, d, N) + line(g, c, s, d, 0)); if (f == N) return 0.5 * (line(g, c, s, d, N) + line(g, shift(c, d, 1), s, d, 0)); return line(g, c, s, d, f); };
  auto grad = [&](int e, int d) { return [&, e, d](C3 c, C3 s) { double g = 0; for (int f = 0; f <= N; ++f) g = g + avg(vel(e), c, s, d, f) * DER[f][s.c[d]]; return g * (1 / b.dx[d]); }; };
  auto visc = [&](C3 c, C3 s, int d, int f) { St F; double u[3], g[3][3], div = 0; for (int e = 0; e < D; ++e) { u[e] = avg(vel(e), c, s, d, f); for (int m = 0; m < D; ++m) g[e][m] = avg(grad(e, m), c, s, d, f); div = div + g[e][e]; }
    F[ID] = 0; F[IE] = 0; for (int e = 0; e < D; ++e) { double t = mu * (g[e][d] + g[d][e]) - (e == d ? 2 * mu / D * div : 0.0); F[MV[e]] = t; F[IE] = F[IE] + u[e] * t; } return F; };
  std::vector<double> ref; int vi = A->i("visc");
  b.cells([&](int i, int j, int k) { C3 c{{i - 1, j - 1, D == 3 ? k - 1 : 0}}; if (vi && (i != 2 || j != 2 || (D == 3 && k != 2))) return; b.dofs([&](int x, int y, int z) { C3 s{{x, y, z}}; double r[NV] = {};
      for (int d = 0; d < D; ++d) for (int f = 0; f <= N; ++f) { St F = flux(c, s, d, f), G; if (vi) G = visc(c, s, d, f); for (int v = 0; v < NV; ++v) r[v] = r[v] + ((vi ? F[v] - G[v] : F[v]) * DER[f][s.c[d]]) / b.dx[d]; }
      for (int v = 0; v < NV; ++v) ref.push_back(val(c, s, v) - dt * r[v]); }); });
  b.s->time_integration_impl(b.s->U, b.s->Uaux, dt); Kokkos::fence(); size_t m = 0;
  b.cells([&](int i, int j, int k) { if (vi && (i != 2 || j != 2 || (D == 3 && k != 2))) return; b.dofs([&](int x, int y, int z) { for (int v = 0; v < NV; ++v) claim_eq(at(b.s->U, i, j, k, dof(x, y, z, v)), ref[m++], "cell " + S(i) + S(j) + S(k) + "_" + S(x) + S(y) + S(z) + " " + S(v)); }); });
}
#endif
// ------------------------------------------------------------------ time step
// maxima found by two threads are combined to their maximum, whatever the order (a user-defined reduction; one thread never calls it)
template <class F> static auto joined(const F &f, double &a, const double &b, int) -> decltype(f.join(a, b), void()) { f.join(a, b); }
template <class F> static void joined(const F &, double &a, const double &b, long) { a = std::fmax(a, b); }
static void mode_dt() {
  Box b(true); b.fill(b.s->U); double cfl = b.P.settings.cfl = sym("cfl", 0.1, 1); (void)cfl;
  b.s->params.settings.cfl = cfl; double dt = b.s->compute_dt_local(), inv = 0; Kokkos::fence();
  b.cells([&](int i, int j, int k) { b.dofs([&](int x, int y, int z) { auto q = [&](int v) { return at(b.s->U, i, j, k, dof(x, y, z, v)); }; double m = 0, r = q(ID); for (int d = 0; d < D; ++d) m = m + q(MV[d]) * q(MV[d]); double p = (b.gam - 1) * (q(IE) - 0.5 * m / r), c = std::sqrt(b.gam * p / r), s = 0;
    for (int d = 0; d < D; ++d) s = s + (c + std::fabs(q(MV[d]) / r)) * N / b.dx[d]; claim_le(dt * s, cfl, "CFL " + S(i) + S(j) + S(k) + "_" + S(x) + S(y) + S(z)); inv = std::fmax(inv, s); }); });
  claim_eq(dt * inv, cfl, "largest"); claim_le(0, dt, "positive");
  { using F = typename std::conditional<D == 2, ComputeDt_Functor_2d<N>, ComputeDt_Functor_3d<N>>::type; F f(b.s->params, b.s->sdm_geom, b.s->euler, b.s->U);
    double x = sym("part1", 0.5, 64), y = sym("part2", 0.5, 64), r = x; joined(f, r, y, 0); claim_le(x, r, "combined maximum not below the first"); claim_le(y, r, "combined maximum not below the second"); claim_eq((r - x) * (r - y), 0, "combined maximum is one of the two"); }
}
// ------------------------------------------------------------------ boundaries
static void mode_bc() {
  std::string list = A->s("list", "0"); std::stringstream ss(list); std::string tok; Box b(false);
  while (std::getline(ss, tok, ',')) {
    int code = atoi(tok.c_str()), ty[6]; static const BoundaryConditionType T[3] = {BC_DIRICHLET, BC_NEUMANN, BC_PERIODIC}; for (int f = 0; f < 6; ++f) { ty[f] = code % 3; code /= 3; }
    auto &p = b.s->params; p.boundary_type_xmin = T[ty[0]]; p.boundary_type_xmax = T[ty[1]]; p.boundary_type_ymin = T[ty[2]]; p.boundary_type_ymax = T[ty[3]]; p.boundary_type_zmin = T[ty[4]]; p.boundary_type_zmax = T[ty[5]];
    DA &U = b.s->U; std::vector<double> in; std::string t = "bc" + tok + " ";
    b.all([&](int i, int j, int k) { for (int v = 0; v < ND * NV; ++v) in.push_back(at(U, i, j, k, v) = sym("x" + S(i) + S(j) + S(k) + "_" + S(v), -2, 2)); });
    auto old = [&](int i, int j, int k, int v) { return in[((size_t)(k * (b.n[1] + 2) + j) * (b.n[0] + 2) + i) * (ND * NV) + v]; };
    b.s->make_boundaries(U); Kokkos::fence();
    b.all([&](int i, int j, int k) { b.dofs([&](int x, int y, int z) { for (int v = 0; v < NV; ++v) { int c[3] = {i, j, k}, s[3] = {x, y, z}; double sg = 1;
      for (int d = D - 1; d >= 0; --d) { int side = c[d] == 0 ? 0 : c[d] == b.n[d] + 1 ? 1 : -1; if (side < 0) continue; int type = ty[2 * d + side];
        if (type == 0) { c[d] = side ? b.n[d] : 1; s[d] = N - 1 - s[d]; if (v == MV[d]) sg = -sg; } else if (type == 1) c[d] = side ? b.n[d] : 1; else c[d] = side ? 1 : b.n[d]; }
      claim_eq(at(U, i, j, k, dof(x, y, z, v)), sg * old(c[0], c[1], c[2], dof(s[0], s[1], s[2], v)), t + S(i) + S(j) + S(k) + "_" + S(x) + S(y) + S(z) + " " + S(v)); } }); });
  }
}
// ------------------------------------------------------------------ polynomials
// q(x) = sum c_m prod t_d^m_d on the reference cell, all coefficients symbolic
struct Poly { int deg; std::vector<double> c; Poly(int g, const std::string &n, double c0) : deg(g) { int m = (g + 1) * (g + 1) * (D == 3 ? g + 1 : 1); for (int i = 0; i < m; ++i) c.push_back(sym(n + "_" + S(i), -1, 1)); c[0] = c[0] + c0; }
  double ev(const double *t, int dd = -1) const { double r = 0; int i = 0; for (int cc = 0; cc <= (D == 3 ? deg : 0); ++cc) for (int bb = 0; bb <= deg; ++bb) for (int aa = 0; aa <= deg; ++aa) { int e[3] = {aa, bb, cc}; double k = 1; for (int d = 0; d < D; ++d) { int p = e[d]; if (d == dd) { k *= p; --p; } for (int q = 0; q < p; ++q) k *= t[d]; } r = r + k * c[i++]; } return r; } };
template <int dir> static void poly_dir(Box &b) {
  std::string L = "dir" + S(dir) + " "; int c[3] = {1, 1, D == 3 ? 1 : 0}; DA &U = b.s->U, &F = b.s->Fluxes, &R = b.s->Uaux;
  auto fdof = [&](int x, int y, int z, int v) { return DofMapFlux<D, N, dir>(x, y, z, v); };
  auto fpts = [&](auto f) { int m[3] = {N, N, D == 3 ? N : 1}; m[dir]++; for (int z = 0; z < m[2]; ++z) for (int y = 0; y < m[1]; ++y) for (int x = 0; x < m[0]; ++x) { double t[3] = {dir == 0 ? FP[x] : SP[x], dir == 1 ? FP[y] : SP[y], D == 3 ? (dir == 2 ? FP[z] : SP[z]) : 0}; f(x, y, z, t); } };
  auto tag = [](int x, int y, int z, int v) { return S(x) + S(y) + S(z) + " " + S(v); };
  auto spt = [&](int x, int y, int z, double *t) { t[0] = SP[x]; t[1] = SP[y]; t[2] = D == 3 ? SP[z] : 0; };
  for (int v = 0; v < NV; ++v) { Poly p(N - 1, "c" + S(v), v == ID ? 40 : 0); b.dofs([&](int x, int y, int z) { double t[3]; spt(x, y, z, t); at(U, c[0], c[1], c[2], dof(x, y, z, v)) = p.ev(t); }); }
  Interpolate_At_FluxPoints_Functor<D, N, dir>::apply(b.s->params, b.s->sdm_geom, U, F); Kokkos::fence();
  for (int v = 0; v < NV; ++v) { Poly p(N - 1, "c" + S(v), v == ID ? 40 : 0); fpts([&](int x, int y, int z, double *t) { claim_eq(at(F, c[0], c[1], c[2], fdof(x, y, z, v)), p.ev(t), L + "solution to flux points " + tag(x, y, z, v)); }); }
  // flux points: degree N along dir, N-1 across; the constant offset of the density is not needed here
  auto load = [&](const std::string &n) { for (int v = 0; v < NV; ++v) { Poly p(N, n + S(v), 0); fpts([&](int x, int y, int z, double *t) { at(F, c[0], c[1], c[2], fdof(x, y, z, v)) = p.ev(t); }); } };
  auto expect = [&](const std::string &n, int kind, double sc, const std::string &what, auto base) { for (int v = 0; v < NV; ++v) { Poly p(N, n + S(v), 0); b.dofs([&](int x, int y, int z) { double t[3]; spt(x, y, z, t); claim_eq(at(R, c[0], c[1], c[2], dof(x, y, z, v)), base(x, y, z, v) + sc * p.ev(t, kind ? dir : -1), L + what + " " + tag(x, y, z, v)); }); } };
  auto pre = [&](int x, int y, int z, int v) { return sym("r" + tag(x, y, z, v), -1, 1); }; auto none = [](int, int, int, int) { return 0.0; };
  auto setr = [&] { for (int v = 0; v < NV; ++v) b.dofs([&](int x, int y, int z) { at(R, c[0], c[1], c[2], dof(x, y, z, v)) = pre(x, y, z, v); }); };
  load("d"); double h = b.dx[dir];
  setr(); Interpolate_At_SolutionPoints_Functor<D, N, dir, INTERPOLATE_DERIVATIVE>::apply(b.s->params, b.s->sdm_geom, F, R); Kokkos::fence(); expect("d", 1, 1 / h, "derivative", pre);
  setr(); Interpolate_At_SolutionPoints_Functor<D, N, dir, INTERPOLATE_DERIVATIVE_NEGATIVE>::apply(b.s->params, b.s->sdm_geom, F, R); Kokkos::fence(); expect("d", 1, -1 / h, "negative derivative", pre);
  setr(); Interpolate_At_SolutionPoints_Functor<D, N, dir, INTERPOLATE_SOLUTION>::apply(b.s->params, b.s->sdm_geom, F, R); Kokkos::fence(); expect("d", 0, 1, "interpolation", pre);
  setr(); Interpolate_At_SolutionPoints_Functor<D, N, dir, INTERPOLATE_SOLUTION_NEGATIVE>::apply(b.s->params, b.s->sdm_geom, F, R); Kokkos::fence(); expect("d", 0, -1, "negative interpolation", pre);
  setr(); Interpolate_At_SolutionPoints_Functor<D, N, dir, INTERPOLATE_SOLUTION_REGULAR>::apply(b.s->params, b.s->sdm_geom, F, R); Kokkos::fence(); expect("d", 0, 1, "plain interpolation", none);
}
static void mode_poly() { Box b(true); b.s->params.nbvar = NV; poly_dir<IX>(b); poly_dir<IY>(b); if constexpr (D == 3) poly_dir<IZ>(b); }
// ------------------------------------------------------------------ cell averages, limiter, positivity
static double mean(Box &b, DA &U, const int *c, int v) { double t = 0; b.dofs([&](int x, int y, int z) { t = t + b.w(x, y, z) * at(U, c[0], c[1], c[2], dof(x, y, z, v)); }); return t; }
static void mode_avg() {      // averages of the solution and of its gradient are those of the polynomial
  Box b(false); b.fill(b.s->U, true, true); DA &U = b.s->U; int c[3] = {1, 2, D == 3 ? 1 : 0};
  b.s->apply_pre_step_computation(U); Kokkos::fence(); DA &M = b.s->Uaverage; for (int v = 0; v < NV; ++v) { double m = mean(b, U, c, v); claim_eq(at(M, c[0], c[1], c[2], v), v == ID ? std::fmax(m, b.P.settings.smallr) : m, "cell average " + S(v)); }
  Average_Gradient_Functor<D, N, IX>::apply(b.s->params, b.s->sdm_geom, U, b.s->Ugradx); Average_Gradient_Functor<D, N, IY>::apply(b.s->params, b.s->sdm_geom, U, b.s->Ugrady); if constexpr (D == 3) Average_Gradient_Functor<D, N, IZ>::apply(b.s->params, b.s->sdm_geom, U, b.s->Ugradz); Kokkos::fence();
  for (int d = 0; d < D; ++d) for (int v = 0; v < NV; ++v) { double g = 0; b.dofs([&](int x, int y, int z) { int s[3] = {x, y, z}; double r = 0; for (int m = 0; m < N; ++m) { int t[3] = {x, y, z}; t[d] = m; r = r + dlag(SP, N, m, SP[s[d]]) * at(U, c[0], c[1], c[2], dof(t[0], t[1], t[2], v)); } g = g + b.w(x, y, z) * r; });
    claim_eq(at(d == 0 ? b.s->Ugradx : d == 1 ? b.s->Ugrady : b.s->Ugradz, c[0], c[1], c[2], v), g, "cell averaged gradient " + S(d) + " " + S(v)); }
}
// free values with a prescribed average: the last point of the cell balances the others
template <class F> static void fill_mean(Box &b, DA &U, const int *c, int v, double m, F f) { double t = 0, wl = 0; int left = ND; b.dofs([&](int x, int y, int z) { double w = b.w(x, y, z); if (--left) { double q = m + f(x, y, z); at(U, c[0], c[1], c[2], dof(x, y, z, v)) = q; t = t + w * (q - m); } else wl = w; }); at(U, c[0], c[1], c[2], dof(N - 1, N - 1, N - 1 > 0 && D == 3 ? N - 1 : 0, v)) = m - t / wl; }
// limiter: independent formulation (wave strengths of the linearised equations, minmod, linear reconstruction); the average is kept
static double mmod(double a, double b, double c, double M) { double m = std::fabs(a); if (m < M) return a; if (a * b > 0 && b * c > 0) { double s = a > 0 ? 1.0 : -1.0; return s * std::fmin(m, std::fmin(std::fabs(b), std::fabs(c))); } return 0; }
static void mode_lim() {
  Box b(false); DA &U = b.s->U; double M = atof(A->s("tvb").c_str()); int c[3] = {1, 1, D == 3 ? 1 : 0}; double g1 = b.gam - 1;
  static const double MN[3][5] = {{2, 8, 0.25, -0.5, 0.75}, {1, 3, -1, 0.5, 0.125}, {0.5, 6, 1.5, 1, -1}}; const double *mn = MN[A->i("mean")]; auto base = [&](int v) { return v == ID ? mn[0] : v == IE ? mn[1] : mn[2 + v - IU]; };
  b.all([&](int i, int j, int k) { int off = (i != c[0]) + (j != c[1]) + (k != c[2]); for (int v = 0; v < NV; ++v) { double q = off == 1 ? sym("n" + S(i) + S(j) + S(k) + "_" + S(v), base(v) - 0.5, base(v) + 0.5) : base(v); b.dofs([&](int x, int y, int z) { at(U, i, j, k, dof(x, y, z, v)) = q; }); } });
  for (int v = 0; v < NV; ++v) fill_mean(b, U, c, v, base(v), [&](int x, int y, int z) { return sym("c" + S(x) + S(y) + S(z) + "_" + S(v), -0.5, 0.5); });
  double m0[NV], g[3][NV]; for (int v = 0; v < NV; ++v) m0[v] = base(v);
  for (int d = 0; d < D; ++d) for (int v = 0; v < NV; ++v) { g[d][v] = 0; b.dofs([&](int x, int y, int z) { int s[3] = {x, y, z}; double q = 0; for (int m = 0; m < N; ++m) { int t[3] = {x, y, z}; t[d] = m; q = q + dlag(SP, N, m, SP[s[d]]) * at(U, c[0], c[1], c[2], dof(t[0], t[1], t[2], v)); } g[d][v] = g[d][v] + b.w(x, y, z) * q; }); }
  std::vector<double> old; b.dofs([&](int x, int y, int z) { for (int v = 0; v < NV; ++v) old.push_back(at(U, c[0], c[1], c[2], dof(x, y, z, v))); });
  double u[3] = {}, V2 = 0; for (int d = 0; d < D; ++d) { u[d] = m0[MV[d]] / m0[ID]; V2 = V2 + u[d] * u[d]; } double cs = std::sqrt(b.gam * g1 * (m0[IE] / m0[ID] - 0.5 * V2)), c2 = cs * cs, H = 0.5 * V2 + c2 / g1;
  // strengths: 0 left acoustic, 1 right acoustic, 2 entropy, 3.. shear
  auto waves = [&](const double *q, int d, double *a) { double dr = q[ID], du = q[MV[d]] - u[d] * dr, dp = q[IE] + 0.5 * V2 * dr; for (int e = 0; e < D; ++e) dp = dp - u[e] * q[MV[e]]; dp = g1 * dp; a[0] = (dp - cs * du) / (2 * c2); a[1] = (dp + cs * du) / (2 * c2); a[2] = dr - dp / c2; int m = 3; for (int e = 0; e < D; ++e) if (e != d) { a[m++] = q[MV[e]] - u[e] * dr; } };
  auto back = [&](const double *a, int d, double *q) { q[ID] = a[0] + a[1] + a[2]; q[IE] = (H - cs * u[d]) * a[0] + (H + cs * u[d]) * a[1] + 0.5 * V2 * a[2]; q[MV[d]] = (u[d] - cs) * a[0] + (u[d] + cs) * a[1] + u[d] * a[2]; int m = 3; for (int e = 0; e < D; ++e) if (e != d) { q[MV[e]] = u[e] * q[ID] + a[m]; q[IE] = q[IE] + u[e] * a[m++]; } };
  double change = 0, sl[3][NV]; for (int d = 0; d < D; ++d) { double L[NV], R[NV], a[NV], l[NV], rr[NV], n[NV]; for (int v = 0; v < NV; ++v) { int e[3] = {c[0], c[1], c[2]}; e[d] -= 1; L[v] = m0[v] - mean(b, U, e, v); e[d] += 2; R[v] = mean(b, U, e, v) - m0[v]; }
    waves(g[d], d, a); waves(L, d, l); waves(R, d, rr); for (int v = 0; v < NV; ++v) { n[v] = mmod(a[v], l[v], rr[v], M); change = change + std::fabs(n[v] - a[v]); } back(n, d, sl[d]); }
  b.s->apply_pre_step_computation(U); b.s->apply_limiting(U); Kokkos::fence();
  for (int v = 0; v < NV; ++v) claim_eq(mean(b, U, c, v), m0[v], "limiter keeps the average of " + S(v));
  bool act = change > 1e-9; size_t m = 0; b.dofs([&](int x, int y, int z) { int s[3] = {x, y, z}; for (int v = 0; v < NV; ++v) { double q = m0[v]; for (int d = 0; d < D; ++d) q = q + (SP[s[d]] - 0.5) * sl[d][v]; claim_eq(at(U, c[0], c[1], c[2], dof(x, y, z, v)), act ? q : old[m], "limited value " + S(x) + S(y) + S(z) + " " + S(v)); ++m; } });
}
// positivity correction of one cell: 1: low densities (energy high), 2: low pressures (density away from zero)
static void mode_pos() {
  Box b(false); DA &U = b.s->U; int kind = A->i("pos"); int c[3] = {1, 1, D == 3 ? 1 : 0}; double sr = b.P.settings.smallr; std::vector<double> old;
  auto base = [&](int v) { return v == ID ? 1.0 : v == IE ? (kind == 1 ? 20.0 : 0.5) : 0.125; };
  b.all([&](int i, int j, int k) { b.dofs([&](int x, int y, int z) { for (int v = 0; v < NV; ++v) at(U, i, j, k, dof(x, y, z, v)) = base(v); }); });
  double e1 = 0, a1 = 0, r1 = 0; if (kind == 3) { e1 = sym("e1", -1, 1); a1 = sym("a1", -1, 1); r1 = A->i("vr") ? sym("r1", -0.5, 0.5) : 0; }
  for (int v = 0; v < NV; ++v) { double h = v == ID ? (kind == 1 ? 1.5 : 0.125) : v == IE ? (kind == 1 ? 0.5 : 1) : (kind == 1 ? 0.125 : 0.5); if (kind == 3) { if (v < 3) b.dofs([&](int x, int y, int z) { double &q = at(U, c[0], c[1], c[2], dof(x, y, z, v)); q = q + (SP[x] - 0.5) * (v == ID ? r1 : v == IE ? e1 : a1); }); continue; }
    if (kind == 1 && v != ID) continue;
    fill_mean(b, U, c, v, base(v), [&](int x, int y, int z) { return kind == 1 && v == ID && (N > 2 || D == 3) ? sym("c" + S(x) + S(x + y ? 1 : 0) + "_" + S(v), -h, h) : sym("c" + S(x) + S(y) + S(z) + "_" + S(v), -h, h); }); }
  b.dofs([&](int x, int y, int z) { for (int v = 0; v < NV; ++v) old.push_back(at(U, c[0], c[1], c[2], dof(x, y, z, v))); });
  double m0[NV]; for (int v = 0; v < NV; ++v) m0[v] = mean(b, U, c, v);
  b.s->apply_pre_step_computation(U); b.s->apply_positivity_preserving(U); Kokkos::fence();
  for (int v = 0; v < NV; ++v) claim_eq(mean(b, U, c, v), m0[v], "positivity keeps the average of " + S(v));
  if (kind == 1) { size_t m = 0; b.dofs([&](int x, int y, int z) { for (int v = 0; v < NV; ++v) { if (v != ID) claim_eq(at(U, c[0], c[1], c[2], dof(x, y, z, v)), old[m], "density correction leaves the rest " + S(x) + S(y) + S(z) + " " + S(v)); ++m; } }); }
  for (int d = 0; d < D; ++d) b.dofs([&](int x, int y, int z) { int s[3] = {x, y, z}; if (s[d]) return; for (int f = 0; f <= N; ++f) { double q[NV] = {}; for (int v = 0; v < NV; ++v) for (int p = 0; p < N; ++p) { s[d] = p; q[v] = q[v] + lag(SP, N, p, FP[f]) * at(U, c[0], c[1], c[2], dof(s[0], s[1], s[2], v)); } s[d] = 0; std::string t = S(d) + " " + S(x) + S(y) + S(z) + S(f);
    if (kind == 1) claim_le(sr, q[ID], "density at flux point " + t); else if (kind == 3) { double k = 0; for (int e = 0; e < D; ++e) k = k + q[MV[e]] * q[MV[e]]; claim_le(k, 2 * q[IE] * q[ID], "pressure at flux point " + t); } } });
}
static void run(const std::string &m) {
#ifdef RKSTUB
  if (m == "rk") mode_rk();
#elif defined(STUB)
  if (m == "ref") mode_ref(); else if (m == "cons") mode_cons();
#else
  if (m == "cons") mode_cons(); else if (m == "free") mode_free(); else if (m == "dt") mode_dt(); else if (m == "bc") mode_bc(); else if (m == "poly") mode_poly(); else if (m == "avg") mode_avg(); else if (m == "lim") mode_lim(); else if (m == "pos") mode_pos();
#endif
}
