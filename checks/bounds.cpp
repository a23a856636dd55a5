// Boundary filling (C14; C15 in the MPI build): every array value is symbolic
#include "hsetup.h"
#include "muscl/SolverHydroMuscl.h"
#include "muscl/SolverMHDMuscl.h"
#ifdef USE_MPI
#include <mpi.h>
#include <array>
#include "utils/mpiUtils/GlobalMpiSession.h"
#endif
using namespace ppkMHD::muscl;
static Args *A;
static double at(DataArray2d &a, int i, int j, int, int v) { return a(i, j, v); }
static double at(DataArray3d &a, int i, int j, int k, int v) { return a(i, j, k, v); }
static void put(DataArray2d &a, int i, int j, int, int v, double x) { a(i, j, v) = x; }
static void put(DataArray3d &a, int i, int j, int k, int v, double x) { a(i, j, k, v) = x; }
// one coordinate: index of the cell a ghost (or interior) cell takes its value from, and whether the normal components change sign
static int source(int c, int n, int gw, int lo, int hi, bool &flip) {
  int x = c - gw; flip = false; if (x >= 0 && x < n) return c;
  int t = x < 0 ? lo : hi; if (t == 3) return gw + (x + n) % n;            // periodic
  if (t == 2) return x < 0 ? gw : gw + n - 1;                               // outflow
  flip = true; return gw + (x < 0 ? -1 - x : 2 * n - 1 - x);                // reflecting
}
template <int dim, class Solver> static void fill(ConfigMap &cm, const std::string &tag, const int *bc) {
  HydroParams P; P.setup(cm); Solver *s; { Quiet q; s = new Solver(P, cm); } auto &U = s->U; const bool mhd = P.nbvar == 8; const int gw = P.ghostWidth, K = dim == 3 ? P.ksize : 1, n[3] = {P.nx, P.ny, dim == 3 ? P.nz : 1};
  auto interior = [&](int i, int j, int k) { return i >= gw && i < P.isize - gw && j >= gw && j < P.jsize - gw && (dim == 2 || (k >= gw && k < P.ksize - gw)); };
  auto val = [&](int i, int j, int k, int v) { return sym(nm(interior(i, j, k) ? "U" : "old", i, j, k) + "_" + S(v), -2, 2); };
  for (int k = 0; k < K; ++k) for (int j = 0; j < P.jsize; ++j) for (int i = 0; i < P.isize; ++i) for (int v = 0; v < P.nbvar; ++v) put(U, i, j, k, v, val(i, j, k, v));
  Kokkos::fence(); s->make_boundaries(U); Kokkos::fence();
  const int N[3] = {IU, IV, IW}, B[3] = {IA, IB, IC};
  for (int k = 0; k < K; ++k) for (int j = 0; j < P.jsize; ++j) for (int i = 0; i < P.isize; ++i) {
    int c[3] = {i, j, k}, o[3] = {i, j, k}; bool f[3] = {0, 0, 0}; for (int d = 0; d < dim; ++d) o[d] = source(c[d], n[d], gw, bc[2 * d], bc[2 * d + 1], f[d]);
    for (int v = 0; v < P.nbvar; ++v) { double x = val(o[0], o[1], o[2], v); for (int d = 0; d < dim; ++d) if (f[d] && (v == N[d] || (mhd && v == B[d]))) x = -x; claim_eq(at(U, i, j, k, v), x, tag + nm(" cell", i, j, k) + " var " + S(v), 1e-12); } }
  delete s;
}
#ifdef USE_MPI
// the same on several processes: every local array is collected on process 0 and compared with the whole domain
template <int dim, class Solver> static void fillmpi(ConfigMap &cm, const std::string &tag, const int *bc) {
  HydroParams P; Solver *s; { Quiet q; P.setup(cm); s = new Solver(P, cm); } auto &U = s->U; const bool mhd = P.nbvar == 8; const int gw = P.ghostWidth, K = dim == 3 ? P.ksize : 1, nl[3] = {P.nx, P.ny, dim == 3 ? P.nz : 1}, m[3] = {P.mx, P.my, dim == 3 ? P.mz : 1}, nv = P.nbvar;
  int me, np; MPI_Comm_rank(MPI_COMM_WORLD, &me); MPI_Comm_size(MPI_COMM_WORLD, &np);
  // global interior values by global cell, stale ghost values by process; register all of them (and their opposites) on every process
  auto glob = [&](int i, int j, int k, int v) { double x = sym(nm("U", i, j, k) + "_" + S(v), -2, 2); volatile double y = -x; (void)y; return x; };
  for (int k = 0; k < nl[2] * m[2]; ++k) for (int j = 0; j < nl[1] * m[1]; ++j) for (int i = 0; i < nl[0] * m[0]; ++i) for (int v = 0; v < nv; ++v) glob(i, j, k, v);
  auto old = [&](int r, int i, int j, int k, int v) { double x = sym(nm(("old" + S(r)).c_str(), i, j, k) + "_" + S(v), -2, 2); volatile double y = -x; (void)y; return x; };
  auto inside = [&](int *c) { for (int d = 0; d < dim; ++d) if (c[d] < gw || c[d] >= gw + nl[d]) return false; return true; };
  int pos[3] = {P.myMpiPos[0], P.myMpiPos[1], dim == 3 ? P.myMpiPos[2] : 0};
  for (int r = 0; r < np; ++r) for (int k = 0; k < K; ++k) for (int j = 0; j < P.jsize; ++j) for (int i = 0; i < P.isize; ++i) for (int v = 0; v < nv; ++v) { int c[3] = {i, j, k}; double x;
    if (inside(c)) { if (r != me) continue; x = glob(pos[0] * nl[0] + i - gw, pos[1] * nl[1] + j - gw, dim == 3 ? pos[2] * nl[2] + k - gw : 0, v); } else x = old(r, i, j, k, v);
    if (r == me) put(U, i, j, k, v, x); }
  Kokkos::fence(); s->make_boundaries(U); Kokkos::fence();
  std::vector<double> mine, all; for (int k = 0; k < K; ++k) for (int j = 0; j < P.jsize; ++j) for (int i = 0; i < P.isize; ++i) for (int v = 0; v < nv; ++v) mine.push_back(at(U, i, j, k, v));
  int info[3 + 2 * dim + 1]; for (int d = 0; d < 3; ++d) info[d] = pos[d]; for (int f = 0; f < 2 * dim; ++f) info[3 + f] = P.neighborsRank[f]; info[3 + 2 * dim] = P.myRank; double dx[3] = {P.dx, P.dy, P.dz};
  const int ni = 4 + 2 * dim; std::vector<int> infos(ni * np); std::vector<double> dxs(3 * np); all.resize(me ? 0 : mine.size() * np);
  MPI_Gather(mine.data(), mine.size() * 8, MPI_BYTE, all.data(), mine.size() * 8, MPI_BYTE, 0, MPI_COMM_WORLD); MPI_Gather(info, ni, MPI_INT, infos.data(), ni, MPI_INT, 0, MPI_COMM_WORLD); MPI_Gather(dx, 24, MPI_BYTE, dxs.data(), 24, MPI_BYTE, 0, MPI_COMM_WORLD);
  if (!me) {
    const int N[3] = {IU, IV, IW}, B[3] = {IA, IB, IC}; std::map<int, int> byrank; std::map<std::array<int, 3>, int> cover;
    const double L[3] = {P.xmax - P.xmin, P.ymax - P.ymin, P.zmax - P.zmin};
    for (int r = 0; r < np; ++r) { byrank[infos[r * ni + ni - 1]] = r; cover[{infos[r * ni], infos[r * ni + 1], infos[r * ni + 2]}]++; for (int d = 0; d < dim; ++d) { claim_bool(infos[r * ni + d] >= 0 && infos[r * ni + d] < m[d], tag + " position " + S(r)); claim_eq(dxs[3 * r + d] * (nl[d] * m[d]), L[d], tag + " cell size " + S(r) + S(d), 1e-12); } }
    claim_bool((int)cover.size() == np && (int)byrank.size() == np, tag + " every position is taken once");
    for (int r = 0; r < np; ++r) for (int f = 0; f < 2 * dim; ++f) { int q = infos[r * ni + 3 + f]; bool ok = byrank.count(q); if (ok) { int *a = &infos[r * ni], *b = &infos[byrank[q] * ni]; for (int d = 0; d < dim; ++d) { int e = d == f / 2 ? (a[d] + (f % 2 ? 1 : m[d] - 1)) % m[d] : a[d]; ok = ok && b[d] == e; } } claim_bool(ok, tag + " neighbour " + S(r) + " face " + S(f)); }
    size_t q = 0;
    for (int r = 0; r < np; ++r) { int *ps = &infos[r * ni]; for (int k = 0; k < K; ++k) for (int j = 0; j < P.jsize; ++j) for (int i = 0; i < P.isize; ++i) {
      int c[3] = {i, j, k}, o[3] = {0, 0, 0}; bool f[3] = {0, 0, 0}; for (int d = 0; d < dim; ++d) { int n = nl[d] * m[d]; o[d] = source(ps[d] * nl[d] + c[d], n, gw, bc[2 * d], bc[2 * d + 1], f[d]) - gw; }
      for (int v = 0; v < nv; ++v) { double x = glob(o[0], o[1], o[2], v); for (int d = 0; d < dim; ++d) if (f[d] && (v == N[d] || (mhd && v == B[d]))) x = -x; claim_eq(all[q++], x, tag + " process " + S(r) + nm(" cell", i, j, k) + " var " + S(v), 1e-12); } } }
  }
  MPI_Barrier(MPI_COMM_WORLD); delete s;
}
#define fill fillmpi
#endif
int main(int argc, char **argv) {
  A = new Args(argc, argv);
#ifdef USE_MPI
  hydroSimu::GlobalMpiSession mpiSession(&argc, &argv);
#endif
  Kokkos::initialize();
  {
    const int dim = A->i("dim", 2); const bool mhd = A->i("mhd"); const char *key[6] = {"xmin", "xmax", "ymin", "ymax", "zmin", "zmax"};
    std::vector<int> list; if (A->s("list") == "") for (int q = 0; q < 81; ++q) list.push_back(q); else { std::stringstream ss(A->s("list")); std::string t; while (std::getline(ss, t, ',')) list.push_back(atoi(t.c_str())); }
    for (int q : list) {
      int bc[6] = {3, 3, 3, 3, 3, 3}, r = q; std::string tag; for (int f = 0; f < 2 * dim; ++f) { bc[f] = 1 + r % 3; r /= 3; A->ini[std::string("mesh.boundary_type_") + key[f]] = S(bc[f]); tag += "DNP"[bc[f] - 1]; }
      ConfigMap cm = A->config();
      if (dim == 2) { if (mhd) fill<2, SolverMHDMuscl<2>>(cm, tag, bc); else fill<2, SolverHydroMuscl<2>>(cm, tag, bc); }
      else { if (mhd) fill<3, SolverMHDMuscl<3>>(cm, tag, bc); else fill<3, SolverHydroMuscl<3>>(cm, tag, bc); }
    }
  }
#ifdef USE_MPI
  int me; MPI_Comm_rank(MPI_COMM_WORLD, &me); if (!me) rt_finish(); fflush(stdout); MPI_Barrier(MPI_COMM_WORLD); MPI_Finalize(); _Exit(0);
#else
  rt_finish(); fflush(stdout); _Exit(0);
#endif
}
