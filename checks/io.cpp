// Saving and restarting (C16): every saved value is symbolic and travels through the real HDF5 file
#include <glob.h>
#include <hdf5.h>
#include <unistd.h>
#include "hsetup.h"
#include "muscl/SolverHydroMuscl.h"
#include "muscl/SolverMHDMuscl.h"
#ifdef USE_MPI
#include <mpi.h>
#include "utils/mpiUtils/GlobalMpiSession.h"
#endif
using namespace ppkMHD::muscl;
static Args *A; static int me = 0, np = 1;
static double &at(DataArray2d &a, int i, int j, int, int v) { return a(i, j, v); }
static double &at(DataArray3d &a, int i, int j, int k, int v) { return a(i, j, k, v); }
static const char *NAME[8] = {"rho", "energy", "rho_vx", "rho_vy", "rho_vz", "bx", "by", "bz"};      // by variable
static int number(const std::string &n) { const int id[8] = {ID, IP, IU, IV, IW, IA, IB, IC}; for (int q = 0; q < 8; ++q) if (n == NAME[q]) return id[q]; return -1; }
static std::string file() { glob_t g; glob("*.h5", 0, 0, &g); std::string r = g.gl_pathc == 1 ? g.gl_pathv[0] : ""; globfree(&g); return r; }
static void barrier() {
#ifdef USE_MPI
  MPI_Barrier(MPI_COMM_WORLD);
#endif
}
static std::vector<double> gather(std::vector<double> x) {
#ifdef USE_MPI
  std::vector<double> y(me ? 0 : x.size() * np); MPI_Gather(x.data(), x.size() * 8, MPI_BYTE, y.data(), x.size() * 8, MPI_BYTE, 0, MPI_COMM_WORLD); return y;
#else
  return x;
#endif
}
template <int dim, class Solver> static void run() {
  const bool up = A->i("up"), ghosts = A->ini["output.ghostIncluded"] == "true", allg = A->ini["output.allghostIncluded"] == "true"; const int gen = A->i("number", 3);
  HydroParams P; ConfigMap c1 = A->config(); P.setup(c1); Solver *s; { Quiet q; s = new Solver(P, c1); s->init_io(); }
  const int gw = P.ghostWidth, nv = P.nbvar, K = dim == 3 ? P.ksize : 1, gk = dim == 3 ? gw : 0; int m[3] = {1, 1, 1};
  const int n[3] = {P.nx, P.ny, dim == 3 ? P.nz : 1};
#ifdef USE_MPI
  m[0] = P.mx; m[1] = P.my; m[2] = dim == 3 ? P.mz : 1;
#endif
  // values: interior cells and outer ghost cells are named by their place in the whole domain (ghost cells between processes hold the neighbour's value); the rest of the boundary is the run's own business
  auto val = [&](int i, int j, int k, int v) { return sym(nm("U", i, j, k) + "_" + S(v), -2, 2); };
  auto fillall = [&](Solver *q, const char *other) { auto &a = q->m_iteration % 2 ? q->U2 : q->U; auto &b = q->m_iteration % 2 ? q->U : q->U2; int p[3] = {0, 0, 0};
#ifdef USE_MPI
    for (int d = 0; d < dim; ++d) p[d] = P.myMpiPos[d];
#endif
    for (int k = 0; k < K; ++k) for (int j = 0; j < P.jsize; ++j) for (int i = 0; i < P.isize; ++i) for (int v = 0; v < nv; ++v) { at(a, i, j, k, v) = val(p[0] * n[0] + i, p[1] * n[1] + j, p[2] * n[2] + k, v); at(b, i, j, k, v) = sym(other, -2, 2); } };
  for (int k = 0; k < (dim == 3 ? m[2] * n[2] + 2 * gw : 1); ++k) for (int j = 0; j < m[1] * n[1] + 2 * gw; ++j) for (int i = 0; i < m[0] * n[0] + 2 * gw; ++i) for (int v = 0; v < nv; ++v) val(i, j, k, v);
  s->m_iteration = A->i("iter", 0); s->m_times_saved = gen; double t = s->m_t = sym("time", 0, 4); fillall(s, "stale"); if (me) A->ini["x.x"] = "0";
  { Quiet q; s->save_solution(); } barrier(); claim_bool(s->m_times_saved == gen + 1, "the next output has the next number");
  std::string f = file(); claim_bool(f != "", "one file is written"); if (f == "") return;
  // 1. the file itself: one dataset per variable, under its own name, in row-major order, with the size announced
  const int g = allg ? gw : ghosts ? gw : 0;
  if (!me) {
    hid_t h = H5Fopen(f.c_str(), H5F_ACC_RDONLY, H5P_DEFAULT); claim_bool(h >= 0, "the file can be opened"); int found = 0; const bool mhd = nv == 8;
    for (int q = 0; q < 8; ++q) { if (!mhd && (q > 4 || (dim == 2 && q == 4))) { claim_bool(H5Lexists(h, NAME[q], H5P_DEFAULT) <= 0, std::string(NAME[q]) + " is not written"); continue; }
      std::string w = NAME[q]; if (H5Lexists(h, NAME[q], H5P_DEFAULT) <= 0) { claim_bool(false, w + " is written"); continue; }
      hid_t d = H5Dopen2(h, NAME[q], H5P_DEFAULT), sp = H5Dget_space(d); hsize_t dims[4] = {1, 1, 1, 1}; int nd = H5Sget_simple_extent_ndims(sp); if (nd <= 4) H5Sget_simple_extent_dims(sp, dims, 0);
      bool ok = nd == dim; int N[3]; for (int a = 0; a < dim; ++a) { N[a] = allg ? m[a] * (n[a] + 2 * gw) : m[a] * n[a] + 2 * g; ok = ok && (int)dims[dim - 1 - a] == N[a]; } if (dim == 2) N[2] = 1;
      claim_bool(ok, w + " has the size of the domain"); claim_bool(H5Tequal(H5Dget_type(d), H5T_NATIVE_DOUBLE) > 0, w + " has the precision of the simulation"); if (!ok) continue;
      std::vector<double> x((size_t)N[0] * N[1] * N[2]); H5Dread(d, H5T_NATIVE_DOUBLE, H5S_ALL, H5S_ALL, H5P_DEFAULT, x.data()); size_t p = 0; const int v = number(w);
      for (int k = 0; k < N[2]; ++k) for (int j = 0; j < N[1]; ++j) for (int i = 0; i < N[0]; ++i, ++p) { int c[3] = {i, j, k}, o[3] = {0, 0, 0}; for (int a = 0; a < dim; ++a) o[a] = allg ? (c[a] / (n[a] + 2 * gw)) * n[a] + c[a] % (n[a] + 2 * gw) : c[a] + gw - g;
        claim_eq(x[p], val(o[0], o[1], dim == 3 ? o[2] : 0, v), w + nm(" value", i, j, k), 0, 0); }
      H5Dclose(d); }
    double tv = -7; int st = -7; hid_t a = H5Aopen(h, "total time", H5P_DEFAULT); H5Aread(a, H5T_NATIVE_DOUBLE, &tv); H5Aclose(a); a = H5Aopen(h, "time step", H5P_DEFAULT); H5Aread(a, H5T_NATIVE_INT, &st); H5Aclose(a); H5Fclose(h);
    claim_eq(tv, t, "time in the file", 0, 0); claim_bool(st == gen, "output number in the file");
  }
  barrier();
  // 2. a second run started from it
  auto restart = [&](bool reset) {
    std::string w = reset ? "restart with time reset " : up ? "upscaled restart " : "restart "; Args B = *A; B.ini["run.restart_enabled"] = "1"; B.ini["run.restart_filename"] = f; if (reset) B.ini["run.restart_reset_totaltime"] = "true";
    if (up) { B.ini["run.restart_upscale"] = "true"; const char *key[3] = {"mesh.nx", "mesh.ny", "mesh.nz"}; for (int d = 0; d < dim; ++d) B.ini[key[d]] = S(2 * n[d]); }
    ConfigMap c2 = B.config(); HydroParams P2; P2.setup(c2); Solver *r; { Quiet q; r = new Solver(P2, c2); } const int e = up ? 2 : 1; std::vector<double> mine;
    for (int k = gk; k < (dim == 3 ? P2.ksize - gw : 1); ++k) for (int j = gw; j < P2.jsize - gw; ++j) for (int i = gw; i < P2.isize - gw; ++i) for (int v = 0; v < nv; ++v) mine.push_back(at(r->U, i, j, k, v));
    int pp[3] = {0, 0, 0};
#ifdef USE_MPI
    for (int d = 0; d < dim; ++d) pp[d] = P2.myMpiPos[d];
#endif
    mine.push_back(r->m_t); mine.push_back(r->m_times_saved); for (int d = 0; d < 3; ++d) mine.push_back(pp[d]); size_t len = mine.size(), q = 0; std::vector<double> all = gather(mine);
    if (!me) for (int p = 0; p < np; ++p) { std::string wp = np > 1 ? w + "process " + S(p) + " " : w; const double *pos = &all[len * (p + 1) - 3]; int o[3] = {(int)pos[0] * n[0], (int)pos[1] * n[1], (int)pos[2] * n[2]};
      for (int k = 0; k < (dim == 3 ? e * n[2] : 1); ++k) for (int j = 0; j < e * n[1]; ++j) for (int i = 0; i < e * n[0]; ++i) for (int v = 0; v < nv; ++v, ++q) {
        int c[3] = {o[0] + i / e + gw, o[1] + j / e + gw, dim == 3 ? o[2] + k / e + gw : 0}, od[3] = {i % e, j % e, dim == 3 ? k % e : 0}; const int B_[3] = {IA, IB, IC}; double x = val(c[0], c[1], c[2], v);
        if (nv == 8 && up) for (int d = 0; d < dim; ++d) if (v == B_[d] && od[d]) { int c2[3] = {c[0], c[1], c[2]}; ++c2[d]; x = (x + val(c2[0], c2[1], c2[2], v)) / 2; }
        claim_eq(all[q], x, wp + nm("cell", i, j, dim == 3 ? k : -1) + " var " + S(v), up ? 1e-12 : 0, 0); }
      claim_eq(all[q++], reset ? 0.0 : t, wp + "time", 0, 0); claim_bool((int)rt_shadow(all[q++]) == gen, wp + "output number"); q += 3; }
    delete r; barrier();
  };
  restart(false); if (A->i("reset")) restart(true);
}
int main(int argc, char **argv) {
  A = new Args(argc, argv);
#ifdef USE_MPI
  hydroSimu::GlobalMpiSession mpiSession(&argc, &argv); MPI_Comm_rank(MPI_COMM_WORLD, &me); MPI_Comm_size(MPI_COMM_WORLD, &np);
#endif
  Kokkos::initialize();
  if (A->i("dim", 2) == 2) { if (A->i("mhd")) run<2, SolverMHDMuscl<2>>(); else run<2, SolverHydroMuscl<2>>(); }
  else { if (A->i("mhd")) run<3, SolverMHDMuscl<3>>(); else run<3, SolverHydroMuscl<3>>(); }
#ifdef USE_MPI
  if (!me) rt_finish(); fflush(stdout); MPI_Barrier(MPI_COMM_WORLD); MPI_Finalize(); _Exit(0);
#else
  rt_finish(); fflush(stdout); _Exit(0);
#endif
}
