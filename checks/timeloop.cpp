// The time loop (C13): the repository's main program runs with symbolic time steps
#undef USE_SDM
#include <unistd.h>
#include "hsetup.h"
#include "shared/SolverFactory.cpp"
#define main repo_main
#include "main.cpp"
#undef main
using namespace ppkMHD::muscl;
static Args *A; static bool mhd;
struct Ev { int kind; double t, dt; int it, saved; const void *in, *out; };     // 0: save, 1: time step request, 2: update
static std::vector<Ev> ev; static int ndt = 0; static int xdmf = -1;
static double proposed(int k) { return sym("dt" + S(k), 1.0 / 64, 1); }
template <class So> static double probe(So &s) { double d = proposed(ndt++); ev.push_back({1, s.m_t, d, s.m_iteration, s.m_times_saved, s.U.data(), s.U2.data()}); return d; }
static void *P(DataArray2d a) { return a.data(); }
namespace ppkMHD { namespace muscl {
template <> double SolverHydroMuscl<2>::compute_dt_local() { return probe(*this); }
template <> double SolverMHDMuscl<2>::compute_dt_local() { return probe(*this); }
template <> void SolverHydroMuscl<2>::godunov_unsplit_impl(DataArray a, DataArray b, real_t dt) { ev.push_back({2, m_t, dt, m_iteration, m_times_saved, P(a), P(b)}); }
}
namespace io {
void IO_ReadWrite::save_data(DataArray2d U, DataArray2d::HostMirror, int n, real_t t, std::string) {
  if (mhd && ev.size() <= 1) { const double q[8] = {1, 2, 0.25, 0.5, 0.125, 0.5, 0.25, 0.125}; for (size_t j = 0; j < U.extent(1); ++j) for (size_t i = 0; i < U.extent(0); ++i) for (int v = 0; v < 8; ++v) U(i, j, v) = q[v]; } // uniform gas
  ev.push_back({0, t, 0, 0, n, P(U), 0}); }
void writeXdmfForHdf5Wrapper(HydroParams &, ConfigMap &, const std::map<int, std::string> &, int n, bool) { xdmf = n; }
} }
int main(int argc, char **argv) {
  A = new Args(argc, argv); mhd = A->ini["run.solver_name"][0] == 'M';
  { FILE *f = fopen("loop.ini", "w"); fputs(A->text().c_str(), f); fclose(f); }
  char *av[] = {argv[0], (char *)"loop.ini", 0}; { Quiet q; int o = dup(1); freopen("/dev/null", "w", stdout); repo_main(2, av); fflush(stdout); dup2(o, 1); }
  { int c = 0; for (auto &x : ev) c += x.kind == 1 && x.it == 0; if (c > 1 && ev[0].kind == 1) ev.erase(ev.begin()); else if (c == 1 && ev[0].kind == 1 && (atoi(A->ini["run.nstepmax"].c_str()) == 0)) ev.erase(ev.begin()); }   // the constructor asks for a time step once
  // what the run has to do, from the parameter file and the proposed time steps
  auto num = [&](const char *k) { return atof(A->ini[k].c_str()); }; const double tEnd = num("run.tEnd"); const int nmax = num("run.nstepmax"), nout = num("run.noutput");
  double t = 0; int it = 0, saved = 0; size_t e = 0; const void *arr[2] = {0, 0}; for (auto &x : ev) if (x.kind == 1) { arr[0] = x.in; arr[1] = x.out; break; }
  auto next = [&](int kind, const std::string &w) -> Ev * { if (e < ev.size() && ev[e].kind == kind) return &ev[e++]; claim_bool(false, w + (kind == 0 ? " is written" : kind == 1 ? " asks for a time step" : " updates the solution")); rt_finish(); fflush(stdout); _Exit(0); return nullptr; };
  auto save = [&](const std::string &w) { Ev *x = next(0, w); claim_eq(x->t, t, w + " time", 1e-12); claim_bool(x->saved == saved, w + " number"); if (arr[0]) claim_bool(x->in == arr[it % 2], w + " holds the current solution"); ++saved; };
  if (nout != 0) save("initial state");
  while (!(t >= tEnd - 1e-14 || it >= nmax)) {
    std::string w = "step " + S(it); if (it) rt_assume_le(t, tEnd - 1e-6);
    if (nout < 0) save("state before " + w); else if (nout > 0 && t > saved * (tEnd / nout)) save("state before " + w);
    if (mhd) ; Ev *x = next(1, w); claim_eq(x->t, t, w + " time", 1e-12); claim_bool(x->it == it, w + " counter");
    double d = x->dt; if (t + d > tEnd) d = tEnd - t;
    claim_le(0.0, d, w + " time step is not negative", 1e-12); claim_le(t + d, tEnd, w + " does not pass the end", 1e-12);
    if (!mhd) { x = next(2, w); claim_eq(x->dt, d, w + " time step used by the update", 1e-12); claim_eq(x->t, t, w + " time during the update", 1e-12); claim_bool(x->in == arr[it % 2] && x->out == arr[1 - it % 2], w + " arrays"); }
    t += d; ++it;
  }
  if (nout != 0) save("final state");
  claim_bool(e == ev.size(), "nothing happens after the end");
  if (A->i("xdmf")) claim_bool(xdmf == saved - 1, "the XDMF index lists every output");
  rt_finish(); fflush(stdout); _Exit(0);
}
