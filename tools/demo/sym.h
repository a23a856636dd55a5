// Concrete stand-in for the symbolic harness API: inputs are pseudo-random numbers fixed by DEMO_SEED, claims are compared numerically.
#ifndef VERIF_SYM_H
#define VERIF_SYM_H
#include <string>
#include <cstdint>
#include <cmath>
#include <cstdio>
#include <cstdlib>
static int demo_bad = 0, demo_n = 0;
inline double sym(const std::string &n, double lo, double hi) {
  const char *s = getenv("DEMO_SEED"); uint64_t h = 1469598103934665603ull + 7919ull * (s ? atoi(s) : 1);
  for (char c : n) { h ^= (unsigned char)c; h *= 1099511628211ull; } h ^= h >> 31; h *= 0x9E3779B97F4A7C15ull; h ^= h >> 29; h *= 0xBF58476D1CE4E5B9ull; h ^= h >> 32;
  return lo + (hi - lo) * ((h >> 11) * (1.0 / 9007199254740992.0));
}
inline void demo_fail(const std::string &l, double a, double b) { if (++demo_bad <= 5) printf("FAIL %s: %.12g vs %.12g\n", l.c_str(), a, b); }
inline double demo_tol(double a, double b, double t, double s) { return t * std::fmax(std::fmax(1.0, s), std::fmax(std::fabs(a), std::fabs(b))); }
inline void claim_eq(double a, double b, const std::string &l, double tol = 1e-9, double scale = 1.0) { ++demo_n; if (!(std::fabs(a - b) <= demo_tol(a, b, tol, scale))) demo_fail(l, a, b); }
inline void claim_le(double a, double b, const std::string &l, double tol = 1e-9, double scale = 1.0) { ++demo_n; if (!(a - b <= demo_tol(a, b, tol, scale))) demo_fail(l, a, b); }
inline void claim_bool(bool v, const std::string &l) { ++demo_n; if (!v) demo_fail(l, 0, 1); }
inline void rt_finish() { printf("%d comparisons, %d failed\n", demo_n, demo_bad); fflush(stdout); _Exit(demo_bad || !demo_n ? 1 : 0); }
inline void rt_assume_le(double a, double b) { if (!(a <= b)) { printf("not applicable\n"); fflush(stdout); _Exit(0); } }
inline void rt_assume_lt(double a, double b) { if (!(a < b)) { printf("not applicable\n"); fflush(stdout); _Exit(0); } }
inline double rt_uf(const char *, int, int, const double *) { return 0; }
inline int rt_symbolic() { return 0; }
inline int rt_is_const(double) { return 1; }
inline double rt_shadow(double v) { return v; }
inline void rt_note(const char *, const char *) {}
inline void rt_region(const void *, uint64_t, const char *) {}
inline void rt_trace(int) {}
#endif
