// Harness API.  The same harness source is built twice:
//  - symbolic: clang + pass.so, linked with rt.cpp (expressions, path conditions, claims)
//  - native:   g++ without instrumentation, linked with native.cpp (replay of a counterexample)
#ifndef VERIF_SYM_H
#define VERIF_SYM_H
#include <string>
#include <cstdint>
extern "C" {
// input variable: any value in [lo,hi]
double rt_var(const char *name, double lo, double hi);
void   rt_claim_eq(double a, double b, double scale, double tol, const char *label);
void   rt_claim_le(double a, double b, double scale, double tol, const char *label);
void   rt_claim_bool(int v, const char *label);
void   rt_assume_le(double a, double b);     // a <= b
void   rt_assume_lt(double a, double b);     // a <  b
double rt_uf(const char *fn, int idx, int n, const double *args); // opaque function value
int    rt_symbolic(void);
int    rt_is_const(double v);
double rt_shadow(double v);
void   rt_note(const char *key, const char *val);
void   rt_finish(void);
// memory tracing (RT_MEM builds)
void   rt_region(const void *p, uint64_t size, const char *name);
void   rt_trace(int on);
}
inline double sym(const std::string &n, double lo, double hi) { return rt_var(n.c_str(), lo, hi); }
// |a-b| <= tol * max(1,|a|,|b|,scale) for all inputs
inline void claim_eq(double a, double b, const std::string &l, double tol = 1e-9, double scale = 1.0) { rt_claim_eq(a, b, scale, tol, l.c_str()); }
inline void claim_le(double a, double b, const std::string &l, double tol = 1e-9, double scale = 1.0) { rt_claim_le(a, b, scale, tol, l.c_str()); }
inline void claim_bool(bool v, const std::string &l) { rt_claim_bool(v, l.c_str()); }
#endif
