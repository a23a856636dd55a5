#pragma once
#include <string>
#include <cstdlib>
// every integer and boolean parameter is chosen by the solver
namespace R { inline int nvar; }
extern "C" int v_int(int); extern "C" void v_assume(int);
struct ConfigMap {
  template <class A, class B> long getInteger(const A &, const B &, long d) const { return d; }
  template <class A, class B> float getFloat(const A &, const B &, float d) const { return d; }
  template <class A, class B> __attribute__((always_inline)) bool getBool(const A &, const B &k, bool) const {
    if constexpr (!std::is_same<B, std::string>::value) { if (!__builtin_strcmp(k, "restart_enabled")) return false; }   // reading a file is outside this check
#ifdef RK
    if constexpr (!std::is_same<B, std::string>::value) { if (!__builtin_strcmp(k, "forward_euler")) return RK == 0; if (!__builtin_strcmp(k, "ssprk2")) return RK == 1; if (!__builtin_strcmp(k, "ssprk3")) return RK == 2; if (!__builtin_strcmp(k, "ssprk54")) return RK == 3; }
#endif
    int b = v_int(R::nvar++); v_assume(b == 0 || b == 1); return b; }
  template <class A, class B> std::string getString(const A &, const B &, std::string d) const { const char *p = std::getenv("PROBLEM"); return p && *p ? p : d; }
};
