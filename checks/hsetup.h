// Common set-up of a harness: command line "key=value" arguments become the parameter
// file the repository reads, plus "_key=value" arguments for the harness itself.
#pragma once
#include "../engine/sym.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <map>
#include <sstream>
#include <string>
#include <vector>
#include <Kokkos_Core.hpp>
#include "shared/kokkos_shared.h"
#include "shared/HydroParams.h"
#include "shared/SolverBase.h"
#include "utils/config/ConfigMap.h"
using namespace ppkMHD;
struct Args {
  std::map<std::string, std::string> ini, h;   // "section.key" -> value ; harness keys
  Args(int argc, char **argv) { for (int i = 1; i < argc; ++i) { std::string s = argv[i]; auto e = s.find('='); if (e == std::string::npos) continue;
      std::string k = s.substr(0, e), v = s.substr(e + 1); if (k[0] == '_') h[k.substr(1)] = v; else ini[k] = v; } }
  std::string s(const std::string &k, const std::string &d = "") const { auto i = h.find(k); return i == h.end() ? d : i->second; }
  int i(const std::string &k, int d = 0) const { auto i = h.find(k); return i == h.end() ? d : atoi(i->second.c_str()); }
  std::string text() const { std::map<std::string, std::string> sec; for (auto &kv : ini) { auto d = kv.first.find('.'); sec[kv.first.substr(0, d)] += kv.first.substr(d + 1) + "=" + kv.second + "\n"; }
    std::string t; for (auto &s : sec) t += "[" + s.first + "]\n" + s.second + "\n"; return t; }
  ConfigMap config() const { std::string t = text(); char *b = strdup(t.c_str()); ConfigMap c(b, (int)t.size()); free(b); return c; }
};
// silence the repository's progress output
struct Quiet { std::streambuf *o; std::ostringstream s; Quiet() { o = std::cout.rdbuf(s.rdbuf()); } ~Quiet() { std::cout.rdbuf(o); } };
inline std::string S(int i) { return std::to_string(i); }
inline std::string nm(const char *b, int i, int j, int k = -1) { return std::string(b) + "_" + S(i) + "_" + S(j) + (k >= 0 ? "_" + S(k) : ""); }
// state variable ranges used by every harness (stated in DESIGN.md)
static double RHO_LO = 0.125, RHO_HI = 8, P_LO = 0.125, P_HI = 8, V_AB = 2, B_AB = 2, DT_LO = 1.0 / 1024, DT_HI = 1.0 / 16, DX_LO = 0.25;
// a box in which no reconstructed state reaches the density and pressure floors
inline void tame() { RHO_LO = P_LO = 1; RHO_HI = P_HI = 2; V_AB = B_AB = 0.5; DT_HI = 1.0 / 64; DX_LO = 0.5; }
