// Decides the claims of a symbolic run (dump written by rt.cpp).
//   decide DUMP --out RESULT.json [--cex PREFIX] [--t MS] [--budget S] [--negate PREFIX] [--samples N]
// 1. every expression is brought to a canonical form (sums, products with integer powers, sqrt, max, abs, if-then-else,
//    normalised comparisons); sub-expressions that agree on sample points are proven equal (polynomial identity after
//    clearing denominators, case splits on comparisons, infeasible cases refuted by z3) and merged;
// 2. each claim, and each merge a claim depends on, is sent to z3 as an obligation over the operations of the real code
//    (sub-expressions below the frontier become free variables); unsat = discharged;
// 3. claims that are not proven are searched for a counterexample (z3 model / model with pinned inputs); a counterexample is
//    written as a seed file and must be confirmed by the caller on the natively compiled code.
#include "ops.h"
#include <algorithm>
#include <array>
#include <chrono>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <map>
#include <random>
#include <set>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <signal.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <poll.h>
#include <unistd.h>
using namespace std;
typedef long double LD;
static double nowS() { return chrono::duration<double>(chrono::steady_clock::now().time_since_epoch()).count(); }
static double T0, BUDGET = 120; static bool late() { return nowS() - T0 > BUDGET; }
static const int KMAX = 12; static int K = KMAX;
typedef array<LD, KMAX> Smp;

// ------------------------------------------------------------------ dump
struct RN { uint8_t op; uint32_t a, b, c; double v; };
struct RVar { string name; double lo, hi; uint32_t node; };
struct RDec { uint32_t node; uint8_t val, assume; };
struct RClaim { uint8_t kind; uint32_t a, b; double scale, tol; string label; uint32_t pathLen; };
static vector<RN> N; static vector<RVar> VARS; static vector<RDec> PATH; static vector<RClaim> CLAIMS; static vector<pair<string,string>> NOTES; static vector<string> UFN; static uint64_t nops;
static int arity(uint8_t o) { switch (o) { case O_CONST: case O_VAR: return 0; case O_NEG: case O_SQRT: case O_ABS: case O_EXP: case O_LOG: case O_SIN: case O_COS: case O_TAN: case O_TANH: case O_SINH: case O_COSH: case O_ATAN: case O_ASIN: case O_ACOS: case O_FLOOR: case O_CEIL: case O_TRUNC: case O_ROUND: case O_RINT: case O_CBRT: case O_LOG10: case O_NOT: return 1; case O_ITE: return 3; case O_UF: return 0; default: return 2; } }
static bool load(const char *fn) {
  FILE *f = fopen(fn, "rb"); if (!f) return false; string d; char buf[1 << 16]; size_t n; while ((n = fread(buf, 1, sizeof buf, f)) > 0) d.append(buf, n); fclose(f);
  size_t p = 8; auto u32 = [&]() { uint32_t x; memcpy(&x, &d[p], 4); p += 4; return x; }; auto dd = [&]() { double x; memcpy(&x, &d[p], 8); p += 8; return x; }; auto ss = [&]() { uint32_t l = u32(); string s = d.substr(p, l); p += l; return s; }; auto u8 = [&]() { return (uint8_t)d[p++]; };
  uint32_t nn = u32(), hm = u32(); N.resize(nn); for (auto &x : N) { x.op = u8(); x.a = u32(); x.b = u32(); x.c = u32(); x.v = dd(); } if (hm) p += 8ull * nn;
  VARS.resize(u32()); for (auto &v : VARS) { v.name = ss(); v.lo = dd(); v.hi = dd(); v.node = u32(); }
  PATH.resize(u32()); for (auto &v : PATH) { v.node = u32(); v.val = u8(); v.assume = u8(); }
  CLAIMS.resize(u32()); for (auto &c : CLAIMS) { c.kind = u8(); c.a = u32(); c.b = u32(); c.scale = dd(); c.tol = dd(); c.label = ss(); c.pathLen = u32(); }
  NOTES.resize(u32()); for (auto &x : NOTES) { x.first = ss(); x.second = ss(); }
  UFN.resize(u32()); for (auto &x : UFN) x = ss(); memcpy(&nops, &d[p], 8); return true;
}
template <class T> static T evalOp(uint8_t op, T x, T y, T z) {
  switch (op) {
    case O_ADD: return x + y; case O_SUB: return x - y; case O_MUL: return x * y; case O_DIV: return x / y; case O_NEG: return -x;
    case O_SQRT: return sqrt(x); case O_ABS: return fabs(x); case O_MIN: return fmin(x, y); case O_MAX: return fmax(x, y);
    case O_ITE: return x != 0 ? y : z; case O_LT: return x < y; case O_LE: return x <= y; case O_EQ: return x == y;
    case O_AND: return x != 0 && y != 0; case O_OR: return x != 0 || y != 0; case O_NOT: return !(x != 0); case O_XOR: return (x != 0) != (y != 0);
    case O_POW: return pow(x, y); case O_EXP: return exp(x); case O_LOG: return log(x); case O_SIN: return sin(x); case O_COS: return cos(x); case O_TAN: return tan(x); case O_TANH: return tanh(x);
    case O_SINH: return sinh(x); case O_COSH: return cosh(x); case O_ATAN: return atan(x); case O_ASIN: return asin(x); case O_ACOS: return acos(x); case O_ATAN2: return atan2(x, y); case O_HYPOT: return hypot(x, y); case O_CBRT: return cbrt(x); case O_LOG10: return log10(x);
    default: return opEval(op, x, y, z); }
}
static vector<char> live;
static void markLive() {
  live.assign(N.size(), 0); vector<uint32_t> st; auto push = [&](uint32_t i) { if (i && i < N.size() && !live[i]) { live[i] = 1; st.push_back(i); } };
  for (auto &c : CLAIMS) { push(c.a); push(c.b); } for (auto &d : PATH) push(d.node);
  while (!st.empty()) { uint32_t i = st.back(); st.pop_back(); auto &n = N[i]; int a = arity(n.op); if (n.op == O_UF) { push(n.c); continue; } if (n.op == O_PAIR) { push(n.a); push(n.b); continue; } if (a > 0) push(n.a); if (a > 1) push(n.b); if (a > 2) push(n.c); }
}
// evaluate the dump at given variable values
template <class T> static void evalAll(const vector<T> &vv, vector<T> &out) {
  out.resize(N.size()); out[0] = 0;
  for (size_t i = 1; i < N.size(); ++i) { auto &n = N[i];
    if (!live[i]) continue;
    if (n.op == O_CONST) out[i] = n.v; else if (n.op == O_VAR) out[i] = vv[n.a];
    else if (n.op == O_PAIR) out[i] = 0;
    else if (n.op == O_UF) { T acc = 0.37 + 0.11 * n.b; if (n.a < UFN.size()) for (char ch : UFN[n.a]) acc += ch * T(0.01); vector<uint32_t> as; for (uint32_t l = n.c; l; l = N[l].b) as.push_back(N[l].a); for (int k = (int)as.size() - 1; k >= 0; --k) acc = acc * T(0.7) + sin(out[as[k]] * T(1.3 + k)); out[i] = acc; }
    else out[i] = evalOp<T>(n.op, out[n.a], arity(n.op) > 1 ? out[n.b] : T(0), arity(n.op) > 2 ? out[n.c] : T(0)); }
}
static uint64_t rng = 88172645463325252ull; static double rnd() { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return (rng >> 11) * (1.0 / 9007199254740992.0); }
template <class T> static bool pathOK(const vector<T> &o, size_t len) { for (size_t i = 0; i < len; ++i) if ((o[PATH[i].node] != 0) != (PATH[i].val != 0)) return false; return true; }

// ------------------------------------------------------------------ canonical nodes
struct V { double s; int id; };
static double UFB = INFINITY; // bound on the results of uninterpreted functions (--uf)
enum CK : uint8_t { C_ONE, C_VAR, C_LIN, C_MON, C_FUN, C_ITE, C_MAX, C_ABS, C_SQRT, C_LT0, C_GT0, C_EQ0, C_AND, C_UF };
struct CN { CK k; uint8_t op; vector<pair<int,double>> t; Smp s; double lo, hi; uint32_t raw; uint32_t uf, ufk; };
static vector<CN> C; static unordered_map<string,int> HC; static vector<V> canon; // raw -> canonical value (booleans: s=+1/-1 literal)
static vector<Smp> RS; static uint32_t curRaw = 0; static bool NOTIE = true; static uint64_t nMerge = 0, nTry = 0, nMismatch = 0;
static unordered_map<int,bool> known; // condition id -> truth (path)
static double rnd42(double x) { if (x == 0 || !isfinite(x)) return x; int e; double m = frexp(x, &e); m = nearbyint(m * 1099511627776.0) / 1099511627776.0; return ldexp(m, e); }
static double nice(double x) { return x; }
static string key(CK k, uint8_t op, const vector<pair<int,double>> &t, uint32_t uf = 0, uint32_t ufk = 0) { string s; s.reserve(16 + t.size() * 12); s.push_back((char)k); s.push_back((char)op); s.append((char *)&uf, 4); s.append((char *)&ufk, 4); for (auto &p : t) { s.append((const char *)&p.first, 4); double q = rnd42(p.second); if (q == 0) q = 0; s.append((const char *)&q, 8); } return s; }
static const double INF = 1e300 * 1e10;
static V addV(V a, V b); static V mulV(V a, V b); static V powV(V a, int e); static V scale(V a, double k) { if (k == 0 || a.s == 0) return {0, 0}; return {a.s * k, a.id}; }
static V cst(double c) { return {c, 0}; }
static void ival(V v, double &lo, double &hi) { auto &n = C[v.id]; if (v.s == 0) { lo = hi = 0; return; } double x = n.lo * v.s, y = n.hi * v.s; lo = min(x, y); hi = max(x, y); if (std::isnan(lo)) lo = -INF; if (std::isnan(hi)) hi = INF; }
static LD smpV(V v, int k) { return v.s == 0 ? 0 : (LD)v.s * C[v.id].s[k]; }
static void finishNode(CN &n) {
  // structural samples + interval
  for (int k = 0; k < K; ++k) {
    LD r = 0;
    switch (n.k) {
      case C_ONE: r = 1; break; case C_VAR: r = n.s[k]; break;
      case C_LIN: for (auto &p : n.t) r += (LD)p.second * C[p.first].s[k]; break;
      case C_MON: r = 1; for (auto &p : n.t) { int e = (int)p.second; LD b = C[p.first].s[k]; for (int i = 0; i < abs(e); ++i) r = e > 0 ? r * b : r / b; } break;
      case C_SQRT: r = sqrtl(smpV({n.t[0].second, n.t[0].first}, k)); break;
      case C_ABS: r = fabsl(C[n.t[0].first].s[k]); break;
      case C_MAX: r = -1e4000L; for (auto &p : n.t) r = fmaxl(r, smpV({p.second, p.first}, k)); break;
      case C_ITE: r = (C[n.t[0].first].s[k] != 0) ? smpV({n.t[1].second, n.t[1].first}, k) : smpV({n.t[2].second, n.t[2].first}, k); break;
      case C_LT0: r = C[n.t[0].first].s[k] < 0; break; case C_GT0: r = C[n.t[0].first].s[k] > 0; break; case C_EQ0: r = C[n.t[0].first].s[k] == 0; break;
      case C_AND: r = 1; for (auto &p : n.t) { bool b = C[p.first].s[k] != 0; if (p.second < 0) b = !b; if (!b) r = 0; } break;
      case C_FUN: { LD x = smpV({n.t[0].second, n.t[0].first}, k), y = n.t.size() > 1 ? smpV({n.t[1].second, n.t[1].first}, k) : 0; r = evalOp<LD>(n.op, x, y, 0); break; }
      case C_UF: { r = 0.37 + 0.11 * n.ufk; if (n.uf < UFN.size()) for (char ch : UFN[n.uf]) r += ch * (LD)0.01; for (int i = (int)n.t.size() - 1; i >= 0; --i) r = r * (LD)0.7 + sinl(smpV({n.t[i].second, n.t[i].first}, k) * (LD)(1.3 + i)); break; }
    }
    n.s[k] = r;
  }
  double lo = -INF, hi = INF;
  auto iv = [&](pair<int,double> p, double &l, double &h) { ival({p.second, p.first}, l, h); };
  switch (n.k) {
    case C_ONE: lo = hi = 1; break; case C_UF: lo = -UFB; hi = UFB; break; case C_VAR: lo = n.lo; hi = n.hi; break;
    case C_LIN: { lo = hi = 0; for (auto &p : n.t) { double l, h; iv(p, l, h); lo += l; hi += h; } break; }
    case C_MON: { lo = hi = 1; for (auto &p : n.t) { double l = C[p.first].lo, h = C[p.first].hi; int e = (int)p.second; int ae = abs(e);
        double pl = l, ph = h; if (ae % 2 == 0) { double m1 = fabs(l), m2 = fabs(h); double big = max(m1, m2), small = (l <= 0 && h >= 0) ? 0 : min(m1, m2); pl = pow(small, ae); ph = pow(big, ae); } else { pl = (l < 0 ? -pow(-l, ae) : pow(l, ae)); ph = (h < 0 ? -pow(-h, ae) : pow(h, ae)); }
        if (e < 0) { if (pl > 0) { double q = 1 / pl; pl = 1 / ph; ph = q; } else if (ph < 0) { double q = 1 / ph; ph = 1 / pl; pl = q; } else if (pl == 0) { pl = 1 / ph; ph = INF; } else { pl = -INF; ph = INF; } }
        double a[4] = { lo * pl, lo * ph, hi * pl, hi * ph }; double nl = INF, nh = -INF; for (double z : a) { if (std::isnan(z)) z = 0; nl = min(nl, z); nh = max(nh, z); } lo = nl; hi = nh; } break; }
    case C_SQRT: { double l, h; iv(n.t[0], l, h); lo = l > 0 ? sqrt(l) : 0; hi = h > 0 ? sqrt(h) : 0; break; }
    case C_ABS: { double l = C[n.t[0].first].lo, h = C[n.t[0].first].hi; lo = (l <= 0 && h >= 0) ? 0 : min(fabs(l), fabs(h)); hi = max(fabs(l), fabs(h)); break; }
    case C_MAX: { lo = hi = -INF; for (auto &p : n.t) { double l, h; iv(p, l, h); lo = max(lo, l); hi = max(hi, h); } break; }
    case C_ITE: { double l, h, l2, h2; iv(n.t[1], l, h); iv(n.t[2], l2, h2); lo = min(l, l2); hi = max(h, h2); break; }
    case C_FUN: if (n.op == O_EXP || n.op == O_COSH) lo = 0; if (n.op == O_SIN || n.op == O_COS || n.op == O_TANH) lo = -1, hi = 1; if (n.op == O_POW) { double l, h; iv(n.t[0], l, h); if (l >= 0) lo = 0; } break;
    default: break; }
  if (std::isnan(lo)) lo = -INF; if (std::isnan(hi)) hi = INF; n.lo = lo; n.hi = hi;
}
static unordered_map<uint64_t, vector<int>> SIG; // signature -> ids
static bool SWEEP = true; static void infLimit(int n); static bool proveZero(V d, set<int> *used); struct Obl { uint32_t ra, rb; double k; set<int> ex; int cid; int cid2; }; static vector<Obl> OBL;
static vector<V> fwd;                             // id -> merged value (s==0 && id==-1: none)
static uint64_t sigOf(const Smp &s, int shift) { // scale-free signature
  LD b = 0; int kb = -1; for (int k = 0; k < K; ++k) if (s[k] != 0) { b = s[k]; kb = k; break; } if (kb < 0) return 0;
  uint64_t h = 1469598103934665603ull + kb; for (int k = kb + 1; k < K; ++k) { LD r = s[k] / b; if (!isfinite((double)r)) return 1; int e; double m = frexp((double)r, &e); long long q = (long long)floor(m * 67108864.0 + 0.25 + 0.5 * shift); h = (h ^ (uint64_t)(q * 131 + e)) * 1099511628211ull; } return h | 2;
}
static bool sampleEq(V a, V b, double tol = 1e-10) { for (int k = 0; k < K; ++k) { LD x = smpV(a, k), y = smpV(b, k); if (!(fabsl(x - y) <= tol * (fabsl(x) + fabsl(y)) + 1e-18L)) return false; } return true; }
static int nest = 0; static V norm(V v);
static V mkNode(CK k, vector<pair<int,double>> t, uint8_t op = 0, uint32_t uf = 0, uint32_t ufk = 0) {
  string ky = key(k, op, t, uf, ufk); auto it = HC.find(ky); if (it != HC.end()) { V f = fwd[it->second]; if (f.id >= 0) return f; return {1, it->second}; }
  CN n; n.k = k; n.op = op; n.t = move(t); n.uf = uf; n.ufk = ufk; n.raw = curRaw; n.lo = -INF; n.hi = INF; n.s.fill(0); finishNode(n);
  int id = C.size(); C.push_back(n); HC[ky] = id; fwd.push_back({0, -1});
  if (k >= C_LT0 && k <= C_AND) return {1, id};
  if (k == C_ONE || k == C_VAR) return {1, id};
  if (SWEEP && nest == 0 && !late()) {
    bool fin = true; for (int q = 0; q < K; ++q) if (!isfinite((double)C[id].s[q])) fin = false;
    if (fin) {
      // constant?
      uint64_t h0 = sigOf(C[id].s, 0), h1 = sigOf(C[id].s, 1); vector<int> cand; for (uint64_t h : { h0, h1 }) { auto f = SIG.find(h); if (f != SIG.end()) for (int c : f->second) if (find(cand.begin(), cand.end(), c) == cand.end()) cand.push_back(c); }
      int tries = 0;
      for (int c : cand) { if (fwd[c].id >= 0) continue; int kk = 0; while (kk < K && C[c].s[kk] == 0) ++kk; if (kk == K) continue; LD r = C[id].s[kk] / C[c].s[kk]; double ratio = (double)r; if (fabs(ratio - nearbyint(ratio)) < 1e-10 * fabs(ratio)) ratio = nearbyint(ratio); 
        if (!sampleEq({1, id}, {ratio, c}, 1e-9)) continue; bool own = false; if (k == C_MAX || k == C_ABS || k == C_ITE) for (size_t q = k == C_ITE ? 1 : 0; q < C[id].t.size(); ++q) if (C[id].t[q].first == c || norm({1, C[id].t[q].first}).id == c) own = true; if (own) continue; if (++tries > 3) break; ++nTry; ++nest; infLimit(2); set<int> used; V d = addV({1, id}, { -ratio, c }); bool ok = proveZero(d, &used); --nest;
        if (ok) { ++nMerge; fwd[id] = {ratio, c}; OBL.push_back({C[id].raw, C[c].raw, ratio, used, id, c}); return {ratio, c}; } }
      SIG[h0].push_back(id); if (h1 != h0) SIG[h1].push_back(id);
    }
  }
  return {1, id};
}
static V norm(V v) { while (v.id >= 0 && fwd[v.id].id >= 0) { V f = fwd[v.id]; v = {v.s * f.s, f.id}; } return v; }
// sums
static void flat(V v, vector<pair<int,double>> &out) { v = norm(v); if (v.s == 0) return; auto &n = C[v.id]; if (n.k == C_LIN) for (auto &p : n.t) out.push_back({p.first, p.second * v.s}); else out.push_back({v.id, v.s}); }
static V mkLin(vector<pair<int,double>> t) {
  for (bool again = true; again;) { again = false; vector<pair<int,double>> u; for (auto &p : t) { if (p.first >= 0 && fwd[p.first].id >= 0) { again = true; flat({p.second, p.first}, u); } else u.push_back(p); } t.swap(u); }
  sort(t.begin(), t.end(), [](auto &a, auto &b) { return a.first < b.first; }); vector<pair<int,double>> r;
  for (size_t i = 0; i < t.size();) { size_t j = i; double s = 0, m = 0; for (; j < t.size() && t[j].first == t[i].first; ++j) { s += t[j].second; m += fabs(t[j].second); } if (fabs(s) > 1e-12 * m) r.push_back({t[i].first, s}); i = j; }
  if (r.empty()) return {0, 0}; if (r.size() == 1) return {r[0].second, r[0].first};
  // leading coefficient: first non-constant term
  double l = r[0].first == 0 ? r[1].second : r[0].second; for (auto &p : r) p.second /= l; V q = mkNode(C_LIN, r); return {q.s * l, q.id};
}
static V addV(V a, V b) { vector<pair<int,double>> t; flat(a, t); flat(b, t); return mkLin(t); }
// products
static V mkMon(double s, vector<pair<int,double>> f) {
  if (s == 0) return {0, 0};
  for (int guard = 0; guard < 64; ++guard) {
    bool ch = false; vector<pair<int,double>> g;
    for (auto &p : f) { if (p.second == 0 || p.first == 0) continue; V m = norm({1, p.first}); if (m.s == 0) { return {p.second > 0 ? 0 : NAN, 0}; } if (m.id != p.first || m.s != 1) { s *= pow(m.s, p.second); ch = true; } if (m.id == 0) continue; auto &n = C[m.id]; if (n.k == C_MON) { for (auto &q : n.t) g.push_back({q.first, q.second * p.second}); ch = true; } else g.push_back({m.id, p.second}); }
    sort(g.begin(), g.end(), [](auto &a, auto &b) { return a.first < b.first; }); vector<pair<int,double>> r; for (size_t i = 0; i < g.size();) { size_t j = i; double e = 0; for (; j < g.size() && g[j].first == g[i].first; ++j) e += g[j].second; if (e != 0) r.push_back({g[i].first, e}); i = j; }
    // sqrt(x)^2 -> x, abs(x)^2 -> x^2
    for (auto &p : r) { auto &n = C[p.first]; if ((n.k == C_SQRT) && fabs(p.second) >= 2) { int e = (int)p.second; int h = e / 2; int rem = e - 2 * h; pair<int,double> a = n.t[0]; s *= pow(a.second, h); p.second = rem; r.push_back({a.first, (double)h}); ch = true; break; }
      if (n.k == C_ABS && fabs(p.second) >= 2) { int e = (int)p.second; int h = e / 2; int rem = e - 2 * h; int x = n.t[0].first; p.second = rem; r.push_back({x, 2.0 * h}); ch = true; break; } }
    f.swap(r); if (!ch) break;
  }
  vector<pair<int,double>> r; for (auto &p : f) if (p.second != 0) r.push_back(p);
  if (r.empty()) return {s, 0}; if (r.size() == 1 && r[0].second == 1) return {s, r[0].first};
  V q = mkNode(C_MON, r); return {q.s * s, q.id};
}
static V mulV(V a, V b) { a = norm(a); b = norm(b); if (a.s == 0 || b.s == 0) return {0, 0}; if (a.id == 0) return scale(b, a.s); if (b.id == 0) return scale(a, b.s); return mkMon(a.s * b.s, {{a.id, 1}, {b.id, 1}}); }
static V powV(V a, int e) { a = norm(a); if (a.s == 0) return {e > 0 ? 0.0 : NAN, 0}; if (a.id == 0) return {pow(a.s, e), 0}; return mkMon(pow(a.s, e), {{a.id, (double)e}}); }
static V negV(V a) { return {-a.s, a.id}; }
// literals: s=+1/-1, id condition; constants: id==0 -> s>0 true, s<0 false
static V litTrue() { return {1, 0}; } static V litFalse() { return {-1, 0}; }
static V applyKnown(V l) { if (l.id == 0) return l; auto it = known.find(l.id); if (it == known.end()) return l; return (it->second == (l.s > 0)) ? litTrue() : litFalse(); }
static V condLT(V d) { // d < 0
  d = norm(d); if (d.s == 0) return litFalse(); if (d.id == 0) return d.s < 0 ? litTrue() : litFalse();
  double lo, hi; ival(d, lo, hi); if (hi < 0) return litTrue(); if (lo >= 0) return litFalse();
  if (fabs(d.s) > 1e290) { return smpV(d, 0) < 0 ? litTrue() : litFalse(); }
  // drop factors of known sign
  auto &n0 = C[d.id]; if (n0.k == C_MON) { vector<pair<int,double>> f = n0.t, g; double s = d.s; for (auto &p : f) { auto &m = C[p.first]; int e = (int)p.second; if (m.lo > 0) continue; if (m.hi < 0) { if (e & 1) s = -s; continue; } if (NOTIE && (m.lo >= 0 || e % 2 == 0)) continue; if (NOTIE && m.hi <= 0) { if (e & 1) s = -s; continue; } if (NOTIE) g.push_back({p.first, 1}); else g.push_back({p.first, (double)e}); } V r = mkMon(s > 0 ? 1 : -1, g); if (r.id != d.id) return condLT(r); d = {r.s, r.id}; }
  if (d.s > 0) return applyKnown(mkNode(C_LT0, {{d.id, 1}}));
  if (NOTIE) { V l = mkNode(C_LT0, {{d.id, 1}}); return applyKnown({-l.s, l.id}); }
  return applyKnown(mkNode(C_GT0, {{d.id, 1}}));
}
static V condLE(V d) { V g = condLT(negV(d)); return {-g.s, g.id}; }  // d<=0 == not(-d<0)
static V condLE_(V d) { d = norm(d); if (d.s == 0) return litTrue(); return condLE(d); }
static V condEQ(V d) { d = norm(d); if (d.s == 0) return litTrue(); if (d.id == 0) return litFalse(); double lo, hi; ival(d, lo, hi); if (lo > 0 || hi < 0) return litFalse(); return applyKnown(mkNode(C_EQ0, {{d.id, 1}})); }
static V andV(V a, V b) {
  if (a.id == 0) return a.s > 0 ? b : litFalse(); if (b.id == 0) return b.s > 0 ? a : litFalse();
  vector<pair<int,double>> t; auto fl = [&](V x) { if (x.s > 0 && C[x.id].k == C_AND) for (auto &p : C[x.id].t) t.push_back(p); else t.push_back({x.id, x.s > 0 ? 1.0 : -1.0}); }; fl(a); fl(b);
  sort(t.begin(), t.end()); t.erase(unique(t.begin(), t.end()), t.end()); for (size_t i = 0; i + 1 < t.size(); ++i) if (t[i].first == t[i + 1].first) return litFalse(); if (t.size() == 1) return {t[0].second, t[0].first};
  return applyKnown(mkNode(C_AND, t)); }
static V notV(V a) { return {-a.s, a.id}; }
static V orV(V a, V b) { return notV(andV(notV(a), notV(b))); }
static V absV(V x) { x = norm(x); if (x.s == 0) return x; double lo, hi; ival(x, lo, hi); if (lo >= 0) return x; if (hi <= 0) return negV(x); if (x.id == 0) return {fabs(x.s), 0}; if (C[x.id].k == C_ABS) return {fabs(x.s), x.id};
  if (C[x.id].k == C_MON) { vector<pair<int,double>> f = C[x.id].t, in, out; for (auto &p : f) { auto &m = C[p.first]; if (m.lo >= 0 || ((int)p.second) % 2 == 0) out.push_back(p); else in.push_back(p); } if (!out.empty()) { V a = in.empty() ? V{1, 0} : absV(mkMon(1, in)); V o = mkMon(1, out); V r = mulV(a, o); return {fabs(x.s) * r.s, r.id}; } }
  V a = mkNode(C_ABS, {{x.id, 1}}); return {a.s * fabs(x.s), a.id}; }
static V maxV(vector<V> a) {
  vector<pair<int,double>> t; for (auto x : a) { x = norm(x); if (C[x.id].k == C_MAX && x.s > 0) for (auto &p : C[x.id].t) t.push_back({p.first, p.second * x.s}); else t.push_back({x.s == 0 ? 0 : x.id, x.s}); }
  // remove dominated
  vector<pair<int,double>> u; double cl = -INF; bool hasC = false; for (auto &p : t) if (p.first == 0) { cl = max(cl, p.second); hasC = true; } else u.push_back(p);
  if (hasC) u.push_back({0, cl}); sort(u.begin(), u.end(), [](auto &a, auto &b) { return a.first != b.first ? a.first < b.first : a.second < b.second; }); vector<pair<int,double>> w; for (auto &p : u) { if (!w.empty() && w.back().first == p.first && rnd42(w.back().second) == rnd42(p.second)) continue; w.push_back(p); }
  vector<char> dead(w.size(), 0); for (size_t i = 0; i < w.size(); ++i) for (size_t j = 0; j < w.size(); ++j) if (i != j && !dead[i] && !dead[j]) { double l, h, l2, h2; ival({w[i].second, w[i].first}, l, h); ival({w[j].second, w[j].first}, l2, h2); if (h2 <= l) { dead[j] = 1; continue; } if (w.size() <= 6) { ++nest; V d = addV({w[i].second, w[i].first}, { -w[j].second, w[j].first }); --nest; double dl, dh; ival(d, dl, dh); if (dl >= 0) dead[j] = 1; } }
  vector<pair<int,double>> z; for (size_t i = 0; i < w.size(); ++i) if (!dead[i]) z.push_back(w[i]);
  if (z.size() == 1) return {z[0].second, z[0].first};
  if (z.size() == 2 && z[0].first == z[1].first && z[0].first != 0 && rnd42(z[0].second) == -rnd42(z[1].second)) return absV({z[0].second, z[0].first});
  double s = 0; for (auto &p : z) if (p.second != 0 && p.first != 0) { s = fabs(p.second); break; } if (s == 0) s = 1; for (auto &p : z) p.second /= s; V q = mkNode(C_MAX, z); return {q.s * s, q.id}; }
static V minV(V a, V b) { return negV(maxV({negV(a), negV(b)})); }
static V sqrtV(V x) { x = norm(x); if (x.s == 0) return x; if (x.id == 0) return {sqrt(x.s), 0}; 
  if (C[x.id].k == C_MON) { bool ev = true; for (auto &p : C[x.id].t) if ((int)p.second % 2) ev = false; if (ev && x.s > 0) { vector<pair<int,double>> h; for (auto &p : C[x.id].t) h.push_back({p.first, p.second / 2}); return absV(mkMon(sqrt(x.s), h)); } }
  double a = fabs(x.s); V q = mkNode(C_SQRT, {{x.id, x.s > 0 ? 1.0 : -1.0}}); return {q.s * sqrt(a), q.id}; }
static V iteV(V c, V x, V y) {
  x = norm(x); y = norm(y); if (c.id == 0) return c.s > 0 ? x : y; if (c.s < 0) { swap(x, y); c.s = 1; }
  if (x.id == y.id && (rnd42(x.s) == rnd42(y.s) || (x.s == 0 && y.s == 0))) return x; if (x.s == 0 && y.s == 0) return x;
  // simplify nested if-then-else with the same condition
  auto strip = [&](V v, bool br) { if (v.s != 0 && C[v.id].k == C_ITE && C[v.id].t[0].first == c.id) { auto &q = C[v.id].t[br ? 1 : 2]; return norm({v.s * q.second, q.first}); } return v; };
  x = strip(x, true); y = strip(y, false); if (x.id == y.id && rnd42(x.s) == rnd42(y.s)) return x;
  if (C[c.id].k == C_LT0) { V d = {1, C[c.id].t[0].first}; ++nest; V e = addV(x, negV(y)); --nest; e = norm(e); if (e.s != 0 && e.id == d.id) return e.s > 0 ? minV(x, y) : maxV({x, y}); }
  double s = x.s != 0 ? x.s : y.s; if (x.s != 0 && y.s != 0 && x.id == 0 && y.id != 0) s = y.s; vector<pair<int,double>> t = { {c.id, 1}, {x.s == 0 ? 0 : x.id, x.s / s}, {y.s == 0 ? 0 : y.id, y.s / s} }; V q = mkNode(C_ITE, t); return {q.s * s, q.id}; }

// ------------------------------------------------------------------ polynomials
typedef vector<pair<int,int>> Mon;
struct MonH { size_t operator()(const Mon &m) const { size_t h = 1469598103934665603ull; for (auto &p : m) h = (h ^ (p.first * 64 + p.second + 17)) * 1099511628211ull; return h; } };
struct CoefT { double c, m; };
typedef unordered_map<Mon, CoefT, MonH> Poly;
static const size_t TERMCAP = 6000; static uint64_t polyOps = 0, polyBudget = 0;
static void padd(Poly &p, const Mon &m, double c, double mag) { auto &e = p[m]; e.c += c; e.m += mag; ++polyOps; }
static void pclean(Poly &p) { for (auto it = p.begin(); it != p.end();) { if (fabs(it->second.c) <= 1e-11 * it->second.m) it = p.erase(it); else ++it; } }
static Mon mmul(const Mon &a, const Mon &b) { Mon r; size_t i = 0, j = 0; while (i < a.size() || j < b.size()) { if (j == b.size() || (i < a.size() && a[i].first < b[j].first)) r.push_back(a[i++]); else if (i == a.size() || b[j].first < a[i].first) r.push_back(b[j++]); else { int e = a[i].second + b[j].second; if (e) r.push_back({a[i].first, e}); ++i; ++j; } } return r; }
static void toMon(int id, int e, Mon &m, double &s) { V f = norm({1, id}); if (f.id == 0) { s *= pow(f.s, e); return; } s *= pow(f.s, e); auto &n = C[f.id]; if (n.k == C_MON) { for (auto &p : n.t) toMon(p.first, (int)p.second * e, m, s); } else { Mon q = {{f.id, e}}; m = mmul(m, q); } }
static Poly polyOf(V v) { Poly p; vector<pair<int,double>> t; flat(v, t); for (auto &q : t) { Mon m; double s = q.second; if (q.first != 0) toMon(q.first, 1, m, s); padd(p, m, s, fabs(s)); } pclean(p); return p; }
struct Case { vector<pair<V,int>> lits; }; // (V d, kind): kind 0: literal (cond id, sign); kind 1: d >= 0
static string zq(double c);
static bool z3Infeasible(const vector<pair<V,int>> &lits); static uint64_t nSplit = 0;
static bool caseFeasibleBySample(const vector<pair<V,int>> &lits) { for (int k = 0; k < K; ++k) { bool ok = true; for (auto &l : lits) { if (l.second == 0) { bool b = C[l.first.id].s[k] != 0; if (l.first.s < 0) b = !b; if (!b) ok = false; } else if (smpV(l.first, k) < 0) ok = false; if (!ok) break; } if (ok) return true; } return false; }
static bool rewriteZero(Poly P, set<int> *used, vector<pair<V,int>> lits, int depth);
static bool substPow(Poly &P, int base, V val) { // replace base^e by val^e
  Poly R; for (auto &kv : P) { int e = 0; Mon rest; for (auto &p : kv.first) if (p.first == base) e = p.second; else rest.push_back(p); if (!e) { padd(R, kv.first, kv.second.c, kv.second.m); continue; } if (val.s == 0) { if (e < 0) return false; continue; } double s = kv.second.c, f = 1; Mon m = rest; if (val.id != 0) toMon(val.id, e, m, f); f *= pow(val.s, e); padd(R, m, s * f, fabs(kv.second.m * f)); if (R.size() > TERMCAP) return false; } pclean(R); P.swap(R); return true; }
static bool rewriteZero(Poly P, set<int> *used, vector<pair<V,int>> lits, int depth) {
  for (int iter = 0; iter < 6000; ++iter) {
    pclean(P); if (P.empty()) return true; if (P.size() > TERMCAP || polyOps > polyBudget || late()) return false;
    // factor common powers, find the highest expandable base
    map<int, pair<int,int>> ex; map<int,int> cnt; // base -> min,max exponent
    for (auto &kv : P) for (auto &p : kv.first) { auto it = ex.find(p.first); if (it == ex.end()) ex[p.first] = {p.second, p.second}; else { it->second.first = min(it->second.first, p.second); it->second.second = max(it->second.second, p.second); } cnt[p.first]++; }
    int pick = -1; for (auto it = ex.rbegin(); it != ex.rend(); ++it) { int b = it->first; auto &n = C[b]; bool all = cnt[b] == (int)P.size(); int mn = all ? it->second.first : min(0, it->second.first), mx = all ? it->second.second : max(0, it->second.second); if (mn == mx) { /* common factor */ if (mn != 0) { pick = b; break; } continue; } if (mn > 0 || mn < 0) { if (n.k == C_LIN || mn < 0 || all) { pick = b; break; } } if (n.k == C_LIN) { pick = b; break; } if ((n.k == C_SQRT || n.k == C_ABS) && mx >= 2) { pick = b; break; } }
    if (pick < 0) break;
    int b = pick; CN &n = C[b]; bool all = cnt[b] == (int)P.size(); int mn = all ? ex[b].first : min(0, ex[b].first); int sh = -mn; if (used) used->insert(b);
    // shift exponents so that they are >= 0
    Poly R; Mon shm = {{b, sh}};
    if (sh != 0) { for (auto &kv : P) padd(R, mmul(kv.first, shm), kv.second.c, kv.second.m); P.swap(R); R.clear(); }
    int mx = 0; for (auto &kv : P) for (auto &p : kv.first) if (p.first == b) mx = max(mx, p.second);
    if (mx == 0) continue;
    if (n.k == C_LIN) {
      // powers of the sum
      vector<Poly> pw(mx + 1); pw[0][Mon()] = {1, 1}; Poly base; for (auto &q : n.t) { Mon m; double s = q.second; if (q.first) toMon(q.first, 1, m, s); padd(base, m, s, fabs(s)); }
      for (int e = 1; e <= mx; ++e) { for (auto &x : pw[e - 1]) for (auto &y : base) padd(pw[e], mmul(x.first, y.first), x.second.c * y.second.c, fabs(x.second.c * y.second.c)); if (pw[e].size() > TERMCAP) return false; }
      for (auto &kv : P) { int e = 0; Mon rest; for (auto &p : kv.first) if (p.first == b) e = p.second; else rest.push_back(p); if (!e) { padd(R, kv.first, kv.second.c, kv.second.m); continue; } for (auto &x : pw[e]) padd(R, mmul(rest, x.first), kv.second.c * x.second.c, kv.second.m * fabs(x.second.c)); if (R.size() > TERMCAP || polyOps > polyBudget) return false; }
      P.swap(R);
    } else if (n.k == C_SQRT || n.k == C_ABS) {
      if (mx < 2) continue;
      for (auto &kv : P) { int e = 0; Mon rest; for (auto &p : kv.first) if (p.first == b) e = p.second; else rest.push_back(p); int h = e / 2, rem = e % 2; double s = 1; Mon m = rest; if (rem) m = mmul(m, Mon{{b, 1}}); if (h) { if (n.k == C_SQRT) { s *= pow(n.t[0].second, h); toMon(n.t[0].first, h, m, s); } else toMon(n.t[0].first, 2 * h, m, s); } padd(R, m, kv.second.c * s, kv.second.m * fabs(s)); if (R.size() > TERMCAP) return false; }
      P.swap(R);
    }
  }
  pclean(P); if (P.empty()) return true;
  // case split
  if (depth > 9) return false;
  int pick = -1; for (auto &kv : P) for (auto &p : kv.first) { auto k = C[p.first].k; if ((k == C_ITE || k == C_MAX || k == C_ABS) && p.first > pick) pick = p.first; }
  auto infeasible = [&](const vector<pair<V,int>> &l) { if (caseFeasibleBySample(l)) return false; return z3Infeasible(l); };
  if (pick < 0) { if (lits.empty()) return false; return infeasible(lits); }
  ++nSplit; if (used) used->insert(pick); CN n = C[pick];
  if (n.k == C_ITE) {
    int c = n.t[0].first; for (auto &l : lits) if (l.second == 0 && l.first.id == c) { auto &q = n.t[l.first.s > 0 ? 1 : 2]; Poly Q = P; if (!substPow(Q, pick, {q.second, q.first})) return false; return rewriteZero(Q, used, lits, depth); }
    for (int br = 0; br < 2; ++br) { auto l2 = lits; l2.push_back({{br ? -1.0 : 1.0, c}, 0}); auto &q = n.t[br ? 2 : 1]; Poly Q = P; bool ok = substPow(Q, pick, {q.second, q.first}) && rewriteZero(Q, used, l2, depth + 1); if (!ok) { if (infeasible(l2)) continue; return false; } }
    return true;
  }
  if (n.k == C_ABS) { int x = n.t[0].first; for (int sg = 0; sg < 2; ++sg) { auto l2 = lits; l2.push_back({{sg ? -1.0 : 1.0, x}, 1}); Poly Q = P; bool ok = substPow(Q, pick, {sg ? -1.0 : 1.0, x}) && rewriteZero(Q, used, l2, depth + 1); if (!ok) { if (infeasible(l2)) continue; return false; } } return true; }
  // MAX
  for (size_t i = 0; i < n.t.size(); ++i) { auto l2 = lits; ++nest; for (size_t j = 0; j < n.t.size(); ++j) if (j != i) l2.push_back({addV({n.t[i].second, n.t[i].first}, { -n.t[j].second, n.t[j].first }), 1}); --nest; Poly Q = P; bool ok = substPow(Q, pick, {n.t[i].second, n.t[i].first}) && rewriteZero(Q, used, l2, depth + 1); if (!ok) { if (infeasible(l2)) continue; return false; } }
  return true;
}
static uint64_t PB1 = 300000;
static bool proveZero(V d, set<int> *used) { d = norm(d); if (d.s == 0) return true; polyBudget = polyOps + PB1; Poly P = polyOf(d); bool sn = nest; (void)sn; ++nest; bool r = rewriteZero(P, used, {}, 0); --nest; return r; }

// ------------------------------------------------------------------ canonicalise the dump
static void canonicalise() {
  C.clear(); fwd.clear(); CN one; one.k = C_ONE; one.op = 0; one.lo = one.hi = 1; one.raw = 0; one.s.fill(1); C.push_back(one); fwd.push_back({0, -1});
  canon.assign(N.size(), {0, 0}); size_t pd = 0; (void)pd;
  vector<uint32_t> decAt; // conditions decided on the path become known as soon as they are canonical
  unordered_map<uint32_t, int> dec; for (auto &d : PATH) dec[d.node] = d.val;
  for (uint32_t i = 1; i < N.size(); ++i) {
    if (!live[i]) continue; auto &n = N[i]; curRaw = i; V r{0, 0}; auto a = [&]() { return norm(canon[n.a]); }; auto b = [&]() { return norm(canon[n.b]); };
    switch (n.op) {
      case O_CONST: r = {n.v, 0}; break;
      case O_VAR: { CN v; v.k = C_VAR; v.op = 0; v.t = {{(int)n.a, 1}}; v.lo = VARS[n.a].lo; v.hi = VARS[n.a].hi; v.raw = i; for (int k = 0; k < K; ++k) v.s[k] = RS[i][k]; C.push_back(v); fwd.push_back({0, -1}); r = {1, (int)C.size() - 1}; if (SWEEP) { uint64_t h0 = sigOf(v.s, 0), h1 = sigOf(v.s, 1); SIG[h0].push_back(r.id); if (h1 != h0) SIG[h1].push_back(r.id); } break; }
      case O_ADD: r = addV(a(), b()); break; case O_SUB: r = addV(a(), negV(b())); break; case O_NEG: r = negV(a()); break;
      case O_MUL: r = mulV(a(), b()); break; case O_DIV: r = mulV(a(), powV(b(), -1)); break;
      case O_SQRT: r = sqrtV(a()); break; case O_ABS: r = absV(a()); break; case O_MIN: r = minV(a(), b()); break; case O_MAX: r = maxV({a(), b()}); break;
      case O_ITE: r = iteV(applyKnown(canon[n.a]), b(), norm(canon[n.c])); break;
      case O_PAIR: r = {0, 0}; break;
      case O_UF: { vector<pair<int,double>> t; for (uint32_t l = n.c; l; l = N[l].b) { V x = norm(canon[N[l].a]); t.push_back({x.s == 0 ? 0 : x.id, x.s}); } r = mkNode(C_UF, t, 0, n.a, n.b); break; }
      case O_LT: r = condLT(addV(a(), negV(b()))); break; case O_LE: r = condLE_(addV(a(), negV(b()))); break; case O_EQ: r = condEQ(addV(a(), negV(b()))); break;
      case O_AND: r = andV(applyKnown(canon[n.a]), applyKnown(canon[n.b])); break; case O_OR: r = orV(applyKnown(canon[n.a]), applyKnown(canon[n.b])); break; case O_NOT: r = notV(canon[n.a]); break;
      case O_XOR: { V x = applyKnown(canon[n.a]), y = applyKnown(canon[n.b]); r = orV(andV(x, notV(y)), andV(notV(x), y)); break; }
      default: { V x = a(); vector<pair<int,double>> t = {{x.s == 0 ? 0 : x.id, x.s}}; if (arity(n.op) > 1) { V y = b(); t.push_back({y.s == 0 ? 0 : y.id, y.s}); }
        if (n.op == O_POW && t[1].first == 0 && t[1].second == nearbyint(t[1].second) && fabs(t[1].second) <= 6) { r = powV(x, (int)t[1].second); break; }
        if (n.op == O_POW && t[1].first == 0 && t[1].second == 0.5) { r = sqrtV(x); break; }
        r = mkNode(C_FUN, t, n.op); } }
    canon[i] = r;
    if (opIsBool(n.op)) { auto d = dec.find(i); if (d != dec.end()) { if (r.id != 0) { known[r.id] = (r.s > 0) == (d->second != 0); if (C[r.id].k == C_AND && (r.s > 0) == (d->second != 0)) for (auto &p : C[r.id].t) known[p.first] = p.second > 0; } } continue; }
    // cross-check: canonical value agrees with the raw expression on every sample
    if (n.op != O_PAIR) for (int k = 0; k < K; ++k) { LD x = smpV(norm(r), k), y = RS[i][k]; if (isfinite((double)y) && !(fabsl(x - y) <= 1e-7L * (1 + fabsl(x) + fabsl(y)))) { ++nMismatch; if (nMismatch < 4) fprintf(stderr, "decide: canonical mismatch node %u %s sample %d: %Lg vs %Lg\n", i, OPN[n.op], k, x, y); break; } }
  }
}

// ------------------------------------------------------------------ SMT
static string zq(double c) { // exact or snapped rational
  char buf[128]; if (c == 0) return "0.0"; bool neg = c < 0; double x = fabs(c); 
  long long p0 = 0, q0 = 1, p1 = 1, q1 = 0; double y = x; string r; bool ok = false; long long P = 0, Q = 1;
  if (x < 1e15 && x > 1e-12) for (int it = 0; it < 24; ++it) { double fl = floor(y); if (fl > 1e15) break; long long a = (long long)fl; long long p2 = a * p1 + p0, q2 = a * q1 + q0; if (q2 > 2000000 || p2 > 4000000000000000LL) break; p0 = p1; q0 = q1; p1 = p2; q1 = q2; if (fabs((double)p1 / q1 - x) <= 3e-16 * x) { ok = true; P = p1; Q = q1; break; } double fr = y - fl; if (fr < 1e-14) break; y = 1 / fr; }
  if (ok) { if (Q == 1) snprintf(buf, sizeof buf, "%lld.0", P); else snprintf(buf, sizeof buf, "(/ %lld.0 %lld.0)", P, Q); r = buf; }
  else { int e; double m = frexp(x, &e); long long mi = (long long)ldexp(m, 53); e -= 53; while (!(mi & 1)) { mi >>= 1; ++e; } if (e >= 0 && e < 10) { snprintf(buf, sizeof buf, "%lld.0", mi << e); r = buf; } else { // 2^e as decimal string
      auto pow2 = [](int k) { vector<int> d = {1}; for (int i = 0; i < k; ++i) { int c = 0; for (auto &x : d) { int v = x * 2 + c; x = v % 10; c = v / 10; } if (c) d.push_back(c); } string s; for (int i = (int)d.size() - 1; i >= 0; --i) s.push_back('0' + d[i]); return s + ".0"; };
      snprintf(buf, sizeof buf, "%lld.0", mi); r = e < 0 ? string("(/ ") + buf + " " + pow2(-e) + ")" : string("(* ") + buf + " " + pow2(e) + ")"; } }
  return neg ? "(- " + r + ")" : r;
}
struct Enc { // encodes canonical nodes with a frontier; declarations and side facts are collected
  string decl, facts; unordered_map<int,string> nm; const set<int> *expand = nullptr; int maxDepth = 1 << 30; int nAtoms = 0; size_t defs = 0; bool ranges = true; set<int> varsUsed;
  string val(V v, int d) { v = norm(v); if (v.s == 0) return "0.0"; if (v.id == 0) return zq(v.s); string x = node(v.id, d); if (v.s == 1) return x; if (v.s == -1) return "(- " + x + ")"; return "(* " + zq(v.s) + " " + x + ")"; }
  string lit(V l, int d) { if (l.id == 0) return l.s > 0 ? "true" : "false"; string c = cond(l.id, d); return l.s > 0 ? c : "(not " + c + ")"; }
  string cond(int id, int d) { auto it = nm.find(id); if (it != nm.end()) return it->second; CN &n = C[id]; string r; string me = "b" + to_string(id);
    auto op = [&](const char *o) { return string("(") + o + " " + val({1, n.t[0].first}, d + 1) + " 0.0)"; };
    if (n.k == C_LT0) r = op("<"); else if (n.k == C_GT0) r = op(">"); else if (n.k == C_EQ0) r = op("="); else if (n.k == C_AND) { r = "(and"; for (auto &p : vector<pair<int,double>>(n.t)) r += " " + lit({p.second, p.first}, d + 1); r += ")"; } else r = "true";
    decl += "(define-fun " + me + " () Bool " + r + ")\n"; nm[id] = me; return me; }
  string atom(int id) { string me = "a" + to_string(id); decl += "(declare-const " + me + " Real)\n"; nm[id] = me; ++nAtoms; CN &n = C[id]; if (ranges) { if (n.lo > -1e200) facts += "(assert (>= " + me + " " + zq(n.lo) + "))\n"; if (n.hi < 1e200) facts += "(assert (<= " + me + " " + zq(n.hi) + "))\n"; } if (n.k == C_VAR) varsUsed.insert(id); return me; }
  bool opaque(int id, int d) { CN &n = C[id]; if (n.k == C_MON) return d > maxDepth + 2; if (expand && !expand->count(id)) return true; return d > maxDepth; }
  string node(int id, int d) {
    auto it = nm.find(id); if (it != nm.end()) return it->second; CN n = C[id]; string me = "e" + to_string(id);
    if (n.k == C_VAR || n.k == C_UF || (n.k == C_FUN)) return atom(id);
    if (n.k != C_MON && n.k != C_LIN && opaque(id, d)) return atom(id);
    if (n.k == C_LIN && !expand && d > maxDepth) return atom(id);
    if (n.k == C_LIN && expand && d > 0 && !expand->count(id)) return atom(id);
    if (n.k == C_LIN) { string r = "(+"; for (auto &p : n.t) r += " " + val({p.second, p.first}, d + 1); r += ")"; decl += "(define-fun " + me + " () Real " + r + ")\n"; ++defs; nm[id] = me; return me; }
    if (n.k == C_MON) { string r = "(*"; int cnt = 0; for (auto &p : n.t) { int e = (int)p.second; string b = node(p.first, d + 1); if (e < 0) { string rk = "r" + to_string(p.first); if (!nm.count(-p.first - 1000000)) { nm[-p.first - 1000000] = rk; decl += "(declare-const " + rk + " Real)\n"; facts += "(assert (= (* " + b + " " + rk + ") 1.0))\n"; CN &m = C[p.first]; if (m.lo >= 0) facts += "(assert (> " + rk + " 0.0))\n"; if (m.lo > 0 && m.lo < 1e200) facts += "(assert (<= " + rk + " " + zq(1 / m.lo * (1 + 1e-12)) + "))\n"; } b = rk; } for (int i = 0; i < abs(e); ++i) { r += " " + b; ++cnt; } } r = cnt == 1 ? r.substr(3) : r + ")"; decl += "(define-fun " + me + " () Real " + r + ")\n"; ++defs; nm[id] = me; return me; }
    if (n.k == C_SQRT) { string x = val({n.t[0].second, n.t[0].first}, d + 1); decl += "(declare-const " + me + " Real)\n"; facts += "(assert (and (>= " + me + " 0.0) (= (* " + me + " " + me + ") " + x + ")))\n"; if (n.lo > 0 && n.lo < 1e200) facts += "(assert (>= " + me + " " + zq(n.lo * (1 - 1e-12)) + "))\n"; if (n.hi < 1e200) facts += "(assert (<= " + me + " " + zq(n.hi * (1 + 1e-12)) + "))\n"; ++defs; nm[id] = me; return me; }
    if (n.k == C_ABS) { string x = val({1, n.t[0].first}, d + 1); decl += "(define-fun " + me + " () Real (ite (< " + x + " 0.0) (- " + x + ") " + x + "))\n"; ++defs; nm[id] = me; return me; }
    if (n.k == C_MAX) { string r = val({n.t[0].second, n.t[0].first}, d + 1); for (size_t i = 1; i < n.t.size(); ++i) { string x = val({n.t[i].second, n.t[i].first}, d + 1); string t = me + "_" + to_string(i); decl += "(define-fun " + t + " () Real (ite (< " + r + " " + x + ") " + x + " " + r + "))\n"; r = t; } ++defs; nm[id] = r; return r; }
    if (n.k == C_ITE) { string c = cond(n.t[0].first, d + 1), x = val({n.t[1].second, n.t[1].first}, d + 1), y = val({n.t[2].second, n.t[2].first}, d + 1); decl += "(define-fun " + me + " () Real (ite " + c + " " + x + " " + y + "))\n"; ++defs; nm[id] = me; return me; }
    return atom(id);
  }
};
// raw encoding: operations of the real code; nodes whose canonical value is an unexpanded atom become free variables
struct RawEnc {
  string decl, facts; unordered_map<uint32_t,string> nm; unordered_map<int,string> atoms; const set<int> *expand; set<int> roots; size_t ops = 0;
  RawEnc(const set<int> *e) : expand(e) {}
  string atomVal(V v) { v = norm(v); if (v.s == 0) return "0.0"; if (v.id == 0) return zq(v.s); auto it = atoms.find(v.id); string a; if (it == atoms.end()) { a = "a" + to_string(v.id); decl += "(declare-const " + a + " Real)\n"; CN &n = C[v.id]; if (n.lo > 0) facts += "(assert (> " + a + " 0.0))\n"; else if (n.lo >= 0) facts += "(assert (>= " + a + " 0.0))\n"; atoms[v.id] = a; } else a = it->second; if (v.s == 1) return a; return "(* " + zq(v.s) + " " + a + ")"; }
  bool cut(uint32_t i, int d) { if (d == 0) return false; V v = norm(canon[i]); if (v.id == 0 || v.s == 0) return true; CN &n = C[v.id]; if (n.k == C_VAR || n.k == C_UF || n.k == C_FUN) return true; if (expand->count(v.id)) return false; if (n.k == C_MON) return false; if (n.k == C_LIN) { return false; } return true; }
  size_t cap = 4000; bool over = false;
  string enc(uint32_t i, int d) {
    auto it = nm.find(i); if (it != nm.end()) return it->second; if (++ops > cap) { over = true; return "0.0"; } RN &n = N[i]; string r;
    if (n.op == O_CONST) return nm[i] = zq(n.v);
    if (opIsBool(n.op)) { V l = applyKnown(canon[i]); if (l.id == 0) return nm[i] = l.s > 0 ? "true" : "false"; string me = "b" + to_string(l.id); if (!atoms.count(-l.id)) { atoms[-l.id] = me; decl += "(declare-const " + me + " Bool)\n"; } return nm[i] = l.s > 0 ? me : "(not " + me + ")"; }
    if (cut(i, d)) return nm[i] = atomVal(canon[i]);
    auto A = [&]() { return enc(n.a, d + 1); }; auto B = [&]() { return enc(n.b, d + 1); }; string x, y, z;
    switch (n.op) {
      case O_ADD: x = A(); y = B(); r = "(+ " + x + " " + y + ")"; break; case O_SUB: x = A(); y = B(); r = "(- " + x + " " + y + ")"; break; case O_NEG: r = "(- " + A() + ")"; break; case O_MUL: x = A(); y = B(); r = "(* " + x + " " + y + ")"; break;
      case O_DIV: { x = A(); y = B(); if (norm(canon[n.b]).id == 0) { r = "(/ " + x + " " + y + ")"; break; } string q = "q" + to_string(n.b); if (!nm.count(0x80000000u | n.b)) { nm[0x80000000u | n.b] = q; decl += "(declare-const " + q + " Real)\n"; facts += "(assert (= (* " + y + " " + q + ") 1.0))\n"; } r = "(* " + x + " " + q + ")"; break; }
      case O_SQRT: { x = A(); string q = "s" + to_string(i); decl += "(declare-const " + q + " Real)\n"; facts += "(assert (and (>= " + q + " 0.0) (= (* " + q + " " + q + ") " + x + ")))\n"; return nm[i] = q; }
      case O_ABS: x = A(); r = "(ite (< " + x + " 0.0) (- " + x + ") " + x + ")"; break; case O_MIN: x = A(); y = B(); r = "(ite (< " + x + " " + y + ") " + x + " " + y + ")"; break; case O_MAX: x = A(); y = B(); r = "(ite (< " + x + " " + y + ") " + y + " " + x + ")"; break;
      case O_ITE: x = enc(n.a, d + 1); y = B(); z = enc(n.c, d + 1); r = "(ite " + x + " " + y + " " + z + ")"; break;
      default: return nm[i] = atomVal(canon[i]); }
    string me = "n" + to_string(i); decl += "(define-fun " + me + " () Real " + r + ")\n"; return nm[i] = me;
  }
};
// one z3 process, answers read with a deadline
struct Z3 { pid_t pid = -1; int in = -1, out = -1; string buf; string exe; vector<string> args;
  Z3(string e = "z3-new") : exe(e) {}
  void start() { int a[2], b[2]; if (pipe(a) || pipe(b)) return; pid = fork(); if (pid == 0) { dup2(a[0], 0); dup2(b[1], 1); dup2(b[1], 2); close(a[0]); close(a[1]); close(b[0]); close(b[1]); if (exe == "cvc5") execlp("cvc5", "cvc5", "--incremental", "--lang=smt2", "-q", (char *)0); execlp(exe.c_str(), exe.c_str(), "-in", (char *)0); _exit(127); } close(a[0]); close(b[1]); in = a[1]; out = b[0]; }
  void stop() { if (pid > 0) { kill(pid, SIGKILL); waitpid(pid, 0, 0); close(in); close(out); } pid = -1; buf.clear(); }
  ~Z3() { stop(); }
  // sends text, returns everything up to the end marker; "" on timeout
  string ask(const string &q, int ms) {
    if (pid < 0) start(); string s = "(reset)\n"; s += "(set-option :timeout " + to_string(ms) + ")\n"; s += q + "\n(echo \"@@end\")\n"; size_t o = 0; double dl = nowS() + ms / 1000.0 + 1.0; string r;
    while (true) { struct pollfd pf[2] = {{out, POLLIN, 0}, {in, POLLOUT, 0}}; int np = o < s.size() ? 2 : 1; double left = dl - nowS(); if (left <= 0) { stop(); return ""; } int pr = poll(pf, np, (int)(left * 1000) + 1); if (pr <= 0) { stop(); return ""; }
      if (np == 2 && (pf[1].revents & (POLLERR | POLLHUP))) { stop(); return ""; }
      if (np == 2 && (pf[1].revents & POLLOUT)) { ssize_t w = write(in, s.data() + o, min<size_t>(s.size() - o, 4096)); if (w <= 0) { stop(); return ""; } o += w; }
      if (pf[0].revents & (POLLIN | POLLHUP)) { char b[65536]; ssize_t n = read(out, b, sizeof b); if (n <= 0) { stop(); return ""; } r.append(b, n); size_t e = r.find("@@end"); if (e != string::npos) return r.substr(0, e); } }
  }
};
static Z3 *Z; static double zTime = 0; static uint64_t zQ = 0, zUnsat = 0, zSat = 0, zUnk = 0, zErr = 0; static int TMS = 2000;
static string zAsk(const string &q, int ms) { double t = nowS(); string r = Z->ask(q, ms); zTime += nowS() - t; ++zQ; if (r.find("(error") != string::npos) { ++zErr; if (getenv("DECIDE_DEBUG")) fprintf(stderr, "z3 error: %s\n", r.substr(0, 300).c_str()); return "unknown"; } if (r.compare(0, 5, "unsat") == 0) ++zUnsat; else if (r.compare(0, 3, "sat") == 0) ++zSat; else ++zUnk; return r; }
static map<vector<pair<int,int>>, bool> infMemo; static int infBudget = 1 << 30, infMs = 300;
static bool z3Infeasible(const vector<pair<V,int>> &lits) {
  vector<pair<int,int>> kk; for (auto &l : lits) kk.push_back({l.first.id * (l.first.s < 0 ? -1 : 1), l.second}); sort(kk.begin(), kk.end()); auto it = infMemo.find(kk); if (it != infMemo.end()) return it->second;
  bool res = false; if (nowS() - T0 < BUDGET && infBudget-- > 0) for (int md : {3, 8}) { Enc e; e.maxDepth = md; string as; for (auto &l : lits) { if (l.second == 0) as += "(assert " + e.lit(l.first, 0) + ")\n"; else as += "(assert (>= " + e.val(l.first, 0) + " 0.0))\n"; } if (e.decl.size() > 200000) break; string r = zAsk(e.decl + e.facts + as + "(check-sat)", infMs); if (r.compare(0, 5, "unsat") == 0) { res = true; break; } if (r.compare(0, 3, "sat") != 0) break; }
  return infMemo[kk] = res;
}

static void infLimit(int n) { infBudget = n; infMs = n > 1000 ? 300 : 100; }
// ------------------------------------------------------------------ main
static string js(const string &s) { string r = "\""; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if ((unsigned char)c < 32) r += ' '; else r += c; } return r + "\""; }
int main(int argc, char **argv) {
  T0 = nowS(); signal(SIGPIPE, SIG_IGN); string out = "", cexp = "", neg = "", dump = ""; int nsearch = 60; int leMs = 15000; bool obl = true; int negMax = 40; int negMs = 1000; double oblT = 6, negTime = 10, negSearch = 1; string triedF; set<string> tried;
  for (int i = 1; i < argc; ++i) { string a = argv[i]; auto nx = [&]() { return string(argv[++i]); }; if (a == "--out") out = nx(); else if (a == "--cex") cexp = nx(); else if (a == "--t") TMS = stoi(nx()); else if (a == "--budget") BUDGET = stod(nx()); else if (a == "--negate") neg = nx(); else if (a == "--search") nsearch = stoi(nx()); else if (a == "--uf") UFB = stod(nx()); else if (a == "--tie") NOTIE = false; else if (a == "--nosweep") SWEEP = false; else if (a == "--le") leMs = stoi(nx()); else if (a == "--noobl") obl = false; else if (a == "--poly") PB1 = stoull(nx()); else if (a == "--negms") negMs = stoi(nx()); else if (a == "--negtime") negTime = stod(nx()); else if (a == "--negsearch") negSearch = stod(nx()); else if (a == "--tried") triedF = nx(); else if (a == "--oblt") oblT = stod(nx()); else if (a == "--negmax") negMax = stoi(nx()); else if (a == "--seed") rng ^= stoull(nx()) * 0x9e3779b97f4a7c15ull; else dump = a; }
  if (!load(dump.c_str())) { fprintf(stderr, "decide: cannot read %s\n", dump.c_str()); return 3; } markLive(); Z = new Z3();
  for (int i = 0; i < 10; ++i) rnd();
  // samples
  vector<LD> base(VARS.size()); for (size_t i = 0; i < VARS.size(); ++i) base[i] = N[VARS[i].node].v;
  RS.assign(N.size(), Smp()); vector<vector<LD>> samples; vector<LD> o; double rad = 1; samples.push_back(base); int tries = 0;
  while ((int)samples.size() < K && tries < 400) { ++tries; vector<LD> v(VARS.size()); for (size_t i = 0; i < VARS.size(); ++i) { double lo = VARS[i].lo, hi = VARS[i].hi; LD x = rad >= 1 ? (LD)lo + (hi - lo) * rnd() : base[i] + (LD)(hi - lo) * rad * (rnd() - 0.5); if (x < lo) x = lo; if (x > hi) x = hi; v[i] = (double)x; } evalAll<LD>(v, o); if (pathOK(o, PATH.size())) samples.push_back(v); else if (tries % 4 == 0) rad *= 0.6; }
  K = samples.size(); for (int k = 0; k < K; ++k) { evalAll<LD>(samples[k], o); for (size_t i = 0; i < N.size(); ++i) RS[i][k] = o[i]; }
  bool wantSweep = SWEEP; bool swept = false; SWEEP = false; canonicalise();
  if (wantSweep) { bool need = false; for (auto &c : CLAIMS) { if (c.kind == 2) continue; ++nest; V d = addV(norm(canon[c.a]), negV(norm(canon[c.b]))); --nest; if (c.kind == 0 && norm(d).s != 0 && !proveZero(d, nullptr)) { need = true; break; } }
    if (need) { SWEEP = true; swept = true; HC.clear(); SIG.clear(); known.clear(); infMemo.clear(); OBL.clear(); double sb = BUDGET; BUDGET *= 0.6; canonicalise(); BUDGET = sb; } }
  infLimit(1 << 30); double tCanon = nowS() - T0;
  // claims
  struct Res { string status; string how; double ms; int cex = -1; string note; }; vector<Res> res(CLAIMS.size()); set<int> needObl; uint64_t nd = 0, proven = 0, violated = 0, unk = 0; vector<vector<double>> cexs;
  uint64_t oblUnsat = 0, oblUnk = 0, oblSat = 0, oblNorm = 0;
  auto oblCheck = [&](uint32_t ra, uint32_t rb, double k, const set<int> &ex) -> int { // 1 unsat 0 unknown -1 sat
    RawEnc e(&ex); string x = e.enc(ra, 0), y = e.enc(rb, 0); if (e.over) return 0; string q = e.decl + e.facts + "(assert (not (= " + x + " (* " + zq(k) + " " + y + "))))\n(check-sat)"; string r = zAsk(q, TMS); if (r.compare(0, 5, "unsat") == 0) return 1; if (r.compare(0, 3, "sat") == 0) { if (getenv("DECIDE_DEBUG")) { static int nn = 0; FILE *f = fopen(("/tmp/obl" + to_string(nn++) + ".smt2").c_str(), "w"); fputs(q.c_str(), f); fclose(f); } return -1; } return 0; };
  // dependency of claims on merges: every merged id reachable from the claim's raw cone is checked once
  auto claimEval = [&](const RClaim &c, LD a, LD b) -> LD { LD m = fmaxl(1, fmaxl(fabsl((LD)c.scale), fmaxl(fabsl(a), fabsl(b)))); LD d = c.kind == 0 ? fabsl(a - b) : c.kind == 1 ? a - b : (a != 0 ? -1 : 1); if (std::isnan((double)a) || std::isnan((double)b)) return 1e30L; if (c.kind == 2) return d; return d - (LD)c.tol * m; };
  auto pinConfirm = [&](const RClaim &) { };
  (void)pinConfirm;
  auto search = [&](vector<size_t> idx) { // sample search over path-satisfying points; records first counterexample per claim
    vector<double> vd(VARS.size()); vector<double> od; int got = 0; set<size_t> left(idx.begin(), idx.end());
    for (int it = 0; it < nsearch * 3 && !left.empty() && got < nsearch && nowS() - T0 < BUDGET * 1.3; ++it) {
      double rr = it == 0 ? 0 : it < nsearch ? 1 : it < 2 * nsearch ? rad : rad * 0.3;
      bool ext = it % 3 == 1; for (size_t i = 0; i < VARS.size(); ++i) { double lo = VARS[i].lo, hi = VARS[i].hi; double x; if (it == 0) x = (double)base[i]; else if (rr >= 1) { x = lo + (hi - lo) * rnd(); if (ext) { double z = rnd(); if (z < 0.15) x = lo; else if (z < 0.3) x = hi; else if (z < 0.4 && lo <= 0 && hi >= 0) x = 0; } } else x = (double)base[i] + (hi - lo) * rr * (rnd() - 0.5); if (x < lo) x = lo; if (x > hi) x = hi; vd[i] = (double)(float)x; if (vd[i] < lo || vd[i] > hi) vd[i] = x; }
      evalAll<double>(vd, od); bool pok = pathOK(od, PATH.size()); if (!pok) { // the path differs: only the assumptions matter, the caller re-runs the code
        bool as = true; for (auto &d : PATH) if (d.assume && (od[d.node] != 0) != (d.val != 0)) as = false; (void)as; continue; }
      ++got; for (auto i = left.begin(); i != left.end();) { auto &c = CLAIMS[*i]; LD e = claimEval(c, od[c.a], od[c.b]); if (e > 0) { res[*i].cex = cexs.size(); cexs.push_back(vd); i = left.erase(i); } else ++i; } }
  };
  if (getenv("DECIDE_DIAG")) { // debugging aid: earliest nodes that agree on the samples and were not merged
    map<pair<long long,long long>, uint32_t> g; int shown = 0; function<string(V,int)> str = [&](V v, int d) -> string { v = norm(v); char b[40]; if (v.s == 0) return "0"; snprintf(b, sizeof b, "%.6g", v.s); if (v.id == 0) return b; CN &n = C[v.id]; string r = v.s == 1 ? "" : string(b) + "*"; r += "#" + to_string(v.id); if (n.k == C_VAR) return r + ":" + VARS[n.t[0].first].name; if (d <= 0) return r; r += "k" + to_string(n.k) + "("; auto T = n.t; for (auto &t : T) r += str(n.k == C_MON ? V{1, t.first} : V{t.second, t.first}, d - 1) + (n.k == C_MON ? "^" + to_string((int)t.second) : "") + ", "; return r + ")"; };
    for (uint32_t i = 1; i < N.size() && shown < 6; ++i) { if (!live[i] || opIsBool(N[i].op) || N[i].op == O_PAIR || N[i].op == O_CONST) continue; LD x = RS[i][0], y = RS[i][1]; if (x == 0) continue; auto key = make_pair((long long)llroundl(x * 1e9L), (long long)llroundl(y * 1e9L)); auto it = g.find(key); if (it == g.end()) { g[key] = i; continue; } V a = norm(canon[it->second]), b = norm(canon[i]); bool all = true; for (int k = 0; k < K; ++k) if (fabsl(RS[i][k] - RS[it->second][k]) > 1e-12L * fabsl(RS[i][k])) all = false; if (!all) continue; auto triv = [&](V p, V q) { if (C[p.id].k == C_MAX || C[p.id].k == C_ABS || C[p.id].k == C_ITE) for (auto &t : C[p.id].t) if (t.first == q.id || C[q.id].k == C[p.id].k && C[p.id].k == C_MAX) return true; return false; }; if (triv(a, b) || triv(b, a)) continue; if (a.id != b.id || fabs(a.s - b.s) > 1e-12 * fabs(a.s)) { ++shown; int D = atoi(getenv("DECIDE_DIAG")); fprintf(stderr, "DIAG %u(%s) vs %u(%s)\n   %s\n   %s\n", it->second, OPN[N[it->second].op], i, OPN[N[i].op], str(a, D).substr(0, 1500).c_str(), str(b, D).substr(0, 1500).c_str()); } } }
  vector<size_t> open;
  vector<set<int>> usedBy(CLAIMS.size());
  for (size_t ci = 0; ci < CLAIMS.size(); ++ci) { auto &c = CLAIMS[ci]; double t = nowS(); Res &R = res[ci]; R.status = "open";
    if (c.kind == 2) { // boolean value decided on this path
      V l{0,0}; double v = N[c.a].v; if (N[c.a].op == O_CONST) { R.status = v != 0 ? "proven" : "violated"; R.how = "path"; if (v == 0) { R.cex = cexs.size(); vector<double> vd; for (auto x : base) vd.push_back((double)x); cexs.push_back(vd); } } (void)l; R.ms = (nowS() - t) * 1e3; continue; }
    V a = norm(canon[c.a]), b = norm(canon[c.b]);
    if (c.kind == 0) {
      ++nest; V d = addV(a, negV(b)); --nest; bool smpBad = false; for (int k = 0; k < K; ++k) { LD e = claimEval(c, RS[c.a][k], RS[c.b][k]); if (e > 0) smpBad = true; }
      if (!smpBad) {
        if (norm(d).s == 0) { R.status = "proven"; R.how = "norm"; }
        else { // residual below tolerance over the whole box?
          double lo, hi; ival(d, lo, hi); double m = max(1.0, fabs(c.scale)); if (getenv("DECIDE_RESID")) { fprintf(stderr, "RESID %s [%g,%g] tol %g:", c.label.c_str(), lo, hi, c.tol * m); V q = norm(d); auto &n = C[q.id]; int sh = 0; fprintf(stderr, " k%d %zu terms", n.k, n.t.size()); vector<pair<double,int>> o; for (auto &t : n.t) { double l2, h2; ival({t.second * q.s, t.first}, l2, h2); o.push_back({-max(fabs(l2), fabs(h2)), t.first}); } sort(o.begin(), o.end()); for (auto &t : o) if (sh++ < 6) fprintf(stderr, " %g*#%dk%d[%g,%g]", t.first, t.second, C[t.second].k, C[t.second].lo, C[t.second].hi); fprintf(stderr, "\n"); }
          if (lo >= -c.tol * m && hi <= c.tol * m) { R.status = "proven"; R.how = "range"; }
          else { uint64_t sv = PB1; PB1 *= 8; ++nest; bool ok = proveZero(d, &usedBy[ci]); --nest; PB1 = sv; if (ok) { R.status = "proven"; R.how = "poly"; }
            else if (C[norm(d).id].k == C_LIN && !late()) { // linear residual with tiny coefficients: solver with tolerance
              Enc e; e.maxDepth = 1; string x = e.val(d, 0); string q = e.decl + e.facts + "(assert (or (> " + x + " " + zq(c.tol * m) + ") (< " + x + " " + zq(-c.tol * m) + ")))\n(check-sat)"; if (zAsk(q, TMS).compare(0, 5, "unsat") == 0) { R.status = "proven"; R.how = "z3tol"; } } } }
      }
    } else { bool smpBad = false; for (int k = 0; k < K; ++k) if (claimEval(c, RS[c.a][k], RS[c.b][k]) > 0) smpBad = true;
      if (!smpBad) { ++nest; V d = addV(a, negV(b)); --nest; double lo, hi; ival(d, lo, hi); double m = max(1.0, fabs(c.scale)); if (hi <= c.tol * m) { R.status = "proven"; R.how = "range"; } else {
          // path facts as assertions
          for (int md : {1, 2, 4, 8, 1000}) { if (R.status == "proven") break; Enc e; e.maxDepth = md; string x = e.val(d, 0); string pf; for (auto &kv : known) if (md > 4 || e.nm.count(kv.first)) { string l = e.lit({kv.second ? 1.0 : -1.0, kv.first}, 2); pf += "(assert " + l + ")\n"; } if (e.decl.size() > 400000) break; string q = e.decl + e.facts + pf + "(assert (> " + x + " " + zq(c.tol * m) + "))\n(check-sat)\n"; if (md == 1000) { string g; for (int v : e.varsUsed) g += " a" + to_string(v); if (!g.empty()) q += "(get-value (" + g + "))"; } string r = zAsk(q, md == 1000 ? leMs : min(leMs, 3000)); if (r.compare(0, 5, "unsat") == 0) { R.status = "proven"; R.how = "z3"; break; }
            if (getenv("DECIDE_DUMPQ")) { FILE *f = fopen((string(getenv("DECIDE_DUMPQ")) + to_string(ci) + "_" + to_string(md) + ".smt2").c_str(), "w"); fputs(q.c_str(), f); fclose(f); }
            if (md == 1000 && r.compare(0, 3, "sat") == 0) { // model -> seed
              vector<double> vd; for (auto x : base) vd.push_back((double)x); for (int v : e.varsUsed) { string key = "(a" + to_string(v) + " "; size_t p = r.find(key); if (p == string::npos) continue; p += key.size(); bool ng = false; double val = 0; string s = r.substr(p, 200); function<double(size_t &)> parse = [&](size_t &q) -> double { while (q < s.size() && s[q] == ' ') ++q; if (s[q] == '(') { ++q; char op = s[q]; if (op == '-' || op == '/') { ++q; double A = parse(q); while (q < s.size() && s[q] == ' ') ++q; if (s[q] == ')') { ++q; return -A; } double B = parse(q); while (q < s.size() && s[q] == ' ') ++q; if (s[q] == ')') ++q; return op == '/' ? A / B : A - B; } return NAN; } char *en; double x = strtod(s.c_str() + q, &en); q = en - s.c_str(); if (q < s.size() && s[q] == '?') ++q; return x; }; size_t qq = 0; val = parse(qq); (void)ng; if (isfinite(val)) vd[C[v].t[0].first] = val; } 
              vector<double> od; evalAll<double>(vd, od); if (claimEval(c, od[c.a], od[c.b]) > 0 && pathOK(od, PATH.size())) { R.cex = cexs.size(); cexs.push_back(vd); R.how = "z3 model"; break; } else R.note = "z3 model does not evaluate to a violation (rounding)"; } } } } }
    R.ms = (nowS() - t) * 1e3; if (R.status != "proven" && R.cex < 0) open.push_back(ci);
  }
  if (!open.empty()) search(open);
  // obligations for z3: claims proven by normalisation, and all merges
  double tObl = nowS(); uint64_t oblTotal = 0;
  if (obl) {
    double tOb0 = nowS(); int runUnk = 0;
    for (size_t ci = 0; ci < CLAIMS.size(); ++ci) if (res[ci].status == "proven" && CLAIMS[ci].kind == 0 && res[ci].how != "z3tol" && res[ci].how != "range") { ++oblTotal; if (nowS() - T0 > BUDGET * 1.2 || nowS() - tOb0 > oblT || runUnk >= 3) { ++oblUnk; continue; } int r = oblCheck(CLAIMS[ci].a, CLAIMS[ci].b, 1, usedBy[ci]); if (r == 1) { ++oblUnsat; runUnk = 0; res[ci].how += "+z3"; } else if (r == 0) { ++oblUnk; ++runUnk; } else { ++oblSat; res[ci].note = "z3 finds the frontier abstraction satisfiable (normaliser-only)"; } }
    // merges used below claims
    vector<char> reach(N.size(), 0); vector<uint32_t> st; for (auto &c : CLAIMS) { st.push_back(c.a); st.push_back(c.b); } while (!st.empty()) { uint32_t i = st.back(); st.pop_back(); if (!i || reach[i]) continue; reach[i] = 1; auto &n = N[i]; int a = arity(n.op); if (n.op == O_UF) { st.push_back(n.c); continue; } if (n.op == O_PAIR) a = 2; if (a > 0) st.push_back(n.a); if (a > 1) st.push_back(n.b); if (a > 2) st.push_back(n.c); }
    for (auto &ob : OBL) { if (!reach[ob.ra]) continue; if (ob.ra == ob.rb) continue; ++oblTotal; if (nowS() - T0 > BUDGET * 1.2 || nowS() - tOb0 > 2 * oblT) { ++oblUnk; continue; } // canonical form of both sides, in terms of the frontier
      set<int> ex = ob.ex; Enc e; e.expand = &ex; ex.insert(ob.cid); ex.insert(ob.cid2); string x = e.node(ob.cid, 0), y = e.node(ob.cid2, 0); string r = x == y ? "" : zAsk(e.decl + e.facts + "(assert (not (= " + x + " (* " + zq(ob.k) + " " + y + "))))\n(check-sat)", TMS); if (r.compare(0, 5, "unsat") == 0) ++oblUnsat; else if (r.compare(0, 3, "sat") == 0) ++oblSat; else ++oblUnk; }
  }
  tObl = nowS() - tObl;
  for (auto &r : res) { if (r.status == "proven") ++proven; else if (r.cex >= 0) { r.status = "violated"; ++violated; } else { r.status = "undecided"; ++unk; } ++nd; }
  // counterexample files
  if (!cexp.empty()) for (size_t i = 0; i < cexs.size(); ++i) { FILE *f = fopen((cexp + to_string(i) + ".seed").c_str(), "w"); if (f) { for (size_t v = 0; v < VARS.size(); ++v) fprintf(f, "%s %.17g\n", VARS[v].name.c_str(), cexs[i][v]); fclose(f); } }
  // new seeds by negating path decisions
  int nNeg = 0, nNegTried = 0, nNegUnsat = 0; if (!neg.empty()) { SWEEP = false; known.clear(); // conditions are re-encoded without path knowledge
    // conditions of the path as canonical literals were simplified with earlier decisions; encode raw
    if (!triedF.empty()) { ifstream in(triedF); string l; while (in >> l) tried.insert(l); }
    // concrete search first: points that leave the path at decision i (generic points); the solver is then asked about the others
    vector<vector<double>> found(PATH.size()); {
      vector<uint32_t> order; { vector<char> mark(N.size(), 0); vector<uint32_t> st; for (auto &d : PATH) st.push_back(d.node); while (!st.empty()) { uint32_t x = st.back(); st.pop_back(); if (mark[x]) continue; mark[x] = 1; RN &n = N[x]; int ar = arity(n.op); if (n.op == O_UF) continue; if (ar > 0) st.push_back(n.a); if (ar > 1) st.push_back(n.b); if (ar > 2) st.push_back(n.c); } for (uint32_t x = 1; x < N.size(); ++x) if (mark[x]) order.push_back(x); }
      vector<double> val(N.size(), 0.0), b0; for (auto x : base) b0.push_back((double)x); mt19937_64 rg(rng + 77); auto U = [&]() { return (rg() >> 11) * (1.0 / 9007199254740992.0); }; size_t nf = 0, free_ = 0; for (auto &d : PATH) free_ += !d.assume; double tS = nowS();
      for (int it = 0; it < 20000 && nf < free_ && nowS() - tS < negSearch; ++it) { vector<double> pt = b0; int mode = it % 4; for (size_t v = 0; v < VARS.size(); ++v) { double lo = VARS[v].lo, hi = VARS[v].hi; if (mode == 0) pt[v] = lo + (hi - lo) * U(); else if (mode == 1) { if (U() < 0.3) pt[v] = lo + (hi - lo) * U(); } else if (mode == 2) { double w = (hi - lo) * pow(10.0, -4 * U()); pt[v] += w * (2 * U() - 1); } else { double r = U(); if (r < 0.15) pt[v] = lo + (hi - lo) * pow(10.0, -3 * U()); else if (r < 0.3) pt[v] = hi - (hi - lo) * pow(10.0, -3 * U()); } if (pt[v] < lo) pt[v] = lo; if (pt[v] > hi) pt[v] = hi; }
        for (auto x : order) { RN &n = N[x]; if (n.op == O_CONST) val[x] = n.v; else if (n.op == O_VAR) val[x] = pt[n.a]; else if (n.op == O_UF) val[x] = n.v; else { int ar = arity(n.op); val[x] = opEval(n.op, ar > 0 ? val[n.a] : 0, ar > 1 ? val[n.b] : 0, ar > 2 ? val[n.c] : 0); } }
        bool okA = true; size_t dev = PATH.size(); for (size_t j = 0; j < PATH.size(); ++j) { bool b = val[PATH[j].node] != 0; if (b != (PATH[j].val != 0)) { if (PATH[j].assume) { okA = false; break; } if (dev == PATH.size()) dev = j; } }
        if (okA && dev < PATH.size() && found[dev].empty()) { found[dev] = pt; ++nf; } } }
    auto put = [&](const vector<double> &vd) { FILE *f = fopen((neg + to_string(nNeg++) + ".seed").c_str(), "w"); if (f) { for (size_t v = 0; v < VARS.size(); ++v) fprintf(f, "%s %.17g\n", VARS[v].name.c_str(), vd[v]); fclose(f); } };
    double tN = nowS();
    for (size_t i = 0; i < PATH.size() && nNeg < negMax; ++i) { if (PATH[i].assume) continue; { string key; for (size_t j = 0; j < i; ++j) if (!PATH[j].assume) key += PATH[j].val ? '1' : '0'; key += PATH[i].val ? '0' : '1'; if (!tried.insert(key).second) continue; if (!triedF.empty()) { FILE *f = fopen(triedF.c_str(), "a"); if (f) { fprintf(f, "%s\n", key.c_str()); fclose(f); } } } ++nNegTried; if (!found[i].empty()) { put(found[i]); continue; } if (nowS() - tN > negTime) continue;
      // raw full encoding
      string decl, facts; unordered_map<uint32_t,string> nm; set<uint32_t> vs; function<string(uint32_t)> enc = [&](uint32_t x) -> string { auto it = nm.find(x); if (it != nm.end()) return it->second; RN &n = N[x]; string me = "n" + to_string(x), r, a, b, c; int ar = arity(n.op); if (n.op == O_CONST) return nm[x] = zq(n.v); if (n.op == O_VAR) { decl += "(declare-const " + me + " Real)\n"; facts += "(assert (and (<= " + zq(VARS[n.a].lo) + " " + me + ") (<= " + me + " " + zq(VARS[n.a].hi) + ")))\n"; vs.insert(x); return nm[x] = me; } if (ar > 0) a = enc(n.a); if (ar > 1) b = enc(n.b); if (ar > 2) c = enc(n.c); string ty = opIsBool(n.op) ? "Bool" : "Real";
        switch (n.op) { case O_ADD: r = "(+ " + a + " " + b + ")"; break; case O_SUB: r = "(- " + a + " " + b + ")"; break; case O_MUL: r = "(* " + a + " " + b + ")"; break; case O_DIV: r = "(/ " + a + " " + b + ")"; break; case O_NEG: r = "(- " + a + ")"; break; case O_ABS: r = "(ite (< " + a + " 0.0) (- " + a + ") " + a + ")"; break; case O_MIN: r = "(ite (< " + a + " " + b + ") " + a + " " + b + ")"; break; case O_MAX: r = "(ite (< " + a + " " + b + ") " + b + " " + a + ")"; break; case O_ITE: r = "(ite " + a + " " + b + " " + c + ")"; break; case O_LT: r = "(< " + a + " " + b + ")"; break; case O_LE: r = "(<= " + a + " " + b + ")"; break; case O_EQ: r = "(= " + a + " " + b + ")"; break; case O_AND: r = "(and " + a + " " + b + ")"; break; case O_OR: r = "(or " + a + " " + b + ")"; break; case O_NOT: r = "(not " + a + ")"; break; case O_XOR: r = "(xor " + a + " " + b + ")"; break; case O_SQRT: decl += "(declare-const " + me + " Real)\n"; facts += "(assert (and (>= " + me + " 0.0) (= (* " + me + " " + me + ") " + a + ")))\n"; return nm[x] = me; default: decl += "(declare-const " + me + " " + ty + ")\n"; return nm[x] = me; }
        decl += "(define-fun " + me + " () " + ty + " " + r + ")\n"; return nm[x] = me; };
      string as; for (size_t j = 0; j <= i; ++j) { string c = enc(PATH[j].node); bool v = PATH[j].val != 0; if (j == i) v = !v; RN &pn = N[PATH[j].node]; if (NOTIE && v && pn.op == O_LE) c = "(< " + enc(pn.a) + " " + enc(pn.b) + ")"; else if (NOTIE && !v && pn.op == O_LT) { c = "(< " + enc(pn.b) + " " + enc(pn.a) + ")"; v = true; } as += "(assert " + (v ? c : "(not " + c + ")") + ")\n"; } for (size_t j = i + 1; j < PATH.size(); ++j) if (PATH[j].assume) { string c = enc(PATH[j].node); as += "(assert " + (PATH[j].val ? c : "(not " + c + ")") + ")\n"; }
      if (decl.size() > 300000) break; string g; for (auto v : vs) g += " n" + to_string(v); string r = zAsk(decl + facts + as + "(check-sat)\n(get-value (" + g + "))", negMs); if (r.compare(0, 5, "unsat") == 0) { ++nNegUnsat; continue; } if (r.compare(0, 3, "sat") != 0) continue;
      vector<double> vd; for (auto x : base) vd.push_back((double)x); bool fine = true; for (auto v : vs) { string key = "(n" + to_string(v) + " "; size_t p = r.find(key); if (p == string::npos) { fine = false; break; } p += key.size(); string s = r.substr(p, 400); function<double(size_t &)> parse = [&](size_t &q) -> double { while (q < s.size() && s[q] == ' ') ++q; if (s[q] == '(') { ++q; char op = s[q]; if (op == '-' || op == '/') { ++q; double A = parse(q); while (q < s.size() && s[q] == ' ') ++q; if (s[q] == ')') { ++q; return -A; } double B = parse(q); while (q < s.size() && s[q] == ' ') ++q; if (s[q] == ')') ++q; return op == '/' ? A / B : A - B; } return NAN; } char *en; double x = strtod(s.c_str() + q, &en); q = en - s.c_str(); if (q < s.size() && s[q] == '?') ++q; return x; }; size_t qq = 0; double val = parse(qq); if (isfinite(val)) vd[N[v].a] = val; }
      if (!fine) continue; put(vd); } }
  string j = "{\n"; char b[512]; size_t liveN = 0; for (char c : live) liveN += c;
  snprintf(b, sizeof b, "\"nodes\":%zu,\"live\":%zu,\"vars\":%zu,\"path\":%zu,\"claims\":%zu,\"ops\":%llu,\"canonical\":%zu,\"samples\":%d,\"mismatch\":%llu,\"merges\":%llu,\"merge_tries\":%llu,\"splits\":%llu,\n", N.size(), liveN, VARS.size(), PATH.size(), CLAIMS.size(), (unsigned long long)nops, C.size(), K, (unsigned long long)nMismatch, (unsigned long long)nMerge, (unsigned long long)nTry, (unsigned long long)nSplit); j += b;
  snprintf(b, sizeof b, "\"proven\":%llu,\"violated\":%llu,\"undecided\":%llu,\"obligations\":%llu,\"obl_unsat\":%llu,\"obl_unknown\":%llu,\"obl_sat\":%llu,\n", (unsigned long long)proven, (unsigned long long)violated, (unsigned long long)unk, (unsigned long long)oblTotal, (unsigned long long)oblUnsat, (unsigned long long)oblUnk, (unsigned long long)oblSat); j += b;
  snprintf(b, sizeof b, "\"queries\":%llu,\"unsat\":%llu,\"sat\":%llu,\"unknown\":%llu,\"errors\":%llu,\"solver_s\":%.3f,\"canon_s\":%.3f,\"wall_s\":%.3f,\"new_seeds\":%d,\"negations\":%d,\"negations_unsat\":%d,\n", (unsigned long long)zQ, (unsigned long long)zUnsat, (unsigned long long)zSat, (unsigned long long)zUnk, (unsigned long long)zErr, zTime, tCanon, nowS() - T0, nNeg, nNegTried, nNegUnsat); j += b;
  string ps; for (auto &d : PATH) ps += d.val ? '1' : '0'; j += "\"pathsig\":" + js(ps.substr(0, 2000)) + ",\n\"results\":[";
  for (size_t i = 0; i < res.size(); ++i) { snprintf(b, sizeof b, "%s\n{\"label\":", i ? "," : ""); j += b; j += js(CLAIMS[i].label) + ",\"kind\":" + to_string(CLAIMS[i].kind) + ",\"status\":" + js(res[i].status) + ",\"how\":" + js(res[i].how); snprintf(b, sizeof b, ",\"ms\":%.1f,\"cex\":%d", res[i].ms, res[i].cex); j += b; if (!res[i].note.empty()) j += ",\"note\":" + js(res[i].note); j += "}"; }
  j += "],\n\"notes\":{"; map<string,string> nt; for (auto &x : NOTES) nt[x.first] = x.second; bool f1 = true; for (auto &x : nt) { j += (f1 ? "" : ",") + js(x.first) + ":" + js(x.second); f1 = false; } j += "}}\n";
  if (out.empty()) fputs(j.c_str(), stdout); else { FILE *f = fopen(out.c_str(), "w"); if (!f) return 3; fputs(j.c_str(), f); fclose(f); }
  Z->stop(); fflush(stdout); _exit(0);
}
