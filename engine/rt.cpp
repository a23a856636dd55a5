// Symbolic runtime: hash-consed expression DAG with a concrete shadow value per node
// (concolic), path conditions, claims.  Linked to instrumented code; not instrumented itself.
#include "sym.h"
#include "ops.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <string>
#include <unordered_map>
#include <vector>
#include <set>
#include <unistd.h>
#include <sys/mman.h>

namespace {
struct Node { uint8_t op; uint32_t a, b, c; double v; };   // v: constant, or shadow value
const uint64_t TAG = 0x1FFFull << 50, PMASK = (1ull << 50) - 1;
std::vector<Node> *N; std::vector<uint32_t> *H; size_t hmask = 0;
std::vector<uint64_t> *HASH;                      // content hash of a node (MPI mode)
std::unordered_map<uint64_t, uint32_t> *byHash; bool hashMode = false;
struct Var { std::string name; double lo, hi; uint32_t node; };
std::vector<Var> *VARS; std::map<std::string, uint32_t> *VARIDX;
struct Dec { uint32_t node; uint8_t val; uint8_t assume; };
std::vector<Dec> *PATH; std::unordered_map<uint32_t, bool> *DECIDED;
struct Claim { uint8_t kind; uint32_t a, b; double scale, tol; std::string label; uint32_t pathLen; };
std::vector<Claim> *CLAIMS; std::vector<std::pair<std::string,std::string>> *NOTES;
std::map<std::string,double> *SEEDVAL; uint64_t seed = 1; uint64_t nops = 0;
std::map<std::string,uint32_t> *UFN;
// memory tracing
struct Region { uint64_t lo, hi; std::string name; };
std::vector<Region> *REG; int tracing = 0; int curKernel = -1; int64_t curItem = -1; bool inItem = false; int nest = 0;
struct Acc { int32_t kernel; int64_t item; int32_t region; int64_t off; int32_t kind; };
std::vector<std::string> *KERN; std::map<std::string,int> *KIDX; std::vector<Acc> *ACCS; std::set<std::string> *OOB;
uint64_t accCount = 0; int kernelInst = 0; std::string *lastKern;

bool inited = false, noite = false;
uint64_t mix(uint64_t x) { x ^= x >> 33; x *= 0xff51afd7ed558ccdull; x ^= x >> 33; x *= 0xc4ceb9fe1a85ec53ull; x ^= x >> 33; return x; }
void init() {
  if (inited) return; inited = true;
  N = new std::vector<Node>; H = new std::vector<uint32_t>; HASH = new std::vector<uint64_t>;
  byHash = new std::unordered_map<uint64_t,uint32_t>; VARS = new std::vector<Var>; VARIDX = new std::map<std::string,uint32_t>;
  PATH = new std::vector<Dec>; DECIDED = new std::unordered_map<uint32_t,bool>; CLAIMS = new std::vector<Claim>;
  NOTES = new std::vector<std::pair<std::string,std::string>>; SEEDVAL = new std::map<std::string,double>; UFN = new std::map<std::string,uint32_t>;
  REG = new std::vector<Region>; KERN = new std::vector<std::string>; KIDX = new std::map<std::string,int>; ACCS = new std::vector<Acc>; OOB = new std::set<std::string>; lastKern = new std::string;
  H->assign(1 << 20, 0); hmask = H->size() - 1; N->reserve(1 << 20);
  N->push_back({O_CONST,0,0,0,0.0}); HASH->push_back(0); // index 0 unused
  if (auto *s = getenv("RT_SEED")) seed = strtoull(s, 0, 10);
  if (getenv("RT_HASH")) hashMode = true;
  if (getenv("RT_NOITE")) noite = true;      // every selection becomes a path decision (function level exploration)
  if (auto *f = getenv("RT_SEEDFILE")) { FILE *fp = fopen(f, "r"); char nm[256]; double v; if (fp) { while (fscanf(fp, "%255s %lf", nm, &v) == 2) (*SEEDVAL)[nm] = v; fclose(fp); } }
}
uint64_t nodeHash(uint8_t op, uint32_t a, uint32_t b, uint32_t c, double v) {
  uint64_t bits; memcpy(&bits, &v, 8);
  uint64_t h = mix(op + 0x9e3779b97f4a7c15ull);
  if (op == O_CONST) return mix(h ^ bits);
  if (op == O_VAR) { uint64_t x = h; for (char ch : (*VARS)[a].name) x = mix(x ^ (uint8_t)ch); return x; }
  if (op == O_UF) return mix(h ^ mix(a*1000003ull + b) ^ (*HASH)[c]);
  h = mix(h ^ (*HASH)[a]); h = mix(h + 3 * (*HASH)[b]); h = mix(h + 7 * (*HASH)[c]); return h;
}
uint32_t mk(uint8_t op, uint32_t a, uint32_t b, uint32_t c, double v) {
  uint64_t bits; memcpy(&bits, &v, 8);
  uint64_t k = mix(op * 0x9e3779b97f4a7c15ull ^ mix(a + (uint64_t)b * 0x100000001b3ull) ^ mix(c * 0x9e37ull + 0x55) ^ (op == O_CONST ? mix(bits) : 0));
  for (size_t i = k & hmask;; i = (i + 1) & hmask) {
    uint32_t x = (*H)[i];
    if (!x) {
      uint32_t id = N->size(); N->push_back({op, a, b, c, v}); (*H)[i] = id;
      if (hashMode) { uint64_t hh = nodeHash(op, a, b, c, v) & PMASK; HASH->push_back(hh); (*byHash)[hh] = id; }
      if (N->size() * 2 > H->size()) {
        std::vector<uint32_t> nh(H->size() * 2, 0); size_t m = nh.size() - 1;
        for (uint32_t j = 1; j < N->size(); ++j) { Node &n = (*N)[j]; uint64_t bb; memcpy(&bb, &n.v, 8);
          uint64_t kk = mix(n.op * 0x9e3779b97f4a7c15ull ^ mix(n.a + (uint64_t)n.b * 0x100000001b3ull) ^ mix(n.c * 0x9e37ull + 0x55) ^ (n.op == O_CONST ? mix(bb) : 0));
          size_t p = kk & m; while (nh[p]) p = (p + 1) & m; nh[p] = j; }
        H->swap(nh); hmask = m;
      }
      return id;
    }
    Node &n = (*N)[x];
    if (n.op == op && n.a == a && n.b == b && n.c == c) { if (op != O_CONST) return x; uint64_t nb; memcpy(&nb, &n.v, 8); if (nb == bits) return x; }
  }
}
inline uint64_t bitsOf(double d) { uint64_t u; memcpy(&u, &d, 8); return u; }
inline bool isS(double d) { return (bitsOf(d) >> 50) == 0x1FFF; }
inline double boxN(uint32_t id) { uint64_t p = hashMode ? (*HASH)[id] : id; uint64_t u = TAG | p; double d; memcpy(&d, &u, 8); return d; }
inline uint32_t idx(double d) {
  uint64_t p = bitsOf(d) & PMASK;
  if (hashMode) { auto it = byHash->find(p); if (it != byHash->end()) return it->second;
    // defined by another process: opaque reference, resolved when the dumps are merged
    uint32_t id = N->size(); N->push_back({O_UF, 0xffffffffu, (uint32_t)(p >> 25), (uint32_t)(p & ((1u<<25)-1)), 0.5}); HASH->push_back(p); (*byHash)[p] = id; return id; }
  if (p == 0 || p >= N->size()) { fprintf(stderr, "rt: bad box %llx\n", (unsigned long long)p); _exit(88); }
  return p;
}
inline uint32_t nd(double d) { return isS(d) ? idx(d) : mk(O_CONST, 0, 0, 0, d == 0 ? 0.0 : d); }
inline double sh(double d) { return isS(d) ? (*N)[idx(d)].v : d; }
double op2(uint8_t op, double a, double b) {
  ++nops; uint32_t x = nd(a), y = nd(b);
  if ((op == O_ADD || op == O_MUL || op == O_MIN || op == O_MAX || op == O_EQ || op==O_AND || op==O_OR || op==O_XOR) && x > y) std::swap(x, y);
  return boxN(mk(op, x, y, 0, opEval(op, (*N)[x].v, (*N)[y].v, 0)));
}
double op1(uint8_t op, double a) { ++nops; uint32_t x = nd(a); return boxN(mk(op, x, 0, 0, opEval(op, (*N)[x].v, 0, 0))); }
} // namespace

#define E extern "C"
E int rt_symbolic(void) { return 1; }
E int rt_is_const(double v) { return !isS(v); }
E double rt_shadow(double v) { return sh(v); }
E double rt_var(const char *name, double lo, double hi) {
  init();
  auto it = VARIDX->find(name);
  if (it != VARIDX->end()) return boxN((*VARS)[it->second].node);
  double v; auto s = SEEDVAL->find(name);
  if (s != SEEDVAL->end()) v = s->second;
  else { uint64_t h = mix(seed * 0x9e3779b97f4a7c15ull + 12345); for (const char *p = name; *p; ++p) h = mix(h ^ (uint8_t)*p); v = lo + (hi - lo) * ((h >> 11) * (1.0 / 9007199254740992.0)); 
    v = (double)(float)v; if (v < lo) v = lo; if (v > hi) v = hi; }
  uint32_t vi = VARS->size(); VARS->push_back({name, lo, hi, 0});
  uint32_t id = mk(O_VAR, vi, 0, 0, v); (*VARS)[vi].node = id; (*VARIDX)[name] = vi; return boxN(id);
}
E double rt_add(double a, double b) { if (!isS(a) && !isS(b)) return a + b; if (!isS(a) && a == 0) return b; if (!isS(b) && b == 0) return a; return op2(O_ADD, a, b); }
E double rt_neg(double a);
E double rt_sub(double a, double b) { if (!isS(a) && !isS(b)) return a - b; if (!isS(b) && b == 0) return a; if (!isS(a) && a == 0) return rt_neg(b); if (bitsOf(a) == bitsOf(b)) return 0.0; return op2(O_SUB, a, b); }
E double rt_mul(double a, double b) { if (!isS(a) && !isS(b)) return a * b; if (!isS(a)) { if (a == 0) return 0.0; if (a == 1) return b; if (a == -1) return rt_neg(b); } if (!isS(b)) { if (b == 0) return 0.0; if (b == 1) return a; if (b == -1) return rt_neg(a); } return op2(O_MUL, a, b); }
E double rt_div(double a, double b) { if (!isS(a) && !isS(b)) return a / b; if (!isS(b) && b == 1) return a; if (!isS(a) && a == 0) return 0.0; return op2(O_DIV, a, b); }
E double rt_neg(double a) { if (!isS(a)) return -a; auto &n = (*N)[idx(a)]; if (n.op == O_NEG) return boxN(n.a); return op1(O_NEG, a); }
E double rt_fmod(double a, double b) { if (!isS(a) && !isS(b)) return fmod(a, b); return op2(O_FMOD, a, b); }
E double rt_pow(double a, double b) { if (!isS(a) && !isS(b)) return pow(a, b);
  if (!isS(b)) { if (b == 1) return a; if (b == 2) return rt_mul(a, a); if (b == 0) return 1.0; if (b == 3) return rt_mul(a, rt_mul(a,a)); if (b == -1) return rt_div(1.0, a); }
  return op2(O_POW, a, b); }
E bool rt_decide(double c); E double rt_cmp(int p, double a, double b);
E double rt_min(double a, double b) { if (!isS(a) && !isS(b)) return fmin(a, b); if (isS(a) && isS(b) && bitsOf(a) == bitsOf(b)) return a; if (noite) return rt_decide(rt_cmp(5, a, b)) ? a : b; return op2(O_MIN, a, b); }
E double rt_max(double a, double b) { if (!isS(a) && !isS(b)) return fmax(a, b); if (isS(a) && isS(b) && bitsOf(a) == bitsOf(b)) return a; if (noite) return rt_decide(rt_cmp(5, a, b)) ? b : a; return op2(O_MAX, a, b); }
E double rt_atan2(double a, double b) { if (!isS(a) && !isS(b)) return atan2(a, b); return op2(O_ATAN2, a, b); }
E double rt_hypot(double a, double b) { if (!isS(a) && !isS(b)) return hypot(a, b); return op2(O_HYPOT, a, b); }
E double rt_ite(double c, double a, double b);
E double rt_cmp(int p, double a, double b);
E bool rt_decide(double c);
E double rt_fabs(double a) { if (!isS(a)) return fabs(a); if (noite) return rt_decide(rt_cmp(5, 0.0, a)) ? a : rt_neg(a); return op1(O_ABS, a); }
E double rt_copysign(double a, double b) { if (!isS(a) && !isS(b)) return copysign(a, b); if (!isS(b)) return std::signbit(b) ? rt_neg(rt_fabs(a)) : rt_fabs(a);
  double m = rt_fabs(a); return rt_ite(rt_cmp(3, b, 0.0), m, rt_neg(m)); }
#define R1(n, o, f) E double n(double a) { if (!isS(a)) return f(a); return op1(o, a); }
R1(rt_sqrt, O_SQRT, sqrt) R1(rt_exp, O_EXP, exp) R1(rt_log, O_LOG, log) R1(rt_sin, O_SIN, sin) R1(rt_cos, O_COS, cos) R1(rt_tan, O_TAN, tan)
R1(rt_tanh, O_TANH, tanh) R1(rt_sinh, O_SINH, sinh) R1(rt_cosh, O_COSH, cosh) R1(rt_atan, O_ATAN, atan) R1(rt_asin, O_ASIN, asin) R1(rt_acos, O_ACOS, acos)
R1(rt_floor, O_FLOOR, floor) R1(rt_ceil, O_CEIL, ceil) R1(rt_trunc, O_TRUNC, trunc) R1(rt_round, O_ROUND, round) R1(rt_rint, O_RINT, rint) R1(rt_cbrt, O_CBRT, cbrt) R1(rt_log10, O_LOG10, log10)
E double rt_not(double a) { if (!isS(a)) return a == 0 ? 1.0 : 0.0; auto &n = (*N)[idx(a)]; if (n.op == O_NOT) return boxN(n.a); return op1(O_NOT, a); }
// predicates: LLVM CmpInst numbering (FCMP_OEQ=1 OGT=2 OGE=3 OLT=4 OLE=5 ONE=6 ORD=7 UNO=8 UEQ=9 UGT=10 UGE=11 ULT=12 ULE=13 UNE=14)
E double rt_cmp(int p, double a, double b) {
  bool sa = isS(a), sb = isS(b);
  if (!sa && !sb) {
    bool un = std::isnan(a) || std::isnan(b), r = false;
    switch (p) { case 0: r = false; break; case 1: r = !un && a == b; break; case 2: r = !un && a > b; break; case 3: r = !un && a >= b; break; case 4: r = !un && a < b; break; case 5: r = !un && a <= b; break;
      case 6: r = !un && a != b; break; case 7: r = !un; break; case 8: r = un; break; case 9: r = un || a == b; break; case 10: r = un || a > b; break; case 11: r = un || a >= b; break;
      case 12: r = un || a < b; break; case 13: r = un || a <= b; break; case 14: r = un || a != b; break; case 15: r = true; }
    return r;
  }
  if (p == 7 || p == 15) return 1.0; if (p == 8 || p == 0) return 0.0;
  if ((!sa && std::isnan(a)) || (!sb && std::isnan(b))) return p >= 8 ? 1.0 : 0.0;
  if (sa && sb && bitsOf(a) == bitsOf(b)) { int q = p & 7; return (q == 1 || q == 3 || q == 5) ? 1.0 : 0.0; }
  if (!sa && std::isinf(a)) { int q=p&7; bool neg=a<0; if(q==1)return 0.0; if(q==6)return 1.0; if(q==2||q==3) return neg?0.0:1.0; return neg?1.0:0.0; }
  if (!sb && std::isinf(b)) { int q=p&7; bool neg=b<0; if(q==1)return 0.0; if(q==6)return 1.0; if(q==2||q==3) return neg?1.0:0.0; return neg?0.0:1.0; }
  switch (p & 7) { case 1: return op2(O_EQ, a, b); case 2: return op2(O_LT, b, a); case 3: return op2(O_LE, b, a); case 4: return op2(O_LT, a, b);
    case 5: return op2(O_LE, a, b); case 6: return rt_not(op2(O_EQ, a, b)); }
  return 0.0;
}
E double rt_and(double a, double b) { if (!isS(a)) return a != 0 ? b : 0.0; if (!isS(b)) return b != 0 ? a : 0.0; if (bitsOf(a)==bitsOf(b)) return a; return op2(O_AND, a, b); }
E double rt_or(double a, double b) { if (!isS(a)) return a != 0 ? 1.0 : b; if (!isS(b)) return b != 0 ? 1.0 : a; if (bitsOf(a)==bitsOf(b)) return a; return op2(O_OR, a, b); }
E double rt_xor(double a, double b) { if (!isS(a)) return a != 0 ? rt_not(b) : b; if (!isS(b)) return b != 0 ? rt_not(a) : a; return op2(O_XOR, a, b); }
E double rt_bite(double c, double x, double y) { if (!isS(c)) return c != 0 ? x : y; 
  if (!isS(y) && y == 0) return rt_and(c, x); if (!isS(x) && x == 1) return rt_or(c, y);
  return rt_or(rt_and(c, x), rt_and(rt_not(c), y)); }
E double rt_ite(double c, double a, double b) {
  if (!isS(c)) return c != 0 ? a : b; if (bitsOf(a) == bitsOf(b)) return a;
  uint32_t ci = idx(c); auto it = DECIDED->find(ci); if (it != DECIDED->end()) return it->second ? a : b;
  if (!isS(a) && !isS(b) && a == b) return a;
  if (noite) return rt_decide(c) ? a : b;
  ++nops; uint32_t x = nd(a), y = nd(b); return boxN(mk(O_ITE, ci, x, y, opEval(O_ITE, (*N)[ci].v, (*N)[x].v, (*N)[y].v)));
}
E bool rt_decide(double c) {
  if (!isS(c)) return c != 0;
  uint32_t ci = idx(c); auto it = DECIDED->find(ci); if (it != DECIDED->end()) return it->second;
  Node n = (*N)[ci];
  if (n.op == O_NOT) return !rt_decide(boxN(n.a));
  if (n.op == O_AND) { return rt_decide(boxN(n.a)) && rt_decide(boxN(n.b)); }
  if (n.op == O_OR) { return rt_decide(boxN(n.a)) || rt_decide(boxN(n.b)); }
  bool v = n.v != 0; (*DECIDED)[ci] = v; PATH->push_back({ci, v, 0}); return v;
}
E double rt_toint(double a) {     // fp-to-int of a symbolic value: pin it by deciding its conditions
  if (!isS(a)) return a;
  for (int guard = 0; guard < 64; ++guard) {
    Node n = (*N)[idx(a)];
    if (n.op == O_CONST) return n.v;
    auto rec = [&](uint32_t k) { return rt_toint(boxN(k)); };
    switch (n.op) {
      case O_ITE: a = boxN(rt_decide(boxN(n.a)) ? n.b : n.c); continue;
      case O_ADD: return rec(n.a) + rec(n.b); case O_SUB: return rec(n.a) - rec(n.b); case O_MUL: return rec(n.a) * rec(n.b); case O_DIV: return rec(n.a) / rec(n.b); case O_NEG: return -rec(n.a);
      default: {
        double t = trunc(n.v); // t <= a < t+1 (or mirrored): decided as path condition
        if (n.v >= 0) { rt_decide(rt_cmp(5, t, a)); rt_decide(rt_cmp(4, a, t + 1)); } else { rt_decide(rt_cmp(5, a, t)); rt_decide(rt_cmp(2, a, t - 1)); }
        return t; }
    }
  }
  return sh(a);
}
E double rt_conc(double a) { if (!isS(a)) return a; return sh(a); }
E void rt_claim_eq(double a, double b, double s, double t, const char *l) { init(); CLAIMS->push_back({0, nd(a), nd(b), sh(s), t, l, (uint32_t)PATH->size()}); }
E void rt_claim_le(double a, double b, double s, double t, const char *l) { init(); CLAIMS->push_back({1, nd(a), nd(b), sh(s), t, l, (uint32_t)PATH->size()}); }
E void rt_claim_bool(int v, const char *l) { init(); CLAIMS->push_back({2, nd(v), nd(1.0), 1, 0, l, (uint32_t)PATH->size()}); }
static void assume(double c) { init(); if (!isS(c)) { if (c == 0) { fprintf(stderr, "rt: assumption false\n"); _exit(77); } return; }
  uint32_t ci = idx(c); if ((*N)[ci].v == 0) { fprintf(stderr, "rt: seed violates assumption\n"); _exit(77); }
  if (DECIDED->count(ci)) return; (*DECIDED)[ci] = true; PATH->push_back({ci, 1, 1}); }
E void rt_assume_le(double a, double b) { assume(rt_cmp(5, a, b)); }
E void rt_assume_lt(double a, double b) { assume(rt_cmp(4, a, b)); }
E double rt_uf(const char *fn, int k, int n, const double *args) {
  init(); auto it = UFN->find(fn); uint32_t f; if (it == UFN->end()) { f = UFN->size(); (*UFN)[fn] = f; } else f = it->second;
  uint32_t l = 0; double acc = 0.37 + 0.11 * k + f; for (int i = n - 1; i >= 0; --i) { uint32_t x = nd(args[i]); l = mk(O_PAIR, x, l, 0, 0.0); acc = acc * 0.7 + sin((*N)[x].v * (1.3 + i)); }
  return boxN(mk(O_UF, f, k, l, acc));
}
E void rt_note(const char *k, const char *v) { init(); NOTES->push_back({k, v}); }
// ---- memory tracing ----
E void rt_region(const void *p, uint64_t sz, const char *nm) { init(); if (sz) REG->push_back({(uint64_t)p, (uint64_t)p + sz, nm}); }
E void rt_trace(int on) { init(); tracing = on; }
E void rt_item_begin(const char *nm, int64_t i) {
  init(); if (nest++ > 0) return; if (!tracing) return;
  // a new kernel instance starts when the functor changes or the item index restarts
  static int64_t last = 1LL << 60;
  if (*lastKern != nm || i <= last) { std::string k = std::string(nm) + "#" + std::to_string(kernelInst++); curKernel = KERN->size(); KERN->push_back(k); *lastKern = nm; }
  last = i; curItem = i; inItem = true;
}
E void rt_item_end() { if (nest > 0) --nest; if (nest == 0) inItem = false; }
E void rt_access(const void *p, uint64_t sz, int kind) {
  if (!tracing || !inItem) return; ++accCount; uint64_t a = (uint64_t)p;
  for (size_t r = 0; r < REG->size(); ++r) if (a >= (*REG)[r].lo && a < (*REG)[r].hi) {
    for (uint64_t o = 0; o < sz; o += 8) { ACCS->push_back({curKernel, curItem, (int)r, (int64_t)(a + o - (*REG)[r].lo), kind}); }
    if (a + sz > (*REG)[r].hi) OOB->insert((*KERN)[curKernel] + " item " + std::to_string(curItem) + " overruns " + (*REG)[r].name);
    return; }
  // red zones around the regions
  for (auto &r : *REG) if ((a >= r.lo - 4096 && a < r.lo) || (a >= r.hi && a < r.hi + 4096)) { OOB->insert((*KERN)[curKernel] + " item " + std::to_string(curItem) + (a < r.lo ? " before " : " past ") + r.name); return; }
}
E void rt_finish(void) {
  init();
  const char *o = getenv("RT_OUT"); if (!o) o = "sym.dump";
  FILE *f = fopen(o, "wb"); if (!f) { perror(o); _exit(89); }
  auto w = [&](const void *p, size_t n) { if (fwrite(p, 1, n, f) != n) { perror("dump"); _exit(89); } };
  auto w32 = [&](uint32_t x) { w(&x, 4); }; auto wd = [&](double x) { w(&x, 8); }; auto ws = [&](const std::string &s) { w32(s.size()); w(s.data(), s.size()); };
  w("SYMD2\0\0\0", 8); w32(N->size()); w32(hashMode);
  for (auto &n : *N) { w(&n.op, 1); w32(n.a); w32(n.b); w32(n.c); wd(n.v); }
  if (hashMode) for (auto h : *HASH) w(&h, 8);
  w32(VARS->size()); for (auto &v : *VARS) { ws(v.name); wd(v.lo); wd(v.hi); w32(v.node); }
  w32(PATH->size()); for (auto &d : *PATH) { w32(d.node); w(&d.val, 1); w(&d.assume, 1); }
  w32(CLAIMS->size()); for (auto &c : *CLAIMS) { w(&c.kind, 1); w32(c.a); w32(c.b); wd(c.scale); wd(c.tol); ws(c.label); w32(c.pathLen); }
  w32(NOTES->size()); for (auto &n : *NOTES) { ws(n.first); ws(n.second); }
  w32(UFN->size()); { std::vector<std::string> nm(UFN->size()); for (auto &u : *UFN) nm[u.second] = u.first; for (auto &s : nm) ws(s); }
  w(&nops, 8);
  fclose(f);
  if (tracing || !ACCS->empty() || !OOB->empty()) {
    std::string t = std::string(o) + ".acc"; f = fopen(t.c_str(), "wb");
    w32(KERN->size()); for (auto &k : *KERN) ws(k); w32(REG->size()); for (auto &r : *REG) { ws(r.name); uint64_t s = r.hi - r.lo; w(&s, 8); }
    uint64_t na = ACCS->size(); w(&na, 8); for (auto &a : *ACCS) { w(&a.kernel, 4); w(&a.item, 8); w(&a.region, 4); w(&a.off, 8); w(&a.kind, 4); }
    w32(OOB->size()); for (auto &s : *OOB) ws(s); fclose(f);
  }
}
