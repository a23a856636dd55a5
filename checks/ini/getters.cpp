// INIReader and ConfigMap over symbolic entries and queries: the value last given to a key, however it is capitalised,
// or the default.  Also compiled natively (-DNATIVE) with the real libraries, to replay a counterexample.
#ifdef NATIVE
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <string>
#include <sstream>
#include <fstream>
#include <iostream>
static unsigned char IN[256]; static int fails; static char v_input(int i) { return (char)IN[i & 255]; }
static void v_assert(int c, const char *m) { if (!c) { printf("NATIVE-FAIL %s\n", m); ++fails; } } static void v_assume(int c) { if (!c) { printf("NATIVE-ASSUME\n"); exit(0); } }
#else
#include <stdio.h>
extern "C" { char v_input(int); }
#endif
#if WHAT == 5
static int isbreak(int p, char c);
#define V_BREAK(p, c) isbreak(p, c)
#endif
#include <sstream>
#include "ini.cpp"
#include "INIReader.cpp"
#include "ConfigMap.cpp"
#if WHAT == 5
static int isbreak(int p, char) { return p == 4; }
#include "ref.h"
#endif
#ifndef SL
#define SL 2          // longest section and key
#define VL 3          // longest value
#endif
#ifndef ENTRIES
#define ENTRIES 2
#endif
static char sec[ENTRIES * 8], nam[ENTRIES * 8], val[ENTRIES * 8], qs[8], qn[8], defv[8];
static int eqs(const char *a, const char *b) { for (int i = 0; i < 8; ++i) { if (a[i] != b[i]) return 0; if (!a[i]) return 1; } return 0; }
#if WHAT == 5
static const char HEAD[] = "[Ab]\nK"; static char text[16];
#endif
static char low(char c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
static int eqi(const char *a, const char *b) { for (int i = 0; i < 8; ++i) { if (low(a[i]) != low(b[i])) return 0; if (!a[i]) return 1; } return 0; }
static int at; static void word(char *d, int n, int dots, int ascii) { for (int i = 0; i < n; ++i) { d[i] = v_input(at++); if (!dots) v_assume(d[i] != '.'); if (ascii) v_assume(d[i] >= 0); } d[n] = 0; }
static int digit(char c) { return c >= '0' && c <= '9'; }
static int hexdig(char c) { return digit(c) ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
static int blank(char c) { return c == ' ' || (c >= 9 && c <= 13); }
// integers: white space, sign, digits (base 10), or 0x and hexadecimal digits; *used = 0 when there is none
static long integer(const char *p, int base, int *used) { int i = 0; while (blank(p[i])) ++i; int neg = p[i] == '-'; if (p[i] == '-' || p[i] == '+') ++i;
  if ((base == 0 || base == 16) && p[i] == '0' && (p[i + 1] == 'x' || p[i + 1] == 'X') && hexdig(p[i + 2]) >= 0) { base = 16; i += 2; } else if (base == 0) base = p[i] == '0' ? 8 : 10;
  long r = 0; int k = i; while (hexdig(p[i]) >= 0 && hexdig(p[i]) < base) { r = r * base + hexdig(p[i]); ++i; } *used = i > k ? i : 0; return neg ? -r : r; }
static float number(const char *p, int *used) { int i = 0; while (blank(p[i])) ++i; int neg = p[i] == '-'; if (p[i] == '-' || p[i] == '+') ++i; int n = 0, m = 0, s = 1;
  while (digit(p[i])) { m = m * 10 + p[i] - '0'; ++i; ++n; } if (p[i] == '.' && (n || digit(p[i + 1]))) { ++i; while (digit(p[i])) { m = m * 10 + p[i] - '0'; s = s * 10; ++i; ++n; } } *used = n ? i : 0; float r = (float)m / (float)s; return neg ? -r : r; }
#ifndef NATIVE
extern "C" long strtol(const char *p, char **end, int base) { int u; long r = integer(p, base, &u); if (end) *end = (char *)p + u; return r; }
extern "C" long long strtoll(const char *p, char **end, int base) { return strtol(p, end, base); }
extern "C" float strtof(const char *p, char **end) { int u; float r = number(p, &u); if (end) *end = (char *)p + u; return r; }
extern "C" double strtod(const char *p, char **end) { return strtof(p, end); }
#endif
extern "C" void v_main() {
#if WHAT == 5
  int n = 0; while (HEAD[n]) { text[n] = HEAD[n]; ++n; } for (int i = 0; i < 5; ++i) { char c = v_input(i); v_assume(c != '\n' && c != 0); text[n++] = c; }
  reference(text, n); char *pt = text; ConfigMap P(pt, n); v_assert((P.ParseError() != 0) == (werr != 0), "a wrong line is reported");
  if (nwant == 1) { for (int i = 0; wantn[i]; ++i) qn[i] = low(wantn[i]); v_assert(eqs(P.getString(std::string("aB"), std::string(qn), std::string("?")).c_str(), wantv), "the value in the text"); } 
  v_assert(eqs(P.getString(std::string("ab"), std::string("zz"), std::string("?")).c_str(), "?"), "a key that is not there"); return;
#else
  static char none[1]; char *pb = none; ConfigMap C(pb, 0);
  for (int i = 0; i < ENTRIES; ++i) { word(sec + 8 * i, SL, 0, 1); word(nam + 8 * i, SL, 1, 1); word(val + 8 * i, VL, 1, 0); } word(qs, SL, 0, 1); word(qn, SL, 1, 1); word(defv, VL, 1, 0);
  int last = -1; for (int i = 0; i < ENTRIES; ++i) if (eqi(sec + 8 * i, qs) && eqi(nam + 8 * i, qn)) last = i;
  int how = v_input(at++);
  for (int i = 0; i < ENTRIES; ++i) { if (how >> i & 1) C.setString(std::string(sec + 8 * i), std::string(nam + 8 * i), std::string(val + 8 * i)); else { int r = INIReader::valueHandler((INIReader *)&C, sec + 8 * i, nam + 8 * i, val + 8 * i); v_assert(r != 0, "a value is accepted"); } }
  static char empty[8]; const char *w = last >= 0 ? val + 8 * last : empty; std::string S(qs), N(qn); int used; (void)used;
#if WHAT == 0
  std::string r = C.getString(S, N, std::string(defv)); v_assert(eqs(r.c_str(), last >= 0 ? w : defv), "the value last given to the key, or the default");
#elif WHAT == 1
  for (int i = 0; i < VL; ++i) v_assume(w[i] != 'b' && w[i] != 'B'); for (int i = 0; i + 1 < VL; ++i) v_assume(!(w[i] == '0' && digit(w[i + 1]) && (i == 0 || !hexdig(w[i - 1]) )) );
  long e = integer(w, 0, &used); long d = v_input(at++); long r = C.getInteger(S, N, d); v_assert(r == (used ? e : d), "the integer written, or the default");
#elif WHAT == 2
  for (int i = 0; i < VL; ++i) v_assume(w[i] != 'i' && w[i] != 'I' && w[i] != 'n' && w[i] != 'N' && w[i] != 'x' && w[i] != 'X' && w[i] != 'e' && w[i] != 'E');
  float e = number(w, &used); float d = v_input(at++); float r = C.getFloat(S, N, d); v_assert(r == (used ? e : d), "the number written, or the default");
#elif WHAT == 3
  int d = v_input(at++) & 1; bool r = C.getBool(S, N, d != 0); int t = eqs(w, "1") || eqs(w, "yes") || eqs(w, "true") || eqs(w, "on"), f = eqs(w, "0") || eqs(w, "no") || eqs(w, "false") || eqs(w, "off");
  v_assert((r ? 1 : 0) == (t ? 1 : f ? 0 : d), "the truth value written, or the default");
#else
  // setting a value, in whatever way, is seen by the next query
  int b = v_input(at++) & 1; C.setBool(S, N, b != 0); v_assert(C.getBool(S, N, b == 0) == (b != 0), "a truth value that was set");
#endif
#endif
}
#ifdef NATIVE
int main(int ac, char **av) { for (int i = 1; i < ac && i < 256; ++i) IN[i - 1] = (unsigned char)atoi(av[i]); v_main(); printf("NATIVE-DONE fails=%d\n", fails); return fails ? 1 : 0; }
#endif
