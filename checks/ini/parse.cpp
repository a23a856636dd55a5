// The repository's ini.cpp on a symbolic text: the calls of the handler are compared with ref.h
#include <stdio.h>
// positions of line breaks that are known beforehand (so that the number of lines is a constant)
static int NL[LEN + 1]; static int isbreak(int p, char c);
#define V_BREAK(p, c) isbreak(p, c)
#include <string>
#include "ini.cpp"
#include "ref.h"
extern "C" { char v_input(int); }
static char T[LEN + 1]; static int len, pos, ncall, opened, closed; static int hres[MAXCALL]; static char token;
extern "C" FILE *fopen(const char *, const char *) { ++opened; return (FILE *)&token; }
extern "C" int fclose(FILE *) { ++closed; return 0; }
extern "C" char *fgets(char *s, int n, FILE *) {
  v_assert(n > 0, "fgets has room"); s[n - 1] = 1;       // the whole buffer has to be there
  if (pos >= len) return 0;
  int i = 0; while (i < n - 1 && pos < len) { char c = T[pos]; s[i] = c; ++i; ++pos; if (isbreak(pos - 1, c)) break; }
  s[i] = 0; return s;
}
#ifdef TEMPLATE
static int isbreak(int p, char c) { return NL[p] == 2 ? c == '\n' : NL[p]; }
#else
static int isbreak(int, char c) { return c == '\n'; }
#endif
static int handler(void *u, const char *s, const char *n, const char *v) {
  int k = ncall++; v_assert(u == (void *)&token, "the handler gets its argument"); if (k >= MAXCALL) return 1;
  v_assert(k < nwant, "no value is invented");
  if (k < nwant) { v_assert(same(s, wants + k * CAP), "section of a value"); v_assert(same(n, wantn + k * CAP), "key of a value"); v_assert(same(v, wantv + k * CAP), "value of a key"); }
  return hres[k];
}
extern "C" void v_main() {
#ifdef TEMPLATE
  static const char tmpl[] = TEMPLATE;      // '\1': any character but a line break; '\2': any character
  len = LEN;
#else
  len = v_input(255); v_assume(len >= 0 && len <= LEN);
#endif
  for (int i = 0; i < LEN; ++i) { char c;
#ifdef TEMPLATE
    NL[i] = tmpl[i] == '\2' ? 2 : tmpl[i] == '\n';
    if (tmpl[i] == '\1') { c = v_input(i); v_assume(c != '\n'); } else if (tmpl[i] == '\2') c = v_input(i); else c = tmpl[i];
#else
    c = v_input(i);
#endif
    v_assume(c != 0); T[i] = c; }
  T[LEN] = 0; for (int i = 0; i < MAXCALL; ++i) hres[i] = v_input(LEN + i) & 1;
  reference(T, len); v_assume(nwant <= MAXCALL);
  int firstbad = werr; for (int i = 0; i < MAXCALL; ++i) if (i < nwant && !hres[i] && (!firstbad || wantline[i] < firstbad)) firstbad = wantline[i];
#ifdef BUFFER
  static char B[LEN + 1]; for (int i = 0; i < LEN; ++i) B[i] = T[i]; char *pb = B; int r = ini_parse_buffer(pb, len, handler, &token);
#else
  int r = ini_parse("file", handler, &token); v_assert(opened == 1 && closed == 1, "the file is opened and closed once");
#endif
  v_assert(ncall == nwant, "every value is delivered"); v_assert(r == firstbad, "the first wrong line is reported");
}
