// What a parameter file means, written down independently of the parser (positions in the text, nothing modified).
#ifndef REF_H
#define REF_H
#ifndef V_BREAK
#define ISBREAK(i, c) ((c) == '\n')
#else
#define ISBREAK(i, c) V_BREAK(i, c)
#endif
#ifndef CAP
#define CAP 64
#endif
#ifndef MAXSEC
#define MAXSEC 49
#define MAXNAM 49
#endif
#ifndef MAXCALL
#define MAXCALL 6
#endif
static char wants[MAXCALL * CAP], wantn[MAXCALL * CAP], wantv[MAXCALL * CAP]; static int wantline[MAXCALL]; static int nwant, werr, wline; static char rsec[CAP], rprev[CAP];
static int ws(char c) { return c == ' ' || (c >= 9 && c <= 13); }
static void cut(char *d, const char *t, int a, int b, int max) { int i = 0; while (a + i < b && i < max && t[a + i]) { d[i] = t[a + i]; i = i + 1; } d[i] = 0; }
static void copystr(char *d, const char *s) { int i = 0; while (s[i] && i < CAP - 1) { d[i] = s[i]; i = i + 1; } d[i] = 0; }
static int same(const char *a, const char *b) { int i = 0; while (i < CAP) { if (a[i] != b[i]) return 0; if (!a[i]) return 1; i = i + 1; } return 0; }
// text[a,b) without white space at its ends
static void trim(char *d, const char *t, int a, int b) { while (a < b && ws(t[a])) a = a + 1; while (b > a && ws(t[b - 1])) b = b - 1; cut(d, t, a, b, CAP - 1); }
static void emit(const char *n, const char *t, int a, int b) { if (nwant < MAXCALL) { copystr(wants + nwant * CAP, rsec); copystr(wantn + nwant * CAP, n); trim(wantv + nwant * CAP, t, a, b); wantline[nwant] = wline; } nwant = nwant + 1; }
static void bad() { if (!werr) werr = wline; }
static void refline(const char *t, int a, int b) {
  wline = wline + 1; int e = b; while (e > a && ws(t[e - 1])) e = e - 1;
  int s = a; while (s < e && ws(t[s])) s = s + 1;
  if (s == e) return;                                   // blank
  if (t[s] == ';' || t[s] == '#') return;               // comment line
  int c = e, i = s + 1; while (i < e) { if (t[i] == ';' && ws(t[i - 1])) { c = i; break; } i = i + 1; }      // comment at the end of the line
  if (s > a && rprev[0]) { emit(rprev, t, s, c); return; }                                                   // indented: continues the key above
  int p = s;
  if (t[s] == '[') { while (p < c && t[p] != ']') p = p + 1; if (p == c) { bad(); return; } cut(rsec, t, s + 1, p, MAXSEC); rprev[0] = 0; return; }
  while (p < c && t[p] != '=') p = p + 1; if (p == c) { bad(); return; }
  char name[CAP]; trim(name, t, s, p); emit(name, t, p + 1, c); cut(rprev, name, 0, MAXNAM, MAXNAM);
}
static void reference(const char *t, int len) {
  nwant = 0; werr = 0; wline = 0; rsec[0] = 0; rprev[0] = 0; int a = 0, i = 0;
  while (i < len) { if (ISBREAK(i, t[i])) { refline(t, a, i); a = i + 1; } i = i + 1; }
  if (a < len) refline(t, a, len);
}
#endif
