// Replays a text on the natively compiled ini.cpp (real standard library, address sanitizer) against ref.h
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#define CAP 256
#define MAXCALL 64
#include "ini.cpp"
#ifndef MAXSEC
#define MAXSEC (MAX_SECTION - 1)
#define MAXNAM (MAX_NAME - 1)
#endif
#include "ref.h"
static int ncall, fails; static int hres[MAXCALL]; static char token;
static void check(bool ok, const char *w) { if (!ok) { ++fails; printf("NATIVE-FAIL %s\n", w); } }
static int handler(void *u, const char *s, const char *n, const char *v) {
  int k = ncall++; check(k < nwant, "no value is invented");
  if (k < nwant && k < MAXCALL) { check(!strcmp(s, wants + k * CAP), "section of a value"); check(!strcmp(n, wantn + k * CAP), "key of a value"); check(!strcmp(v, wantv + k * CAP), "value of a key"); }
  return k < MAXCALL ? hres[k] : 1;
}
int main(int argc, char **argv) {       // text file, 1: from a buffer, handler results
  std::vector<char> t; FILE *f = fopen(argv[1], "rb"); int c; while ((c = fgetc(f)) != EOF) t.push_back((char)c); fclose(f); int len = t.size(); t.push_back(0);
  for (int i = 0; i < MAXCALL; ++i) hres[i] = argc > 3 && i < (int)strlen(argv[3]) ? argv[3][i] == '1' : 1;
  reference(t.data(), len); int firstbad = werr; for (int i = 0; i < nwant && i < MAXCALL; ++i) if (!hres[i] && (!firstbad || wantline[i] < firstbad)) firstbad = wantline[i];
  char *b = (char *)malloc(len); memcpy(b, t.data(), len); char *pb = b;
  int r = atoi(argv[2]) ? ini_parse_buffer(pb, len, handler, &token) : ini_parse(argv[1], handler, &token);
  check(ncall == nwant, "every value is delivered"); check(r == firstbad, "the first wrong line is reported"); printf("NATIVE-DONE fails=%d\n", fails); return fails != 0;
}
