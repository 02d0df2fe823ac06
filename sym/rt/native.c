/* Native runtime: the same harness linked against this file runs the real,
 * unmodified code on concrete values (counterexample replay, and validation of
 * the encoding).  SYM_VALUES names a file with one "name value" per line. */
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
static char **names; static double *vals; static int nv; static const char *dec; static size_t decpos; static FILE *out;
static int *chs; static int nch, chpos;
void symrt_init(const char *o, const char *d, int fp) { (void)fp; (void)d; dec = d; out = fopen(o, "w");
  const char *p = getenv("SYM_VALUES"); if (!p) return; FILE *f = fopen(p, "r"); if (!f) exit(96);
  char n[256], v[256]; while (fscanf(f, "%255s %255s", n, v) == 2) {
    if (!strcmp(n, "#choose")) { chs = realloc(chs, sizeof(int) * (nch + 1)); chs[nch++] = atoi(v); continue; }
    names = realloc(names, sizeof(char *) * (nv + 1)); vals = realloc(vals, sizeof(double) * (nv + 1)); names[nv] = strdup(n); vals[nv++] = strtod(v, 0); }
  fclose(f); }
void symrt_finish(void) { fprintf(out, "END ok\n"); fclose(out); }
void symrt_panic(void) { fprintf(out, "END panic\n"); fclose(out); }
int symrt_is_native(void) { return 1; }
double symrt_var64(const char *name, size_t n) { for (int i = 0; i < nv; i++) if (strlen(names[i]) == n && !memcmp(names[i], name, n)) { return vals[i]; } fprintf(out, "MISSING %.*s\n", (int)n, name); return 0; }
float symrt_var32(const char *name, size_t n) { return (float)symrt_var64(name, n); }
static unsigned long long b(double d) { unsigned long long u; memcpy(&u, &d, 8); return u; }
static int holds(int rel, double a, double c) { switch (rel) { case 0: return a == c; case 1: return a != c; case 2: return a < c; case 3: return a <= c; case 4: return a > c; default: return a >= c; } }
void symrt_assume(int rel, double a, double c) { int ok = holds(rel, a, c); fprintf(out, "A %d %d %.17g %.17g\n", ok, rel, a, c); }
void symrt_unit(const double *v, size_t n) { double s = 0; for (size_t i = 0; i < n; i++) s += v[i] * v[i]; fprintf(out, "U %.17g\n", s); }
void symrt_check(int rel, double a, double c, double tol, const char *l, size_t n) { fprintf(out, "C %d %llx %llx %llx %.*s\n", rel, b(a), b(c), b(tol), (int)n, l); }
void symrt_same(double a, double c, const char *l, size_t n) { fprintf(out, "S %llx %llx %.*s\n", b(a), b(c), (int)n, l); }
void symrt_same32(float a, float c, const char *l, size_t n) { fprintf(out, "S %llx %llx %.*s\n", b(a), b(c), (int)n, l); }
void symrt_bool(int ok, const char *l, size_t n) { fprintf(out, "P %d %.*s\n", ok, (int)n, l); }
void symrt_finite(double a, const char *l, size_t n) { fprintf(out, "W %llx %.*s\n", b(a), (int)n, l); }
void symrt_accurate(double a, double scale, const char *l, size_t n) { fprintf(out, "E %llx %llx %.*s\n", b(a), b(scale), (int)n, l); }
double symrt_mag64(double a) { return fabs(a); }
float symrt_mag32(float a) { return fabsf(a); }
void symrt_note(const char *l, size_t n) { fprintf(out, "T %.*s\n", (int)n, l); }
void symrt_sut(int on) { (void)on; }
int symrt_choose(int arity, const char *l, size_t n) { (void)l; (void)n; int d = chpos < nch ? chs[chpos] : 0; chpos++; return d < arity ? d : 0; }
double symrt_frac64(double a, double b) { return a / b; }
float symrt_frac32(float a, float b) { return a / b; }
int symrt_same_node(double a, double b) { return a == b; }
void symrt_concrete(int on) { (void)on; }
int symrt_in_sut(void) { return 0; }
int symrt_is_symbolic(double a) { (void)a; return 0; }
void symrt_unsupported(const char *l, size_t n) { fprintf(out, "UNSUPPORTED %.*s\n", (int)n, l); }
void symrt_stop(void) { fprintf(out, "END stop\n"); fclose(out); exit(0); }
