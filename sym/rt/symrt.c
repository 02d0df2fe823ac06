/* Symbolic floating-point runtime.
 *
 * Every floating-point operation of the program under analysis is a call into
 * this file (see rewrite.py).  A symbolic value travels through the program as
 * a *signalling* NaN whose payload is the index of a node of the term DAG; an
 * operation that the rewriter missed traps (SIGFPE, invalid operation is
 * unmasked), so nothing can silently compute on a symbolic value.
 *
 * Concrete operands are computed natively (IEEE double/single).
 */
#define _GNU_SOURCE
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <fenv.h>
#include <signal.h>
#include <unistd.h>

typedef uint64_t u64; typedef uint32_t u32;

enum { VAR, CONST, ADD, SUB, MUL, DIV, NEG, ABS, SQRT, POWI, SIN, COS, TAN, ASIN, ACOS, ATAN, ATAN2,
       TRUNC32, EXT64, COPYSIGN, EXP, LOG, FMA, FREM, FLOOR, CEIL, ROUND, TRUNCI, POW, HYPOT, CBRT, NOPS };
static const char *opname[] = {"VAR","CONST","ADD","SUB","MUL","DIV","NEG","ABS","SQRT","POWI","SIN","COS","TAN","ASIN","ACOS","ATAN","ATAN2",
       "TRUNC32","EXT64","COPYSIGN","EXP","LOG","FMA","FREM","FLOOR","CEIL","ROUND","TRUNCI","POW","HYPOT","CBRT"};

typedef struct { int op; int width; u32 a, b, c; u64 bits; int sut; } node_t;
static node_t *nodes; static u32 nnodes = 1, capnodes;
static u32 *htab; static u32 hcap;
static char *ev; static size_t evn, evcap;
static int mode_fp = 0, in_sut = 0, merge_off = 0;
static const char *outfile; static const char *dec; static size_t decn, decpos;
static long nbranch = 0, nops = 0;
static int finished = 0;

#define BOX64 0x7FF4535900000000ULL
#define ISBOX64(x) (((x) & 0xFFFFFFFF00000000ULL) == BOX64)
#define BOX32 0x7FA00000u
#define ISBOX32(x) (((x) & 0xFFE00000u) == BOX32)

static inline u64 d2u(double d){u64 u;memcpy(&u,&d,8);return u;}
static inline double u2d(u64 u){double d;memcpy(&d,&u,8);return d;}
static inline u32 f2u(float d){u32 u;memcpy(&u,&d,4);return u;}
static inline float u2f(u32 u){float d;memcpy(&d,&u,4);return d;}

static void evput(const char *fmt, ...) __attribute__((format(printf,1,2)));
#include <stdarg.h>
static void evput(const char *fmt, ...) {
  va_list ap; va_start(ap, fmt);
  if (evcap - evn < 1024) { evcap = evcap ? evcap * 2 : 65536; ev = realloc(ev, evcap); }
  evn += vsnprintf(ev + evn, evcap - evn, fmt, ap);
  va_end(ap);
}

static void dump(const char *status) {
  if (finished) return; finished = 1;
  FILE *f = fopen(outfile, "w"); if (!f) _exit(97);
  for (u32 i = 1; i < nnodes; i++) {
    node_t *n = &nodes[i];
    fprintf(f, "N %u %s %d %u %u %u %llx %d\n", i, opname[n->op], n->width, n->a, n->b, n->c, (unsigned long long)n->bits, n->sut);
  }
  fwrite(ev, 1, evn, f);
  fprintf(f, "END %s %ld %ld\n", status, nbranch, nops);
  fclose(f);
}
static void die(const char *why) { dump(why); fflush(stdout); _exit(0); }

static void on_fpe(int s) { (void)s; dump("unsupported:native-fp-on-symbolic-value"); _exit(0); }
static void on_segv(int s) { (void)s; dump("crash:segv"); _exit(0); }

void symrt_init(const char *out, const char *decisions, int fp) {
  outfile = out; dec = decisions; decn = strlen(decisions); mode_fp = fp & 1; merge_off = 0;
  capnodes = 1 << 16; nodes = calloc(capnodes, sizeof(node_t));
  hcap = 1 << 18; htab = calloc(hcap, sizeof(u32));
  signal(SIGFPE, on_fpe); signal(SIGSEGV, on_segv);
  feclearexcept(FE_ALL_EXCEPT); feenableexcept(FE_INVALID);
}
void symrt_finish(void) { dump("ok"); }
void symrt_panic(void) { dump("panic"); }

static u32 mk(int op, int width, u32 a, u32 b, u32 c, u64 bits) {
  u64 h = (u64)op * 0x9E3779B97F4A7C15ULL ^ (u64)width * 0xC2B2AE3D27D4EB4FULL ^ (u64)a * 0x165667B19E3779F9ULL ^ (u64)b * 0xD6E8FEB86659FD93ULL ^ (u64)c * 0xA0761D6478BD642FULL ^ bits * 0xE7037ED1A0B428DBULL;
  h ^= h >> 29; h *= 0xBF58476D1CE4E5B9ULL; h ^= h >> 32;
  u32 i = h & (hcap - 1);
  while (htab[i]) {
    node_t *n = &nodes[htab[i]];
    if (n->op == op && n->width == width && n->a == a && n->b == b && n->c == c && n->bits == bits) {
      if (op == DIV || op == SQRT) { /* remember that the SUT evaluates it too */
        if (in_sut && !n->sut) { n->sut = 1; evput("D %u\n", htab[i]); }
      }
      return htab[i];
    }
    i = (i + 1) & (hcap - 1);
  }
  if (nnodes == capnodes) { capnodes *= 2; nodes = realloc(nodes, capnodes * sizeof(node_t)); }
  if (nnodes * 2 > hcap) { /* rehash */
    u32 oc = hcap; u32 *ot = htab; hcap *= 2; htab = calloc(hcap, sizeof(u32));
    for (u32 k = 0; k < oc; k++) if (ot[k]) {
      node_t *n = &nodes[ot[k]];
      u64 g = (u64)n->op * 0x9E3779B97F4A7C15ULL ^ (u64)n->width * 0xC2B2AE3D27D4EB4FULL ^ (u64)n->a * 0x165667B19E3779F9ULL ^ (u64)n->b * 0xD6E8FEB86659FD93ULL ^ (u64)n->c * 0xA0761D6478BD642FULL ^ n->bits * 0xE7037ED1A0B428DBULL;
      g ^= g >> 29; g *= 0xBF58476D1CE4E5B9ULL; g ^= g >> 32;
      u32 j = g & (hcap - 1); while (htab[j]) j = (j + 1) & (hcap - 1); htab[j] = ot[k];
    }
    free(ot);
    i = h & (hcap - 1); while (htab[i]) i = (i + 1) & (hcap - 1);
  }
  u32 id = nnodes++;
  nodes[id] = (node_t){op, width, a, b, c, bits, 0};
  htab[i] = id;
  if ((op == DIV || op == SQRT) && in_sut) { nodes[id].sut = 1; evput("D %u\n", id); }
  if (nnodes > 1500000) die("unsupported:too-many-nodes");
  return id;
}
static u32 id64(double d) { u64 u = d2u(d); if (ISBOX64(u)) return (u32)u; return mk(CONST, 64, 0, 0, 0, u); }
static u32 id32(float f) { u32 u = f2u(f); if (ISBOX32(u)) return u & 0x1FFFFF; return mk(CONST, 32, 0, 0, 0, u); }
static inline double box64(u32 id) { return u2d(BOX64 | id); }
static inline float box32(u32 id) { if (id >= 0x1FFFFF) die("unsupported:too-many-f32-nodes"); return u2f(BOX32 | id); }
static inline int s64(double d) { return ISBOX64(d2u(d)); }
static inline int s32(float f) { return ISBOX32(f2u(f)); }

/* native evaluation with the invalid trap masked (concrete operands only) */
#define NATIVE64(expr) ({ fenv_t e_; feholdexcept(&e_); volatile double r_ = (expr); double q_ = r_; feclearexcept(FE_ALL_EXCEPT); fesetenv(&e_); q_; })
#define NATIVE32(expr) ({ fenv_t e_; feholdexcept(&e_); volatile float r_ = (expr); float q_ = r_; feclearexcept(FE_ALL_EXCEPT); fesetenv(&e_); q_; })

#define BIN64(name, OP, expr) double symrt_##name##_d(double a, double b) { nops++; \
  if (!s64(a) && !s64(b)) { volatile double x = a, y = b; return NATIVE64(expr); } \
  return box64(mk(OP, 64, id64(a), id64(b), 0, 0)); }
#define BIN32(name, OP, expr) float symrt_##name##_f(float a, float b) { nops++; \
  if (!s32(a) && !s32(b)) { volatile float x = a, y = b; return NATIVE32(expr); } \
  return box32(mk(OP, 32, id32(a), id32(b), 0, 0)); }
BIN64(fadd, ADD, x + y) BIN64(fsub, SUB, x - y) BIN64(fmul, MUL, x * y) BIN64(fdiv, DIV, x / y) BIN64(frem, FREM, fmod(x, y))
BIN32(fadd, ADD, x + y) BIN32(fsub, SUB, x - y) BIN32(fmul, MUL, x * y) BIN32(fdiv, DIV, x / y) BIN32(frem, FREM, fmodf(x, y))
BIN64(atan2, ATAN2, atan2(x, y)) BIN64(pow, POW, pow(x, y)) BIN64(hypot, HYPOT, hypot(x, y))
BIN32(atan2, ATAN2, atan2f(x, y)) BIN32(pow, POW, powf(x, y)) BIN32(hypot, HYPOT, hypotf(x, y))
#define UN64(name, OP, expr) double symrt_##name##_d(double a) { nops++; \
  if (!s64(a)) { volatile double x = a; return NATIVE64(expr); } return box64(mk(OP, 64, id64(a), 0, 0, 0)); }
#define UN32(name, OP, expr) float symrt_##name##_f(float a) { nops++; \
  if (!s32(a)) { volatile float x = a; return NATIVE32(expr); } return box32(mk(OP, 32, id32(a), 0, 0, 0)); }
UN64(fneg, NEG, -x) UN32(fneg, NEG, -x)
UN64(sqrt, SQRT, sqrt(x)) UN32(sqrt, SQRT, sqrtf(x))
UN64(tan, TAN, tan(x)) UN64(asin, ASIN, asin(x)) UN64(acos, ACOS, acos(x)) UN64(atan, ATAN, atan(x))
UN32(tan, TAN, tanf(x)) UN32(asin, ASIN, asinf(x)) UN32(acos, ACOS, acosf(x)) UN32(atan, ATAN, atanf(x))
UN64(exp, EXP, exp(x)) UN64(log, LOG, log(x)) UN32(exp, EXP, expf(x)) UN32(log, LOG, logf(x))
UN64(floor, FLOOR, floor(x)) UN64(ceil, CEIL, ceil(x)) UN64(round, ROUND, round(x)) UN64(trunc, TRUNCI, trunc(x)) UN64(cbrt, CBRT, cbrt(x))
UN32(floor, FLOOR, floorf(x)) UN32(ceil, CEIL, ceilf(x)) UN32(round, ROUND, roundf(x)) UN32(trunc, TRUNCI, truncf(x)) UN32(cbrt, CBRT, cbrtf(x))
/* sin/cos of constants stay symbolic in real mode: the encoder knows the exact
 * values at the doubles that denote multiples of pi/2 */
double symrt_sin_d(double a) { nops++; if (!s64(a) && mode_fp) { volatile double x = a; return NATIVE64(sin(x)); } return box64(mk(SIN, 64, id64(a), 0, 0, 0)); }
double symrt_cos_d(double a) { nops++; if (!s64(a) && mode_fp) { volatile double x = a; return NATIVE64(cos(x)); } return box64(mk(COS, 64, id64(a), 0, 0, 0)); }
float symrt_sin_f(float a) { nops++; if (!s32(a) && mode_fp) { volatile float x = a; return NATIVE32(sinf(x)); } return box32(mk(SIN, 32, id32(a), 0, 0, 0)); }
float symrt_cos_f(float a) { nops++; if (!s32(a) && mode_fp) { volatile float x = a; return NATIVE32(cosf(x)); } return box32(mk(COS, 32, id32(a), 0, 0, 0)); }
double symrt_fma_d(double a, double b, double c) { nops++; if (!s64(a) && !s64(b) && !s64(c)) { volatile double x = a, y = b, z = c; return NATIVE64(fma(x, y, z)); } return box64(mk(FMA, 64, id64(a), id64(b), id64(c), 0)); }
float symrt_fma_f(float a, float b, float c) { nops++; if (!s32(a) && !s32(b) && !s32(c)) { volatile float x = a, y = b, z = c; return NATIVE32(fmaf(x, y, z)); } return box32(mk(FMA, 32, id32(a), id32(b), id32(c), 0)); }
double symrt_powi_d(double a, int n) { nops++;
  if (!s64(a)) { volatile double x = a; fenv_t e_; feholdexcept(&e_); double r = 1, y = x; int m = n, rec = n < 0; while (1) { if (m & 1) r *= y; m /= 2; if (!m) break; y *= y; } if (rec) r = 1 / r; feclearexcept(FE_ALL_EXCEPT); fesetenv(&e_); return r; }
  u32 id = mk(POWI, 64, id64(a), 0, 0, (u64)(int64_t)n);
  if (n < 0 && in_sut && !nodes[id].sut) { nodes[id].sut = 1; evput("D %u\n", id); }
  return box64(id); }
float symrt_powi_f(float a, int n) { nops++;
  if (!s32(a)) { volatile float x = a; fenv_t e_; feholdexcept(&e_); float r = 1, y = x; int m = n, rec = n < 0; while (1) { if (m & 1) r *= y; m /= 2; if (!m) break; y *= y; } if (rec) r = 1 / r; feclearexcept(FE_ALL_EXCEPT); fesetenv(&e_); return r; }
  u32 id = mk(POWI, 32, id32(a), 0, 0, (u64)(int64_t)n);
  if (n < 0 && in_sut && !nodes[id].sut) { nodes[id].sut = 1; evput("D %u\n", id); }
  return box32(id); }
float symrt_fptrunc(double a) { nops++; if (!s64(a)) { volatile double x = a; return NATIVE32((float)x); }
  return box32(mk(TRUNC32, 32, (u32)d2u(a), 0, 0, 0)); }
double symrt_fpext(float a) { nops++; if (!s32(a)) { volatile float x = a; return NATIVE64((double)x); }
  return box64(mk(EXT64, 64, f2u(a) & 0x1FFFFF, 0, 0, 0)); }

/* ---- branching ---- */
enum { R_EQ, R_NE, R_LT, R_LE, R_GT, R_GE, R_UNO, R_ORD };
static int take(int arity) {
  int d = 0;
  if (decpos < decn) { d = dec[decpos] - '0'; if (d < 0 || d >= arity) die("bad-decision"); }
  decpos++; nbranch++;
  if (nbranch > 20000) die("unsupported:too-many-branches");
  return d;
}
/* cache of decisions on this path */
typedef struct { int rel; u32 a, b; int v; } br_t; static br_t *brs; static long nbrs, capbrs;
static int negrel(int r){switch(r){case R_EQ:return R_NE;case R_NE:return R_EQ;case R_LT:return R_GE;case R_GE:return R_LT;case R_LE:return R_GT;case R_GT:return R_LE;case R_UNO:return R_ORD;default:return R_UNO;}}
static int decide(int rel, u32 a, u32 b) { /* rel in EQ, LT (a<b), LE, UNO only */
  for (long i = 0; i < nbrs; i++) {
    if (brs[i].a == a && brs[i].b == b && brs[i].rel == rel) return brs[i].v;
    if (rel == R_EQ && brs[i].rel == R_EQ && brs[i].a == b && brs[i].b == a) return brs[i].v;
    if (!mode_fp && rel == R_LE && brs[i].rel == R_LT && brs[i].a == b && brs[i].b == a) return !brs[i].v;
    if (!mode_fp && rel == R_LT && brs[i].rel == R_LE && brs[i].a == b && brs[i].b == a) return !brs[i].v;
  }
  int v = take(2);
  if (nbrs == capbrs) { capbrs = capbrs ? capbrs * 2 : 256; brs = realloc(brs, capbrs * sizeof(br_t)); }
  brs[nbrs++] = (br_t){rel, a, b, v};
  evput("B %s %u %u %d %d\n", rel == R_EQ ? "eq" : rel == R_LT ? "lt" : rel == R_LE ? "le" : "uno", a, b, v, in_sut);
  return v;
}
/* LLVM predicate numbering: 1 oeq 2 ogt 3 oge 4 olt 5 ole 6 one 7 ord 8 uno 9 ueq 10 ugt 11 uge 12 ult 13 ule 14 une */
static _Bool cmpnodes(int p, u32 a, u32 b) {
  if (!mode_fp) {
    if (p == 7) return 1; if (p == 8) return 0;
    int q = p > 8 ? p - 8 : p;
    if (a == b) return q == 1 || q == 3 || q == 5;
    switch (q) {
      case 1: return decide(R_EQ, a, b);
      case 6: return !decide(R_EQ, a, b);
      case 4: return decide(R_LT, a, b);
      case 2: return decide(R_LT, b, a);
      case 5: return decide(R_LE, a, b);
      case 3: return decide(R_LE, b, a);
    }
  } else {
    switch (p) {
      case 7: return !decide(R_UNO, a, b);
      case 8: return decide(R_UNO, a, b);
      case 1: return decide(R_EQ, a, b);
      case 14: return !decide(R_EQ, a, b);
      case 4: return decide(R_LT, a, b);
      case 2: return decide(R_LT, b, a);
      case 5: return decide(R_LE, a, b);
      case 3: return decide(R_LE, b, a);
      case 12: return !decide(R_LE, b, a);
      case 10: return !decide(R_LE, a, b);
      case 13: return !decide(R_LT, b, a);
      case 11: return !decide(R_LT, a, b);
      case 6: return !decide(R_EQ, a, b) && !decide(R_UNO, a, b);
      case 9: return decide(R_EQ, a, b) || decide(R_UNO, a, b);
    }
  }
  die("unsupported:predicate"); return 0;
}
static _Bool natcmp(int p, double x, double y) {
  fenv_t e_; feholdexcept(&e_); int un = isnan(x) || isnan(y), lt = isless(x, y), gt = isgreater(x, y), eq = !un && !lt && !gt; feclearexcept(FE_ALL_EXCEPT); fesetenv(&e_);
  switch (p) { case 0: return 0; case 1: return eq; case 2: return gt; case 3: return gt || eq; case 4: return lt; case 5: return lt || eq; case 6: return lt || gt; case 7: return !un; case 8: return un;
    case 9: return un || eq; case 10: return un || gt; case 11: return un || gt || eq; case 12: return un || lt; case 13: return un || lt || eq; case 14: return un || lt || gt; default: return 1; }
}
_Bool symrt_fcmp_d(int p, double a, double b) { nops++;
  if (!s64(a) && !s64(b)) return natcmp(p, a, b);
  /* comparisons with +-inf and NaN constants are decided here in real mode (values are finite reals) */
  if (!mode_fp) {
    for (int k = 0; k < 2; k++) { double c = k ? b : a; if (s64(c)) continue;
      if (isnan(c)) return p >= 8;
      if (isinf(c)) { double o = 0; return k ? natcmp(p, o, c) : natcmp(p, c, o); } }
  }
  return cmpnodes(p, id64(a), id64(b)); }
_Bool symrt_fcmp_f(int p, float a, float b) { nops++;
  if (!s32(a) && !s32(b)) return natcmp(p, (double)a, (double)b);
  if (!mode_fp) {
    for (int k = 0; k < 2; k++) { float c = k ? b : a; if (s32(c)) continue;
      if (isnan(c)) return p >= 8;
      if (isinf(c)) { double o = 0; return k ? natcmp(p, o, c) : natcmp(p, c, o); } }
  }
  return cmpnodes(p, id32(a), id32(b)); }
double symrt_fabs_d(double a) { nops++; if (!s64(a)) return u2d(d2u(a) & 0x7FFFFFFFFFFFFFFFULL);
  if (mode_fp) return box64(mk(ABS, 64, id64(a), 0, 0, 0));
  return symrt_fcmp_d(4, a, 0.0) ? symrt_fneg_d(a) : a; }
float symrt_fabs_f(float a) { nops++; if (!s32(a)) return u2f(f2u(a) & 0x7FFFFFFFu);
  if (mode_fp) return box32(mk(ABS, 32, id32(a), 0, 0, 0));
  return symrt_fcmp_f(4, a, 0.0f) ? symrt_fneg_f(a) : a; }
double symrt_copysign_d(double a, double s) { nops++; if (!s64(a) && !s64(s)) return copysign(a, s);
  if (mode_fp) return box64(mk(COPYSIGN, 64, id64(a), id64(s), 0, 0));
  int neg = symrt_fcmp_d(4, s, 0.0); double m = symrt_fabs_d(a); return neg ? symrt_fneg_d(m) : m; }
float symrt_copysign_f(float a, float s) { nops++; if (!s32(a) && !s32(s)) return copysignf(a, s);
  if (mode_fp) return box32(mk(COPYSIGN, 32, id32(a), id32(s), 0, 0));
  int neg = symrt_fcmp_f(4, s, 0.0f); float m = symrt_fabs_f(a); return neg ? symrt_fneg_f(m) : m; }
double symrt_max_d(double a, double b) { if (symrt_fcmp_d(8, a, a)) return b; if (symrt_fcmp_d(8, b, b)) return a; return symrt_fcmp_d(4, a, b) ? b : a; }
double symrt_min_d(double a, double b) { if (symrt_fcmp_d(8, a, a)) return b; if (symrt_fcmp_d(8, b, b)) return a; return symrt_fcmp_d(4, b, a) ? b : a; }
float symrt_max_f(float a, float b) { if (symrt_fcmp_f(8, a, a)) return b; if (symrt_fcmp_f(8, b, b)) return a; return symrt_fcmp_f(4, a, b) ? b : a; }
float symrt_min_f(float a, float b) { if (symrt_fcmp_f(8, a, a)) return b; if (symrt_fcmp_f(8, b, b)) return a; return symrt_fcmp_f(4, b, a) ? b : a; }
/* bit access / float->int on a symbolic value is outside the encoding */
u64 symrt_bits_d(double a) { if (s64(a)) die("unsupported:bits-of-symbolic-value"); return d2u(a); }
u32 symrt_bits_f(float a) { if (s32(a)) die("unsupported:bits-of-symbolic-value"); return f2u(a); }
double symrt_guard_d(double a) { if (s64(a)) die("unsupported:int-conversion-of-symbolic-value"); return a; }
float symrt_guard_f(float a) { if (s32(a)) die("unsupported:int-conversion-of-symbolic-value"); return a; }
_Bool symrt_signneg_d(double a) { if (!s64(a)) return d2u(a) >> 63; if (mode_fp) die("unsupported:sign-of-symbolic-value"); return symrt_fcmp_d(4, a, 0.0); }
_Bool symrt_signneg_f(float a) { if (!s32(a)) return f2u(a) >> 31; if (mode_fp) die("unsupported:sign-of-symbolic-value"); return symrt_fcmp_f(4, a, 0.0f); }

/* ---- functions entered ---- */
static u32 entered[65536]; static int nentered;
void symrt_enter(u32 k) { if (k < 65536 && !entered[k]) { entered[k] = 1; nentered++; evput("F %u\n", k); } }

/* ---- harness API ---- */
int symrt_is_native(void) { return 0; }
double symrt_var64(const char *name, size_t n) { char b[256]; snprintf(b, sizeof b, "%.*s", (int)n, name);
  evput("V %u %s\n", nnodes, b); static u64 k; return box64(mk(VAR, 64, 0, 0, 0, ++k)); }
float symrt_var32(const char *name, size_t n) { char b[256]; snprintf(b, sizeof b, "%.*s", (int)n, name);
  evput("V %u %s\n", nnodes, b); static u64 k = 1ULL << 32; return box32(mk(VAR, 32, 0, 0, 0, ++k)); }
void symrt_assume(int rel, double a, double b) { evput("A %d %u %u\n", rel, id64(a), id64(b)); }
void symrt_unit(const double *v, size_t n) { evput("U"); for (size_t i = 0; i < n; i++) evput(" %u", id64(v[i])); evput("\n"); }
void symrt_check(int rel, double a, double b, double tol, const char *l, size_t n) { u32 x = id64(a), y = id64(b);
  evput("C %d %u %u %llx %.*s\n", rel, x, y, (unsigned long long)d2u(tol), (int)n, l); }
void symrt_same(double a, double b, const char *l, size_t n) { u32 x = id64(a), y = id64(b); evput("S %u %u %.*s\n", x, y, (int)n, l); }
void symrt_same32(float a, float b, const char *l, size_t n) { u32 x = id32(a), y = id32(b); evput("S %u %u %.*s\n", x, y, (int)n, l); }
void symrt_bool(int ok, const char *l, size_t n) { evput("P %d %.*s\n", ok, (int)n, l); }
void symrt_finite(double a, const char *l, size_t n) { evput("W %u %.*s\n", id64(a), (int)n, l); }
void symrt_accurate(double a, double scale, const char *l, size_t n) { u32 x = id64(a), y = id64(scale); evput("E %u %u %.*s\n", x, y, (int)n, l); }
double symrt_mag64(double a) { return box64(mk(ABS, 64, id64(a), 0, 0, 0)); }
float symrt_mag32(float a) { return box32(mk(ABS, 32, id32(a), 0, 0, 0)); }
void symrt_note(const char *l, size_t n) { evput("T %.*s\n", (int)n, l); }
/* warm-up: everything is evaluated concretely */
void symrt_concrete(int on) { static int was; if (on) { was = mode_fp; mode_fp = 1; } else mode_fp = was; }
void symrt_sut(int on) { in_sut = on; evput("R %d\n", on); }
int symrt_in_sut(void) { return in_sut; }
int symrt_same_node(double a, double b) { return id64(a) == id64(b); }
int symrt_choose(int arity, const char *l, size_t n) { int d = take(arity); evput("H %d %d %.*s\n", arity, d, (int)n, l); return d; }
double symrt_frac64(double a, double b) { return box64(mk(DIV, 64, id64(a), id64(b), 0, 0)); }
float symrt_frac32(float a, float b) { return box32(mk(DIV, 32, id32(a), id32(b), 0, 0)); }
int symrt_is_symbolic(double a) { return s64(a); }
void symrt_unsupported(const char *l, size_t n) { char b[256]; snprintf(b, sizeof b, "unsupported:%.*s", (int)n, l); die(b); }
void symrt_stop(void) { die("stop"); }
