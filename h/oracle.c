/* Reference side of the monitors: the host C library, in a wider format where one
 * exists (x87 long double for f64, double for f32, __float128 for f128). It is an
 * implementation independent of the Rust crate under test. Comparisons made here only
 * filter; every rejection is re-decided by MPFR on the Rust side. */
#define _GNU_SOURCE
#include <math.h>
#include <stdint.h>
#include <string.h>
#include <stddef.h>
#include <xmmintrin.h>

typedef __float128 q;
typedef long double ld;

typedef struct { const char *n; ld (*l)(ld); double (*d)(double); } u_t;
#define U(f) { #f, f##l, f }
static ld l_tgamma(ld x) { return tgammal(x); }
static ld l_exp10(ld x) { return exp10l(x); }
static const u_t U_[] = {
  U(acos), U(acosh), U(asin), U(asinh), U(atan), U(atanh), U(cbrt), U(cos), U(cosh), U(erf), U(erfc),
  U(exp), { "exp10", l_exp10, exp10 }, U(exp2), U(expm1), U(j0), U(j1), U(lgamma), U(log), U(log10),
  U(log1p), U(log2), U(sin), U(sinh), U(tan), U(tanh), { "tgamma", l_tgamma, tgamma }, U(y0), U(y1),
  U(sqrt), { 0, 0, 0 } };
typedef struct { const char *n; ld (*l)(ld, ld); double (*d)(double, double); } b_t;
static const b_t B_[] = { U(atan2), U(pow), U(hypot), { 0, 0, 0 } };

int orc_u(const char *n) { for (int i = 0; U_[i].n; i++) if (!strcmp(U_[i].n, n)) return i; return -1; }
int orc_b(const char *n) { for (int i = 0; B_[i].n; i++) if (!strcmp(B_[i].n, n)) return i; return -1; }

static inline int64_t ord64(double x) { int64_t i; memcpy(&i, &x, 8); return i < 0 ? INT64_MIN - i : i; }
static inline int32_t ord32(float x) { int32_t i; memcpy(&i, &x, 4); return i < 0 ? INT32_MIN - i : i; }

/* 0 = accepted; 1 = suspicious. *d receives the distance in ulp when both are finite. */
static inline int judge64(ld r, double g, uint64_t bound, uint64_t *d) {
  double rd = (double)r;
  *d = 0;
  if (isnan(rd) || isnan(g)) return !(isnan(rd) && isnan(g));
  int64_t a = ord64(rd), b = ord64(g);
  uint64_t diff = a > b ? (uint64_t)a - (uint64_t)b : (uint64_t)b - (uint64_t)a;
  *d = diff;
  if (diff > bound) return 1;
  if (signbit(g) != signbit(rd)) return 1;
  if (isinf(g) != isinf(rd)) {
    ld ar = fabsl(r), mx = 1.7976931348623157e308L;
    if (isinf(r) || ar > mx * (1 + 0x1p-48L) || ar < mx * (1 - 0x1p-48L)) return 1;
  }
  return 0;
}
static inline int judge32(double r, float g, uint32_t bound, uint64_t *d) {
  float rd = (float)r;
  *d = 0;
  if (isnan(rd) || isnan(g)) return !(isnan(rd) && isnan(g));
  int32_t a = ord32(rd), b = ord32(g);
  uint32_t diff = a > b ? (uint32_t)a - (uint32_t)b : (uint32_t)b - (uint32_t)a;
  *d = diff;
  if (diff > bound) return 1;
  if (signbit(g) != signbit(rd)) return 1;
  if (isinf(g) != isinf(rd)) {
    double ar = fabs(r), mx = 3.4028234663852886e38;
    if (isinf(r) || ar > mx * (1 + 0x1p-20) || ar < mx * (1 - 0x1p-20)) return 1;
  }
  return 0;
}

/* out: suspicious indices; returns their number (at most cap are stored). st[0] = max accepted ulp,
 * st[1] = number with a nonzero distance, st[2] = finite nonzero references. */
#define LOOP(EXPR, TY, JUDGE) \
  size_t k = 0; uint64_t d; \
  for (size_t i = 0; i < n; i++) { \
    TY r = (EXPR); int s = JUDGE(r, g[i], bound, &d); \
    if (s) { if (k < cap) out[k] = (uint32_t)i; k++; } \
    else { if (d > st[0]) st[0] = d; st[1] += d != 0; } \
    st[2] += (r == r && r != 0 && !isinf(r)); \
  } return k;
size_t orc_cmp_u64(int f, const double *x, const double *g, size_t n, uint64_t bound, uint32_t *out, size_t cap, uint64_t *st) {
  ld (*fn)(ld) = U_[f].l; LOOP(fn(x[i]), ld, judge64) }
/* Same with the double-precision host function (only for coarse bounds). */
size_t orc_cmp_u64d(int f, const double *x, const double *g, size_t n, uint64_t bound, uint32_t *out, size_t cap, uint64_t *st) {
  double (*fn)(double) = U_[f].d; LOOP(fn(x[i]), ld, judge64) }
size_t orc_cmp_u32(int f, const float *x, const float *g, size_t n, uint32_t bound, uint32_t *out, size_t cap, uint64_t *st) {
  double (*fn)(double) = U_[f].d; LOOP(fn(x[i]), double, judge32) }
size_t orc_cmp_b64(int f, const double *x, const double *y, const double *g, size_t n, uint64_t bound, uint32_t *out, size_t cap, uint64_t *st) {
  ld (*fn)(ld, ld) = B_[f].l; LOOP(fn(x[i], y[i]), ld, judge64) }
size_t orc_cmp_b32(int f, const float *x, const float *y, const float *g, size_t n, uint32_t bound, uint32_t *out, size_t cap, uint64_t *st) {
  double (*fn)(double, double) = B_[f].d; LOOP(fn(x[i], y[i]), double, judge32) }
/* Exact comparison (cbrt, sqrt through long double): a value whose long double reference lies
 * close to a rounding boundary is suspicious, everything else must be bit-identical. */
size_t orc_cmp_cr64(int f, const double *x, const double *g, size_t n, uint64_t bound, uint32_t *out, size_t cap, uint64_t *st) {
  ld (*fn)(ld) = U_[f].l; size_t k = 0; (void)bound;
  for (size_t i = 0; i < n; i++) {
    ld r = fn(x[i]); double a = (double)r; int s;
    if (isnan(a) || isnan(g[i])) s = !(isnan(a) && isnan(g[i]));
    else {
      uint64_t m; memcpy(&m, &r, 8); m &= 0x7ff;
      s = memcmp(&a, &g[i], 8) != 0 || (m >= 0x3fc && m <= 0x404);
    }
    if (s) { if (k < cap) out[k] = (uint32_t)i; k++; }
    st[2] += (r == r && r != 0 && !isinf(r));
  } return k;
}

/* Exact operations. */
double orc_fma(double x, double y, double z) { return fma(x, y, z); }
float orc_fmaf(float x, float y, float z) { return fmaf(x, y, z); }
void orc_fmaq(const q *x, const q *y, const q *z, q *r) { *r = fmaf128(*x, *y, *z); }

typedef void (*qu_f)(const q *, q *);
#define QU(f) static void q_##f(const q *x, q *r) { *r = f##f128(*x); }
QU(ceil) QU(floor) QU(trunc) QU(rint) QU(round) QU(roundeven) QU(sqrt)
int orc_qu(const char *n, const q *x, q *r) {
  static const struct { const char *n; qu_f f; } t[] = { {"ceil", q_ceil}, {"floor", q_floor}, {"trunc", q_trunc},
    {"rint", q_rint}, {"round", q_round}, {"roundeven", q_roundeven}, {"sqrt", q_sqrt} };
  for (unsigned i = 0; i < sizeof t / sizeof *t; i++) if (!strcmp(t[i].n, n)) { t[i].f(x, r); return 0; }
  return 1;
}
#define DU(f) case __COUNTER__ - BASE_D - 1: return f(x);
enum { BASE_D = __COUNTER__ };
double orc_du(int k, double x) { switch (k) { DU(ceil) DU(floor) DU(trunc) DU(rint) DU(round) DU(roundeven) DU(sqrt) DU(fabs) } return 0; }
enum { BASE_F = __COUNTER__ };
#define FU(f) case __COUNTER__ - BASE_F - 1: return f(x);
float orc_fu(int k, float x) { switch (k) { FU(ceilf) FU(floorf) FU(truncf) FU(rintf) FU(roundf) FU(roundevenf) FU(sqrtf) FU(fabsf) } return 0; }

double orc_fmod(double x, double y) { return fmod(x, y); }
float orc_fmodf(float x, float y) { return fmodf(x, y); }
void orc_fmodq(const q *x, const q *y, q *r) { *r = fmodf128(*x, *y); }
double orc_remainder(double x, double y) { return remainder(x, y); }
float orc_remainderf(float x, float y) { return remainderf(x, y); }
double orc_remquo(double x, double y, int *o) { return remquo(x, y, o); }
float orc_remquof(float x, float y, int *o) { return remquof(x, y, o); }

double orc_scalbn(double x, int n) { return scalbn(x, n); }
float orc_scalbnf(float x, int n) { return scalbnf(x, n); }
void orc_scalbnq(const q *x, int n, q *r) { *r = scalbnf128(*x, n); }
double orc_frexp(double x, int *e) { return frexp(x, e); }
float orc_frexpf(float x, int *e) { return frexpf(x, e); }
double orc_modf(double x, double *i) { return modf(x, i); }
float orc_modff(float x, float *i) { return modff(x, i); }
int orc_ilogb(double x) { return ilogb(x); }
int orc_ilogbf(float x) { return ilogbf(x); }
double orc_nextafter(double x, double y) { return nextafter(x, y); }
float orc_nextafterf(float x, float y) { return nextafterf(x, y); }
double orc_fdim(double x, double y) { return fdim(x, y); }
float orc_fdimf(float x, float y) { return fdimf(x, y); }
void orc_fdimq(const q *x, const q *y, q *r) { *r = fdimf128(*x, *y); }
double orc_jn(int n, double x) { return jn(n, x); }
double orc_yn(int n, double x) { return yn(n, x); }
ld orc_jnl(int n, double x) { return jnl(n, x); }

double orc_lgamma(double x) { int s; return lgamma_r(x, &s); }
unsigned orc_mxcsr(void) { return _mm_getcsr(); }
void orc_set_mxcsr(unsigned v) { _mm_setcsr(v); }
unsigned short orc_x87cw(void) { unsigned short c; __asm__ volatile("fnstcw %0" : "=m"(c)); return c; }
double orc_ud(int f, double x) { return U_[f].d(x); }
/* Bessel reference in long double: the value (rounded) and the observed value minus it. */
void orc_bes(int two, int f, int y, int n, double x, double g, double *r, double *diff) {
  ld v = two ? (y ? ynl(n, x) : jnl(n, x)) : U_[f].l(x);
  *r = (double)v; *diff = (double)((ld)g - v);
}
