/* Edge and comparison callbacks of the instrumented builds, per thread: the edges of the current
 * call with their counts, and the operands of its integer comparisons. */
#include <stdint.h>
#define MAXE (1u << 17)
#define MAXC 4096
struct cmp { uint64_t pc, a, b; };
static __thread uint16_t cnt[MAXE];
static __thread uint32_t touched[MAXE], nt;
static __thread struct cmp cmps[MAXC];
static __thread uint32_t nc;
static __thread uint64_t steps, limit = ~0ull;
static uint32_t total;
void cov_over(void);

void __sanitizer_cov_trace_pc_guard_init(uint32_t *a, uint32_t *b) {
  if (a == b || *a) return;
  for (; a < b; a++) *a = ++total;
}
void __sanitizer_cov_trace_pc_guard(uint32_t *g) {
  uint32_t k = *g & (MAXE - 1);
  if (!cnt[k]) touched[nt++] = k;
  if (cnt[k] != 0xffff) cnt[k]++;
  if (++steps > limit) { limit = ~0ull; cov_over(); }
}
static inline void cmp(uint64_t pc, uint64_t a, uint64_t b) {
  if (nc < MAXC) { cmps[nc].pc = pc; cmps[nc].a = a; cmps[nc].b = b; nc++; }
}
#define C(n, t) void n(t a, t b) { cmp((uint64_t)__builtin_return_address(0), a, b); }
C(__sanitizer_cov_trace_cmp1, uint8_t) C(__sanitizer_cov_trace_cmp2, uint16_t)
C(__sanitizer_cov_trace_cmp4, uint32_t) C(__sanitizer_cov_trace_cmp8, uint64_t)
C(__sanitizer_cov_trace_const_cmp1, uint8_t) C(__sanitizer_cov_trace_const_cmp2, uint16_t)
C(__sanitizer_cov_trace_const_cmp4, uint32_t) C(__sanitizer_cov_trace_const_cmp8, uint64_t)
void __sanitizer_cov_trace_switch(uint64_t v, uint64_t *c) {
  uint64_t pc = (uint64_t)__builtin_return_address(0);
  for (uint64_t i = 0; i < c[0] && i < 32; i++) cmp(pc + i, v, c[2 + i]);
}
void cov_begin(uint64_t lim) {
  for (uint32_t i = 0; i < nt; i++) cnt[touched[i]] = 0;
  nt = nc = 0; steps = 0; limit = lim;
}
uint64_t cov_end(uint32_t **t, uint32_t *n, uint16_t **c, struct cmp **m, uint32_t *k) {
  limit = ~0ull; *t = touched; *n = nt; *c = cnt; *m = cmps; *k = nc;
  return steps;
}
uint32_t cov_total(void) { return total; }
