/* Edge callbacks of the instrumented libm builds: a logical clock per thread (edges executed
 * since the call began), a limit on it, and the set of edges ever executed. */
#include <stdint.h>
#include <unistd.h>
static __thread uint64_t steps, limit = ~0ull;
static __thread uint32_t *slot; /* slot[0] is set to 2 when the limit is hit */
#define MAXE (1u << 20)
static unsigned char hit[MAXE];
static uint32_t total;

void __sanitizer_cov_trace_pc_guard_init(uint32_t *a, uint32_t *b) {
  if (a == b || *a) return;
  for (; a < b; a++) *a = ++total;
}
void __sanitizer_cov_trace_pc_guard(uint32_t *g) {
  uint32_t k = *g;
  if (k < MAXE && !hit[k]) hit[k] = 1;
  if (++steps > limit) { if (slot) slot[0] = 2; _exit(77); }
}
void cov_begin(uint64_t lim, uint32_t *s) { steps = 0; limit = lim; slot = s; }
uint64_t cov_end(void) { limit = ~0ull; return steps; }
uint32_t cov_total(void) { return total; }
uint32_t cov_hit(void) { uint32_t n = 0; for (uint32_t i = 0; i < MAXE; i++) n += hit[i]; return n; }
