/* What the coverage instrumentation of the code under test calls. */
#include <stdint.h>
#include <stddef.h>

#define MAP (1 << 16)
static uint8_t *from, *to;
/* comparisons: how close the two sides came, per place */
uint8_t hv_cmp[MAP];

void __sanitizer_cov_8bit_counters_init(uint8_t *start, uint8_t *stop) { from = start; to = stop; }

uint8_t *hv_counters(size_t *n) { *n = (size_t)(to - from); return from; }

static inline void cmp(uintptr_t pc, uint64_t a, uint64_t b) {
    uint64_t d = a > b ? a - b : b - a;
    unsigned close = d == 0 ? 65 : (unsigned)__builtin_clzll(d);
    if (close < 40) return;
    size_t i = (size_t)((pc * 0x9e3779b97f4a7c15ull) >> 48);
    if (hv_cmp[i] < close) hv_cmp[i] = (uint8_t)close;
}
#define PC ((uintptr_t)__builtin_return_address(0) - (uintptr_t)from)
void __sanitizer_cov_trace_cmp1(uint8_t a, uint8_t b) { (void)a; (void)b; }
void __sanitizer_cov_trace_cmp2(uint16_t a, uint16_t b) { cmp(PC, a, b); }
void __sanitizer_cov_trace_cmp4(uint32_t a, uint32_t b) { cmp(PC, a, b); }
void __sanitizer_cov_trace_cmp8(uint64_t a, uint64_t b) { cmp(PC, a, b); }
void __sanitizer_cov_trace_const_cmp1(uint8_t a, uint8_t b) { (void)a; (void)b; }
void __sanitizer_cov_trace_const_cmp2(uint16_t a, uint16_t b) { cmp(PC, a, b); }
void __sanitizer_cov_trace_const_cmp4(uint32_t a, uint32_t b) { cmp(PC, a, b); }
void __sanitizer_cov_trace_const_cmp8(uint64_t a, uint64_t b) { cmp(PC, a, b); }
void __sanitizer_cov_trace_switch(uint64_t v, uint64_t *cases) { (void)v; (void)cases; }
