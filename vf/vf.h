/* Dual-mode harness support.
 *
 * VF_CBMC defined:   inputs are nondeterministic, VF_ASSUME/VF_CHECK are
 *                    __CPROVER_assume/__CPROVER_assert, contract clauses are
 *                    CBMC code contracts (goto-instrument --dfcc).
 * otherwise (native replay): the same harness compiled with gcc + ASan/UBSan,
 *                    inputs are read back from the recorded counterexample.
 */
#ifndef VF_H_
#define VF_H_
#include <stdint.h>
#include <stddef.h>
#include <string.h>
#include <stdlib.h>
#include <errno.h>

#ifdef VF_CBMC
uint64_t nondet_vf_u64(void);
uint64_t nondet_vf_hv(void);
extern uint64_t vf_in;                 /* every harness input is logged here, in order */
static inline uint64_t vf_u64(void) { uint64_t v = nondet_vf_u64(); vf_in = v; return v; }
/* unlogged nondeterminism: havoc at loop cut points, ghost choices that replay recomputes */
static inline uint64_t vf_hv(void) { return nondet_vf_hv(); }
#define VF_ASSUME(c)      __CPROVER_assume(c)
#define VF_CHECK(c, d)    __CPROVER_assert((c), "VF:" d)
#define VF_REACH(d)       __CPROVER_assert(0, "VFREACH:" d)
#define VF_REQUIRES(c)    __CPROVER_requires(c)
#define VF_ENSURES(c)     __CPROVER_ensures(c)
#define VF_ASSIGNS(...)   __CPROVER_assigns(__VA_ARGS__)
#define VF_FREES(...)     __CPROVER_frees(__VA_ARGS__)
#define VF_RET            __CPROVER_return_value
#define VF_OLD(x)         __CPROVER_old(x)
#define VF_MAIN
#else
#include <stdio.h>
extern uint64_t vf_u64(void);
extern void vf_native_assume(int ok, const char *what);
extern void vf_native_check(int ok, const char *what, const char *file, int line);
#define VF_ASSUME(c)      vf_native_assume(!!(c), #c)
#define VF_CHECK(c, d)    vf_native_check(!!(c), d, __FILE__, __LINE__)
#define VF_REACH(d)       ((void)0)
#define VF_REQUIRES(c)
#define VF_ENSURES(c)
#define VF_ASSIGNS(...)
#define VF_FREES(...)
#endif

#ifdef VF_CBMC
static inline uint64_t vf_range(uint64_t lo, uint64_t hi) {
    uint64_t v = vf_u64();
    VF_ASSUME(v >= lo && v <= hi);
    return v;
}
static inline int64_t vf_srange(int64_t lo, int64_t hi) {
    int64_t v = (int64_t)vf_u64();
    VF_ASSUME(v >= lo && v <= hi);
    return v;
}
#else
extern uint64_t vf_range(uint64_t lo, uint64_t hi);
extern int64_t vf_srange(int64_t lo, int64_t hi);
#endif
static inline int vf_bool(void) { return (int)vf_range(0, 1); }
static inline void vf_bytes(void *p, size_t n) {   /* n must be a constant */
    uint8_t *b = (uint8_t *)p;
    size_t i = 0;
    for (; i + 8 <= n; i += 8) { uint64_t v = vf_u64(); memcpy(b + i, &v, 8); }
    if (i < n) { uint64_t v = vf_u64(); for (size_t k = 0; i + k < n; ++k) b[i + k] = (uint8_t)(v >> (8 * k)); }
}
#endif
