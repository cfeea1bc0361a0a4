/* native only: every allocation of the code under test goes through these (-Wl,--wrap=...): live blocks are tracked,
 * the n-th allocation can be made to fail */
#ifndef VF_MEMW_H_
#define VF_MEMW_H_
#include <stdlib.h>
#include <string.h>
#define MW_MAX 65536
static struct { void *p; size_t n; } mw_tab[MW_MAX];
static long mw_live, mw_fail_at, mw_count, mw_on, mw_failed;
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t); void __real_free(void *);
static size_t mw_h(void *p) { return ((size_t)p >> 4) * 0x9E3779B97F4A7C15ull >> 48; }
static void mw_add(void *p, size_t n) {
    if (!p || !mw_on) return;
    size_t i = mw_h(p);
    while (mw_tab[i].p && mw_tab[i].p != (void *)1) i = (i + 1) % MW_MAX;
    mw_tab[i].p = p; mw_tab[i].n = n; ++mw_live;
}
static long mw_find(void *p) {
    size_t i = mw_h(p), c = 0;
    while (mw_tab[i].p && c++ < MW_MAX) { if (mw_tab[i].p == p) return (long)i; i = (i + 1) % MW_MAX; }
    return -1;
}
static void mw_del(void *p) { long i = p && mw_live ? mw_find(p) : -1; if (i >= 0) { mw_tab[i].p = (void *)1; --mw_live; } }
static int mw_is_live(void *p) { return mw_find(p) >= 0; }
static size_t mw_size(void *p) { long i = mw_find(p); return i < 0 ? 0 : mw_tab[i].n; }
static int mw_fails(void) { if (mw_on && mw_fail_at && ++mw_count == mw_fail_at) { mw_failed = 1; return 1; } return 0; }
void *__wrap_malloc(size_t n) { if (mw_fails()) return NULL; void *p = __real_malloc(n); mw_add(p, n); return p; }
void *__wrap_calloc(size_t a, size_t b) { if (mw_fails()) return NULL; void *p = __real_calloc(a, b); mw_add(p, a * b); return p; }
void *__wrap_realloc(void *q, size_t n) { if (mw_fails()) return NULL; mw_del(q); void *p = __real_realloc(q, n); mw_add(p, n); return p; }
void __wrap_free(void *p) { mw_del(p); __real_free(p); }
char *__wrap_strdup(const char *s) { size_t n = strlen(s) + 1; char *p = __wrap_malloc(n); return p ? memcpy(p, s, n) : NULL; }
char *__wrap_strndup(const char *s, size_t m) { size_t n = strnlen(s, m); char *p = __wrap_malloc(n + 1); if (p) { memcpy(p, s, n); p[n] = 0; } return p; }
/* start a scenario: no live blocks, the k-th allocation fails (0: none) */
static void mw_begin(long k) { memset(mw_tab, 0, sizeof(mw_tab)); mw_live = 0; mw_count = 0; mw_failed = 0; mw_fail_at = k; mw_on = 1; }
static void mw_end(void) { mw_on = 0; mw_fail_at = 0; }
#endif
