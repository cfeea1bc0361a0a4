/* C06: the hash map.
 * MODE 1 get, 2 contains, 3 put, 4 memoize, 5 remove: an arbitrary chain in a bucket array of any size, search loop by invariant.
 * MODE 6 growth, 7 iteration, 8 deletion, 9 collisions: one arbitrary step of the nested loops.
 * MODE 11 native histories against a reference model, 12 short histories unwound, 15 native histories of large maps, 13 creation and key utilities. */
#include "vf.h"
#include <stdio.h>
#include <stdbool.h>
#if MODE < 10
static int vf_oom;                       /* every allocation fails */
static int vf_nofree, g_freed_a, g_freed_b, g_freed_m; static void *g_newb;
static void *vf_malloc(size_t s);
static void *vf_calloc(size_t n, size_t s);
static void vf_free(void *p);
#define malloc vf_malloc
#define calloc vf_calloc
#define free vf_free
#include SRC_hashmap
#undef malloc
#undef calloc
#undef free
typedef Entry E;
static char g_obj[64];
#define KEY ((void *)g_obj)
static E *g_cell, *g_cell0; static E g_z, g_a, g_b, *g_m, g_rest, s_z, s_a, s_b, s_m;
static Hashmap g_map; static int g_has, g_hash, g_h, g_samekey;
static size_t g_idx, g_bc, g_size0; static int g_calls; static void *g_newv;
static void *anyv(void) { uint64_t o = vf_range(0, 63); return o == 0 ? NULL : (void *)(g_obj + o); }
static int vf_hash(void *k) { VF_CHECK(k == KEY, "the hash of the given key is used"); return g_h; }
static bool vf_equals(void *a, void *b) { return a == b || (g_has && ((a == KEY && b == g_m->key) || (b == KEY && a == g_m->key))); }
static int same(E *x, E *y) { return x->key == y->key && x->hash == y->hash && x->value == y->value && x->next == y->next; }
static int g_newcount; static size_t g_n1, g_n2;
static void *vf_malloc(size_t s) { return vf_oom ? NULL : malloc(s); }
static void *vf_calloc(size_t n, size_t s) { g_n1 = n; g_n2 = s; if (vf_oom || !g_newb) return NULL; g_newcount++; return g_newb; }
static E **g_oldb; static int g_freed_old, g_freed_map;
static void vf_free(void *p) {
    if (p == &g_a) { g_freed_a++; return; }
    if (p == (void *)g_m) { g_freed_m++; return; }
    if (p == (void *)g_oldb) { g_freed_old++; return; }
    if (p == &g_map) { g_freed_map++; return; }
    VF_CHECK(p == NULL, "nothing else is freed");
}
static E *pick(E *x) { uint64_t w = vf_range(0, 2); return w == 0 ? x : w == 1 && g_has ? g_m : g_has ? x : NULL; }
static void setup(void) {
    g_h = (int)vf_u64();
    g_has = vf_bool();
    g_bc = (size_t)1 << vf_range(0, 60);
    g_map.bucketCount = g_bc; g_map.hash = vf_hash; g_map.equals = vf_equals;
    g_map.size = vf_range(g_has, (size_t)1 << 60);
    g_size0 = g_map.size;
    g_hash = hashKey(&g_map, KEY);
    g_idx = calculateIndex(g_bc, g_hash);
    g_map.buckets = (E **)((char *)&g_cell - g_idx * sizeof(E *));
    static E m; g_m = &m;
    g_samekey = vf_bool();
    m.key = g_samekey ? KEY : (void *)(g_obj + 1); m.hash = g_hash; m.value = anyv(); m.next = vf_bool() ? &g_rest : NULL;
    /* entries with other keys: any hash value that falls into this bucket, the same one included */
    g_z.key = g_obj + 2; g_a.key = g_obj + 3; g_b.key = g_obj + 4;
    g_z.hash = (int)vf_u64(); g_a.hash = (int)vf_u64(); g_b.hash = (int)vf_u64();
    g_z.value = anyv(); g_a.value = anyv(); g_b.value = anyv();
    g_z.next = pick(&g_a); g_a.next = pick(&g_b); g_b.next = g_has ? g_m : NULL;
    g_cell = pick(&g_z);
    g_cell0 = g_cell; s_z = g_z; s_a = g_a; s_b = g_b; s_m = m;
}
/* a search position: no entry for the key lies before it */
int vf_inv_ent(void *p) { return p == &g_z || p == &g_a || p == &g_b || p == (g_has ? (void *)g_m : NULL); }
void *vf_hv_ent(void) { return vf_hv() & 1 ? (void *)&g_a : g_has ? (void *)g_m : NULL; }
#if MODE < 6
int vf_inv_link(void *p) { return p == &g_cell || p == &g_z.next || p == &g_a.next; }
void *vf_hv_link(void) { return vf_hv() & 1 ? (void *)&g_cell : (void *)&g_z.next; }
#endif
static int unchanged(void) { return g_cell == g_cell0 && same(&g_z, &s_z) && same(&g_a, &s_a) && same(&g_b, &s_b) && same(g_m, &s_m) && g_map.size == g_size0 && g_map.bucketCount == g_bc; }
static void *vf_init(void *k, void *ctx) { g_calls++; VF_CHECK(k == KEY && ctx == (void *)g_obj, "the initial value is asked for this key"); return g_newv; }
#if MODE >= 6
static size_t g_i; static int g_first = 1, g_visits, g_stop; static E *g_head, *g_nexta; static size_t g_nidx;
static int once_inner, once_outer;
#if MODE == 6
static E *g_ncell;
/* growth, one entry: it is moved to the head of its new chain, everything else stays */
static int moved(void) { return g_ncell == &g_a && g_a.next == g_head && g_a.key == s_a.key && g_a.hash == s_a.hash && g_a.value == s_a.value; }
#endif
#endif
#endif

#if MODE < 6
void harness(void) {
    setup();
    void *v = anyv(), *res = g_obj + 63; int wr = vf_bool();
    g_newb = NULL;            /* growth is decided separately: here it is given no memory and must leave the map as it is */
#if MODE == 1
    void *r = hashmapGet(&g_map, KEY);
    VF_CHECK(r == (g_has ? s_m.value : NULL), "lookup yields the value stored for the key, nothing when it is absent");
    VF_CHECK(unchanged(), "lookup changes nothing");
    if (g_has) { VF_REACH("found"); } else { VF_REACH("absent"); }
#elif MODE == 2
    bool r = hashmapContainsKey(&g_map, KEY);
    VF_CHECK(r == g_has, "a key is contained exactly when an entry has it");
    VF_CHECK(unchanged(), "lookup changes nothing");
    if (g_has) { VF_REACH("found"); } else { VF_REACH("absent"); }
#elif MODE == 3 || MODE == 4
    vf_oom = vf_bool();
    g_newv = anyv();
#if MODE == 3
    int r = hashmapPut(&g_map, KEY, v, wr ? &res : NULL);
#else
    int r = hashmapMemoize(&g_map, KEY, vf_init, g_obj, wr ? &res : NULL);
    v = g_newv;
    VF_CHECK(g_calls == (!g_has && !vf_oom), "the initial value is asked for exactly once, for a new key only");
#endif
    if (g_has) {
        VF_CHECK(r == 0, "no memory is needed for a present key");
#if MODE == 3
        VF_CHECK(g_m->value == v && (!wr || res == s_m.value), "the value is replaced and the old one reported");
        s_m.value = v;
#else
        VF_CHECK(!wr || res == s_m.value, "the present value is reported");
#endif
        VF_CHECK(unchanged(), "nothing else changes");
        VF_REACH("present");
    } else if (vf_oom) {
        VF_CHECK(r != 0 && unchanged(), "out of memory is reported and changes nothing");
#if MODE == 3
        VF_CHECK(!wr || res == NULL, "no value is reported as replaced");
#endif
        VF_REACH("oom");
    } else {
        E *nw = g_cell != g_cell0 ? g_cell : g_z.next != s_z.next ? g_z.next : g_a.next;
        VF_CHECK(r == 0 && (g_cell != g_cell0) + (g_z.next != s_z.next) + (g_a.next != s_a.next) == 1, "one entry is added at the end of the chain");
        VF_CHECK((g_cell == g_cell0 || g_cell0 == NULL) && (g_z.next == s_z.next || s_z.next == NULL) && (g_a.next == s_a.next || s_a.next == NULL), "no entry is lost");
        VF_CHECK(nw != NULL, "added");
        if (nw == NULL) return;
        VF_CHECK(nw->key == KEY && nw->value == v && nw->hash == g_hash && nw->next == NULL, "it holds the key and the value");
        VF_CHECK(g_map.size == g_size0 + 1 && g_map.bucketCount == g_bc, "size grows by one");
        VF_CHECK(!wr || res == (MODE == 3 ? NULL : v), "reported value");
        VF_REACH("added");
    }
#elif MODE == 5
    void *r = hashmapRemove(&g_map, KEY);
    if (!g_has) { VF_CHECK(r == NULL && unchanged() && !g_freed_m, "removing an absent key does nothing"); VF_REACH("absent"); }
    else {
        VF_CHECK(r == s_m.value && g_freed_m == 1 && !g_freed_a, "the removed value is returned and its entry freed");
        VF_CHECK((g_cell != g_cell0) + (g_z.next != s_z.next) + (g_a.next != s_a.next) == 1, "one link changes");
        VF_CHECK(g_cell == g_cell0 || (g_cell0 == g_m && g_cell == s_m.next), "the entry is unlinked");
        VF_CHECK(g_z.next == s_z.next || (s_z.next == g_m && g_z.next == s_m.next), "the entry is unlinked");
        VF_CHECK(g_a.next == s_a.next || (s_a.next == g_m && g_a.next == s_m.next), "the entry is unlinked");
        VF_CHECK(g_map.size == g_size0 - 1 && g_map.bucketCount == g_bc, "size shrinks by one");
        VF_REACH("removed");
    }
#endif
}
#elif MODE < 10
/* nested loops over all buckets and chains: the outer loop at an arbitrary bucket g_i (only that cell exists), the inner one at an arbitrary entry g_a */
static int g_at;         /* the chain position is at an entry (not at the end) */
int vf_inv_i(unsigned long i) {
    if (i == 0 && !once_outer) { once_outer = 1; return 1; }
    if (once_outer == 1) { once_outer = 2; return i == g_i && i <= g_bc; }         /* the assumption */
    return i == g_i + 1 && i <= g_bc && (once_inner == 2 ? !g_at : g_cell0 == NULL);                                                              /* the next bucket, in order */
}
unsigned long vf_hv_i(void) { return g_i; }
int vf_inv_ent2(void *p) {
    if (!once_inner) { once_inner = 1; return p == g_cell0; }                   /* the chain of this bucket is entered at its head */
    if (once_inner == 1) { once_inner = 2; return p == &g_a || p == NULL; }     /* the assumption: somewhere in the chain, or at its end */
    /* after one entry: the next one of the chain follows */
#if MODE == 6
    return p == g_nexta && moved();
#elif MODE == 7
    return p == g_nexta && g_visits == 1;
#elif MODE == 8
    return p == g_nexta && g_freed_a == 1;
#else
    return p == g_nexta;
#endif
}
void *vf_hv_ent2(void) { g_at = vf_hv() & 1; return g_at ? (void *)&g_a : NULL; }
static bool vf_cb(void *k, void *v, void *ctx) {
    g_visits++;
    VF_CHECK(k == s_a.key && v == s_a.value && ctx == (void *)g_obj, "the callback gets exactly the entry");
    return !g_stop;
}
void harness(void) {
    g_bc = (size_t)1 << vf_range(0, 60);
    g_i = vf_u64();
    VF_ASSUME(g_i <= g_bc);
    static E m; g_m = &m;
    g_a.key = g_obj + 3; g_a.hash = (int)vf_u64(); g_a.value = anyv(); g_nexta = vf_bool() ? &g_b : NULL; g_a.next = g_nexta; s_a = g_a;
    g_cell = vf_bool() ? &g_a : vf_bool() ? &g_z : NULL; g_cell0 = g_cell;
    g_z.next = &g_a; s_b = g_b; s_z = g_z;
    g_map.buckets = (E **)((char *)&g_cell - g_i * sizeof(E *)); g_oldb = g_map.buckets;
    g_map.bucketCount = g_bc; g_map.hash = vf_hash; g_map.equals = vf_equals;
    g_map.size = g_size0 = vf_u64();
#if MODE == 6
    g_head = vf_bool() ? &g_rest : NULL; g_ncell = g_head;
    g_nidx = calculateIndex(g_bc << 1, g_a.hash);
    vf_oom = vf_bool();
    g_newb = (char *)&g_ncell - g_nidx * sizeof(E *);
    expandIfNecessary(&g_map);
    VF_CHECK(g_map.size == g_size0, "growth does not change the number of entries");
    VF_CHECK(g_cell == g_cell0 && same(&g_b, &s_b) && same(&g_z, &s_z), "growth touches only the links of the entry it moves");
    if (g_map.bucketCount == g_bc) { VF_CHECK(g_map.buckets == g_oldb && !g_freed_old && same(&g_a, &s_a) && g_ncell == g_head, "without growth nothing changes"); if (vf_oom) { VF_REACH("no memory"); } else { VF_REACH("large enough"); } }
    else {
        VF_CHECK(g_map.bucketCount == g_bc << 1 && g_n1 == g_bc << 1 && g_n2 == sizeof(E *) && g_newcount == 1 && g_freed_old == 1 && (void *)g_map.buckets == g_newb, "the map ends up with the new buckets, the old ones are freed");
        VF_CHECK(g_i == g_bc, "growth ends after the last bucket");
        VF_REACH("grown");
    }
#elif MODE == 7
    g_stop = vf_bool();
    hashmapForEach(&g_map, vf_cb, g_obj);
    VF_CHECK((g_stop && g_visits == 1) || (g_i == g_bc && g_visits == 0), "iteration ends after the last bucket or when asked to stop");
    VF_CHECK(g_map.size == g_size0 && g_map.bucketCount == g_bc && g_cell == g_cell0 && same(&g_a, &s_a) && same(&g_b, &s_b), "iteration changes nothing");
    if (g_stop) { VF_REACH("stopped"); } else { VF_REACH("all"); }
#elif MODE == 8
    hashmapFree(&g_map);
    VF_CHECK(g_i == g_bc && g_freed_old == 1 && g_freed_map == 1 && g_freed_a == 0, "everything is freed once, after the last bucket");
    VF_REACH("freed");
#endif
}
#else
#include "metac/backend/hashmap.h"
#ifndef KEYS
#define KEYS (MODE == 15 ? 20000 : 40)
#endif
static char g_key[KEYS * 2]; static int hashes[KEYS]; static int g_mode;
static int idx(void *k) { return (int)((char *)k - g_key) % KEYS; }
/* two pointers per key: equal keys need not be the same object */
static int h(void *k) { return hashes[idx(k)]; }
static bool eq(void *a, void *b) { return idx(a) == idx(b); }
static int has[KEYS], seen[KEYS]; static void *val[KEYS]; static size_t msize; static int g_limit, g_total;
static void *g_init; static int g_inits;
static void *init(void *k, void *c) { g_inits++; VF_CHECK(c == (void *)&g_init, "context is passed"); return g_init; }
static bool cb(void *k, void *v, void *c) {
    int i = idx(k);
    VF_CHECK(c == (void *)seen && has[i] && !seen[i] && val[i] == v, "iteration visits present entries, once each");
    seen[i] = 1; g_total++;
    return g_total != g_limit;
}
#ifdef FAILS
static int fail_in;       /* the allocation that fails, counted down */
static int vf_failing(void) { return fail_in > 0 && --fail_in == 0; }
#ifndef VF_CBMC
extern void *__real_malloc(size_t), *__real_calloc(size_t, size_t);
void *__wrap_malloc(size_t s) { return vf_failing() ? NULL : __real_malloc(s); }
void *__wrap_calloc(size_t n, size_t s) { return vf_failing() ? NULL : __real_calloc(n, s); }
#endif
#else
static int fail_in;
#endif
#ifndef STEPS
#define STEPS 300
#endif
void harness(void) {
#if MODE == 14
    int a = (int)vf_u64(), b = (int)vf_u64();
    if (vf_bool()) b = a;
    VF_CHECK(hashmapIntEquals(&a, &b) == (a == b), "integer keys are equal when the numbers are");
    if (a == b) VF_CHECK(hashmapIntHash(&a) == hashmapIntHash(&b), "equal integers have equal hashes");
    unsigned char x[6], y[6];
    size_t n = vf_range(0, 6);
    vf_bytes(x, 6); memcpy(y, x, 6);
    if (n < 6) y[n] = (unsigned char)vf_u64();        /* a byte outside the key */
    VF_CHECK(hashmapHash(x, n) == hashmapHash(y, n), "the hash of a block depends on the block only");
    VF_REACH("end");
#elif MODE == 13
#ifdef CAP
    size_t cap = CAP;
#else
    size_t cap = vf_range(0, 200);
#endif
    Hashmap *m = hashmapCreate(cap, h, eq);
    VF_ASSUME(m != NULL);
    VF_CHECK(hashmapSize(m) == 0 && hashmapGet(m, g_key) == NULL && !hashmapContainsKey(m, g_key) && hashmapRemove(m, g_key) == NULL, "a new map is empty");
    VF_CHECK(hashmapCurrentCapacity(m) >= cap, "a new map holds the expected number of entries without growing");
    VF_CHECK(hashmapCountCollisions(m) == 0, "no collisions in an empty map");
    hashmapFree(m);
    VF_REACH("end");
#elif MODE == 15
    /* one number decides the whole history, so that a failing one is a short replay file */
    uint64_t g = vf_u64() | 1; int n = (int)vf_range(1, KEYS), kind = (int)vf_range(0, 3), shift = (int)vf_range(0, 24);
#define NX (g ^= g << 13, g ^= g >> 7, g ^= g << 17)
    for (int i = 0; i < n; ++i) { NX; hashes[i] = kind == 0 ? i : kind == 1 ? (int)((unsigned)i << shift) : kind == 2 ? (int)(g >> 20) & 0xffff : (int)(g >> 24); has[i] = 0; val[i] = NULL; }
    msize = 0;
    Hashmap *m = hashmapCreate(vf_bool() ? 0 : (size_t)vf_range(0, 2 * KEYS), h, eq);
    VF_ASSUME(m != NULL);
    for (int phase = 0; phase < 4; ++phase) {
        for (int j = 0; j < n; ++j) {
            NX;
            int i = phase == 0 ? j : (int)((g >> 16) % n);
            void *k = g_key + i + (g & 256 ? KEYS : 0), *v = g_key + (g >> 40) % KEYS, *res = NULL;
            if (phase != 1) {
                VF_CHECK(hashmapPut(m, k, v, &res) == 0 && res == (has[i] ? val[i] : NULL), "put stores and reports the value it replaces");
                msize += !has[i]; has[i] = 1; val[i] = v;
            } else { VF_CHECK(hashmapRemove(m, k) == (has[i] ? val[i] : NULL), "remove returns the removed value"); msize -= has[i]; has[i] = 0; }
            VF_CHECK(hashmapSize(m) == msize, "size is the number of keys present");
        }
        for (int j = 0; j < n; ++j) {
            VF_CHECK(hashmapGet(m, g_key + j) == (has[j] ? val[j] : NULL), "lookup returns the value last stored");
            VF_CHECK(hashmapContainsKey(m, g_key + j + KEYS) == has[j], "presence");
            seen[j] = 0;
        }
        g_total = 0; g_limit = 0; hashmapForEach(m, cb, seen);
        VF_CHECK((size_t)g_total == msize, "iteration visits every entry");
    }
    VF_REACH("end");
    hashmapFree(m);
#else
    int kind = (int)vf_range(0, 4), mask = kind == 0 ? 0 : kind == 1 ? 1 : kind == 2 ? 7 : -1;
    for (int i = 0; i < KEYS; ++i) { hashes[i] = (int)vf_u64() & mask; has[i] = 0; val[i] = NULL; }
    msize = 0;
    fail_in = 0;
    size_t cap = vf_range(0, 40);
    Hashmap *m = hashmapCreate(cap, h, eq);
    VF_ASSUME(m != NULL);
    VF_CHECK(hashmapCurrentCapacity(m) >= cap, "a new map holds the expected number of entries without growing");
    int steps = MODE == 11 ? (int)vf_range(0, STEPS) : STEPS;
    for (int s = 0; s < steps; ++s) {
        int op = (int)vf_range(0, MODE == 11 ? 7 : 3), i = (int)vf_range(0, KEYS - 1);
        void *k = g_key + i + (vf_bool() ? KEYS : 0), *v = vf_range(0, 4) ? (void *)(g_key + vf_range(0, KEYS - 1)) : NULL, *res = &msize;
        size_t before = msize;
        int failing = 0;
#ifdef FAILS
        if (vf_range(0, 9) == 0) { fail_in = (int)vf_range(1, 2); failing = fail_in; }
#endif
        switch (op) {
        case 0: case 4: case 5: {
            int r = hashmapPut(m, k, v, &res);
            if (has[i]) { VF_CHECK(r == 0 && res == val[i], "put reports the value it replaces"); val[i] = v; }
            else if (failing == 1) VF_CHECK(r != 0 && res == NULL, "out of memory is reported");
            else { VF_CHECK(r == 0 && res == NULL, "put adds a new key"); has[i] = 1; val[i] = v; msize++; }
            break; }
        case 1: {
            g_init = v; g_inits = 0;
            int r = hashmapMemoize(m, k, init, &g_init, &res);
            if (has[i]) VF_CHECK(r == 0 && res == val[i] && g_inits == 0, "memoize returns the present value");
            else if (failing == 1) VF_CHECK(r != 0 && g_inits == 0, "out of memory is reported");
            else { VF_CHECK(r == 0 && res == v && g_inits == 1, "memoize adds a new key"); has[i] = 1; val[i] = v; msize++; }
            break; }
        case 2: case 6: { void *r = hashmapRemove(m, k); VF_CHECK(r == (has[i] ? val[i] : NULL), "remove returns the removed value"); if (has[i]) { has[i] = 0; msize--; } break; }
#if MODE == 11
        case 7: { for (int j = 0; j < KEYS; ++j) seen[j] = 0; g_total = 0; g_limit = (int)vf_range(0, KEYS); hashmapForEach(m, cb, seen);
            VF_CHECK(g_total == (g_limit > 0 && (size_t)g_limit < msize ? (size_t)g_limit : msize), "iteration visits every entry"); break; }
#endif
        default: break;
        }
        fail_in = 0;
        VF_CHECK(hashmapSize(m) == msize, "size is the number of keys present");
        for (int j = 0; j < KEYS; ++j) if (MODE == 12 || j == i || s % 8 == 0 || s == steps - 1) {
            VF_CHECK(hashmapGet(m, g_key + j) == (has[j] ? val[j] : NULL), "lookup returns the value last stored");
            VF_CHECK(hashmapContainsKey(m, g_key + j + KEYS) == has[j], "presence");
        }
    }
    if (mask == 0) VF_CHECK(hashmapCountCollisions(m) == (msize ? msize - 1 : 0), "colliding entries are counted");
    VF_REACH("end");
    hashmapFree(m);
#endif
}
#endif
