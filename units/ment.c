/* C08 C09: entries of memory maps, deletion, and which of the blocks of a map are allocations (value_deep.c).
 * MODE 1 new entry, 2 deletion of a tree of entries (DEPTH as drawn below), 3 n-th parent, 4 delete of a value: one block of any map, 5 N blocks of one map */
#define NT 1
#define NOITER 0
#include "ent.h"
#include "metac/backend/value.h"
#include "metac/backend/iterator.h"
#include "metac/backend/hashmap.h"
#include "metac/reflect/value.h"
#include <errno.h>
#include <stdlib.h>
#include "walk_ghost.h"
typedef struct metac_memory_entry E;
struct metac_value { int live, gone; };
static struct metac_value v0, v1, v2, v3, v4;
static void w_request(struct task *t, void *in) {}
static void w_result(struct task *t, int i) {}
#if MODE == 1
void metac_value_delete(metac_value_t *p) { ++p->gone; }
void harness(void) {
    metac_num_t n = (metac_num_t)vf_range(0, 6) - 1; metac_size_t s = vf_u64();
    metac_value_t *v = vf_bool() ? &v0 : NULL;
    E *e = metac_new_memory_entry(v, s, n);
    if (e == NULL) return;
    VF_CHECK(e->p_val == v && e->byte_size == s && e->p_parent == NULL && e->private_data == NULL && e->loop_level == 0 && e->offset_from_allocate_base == 0, "a new entry");
    VF_CHECK(e->children_count == (n > 0 ? n : 0) && (n > 0) == (e->pp_children != NULL), "with room for its parts");
    for (int i = 0; i < 5; ++i) if (i < n) VF_CHECK(e->pp_children[i] == NULL, "none of them there yet");
    VF_REACH("made");
    v0.gone = 0;
    metac_memory_entry_delete(e);
    VF_CHECK(v0.gone == (v != NULL), "released with its value");
    metac_memory_entry_delete(NULL);
}
#endif
#if MODE == 2
void metac_value_delete(metac_value_t *p) { VF_CHECK(p->live == 1, "a value is released once"); p->live = 0; ++p->gone; }
static E *mk(struct metac_value *v, int n, int has) {
    if (!has) return NULL;
    E *e = calloc(1, sizeof(E)); VF_ASSUME(e);
    if (vf_bool()) { v->live = 1; e->p_val = v; }
    if (n) { e->pp_children = calloc(n, sizeof(E *)); VF_ASSUME(e->pp_children); e->children_count = n; }
    return e;
}
static void link_(E *p, int i, E *c) { p->pp_children[i] = c; if (c) c->p_parent = p; }
void harness(void) {
    v0.live = v1.live = v2.live = v3.live = v4.live = 0; v0.gone = v1.gone = v2.gone = v3.gone = v4.gone = 0;
    E *top = mk(&v0, N, 1), *b = NULL;
#if N > 0
    E *a = mk(&v1, M, HAS & 1); link_(top, 0, a);
#if M > 0
    if (a) { E *c = mk(&v3, 0, vf_bool()); link_(a, 0, c); }
#endif
#if M > 1
    if (a) { E *d = mk(&v4, 0, vf_bool()); link_(a, 1, d); }
#endif
#endif
#if N > 1
    b = mk(&v2, 0, (HAS >> 1) & 1); link_(top, 1, b);
#endif
    /* a part of something larger: what it is part of stays */
    static E above; static E *pa[1]; memset(&above, 0, sizeof(E));
    if (vf_bool()) { pa[0] = top; above.pp_children = pa; above.children_count = 1; top->p_parent = &above; }
    int h0 = v0.live, h1 = v1.live, h2 = v2.live, h3 = v3.live, h4 = v4.live;
    metac_memory_entry_delete(top);
    VF_CHECK(v0.gone == h0 && v1.gone == h1 && v2.gone == h2 && v3.gone == h3 && v4.gone == h4, "every value is released");
    VF_CHECK(above.p_val == NULL && above.children_count == (above.pp_children ? 1 : 0), "what it was part of stays");
    VF_REACH("deleted");
}
#endif
#if MODE == 3
void metac_value_delete(metac_value_t *p) {}
void harness(void) {
    static E c[6]; memset(c, 0, sizeof(c));
    int len = (int)vf_range(0, 5), n = (int)vf_range(0, 10) - 2, from = (int)vf_range(0, 5);
    VF_ASSUME(from <= len);
    for (int i = 0; i < 5; ++i) c[i].p_parent = i < len ? &c[i + 1] : NULL;
    E *r = metac_memory_entry_parent(&c[from], n);
    if (n < 0 || from + n > len) { VF_CHECK(r == NULL, "no such level"); VF_REACH("none"); }
    else { VF_CHECK(r == &c[from + n], "as many levels up"); VF_REACH("found"); }
}
#endif
#if MODE == 4
void metac_value_delete(metac_value_t *p) {}
static struct metac_memory_map g_map; static char map_tok; static int g_nmap, g_ndel, g_nomap, foreach, walking; static E g_e; static char *g_key; static metac_value_t *g_v; static char tags; static int gm[3];
struct metac_memory_map *metac_new_value_memory_map_ex(metac_value_t *v, metac_value_memory_map_mode_t *m, metac_tag_map_t *t) {
    ++g_nmap; VF_CHECK(v == g_v && (void *)t == (void *)&tags && m && m->memory_block_mode == METAC_MMODE_dag && (int)m->unknown_ptr_mode == gm[0] && (int)m->union_mode == gm[1] && (int)m->flex_array_mode == gm[2], "a map of the value in the given mode, sharing kept");
    return g_nomap ? NULL : &g_map;
}
void metac_value_memory_map_delete(struct metac_memory_map *m) { VF_CHECK(m == &g_map && !walking, "the map"); ++g_ndel; }
static int n_free; static void *p_free;
static void u_free(void *p) { VF_CHECK(g_ndel == 0 && n_free == 0, "blocks are released once"); ++n_free; p_free = p; }
void hashmapForEach(Hashmap *m, bool (*cb)(void *, void *, void *), void *cx) {
    VF_CHECK((void *)m == (void *)&map_tok && g_ndel == 0 && !foreach, "the blocks of the map, once"); ++foreach; walking = 1;
    VF_CHECK(cb(g_key, &g_e, cx), "and all of them");          /* any one of the blocks */
    walking = 0;
}
void harness(void) {
    static char blk[8]; g_key = blk; g_v = &v0; foreach = walking = g_nmap = g_ndel = n_free = 0; p_free = NULL; g_nomap = vf_bool();
    memset(&g_e, 0, sizeof(E)); g_e.offset_from_allocate_base = vf_u64(); g_e.byte_size = vf_u64();
    g_map.p_addr_ptr_val_to_memory_entry = (Hashmap *)&map_tok;
    metac_value_memory_map_non_handled_mode_t mode; int nomode = vf_bool();
    gm[0] = nomode ? METAC_UPTR_fail : (int)vf_range(0, 3); gm[1] = nomode ? METAC_UNION_fail : (int)vf_range(0, 2); gm[2] = nomode ? METAC_FLXARR_fail : (int)vf_range(0, 1);
    mode.unknown_ptr_mode = gm[0]; mode.union_mode = gm[1]; mode.flex_array_mode = gm[2];
    metac_flag_t r = metac_value_free_ex(g_v, nomode ? NULL : &mode, u_free, (metac_tag_map_t *)&tags);
    VF_CHECK((r != 0) == !g_nomap && g_ndel == !g_nomap, "succeeds if there is a map, which is not kept");
    if (g_nomap) { VF_CHECK(n_free == 0, "nothing is released without one"); VF_REACH("refused"); return; }
    VF_CHECK(foreach == 1, "all blocks are looked at");
    if (g_e.offset_from_allocate_base == 0) { VF_CHECK(n_free == 1 && p_free == g_key, "an allocated block is released"); VF_REACH("released"); }
    else { VF_CHECK(n_free == 0, "places inside a block are not"); VF_REACH("inside"); }
}
#endif
#if MODE == 5
/* N blocks of one map: addresses and sizes as drawn; a walk of one int task leaves them in the map */
static E top, b0, b1, b2, b3; static char arena[32]; static int at[4]; static metac_size_t size0[4];
#define b(i) (*((i) == 0 ? &b0 : (i) == 1 ? &b1 : (i) == 2 ? &b2 : &b3))
static char map_tok; static int m_live, n_del; static metac_entry_t e_in;
static struct metac_value vroot;
void metac_value_delete(metac_value_t *p) {}
metac_value_t *metac_new_value_from_value(metac_value_t *p) { return &vroot; }
metac_kind_t metac_value_kind(metac_value_t *p) { return METAC_KND_base_type; }
metac_kind_t metac_value_final_kind(metac_value_t *p, metac_quals_t *q) { return METAC_KND_base_type; }
metac_entry_t *metac_value_entry(metac_value_t *p) { return &e_in; }
void *metac_value_addr(metac_value_t *p) { return arena; }
metac_flag_t metac_value_has_parameter_load(metac_value_t *p) { return 0; }
int metac_entry_byte_size(metac_entry_t *e, metac_size_t *s) { *s = 4; return 0; }
Hashmap *hashmapCreate(size_t n, int (*h)(void *), bool (*eq)(void *, void *)) { m_live = 1; return (Hashmap *)&map_tok; }
void hashmapFree(Hashmap *m) { m_live = 0; }
size_t hashmapSize(Hashmap *m) { return N; }
void *hashmapGet(Hashmap *m, void *k) { for (int i = 0; i < N; ++i) if (k == (void *)(arena + at[i])) return &b(i); return NULL; }
void hashmapForEach(Hashmap *m, bool (*cb)(void *, void *, void *), void *cx) { for (int i = 0; i < N; ++i) if (!cb(arena + at[i], &b(i), cx)) return; }
/* ISO C: sorted by the given order */
void qsort(void *base, size_t n, size_t s, int (*cmp)(const void *, const void *)) {
    void **p = base; VF_CHECK(n == N && s == sizeof(void *), "all addresses are sorted");
    for (int i = 1; i < N; ++i) for (int j = i; j > 0; --j) if (cmp(&p[j - 1], &p[j]) > 0) { void *t = p[j]; p[j] = p[j - 1]; p[j - 1] = t; }
}
/* the block place i lies in begins at: the largest start not covered by anything that begins before it */
void harness(void) {
    w_init();
    for (int i = 0; i < N; ++i) { at[i] = (int)vf_range(0, 15); size0[i] = vf_range(0, 8); memset(&b(i), 0, sizeof(E)); b(i).byte_size = size0[i]; }
    for (int i = 0; i < N; ++i) for (int j = 0; j < i; ++j) VF_ASSUME(at[i] != at[j]);
    T[0].in = &vroot; w_rootfail = 0; w_rootout = &top; w_none = 0; w_failat = 0;
    metac_value_memory_map_mode_t mode = {.memory_block_mode = METAC_MMODE_dag};
    struct metac_memory_map *m = metac_new_value_memory_map_ex(&v0, &mode, NULL);
    VF_CHECK(m && m->p_top_entry == &top && m_live, "a map");
    for (int i = 0; i < N; ++i) {
        /* base: walk down to the start of the chain of overlapping blocks */
        int base = at[i], end = 0;
        for (int r = 0; r < N; ++r) for (int j = 0; j < N; ++j) if (at[j] < base && at[j] + (int)size0[j] > base) base = at[j];
        VF_CHECK((int)b(i).offset_from_allocate_base == at[i] - base, "a place inside a block is known by its distance from the beginning, a block by 0");
        if (base == at[i] && size0[i] > 0) {
            end = at[i] + (int)size0[i];
            for (int r = 0; r < N; ++r) for (int j = 0; j < N; ++j) if (at[j] > at[i] && at[j] < end && at[j] + (int)size0[j] > end) end = at[j] + (int)size0[j];
            VF_CHECK((int)b(i).byte_size == end - at[i], "an allocation covers everything that overlaps");
        } else VF_CHECK(b(i).byte_size == size0[i], "other sizes stay");
    }
    VF_REACH("identified");
}
#endif
