/* C08 C09 C10: the life of one task of the deep walks (value_deep.c), for any task: the iterator is replaced by the contract C07 checks, the
 * memory map of a value by its result.   MODE 1 copy (K: what the value is, TREE: tree mode), 3 comparison (KA, KB: what the compared values are) */
#ifndef NOITER
#define NOITER 0
#endif
#ifndef NT
#define NT 2
#endif
#include "ent.h"
#include "metac/backend/value.h"
#include "metac/backend/iterator.h"
#include "metac/backend/hashmap.h"
#include "metac/reflect/value.h"
#include <errno.h>
#include "walk_ghost.h"
typedef struct metac_memory_entry E;
#define K_int 0
#define K_enum 1
#define K_ptr 2
#define K_struct 3
#define K_union 4
#define K_array 5
#define K_call 6
static metac_entry_t t_int, t_enum, t_ptr, t_struct, t_union, t_array, t_m[2], t_long, t_fn;
static void init(void) {
    w_init();
    metac_entry_t i = VF_BASE("int", METAC_ENC_signed, 4), l = VF_BASE("long int", METAC_ENC_signed, 8), p = VF_PTR(&t_int), a = VF_ARR(&t_int, 2), m0 = VF_MEMBER("a", &t_int, 0), m1 = VF_MEMBER("b", &t_int, 4);
    metac_entry_t e = {.kind = METAC_KND_enumeration_type, .name = "e", .enumeration_type_info = {.byte_size = 4}};
    metac_entry_t s = VF_STRUCT(METAC_KND_struct_type, "s", 8, 2, t_m), u = VF_STRUCT(METAC_KND_union_type, "u", 8, 2, t_m);
    metac_entry_t fn = VF_FUNC(METAC_KND_subprogram, "f", NULL, 0, 0);
    t_int = i; t_long = l; t_ptr = p; t_array = a; t_m[0] = m0; t_m[1] = m1; t_enum = e; t_struct = s; t_fn = fn; t_union = u;
}
static metac_entry_t *type(int k) { return k == K_int ? &t_int : k == K_enum ? &t_enum : k == K_ptr ? &t_ptr : k == K_struct ? &t_struct : k == K_union ? &t_union : k == K_call ? &t_fn : &t_array; }
/* resolution by the contract C03 checks: the entries used here are final or members and parameters of final type */
metac_entry_t *metac_entry_final_entry(metac_entry_t *e, metac_quals_t *q) { if (q) memset(q, 0, sizeof(*q)); return e == &t_m[0] || e == &t_m[1] ? &t_int : e; }
#if MODE == 3
static struct metac_memory_map g_map[2]; static E g_top[2]; static int g_nmap, g_ndel, g_mapfail; static metac_value_memory_map_mode_t g_mode; static metac_value_t *g_v[2]; static metac_tag_map_t *g_tags;
struct metac_memory_map *metac_new_value_memory_map_ex(metac_value_t *v, metac_value_memory_map_mode_t *m, metac_tag_map_t *t) {
    int i = g_nmap++;
    VF_CHECK(i < 2 && v == g_v[i] && t == g_tags, "a map of each value");
    VF_CHECK(m && m->memory_block_mode == g_mode.memory_block_mode && m->unknown_ptr_mode == g_mode.unknown_ptr_mode && m->union_mode == g_mode.union_mode && m->flex_array_mode == g_mode.flex_array_mode, "in the given mode");
    if (g_mapfail == i + 1) return NULL;
    return &g_map[i];
}
void metac_value_memory_map_delete(struct metac_memory_map *m) { VF_CHECK(m == &g_map[0] || m == &g_map[1], "one of the maps"); g_ndel += m == &g_map[0] ? 1 : 16; }
/* scalars by the contracts C01, C04, C05 check */
static int is_k(metac_value_t *v, metac_entry_t *t) { return metac_value_entry(v) == t; }
int metac_value_equal_base_type(metac_value_t *a, metac_value_t *b) { return is_k(a, &t_int) && is_k(b, &t_int) ? *(int *)metac_value_addr(a) == *(int *)metac_value_addr(b) : -(EINVAL); }
int metac_value_equal_enumeration(metac_value_t *a, metac_value_t *b) { return is_k(a, &t_enum) && is_k(b, &t_enum) ? *(int *)metac_value_addr(a) == *(int *)metac_value_addr(b) : -(EINVAL); }
int metac_value_equal_pointer(metac_value_t *a, metac_value_t *b) { return is_k(a, &t_ptr) && is_k(b, &t_ptr) ? *(void **)metac_value_addr(a) == *(void **)metac_value_addr(b) : -(EINVAL); }
#define NCH 3
static E e1[2], e2[2], c1[NCH], c2[NCH]; static E *pc1[NCH], *pc2[NCH];
static _Alignas(8) char d1[2][8], d2[2][8];
static void w_request(struct task *t, void *in) {
    VF_CHECK(t == &T[NT - 1] && t->nreq < e1[1].children_count && in == &c1[t->nreq < NCH ? t->nreq : 0], "the parts are compared in order");
    VF_CHECK(((E *)in)->private_data == &c2[t->nreq < NCH ? t->nreq : 0], "each with its counterpart");
}
static void w_result(struct task *t, int i) { t->rfail[i] = vf_bool(); t->res[i] = NULL; }
static void fill(E *e, int k, char *d, E **ch) {
    for (int i = 0; i < 8; ++i) d[i] = (char)vf_u64();
    memset(e, 0, sizeof(*e));
    e->p_val = metac_new_value(type(k), d); VF_ASSUME(e->p_val);
    e->byte_size = vf_range(0, 8);
    e->loop_level = (int)vf_range(0, 2); e->offset_from_allocate_base = vf_range(0, 2);
    e->children_count = k == K_int || k == K_enum ? 0 : k == K_ptr || k == K_union ? (int)vf_range(0, 1) : (int)vf_range(0, NCH);
    e->pp_children = e->children_count ? ch : NULL;
}
static int part_eq(E *a, E *b, int ka, int kb) {        /* what the pair itself contributes, its parts aside */
    if (a->byte_size != b->byte_size || a->children_count != b->children_count || a->loop_level != b->loop_level || a->offset_from_allocate_base != b->offset_from_allocate_base || ka != kb) return 0;
    char *x = metac_value_addr(a->p_val), *y = metac_value_addr(b->p_val);
    if (ka == K_int || ka == K_enum) return *(int *)x == *(int *)y;
    if (ka == K_ptr && a->children_count == 0 && g_mode.unknown_ptr_mode == METAC_UPTR_as_values && a->loop_level == 0) return *(void **)x == *(void **)y;
    if (ka == K_union && a->children_count == 0 && g_mode.union_mode == METAC_UNION_as_mem) { for (int i = 0; i < 8; ++i) if (i < a->byte_size && x[i] != y[i]) return 0; }
    return 1;
}
static int shape_eq(E *a, E *b, int ka, int kb) { return a->byte_size == b->byte_size && a->children_count == b->children_count && a->loop_level == b->loop_level && a->offset_from_allocate_base == b->offset_from_allocate_base && ka == kb; }
void harness(void) {
    init();
    static metac_value_t *dummy; int nomode = vf_range(0, 7) == 0;
    g_mode.memory_block_mode = vf_bool() ? METAC_MMODE_dag : METAC_MMODE_tree; g_mode.unknown_ptr_mode = (metac_value_memory_map_uptr_mode_t)vf_range(0, 3); g_mode.union_mode = vf_bool() ? METAC_UNION_as_mem : vf_bool() ? METAC_UNION_ignore : METAC_UNION_fail; g_mode.flex_array_mode = METAC_FLXARR_fail;
    if (nomode) { g_mode.memory_block_mode = METAC_MMODE_dag; g_mode.unknown_ptr_mode = METAC_UPTR_fail; g_mode.union_mode = METAC_UNION_fail; }
    g_nmap = g_ndel = 0; g_mapfail = (int)vf_range(0, 2); w_none = NOITER; w_failat = (int)vf_range(0, 4); w_rootfail = vf_bool();
    for (int i = 0; i < NCH; ++i) { memset(&c1[i], 0, sizeof(E)); memset(&c2[i], 0, sizeof(E)); pc1[i] = &c1[i]; pc2[i] = &c2[i]; }
    memset(g_top, 0, sizeof(g_top)); g_map[0].p_top_entry = &g_top[0]; g_map[1].p_top_entry = &g_top[1];
    /* first a pair of ints: leaves the result so far at either value; then the pair under test */
    fill(&e1[0], K_int, d1[0], NULL); fill(&e2[0], K_int, d2[0], NULL);
    fill(&e1[1], KA, d1[1], pc1); fill(&e2[1], KB, d2[1], pc2);
    e1[0].private_data = &e2[0]; e1[1].private_data = &e2[1];
    T[0].in = &e1[0]; T[1].in = &e1[1];
    g_v[0] = e1[0].p_val; g_v[1] = e2[1].p_val;
    int want = part_eq(&e1[0], &e2[0], K_int, K_int) && part_eq(&e1[1], &e2[1], KA, KB), shape = shape_eq(&e1[1], &e2[1], KA, KB);
    int r = metac_value_equal_ex(g_v[0], g_v[1], nomode ? NULL : &g_mode, g_tags);
    VF_CHECK(g_ndel == (g_mapfail == 1 ? 0 : g_mapfail == 2 ? 1 : 17), "the maps are released, each once");
    if (g_mapfail || w_none) { VF_CHECK(r < 0, "no answer without a walk over both"); VF_REACH("no walk"); return; }
    VF_CHECK(w_root == &g_top[0] && w_freed == 1, "the walk starts at the top");
    VF_CHECK(T[0].ended && T[1].ended && !T[0].failed && T[0].nreq == 0, "every task finishes");
    struct task *t = &T[1];
    int cf = 0; for (int i = 0; i < MAXREQ; ++i) if (i < t->nreq && t->rfail[i]) cf = 1;
    VF_CHECK(t->failed == (cf || t->refused), "a pair fails exactly if one of its parts does");
    if (shape && !t->refused) VF_CHECK(t->nreq == e1[1].children_count, "all parts are compared");
    if (!shape) VF_CHECK(t->nreq == 0 && !t->failed, "pairs of different shape have no parts to compare");
    if (w_rootfail) { VF_CHECK(r < 0, "a failed walk gives no answer"); VF_REACH("failed"); }
    else { VF_CHECK(r == want, "equal exactly if every pair is"); if (!want) VF_REACH("different");
#if KA == KB
        if (want) VF_REACH("equal");
#endif
    }
    VF_CHECK(metac_value_equal_ex(NULL, g_v[1], &g_mode, g_tags) < 0 && metac_value_equal_ex(g_v[0], NULL, &g_mode, g_tags) < 0, "nothing to compare");
}
#endif
#if MODE == 1
/* maps by the contract C06 checks: M knows the blocks of the source, D records where they were copied to */
static char m_tok, d_tok; static struct { void *k, *v; } D[4]; static int nD, d_freed, d_made, d_refuse, puts_;
static struct metac_memory_map g_map; static E g_top; static int g_nmap, g_ndel, g_nomap;
static E e_blk, e_in; static char *g_src; static int g_off, g_bsz;      /* one block of the source, and a place inside it something points to */
static metac_value_memory_map_mode_t g_mode; static metac_value_t *g_sv, *g_dv; static metac_tag_map_t *g_tags;
Hashmap *hashmapCreate(size_t n, int (*h)(void *), bool (*e)(void *, void *)) { VF_CHECK(d_made == 0, "one map of copies"); ++d_made; return d_refuse == 1 ? NULL : (Hashmap *)&d_tok; }
void hashmapFree(Hashmap *m) { VF_CHECK((void *)m == (void *)&d_tok, "its own map"); ++d_freed; }
int hashmapPut(Hashmap *m, void *k, void *v, void **r) {
    VF_CHECK((void *)m == (void *)&d_tok && nD < 4, "copies are recorded in their map");
    if (++puts_ == d_refuse - 1) return -(ENOMEM);
    if (nD < 4) { D[nD].k = k; D[nD].v = v; ++nD; }
    return 0;
}
static void *d_get(void *k) { for (int i = 0; i < 4; ++i) if (i < nD && D[i].k == k) return D[i].v; return NULL; }
void *hashmapGet(Hashmap *m, void *k) { if ((void *)m == (void *)&d_tok) return d_get(k); VF_CHECK((void *)m == (void *)&m_tok, "one of the maps"); return k == g_src ? (void *)&e_blk : k == g_src + g_off ? (void *)&e_in : NULL; }
bool hashmapContainsKey(Hashmap *m, void *k) { return hashmapGet(m, k) != NULL; }
void hashmapForEach(Hashmap *m, bool (*cb)(void *, void *, void *), void *cx) {
    if ((void *)m == (void *)&m_tok) { int first = vf_bool(); if (first && !cb(g_src + g_off, &e_in, cx)) return; if (!cb(g_src, &e_blk, cx)) return; if (!first) cb(g_src + g_off, &e_in, cx); return; }
    VF_CHECK((void *)m == (void *)&d_tok, "one of the maps");
    for (int i = 0; i < 4; ++i) if (i < nD && !cb(D[i].k, D[i].v, cx)) return;
}
struct metac_memory_map *metac_new_value_memory_map_ex(metac_value_t *v, metac_value_memory_map_mode_t *m, metac_tag_map_t *t) {
    ++g_nmap;
    VF_CHECK(g_nmap == 1 && v == g_sv && t == g_tags, "a map of the source");
    VF_CHECK(m && m->memory_block_mode == g_mode.memory_block_mode && m->unknown_ptr_mode == g_mode.unknown_ptr_mode && m->union_mode == g_mode.union_mode && m->flex_array_mode == g_mode.flex_array_mode, "in the given mode");
    return g_nomap ? NULL : &g_map;
}
void metac_value_memory_map_delete(struct metac_memory_map *m) { VF_CHECK(m == &g_map, "the map"); ++g_ndel; }
static int g_other, g_nodecl;
char *metac_entry_cdecl(metac_entry_t *e) { if (g_nodecl == 1 || (g_nodecl == 2 && e == metac_value_entry(g_dv))) return NULL; char *r = malloc(2); VF_ASSUME(r); r[0] = g_other && e == metac_value_entry(g_dv) ? 'b' : 'a'; r[1] = 0; return r; }
/* scalars by the contracts C01, C04 check */
static int g_bad;
metac_value_t *metac_value_copy_base_type(metac_value_t *a, metac_value_t *b) { if (g_bad) return NULL; *(int *)metac_value_addr(b) = *(int *)metac_value_addr(a); return b; }
metac_value_t *metac_value_copy_enumeration(metac_value_t *a, metac_value_t *b) { if (g_bad) return NULL; *(int *)metac_value_addr(b) = *(int *)metac_value_addr(a); return b; }
/* captured parameters by the contract C12 checks */
static int g_full, g_copied; static int g_pars[4]; static char st_src, st_dst;
metac_num_t metac_parameter_storage_size(metac_parameter_storage_t *s) { return (void *)s == (void *)&st_dst && g_full ? 1 : 0; }
int metac_parameter_storage_copy(metac_parameter_storage_t *a, metac_parameter_storage_t *b) { VF_CHECK((void *)a == (void *)&st_src && (void *)b == (void *)&st_dst, "the captured parameters are copied"); ++g_copied; return g_bad ? -(ENOMEM) : 0; }
metac_value_t *metac_parameter_storage_new_param_value(metac_parameter_storage_t *s, metac_num_t i) { VF_CHECK((void *)s == (void *)&st_dst && i >= 0 && i < 4, "parameters of the copy"); return metac_new_value(&t_int, &g_pars[i >= 0 && i < 4 ? i : 0]); }
/* the caller's allocator */
static char g_mem[2][16]; static int n_alloc, n_free, freed[2]; static size_t a_size; static int a_fail;
static void *u_calloc(size_t n, size_t s) { VF_CHECK(n_alloc < 1, "one block for one block"); if (a_fail) return NULL; a_size = n * s; return g_mem[n_alloc++]; }
static void u_free(void *p) { VF_CHECK(n_alloc == 1 && p == (void *)g_mem[0] && n_free == 0, "blocks of a failed copy are released, once"); ++n_free; }
#define NCH 3
static E e, ch0, ch1, ch2, par;
#define ch(i) (*((i) == 0 ? &ch0 : (i) == 1 ? &ch1 : &ch2))
 static E *pch[NCH]; static _Alignas(8) char sd[16], dd[16], old[16]; static metac_value_t *dv, *cdst; static int g_fo; static void *psrc, *pold, *gdst;
static int base_of(int i) { return i == 0 ? 0 : i == 1 ? 4 : 8; }
static void w_request(struct task *t, void *in) {
    int i = t->nreq < NCH ? t->nreq : 0;
    VF_CHECK(t->nreq < e.children_count && in == &ch(i), "every part is copied, in order");
    metac_value_t *d = ((E *)in)->private_data;
    VF_CHECK(d != NULL, "each to a destination of its own");
    if (d == NULL) return;
#if K == K_ptr
    VF_CHECK(metac_value_entry(d) == metac_value_entry(ch(0).p_val) && n_alloc == 1 && metac_value_addr(d) == g_mem[0] + (TREE ? 0 : (char *)metac_value_addr(ch(0).p_val) - g_src), "what it points to is copied to its place in the new block");
#elif K == K_call
    VF_CHECK(metac_value_entry(d) == &t_int && metac_value_addr(d) == &g_pars[i], "to the same parameter of the copy");
#else
    VF_CHECK(metac_value_entry(d) == metac_value_entry(ch(i).p_val) && metac_value_addr(d) == dd + ((char *)metac_value_addr(ch(i).p_val) - sd), "to the same place of the copy");
#endif
}
static void w_result(struct task *t, int i) { t->rfail[i] = vf_bool(); t->res[i] = NULL; }
void harness(void) {
    init();
    nD = d_freed = d_made = puts_ = g_nmap = g_ndel = g_copied = n_alloc = n_free = 0; a_size = 0;
    int nomode = 0;
    g_mode.memory_block_mode = TREE ? METAC_MMODE_tree : METAC_MMODE_dag; g_mode.unknown_ptr_mode = (metac_value_memory_map_uptr_mode_t)vf_range(0, 3); g_mode.union_mode = (metac_value_memory_map_union_mode_t)vf_range(0, 2); g_mode.flex_array_mode = METAC_FLXARR_fail;
    w_none = NOITER; w_failat = (int)vf_range(0, 4); w_rootfail = NOITER ? 1 : vf_bool();
    d_refuse = (int)vf_range(0, 3); a_fail = vf_bool(); g_nomap = vf_bool(); g_other = vf_bool(); g_nodecl = (int)vf_range(0, 2); g_bad = vf_bool(); g_full = vf_bool();
#ifdef PLAIN            /* the start of the walk is covered by the other cases */
    g_other = g_nodecl = g_nomap = 0;
#if !TREE
    a_fail = d_refuse = 0;
#endif
#endif
    static char blk[24]; g_src = blk; g_off = (int)vf_range(1, 15); g_bsz = (int)vf_range(1, 16);
    VF_ASSUME(g_off < g_bsz);
    memset(&e_blk, 0, sizeof(E)); memset(&e_in, 0, sizeof(E)); e_blk.byte_size = g_bsz; e_in.offset_from_allocate_base = g_off; e_in.byte_size = 1;
    g_map.p_addr_ptr_val_to_memory_entry = TREE ? NULL : (Hashmap *)&m_tok; g_map.p_top_entry = &g_top;
    memset(&g_top, 0, sizeof(E));
    for (int i = 0; i < 2; ++i) { uint64_t x = vf_u64(), y = vf_u64(); memcpy(sd + 8 * i, &x, 8); memcpy(dd + 8 * i, &y, 8); memcpy(old + 8 * i, &y, 8); }
    memset(&e, 0, sizeof(E)); memset(&par, 0, sizeof(E));
    e.p_val = metac_new_value(type(K), K == K_call ? (void *)&st_src : (void *)sd); dv = metac_new_value(type(K), K == K_call ? (void *)&st_dst : (void *)dd);
    g_sv = metac_new_value(&t_struct, sd); g_dv = metac_new_value(&t_union, dd);
    VF_ASSUME(e.p_val && dv && g_sv && g_dv);
    e.private_data = dv; e.byte_size = vf_range(0, 16);
    e.children_count = K == K_int || K == K_enum ? 0 : K == K_ptr || K == K_union ? (int)vf_range(0, 1) : (int)vf_range(0, NCH);
    e.pp_children = e.children_count ? pch : NULL;
    int cnt = (int)vf_range(0, 2), nested = 0;
    for (int i = 0; i < NCH; ++i) { memset(&ch(i), 0, sizeof(E)); pch[i] = &ch(i); ch(i).p_val = metac_new_value(&t_int, sd + base_of(i)); VF_ASSUME(ch(i).p_val); ch(i).p_parent = &e; }
    void *pn = NULL; int loop = 0;
#if K == K_ptr
    int inner = vf_bool(); g_fo = (int)vf_range(0, 4);
    metac_entry_t arr = VF_ARR(&t_int, cnt);
    char *a = inner ? g_src + g_off : g_src;
    ch(0).p_val = metac_new_value(&arr, a); VF_ASSUME(ch(0).p_val);
    ch(0).byte_size = vf_range(0, 16);
    pn = e.children_count ? (void *)(a + g_fo) : vf_bool() ? (void *)(blk + 1) : NULL;
    *(void **)sd = pn;
    /* a loop leads to the pointer some levels up */
    static E up; static _Alignas(8) void *upd; static metac_value_t *upv;
    memset(&up, 0, sizeof(E)); upd = blk + 20; upv = metac_new_value(&t_ptr, &upd); VF_ASSUME(upv);
    up.private_data = upv; up.p_val = upv; e.p_parent = &par; par.p_parent = vf_bool() ? &up : NULL;
    if (!e.children_count) loop = (int)vf_range(0, 1) * 2;
    e.loop_level = loop;
#endif
#if K == K_call
    if (vf_bool()) { nested = 1; par.p_val = e.p_val; e.p_parent = &par; }
#endif
    T[0].in = &e;
    metac_value_t *r = metac_value_copy_ex(g_sv, g_dv, &g_mode, u_calloc, u_free, g_tags);
    struct task *t = &T[0];
    if (g_other || g_nodecl || g_nomap) { VF_CHECK(r == NULL && g_ndel == 0 && g_nmap == (g_nomap && !g_other && !g_nodecl) && n_alloc == 0 && d_made == d_freed, "refused");
#ifndef PLAIN
        VF_REACH("refused");
#endif
        return; }
    VF_ASSUME(w_rootfail || !t->failed);           /* a failed task fails those above it: the contract of every task, checked below */
    VF_CHECK(g_ndel == 1, "the map of the source is released");
    VF_CHECK(d_made == 1 && d_freed == (d_refuse == 1 ? 0 : 1), "and that of the copies");
    VF_CHECK(n_free == (r == NULL ? n_alloc : 0), "a failed copy releases what it allocated, a successful one nothing");
#if !TREE
    if (!a_fail && d_refuse != 1) VF_CHECK(n_alloc == 1 && a_size == (size_t)g_bsz, "every block is allocated in full");
    if (d_refuse == 1 || a_fail || d_refuse == 2) { VF_CHECK(r == NULL && t->hands == 0, "no memory for the blocks");
#ifndef PLAIN
        VF_REACH("no memory");
#endif
        return; }
    VF_CHECK(nD == 1 && d_get(g_src) == g_mem[0], "and recorded");
#else
    if (d_refuse == 1) { VF_CHECK(r == NULL && t->hands == 0, "no memory"); VF_REACH("no memory"); return; }
#endif
    VF_CHECK(g_top.private_data == NULL && w_root == &g_top && w_freed == (NOITER ? 0 : 1), "the walk starts at the top");
    VF_CHECK(r == (w_rootfail ? NULL : g_dv), "the result is that of the walk");
    if (NOITER) return;
    VF_CHECK(t->ended, "the task finishes");
    int cf = 0; for (int i = 0; i < MAXREQ; ++i) if (i < t->nreq && t->rfail[i]) cf = 1;
    int own = 0;            /* the task itself can not be done */
    if (K == K_int || K == K_enum) own = g_bad;
    if (K == K_call) own = !nested && (g_full || g_bad);
    if (K == K_ptr && TREE && e.children_count) own = a_fail || d_refuse == 2;
#if K == K_ptr
    if (loop) own = par.p_parent == NULL;
#endif
    VF_CHECK(t->failed == (own || cf || t->refused), "it fails exactly if it or one of its parts does");
    if (!own && !t->refused) VF_CHECK(t->nreq == e.children_count, "all parts are copied");
    if (own) VF_CHECK(t->nreq == 0, "nothing follows a failure");
    VF_CHECK(g_copied == (K == K_call && !nested && !g_full ? 1 : 0), "parameters are copied once, with their variable parts");
    size_t wrote = 0;
    if (!own) {
#if K == K_int || K == K_enum
        VF_CHECK(*(int *)dd == *(int *)sd, "the content is copied"); wrote = 4;
#elif K == K_ptr
        wrote = 8;
        if (e.children_count) VF_CHECK(*(void **)dd == g_mem[0] + (TREE ? 0 : a - g_src) + g_fo, "the pointer leads to the same place of the new block");
        else if (loop) VF_CHECK(*(void **)dd == upd, "a loop is closed in the copy");
        else VF_CHECK(*(void **)dd == (g_mode.unknown_ptr_mode == METAC_UPTR_as_values ? pn : NULL), "NULL stays NULL, ignored pointers become NULL, pointers taken as values are kept");
        if (TREE && e.children_count) VF_CHECK(n_alloc == 1 && a_size == (size_t)ch(0).byte_size, "a block of its own");
#elif K == K_union
        if (!e.children_count && g_mode.union_mode != METAC_UNION_fail) {
            wrote = e.byte_size;
            size_t k = vf_range(0, 15);
            VF_ASSUME(k < wrote || wrote == 0);
            if (wrote) VF_CHECK(dd[k] == (g_mode.union_mode == METAC_UNION_as_mem ? sd[k] : 0), "the memory is copied or cleared");
        }
#endif
    }
    size_t k = vf_range(0, 15);
    if (k >= wrote) VF_CHECK(dd[k] == old[k], "nothing else is written");
    VF_REACH("copied");
}
#endif
