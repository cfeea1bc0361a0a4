/* C08 C09 C10: the life of one task of the walk that builds the memory map of a value (value_deep.c), for any task.  The value layer is
 * replaced by the contracts C01, C03, C05, C12, C19 check, the iterator by C07, hash maps by C06, tags and handlers by C13, C14.
 * K what the value is (0 int, 1 enum, 2 pointer, 3 struct, 4 union, 5 array, 6 call, 7 variable parameters, 8 something else), N parts, TAG 0 no tag
 * map, 1 no tag, 2 tag without handler, 3 handler */
#define NT 1
#include "ent.h"
#include "metac/backend/value.h"
#include "metac/backend/iterator.h"
#include "metac/backend/hashmap.h"
#include "metac/reflect/value.h"
#include <errno.h>
#ifndef NOITER
#define NOITER 0
#endif
#include "walk_ghost.h"
typedef struct metac_memory_entry E;
#define NCH 3
struct metac_value { int kind, fkind; metac_entry_t *e; char *addr; int live, gone; };
static metac_entry_t e_in, e_part[NCH], e_arr, e_top; static struct metac_value v_in, v_top, v_root, v_p0, v_p1, v_p2, v_arr, v_uc;
static char mem[64], far_[64]; static metac_size_t g_sz, g_asz, off[NCH], csz[NCH];
static int n_new[NCH], f_new, f_arr, n_arr, n_uc, f_size, f_asize, g_void, g_loop, g_flex, g_noarr, g_alen, f_ent, f_uc, has_load; static void *g_ptr;
static E g_ent, c_0, c_1, c_2, g_prev, g_top; static E *g_pch[NCH]; static int ent_live, ent_made, ent_gone, ch_live[NCH], ch_gone[NCH];
/* separate objects: cheaper to reason about than arrays */
#define v_part(i) (*((i) == 0 ? &v_p0 : (i) == 1 ? &v_p1 : &v_p2))
#define ch(i) (*((i) == 0 ? &c_0 : (i) == 1 ? &c_1 : &c_2))
#define NEWV(v) ((v).live++, &(v))
static int is_load(struct metac_value *v) { return v == &v_in && (K == 6 || K == 7); }
metac_value_t *metac_new_value_from_value(metac_value_t *p) { VF_CHECK(p == &v_top, "the value"); return NEWV(v_root); }
void metac_value_delete(metac_value_t *p) { VF_CHECK(p != &v_in && p != &v_top, "a value is released by its owner"); if (p) { VF_CHECK(p->live == 1, "a value is released once"); p->live = 0; ++p->gone; } }
metac_kind_t metac_value_kind(metac_value_t *p) { return p->kind; }
metac_kind_t metac_value_final_kind(metac_value_t *p, metac_quals_t *q) { return p->fkind; }
metac_entry_t *metac_value_entry(metac_value_t *p) { return p->e; }
void *metac_value_addr(metac_value_t *p) { return p->addr; }
metac_flag_t metac_value_has_parameter_load(metac_value_t *p) { return is_load(p); }
int metac_entry_byte_size(metac_entry_t *e, metac_size_t *s) {
    if (e == &e_in) { if (f_size) return -(EFAULT); *s = g_sz; return 0; }
    VF_CHECK(e == &e_arr, "the size of the value itself");
    if (f_asize) return -(EFAULT);
    *s = g_asz; return 0;
}
metac_flag_t metac_value_has_members(metac_value_t *p) { return p->fkind == METAC_KND_struct_type || p->fkind == METAC_KND_union_type; }
metac_num_t metac_value_member_count(metac_value_t *p) { VF_CHECK(p == &v_in, "its own members"); return N; }
static metac_value_t *part(int i) { VF_CHECK(i >= 0 && i < N, "only existing parts"); if (i < 0 || i >= N || i >= NCH || f_new == i + 1) return NULL; ++n_new[i]; return NEWV(v_part(i)); }
metac_value_t *metac_new_value_by_member_id(metac_value_t *p, metac_num_t i) { VF_CHECK(p == &v_in && (K == 3 || K == 4), "its own members"); return part(i); }
metac_flag_t metac_value_has_elements(metac_value_t *p) { return p == &v_arr ? !g_noarr : p->fkind == METAC_KND_array_type; }
metac_num_t metac_value_element_count(metac_value_t *p) { if (p == &v_arr) return g_alen; VF_CHECK(p == &v_in, "its own elements"); return g_flex ? -1 : N; }
metac_value_t *metac_new_value_by_element_id(metac_value_t *p, metac_num_t i) { VF_CHECK(p == &v_in ? !g_flex : p == &v_arr && p->live == 1 && g_flex, "its own elements"); return part(i); }
static int want_count = -1;
metac_value_t *metac_new_element_count_value(metac_value_t *p, metac_num_t n) {
    if (p == &v_uc) VF_CHECK(v_uc.live == 1 && n == 1, "one byte"); else VF_CHECK(p == &v_in && n == (K == 5 ? 0 : 1), "the default length");
    if (f_arr) return NULL;
    VF_CHECK(n_arr == 0, "once"); ++n_arr;
    if (K == 5) g_alen = 0;
    want_count = p == &v_uc ? 2 : 1;
    return NEWV(v_arr);
}
metac_value_t *metac_new_value(metac_entry_t *e, void *a) {
    VF_CHECK(e && e->kind == METAC_KND_pointer_type && e->pointer_type_info.type && e->pointer_type_info.type->kind == METAC_KND_base_type && e->pointer_type_info.type->base_type_info.byte_size == 1 && a == v_in.addr, "the pointer taken as a pointer to a byte");
    if (f_uc) return NULL;
    ++n_uc; return NEWV(v_uc);
}
int metac_value_pointer(metac_value_t *p, void **a) { if (p->fkind != METAC_KND_pointer_type) return -(EINVAL); *a = g_ptr; return 0; }
metac_flag_t metac_value_is_void_pointer(metac_value_t *p) { return p->fkind == METAC_KND_pointer_type && g_void == 1; }
metac_flag_t metac_value_is_declaration_pointer(metac_value_t *p) { return p->fkind == METAC_KND_pointer_type && g_void == 2; }
metac_flag_t metac_value_is_pointer(metac_value_t *p) { return p->fkind == METAC_KND_pointer_type; }
int metac_value_level_introduced_loop(metac_recursive_iterator_t *p) { IT(p); return g_loop; }
metac_num_t metac_value_parameter_count(metac_value_t *p) { VF_CHECK(p == &v_in && is_load(p), "its own parameters"); return N; }
metac_value_t *metac_value_parameter_new_item(metac_value_t *p, metac_num_t i) { VF_CHECK(p == &v_in && is_load(p), "its own parameters"); return part(i); }
/* tags and handlers */
static char tags_tok, cx_tok; static metac_entry_tag_t g_tag; static int h_calls, h_fail, h_none;
static int h_dummy(metac_value_walker_hierarchy_t *h, metac_value_event_t *ev, void *cx) { return 0; }
metac_entry_tag_t *metac_tag_map_tag(metac_tag_map_t *m, metac_entry_t *e) { VF_CHECK((void *)m == (void *)&tags_tok && e == &e_in, "the tag of the value"); return TAG >= 2 ? &g_tag : NULL; }
int metac_value_event_handler_call(metac_value_event_handler_t h, metac_recursive_iterator_t *it, metac_value_event_t *ev, void *cx) {
    IT(it); ++h_calls;
    VF_CHECK(TAG == 3 && h == h_dummy && cx == (void *)&cx_tok && ev->p_return_value == NULL, "the handler of the tag is asked");
    VF_CHECK(ev->type == (K == 4 ? METAC_RQVST_union_member : K == 5 ? METAC_RQVST_flex_array_count : METAC_RQVST_pointer_array_count), "what the value needs to know");
    if (h_fail) return -(EFAULT);
    if (!h_none) ev->p_return_value = K == 4 ? NEWV(v_part(0)) : NEWV(v_arr);
    return 0;
}
/* entries */
E *metac_new_memory_entry(metac_value_t *v, metac_size_t s, metac_num_t n) {
    VF_CHECK(ent_made == 0 && v == &v_in && n >= 0 && n <= NCH, "one entry for one value");
    if (f_ent) return NULL;
    ++ent_made; ent_live = 1; memset(&g_ent, 0, sizeof(E)); for (int i = 0; i < NCH; ++i) g_pch[i] = NULL;
    g_ent.p_val = v; g_ent.byte_size = s; g_ent.children_count = n; g_ent.pp_children = n ? g_pch : NULL;
    return &g_ent;
}
static void ch_del(int i) { VF_CHECK(ch_live[i], "an entry is released once"); ch_live[i] = 0; ++ch_gone[i]; if (ch(i).p_val) metac_value_delete(ch(i).p_val); }
void metac_memory_entry_delete(E *e) {
    for (int i = 0; i < NCH; ++i) if (e == &ch(i)) { ch_del(i); return; }
    VF_CHECK(e == &g_ent && ent_live, "an entry is released once");
    ent_live = 0; ++ent_gone;
    for (int i = 0; i < NCH; ++i) if (i < g_ent.children_count && g_pch[i]) { VF_CHECK(g_pch[i]->p_parent == &g_ent, "entries know what they are part of"); for (int j = 0; j < NCH; ++j) if (g_pch[i] == &ch(j)) ch_del(j); }
    VF_CHECK(g_ent.p_val != &v_in, "the value of a failed task belongs to who asked");
}
/* the map of blocks */
static char map_tok; static int m_live, m_freed, m_has, m_refuse, m_none; static void *m_key; static E *m_val; static int m_puts;
#define MAP(m) VF_CHECK((void *)(m) == (void *)&map_tok && m_live, "the map of blocks")
Hashmap *hashmapCreate(size_t n, int (*h)(void *), bool (*eq)(void *, void *)) { VF_CHECK(!TREE && !m_live, "one map of blocks"); if (m_none) return NULL; m_live = 1; return (Hashmap *)&map_tok; }
void hashmapFree(Hashmap *m) { MAP(m); m_live = 0; ++m_freed; }
size_t hashmapSize(Hashmap *m) { MAP(m); return 0; }
bool hashmapContainsKey(Hashmap *m, void *k) { MAP(m); VF_CHECK(k == v_arr.addr, "blocks are known by their address"); return m_has; }
void *hashmapGet(Hashmap *m, void *k) { MAP(m); VF_CHECK(k == v_arr.addr, "blocks are known by their address"); return m_has ? m_val : NULL; }
int hashmapPut(Hashmap *m, void *k, void *v, void **r) { MAP(m); VF_CHECK(k == v_arr.addr, "blocks are known by their address"); if (m_refuse) return -(ENOMEM); ++m_puts; m_has = 1; m_key = k; m_val = v; return 0; }
static void w_request(struct task *t, void *in) {
    int i = t->nreq < NCH ? t->nreq : 0;
    VF_CHECK(in == (K == 2 ? &v_arr : &v_part(i)) && ((struct metac_value *)in)->live == 1, "every part is asked for, in order");
}
static void w_result(struct task *t, int i) {
    if (i >= NCH) return;
    t->rfail[i] = vf_bool(); t->res[i] = NULL;
    if (!t->rfail[i]) { memset(&ch(i), 0, sizeof(E)); ch(i).p_val = t->req[i]; ch(i).byte_size = csz[i]; ch_live[i] = 1; t->res[i] = &ch(i); }
}
void harness(void) {
    w_init();
    static const int kinds[] = {METAC_KND_base_type, METAC_KND_enumeration_type, METAC_KND_pointer_type, METAC_KND_struct_type, METAC_KND_union_type, METAC_KND_array_type, METAC_KND_subprogram, METAC_KND_invalid, METAC_KND_typedef};
    int fk = kinds[K];
    v_in.fkind = fk; v_in.kind = K == 7 ? METAC_KND_func_parameter : K == 6 ? (KIND ? METAC_KND_subprogram : METAC_KND_subroutine_type) : KIND == 0 ? fk : KIND == 1 ? METAC_KND_member : METAC_KND_func_parameter;

    if (K == 6) v_in.fkind = v_in.kind;
    v_in.e = &e_in; v_in.addr = mem; v_in.live = 1; v_in.gone = 0;
    v_top.kind = v_top.fkind = METAC_KND_base_type; v_root = v_top; v_root.live = 0; v_root.gone = 0;
    g_sz = vf_range(0, 40); g_asz = vf_range(0, 40);
    size_t o = 0;
    for (int i = 0; i < NCH; ++i) { n_new[i] = 0; off[i] = o; csz[i] = vf_range(0, 20); o += 8; v_part(i).live = v_part(i).gone = 0; v_part(i).e = &e_part[i]; v_part(i).addr = mem + off[i]; v_part(i).kind = METAC_KND_member; v_part(i).fkind = METAC_KND_base_type; ch_live[i] = ch_gone[i] = 0; }
    v_arr.live = v_arr.gone = 0; v_arr.e = &e_arr; v_arr.kind = v_arr.fkind = METAC_KND_array_type; v_uc.live = v_uc.gone = 0;
    g_noarr = K == 2 && vf_bool(); g_flex = K == 5 && FLEX; g_alen = N;
    v_arr.addr = K == 5 ? mem : far_;
    g_void = (int)vf_range(0, 2); g_loop = (int)vf_range(0, 3) - 1; g_ptr = vf_bool() ? far_ + 4 : NULL;
    f_new = FNEW; f_arr = vf_bool(); f_size = vf_bool(); f_asize = vf_bool(); f_ent = vf_bool(); f_uc = vf_bool();
    n_arr = n_uc = h_calls = ent_live = ent_made = ent_gone = m_live = m_freed = m_puts = 0; want_count = -1;
    h_fail = vf_bool(); h_none = vf_bool(); g_tag.handler = TAG == 3 ? h_dummy : NULL; g_tag.p_context = &cx_tok;
    m_refuse = vf_bool(); m_none = 0; m_has = vf_bool(); m_val = &g_prev; memset(&g_prev, 0, sizeof(E)); g_prev.byte_size = vf_range(0, 20); int had = m_has;
    metac_value_memory_map_mode_t mode = {.memory_block_mode = TREE ? METAC_MMODE_tree : METAC_MMODE_dag, .unknown_ptr_mode = (metac_value_memory_map_uptr_mode_t)vf_range(0, 3), .union_mode = (metac_value_memory_map_union_mode_t)vf_range(0, 2), .flex_array_mode = vf_bool() ? METAC_FLXARR_fail : METAC_FLXARR_ignore};
    w_none = 0; w_failat = FAILAT; w_rootfail = vf_bool(); w_rootout = &g_top;
    T[0].in = &v_in;
    struct metac_memory_map *m = metac_new_value_memory_map_ex(&v_top, &mode, TAG ? (metac_tag_map_t *)&tags_tok : NULL);
    struct task *t = &T[0];
    VF_CHECK(t->ended, "the task finishes");
    VF_ASSUME(w_rootfail || !t->failed);           /* a failed task fails those above it: the contract of every task, checked below */
    VF_CHECK(w_root == &v_root && w_freed == 1, "the walk starts at the value");
    VF_CHECK(w_rootfail ? m == NULL && v_root.live == 0 && !m_live : m != NULL && m->p_top_entry == &g_top && v_root.live == 1, "the map is what the walk found, or nothing");
    if (m) { VF_CHECK(TREE ? m->p_addr_ptr_val_to_memory_entry == NULL : m_live, "blocks are known unless everything is taken as a tree"); free(m); }
    int cf = 0; for (int i = 0; i < NCH; ++i) if (i < t->nreq && t->rfail[i]) cf = 1;
    /* what it has to find */
    int own = 0, leaf = 0, parts = N; metac_size_t sz = g_sz;
#if K < 2
    own = f_size; leaf = 1;
#elif K == 2
    int fromh = TAG == 3 && !h_none, unknown = !fromh && g_void;
    parts = 1;
    if (f_size) own = 1;
    else if (g_ptr == NULL || g_loop > 0) leaf = 1;
    else if (TAG == 3 && h_fail) own = 1;
    else if (unknown && mode.unknown_ptr_mode == METAC_UPTR_fail) own = 1;
    else if (unknown && (mode.unknown_ptr_mode == METAC_UPTR_as_values || mode.unknown_ptr_mode == METAC_UPTR_ignore)) leaf = 1;
    else if (unknown && f_uc) own = 1;
    else if (!fromh && f_arr) own = 1;
    else if (g_noarr) own = 1;
    if (!own && !leaf) VF_CHECK(want_count == (fromh ? -1 : unknown ? 2 : 1), "the block: what the handler says, a byte for unknown pointers if wanted, one element");
    VF_CHECK(h_calls == (TAG == 3 && !f_size && g_ptr && g_loop <= 0), "the handler is asked once");
#elif K == 3
    own = f_size || (f_new && f_new <= N);
#elif K == 4
    parts = 0;
    if (f_size) own = 1;
    else if (N > 0) { if (TAG == 3 && h_fail) own = 1; else if (TAG == 3 && !h_none) parts = 1; else if (mode.union_mode == METAC_UNION_fail) own = 1; }
    VF_CHECK(h_calls == (TAG == 3 && !f_size && N > 0), "the handler is asked once");
#elif K == 5
    if (FLEX && TAG == 3 && h_fail) own = 1;
    else if (FLEX && (TAG != 3 || h_none)) { parts = 0; own = mode.flex_array_mode == METAC_FLXARR_fail || f_arr; }
    if (!own && parts) own = (f_new && f_new <= N) || (FLEX ? f_asize : f_size);
    sz = parts == 0 ? 0 : FLEX ? g_asz : g_sz;
    VF_CHECK(h_calls == (TAG == 3 && FLEX), "the handler is asked once");
    VF_CHECK(v_arr.live == 0, "the array of known length is not kept");
#elif K == 6 || K == 7
    own = f_new && f_new <= N; sz = 0;
#else
    own = 1;
#endif
    if (leaf) parts = 0;
    VF_CHECK(v_uc.live == 0, "nothing is lost");
    int puterr = 0;
#if K == 2 && !TREE
    if (!own && !leaf && !f_ent && t->nreq == 1 && !t->rfail[0] && (!had || csz[0] > g_prev.byte_size)) puterr = m_refuse;
#endif
    VF_CHECK(t->failed == (own || f_ent || cf || t->refused || puterr), "it fails exactly if it or one of its parts can not be mapped");
    if (t->failed) {
        VF_CHECK(ent_live == 0 && v_in.live == 1 && v_arr.live == 0, "a failed task keeps nothing");
        for (int i = 0; i < NCH; ++i) VF_CHECK(!ch_live[i] && !v_part(i).live, "nor any part");
        if (!TREE) for (int i = 0; i < NCH; ++i) if (ch_gone[i]) VF_CHECK(!m_live, "released entries are not known as blocks");
        VF_REACH("failed");
        return;
    }
#if K != 8
    VF_CHECK(t->out == &g_ent && ent_live && g_ent.p_val == &v_in && g_ent.children_count == parts && t->nreq == parts, "an entry with all parts");
    for (int i = 0; i < NCH; ++i) if (i < parts) {
        VF_CHECK(g_pch[i] == &ch(i) && ch(i).p_parent == &g_ent && ch_live[i] && ch(i).p_val && ch(i).p_val->live == 1, "parts in order");
        if (K == 3 || K == 4 || K == 5) if (off[i] + csz[i] > sz) sz = off[i] + csz[i];
    } else VF_CHECK(!ch_live[i] && !v_part(i).live, "nothing else");
    VF_CHECK(g_ent.byte_size == sz, "as large as it and its parts");
    VF_CHECK(g_ent.loop_level == (K == 2 && g_ptr && g_loop > 0 ? g_loop : 0) && g_ent.offset_from_allocate_base == 0, "loops are marked");
#if K == 2 && !TREE
    if (parts) VF_CHECK(m_has && m_val == (had && csz[0] <= g_prev.byte_size ? &g_prev : &ch(0)), "the largest block at an address is known");
    else VF_CHECK(m_puts == 0, "nothing else is known as a block");
#else
    VF_CHECK(m_puts == 0, "nothing else is known as a block");
#endif
#if !((K == 3 || K == 6 || K == 7) && (FNEW || FAILAT))
    VF_REACH("mapped");
#endif
#endif
}
