/* C03: resolution of typedef/qualifier chains and byte sizes.
 * MODE 1 metac_entry_final_entry, MODE 2 metac_entry_byte_size.
 * Bounded form (no -DCUT): every chain of at most N entries, any kinds, ends in NULL or anywhere.
 * -DCUT: loop invariant attached (unbounded): pool of entries with ghost functions
 *    vf_R  final entry reached from an entry     vf_Q/vf_G  qualifiers / array factor accumulated before an entry
 */
#include "ent.h"
#include "chain_ghost.h"
#ifndef N
#define N 6
#endif
/* entries are separate objects with concrete links (keeps the verifier's memory model small) */
#define MAXN 40
#ifdef VF_CBMC
metac_entry_t vf_n0, vf_n1, vf_n2, vf_n3, vf_n4, vf_n5;
#define NODE(i) ((i) == 0 ? &vf_n0 : (i) == 1 ? &vf_n1 : (i) == 2 ? &vf_n2 : (i) == 3 ? &vf_n3 : (i) == 4 ? &vf_n4 : &vf_n5)
#else
metac_entry_t vf_nodes[MAXN];
#define NODE(i) (&vf_nodes[i])
#endif
metac_kind_t vf_k[MAXN]; uint64_t vf_size[MAXN]; int64_t vf_cnt[MAXN]; int vf_un[MAXN];
int vf_R[MAXN];                   /* index of the entry resolution stops at; -1 = none */
uint64_t vf_G[MAXN];
uint32_t vf_Q[MAXN];
metac_quals_t g_quals, g_quals0;
metac_size_t g_sz, g_sz0;
metac_entry_t *g_start;
int g_nullq, g_cur;

static const metac_kind_t kinds[] = {
    METAC_KND_typedef, METAC_KND_variable, METAC_KND_member, METAC_KND_func_parameter,
    METAC_KND_const_type, METAC_KND_volatile_type, METAC_KND_restrict_type, METAC_KND_mutable_type, METAC_KND_shared_type, METAC_KND_packed_type,
    METAC_KND_base_type, METAC_KND_pointer_type, METAC_KND_enumeration_type, METAC_KND_array_type,
    METAC_KND_struct_type, METAC_KND_union_type, METAC_KND_class_type, METAC_KND_reference_type, METAC_KND_rvalue_reference_type,
    METAC_KND_subroutine_type, METAC_KND_subprogram, METAC_KND_unspecified_type,
};
#define NK (sizeof(kinds) / sizeof(kinds[0]))

static int qual_bit(metac_kind_t k) {
    metac_quals_t q = {.flags = 0};
    q.flag_const = k == METAC_KND_const_type; q.flag_volatile = k == METAC_KND_volatile_type; q.flag_restrict = k == METAC_KND_restrict_type;
    q.flag_mutable = k == METAC_KND_mutable_type; q.flag_shared = k == METAC_KND_shared_type; q.flag_packed = k == METAC_KND_packed_type;
    return q.flags;
}
static int is_qual(metac_kind_t k) { return qual_bit(k) != 0; }
static int skips(int i) {
    metac_kind_t k = vf_k[i];
    return k == METAC_KND_typedef || k == METAC_KND_variable || k == METAC_KND_member || is_qual(k) ||
        (k == METAC_KND_func_parameter && !vf_un[i]);
}
static int goes_on(int i) {
#if MODE == 1
    return skips(i);
#else
    return skips(i) || vf_k[i] == METAC_KND_func_parameter || (vf_k[i] == METAC_KND_array_type && vf_cnt[i] > 0);
#endif
}
static uint64_t factor(int i) { return vf_k[i] == METAC_KND_array_type ? (uint64_t)vf_cnt[i] : 1; }
/* size of a type that has one itself */
static int own_size(int i, uint64_t *sz) {
    switch (vf_k[i]) {
    case METAC_KND_base_type: case METAC_KND_enumeration_type: case METAC_KND_struct_type: case METAC_KND_union_type: case METAC_KND_class_type:
    case METAC_KND_reference_type: case METAC_KND_rvalue_reference_type: *sz = vf_size[i]; return 1;
    case METAC_KND_pointer_type: *sz = sizeof(void *); return 1;
    default: return 0;
    }
}
/* array_type without a known length has no size, and ends the computation */
static void build(metac_entry_t *e, int i, metac_entry_t *nx) {
    metac_kind_t k = vf_k[i]; uint64_t size = vf_size[i]; int64_t count = vf_cnt[i]; int unspec = vf_un[i];
#ifdef VF_CBMC
    metac_entry_t x = {.kind = k, .typedef_info = {.type = nx}, .qual_type_info = {.type = nx}, .variable_info = {.type = nx}, .member_info = {.type = nx},
        .func_parameter_info = {.unspecified_parameters = unspec, .type = nx}, .array_type_info = {.type = nx, .count = count},
        .base_type_info = {.byte_size = size}, .enumeration_type_info = {.byte_size = size}, .structure_type_info = {.byte_size = size},
        .reference_type_info = {.byte_size = size, .type = nx}, .pointer_type_info = {.byte_size = size, .type = nx},
        .subroutine_type_info = {.type = nx}, .subprogram_info = {.type = nx}};
    *e = x;
#else
    memset(e, 0, sizeof(*e));
    e->kind = k;
    switch (k) {
    case METAC_KND_func_parameter: e->func_parameter_info.unspecified_parameters = unspec; e->func_parameter_info.type = nx; break;
    case METAC_KND_array_type: e->array_type_info.type = nx; e->array_type_info.count = count; break;
    case METAC_KND_base_type: e->base_type_info.byte_size = size; break;
    case METAC_KND_enumeration_type: e->enumeration_type_info.type = nx; e->enumeration_type_info.byte_size = size; break;
    case METAC_KND_struct_type: case METAC_KND_union_type: case METAC_KND_class_type: e->structure_type_info.byte_size = size; break;
    case METAC_KND_reference_type: case METAC_KND_rvalue_reference_type: e->reference_type_info.byte_size = size; e->reference_type_info.type = nx; break;
    case METAC_KND_pointer_type: e->pointer_type_info.byte_size = size; e->pointer_type_info.type = nx; break;
    case METAC_KND_unspecified_type: break;
    default: e->typedef_info.type = nx;
    }
#endif
}
static int is_node(metac_entry_t *r, int i) { return i < 0 ? r == NULL : r == NODE(i); }

#if MODE == 1
static int post(metac_entry_t *r) {
    int w = g_start ? vf_R[0] : -1;
    if (!is_node(r, w)) return 0;
    if (w < 0 || vf_k[w] == METAC_KND_func_parameter || g_nullq) return 1;
    return g_quals.flags == vf_Q[w];
}
metac_entry_t *metac_entry_final_entry(metac_entry_t *p_entry, metac_quals_t *p_quals)
VF_REQUIRES(p_entry == g_start) VF_ENSURES(post(VF_RET)) VF_ASSIGNS(g_quals);
#else
static int post(int r) {
    int w = g_start ? vf_R[0] : -1;
    uint64_t own;
    if (w < 0 || !own_size(w, &own)) return r != 0 && g_sz == g_sz0;
    return r == 0 && g_sz == own * vf_G[w];
}
int metac_entry_byte_size(metac_entry_t *p_entry, metac_size_t *p_sz)
VF_REQUIRES(p_entry == g_start) VF_ENSURES(post(VF_RET)) VF_ASSIGNS(g_sz);
#endif

#ifdef VF_CBMC
/* loop-head facts; cur is the entry about to be examined.
 * Path 0 -> ... -> 1 -> 2 -> ... -> 3: entry 0 starts the chain, an iteration looks at entry g_cur (0 or 1)
 * and moves to entry 2 (or to nothing), whose resolution is the ghost value vf_R[2]. */
metac_entry_t *vf_hv_entry(void) { return g_cur == 0 ? &vf_n0 : &vf_n1; }
metac_quals_t vf_hv_quals(void) { metac_quals_t q = {.flags = 0}; q.flags = (unsigned short)(vf_hv() & 0x3f); return q; }
int vf_inv(metac_entry_t *cur, uint64_t acc) {
    if (g_start == NULL) return cur == NULL;
#if MODE == 2
    if (g_sz != g_sz0) return 0;
#else
    if (g_quals.flags != g_quals0.flags) return 0;
#endif
    if (cur == NULL) return vf_R[0] == -1;
    int i = cur == &vf_n0 ? 0 : cur == &vf_n1 ? 1 : cur == &vf_n2 ? 2 : -1;
    if (i < 0 || vf_R[i] != vf_R[0]) return 0;
#if MODE == 1
    return (uint16_t)acc == (uint16_t)vf_Q[i];
#else
    return acc == vf_G[i];
#endif
}
#endif

static void pick(int i) {
    vf_k[i] = kinds[vf_range(0, NK - 1)];
    vf_un[i] = vf_k[i] == METAC_KND_func_parameter ? vf_bool() : 0;
#if defined(CUT)
    vf_size[i] = vf_u64() & 0xff;
    vf_cnt[i] = (int64_t)(vf_u64() & 0x1f) - 3;
#else
    vf_size[i] = vf_range(0, 255) & 0xff;
    vf_cnt[i] = (int64_t)(vf_range(0, 15) & 15) - 3;
#endif
#ifdef LONG
    if (i < N - 1 && vf_range(0, 9) != 0) { vf_k[i] = kinds[vf_range(0, 9)]; vf_un[i] = 0; }    /* mostly links: long chains */
#endif
}

void harness(void) {
    for (int i = 0; i < N; ++i) pick(i);
#ifdef CUT
    for (int i = 0; i < 4; ++i) { vf_R[i] = (int)vf_srange(-1, 3); vf_G[i] = vf_u64() & 0xfff; vf_Q[i] = vf_u64() & 0x3f; }
    vf_G[0] = 1; vf_Q[0] = 0;
    g_cur = vf_bool();
    for (int i = 0; i < 2; ++i) {
        if (!goes_on(i)) VF_ASSUME(vf_R[i] == i);
#ifdef NEXTNULL
        else VF_ASSUME(vf_R[i] == -1);
#else
        else VF_ASSUME(vf_R[i] == vf_R[2]);
#endif
    }
    vf_G[2] = vf_G[g_cur] * factor(g_cur);
    vf_Q[2] = vf_Q[g_cur] | qual_bit(vf_k[g_cur]);
#ifdef NEXTNULL
    build(&vf_n0, 0, NULL); build(&vf_n1, 1, NULL);
#else
    build(&vf_n0, 0, vf_un[0] ? NULL : &vf_n2); build(&vf_n1, 1, vf_un[1] ? NULL : &vf_n2);
    VF_ASSUME(!vf_un[0] && !vf_un[1]);
#endif
    build(&vf_n2, 2, NULL);
#else
    for (int i = N - 1; i >= 0; --i) {
        vf_R[i] = !goes_on(i) ? i : vf_un[i] || i == N - 1 ? -1 : vf_R[i + 1];
#ifdef VF_CBMC
#define B(i) if (N > i) { if (vf_un[i] || N == i + 1) build(&vf_n##i, i, NULL); else build(&vf_n##i, i, NODE(i + 1)); }
    }
    B(0) B(1) B(2) B(3) B(4) B(5)
#else
        build(NODE(i), i, vf_un[i] || i == N - 1 ? NULL : NODE(i + 1));
    }
#endif
    vf_G[0] = 1; vf_Q[0] = 0;
    for (int i = 0; i < N - 1; ++i) {
        vf_G[i + 1] = vf_G[i] * factor(i);
        vf_Q[i + 1] = vf_Q[i] | qual_bit(vf_k[i]);
    }
#endif
    g_start = NODE(0);
    g_quals.flags = (unsigned short)vf_u64(); g_quals0 = g_quals;
    g_sz = vf_u64(); g_sz0 = g_sz;
#if MODE == 1
    g_nullq = vf_bool();
    metac_entry_t *r = metac_entry_final_entry(g_start, g_nullq ? NULL : &g_quals);
    VF_CHECK(post(r), "resolution yields the first entry that is no typedef/qualifier/declaration, with exactly the qualifiers met");
    if (r) { VF_REACH("resolved"); } 
#ifndef CUT
    if (!r) { VF_REACH("void"); }
#ifndef VF_ENFORCED
    VF_CHECK(metac_entry_final_entry(NULL, NULL) == NULL, "nothing resolves to nothing");
#endif
#endif
#else
    int r = metac_entry_byte_size(g_start, &g_sz);
    VF_CHECK(post(r), "byte size is the size of the resolved type times all array lengths on the way, or an error and no result");
    if (r == 0) { VF_REACH("sized"); } else { VF_REACH("no size"); }
#ifndef CUT
    VF_CHECK(metac_entry_byte_size(NULL, &g_sz) != 0 && metac_entry_byte_size(NODE(0), NULL) != 0, "missing arguments are refused");
#endif
#endif
}
