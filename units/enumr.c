/* C04: enumerations.  -DMODE: 1 read, 2 write, 3 value->name, 4 enumerator by index, 5 equal, 6 copy, 7 widen, 8 text (native only)
 * -DNE=<number of enumerators> -DSZ=<storage bytes> [-DBITF: the value is a bit-field member] */
#include "ent.h"
#include <stdio.h>
#ifndef NE
#define NE 3
#endif
#ifndef SZ
#define SZ 4
#endif
#define NB 32
uint8_t g_mem[NB], g_old[NB], g_mem2[NB], g_old2[NB];
uint64_t g_off, g_off2, g_k, g_D, g_S;
int64_t g_out, g_out0;
metac_value_t *g_val, *g_val2;
struct metac_type_enumerator_info g_en[NE + 1];
int g_bad;
static const char *const nm[] = {"E_z", "E_a", "E_b", "E_c", "E_d", "E_e"};

static int has_neg(void) { int r = 0; for (int i = 0; i < NE; ++i) r |= g_en[i].const_value < 0; return r; }
static int bit_of(const uint8_t *m, uint64_t b) { return (m[b / 8] >> (b % 8)) & 1; }
/* the C value of an enumeration stored in SZ bytes: sign-extended iff some enumerator is negative */
static int64_t stored(const uint8_t *m, uint64_t off) {
    uint64_t u = 0;
    for (int i = 0; i < SZ; ++i) u |= (uint64_t)m[off + i] << (8 * i);
#if SZ < 8
    if (has_neg() && (u >> (8 * SZ - 1))) u |= ~0ull << (8 * SZ);
#endif
    return (int64_t)u;
}
static int fits(int64_t v) {
#if SZ < 8
    return has_neg() ? v >= -(1ll << (8 * SZ - 1)) && v < (1ll << (8 * SZ - 1)) : v >= 0 && v < (1ll << (8 * SZ));
#else
    return 1;
#endif
}
static int post_read(int r) {
    if (g_bad) return r != 0 && g_out == g_out0;
#ifdef BITF
    if (r != 0) return 0;
    int got = ((uint64_t)g_out >> g_k) & 1;
    if (g_k < g_S) return got == bit_of(g_old, g_D + g_k);
    return got == (has_neg() ? bit_of(g_old, g_D + g_S - 1) : 0);
#else
    return r == 0 && g_out == stored(g_old, g_off);
#endif
}
static int post_write(int r, int64_t v) {
    if (g_bad) return r != 0 && g_mem[g_k] == g_old[g_k];
    if (r != 0) return 0;
#ifdef BITF
    for (int b = 0; b < 8; ++b) {
        uint64_t bit = 8 * g_k + b;
        int now = bit_of(g_mem, bit);
        if (bit >= g_D && bit < g_D + g_S ? now != (int)(((uint64_t)v >> (bit - g_D)) & 1) : now != bit_of(g_old, bit)) return 0;
    }
    return 1;
#else
    if (g_k >= g_off && g_k < g_off + SZ) return g_mem[g_k] == (uint8_t)((uint64_t)v >> (8 * (g_k - g_off)));
    return g_mem[g_k] == g_old[g_k];
#endif
}
#if MODE == 1
int metac_value_enumeration(metac_value_t *p_val, metac_const_value_t *p_var) VF_REQUIRES(p_val == g_val && p_var == &g_out) VF_ENSURES(post_read(VF_RET)) VF_ASSIGNS(g_out);
#elif MODE == 2
int metac_value_set_enumeration(metac_value_t *p_val, metac_const_value_t var) VF_REQUIRES(p_val == g_val) VF_ENSURES(post_write(VF_RET, VF_OLD(var))) VF_ASSIGNS(__CPROVER_object_whole(g_mem));
#endif

#ifdef CUT
/* unbounded enumerations, see nav.c: only the enumerator at the cut index g_i is materialised; g_m is the first match */
struct metac_type_enumerator_info g_cell; int g_i, g_m, g_cnt;
int vf_hv_idx(void) { return g_i; }
int vf_inv_idx(int i) { return i >= 0 && i <= g_m; }
void harness(void) {
    g_cnt = (int)vf_range(0, 0x7fffffff); g_m = (int)vf_range(0, 0x7fffffff); g_i = (int)vf_range(0, 0x7fffffff);
    VF_ASSUME(g_m <= g_cnt);
    int64_t v = (int64_t)vf_u64(), c = (int64_t)vf_u64();
#if MODE == 3
#define MATCH (c == v)
#else
#define MATCH (c < 0)
#endif
    if (g_i < g_m) VF_ASSUME(!MATCH);
    if (g_i == g_m && g_m < g_cnt) VF_ASSUME(MATCH);
    g_cell.name = (metac_name_t)(vf_bool() ? nm[1] : nm[2]); g_cell.const_value = c;
    metac_entry_t en = {.kind = METAC_KND_enumeration_type, .name = "e", .enumeration_type_info = {.byte_size = SZ, .enumerators_count = g_cnt,
        .enumerators = (struct metac_type_enumerator_info *)((char *)&g_cell - (uint64_t)g_i * sizeof(g_cell))}};
    metac_entry_t td = VF_TYPEDEF("e_t", &en);
    metac_entry_t var = VF_VAR("v", &td);
    metac_entry_t *e = vf_bool() ? &var : &en;
#if MODE == 3
    metac_name_t n = metac_entry_enumeration_to_name(e, v);
    VF_CHECK(g_m == g_cnt ? n == NULL : g_i == g_m && n == g_cell.name, "a number maps to the first enumerator declared with it, or to nothing");
    if (n) { VF_REACH("found"); } else { VF_REACH("absent"); }
#else
    vf_bytes(g_mem, NB);
    g_val = metac_new_value(e, g_mem);
    VF_ASSUME(g_val != NULL);
    int r = metac_value_enumeration(g_val, &g_out);
    uint64_t u = 0;
    for (int i = 0; i < SZ; ++i) u |= (uint64_t)g_mem[i] << (8 * i);
#if SZ < 8
    if (g_m < g_cnt && (u >> (8 * SZ - 1))) u |= ~0ull << (8 * SZ);
#endif
    VF_CHECK(r == 0 && g_out == (int64_t)u, "the stored integer, sign-extended iff an enumerator is negative");
    if (g_m < g_cnt) { VF_REACH("signed"); } else { VF_REACH("unsigned"); }
#endif
}
#else
void harness(void) {
    vf_bytes(g_mem, NB);
    for (int i = 0; i < NE; ++i) { g_en[i].name = (metac_name_t)nm[i]; g_en[i].const_value = (int64_t)vf_u64(); }
    metac_entry_t en = {.kind = METAC_KND_enumeration_type, .name = "e", .enumeration_type_info = {.byte_size = SZ, .enumerators_count = NE, .enumerators = g_en}};
#if SZ == 3 || SZ == 0 || SZ == 16
    g_bad = 1;                     /* no integer of that size */
#else
    g_bad = 0;
#endif
    metac_entry_t td = VF_TYPEDEF("e_t", &en);
    metac_entry_t q = VF_QUAL(METAC_KND_volatile_type, &td);
    metac_entry_t arr = VF_ARR(&en, 2);
    metac_entry_t var = VF_VAR("v", &q);
#ifdef BITF
    metac_size_t bs; metac_offset_t db;
    g_S = vf_range(1, 8 * SZ); g_D = vf_range(0, 8 * NB - 1);
    VF_ASSUME(g_D + g_S <= 8 * NB);
    uint64_t B = vf_range(0, NB - 1);
    bs = g_S; db = g_D; g_off = B;
    metac_entry_t mem = {.kind = METAC_KND_member, .name = "m", VF_T0(&td) .member_info = {.type = &td, .byte_offset = B, .p_bit_size = &bs, .p_data_bit_offset = &db}};
    metac_entry_t *e = &mem;
#else
    g_off = vf_range(0, NB - (SZ ? SZ : 1));
    metac_entry_t mem = VF_MEMBER("m", &td, g_off);
    uint64_t sh = vf_range(0, 3);
    metac_entry_t *e = sh == 0 ? &en : sh == 1 ? &var : sh == 2 ? &mem : &arr;
    if (sh == 3) g_bad = 1;        /* not an enumeration */
#endif
    memcpy(g_old, g_mem, NB);
    g_val = metac_new_value(e, g_mem + g_off);
    VF_ASSUME(g_val != NULL);
#if MODE == 1
    g_k = vf_range(0, 63);
    g_out = (int64_t)vf_u64(); g_out0 = g_out;
    int r = metac_value_enumeration(g_val, &g_out);
    VF_CHECK(post_read(r), "reading an enumeration returns the stored integer");
    VF_CHECK(memcmp(g_mem, g_old, NB) == 0, "reading leaves memory alone");
    if (r == 0 || SZ == 3) { VF_REACH("end"); }
#elif MODE == 2
    g_k = vf_range(0, NB - 1);
    int64_t v = (int64_t)vf_u64();
    int r = metac_value_set_enumeration(g_val, v);
    VF_CHECK(post_write(r, v), "writing an enumeration stores exactly its bytes (or bits) and nothing else");
    if (r == 0 || SZ == 3) { VF_REACH("end"); }
#ifndef BITF
    if (r == 0) {
        int64_t b = 0;
        VF_CHECK(metac_value_enumeration(g_val, &b) == 0 && (!fits(v) || b == v), "what was written is read back");
    }
#endif
#elif MODE == 3
    int64_t v = (int64_t)vf_u64();
    metac_name_t n = metac_entry_enumeration_to_name(e, v), n2 = metac_value_enumeration_to_name(g_val, v);
    metac_name_t want = NULL;
    if (!g_bad) for (int i = NE - 1; i >= 0; --i) if (g_en[i].const_value == v) want = g_en[i].name;
    VF_CHECK(n == want && n2 == want, "a number maps to the first enumerator declared with it, or to nothing");
    VF_REACH("end");
#elif MODE == 4
    metac_num_t id = (metac_num_t)vf_u64();
    int64_t cnt = metac_entry_enumeration_info_size(e);
    VF_CHECK(cnt == (g_bad ? 0 : NE) && metac_value_enumeration_info_size(g_val) == cnt, "enumerator count");
    struct metac_type_enumerator_info const *i1 = metac_entry_enumeration_info(e, id), *i2 = metac_value_enumeration_info(g_val, id);
    struct metac_type_enumerator_info const *want = NULL;
    for (int i = 0; i < NE; ++i) if (!g_bad && id == i) want = &g_en[i];
    VF_CHECK(i1 == want && i2 == want, "an enumerator is found at exactly its index");
    VF_CHECK((metac_entry_is_enumeration(e) != 0) == !g_bad && (metac_value_is_enumeration(g_val) != 0) == !g_bad, "enumerations are recognised");
    VF_REACH("end");
#elif MODE == 5 || MODE == 6
    vf_bytes(g_mem2, NB);
    g_off2 = vf_range(0, NB - SZ);
    memcpy(g_old2, g_mem2, NB);
    g_val2 = metac_new_value(&var, g_mem2 + g_off2);
    VF_ASSUME(g_val2 != NULL);
#if MODE == 5
    int r = metac_value_equal_enumeration(g_val, g_val2);
    VF_CHECK(g_bad ? r < 0 : r == (stored(g_old, g_off) == stored(g_old2, g_off2)), "enumerations compare by value");
    VF_CHECK(g_bad ? metac_value_equal_enumeration(g_val2, g_val) < 0 : metac_value_equal_enumeration(g_val2, g_val) == r, "symmetric");
    VF_CHECK(memcmp(g_mem2, g_old2, NB) == 0, "comparison changes nothing");
#else
    metac_value_t *r = metac_value_copy_enumeration(g_val, g_val2);
    g_k = vf_range(0, NB - 1);
    VF_CHECK(g_bad ? r == NULL : r == g_val2, "copy succeeds exactly on enumerations");
    VF_CHECK(!g_bad && g_k >= g_off2 && g_k < g_off2 + SZ ? g_mem2[g_k] == g_old[g_off + g_k - g_off2] : g_mem2[g_k] == g_old2[g_k], "copy transfers exactly the value");
#endif
    VF_CHECK(memcmp(g_mem, g_old, NB) == 0, "source untouched");
    VF_REACH("end");
    metac_value_delete(g_val2);
#elif MODE == 7
    metac_num_t n = 0;
    int r = metac_value_num(g_val, &n);
    VF_CHECK(g_bad ? r != 0 : r == 0 && n == (metac_num_t)stored(g_old, g_off), "an enumeration converts to its value");
    VF_REACH("end");
#elif MODE == 8
    /* make a match likely */
    int64_t v = vf_bool() && NE ? g_en[vf_range(0, NE - 1)].const_value : (int64_t)vf_u64();
    if (!g_bad) VF_ASSUME(fits(v) && metac_value_set_enumeration(g_val, v) == 0);
    char *t = metac_value_enumeration_string(g_val), want[64];
    snprintf(want, sizeof(want), "%lld", (long long)v);
    const char *w = want;
    for (int i = NE - 1; i >= 0; --i) if (g_en[i].const_value == v) w = g_en[i].name;
    VF_CHECK(g_bad ? t == NULL : t != NULL && strcmp(t, w) == 0, "text of an enumeration is its first name or the decimal number");
    free(t);
    VF_CHECK(metac_value_enumeration_string(NULL) == NULL, "no value, no text");
#endif
    metac_value_delete(g_val);

}
#endif
