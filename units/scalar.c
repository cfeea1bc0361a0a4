/* C01: scalar read / write / test / compare / copy / widen.
 * -DT=<C type> -DGET/-DSET/-DEIS/-DVIS=<accessors> -DNAME="<DWARF name>" -DENC=<encoding> -DALT_ENC=<|| enc==..> -DSIG(i)=<byte i significant>
 * -DMODE=1 read, 2 write, 3 type test, 4 equal, 5 copy, 6 widen to number
 */
#include "ent.h"
#include <complex.h>
#include <stdbool.h>
#ifndef SIGB
#define SIGB 64
#endif
#define SIG(i) ((i) % 16 < SIGB)
#define NB 48
#define NL 25                    /* longest type name considered; every accepted name is shorter */

uint8_t g_mem[NB], g_old[NB], g_mem2[NB], g_old2[NB];
uint64_t g_off, g_off2, g_k;
int g_match, g_const, g_isconst2, g_match2;
T g_out, g_out0;
metac_num_t g_num;
metac_value_t *g_val, *g_val2;
char g_name[NL + 1];

static int name_is(const char *n, const char *want) {
    for (int i = 0; i <= NL; ++i) { if (n[i] != want[i]) return 0; if (n[i] == 0) return 1; }
    return 0;
}
/* byte k of the output equals byte k of memory, for every significant k (Skolem index g_k) */
static int post_get(int r, T *p) {
    const uint8_t *o = (const uint8_t *)p, *o0 = (const uint8_t *)&g_out0;
    if (!SIG(g_k)) return (r == 0) == g_match;
    if (!g_match) return r != 0 && o[g_k] == o0[g_k];
    return r == 0 && o[g_k] == g_old[g_off + g_k];
}
static int post_set(int r, const T *v) {
    int ok = g_match && !g_const;
    if ((r == 0) != ok) return 0;
    if (ok && g_k >= g_off && g_k < g_off + sizeof(T))
        return !SIG(g_k - g_off) || g_mem[g_k] == ((const uint8_t *)v)[g_k - g_off];
    return g_mem[g_k] == g_old[g_k];
}
#if MODE == 1
int GET(metac_value_t *p_val, T *p_var) VF_REQUIRES(p_val == g_val && p_var == &g_out) VF_ENSURES(post_get(VF_RET, p_var)) VF_ASSIGNS(g_out);
#elif MODE == 2
int SET(metac_value_t *p_val, T var) VF_REQUIRES(p_val == g_val) VF_ASSIGNS(__CPROVER_object_whole(g_mem));
#elif MODE == 3
metac_flag_t EIS(metac_entry_t *p_entry) VF_ENSURES((VF_RET != 0) == g_match) VF_ASSIGNS();
#elif MODE == 4
static T t_of(const uint8_t *m) { T t; memcpy(&t, m, sizeof(T)); return t; }
static int post_eq(int r) {
    if (!g_match || !g_match2) return r < 0;
    return r == (t_of(g_old + g_off) == t_of(g_old2 + g_off2) ? 1 : 0);
}
int metac_value_equal_base_type(metac_value_t *a, metac_value_t *b) VF_REQUIRES(a == g_val && b == g_val2) VF_ENSURES(post_eq(VF_RET)) VF_ASSIGNS();
#elif MODE == 5
static int post_copy(metac_value_t *r) {
    int ok = g_match && g_match2 && !g_isconst2;
    if (ok ? r != g_val2 : r != NULL) return 0;
    if (ok && g_k >= g_off2 && g_k < g_off2 + sizeof(T))
        return !SIG(g_k - g_off2) || g_mem2[g_k] == g_old[g_off + g_k - g_off2];
    return g_mem2[g_k] == g_old2[g_k];
}
metac_value_t *metac_value_copy_base_type(metac_value_t *a, metac_value_t *b) VF_REQUIRES(a == g_val && b == g_val2) VF_ENSURES(post_copy(VF_RET)) VF_ASSIGNS(__CPROVER_object_whole(g_mem2));
#elif MODE == 6
static int post_num(int r) {
    T t;
    if (!g_match) return r != 0;
    memcpy(&t, g_old + g_off, sizeof(T));
    return r == 0 && g_num == (metac_num_t)t;
}
int metac_value_num(metac_value_t *v, metac_num_t *n) VF_REQUIRES(v == g_val && n == &g_num) VF_ENSURES(post_num(VF_RET)) VF_ASSIGNS(g_num);
#endif

void harness(void) {
    vf_bytes(g_mem, NB);
#if MODE == 4
    g_off = 16;
#else
    g_off = vf_range(0, NB - sizeof(T));
#endif
    /* the description: any base type (any name, encoding, size) ... */
    uint64_t sz = vf_range(0, 32), enc = vf_range(0, 32);
#if MODE <= 3
    vf_bytes(g_name, NL + 1);
    g_name[NL] = 0;
#else
#undef g_name
#define g_name (OTHER == 1 ? "#" NAME : NAME)
#endif
    g_match = name_is(g_name, NAME) && (enc == METAC_ENC_undefined || enc == ENC ALT_ENC) && (sz == 0 || sz == sizeof(T));
    metac_entry_t base = VF_BASE(g_name, (metac_encoding_t)enc, sz);
    metac_entry_t ptr = VF_PTR(&base);
    /* ... reached through any of: itself, variable, member, parameter, via typedef and/or qualifier; or not a base type at all */
#if MODE <= 3 || MODE == 7
    int notbase = vf_bool();
#else
    const int notbase = 0;
#endif
    if (notbase) g_match = 0;
    metac_entry_t *fin = notbase ? &ptr : &base;
    uint64_t qk = vf_range(0, 5);
    metac_kind_t qkind = qk == 0 ? METAC_KND_const_type : qk == 1 ? METAC_KND_volatile_type : qk == 2 ? METAC_KND_restrict_type :
                         qk == 3 ? METAC_KND_mutable_type : qk == 4 ? METAC_KND_shared_type : METAC_KND_packed_type;
    metac_entry_t q = VF_QUAL(qkind, fin);
    int hasq = vf_bool();
    g_const = hasq && qk == 0;
    metac_entry_t td = VF_TYPEDEF("td_t", hasq ? &q : fin);
#if MODE <= 3
    int hastd = vf_bool();
#else
    const int hastd = 1;
#endif
#if MODE == 2    /* a second qualifier outside the typedef */
    uint64_t q2k = vf_range(0, 2);
    metac_entry_t q2 = VF_QUAL(q2k == 0 ? METAC_KND_const_type : q2k == 1 ? METAC_KND_volatile_type : METAC_KND_restrict_type, &td);
    int hasq2 = vf_bool();
    if (hasq2 && q2k == 0) g_const = 1;
    metac_entry_t *top = hasq2 ? &q2 : hastd ? &td : hasq ? &q : fin;
#else
    metac_entry_t *top = hastd ? &td : hasq ? &q : fin;
#endif
    metac_entry_t var = VF_VAR("v", top);
    metac_entry_t mem = VF_MEMBER("m", top, g_off);
    metac_entry_t par = VF_PARAM("p", top);
#if MODE <= 3
    uint64_t sh = vf_range(0, 3);
#else
    const uint64_t sh = SHAPE;
#endif
    metac_entry_t *e = sh == 0 ? top : sh == 1 ? &var : sh == 2 ? &mem : &par;
#ifdef BOOLV
    VF_ASSUME(g_mem[g_off] <= 1);
#endif
    memcpy(g_old, g_mem, NB);
    g_val = metac_new_value(e, g_mem + g_off);
    VF_ASSUME(g_val != NULL);

#if MODE == 1
    g_k = vf_range(0, sizeof(T) - 1);
    vf_bytes(&g_out, sizeof(T));
    memcpy(&g_out0, &g_out, sizeof(T));
    int r = GET(g_val, &g_out);
    VF_CHECK(post_get(r, &g_out), "read returns exactly the stored bytes, or refuses another type and leaves the output alone");
    VF_CHECK(memcmp(g_mem, g_old, NB) == 0, "read leaves memory alone");
    if (r == 0) { VF_REACH("ok"); } else { VF_REACH("refused"); }
#elif MODE == 2
    T v;
    vf_bytes(&v, sizeof(T));
#ifdef BOOLV
    VF_ASSUME(*(uint8_t *)&v <= 1);
#endif
    g_k = vf_range(0, NB - 1);
    int r = SET(g_val, v);
    VF_CHECK(post_set(r, &v), "write stores exactly the value and nothing else, or refuses (another type, const) and changes nothing");
    if (r == 0) { VF_REACH("ok"); } else { VF_REACH("refused"); }
#elif MODE == 3
    int r = EIS(e);
    VF_CHECK((r != 0) == g_match, "type test accepts exactly its type");
    if (r) { VF_REACH("ok"); } else { VF_REACH("refused"); }
#elif MODE == 4 || MODE == 5
    vf_bytes(g_mem2, NB);
#if MODE == 4
    g_off2 = 0;
#else
    g_off2 = vf_range(0, NB - sizeof(T));
#endif
    const int other2 = OTHER == 2;
    g_match2 = !other2;
    metac_entry_t base2 = VF_BASE(OTHER == 2 ? "#" NAME : NAME, ENC, sizeof(T));
    metac_entry_t q2 = VF_QUAL(METAC_KND_const_type, &base2);
    g_isconst2 = vf_bool();
    metac_entry_t var2 = VF_VAR("v2", g_isconst2 ? &q2 : &base2);
#ifdef BOOLV
    VF_ASSUME(g_mem2[g_off2] <= 1);
#endif
#ifdef SAMPLED
    { uint64_t w = vf_range(0, 2);           /* equal and almost equal pairs are as likely as random ones */
      if (w) memcpy(g_mem2 + g_off2, g_mem + g_off, sizeof(T));
      if (w == 2) g_mem2[g_off2 + vf_range(0, sizeof(T) - 1)] ^= 1 << vf_range(0, 7); }
#endif
    memcpy(g_old2, g_mem2, NB);
    g_val2 = metac_new_value(&var2, g_mem2 + g_off2);
    VF_ASSUME(g_val2 != NULL);
    g_k = vf_range(0, NB - 1);
#if MODE == 4
    int r = metac_value_equal_base_type(g_val, g_val2);
    VF_CHECK(post_eq(r), "comparison is C equality of two values of the same type, and an error otherwise");
    #if OTHER == 0
    if (r == 1) { VF_REACH("equal"); } else if (r == 0) { VF_REACH("different"); }
#endif
    if (r < 0) { VF_REACH("refused"); }
    VF_CHECK(memcmp(g_mem2, g_old2, NB) == 0, "comparison leaves memory alone");
#else
    metac_value_t *r = metac_value_copy_base_type(g_val, g_val2);
    VF_CHECK(post_copy(r), "copy stores exactly the source value, or refuses (another type, const) and changes nothing");
#if OTHER == 0
    if (r != NULL) { VF_REACH("ok"); }
#endif
    if (r == NULL) { VF_REACH("refused"); }
#endif
    VF_CHECK(memcmp(g_mem, g_old, NB) == 0, "source untouched");
    metac_value_delete(g_val2);
#elif MODE == 6
    int r = metac_value_num(g_val, &g_num);
    VF_CHECK(post_num(r), "every integer type converts to a number as in C");
    VF_CHECK(memcmp(g_mem, g_old, NB) == 0, "memory untouched");
    if (r == 0) { VF_REACH("ok"); } else { VF_REACH("refused"); }
#elif MODE == 7
    T v;
    vf_bytes(&v, sizeof(T));
    VF_CHECK(GET(NULL, &g_out) != 0, "reading no value is refused");
    VF_CHECK(GET(g_val, NULL) != 0, "reading into nothing is refused");
    VF_CHECK(SET(NULL, v) != 0, "writing no value is refused");
    VF_CHECK((VIS(g_val) != 0) == g_match, "type test on values accepts exactly its type");
    VF_CHECK(EIS(NULL) == 0, "no type");
    VF_CHECK(metac_value_equal_base_type(NULL, g_val) < 0 && metac_value_equal_base_type(g_val, NULL) < 0, "comparing nothing is refused");
    VF_CHECK(metac_value_copy_base_type(NULL, g_val) == NULL && metac_value_copy_base_type(g_val, NULL) == NULL, "copying nothing is refused");
    VF_CHECK(memcmp(g_mem, g_old, NB) == 0, "memory untouched");
    VF_REACH("end");
#endif
    metac_value_delete(g_val);
}
