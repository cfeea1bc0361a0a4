/* C19: pointer values.  MODE 1 read, 2 write, 3 equal, 4 copy, 5 predicates and pointed-to type, 6 loop detection, 7 text (native), 8 missing arguments */
#include "ent.h"
#include <stdio.h>
#include "metac/backend/iterator.h"
#include "metac/backend/value.h"
metac_entry_t e_int;          /* built in the harness: contract enforcement havocs static objects */
void *g_slot[4], *g_old[4], *g_slot2[4], *g_old2[4];
char g_obj[64];
uint64_t g_i, g_i2, g_k;
int g_bad, g_bad2;
void *g_out, *g_out0;
metac_value_t *g_val, *g_val2;
static void *anyp(void) { uint64_t o = vf_range(0, 64); return o == 64 ? NULL : (void *)(g_obj + o); }
static int post_read(int r) { return g_bad ? r != 0 && g_out == g_out0 : r == 0 && g_out == g_old[g_i]; }
static int post_write(int r, void *p) { return (r == 0) == !g_bad && g_slot[g_k] == (!g_bad && g_k == g_i ? p : g_old[g_k]); }
#if MODE == 1
int metac_value_pointer(metac_value_t *p_val, void **pp_addr) VF_REQUIRES(p_val == g_val && pp_addr == &g_out) VF_ENSURES(post_read(VF_RET)) VF_ASSIGNS(g_out);
#elif MODE == 2
int metac_value_set_pointer(metac_value_t *p_val, void *addr) VF_REQUIRES(p_val == g_val) VF_ENSURES(post_write(VF_RET, VF_OLD(addr))) VF_ASSIGNS(__CPROVER_object_whole(g_slot));
#elif MODE == 3
int metac_value_equal_pointer(metac_value_t *a, metac_value_t *b) VF_REQUIRES(a == g_val && b == g_val2) VF_ENSURES(g_bad || g_bad2 ? VF_RET < 0 : VF_RET == (g_old[g_i] == g_old2[g_i2])) VF_ASSIGNS();
#endif
#if MODE == 6
#if DEPTH == 0    /* modular and unbounded: the iterator's level and path lookup by contract (C07), the search loop by invariant */
int g_level, g_m; void *g_p, *g_lslot;
metac_value_t *g_pv, *g_nv, *g_top;
int metac_recursive_iterator_level(metac_recursive_iterator_t *it) { return g_level; }
void *metac_recursive_iterator_get_in(metac_recursive_iterator_t *it, int l) {
    if (l == 0) return g_top;
    if (l < 0 || l > g_level) return NULL;
    uint64_t w = vf_hv();
    if (l == g_m) { g_lslot = g_p; return g_pv; }
    if (w == 0) return NULL;
    if (w == 1) return g_nv;
    g_lslot = w == 2 ? NULL : (void *)(g_obj + (w & 63));
    if (l < g_m) VF_ASSUME(g_lslot != g_p);
    return g_pv;
}
int vf_inv_loop(int l) { return l >= 1 && l <= g_m && l <= g_level + 1; }
#endif
#endif
void harness(void) {
    metac_entry_t e_int_ = VF_BASE("int", METAC_ENC_signed, 4);
    e_int = e_int_;
    for (int i = 0; i < 4; ++i) { g_slot[i] = anyp(); g_old[i] = g_slot[i]; }
    uint64_t kind = vf_range(0, 5);
    int decl = vf_bool();
    metac_entry_t st = VF_STRUCT(METAC_KND_struct_type, "fwd", 0, 0, NULL);
    st.declaration = decl;
    metac_entry_t ctd = VF_QUAL(METAC_KND_const_type, &st);
    metac_entry_t pi = VF_PTR(&e_int), pv = VF_PTR(NULL), ps = VF_PTR(&st), pc = VF_PTR(&ctd);
    metac_entry_t ar = VF_ARR(&pi, 2);
    metac_entry_t *f = kind == 0 ? &pi : kind == 1 ? &pv : kind == 2 ? &ps : kind == 3 ? &pc : kind == 4 ? &ar : &e_int;
    g_bad = kind >= 4;
    g_i = vf_range(0, 3);
    metac_entry_t td = VF_TYPEDEF("p_t", f);
    metac_entry_t q = VF_QUAL(METAC_KND_restrict_type, &td);
    metac_entry_t var = VF_VAR("v", &q);
    metac_entry_t mem = VF_MEMBER("m", &q, 8);
    metac_entry_t par = VF_PARAM("p", &td);
    uint64_t sh = vf_range(0, 4);
    metac_entry_t *e = sh == 0 ? f : sh == 1 ? &td : sh == 2 ? &var : sh == 3 ? &mem : &par;
    g_val = metac_new_value(e, &g_slot[g_i]);
    VF_ASSUME(g_val != NULL);
#if MODE == 1
    g_out = anyp(); g_out0 = g_out;
    int r = metac_value_pointer(g_val, &g_out);
    VF_CHECK(post_read(r), "reading a pointer returns exactly the stored address; anything else is refused");
    for (int i = 0; i < 4; ++i) VF_CHECK(g_slot[i] == g_old[i], "memory untouched");
    if (r == 0) { VF_REACH("ok"); } else { VF_REACH("refused"); }
#elif MODE == 2
    g_k = vf_range(0, 3);
    void *p = anyp();
    int r = metac_value_set_pointer(g_val, p);
    VF_CHECK(post_write(r, p), "writing a pointer stores exactly the address and nothing else");
    if (r == 0) { VF_REACH("ok"); } else { VF_REACH("refused"); }
#elif MODE == 3 || MODE == 4
    for (int i = 0; i < 4; ++i) { g_slot2[i] = anyp(); g_old2[i] = g_slot2[i]; }
    g_i2 = vf_range(0, 3);
    g_bad2 = vf_bool();
    metac_entry_t var2 = VF_VAR("w", g_bad2 ? &e_int : &pi);
    g_val2 = metac_new_value(&var2, &g_slot2[g_i2]);
    VF_ASSUME(g_val2 != NULL);
#if MODE == 3
    int r = metac_value_equal_pointer(g_val, g_val2);
    VF_CHECK(g_bad || g_bad2 ? r < 0 : r == (g_old[g_i] == g_old2[g_i2]), "pointers are equal exactly when they hold the same address");
    if (r == 1) { VF_REACH("equal"); } else if (r == 0) { VF_REACH("different"); } else { VF_REACH("refused"); }
#else
    metac_value_t *r = metac_value_copy_pointer(g_val, g_val2);
    VF_CHECK(r == (g_bad || g_bad2 ? NULL : g_val2), "copy succeeds exactly between pointers");
    for (int i = 0; i < 4; ++i) VF_CHECK(g_slot2[i] == (!g_bad && !g_bad2 && i == g_i2 ? g_old[g_i] : g_old2[i]), "copy stores exactly the address");
    if (r) { VF_REACH("ok"); } else { VF_REACH("refused"); }
#endif
    for (int i = 0; i < 4; ++i) VF_CHECK(g_slot[i] == g_old[i], "source untouched");
    metac_value_delete(g_val2);
#elif MODE == 5
    VF_CHECK((metac_entry_is_pointer(e) != 0) == !g_bad && (metac_value_is_pointer(g_val) != 0) == !g_bad, "pointers are recognised");
    VF_CHECK((metac_entry_is_void_pointer(e) != 0) == (kind == 1) && (metac_value_is_void_pointer(g_val) != 0) == (kind == 1), "untyped pointers are recognised");
    int wd = kind == 2 && decl;
    VF_CHECK((metac_entry_is_declaration_pointer(e) != 0) == wd && (metac_value_is_declaration_pointer(g_val) != 0) == wd, "pointers to incomplete types are recognised");
    VF_CHECK(metac_entry_pointer_entry(e) == (kind == 0 ? &e_int : kind == 2 ? &st : kind == 3 ? &ctd : NULL), "pointed-to type");
    VF_CHECK(!metac_entry_is_pointer(NULL) && !metac_entry_is_void_pointer(NULL) && !metac_entry_is_declaration_pointer(NULL) && metac_entry_pointer_entry(NULL) == NULL &&
        !metac_value_is_pointer(NULL) && !metac_value_is_void_pointer(NULL) && !metac_value_is_declaration_pointer(NULL), "nothing is no pointer");
    VF_REACH("end");
#elif MODE == 6
#if DEPTH == 0
    g_level = (int)vf_range(0, 1 << 30);
    g_m = (int)vf_range(1, (1 << 30) + 1);
    VF_ASSUME(g_m <= g_level + 1);
    metac_entry_t pte = VF_VAR("q", &pi), nte = VF_VAR("i", &e_int);
    g_p = anyp(); g_lslot = NULL;
    void *slot = g_p;
    int isp = vf_bool();
    g_pv = metac_new_value(&pte, &g_lslot); g_nv = metac_new_value(&nte, &g_old); g_top = metac_new_value(isp ? &pte : &nte, &slot);
    VF_ASSUME(g_pv && g_nv && g_top);
    int r = metac_value_level_introduced_loop((metac_recursive_iterator_t *)g_obj);
    VF_CHECK(r == (isp && g_m <= g_level ? g_m : -1), "a loop is reported exactly at the nearest enclosing pointer to the same address");
    if (r > 0) { VF_REACH("loop"); } else { VF_REACH("no loop"); }
#else
    /* a walk of DEPTH+1 nested values, each a pointer or not: the loop level is the nearest enclosing pointer with the same address */
    metac_entry_t pte = VF_VAR("q", &pi), nte = VF_VAR("i", &e_int);
    static void *val[DEPTH + 1];
    int isp[DEPTH + 1], own[DEPTH + 1];
    metac_value_t *vs[DEPTH + 1];
    for (int i = 0; i <= DEPTH; ++i) { uint64_t w = vf_range(0, 3); val[i] = w == 3 ? NULL : (void *)(g_obj + w); isp[i] = vf_bool();
        own[i] = i == 0 || vf_range(0, 3) != 0;   /* a step down may hand on the value it was given */
        if (!own[i]) { val[i] = val[i - 1]; isp[i] = isp[i - 1]; vs[i] = vs[i - 1]; continue; }
        vs[i] = metac_new_value(isp[i] ? &pte : &nte, &val[i]); VF_ASSUME(vs[i] != NULL); }
    metac_recursive_iterator_t *it = metac_new_recursive_iterator(vs[0]);
    VF_ASSUME(it != NULL);
    for (int i = 0; i <= DEPTH; ++i) {
        VF_CHECK(metac_recursive_iterator_next(it) == vs[i], "walk goes down");
        int want = -1;
        if (isp[i]) for (int j = 0; j < i; ++j) if (isp[j] && val[j] == val[i]) want = i - j;
        VF_CHECK(metac_value_level_introduced_loop(it) == want, "a loop is reported exactly at the nearest enclosing pointer to the same address");
        if (i < DEPTH) VF_ASSUME(metac_recursive_iterator_create_and_append_dep(it, vs[i + 1]) == 0);
    }
    VF_REACH("end");
    for (int i = DEPTH; i >= 0; --i) {
        metac_recursive_iterator_done(it, vs[i]);
        if (i > 0) { metac_recursive_iterator_next(it); metac_recursive_iterator_dequeue_and_delete_dep(it, NULL, NULL); }
    }
    metac_recursive_iterator_free(it);
    for (int i = 0; i <= DEPTH; ++i) if (own[i]) metac_value_delete(vs[i]);
#endif
#elif MODE == 7
    char want[64], *t = metac_value_pointer_string(g_val);
    if (g_slot[g_i]) snprintf(want, sizeof(want), "%p", g_slot[g_i]); else strcpy(want, "NULL");
    VF_CHECK(g_bad ? t == NULL : t && strcmp(t, want) == 0, "text of a pointer is NULL or its address");
    VF_CHECK(metac_value_pointer_string(NULL) == NULL, "no value, no text");
    free(t);
#elif MODE == 8
    VF_CHECK(metac_value_pointer(NULL, &g_out) != 0 && metac_value_pointer(g_val, NULL) != 0 && metac_value_set_pointer(NULL, g_obj) != 0, "missing arguments are refused");
    VF_CHECK(metac_value_equal_pointer(NULL, g_val) < 0 && metac_value_equal_pointer(g_val, NULL) < 0 && metac_value_copy_pointer(NULL, g_val) == NULL && metac_value_copy_pointer(g_val, NULL) == NULL, "missing arguments are refused");
    for (int i = 0; i < 4; ++i) VF_CHECK(g_slot[i] == g_old[i], "memory untouched");
    VF_REACH("end");
#endif
    metac_value_delete(g_val);
}
