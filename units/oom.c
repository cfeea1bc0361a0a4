/* C18: one allocation fails at a pseudo-random point inside an operation (native).
 *  OP 1 string  2 copy (shared blocks)  3 copy (tree)  4 delete  5 compare  6 declarations */
#include "graph.h"
#include "memw.h"
static metac_value_memory_map_mode_t mode;
static long user_live; static struct { void *p; } ub[2048]; static int nub;
static void *u_calloc(size_t a, size_t b) { void *p = calloc(a, b ? b : 1); if (p) { VF_ASSUME(nub < 2048); ub[nub++].p = p; ++user_live; } return p; }
static void u_free(void *p) { for (int i = 0; i < nub; ++i) if (ub[i].p == p) { ub[i].p = NULL; --user_live; free(p); return; } VF_CHECK(0, "the allocator's own free gets only its blocks"); }
static int nfreed; static void *fr[64];
static void r_free(void *p) { VF_CHECK(nfreed < 64, "freed"); fr[nfreed++] = p; }
static int full; static char *keep;
static int op(metac_value_t *s, metac_value_t *d, metac_tag_map_t *tm, long k, int what) {   /* 1 success, 0 failure */
    int r = 0; nub = 0; user_live = 0; nfreed = 0;
    mw_begin(k);
#if OP == 1
    char *x = metac_value_string_ex(s, what ? METAC_WMODE_deep : METAC_WMODE_shallow, tm);
    r = x != NULL; VF_CHECK(mw_live == r, "nothing is leaked");
    if (!k) keep = x; else if (x) { VF_CHECK(keep && !strcmp(keep, x), "when it doesn't report a failure, the string is complete"); free(x); }
#elif OP == 2 || OP == 3
#ifdef CALL
    mw_end(); metac_parameter_storage_t *ds = metac_new_parameter_storage(); d = metac_new_value(&g_c.fn, ds); mw_begin(k);
    metac_value_t *x = metac_value_copy_ex(s, d, &mode, u_calloc, u_free, tm);
    metac_parameter_storage_delete(ds);
#else
    metac_value_t *x = metac_value_copy_ex(s, d, &mode, u_calloc, u_free, tm);
#endif
    r = x != NULL; VF_CHECK(x == NULL || x == d, "result"); VF_CHECK(mw_live == (r ? user_live : 0), "nothing is leaked"); VF_CHECK(r || user_live == 0, "blocks of a failed copy are released by the given function");
    mw_end(); for (int i = 0; i < nub; ++i) if (ub[i].p) free(ub[i].p);
#ifdef CALL
    metac_value_delete(d);
#endif
#elif OP == 4
    metac_value_memory_map_non_handled_mode_t m = {.unknown_ptr_mode = g_upmode, .union_mode = g_unmode, .flex_array_mode = g_flx};
    r = metac_value_free_ex(s, &m, r_free, tm);
    VF_CHECK(mw_live == 0, "nothing is leaked"); VF_CHECK(r || nfreed == 0, "a failed delete frees nothing");
    if (!k) full = nfreed; else if (r) VF_CHECK(nfreed == full, "when it doesn't report a failure, everything is freed");
#elif OP == 5
    int x = metac_value_equal_ex(s, d, &mode, tm);
    r = x >= 0; VF_CHECK(mw_live == 0, "nothing is leaked"); if (!k) full = x; else if (r) VF_CHECK(x == full, "when it doesn't report a failure, the answer is right");
#elif OP == 6
    char *x = metac_entry_cdecl(metac_value_entry(s));
    r = x != NULL; VF_CHECK(mw_live == r, "nothing is leaked");
    if (!k) keep = x; else if (x) { VF_CHECK(keep && !strcmp(keep, x), "when it doesn't report a failure, the text is complete"); free(x); }
#endif
    mw_end();
    return r;
}
void harness(void) {
    g_opt = 0; g_upmode = (int)vf_range(METAC_UPTR_fail, METAC_UPTR_as_one_byte_ptr); g_unmode = (int)vf_range(METAC_UNION_fail, METAC_UNION_as_mem); g_dag = OP != 3;
    int what = (int)vf_range(0, 1); keep = NULL;
#if OP == 1
    g_upmode = METAC_UPTR_as_values;
#endif
    mode = (metac_value_memory_map_mode_t){.memory_block_mode = g_dag ? METAC_MMODE_dag : METAC_MMODE_tree, .unknown_ptr_mode = g_upmode, .union_mode = g_unmode, .flex_array_mode = g_flx};
    g_build(OP == 1 ? 0 : (int)vf_range(0, 3));
    metac_tag_map_t *tm = g_tags(); VF_CHECK(tm != NULL, "tags");
#if OP == 6
    for (int i = 0; i < g_nst; ++i) if (vf_bool()) { g_st[i]->e->name = NULL; for (int j = 0; j < g_st[i]->nf; ++j) if (g_st[i]->f[j].t->k == G_PTR && g_st[i]->f[j].t->e->kind == METAC_KND_pointer_type) g_st[i]->f[j].t->e->pointer_type_info.type = NULL; }
    for (int i = 0; i < g_nt; ++i) if (g_ty[i].k == G_PTR && g_ty[i].e->kind == METAC_KND_pointer_type && g_ty[i].el && g_ty[i].el->k == G_STRUCT) g_ty[i].e->pointer_type_info.type = NULL;
    static metac_entry_t ps[4], fn, ft, vr, fp; 
    for (int i = 0; i < 3; ++i) ps[i] = (metac_entry_t)VF_PARAM(i ? "prm" : NULL, g_ty[vf_range(0, g_nt - 1)].e);
    memset(&ps[3], 0, sizeof(ps[3])); ps[3].kind = METAC_KND_func_parameter; ps[3].func_parameter_info.unspecified_parameters = 1;
    ft = (metac_entry_t)VF_FUNC(METAC_KND_subroutine_type, NULL, g_ty[vf_range(0, g_nt - 1)].e, (int)vf_range(0, 4), ps);
    fp = (metac_entry_t)VF_PTR(&ft);
    fn = (metac_entry_t)VF_FUNC(METAC_KND_subprogram, "a_function_with_a_rather_long_name", vf_bool() ? &fp : NULL, (int)vf_range(0, 4), ps);
    metac_entry_t *es[6] = {g_rt->e, &ft, &fp, &fn, &vr, g_ty[vf_range(0, g_nt - 1)].e}; vr = (metac_entry_t)VF_VAR("v", vf_bool() ? &fp : g_rt->e);
    metac_value_t *s = metac_new_value(es[vf_range(0, 5)], g_root);
#elif defined CALL
    c_build(); metac_parameter_storage_t *ss = c_store(g_root); metac_value_t *s = metac_new_value(&g_c.fn, ss);
#else
    metac_value_t *s = metac_new_value(g_rt->e, g_root);
#endif
#if defined CALL
    metac_parameter_storage_t *s2 = c_store(g_root); metac_value_t *d = metac_new_value(&g_c.fn, s2);
#elif OP == 5
    if (what) { memcpy(g_dst, g_root, sizeof(g_root)); }
    metac_value_t *d = metac_new_value(g_rt->e, what ? g_dst : g_root);
#else
    metac_value_t *d = metac_new_value(g_rt->e, g_dst);
#endif
    uint64_t h = g_hash();
    int ok = op(s, d, tm, 0, what);
    long k = (long)vf_range(1, 12); if (vf_bool()) k = (long)vf_range(1, 120);
    int r = op(s, d, tm, k, what);
    if (ok && !mw_failed) VF_CHECK(r, "without a failure it works as before");
    VF_CHECK(g_hash() == h, "existing values are unchanged");
    { char *o = keep; int okk = op(s, d, tm, 0, what); VF_CHECK(okk == ok, "and usable"); if (o) free(o); }
    if (keep) free(keep); keep = NULL;
#ifdef CALL
    metac_parameter_storage_delete(ss); metac_parameter_storage_delete(s2);
#endif
    metac_value_delete(s); metac_value_delete(d); metac_tag_map_delete(tm); g_drop();
}
