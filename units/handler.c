/* C14: built-in tag handlers, called the way deep functions call them (metac_value_event_handler_call).
 * MODE 1 count_by, 2 zero-ended string, 3 container_of, 4 union member selection, 5 pointer cast, 6 contexts;
 * 7 (native) count_by over call parameters.  CUT: any number of members (loop cut at an arbitrary one).
 * FAILS (native): one allocation inside the handler fails */
#if MODE == 6
#include <stdlib.h>
#include <string.h>
#define calloc vf_calloc
#define free vf_free
#define strdup vf_strdup
static void *vf_calloc(size_t n, size_t s);
static void vf_free(void *p);
static char *vf_strdup(const char *s);
#include SRC_entry_tag
#undef calloc
#undef free
#undef strdup
#endif
#include "ent.h"
#include "metac/backend/value.h"
#include "metac/backend/iterator.h"
#include "metac/reflect/entry_tag.h"
#include "metac/reflect/value.h"
static metac_entry_t t_int, t_dbl, t_char, t_cchar, t_ctd, t_uchar, t_pint, t_pchar, t_pst, t_st;
static const char *pool[4] = {"n", "nn", "", NULL};
static char s_n[] = "n", s_nn[] = "nn", s_e[] = "";
static char *name(int k) { return k == 0 ? s_n : k == 1 ? s_nn : k == 2 ? s_e : NULL; }
static int eq(const char *a, const char *b) { return a && b && strcmp(a, b) == 0; }
static void init(void) {
    metac_entry_t a = VF_BASE("int", METAC_ENC_signed, 4), b = VF_BASE("double", METAC_ENC_float, 8), c = VF_BASE("char", METAC_ENC_signed_char, 1), uc = VF_BASE("unsigned char", METAC_ENC_unsigned_char, 1);
    metac_entry_t d = {.kind = METAC_KND_const_type, VF_T0(&t_char) .qual_type_info = {.type = &t_char}}, f = {.kind = METAC_KND_typedef, .name = "ch", VF_T0(&t_cchar) .typedef_info = {.type = &t_cchar}};
    metac_entry_t pi = VF_PTR(&t_int), pc = VF_PTR(&t_char), st = VF_STRUCT(METAC_KND_struct_type, "st", 24, 0, NULL), ps = VF_PTR(&t_st);
    t_int = a; t_dbl = b; t_char = c; t_cchar = d; t_ctd = f; t_uchar = uc; t_pint = pi; t_pchar = pc; t_st = st; t_pst = ps;
}
static metac_value_t *g_val, *g_par; static int g_lev;
#ifdef FAILS
#include "memw.h"
#define BEGIN g_k = (long)vf_range(1, 12); mw_begin(0)
/* a failure that is reported selects nothing; one that is not reported changes nothing */
#define SHORT (g_failed && r != 0)
#define SHORTCHECK VF_CHECK(ev.p_return_value == NULL, "out of memory is reported without a result")
#define FINISH VF_CHECK(mw_live == 0, "no leak"); mw_end()
static long g_k; static int g_failed;
#else
#define BEGIN
#define SHORT 0
#define SHORTCHECK
#define FINISH
#endif
#ifdef VF_CBMC
#if MODE <= 5
/* the iterator and the integer reader by the contracts C07 and C01 check */
int metac_recursive_iterator_level(metac_recursive_iterator_t *p) { return g_lev; }
void *metac_recursive_iterator_get_in(metac_recursive_iterator_t *p, int l) { return l == 0 ? (void *)g_val : l == 1 && g_lev > 0 ? (void *)g_par : NULL; }
int metac_value_num(metac_value_t *v, metac_num_t *o) {
    if (o == NULL) return -(EINVAL);
    if (v == NULL || metac_entry_final_entry(metac_value_entry(v), NULL) != &t_int) return -(ENOTSUP);
    *o = *(int *)metac_value_addr(v);
    return 0;
}
#endif
static int call(metac_value_event_handler_t h, metac_value_event_t *ev, void *ctx) { return metac_value_event_handler_call(h, (metac_recursive_iterator_t *)&g_lev, ev, ctx); }
#else
static int call(metac_value_event_handler_t h, metac_value_event_t *ev, void *ctx) {
    metac_recursive_iterator_t *it = metac_new_recursive_iterator(g_lev ? g_par : g_val);
    metac_recursive_iterator_next(it);
    if (g_lev) { metac_recursive_iterator_create_and_append_dep(it, g_val); metac_recursive_iterator_next(it); }
#ifdef FAILS
    if (ev) { mw_count = 0; mw_failed = 0; mw_fail_at = g_k; }
#endif
    int r = metac_value_event_handler_call(h, it, ev, ctx);
#ifdef FAILS
    if (ev) g_failed = (int)mw_failed;
    mw_fail_at = 0;
#endif
    metac_recursive_iterator_done(it, NULL);
    if (g_lev) { metac_recursive_iterator_next(it); metac_recursive_iterator_dequeue_and_delete_dep(it, NULL, NULL); metac_recursive_iterator_done(it, NULL); }
    metac_recursive_iterator_free(it);
    return r;
}
#endif
static metac_value_event_type_t pick_ev(void) { uint64_t k = vf_range(1, 4); return (metac_value_event_type_t)k; }
/* the result is an array of n elements of type t at address a */
static void is_array(metac_value_t *v, metac_entry_t *t, int n, void *a) {
    VF_CHECK(v != NULL, "an array is selected");
    if (v == NULL) return;
    VF_CHECK(metac_value_kind(v) == METAC_KND_array_type && metac_entry_element_entry(metac_value_entry(v)) == t, "of the declared element type");
    VF_CHECK(metac_value_element_count(v) == n, "with exactly the stated number of elements");
    VF_CHECK(metac_value_addr(v) == a, "at the pointed-to address");
}
#if MODE == 1
#ifdef CUT
metac_entry_t g_cell; int g_i, g_m, g_cnt;
int vf_hv_idx(void) { return g_i; }
int vf_inv_idx(int i) { return i >= 0 && i <= g_m; }
#define NM 1
#endif
static int g_data[4 * (NM + 1)]; static int g_obj[4]; static int *g_slot;
void harness(void) {
    init();
    BEGIN;
    metac_value_event_t ev = {.type = pick_ev()};
    int cn = (int)vf_range(0, 4), flex = vf_bool(), nstruct = vf_range(0, 5) == 0;
    struct metac_count_by_context cx = {.counter_sibling_entry_name = name(cn % 4)};
    g_lev = (int)vf_range(0, 1);
    for (int i = 0; i < 4 * (NM + 1); ++i) g_data[i] = (int)vf_u64();
    g_slot = g_obj + vf_range(0, 3);
    metac_entry_t fa = VF_ARR(&t_int, -1);
    static metac_entry_t ms[NM + 1]; int at = -1, num = 0;
#ifdef CUT
    g_cnt = (int)vf_range(0, 0x7fffffff); g_m = (int)vf_range(0, 0x7fffffff); g_i = (int)vf_range(0, 0x7fffffff);
    VF_ASSUME(g_m <= g_cnt);
    int nk = (int)vf_range(0, 3); num = vf_bool();
    if (g_i < g_m) VF_ASSUME(!eq(name(nk), cx.counter_sibling_entry_name));
    if (g_i == g_m && g_m < g_cnt) VF_ASSUME(eq(name(nk), cx.counter_sibling_entry_name));
    metac_entry_t cell = VF_MEMBER(name(nk), num ? &t_int : &t_dbl, 8);
    g_cell = cell;
    metac_entry_t st = VF_STRUCT(METAC_KND_struct_type, "s", 64, g_cnt, (metac_entry_t *)((char *)&g_cell - (uint64_t)g_i * sizeof(g_cell)));
    if (g_m < g_cnt) at = 0;
    int want = g_data[2];
#else
    int want = 0;
    for (int i = 0; i < NM; ++i) {
        int nk = (int)vf_range(0, 3), nu = vf_bool();
        metac_entry_t m = VF_MEMBER(name(nk), nu ? &t_int : &t_dbl, 8 + 8 * i);
        ms[i] = m;
        if (at < 0 && eq(name(nk), cx.counter_sibling_entry_name)) { at = i; num = nu; want = g_data[2 + 2 * i]; }
    }
    metac_entry_t st = VF_STRUCT(METAC_KND_struct_type, "s", 64, NM, ms);
#endif
    metac_entry_t m = VF_MEMBER("p", flex ? &fa : &t_pint, 0);
    metac_entry_t pv = VF_VAR("s", nstruct ? &t_dbl : &st);
    g_val = metac_new_value(&m, flex ? (void *)g_obj : (void *)&g_slot); g_par = metac_new_value(&pv, g_data);
    VF_ASSUME(g_val && g_par);
    int r = call(metac_handle_count_by, &ev, cn == 4 ? NULL : &cx);
    int applies = (ev.type == METAC_RQVST_pointer_array_count || ev.type == METAC_RQVST_flex_array_count) && g_lev > 0;
    if (SHORT) SHORTCHECK;
    else if (!applies) { VF_CHECK(r == 0 && ev.p_return_value == NULL, "other requests are left alone"); VF_REACH("other"); }
    else if (cn >= 2 || nstruct || (at >= 0 && !num)) { VF_CHECK(r != 0 && ev.p_return_value == NULL, "no usable count field: an error"); VF_REACH("error"); }
    else if (at < 0) { VF_CHECK(ev.p_return_value == NULL, "a missing field selects nothing"); VF_REACH("missing"); }
    else { VF_CHECK(r == 0, "handled"); is_array(ev.p_return_value, &t_int, want, flex ? (void *)g_obj : (void *)g_slot); VF_REACH("counted"); }
    VF_CHECK(call(metac_handle_count_by, NULL, &cx) != 0, "no event, error");
    if (ev.p_return_value) metac_value_delete(ev.p_return_value);
    metac_value_delete(g_val); metac_value_delete(g_par);
    FINISH;
}
#elif MODE == 2
#ifndef SL
#define SL 7
#endif
static char g_s[SL + 1]; static char *g_ptr;
void harness(void) {
    init();
    BEGIN;
    metac_value_event_t ev = {.type = pick_ev()};
    for (int i = 0; i < SL; ++i) g_s[i] = (char)vf_u64();
    g_s[SL] = 0;
    int off = (int)vf_range(0, SL), null = vf_range(0, 3) == 0, flex = vf_bool(), k = (int)vf_range(0, 4);
    g_ptr = null ? NULL : g_s + off;
    g_lev = 0;
    metac_entry_t *el = k == 0 ? &t_char : k == 1 ? &t_cchar : k == 2 ? &t_ctd : k == 3 ? &t_uchar : &t_int;
    metac_entry_t p = VF_PTR(el), a = VF_ARR(el, -1), m = VF_MEMBER("m", flex ? &a : &p, 0), bad = VF_MEMBER("m", &t_dbl, 0);
    int notptr = vf_range(0, 7) == 0;
    static double dbl;
    g_val = metac_new_value(notptr ? &bad : &m, notptr ? (void *)&dbl : flex ? (void *)(g_s + off) : (void *)&g_ptr);
    VF_ASSUME(g_val != NULL);
    int len = 0;
    for (int i = SL; i >= off; --i) if (g_s[i] == 0) len = i - off;
    int r = call(metac_handle_zero_ended_string, &ev, NULL);
    int applies = ev.type == METAC_RQVST_pointer_array_count || ev.type == METAC_RQVST_flex_array_count;
    if (SHORT) SHORTCHECK;
    else if (!applies) { VF_CHECK(r == 0 && ev.p_return_value == NULL, "other requests are left alone"); VF_REACH("other"); }
    else if (notptr || k >= 3 || (!flex && null)) { VF_CHECK(r != 0 && ev.p_return_value == NULL, "not a string: an error"); VF_REACH("error"); }
    else { VF_CHECK(r == 0, "handled"); is_array(ev.p_return_value, el, len + 1, g_s + off); VF_REACH("string"); }
    VF_CHECK(call(metac_handle_zero_ended_string, NULL, NULL) != 0, "no event, error");
    if (ev.p_return_value) metac_value_delete(ev.p_return_value);
    metac_value_delete(g_val);
    FINISH;
}
#elif MODE == 3
static char g_box[64]; static char *g_ptr;
void harness(void) {
    init();
    BEGIN;
    metac_value_event_t ev = {.type = pick_ev()};
    int off = (int)vf_range(0, 40), base = (int)vf_range(0, 20), cn = (int)vf_range(0, 3), notptr = vf_range(0, 7) == 0;
    g_ptr = g_box + base + off;
    g_lev = (int)vf_range(0, 1);
    struct metac_container_of_context cx = {.member_offset = (metac_size_t)off, .p_coontainer_entry = cn == 1 ? NULL : &t_pst};
    metac_entry_t m = VF_MEMBER("m", notptr ? &t_dbl : &t_pint, 0), pv = VF_VAR("s", &t_st);
    static double dbl;
    g_val = metac_new_value(&m, notptr ? (void *)&dbl : (void *)&g_ptr); g_par = metac_new_value(&pv, g_box);
    VF_ASSUME(g_val && g_par);
    int r = call(metac_handle_container_of, &ev, cn == 2 ? NULL : &cx);
    if (SHORT) SHORTCHECK;
    else if (ev.type != METAC_RQVST_pointer_array_count) { VF_CHECK(r == 0 && ev.p_return_value == NULL, "other requests are left alone"); VF_REACH("other"); }
    else if (cn == 1 || cn == 2) { VF_CHECK(r != 0 && ev.p_return_value == NULL, "no container: an error"); VF_REACH("error"); }
    else if (notptr) { VF_CHECK(ev.p_return_value == NULL, "nothing for a value that is no pointer"); VF_REACH("not a pointer"); }
    else { VF_CHECK(r == 0, "handled"); is_array(ev.p_return_value, &t_st, 1, g_box + base); VF_REACH("container"); }
    VF_CHECK(g_ptr == g_box + base + off, "the pointer is not modified");
    VF_CHECK(call(metac_handle_container_of, NULL, &cx) != 0, "no event, error");
    if (ev.p_return_value) metac_value_delete(ev.p_return_value);
    metac_value_delete(g_val); metac_value_delete(g_par);
    FINISH;
}
#elif MODE == 4
#ifdef CUT
metac_entry_t g_cell; int g_i, g_m, g_cnt;
int vf_hv_idx(void) { return g_i; }
int vf_inv_idx(int i) { return i >= 0 && i <= g_m; }
#define NM 1
#endif
#ifndef NC
#define NC 2
#endif
static int g_data[4 * (NM + 1)]; static char g_un[16];
void harness(void) {
    init();
    BEGIN;
    metac_value_event_t ev = {.type = pick_ev()};
    int cn = (int)vf_range(0, 4), constant = vf_range(0, 3) == 0, nounion = vf_range(0, 7) == 0, nostruct = vf_range(0, 7) == 0;
    g_lev = (int)vf_range(0, 1);
    for (int i = 0; i < 4 * (NM + 1); ++i) g_data[i] = (int)vf_u64();
    struct metac_union_member_select_by_case cs[NC + 1];
    for (int i = 0; i < NC; ++i) { cs[i].fld_val = (metac_num_t)vf_srange(-2, 4); cs[i].union_fld_name = name((int)vf_range(0, 3)); cs[i].union_fld_id = (metac_num_t)vf_srange(-1, 4); }
    struct metac_union_member_select_by_context cx = {.mode = constant ? unsConstant : unsSelectByField, .sibling_selector_fieldname = name(cn % 4), .cases_count = NC, .p_cases = NC ? cs : NULL, .permanent_id = (metac_num_t)vf_srange(-2, 4)};
    static metac_entry_t ms[NM + 1], um[3];
    int at = -1, num = 0, want = 0;
    for (int i = 0; i < 3; ++i) { metac_entry_t m = VF_MEMBER(name((int)vf_range(0, 3)), &t_int, 4 * i); um[i] = m; }
#ifdef CUT
    g_cnt = (int)vf_range(0, 0x7fffffff); g_m = (int)vf_range(0, 0x7fffffff); g_i = (int)vf_range(0, 0x7fffffff);
    VF_ASSUME(g_m <= g_cnt);
    int nk = (int)vf_range(0, 3); num = vf_bool();
    if (g_i < g_m) VF_ASSUME(!eq(name(nk), cx.sibling_selector_fieldname));
    if (g_i == g_m && g_m < g_cnt) VF_ASSUME(eq(name(nk), cx.sibling_selector_fieldname));
    metac_entry_t cell = VF_MEMBER(name(nk), num ? &t_int : &t_dbl, 8);
    g_cell = cell;
    metac_entry_t st = VF_STRUCT(METAC_KND_struct_type, "s", 64, g_cnt, (metac_entry_t *)((char *)&g_cell - (uint64_t)g_i * sizeof(g_cell)));
    if (g_m < g_cnt) at = 0;
    want = g_data[2];
#else
    for (int i = 0; i < NM; ++i) {
        int nk = (int)vf_range(0, 3), nu = vf_bool();
        metac_entry_t m = VF_MEMBER(name(nk), nu ? &t_int : &t_dbl, 8 + 8 * i);
        ms[i] = m;
        if (at < 0 && eq(name(nk), cx.sibling_selector_fieldname)) { at = i; num = nu; want = g_data[2 + 2 * i]; }
    }
    metac_entry_t st = VF_STRUCT(METAC_KND_struct_type, "s", 64, NM, ms);
#endif
    metac_entry_t un = VF_STRUCT(METAC_KND_union_type, "u", 16, 3, um), m = VF_MEMBER("u", nounion ? &t_int : &un, 0), pv = VF_VAR("s", nostruct ? &t_int : &st);
    g_val = metac_new_value(&m, g_un); g_par = metac_new_value(&pv, g_data);
    VF_ASSUME(g_val && g_par);
    int sel = want, conv = NC == 0, lost = 0;
    for (int i = 0; i < NC; ++i) if (!conv && cs[i].fld_val == want) {
        conv = 1;
        if (cs[i].union_fld_name) { sel = -1; for (int j = 2; j >= 0; --j) if (eq(um[j].name, cs[i].union_fld_name)) sel = j; lost = sel < 0; } else sel = cs[i].union_fld_id;
    }
    int r = call(metac_handle_union_member_select, &ev, cn == 4 ? NULL : &cx);
    if (SHORT) SHORTCHECK;
    else if (ev.type != METAC_RQVST_union_member || g_lev == 0) { VF_CHECK(r == 0 && ev.p_return_value == NULL, "other requests are left alone"); VF_REACH("other"); }
    else if (cn == 4 || nounion) { VF_CHECK(r != 0 && ev.p_return_value == NULL, "not usable: an error"); VF_REACH("error"); }
    else if (!constant && (cn >= 2 || nostruct || (at >= 0 && (!num || !conv || lost)))) { VF_CHECK(r != 0 && ev.p_return_value == NULL, "no usable selector: an error"); VF_REACH("no selector"); }
    else {
        if (constant) sel = cx.permanent_id;
        if ((!constant && at < 0) || sel < 0 || sel > 2) { VF_CHECK(ev.p_return_value == NULL, "no such member: nothing is selected"); VF_REACH("nothing"); }
        else {
            VF_CHECK(r == 0 && ev.p_return_value != NULL, "a member is selected");
            if (ev.p_return_value) VF_CHECK(metac_value_entry(ev.p_return_value) == &um[sel] && metac_value_addr(ev.p_return_value) == g_un + 4 * sel, "exactly the member the selector says");
            VF_REACH("selected");
        }
    }
    VF_CHECK(call(metac_handle_union_member_select, NULL, &cx) != 0, "no event, error");
    if (ev.p_return_value) metac_value_delete(ev.p_return_value);
    metac_value_delete(g_val); metac_value_delete(g_par);
    FINISH;
}
#elif MODE == 5
#ifndef NC
#define NC 2
#endif
#ifdef SN      /* one target type per case: a choice makes the search for its size expensive */
#define PICK(i) cs[i].p_ptr_entry = (i) == NT ? NULL : (i) == 0 ? &t_pint : &t_pst
#define MN(i) ((i) == 0 ? MN0 : MN1)
#define NU(i) ((i) != NN)
#else
#define SN (int)vf_range(0, 4)
#define CN (int)vf_range(0, 3)
#define MN(i) (int)vf_range(0, 3)
#define NU(i) vf_bool()
#define PICK(i) uint64_t k = vf_range(0, 3); cs[i].p_ptr_entry = k == 0 ? &t_pint : k == 1 ? &t_pchar : k == 2 ? &t_pst : NULL
#endif
static int g_data[4 * (NM + 1)]; static int g_obj[4]; static void *g_slot;
void harness(void) {
    init();
    BEGIN;
    metac_value_event_t ev = {.type = pick_ev()};
    int sn = SN, cn = CN, nostruct = vf_range(0, 7) == 0;
    g_lev = (int)vf_range(0, 1);
    for (int i = 0; i < 4 * (NM + 1); ++i) g_data[i] = (int)vf_u64();
    struct metac_ptr_cast_case cs[NC + 1];
    for (int i = 0; i < NC; ++i) { cs[i].fld_val = (metac_num_t)vf_srange(-1, 2); PICK(i); }
    struct metac_ptr_cast_context cx = {.sibling_count_fieldname = name(cn), .sibling_selector_fieldname = name(sn % 4), .cases_count = NC, .p_cases = cs};
    static metac_entry_t ms[NM + 1];
    int sat = -1, cat = -1, snum = 0, cnum = 0, sel = 0, cnt = 1;
    for (int i = 0; i < NM; ++i) {
        int nk = MN(i), nu = NU(i);
        metac_entry_t m = VF_MEMBER(name(nk), nu ? &t_int : &t_dbl, 8 + 8 * i);
        ms[i] = m;
        if (sat < 0 && eq(name(nk), cx.sibling_selector_fieldname)) { sat = i; snum = nu; sel = g_data[2 + 2 * i]; }
        if (cn < 2 && cat < 0 && eq(name(nk), cx.sibling_count_fieldname)) { cat = i; cnum = nu; cnt = g_data[2 + 2 * i]; }
    }
    g_slot = &g_obj[vf_range(0, 3)];
    metac_entry_t st = VF_STRUCT(METAC_KND_struct_type, "s", 64, NM, ms), vp = {.kind = METAC_KND_pointer_type, .pointer_type_info = {.byte_size = sizeof(void *)}};
    metac_entry_t m = VF_MEMBER("p", &vp, 0), pv = VF_VAR("s", nostruct ? &t_int : &st);
    g_val = metac_new_value(&m, &g_slot); g_par = metac_new_value(&pv, g_data);
    VF_ASSUME(g_val && g_par);
    int c = -1;
    for (int i = NC - 1; i >= 0; --i) if (cs[i].fld_val == sel) c = i;
    int r = call(metac_handle_ptr_cast, &ev, sn == 4 ? NULL : &cx);
    if (SHORT) SHORTCHECK;
    else if (ev.type != METAC_RQVST_pointer_array_count || g_lev == 0) { VF_CHECK(r == 0 && ev.p_return_value == NULL, "other requests are left alone"); VF_REACH("other"); }
    else if (sn >= 2 || NC == 0 || nostruct || sat < 0 || !snum || (cn < 2 && (cat < 0 || !cnum))) { VF_CHECK(r != 0 && ev.p_return_value == NULL, "no usable selector or count: an error"); VF_REACH("error"); }
    else if (c < 0) { VF_CHECK(ev.p_return_value == NULL, "no case: nothing is selected"); VF_REACH("no case"); }
    else if (cs[c].p_ptr_entry == NULL) { VF_CHECK(r != 0 && ev.p_return_value == NULL, "no target type: an error"); VF_REACH("no target"); }
    else { VF_CHECK(r == 0, "handled"); is_array(ev.p_return_value, cs[c].p_ptr_entry == &t_pint ? &t_int : cs[c].p_ptr_entry == &t_pchar ? &t_char : &t_st, cnt, g_slot); VF_REACH("cast"); }
    VF_CHECK(call(metac_handle_ptr_cast, NULL, &cx) != 0, "no event, error");
    if (ev.p_return_value) metac_value_delete(ev.p_return_value);
    metac_value_delete(g_val); metac_value_delete(g_par);
    FINISH;
}
#elif MODE == 6
/* contexts keep copies of their own, report memory shortage without leaking and are released completely */
static int vf_oom, vf_allocs, g_nfreed; static void *g_freed[8];
static void *vf_calloc(size_t n, size_t s) { ++vf_allocs; return vf_oom && vf_allocs == vf_oom ? NULL : calloc(n, s); }
static char *vf_strdup(const char *s) { ++vf_allocs; if (vf_oom && vf_allocs == vf_oom) return NULL; size_t n = strlen(s) + 1; char *p = malloc(n); __CPROVER_assume(p != NULL); memcpy(p, s, n); return p; }
static void vf_free(void *p) { for (int i = 0; i < 8; ++i) if (i < g_nfreed) VF_CHECK(g_freed[i] != p, "released once"); if (g_nfreed < 8) g_freed[g_nfreed] = p; ++g_nfreed; free(p); }
static int keeps(char *got, char *given) { return given ? got != NULL && got != given && strcmp(got, given) == 0 : got == NULL; }
void harness(void) {
    init();
    g_nfreed = 0; vf_allocs = 0; vf_oom = (int)vf_range(0, 5);
    int k = (int)vf_range(0, 4), nc = (int)vf_range(0, 2);
    char *n1 = vf_bool() ? s_nn : NULL, *n2 = vf_bool() ? s_n : NULL; void *p = NULL; int refuse = 0;
    struct metac_union_member_select_by_case uc[2] = {{1, s_n, 2}, {3, NULL, 4}};
    struct metac_ptr_cast_case pc[2] = {{5, &t_pint}, {6, &t_pst}};
    if (k == 0) p = metac_new_count_by_context(n1);
    if (k == 1) p = metac_new_container_of_context(12, &t_pst);
    if (k == 2) p = metac_new_union_member_permanent_selection(3);
    if (k == 3) p = metac_new_union_member_select_by_context(n1, uc, (size_t)nc * sizeof(uc[0]));
    if (k == 4) { p = metac_new_ptr_cast_context(n1, n2, pc, (size_t)nc * sizeof(pc[0])); refuse = n2 == NULL; }
    int oom = vf_oom && vf_allocs >= vf_oom;
    VF_CHECK((p == NULL) == (refuse || oom), "created when arguments and memory suffice");
    if (p == NULL) { VF_CHECK(g_nfreed == vf_allocs - (oom ? 1 : 0), "a failed creation releases everything"); VF_REACH("failed"); return; }
    VF_CHECK(g_nfreed == 0, "nothing released");
    if (k == 0) { VF_CHECK(keeps(((struct metac_count_by_context *)p)->counter_sibling_entry_name, n1), "the name is kept"); metac_count_by_context_delete(p); VF_REACH("count"); }
    if (k == 1) { struct metac_container_of_context *c = p; VF_CHECK(c->member_offset == 12 && c->p_coontainer_entry == &t_pst, "kept"); metac_container_of_context_delete(p); VF_REACH("container"); }
    if (k == 2) { struct metac_union_member_select_by_context *c = p; VF_CHECK(c->mode == unsConstant && c->permanent_id == 3, "kept"); metac_union_member_select_by_context_delete(p); VF_REACH("constant"); }
    if (k == 3) {
        struct metac_union_member_select_by_context *c = p;
        VF_CHECK(c->mode == unsSelectByField && keeps(c->sibling_selector_fieldname, n1) && c->cases_count == nc, "kept");
        for (int i = 0; i < nc; ++i) VF_CHECK(c->p_cases != uc && c->p_cases[i].fld_val == uc[i].fld_val && c->p_cases[i].union_fld_name == uc[i].union_fld_name && c->p_cases[i].union_fld_id == uc[i].union_fld_id, "cases are kept");
        metac_union_member_select_by_context_delete(p); VF_REACH("select");
    }
    if (k == 4) {
        struct metac_ptr_cast_context *c = p;
        VF_CHECK(keeps(c->sibling_count_fieldname, n1) && keeps(c->sibling_selector_fieldname, n2) && c->cases_count == nc, "kept");
        for (int i = 0; i < nc; ++i) VF_CHECK(c->p_cases != pc && c->p_cases[i].fld_val == pc[i].fld_val && c->p_cases[i].p_ptr_entry == pc[i].p_ptr_entry, "cases are kept");
        metac_ptr_cast_context_delete(p); VF_REACH("cast");
    }
    VF_CHECK(g_nfreed == vf_allocs, "everything is released");
    metac_count_by_context_delete(NULL); metac_container_of_context_delete(NULL); metac_union_member_select_by_context_delete(NULL); metac_ptr_cast_context_delete(NULL);
}
#elif MODE == 7
#include <stdarg.h>
#include "metac/backend/va_list_ex.h"
#include "memw.h"
/* count_by over the parameters captured for a call: f(a0, a1, ..) with ints and one pointer, any of which may carry the name */
static int g_arr[8];
void harness(void) {
    init();
    metac_entry_t pe[6]; int np = (int)vf_range(1, 6), pp = (int)vf_range(0, (uint64_t)np - 1), at = -1, want = 0; long over[8]; int vals[6];
    const char *nm[6]; char *key = name((int)vf_range(0, 3));
    for (int i = 0; i < np; ++i) {
        nm[i] = pool[vf_range(0, 3)]; vals[i] = (int)vf_srange(-5, 1000);
        metac_entry_t p = VF_PARAM((char *)nm[i], i == pp ? &t_pint : &t_int);
        pe[i] = p; over[i] = i == pp ? (long)g_arr : (long)(unsigned)vals[i];
        if (at < 0 && eq(nm[i], key)) { at = i; want = vals[i]; }
    }
    metac_entry_t fn = {.kind = METAC_KND_subprogram, .name = "f", .subprogram_info = {.type = &t_int, .parameters_count = np, .parameters = pe}};
#ifdef FAILS
    BEGIN;
#else
    mw_begin(0);
#endif
    metac_value_t *cv = metac_new_value_with_call_params(&fn);
    VF_ASSUME(cv != NULL);
    struct { unsigned a, b; void *o, *r; } raw = {48, 304, over, NULL};
    struct va_list_container vc;
    memcpy(&vc.parameters, &raw, sizeof(raw));
    VF_CHECK(metac_value_parameter_vwrap(cv, NULL, vc.parameters) != NULL, "captured");
    g_val = metac_value_parameter_new_item(cv, pp); g_par = cv; g_lev = 1;
    VF_CHECK(g_val != NULL, "the pointer parameter");
    metac_value_event_t ev = {.type = METAC_RQVST_pointer_array_count};
    struct metac_count_by_context cx = {.counter_sibling_entry_name = key};
    int r = call(metac_handle_count_by, &ev, &cx);
    if (SHORT) SHORTCHECK;
    else if (!key || !*key || at == pp) VF_CHECK(r != 0 && ev.p_return_value == NULL, "no usable count: an error");
    else if (at < 0) VF_CHECK(ev.p_return_value == NULL, "a missing parameter selects nothing");
    else { VF_CHECK(r == 0, "handled"); is_array(ev.p_return_value, &t_int, want, g_arr); }
    if (ev.p_return_value) metac_value_delete(ev.p_return_value);
    metac_value_delete(g_val); metac_value_with_call_params_delete(cv);
    VF_CHECK(mw_live == 0, "no leak");
    mw_end();
}
#endif
