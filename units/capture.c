/* C12: a call's parameters are taken from its variable argument list (value_with_args.c), for parameters of any content: every parameter lands, in order and with its
 * value, in the place its storage gives it.  Storage by the contract the other units of C12 check (one place per parameter), iterator by C07's, tags by C13's.
 * N parameters, of type TA, TB, TC: see harness.  FAPP/FNEW: which append / value fails.  TAG 0 no tag map 1 no tag 2 no handler 3 handler 4 handler fails; V: by va_list */
#define NT 1
#define NOITER 0
#define W_ROOT_IS_TASK
#include "ent.h"
#include "metac/backend/value.h"
#include "metac/backend/iterator.h"
#include "metac/reflect/value.h"
#include <errno.h>
#include <stdarg.h>
#include <stdbool.h>
#include <stdlib.h>
#include <string.h>
#include "walk_ghost.h"
struct metac_value { metac_entry_t *e; char *addr; int live; };
static struct metac_value v_call, v_p0, v_p1, v_p2;
static metac_entry_t e_call, pars[3], e_ty0, e_ty1, e_ty2, e_sub0, e_sub1, e_sub2;
static char store_tok, tags_tok, cx_tok, k0, k1, k2;
static char b0[32], b1[32], b2[32];
static int n_app, n_new, n_h, deleted; static size_t sz0, sz1, sz2; static int nested0, nested1, nested2;
static metac_entry_tag_t g_tag;
#define SEL(i, x, y, z) ((i) == 0 ? (x) : (i) == 1 ? (y) : (z))
#define TYP(i) SEL(i, TA, TB, TC)
enum { T_POINTER = 17, T_ENUM1, T_ENUM2, T_ENUM4, T_ENUM8, T_STRUCT, T_VAR, T_VALIST, T_TYPEDEF, T_UNKNOWN, T_SIZE };
#define SPECIAL(i) (TYP(i) == T_VAR || TYP(i) == T_VALIST)
#define BADT(i) (TYP(i) == T_UNKNOWN || TYP(i) == T_SIZE)
void w_request(struct task *t, void *in) { VF_CHECK(0, "no sub-tasks"); }
void w_result(struct task *t, int i) { }
metac_entry_t *metac_value_entry(metac_value_t *p) { return p->e; }
void *metac_value_addr(metac_value_t *p) { return p->addr; }
metac_kind_t metac_value_final_kind(metac_value_t *p, metac_quals_t *q) { return METAC_KND_subprogram; }
void metac_value_delete(metac_value_t *p) { if (p == &v_call) { VF_CHECK(!deleted, "released once"); deleted = 1; return; } VF_CHECK(p->live == 1, "a value is released once"); p->live = 0; }
static int app(metac_parameter_storage_t *s, metac_entry_t *e) {
    VF_CHECK((void *)s == (void *)&store_tok, "in the storage of the call");
    VF_CHECK(n_app < N && e == SEL(n_app, &pars[0], &pars[1], &pars[2]), "one place for each parameter, in order");
    return FAPP == n_app + 1 ? -(ENOMEM) : 0;
}
int metac_parameter_storage_append_by_buffer(metac_parameter_storage_t *s, metac_entry_t *e, metac_num_t n) {
    int r = app(s, e); if (r) return r;
    VF_CHECK(n <= 32, "its size"); *SEL(n_app, &sz0, &sz1, &sz2) = n; *SEL(n_app, &nested0, &nested1, &nested2) = 0; ++n_app; return 0;
}
int metac_parameter_storage_append_by_parameter_storage(metac_parameter_storage_t *s, metac_entry_t *e) { int r = app(s, e); if (r) return r; *SEL(n_app, &nested0, &nested1, &nested2) = 1; ++n_app; return 0; }
metac_value_t *metac_parameter_storage_new_param_value(metac_parameter_storage_t *s, metac_num_t i) {
    VF_CHECK((void *)s == (void *)&store_tok && i >= 0 && i < n_app, "a parameter that is there");
    if (++n_new == FNEW || i < 0 || i >= n_app) return NULL;
    struct metac_value *v = SEL(i, &v_p0, &v_p1, &v_p2);
    v->live++; v->e = SEL(i, &pars[0], &pars[1], &pars[2]); v->addr = *SEL(i, &nested0, &nested1, &nested2) ? SEL(i, &k0, &k1, &k2) : SEL(i, b0, b1, b2);
    return v;
}
metac_entry_tag_t *metac_tag_map_tag(metac_tag_map_t *m, metac_entry_t *e) { VF_CHECK((void *)m == (void *)&tags_tok, "the tags given"); return TAG >= 2 ? &g_tag : NULL; }
static int h_dummy(metac_value_walker_hierarchy_t *h, metac_value_event_t *ev, void *cx) { return 0; }
static struct { char *p; int n; } st_v;    /* what a struct parameter holds */
static long var0;
int metac_value_event_handler_call(metac_value_event_handler_t h, metac_recursive_iterator_t *it, metac_value_event_t *ev, void *cx) {
    IT(it); ++n_h;
    int i = n_app - 1;
    VF_CHECK(TAG >= 3 && h == h_dummy && cx == (void *)&cx_tok && ev->type == METAC_RQVST_va_list && ev->va_list_param_id == i, "the handler is told which parameter");
    VF_CHECK(ev->p_return_value == SEL(i, &v_p0, &v_p1, &v_p2) && ev->p_return_value->live == 1 && ev->p_return_value->addr == SEL(i, &k0, &k1, &k2), "and where it goes");
    VF_CHECK(ev->p_va_list_container != NULL, "and where to take it from");
    if (TYP(i) == T_VAR) { long x = va_arg(ev->p_va_list_container->parameters, long); VF_CHECK(x == var0, "the arguments after the named ones"); }
    return TAG == 4 ? -(EFAULT) : 0;
}
static int va_struct(struct va_list_container *c, void *buf) { struct { char *p; int n; } v = *(__typeof__(v) *)va_arg(c->parameters, void *); memcpy(buf, &v, sizeof(v)); return 1; }
/* base types in the order of the configuration: C type, type it is passed as */
#define BASES(X) X(0, char, int, "char") X(1, unsigned char, int, "unsigned char") X(2, short, int, "short int") X(3, unsigned short, int, "unsigned short int") X(4, int, int, "int") X(5, unsigned, unsigned, "unsigned int") \
    X(6, long, long, "long int") X(7, unsigned long, unsigned long, "unsigned long int") X(8, long long, long long, "long long int") X(9, unsigned long long, unsigned long long, "unsigned long long int") X(10, bool, int, "_Bool") \
    X(11, float, double, "float") X(12, double, double, "double")
static void mk(metac_entry_t *par, metac_entry_t *ty, metac_entry_t *sub, int t) {
#define X(k, c, v, n) if (t == k) *ty = (metac_entry_t)VF_BASE(n, METAC_ENC_signed, sizeof(c));
    BASES(X)
#undef X
    if (t == T_POINTER) { *ty = (metac_entry_t)VF_PTR(sub); *sub = (metac_entry_t)VF_BASE("int", METAC_ENC_signed, 4); }
    if (t >= T_ENUM1 && t <= T_ENUM8) *ty = (metac_entry_t){.kind = METAC_KND_enumeration_type, .name = "e", .enumeration_type_info = {.byte_size = 1 << (t - T_ENUM1)}};
    if (t == T_STRUCT) { *ty = (metac_entry_t)VF_STRUCT(METAC_KND_struct_type, "s", 16, 0, NULL); ty->structure_type_info.p_va_arg_fn = (void *)va_struct; }
    if (t == T_VALIST) { *ty = (metac_entry_t)VF_PTR(sub); *sub = (metac_entry_t)VF_STRUCT(METAC_KND_struct_type, "__va_list_tag", 24, 0, NULL); }
    if (t == T_TYPEDEF) { *ty = (metac_entry_t)VF_TYPEDEF("t", sub); *sub = (metac_entry_t)VF_BASE("short int", METAC_ENC_signed, 2); }
    if (t == T_UNKNOWN) *ty = (metac_entry_t)VF_BASE("unheard of", METAC_ENC_signed, 4);
    if (t == T_SIZE) *ty = (metac_entry_t)VF_BASE("int", METAC_ENC_signed, 8);
    *par = (metac_entry_t)VF_PARAM("p", t == T_VAR ? NULL : ty);
    par->func_parameter_info.unspecified_parameters = t == T_VAR;
}
/* arguments as the caller passes them, and what has to arrive */
#define CT_0 char
#define CT_1 unsigned char
#define CT_2 short
#define CT_3 unsigned short
#define CT_4 int
#define CT_5 unsigned
#define CT_6 long
#define CT_7 unsigned long
#define CT_8 long long
#define CT_9 unsigned long long
#define CT_10 bool
#define CT_11 float
#define CT_12 double
#define CT_17 int *
#define CT_18 signed char
#define CT_19 short
#define CT_20 int
#define CT_21 long
#define CT_22 void *
#define CT_23 long
#define CT_24 void *
#define CT_25 short
#define CT_26 int
#define CT_27 long
/* default argument promotions, which CBMC leaves to the caller */
#define PT_0 int
#define PT_1 int
#define PT_2 int
#define PT_3 int
#define PT_4 int
#define PT_5 unsigned
#define PT_6 long
#define PT_7 unsigned long
#define PT_8 long long
#define PT_9 unsigned long long
#define PT_10 int
#define PT_11 double
#define PT_12 double
#define PT_17 int *
#define PT_18 int
#define PT_19 int
#define PT_20 int
#define PT_21 long
#define PT_22 void *
#define PT_23 long
#define PT_24 void *
#define PT_25 int
#define PT_26 int
#define PT_27 long
#define CAT_(a, b) a##b
#define CT(t) CAT_(CT_, t)
#define PT(t) CAT_(PT_, t)
static int vw(metac_value_t **r, metac_tag_map_t *m, ...) { va_list ap; va_start(ap, m); *r = metac_value_parameter_vwrap(&v_call, m, ap); va_end(ap); return 0; }
#define ARRIVED(i, T, b, x, n) if ((i) < N && !SPECIAL(i) && T != T_STRUCT) { VF_CHECK(n == sizeof(CT(T)), "room for the parameter"); CT(T) y; memcpy(&y, b, sizeof(y)); VF_CHECK(memcmp(&y, &x, sizeof(y)) == 0, "the parameter arrives"); }
void harness(void) {
    w_init();
    n_app = n_new = n_h = deleted = 0; v_p0.live = v_p1.live = v_p2.live = 0;
    mk(&pars[0], &e_ty0, &e_sub0, TA); mk(&pars[1], &e_ty1, &e_sub1, TB); mk(&pars[2], &e_ty2, &e_sub2, TC);
    e_call = (metac_entry_t)VF_FUNC(METAC_KND_subprogram, "f", NULL, N, pars);
    v_call.e = &e_call; v_call.addr = &store_tok; v_call.live = 1;
    g_tag.handler = TAG >= 3 ? h_dummy : NULL; g_tag.p_context = &cx_tok;
    T[0].in = &v_call;
    CT(TA) a; CT(TB) b; CT(TC) c; struct { char *p; int n; } sv;
    memset(&sv, 0, sizeof(sv));
    for (int i = 0; i < (int)sizeof(sv); ++i) ((char *)&sv)[i] = (char)vf_u64();
    uint64_t ra = vf_u64(), rb = vf_u64(), rc = vf_u64();
    if (TA == 10) ra &= 1;
    if (TB == 10) rb &= 1;
    if (TC == 10) rc &= 1;
    memcpy(&a, &ra, sizeof(a)); memcpy(&b, &rb, sizeof(b)); memcpy(&c, &rc, sizeof(c));
#if TA == 22
    a = &sv;
#endif
#if TB == 22
    b = &sv;
#endif
#if TC == 22
    c = &sv;
#endif
#if TA == 11
    VF_ASSUME(a == a);
#endif
#if TB == 11
    VF_ASSUME(b == b);
#endif
#if TC == 11
    VF_ASSUME(c == c);
#endif
    struct va_list_container inner; memset(&inner, 0, sizeof(inner));
#if TB == 24
    b = &inner;
#endif
#if TC == 23
    var0 = c;
#endif
    metac_tag_map_t *m = TAG ? (metac_tag_map_t *)&tags_tok : NULL; metac_value_t *r;
#if V
    vw(&r, m, (PT(TA))a, (PT(TB))b, (PT(TC))c);
#else
    r = metac_value_parameter_wrap(&v_call, m, (PT(TA))a, (PT(TB))b, (PT(TC))c);
#endif
    struct task *t = &T[0];
    int special = (N > 0 && SPECIAL(0)) + (N > 1 && SPECIAL(1)) + (N > 2 && SPECIAL(2));
    int bad = (N > 0 && BADT(0)) || (N > 1 && BADT(1)) || (N > 2 && BADT(2)) || (FAPP && FAPP <= N) || (FNEW && FNEW <= N) || (special && (TAG == 0 || TAG == 4));
    VF_CHECK(t->ended && w_root == &v_call && w_freed == 1, "the call is worked on once");
    VF_CHECK(t->failed == bad, "it is taken completely or refused");
    VF_CHECK(!v_p0.live && !v_p1.live && !v_p2.live, "no value is kept");
    if (!bad) {
        VF_CHECK(n_app == N && n_h == (TAG >= 3 ? special : 0), "all parameters, the handler once for each that is its business");
        ARRIVED(0, TA, b0, a, sz0) ARRIVED(1, TB, b1, b, sz1) ARRIVED(2, TC, b2, c, sz2)
        if (TA == T_STRUCT && N > 0) VF_CHECK(sz0 == 16 && !memcmp(b0, &sv, sizeof(sv)), "the struct arrives");
        if (TB == T_STRUCT && N > 1) VF_CHECK(sz1 == 16 && !memcmp(b1, &sv, sizeof(sv)), "the struct arrives");
        if (SPECIAL(1) && N > 1) VF_CHECK(nested1, "variable parameters are stored as such");
        if (SPECIAL(2) && N > 2) VF_CHECK(nested2, "variable parameters are stored as such");
    }
    VF_CHECK((r == NULL) == deleted && (r == NULL || r == &v_call), "a refused call is released");
    VF_REACH("taken");
}
