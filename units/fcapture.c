/* C11: the arguments of a printf format are stored one per conversion, in order, with the type the conversion asks for and the value passed (printf_format.c), for arguments of any content.
 * FMT: the format; N conversions; of type TA, TB (table below).  FAPP / FNEW / FENT: which append / value / array description fails.  V: by va_list.
 * Storage and values by the contracts C12 and C03 check; the parser is the real one. */
#include "ent.h"
#include "metac/backend/value.h"
#include "metac/backend/entry.h"
#include "metac/backend/printf_format.h"
#include <errno.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <ctype.h>
#include "metac/reflect.h"
#ifdef VF_CBMC
/* the C locale's character table */
static unsigned short vf_ct[384]; static const unsigned short *vf_ctp;
const unsigned short **__ctype_b_loc(void) { vf_ctp = vf_ct + 128; return &vf_ctp; }
static void ct_init(void) { for (int c = 0; c < 128; ++c) vf_ct[128 + c] = (c >= '0' && c <= '9' ? _ISdigit : 0) | ((c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') ? _ISalpha : 0); }
#else
static void ct_init(void) {}
#endif
static metac_entry_t t_char = VF_BASE("char", METAC_ENC_signed_char, 1), t_uchar = VF_BASE("unsigned char", METAC_ENC_unsigned_char, 1), t_short = VF_BASE("short int", METAC_ENC_signed, 2),
    t_ushort = VF_BASE("unsigned short int", METAC_ENC_unsigned, 2), t_int = VF_BASE("int", METAC_ENC_signed, 4), t_uint = VF_BASE("unsigned int", METAC_ENC_unsigned, 4), t_long = VF_BASE("long int", METAC_ENC_signed, 8),
    t_ulong = VF_BASE("unsigned long int", METAC_ENC_unsigned, 8), t_llong = VF_BASE("long long int", METAC_ENC_signed, 8), t_ullong = VF_BASE("unsigned long long int", METAC_ENC_unsigned, 8),
    t_double = VF_BASE("double", METAC_ENC_float, 8), t_ldouble = VF_BASE("long double", METAC_ENC_float, 16);
static metac_entry_t t_pchar = VF_PTR(&t_char), t_pshort = VF_PTR(&t_short), t_pint = VF_PTR(&t_int), t_plong = VF_PTR(&t_long), t_pvoid = VF_PTR(NULL);
static metac_entry_t e_arr, vfn;
struct metac_value { metac_entry_t *e; char *addr; int live; };
static struct metac_value v_p0, v_p1, v_p2;
static char store_tok, b0[32], b1[32], b2[32];
static int n_app, n_new, n_ent, arr_live, arr_count; static size_t sz0, sz1, sz2; static metac_entry_t *en0, *en1, *en2;
#define SEL(i, x, y, z) ((i) == 0 ? (x) : (i) == 1 ? (y) : (z))
/* an array of LEN+1 characters: the storage keeps its own copy of such a description (C12) */
static metac_entry_t kept_arr;
void *metac_value_addr(metac_value_t *p) { return p->addr; }
void metac_value_delete(metac_value_t *p) { VF_CHECK(p->live == 1, "a value is released once"); p->live = 0; }
metac_entry_t *metac_entry_final_entry(metac_entry_t *e, metac_quals_t *q) { return e; }
metac_entry_t *metac_new_element_count_entry(metac_entry_t *e, metac_num_t n) {
    if (++n_ent == FENT) return NULL;
    VF_CHECK(!arr_live && e == &t_pchar && n >= 0, "the description of an array made of a pointer"); arr_live = 1; arr_count = (int)n;
    e_arr.kind = METAC_KND_array_type; e_arr.dynamically_allocated = 1; e_arr.array_type_info.type = &t_char; e_arr.array_type_info.count = n;
    return &e_arr;
}
void metac_entry_delete(metac_entry_t *e) { VF_CHECK(e == &e_arr && arr_live, "released once"); arr_live = 0; }
int metac_parameter_storage_append_by_buffer(metac_parameter_storage_t *s, metac_entry_t *e, metac_num_t n) {
    VF_CHECK((void *)s == (void *)&store_tok && n_app < 3 && e != NULL && n > 0 && n <= 32, "a place for one parameter");
    if (FAPP == n_app + 1) return -(ENOMEM);
    if (e == &e_arr) { VF_CHECK(arr_live, "a valid description"); kept_arr = e_arr; e = &kept_arr; }
    *SEL(n_app, &sz0, &sz1, &sz2) = (size_t)n; *SEL(n_app, &en0, &en1, &en2) = e; ++n_app;
    return 0;
}
metac_value_t *metac_parameter_storage_new_param_value(metac_parameter_storage_t *s, metac_num_t i) {
    VF_CHECK((void *)s == (void *)&store_tok && i >= 0 && i < n_app, "a parameter that is there");
    if (++n_new == FNEW || i < 0 || i >= n_app) return NULL;
    struct metac_value *v = SEL(i, &v_p0, &v_p1, &v_p2);
    v->live++; v->e = SEL(i, en0, en1, en2); v->addr = SEL(i, b0, b1, b2);
    return v;
}
/* (the verifier gives long and long long one type: the two are told apart by the sampled runs of pfmt.c) */
/* declarations made inside the function are looked up in the type database at run time; here the lookup yields the description of the declared type */
#undef WITH_METAC_DECLLOC
#define WITH_METAC_DECLLOC(_name_, _decl_...) _decl_
#undef METAC_ENTRY_FROM_DECLLOC
#define METAC_ENTRY_FROM_DECLLOC(_name_, _v_) _Generic((_v_), char: &t_char, unsigned char: &t_uchar, short: &t_short, unsigned short: &t_ushort, int: &t_int, unsigned: &t_uint, long: &t_long, unsigned long: &t_ulong, \
    long long: &t_long, unsigned long long: &t_ulong, double: &t_double, long double: &t_ldouble, char *: &t_pchar, short *: &t_pshort, int *: &t_pint, long *: &t_plong, long long *: &t_plong, void *: &t_pvoid)
#undef METAC_GSYM_LINK
#define METAC_GSYM_LINK(...)
#undef METAC_GSYM_LINK_ENTRY
#define METAC_GSYM_LINK_ENTRY(...) (&vfn)
#include SRC_printf_format
/* number: C type, type it is passed as, description */
#define CT_0 char
#define PT_0 int
#define DE_0 &t_char
#define CT_1 unsigned char
#define PT_1 unsigned
#define DE_1 &t_uchar
#define CT_2 short
#define PT_2 int
#define DE_2 &t_short
#define CT_3 unsigned short
#define PT_3 unsigned
#define DE_3 &t_ushort
#define CT_4 int
#define PT_4 int
#define DE_4 &t_int
#define CT_5 unsigned
#define PT_5 unsigned
#define DE_5 &t_uint
#define CT_6 long
#define PT_6 long
#define DE_6 &t_long
#define CT_7 unsigned long
#define PT_7 unsigned long
#define DE_7 &t_ulong
#define CT_8 long long
#define PT_8 long long
#define DE_8 &t_long
#define CT_9 unsigned long long
#define PT_9 unsigned long long
#define DE_9 &t_ulong
#define CT_10 double
#define PT_10 double
#define DE_10 &t_double
#define CT_11 long double
#define PT_11 long double
#define DE_11 &t_ldouble
#define CT_12 void *
#define PT_12 void *
#define DE_12 &t_pvoid
#define CT_13 char *
#define PT_13 void *
#define DE_13 &t_pchar
#define CT_14 short *
#define PT_14 void *
#define DE_14 &t_pshort
#define CT_15 int *
#define PT_15 void *
#define DE_15 &t_pint
#define CT_16 long *
#define PT_16 void *
#define DE_16 &t_plong
#define CT_17 long long *
#define PT_17 void *
#define DE_17 &t_plong
#define CT_20 char *
#define PT_20 char *
#define DE_20 &t_pchar
#define CAT_(a, b) a##b
#define CT(t) CAT_(CT_, t)
#define PT(t) CAT_(PT_, t)
#define DE(t) CAT_(DE_, t)
#ifndef SLEN
#define SLEN -1            /* length of the string of a %s, -1: a NULL pointer */
#endif
static int vw(const char *f, ...) { va_list ap; va_start(ap, f); int r = metac_store_vprintf_params((metac_parameter_storage_t *)&store_tok, f, ap); va_end(ap); return r; }
#define ARRIVED(i, T, b, x, n, en) if ((i) < N) { \
    if (T == 20 && SLEN >= 0) { VF_CHECK(n == SLEN + 1 && en == &kept_arr && kept_arr.array_type_info.count == SLEN + 1 && memcmp(b, keep, SLEN + 1) == 0, "a string is captured completely, with its terminator"); } \
    else { VF_CHECK(n == sizeof(CT(T)), "room for the argument"); VF_CHECK(en == DE(T), "the type the conversion asks for"); CT(T) y; memcpy(&y, b, sizeof(y)); VF_CHECK(T == 11 ? y == x : memcmp(&y, &x, sizeof(y)) == 0, "the argument arrives"); } }
void harness(void) {
    ct_init();
    n_app = n_new = n_ent = arr_live = 0; v_p0.live = v_p1.live = v_p2.live = 0; en0 = en1 = en2 = NULL; sz0 = sz1 = sz2 = 0;
    CT(TA) a; CT(TB) b;
    uint64_t ra = vf_u64(), rb = vf_u64();
    char str[16], keep[16];
    memset(str, 0, sizeof(str));
    for (int i = 0; i < SLEN; ++i) { str[i] = (char)vf_u64(); VF_ASSUME(str[i] != 0); }
    memcpy(keep, str, sizeof(keep));
#if TA == 11
    { double d; memcpy(&d, &ra, 8); VF_ASSUME(d == d); a = d; }
#elif TA == 20
    a = SLEN >= 0 ? str : NULL;
#else
    memcpy(&a, &ra, sizeof(a));
#endif
#if TB == 11
    { double d; memcpy(&d, &rb, 8); VF_ASSUME(d == d); b = d; }
#elif TB == 20
    b = SLEN >= 0 ? str : NULL;
#else
    memcpy(&b, &rb, sizeof(b));
#endif
    int r;
#if V
    r = vw(FMT, (PT(TA))a, (PT(TB))b);
#else
    r = metac_store_printf_params((metac_parameter_storage_t *)&store_tok, FMT, (PT(TA))a, (PT(TB))b);
#endif
    memset(str, '!', sizeof(str));        /* what was captured is independent of the caller's memory */
    int bad = (FAPP && FAPP <= N) || (FNEW && FNEW <= N) || (FENT && SLEN >= 0 && ((N > 0 && TA == 20) || (N > 1 && TB == 20)));
    VF_CHECK((r != 0) == bad, "a well-formed format is captured, or the failure is reported");
    VF_CHECK(!v_p0.live && !v_p1.live && !v_p2.live && !arr_live, "nothing temporary is kept");
    if (!bad) {
        VF_CHECK(n_app == N, "one parameter per conversion");
        ARRIVED(0, TA, b0, a, sz0, en0) ARRIVED(1, TB, b1, b, sz1, en1)
    }
    VF_CHECK(metac_store_printf_params(NULL, FMT) != 0, "no storage");
    VF_REACH("end");
}
