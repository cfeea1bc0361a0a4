/* C11: printf formats.  MODE 1 one conversion, 2 counting, 3 (native) capture of the arguments of a whole format,
 * with an allocation failing inside when FAILS */
#include "ent.h"
#include <stdarg.h>
#include <stdio.h>
#include <ctype.h>
#include "metac/backend/printf_format.h"
#include "metac/backend/value.h"
#ifdef VF_CBMC
/* the C locale's character table */
static unsigned short vf_ct[384]; static const unsigned short *vf_ctp;
const unsigned short **__ctype_b_loc(void) {
    vf_ctp = vf_ct + 128;
    return &vf_ctp;
}
static void ct_init(void) { for (int c = 0; c < 128; ++c) vf_ct[128 + c] = (c >= '0' && c <= '9' ? _ISdigit : 0) | ((c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') ? _ISalpha : 0); }
#else
static void ct_init(void) {}
#endif

/* reference: the C standard's conversion grammar with literal width and precision and the length modifiers hh h l ll L.
 * returns the position after the conversion, 0 when there is none at p */
static size_t ref_parse(const char *f, size_t n, size_t p, metac_printf_specifier_t *s) {
    memset(s, 0, sizeof(*s));
    if (p >= n || f[p] != '%') return 0;
    ++p;
    for (; p < n; ++p) {
        if (f[p] == '+') s->flags.plus = 1; else if (f[p] == '-') s->flags.minus = 1; else if (f[p] == '#') s->flags.pound = 1;
        else if (f[p] == '0') s->flags.oct = 1; else if (f[p] == ' ') s->flags.space = 1; else break;
    }
    for (; p < n && f[p] >= '0' && f[p] <= '9'; ++p) s->format_len = s->format_len * 10 + (f[p] - '0');
    s->precision = -1;
    if (p < n && f[p] == '.') { s->precision = 0; for (++p; p < n && f[p] >= '0' && f[p] <= '9'; ++p) s->precision = s->precision * 10 + (f[p] - '0'); }
    s->arg_len = psal_no;
    if (p < n && f[p] == 'L') { s->arg_len = psal_L; ++p; }
    else if (p < n && f[p] == 'h') { s->arg_len = psal_h; ++p; if (p < n && f[p] == 'h') { s->arg_len = psal_hh; ++p; } }
    else if (p < n && f[p] == 'l') { s->arg_len = psal_l; ++p; if (p < n && f[p] == 'l') { s->arg_len = psal_ll; ++p; } }
    if (p < n && ((f[p] >= 'a' && f[p] <= 'z') || (f[p] >= 'A' && f[p] <= 'Z'))) { s->t = f[p]; return p + 1; }
    return 0;
}
#if MODE == 1
#ifndef LEN
#define LEN 8
#endif
char g_buf[LEN + 1];
void harness(void) {
    ct_init();
    size_t n = LEN;
#ifdef POOL
    static const char pool[] = "%%%+-# 000123456789..hhllLdisxufgepncoX q$";
    n = vf_range(0, LEN);
    for (size_t i = 0; i < n; ++i) g_buf[i] = pool[vf_range(0, sizeof(pool) - 2)];
#else
    for (size_t i = 0; i < n; ++i) { g_buf[i] = (char)vf_u64(); VF_ASSUME(g_buf[i] != 0); }
#endif
    g_buf[n] = 0;
    size_t p0 = vf_bool(), p = p0;
    VF_ASSUME(p0 <= n);
    metac_printf_specifier_t s, w;
    memset(&s, 0x5a, sizeof(s));
    size_t e = ref_parse(g_buf, n, p0, &w);
    size_t r = metac_parse_format_specifier(g_buf, &p, &s);
    if (e) {
        VF_CHECK(r > 0 && p == e, "a conversion ends where the standard says");
        VF_CHECK(s.t == w.t && s.arg_len == w.arg_len, "conversion and argument length");
        VF_CHECK(s.format_len == w.format_len && s.precision == w.precision, "width and precision");
        VF_CHECK(s.flags.plus == w.flags.plus && s.flags.minus == w.flags.minus && s.flags.pound == w.flags.pound && s.flags.oct == w.flags.oct && s.flags.space == w.flags.space, "flags");
#if LEN > 1
        VF_REACH("conversion");
#endif
    } else {
        VF_CHECK(r == 0, "anything else is no conversion");
        VF_CHECK(p <= n && (p0 == n || g_buf[p0] == '%' || p == p0), "and nothing outside the string is consumed");
        VF_REACH("none");
    }
}
#elif MODE == 2
#ifndef LEN
#define LEN 6
#endif
char g_buf[LEN + 1];
void harness(void) {
    ct_init();
    size_t n = LEN;
#ifdef POOL
    static const char pool[] = "%%%%%+-# 0015..hhllLdisxufgepncoX qz,\n";
    n = vf_range(0, LEN);
    for (size_t i = 0; i < n; ++i) g_buf[i] = pool[vf_range(0, sizeof(pool) - 2)];
#else
    for (size_t i = 0; i < n; ++i) { g_buf[i] = (char)vf_u64(); VF_ASSUME(g_buf[i] != 0); }
#endif
    g_buf[n] = 0;
    size_t want = 0;
    metac_printf_specifier_t s;
    int bad = 0;
    for (size_t p = 0, k = 0; k < LEN + 1 && p < n; ++k) {
        if (g_buf[p] != '%') { ++p; continue; }
        if (p + 1 < n && g_buf[p + 1] == '%') { p += 2; continue; }
        size_t e = ref_parse(g_buf, n, p, &s);
        if (!e) { bad = 1; break; }          /* undefined by the standard */
        want++; p = e;
    }
    size_t r = metac_count_format_specifiers(g_buf);
    if (!bad) { VF_CHECK(r == want, "the number of conversions is the number of arguments the standard requires"); VF_REACH("well-formed"); }
    else { VF_CHECK(r <= n, "malformed formats are scanned inside the string");
#if LEN > 0
        VF_REACH("malformed");
#endif
    }
}
#else
/* declarations made inside the function are looked up in the type database at run time; here the lookup yields the description of the declared type */
static metac_entry_t t_char = VF_BASE("char", METAC_ENC_signed_char, 1), t_uchar = VF_BASE("unsigned char", METAC_ENC_unsigned_char, 1), t_short = VF_BASE("short int", METAC_ENC_signed, 2),
    t_ushort = VF_BASE("unsigned short int", METAC_ENC_unsigned, 2), t_int = VF_BASE("int", METAC_ENC_signed, 4), t_uint = VF_BASE("unsigned int", METAC_ENC_unsigned, 4), t_long = VF_BASE("long int", METAC_ENC_signed, 8),
    t_ulong = VF_BASE("unsigned long int", METAC_ENC_unsigned, 8), t_llong = VF_BASE("long long int", METAC_ENC_signed, 8), t_ullong = VF_BASE("unsigned long long int", METAC_ENC_unsigned, 8),
    t_double = VF_BASE("double", METAC_ENC_float, 8), t_ldouble = VF_BASE("long double", METAC_ENC_float, 16);
static metac_entry_t t_pchar = VF_PTR(&t_char), t_pshort = VF_PTR(&t_short), t_pint = VF_PTR(&t_int), t_plong = VF_PTR(&t_long), t_pllong = VF_PTR(&t_llong), t_pvoid = VF_PTR(NULL);
static metac_entry_t vfn;
#undef WITH_METAC_DECLLOC
#define WITH_METAC_DECLLOC(_name_, _decl_...) _decl_
#undef METAC_ENTRY_FROM_DECLLOC
#define METAC_ENTRY_FROM_DECLLOC(_name_, _v_) _Generic((_v_), char: &t_char, unsigned char: &t_uchar, short: &t_short, unsigned short: &t_ushort, int: &t_int, unsigned: &t_uint, long: &t_long, unsigned long: &t_ulong, \
    long long: &t_llong, unsigned long long: &t_ullong, double: &t_double, long double: &t_ldouble, char *: &t_pchar, short *: &t_pshort, int *: &t_pint, long *: &t_plong, long long *: &t_pllong, void *: &t_pvoid)
#undef METAC_GSYM_LINK
#define METAC_GSYM_LINK(...)
#undef METAC_GSYM_LINK_ENTRY
#define METAC_GSYM_LINK_ENTRY(...) (&vfn)
#include SRC_printf_format
#if defined(FAILS) || defined(HANDLER)
#include "memw.h"
#endif
#define MAXC 6
static const struct { const char *c; const char *l; metac_entry_t *e; int sz, cls; } CV[] = {   /* cls 0 integer, 1 double, 2 long double, 3 pointer, 4 string */
#define SGN(C) {C, "hh", &t_char, 1, 0}, {C, "h", &t_short, 2, 0}, {C, "", &t_int, 4, 0}, {C, "l", &t_long, 8, 0}, {C, "ll", &t_llong, 8, 0}
#define UNS(C) {C, "hh", &t_uchar, 1, 0}, {C, "h", &t_ushort, 2, 0}, {C, "", &t_uint, 4, 0}, {C, "l", &t_ulong, 8, 0}, {C, "ll", &t_ullong, 8, 0}
#define FLT(C) {C, "", &t_double, 8, 1}, {C, "L", &t_ldouble, 16, 2}
    SGN("d"), SGN("i"), UNS("o"), UNS("u"), UNS("x"), UNS("X"), FLT("f"), FLT("g"), FLT("e"), {"c", "", &t_char, 1, 0}, {"p", "", &t_pvoid, 8, 3},
    {"n", "hh", &t_pchar, 8, 3}, {"n", "h", &t_pshort, 8, 3}, {"n", "", &t_pint, 8, 3}, {"n", "l", &t_plong, 8, 3}, {"n", "ll", &t_pllong, 8, 3}, {"s", "", &t_pchar, 8, 4}, {"s", "", &t_pchar, 8, 4}, {"s", "", &t_pchar, 8, 4} };
static const char *LIT[] = {"", " ", "%%", "a%%", "abc: ", "%%%%", "d", "100%% of ", ","};
static const char *FLG[] = {"", "0", "-", "+", " ", "#", "-#", "05", "12", "-8"};
static const char *PRC[] = {"", ".0", ".3", ".", ".12"};
typedef struct { unsigned gp, fp; void *over, *reg; } va_rep;
void harness(void) {
    static char fmt[512], over[256] __attribute__((aligned(16))), str[MAXC][80];
    memset(over, 0, sizeof(over));
    size_t off = 0;
    int n = (int)vf_range(0, MAXC), sel[MAXC]; unsigned char want[MAXC][16]; const char *ws[MAXC];
    fmt[0] = 0;
    strcat(fmt, LIT[vf_range(0, 8)]);
    for (int i = 0; i < n; ++i) {
        sel[i] = (int)vf_range(0, sizeof(CV) / sizeof(CV[0]) - 1);
        char one[64];
        snprintf(one, sizeof(one), "%%%s%s%s%s", FLG[vf_range(0, 9)], PRC[vf_range(0, 4)], CV[sel[i]].l, CV[sel[i]].c);
        strcat(fmt, one); strcat(fmt, LIT[vf_range(0, 8)]);
        memset(want[i], 0, 16); ws[i] = NULL;
        if (CV[sel[i]].cls == 2) { off = (off + 15) & ~(size_t)15; long double d = (long double)(int64_t)vf_u64() / 3; memcpy(over + off, &d, 10); memcpy(want[i], &d, 10); off += 16; }
        else if (CV[sel[i]].cls == 4) {
            size_t l = vf_range(0, 70);
            if (vf_range(0, 7) == 0) ws[i] = NULL;
            else { for (size_t k = 0; k < l; ++k) str[i][k] = (char)vf_range(1, 255); str[i][l] = 0; ws[i] = str[i]; }
            memcpy(over + off, &ws[i], 8); off += 8;
        } else { uint64_t v = vf_u64(); memcpy(over + off, &v, 8); memcpy(want[i], &v, CV[sel[i]].sz); off += 8; }
    }
    va_rep rep = {48, 304, over, NULL};
    va_list va;
    memcpy(va, &rep, sizeof(rep));
    VF_CHECK(metac_count_format_specifiers(fmt) == (size_t)n, "the number of conversions is the number of arguments");
#ifdef FAILS
    long fk = (long)vf_range(1, 30);
    mw_begin(0);
    metac_parameter_storage_t *st = metac_new_parameter_storage();
    mw_fail_at = fk;
    int res = metac_store_vprintf_params(st, fmt, va);
    mw_fail_at = 0;
    if (mw_failed && res != 0) { metac_parameter_storage_delete(st); VF_CHECK(mw_live == 0, "no leak"); mw_end(); return; }
    VF_CHECK(res == 0, "a well-formed format is captured");
#elif defined(HANDLER)
    /* the call f(ints..., format, ... or a list): the handler of printf formats reads the format from the parameter before the variable part */
    static metac_entry_t ps[6], e_vt, e_pvt, e_ms; static char over2[320] __attribute__((aligned(16)));
    int k = (int)vf_range(0, 3), list = vf_bool(), none = vf_range(0, 9) == 0, nop = vf_range(0, 9) == 0, iv[3]; size_t o2 = (size_t)((k + 1) % 2) * 8;   /* the variable part starts at a multiple of 16 */
    metac_entry_t ti = VF_PARAM("i", &t_int), tf = VF_PARAM("format", nop ? &t_long : &t_pchar), tu = {.kind = METAC_KND_func_parameter, .func_parameter_info = {.unspecified_parameters = 1}};
    metac_entry_t vt = VF_STRUCT(METAC_KND_struct_type, "__va_list_tag", 24, 0, NULL), pv = VF_PTR(&e_vt), tl = VF_PARAM("ap", &e_pvt); e_vt = vt; e_pvt = pv;
    for (int i = 0; i < k; ++i) { ps[i] = ti; iv[i] = (int)vf_u64(); memcpy(over2 + o2, &iv[i], 4); o2 += 8; }
    const char *fp = none ? NULL : fmt; ps[k] = tf; memcpy(over2 + o2, &fp, 8); o2 += 8;
    ps[k + 1] = list ? tl : tu; int after = list && vf_bool(), av = (int)vf_u64(); if (after) { ps[k + 2] = ti; memcpy(over2 + o2 + 8, &av, 4); }   /* a list need not be the last parameter */
    va_rep rl = {48, 304, over, NULL}, *prl = &rl;
    if (list) memcpy(over2 + o2, &prl, 8); else memcpy(over2 + o2, over, sizeof(over));
    va_rep r2 = {48, 304, over2 + (size_t)((k + 1) % 2) * 8, NULL}; va_list va2; memcpy(va2, &r2, sizeof(r2));
    metac_entry_t f = VF_FUNC(METAC_KND_subprogram, "f", NULL, k + 2 + after, ps);
    mw_begin(0);
    metac_tag_map_t *map = metac_new_tag_map(NULL); metac_entry_tag_t tag = {.handler = metac_handle_printf_format}; VF_CHECK(map && metac_tag_map_set_tag(map, 0, 1, &ps[k + 1], METAC_TEO_entry, &tag) == 0, "tags");
    metac_value_t *fv = metac_new_value_with_call_params(&f); VF_CHECK(fv != NULL, "value with a parameter list");
    metac_parameter_storage_t *cs = metac_value_addr(fv);
    metac_value_t *rv = metac_value_parameter_vwrap(fv, map, va2);
    if (none || nop) { VF_CHECK(rv == NULL, "without a format the call is refused"); goto refused; }
    VF_CHECK(rv == fv && metac_parameter_storage_size(cs) == k + 2 + after, "the call is captured");
    for (int i = 0; i < k + after; ++i) { metac_value_t *x = metac_parameter_storage_new_param_value(cs, i < k ? i : k + 2); VF_CHECK(x && *(int *)metac_value_addr(x) == (i < k ? iv[i] : av), "the other parameters are captured"); metac_value_delete(x); }
    metac_value_t *va_v = metac_parameter_storage_new_param_value(cs, k + 1); VF_CHECK(va_v != NULL, "the variable part is there");
    metac_parameter_storage_t *st = metac_value_addr(va_v); metac_value_delete(va_v);
#else
    metac_parameter_storage_t *st = metac_new_parameter_storage();
    VF_CHECK(metac_store_vprintf_params(st, fmt, va) == 0, "a well-formed format is captured");
#endif
    VF_CHECK(metac_parameter_storage_size(st) == n, "one parameter per conversion");
    for (int i = 0; i < MAXC; ++i) for (int k = 0; k < 80; ++k) { if (i < n && CV[sel[i]].cls == 4 && ws[i]) { if (k == 0) { memcpy(want[i], &ws[i], 0); } } }
    static char keep[MAXC][80]; memcpy(keep, str, sizeof(keep)); memset(str, '!', sizeof(str));       /* captured strings are independent of the caller's memory */
    for (int i = 0; i < n; ++i) {
        metac_value_t *v = metac_parameter_storage_new_param_value(st, i);
        VF_CHECK(v != NULL, "every parameter is there");
        if (CV[sel[i]].cls == 4 && ws[i]) {
            size_t l = strlen(keep[i]);
            VF_CHECK(metac_value_has_elements(v) && metac_value_element_count(v) == (metac_num_t)l + 1 && memcmp(metac_value_addr(v), keep[i], l + 1) == 0, "a string is captured completely, with its terminator");
        } else {
            VF_CHECK(metac_value_entry(v) == CV[sel[i]].e, "the parameter has the type the conversion asks for");
            VF_CHECK(memcmp(metac_value_addr(v), want[i], CV[sel[i]].cls == 2 ? 10 : CV[sel[i]].sz) == 0, "the parameter holds the argument");
        }
        metac_value_delete(v);
    }
    VF_CHECK(metac_parameter_storage_new_param_value(st, n) == NULL, "no more parameters than conversions");
#ifdef HANDLER
refused:
    if (rv) metac_value_with_call_params_delete(fv); else metac_parameter_storage_delete(cs);
    metac_tag_map_delete(map);
    VF_CHECK(mw_live == 0, "no leak"); mw_end();
    metac_value_event_t none_ev = {.type = METAC_RQVST_pointer_array_count};
    VF_CHECK(metac_handle_printf_format(NULL, NULL, NULL) != 0 && metac_handle_printf_format(NULL, &none_ev, NULL) != 0, "other requests are refused");
    return;
#else
    metac_parameter_storage_delete(st);
    /* the same from a variable argument call */
    st = metac_new_parameter_storage(); int i0 = (int)vf_u64(); long l0 = (long)vf_u64(); double d0 = (double)(int)vf_u64() / 8; char s0[4] = {(char)vf_range('a', 'z'), (char)vf_range(0, 1), 0, 0};
    if (metac_store_printf_params(st, "%d and %s%ld%%%f", i0, s0, l0, d0) == 0) {
        VF_CHECK(metac_parameter_storage_size(st) == 4, "one parameter per conversion");
        for (int i = 0; i < 4; ++i) { metac_value_t *v = metac_parameter_storage_new_param_value(st, i); VF_CHECK(v && !memcmp(metac_value_addr(v), i == 0 ? (void *)&i0 : i == 1 ? (void *)s0 : i == 2 ? (void *)&l0 : (void *)&d0, i == 0 ? 4 : i == 1 ? strlen(s0) + 1 : 8), "the parameter holds the argument"); metac_value_delete(v); }
    } else VF_CHECK(0, "a well-formed format is captured");
    metac_parameter_storage_delete(st);
#endif
#ifdef FAILS
    VF_CHECK(mw_live == 0, "no leak"); mw_end();
#endif
    VF_CHECK(metac_store_vprintf_params(NULL, fmt, va) != 0, "no storage");
}
#endif
