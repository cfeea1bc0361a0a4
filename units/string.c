/* C15: rendered strings against an independent renderer (native).
 *  MODE 1 objects (shallow and deep)   MODE 2 calls   MODE 3 single scalars with any content */
#include "graph.h"
#include "memw.h"
#include <ctype.h>
#include <inttypes.h>
static char *o, *oe; static int refused;
static char buf[400000];
static void put(const char *f, ...) { va_list a; va_start(a, f); int n = vsnprintf(o, (size_t)(oe - o), f, a); va_end(a); VF_ASSUME(n >= 0 && n < oe - o); o += n; }
static void leaf(ty_t *t, char *a, fld_t *f, int64_t v, int bits) {   /* bits: the value of a bit-field */
    if (t->k == G_ENUM) {
        v = 0; memcpy(&v, a, t->size); if (t->cnt && t->size < 8) { int sh = 64 - 8 * (int)t->size; v = (int64_t)((uint64_t)v << sh) >> sh; }
        for (int i = 0; i < 3; ++i) if (t->e->kind == METAC_KND_enumeration_type || 1) if (v == i - t->cnt) { put("%s", i == 0 ? "red" : i == 1 ? "green" : "blue"); return; }
        put("%" PRIi64, v); return;
    }
#define V(ct) (bits ? (ct)v : *(ct *)a)
    switch (t->leaf) {
    case L_CHAR: { signed char c = V(signed char); if (c >= 32 && c < 127) put("'%c'", c); else put("%d", c); break; }
    case L_UCHAR: put("%d", V(uint8_t)); break;
    case L_SHORT: put("%d", V(int16_t)); break;
    case L_USHORT: put("%d", V(uint16_t)); break;
    case L_INT: put("%d", V(int32_t)); break;
    case L_UINT: put("%u", V(uint32_t)); break;
    case L_LONG: case L_LLONG: put("%ld", V(long)); break;
    case L_ULONG: case L_ULLONG: put("%lu", V(unsigned long)); break;
    case L_BOOL: put("%s", (bits ? (v & 1) : *a) ? "true" : "false"); break;
    case L_FLOAT: put("%f", (double)*(float *)a); break;
    case L_DOUBLE: put("%f", *(double *)a); break;
    case L_LDOUBLE: put("%Lf", *(long double *)a); break;
    default: {
        long double re = t->leaf == L_FC ? ((float *)a)[0] : t->leaf == L_DC ? ((double *)a)[0] : ((long double *)a)[0], im = t->leaf == L_FC ? ((float *)a)[1] : t->leaf == L_DC ? ((double *)a)[1] : ((long double *)a)[1];
        if (im < 0) put("%Lf - I * %Lf", re, -im); else put("%Lf + I * %Lf", re, im); }
    }
}
static int deep, withmap; static char *path[64]; static int npath;
static void render(ty_t *t, char *a, fld_t *f);
static int fits_string(ty_t *el, char *a, long n) {
    if (el->k != G_BASE || el->leaf != L_CHAR || n < 2 || a[n - 1]) return 0;
    for (long i = 0; i < n - 1; ++i) if (!(a[i] >= 32 && a[i] < 127) && !(a[i] >= 7 && a[i] <= 13)) return 0;
    return 1;
}
static void seq(ty_t *el, char *a, long n) {
    if (fits_string(el, a, n)) {
        put("\"");
        for (long i = 0; i < n - 1; ++i) switch (a[i]) {
            case '\n': put("\\n"); break; case '\r': put("\\r"); break; case '\t': put("\\t"); break; case '\v': put("\\v"); break; case '\b': put("\\b"); break; case '\f': put("\\f"); break; case '\a': put("\\a"); break;
            case '\\': case '\'': case '"': case '?': put("\\%c", a[i]); break; default: put("%c", a[i]); }
        put("\"");
        return;
    }
    put("{"); for (long i = 0; i < n; ++i) { if (i) put(" "); render(el, a + i * (long)el->size, NULL); put(","); } put("}");
}
static int wrapped(fld_t *f) { return !(f && f->me && f->me->name == NULL); }
static void member(fld_t *x, char *a, char *at, int *first) {     /* .name = value, */
    char *start = o; if (!*first) put(" ");
    int anon = x->me->name == NULL; char *v;
    if (!anon) put(".%s = ", x->me->name);
    v = o;
    if (x->bitw) { int64_t b = (int64_t)g_bits(a, x->bitpos, x->bitw); int l = x->t->leaf; if ((l == L_CHAR || l == L_SHORT || l == L_INT || l == L_LONG || l == L_LLONG) && x->bitw < 64) { int sh = 64 - x->bitw; b = (int64_t)((uint64_t)b << sh) >> sh; } leaf(x->t, NULL, x, b, 1); }
    else render(x->t, at, x);
    if (o == v) { o = start; *o = 0; return; }                    /* nothing to show */
    if (!anon) put(",");
    *first = 0;
}
static void render(ty_t *t, char *a, fld_t *f) {
    if (refused) return;
    switch (t->k) {
    case G_BASE: case G_ENUM: leaf(t, a, f, 0, 0); break;
    case G_ARR: {
        long n = t->cnt;
        if (n < 0) { if (!withmap) n = 0; else if (f->tag == T_FLEX0) break; /* nobody explains it: nothing to show */ else n = *(uint8_t *)(a + f->delta); }
        seq(t->el, a, n); break; }
    case G_STRUCT: case G_UNION: {
        int first = 1, w = wrapped(f);
        if (w) put("{");
        if (t->k == G_STRUCT) for (int i = 0; i < t->nf; ++i) member(&t->f[i], a, a + t->f[i].off, &first);
        else if (f && f->tag == T_SEL && withmap) member(&t->f[*(uint8_t *)(a + f->delta)], a, a, &first);
        if (w) put("}");
        break; }
    case G_PTR: {
        char *p = *(char **)a; ty_t *el; long n; char *base;
        if (!p) { put("NULL"); break; }
        if (!deep) { put("%p", p); break; }
        for (int i = 0; i < npath; ++i) if (path[i] == p) { refused = 1; return; }
        if (!g_target(t, f, a, &el, &n, &base)) { put("%p", p); break; }
        if (base != p) { refused = 1; return; }                    /* the structure around the target can't be written down */
        VF_ASSUME(npath < 64); path[npath++] = p;
        char *at = o; seq(el, p, n);
        --npath;
        if (refused) return;
        if (*at != '"') {   /* (type [])value; the text of the type is what C16 checks */
            metac_entry_t arr = VF_ARR(el->e, -1); char *c = metac_entry_cdecl(&arr); VF_CHECK(c != NULL, "type"); size_t l = strlen(c) + 8; static char tb[4096]; VF_ASSUME(l < sizeof(tb)); tb[0] = '('; sprintf(tb + 1, c, ""); strcat(tb, ")"); free(c);
            l = strlen(tb); VF_ASSUME(o + l < oe); memmove(at + l, at, (size_t)(o - at) + 1); memcpy(at, tb, l); o += l;
        }
        break; }
    }
}
#if MODE == 1
/* strings worth rendering as such */
static void texts(void) {
    for (int b = 0; b < g_nb; ++b) if (g_b[b].str || (g_b[b].el->k == G_BASE && g_b[b].el->leaf == L_CHAR)) {
        if (vf_range(0, 3) == 0) continue;
        for (size_t i = 0; i + 1 < g_b[b].size; ++i) g_b[b].p[i] = vf_bool() ? (char)vf_range(32, 126) : "\n\r\t\v\b\f\a\\'\"?"[vf_range(0, 10)];
    }
}
static void anon(void) {    /* take the names of some structure and union members away */
    for (int i = 0; i < g_nt; ++i) { ty_t *t = &g_ty[i]; if (t->k != G_STRUCT || t->e->kind != METAC_KND_struct_type) continue; for (int j = 0; j < t->nf; ++j) if ((t->f[j].t->k == G_STRUCT || t->f[j].t->k == G_UNION) && vf_range(0, 2) == 0) t->f[j].me->name = NULL; }
}
void harness(void) {
    g_upmode = METAC_UPTR_as_values; g_unmode = METAC_UNION_as_mem; g_dag = 1; g_opt = 0; g_flx = vf_range(0, 2) == 0 ? METAC_FLXARR_ignore : METAC_FLXARR_fail;
    g_build(vf_range(0, 2) == 0 ? (int)vf_range(1, 3) : 0); texts(); anon();
    deep = vf_bool(); withmap = deep ? 1 : vf_bool();
    metac_tag_map_t *tm = g_tags(); VF_CHECK(tm != NULL, "tags"); metac_value_t *v = metac_new_value(g_rt->e, g_root);
    uint64_t h = g_hash();
    o = buf; oe = buf + sizeof(buf); *o = 0; refused = 0; npath = 0;
    render(g_rt, g_root, NULL);
    mw_begin(0);
    char *r = deep || withmap ? metac_value_string_ex(v, deep ? METAC_WMODE_deep : METAC_WMODE_shallow, withmap ? tm : NULL) : metac_value_string(v);
    VF_CHECK(mw_live == (r != NULL), "nothing but the string stays allocated");
    mw_end();
    VF_CHECK(g_hash() == h, "the value is unchanged");
    if (refused) VF_CHECK(r == NULL, "recursion through pointers is refused");
    else {
        VF_CHECK(r != NULL, "every value is rendered");
        if (getenv("GSHOW") && strcmp(r, buf)) printf("want %s\ngot  %s\n", buf, r);
        VF_CHECK(!strcmp(r, buf), "the string shows every value completely");
    }
    free(r);
    VF_CHECK(metac_value_string(NULL) == NULL && metac_value_string_ex(NULL, METAC_WMODE_deep, tm) == NULL, "no value, no string");
    metac_value_delete(v); metac_tag_map_delete(tm); g_drop();
}
#elif MODE == 2
static char fname[100];
void harness(void) {
    g_np = g_nt = g_nnums = g_nn = g_nen = 0; g_opt = 0; g_nb = 0; g_upmode = METAC_UPTR_as_values; deep = 0; withmap = 0;
    int n = (int)vf_range(0, 6), va = (int)vf_range(0, 2), nv = va ? (int)vf_range(0, 5) : 0, sub = vf_bool();   /* va: 1 unspecified, 2 va_list */
    ty_t *t[16]; static metac_entry_t ps[8], fn, vl, vt; static ty_t strt; static char data[16][64] __attribute__((aligned(16))); size_t sz[16];
    int ln = (int)vf_range(1, 90); for (int i = 0; i < ln; ++i) fname[i] = 'a' + i % 26; fname[ln] = 0;
    memset(ps, 0, sizeof(ps));
    for (int i = 0; i < n + nv; ++i) {
        if (i >= n && vf_range(0, 3) == 0) { ty_t *c = g_base(L_CHAR); long l = (long)vf_range(1, 30); t[i] = g_arr(c, l); sz[i] = (size_t)l; for (long k = 0; k + 1 < l; ++k) data[i][k] = vf_range(0, 30) ? (char)vf_range(32, 126) : '\n'; data[i][l - 1] = 0; if (vf_range(0, 4) == 0) data[i][0] = 1; continue; }
        t[i] = vf_range(0, 3) == 0 ? g_ptr(vf_bool() ? g_base(L_INT) : NULL) : g_scalar(); sz[i] = t[i]->size;
        memset(data[i], 0, 64); if (t[i]->k == G_PTR) { if (vf_bool()) *(uint64_t *)data[i] = vf_u64(); } else g_leafval(t[i], data[i]);
    }
    for (int i = 0; i < n; ++i) ps[i] = (metac_entry_t)VF_PARAM("p", t[i]->e);
    ps[n].kind = METAC_KND_func_parameter; ps[n].func_parameter_info.unspecified_parameters = 1;
    if (va == 2) { vt = (metac_entry_t)VF_BASE("char", METAC_ENC_signed_char, 1); vl = (metac_entry_t)VF_TYPEDEF("va_list", &vt); ps[n] = (metac_entry_t)VF_PARAM("ap", &vl); }
    fn = (metac_entry_t)VF_FUNC(METAC_KND_subprogram, fname, NULL, n + !!va, ps);
    if (sub) fn.kind = METAC_KND_subroutine_type;
    metac_parameter_storage_t *st = metac_new_parameter_storage(); VF_CHECK(st != NULL, "storage");
    for (int i = 0; i < n; ++i) { VF_CHECK(metac_parameter_storage_append_by_buffer(st, &ps[i], (metac_num_t)sz[i]) == 0, "append"); metac_value_t *v = metac_parameter_storage_new_param_value(st, i); memcpy(metac_value_addr(v), data[i], sz[i]); metac_value_delete(v); }
    if (va) {
        VF_ASSUME(metac_parameter_storage_append_by_parameter_storage(st, &ps[n]) == 0); metac_value_t *v = metac_parameter_storage_new_param_value(st, n); metac_parameter_storage_t *in = metac_value_addr(v);
        for (int i = 0; i < nv; ++i) { VF_CHECK(metac_parameter_storage_append_by_buffer(in, t[n + i]->e, (metac_num_t)sz[n + i]) == 0, "append"); metac_value_t *x = metac_parameter_storage_new_param_value(in, i); memcpy(metac_value_addr(x), data[n + i], sz[n + i]); metac_value_delete(x); }
        metac_value_delete(v);
    }
    o = buf; oe = buf + sizeof(buf); *o = 0; refused = 0;
    put(sub ? "(%s)(" : "%s(", fname); int first = 1;
    for (int i = 0; i < n; ++i) { if (!first) put(", "); first = 0; render(t[i], data[i], NULL); }
    if (va == 2) { if (!first) put(", "); put("VA_LIST("); first = 1; }
    for (int i = n; i < n + nv; ++i) {
        if (!first) put(", "); first = 0;
        if (t[i]->k != G_ARR || !fits_string(t[i]->el, data[i], t[i]->cnt)) { char *c = metac_entry_cdecl(t[i]->e), tb[300]; snprintf(tb, sizeof(tb), c, ""); free(c); size_t l = strlen(tb); while (l && tb[l - 1] == ' ') tb[--l] = 0; put("(%s)", tb); }
        render(t[i], data[i], NULL);
    }
    if (va == 2) put(")");
    put(")");
    metac_value_t *v = metac_new_value(&fn, st); VF_CHECK(v != NULL, "call");
    mw_begin(0); char *r = metac_value_string(v); VF_CHECK(r != NULL, "every call is rendered"); VF_CHECK(mw_live == 1, "nothing but the string stays allocated"); mw_end();
    if (getenv("GSHOW") && strcmp(r, buf)) printf("want %s\ngot  %s\n", buf, r);
    VF_CHECK(!strcmp(r, buf), "the string shows the function and every parameter, in order");
    free(r); metac_value_delete(v); metac_parameter_storage_delete(st);
}
#else
void harness(void) {
    g_np = g_nt = g_nnums = g_nn = g_nen = 0; g_opt = 0;
    static char a[64] __attribute__((aligned(16)));
    ty_t *t = g_scalar(); vf_bytes(a, 32); if (vf_range(0, 3) == 0) memset(a, vf_bool() ? 0 : 0xff, 32); if (t->k == G_BASE && t->leaf == L_BOOL) *a &= 1;
    if (t->k == G_BASE && t->leaf == L_LDOUBLE) { int e = (int)vf_range(0, 400); *(long double *)a = vf_bool() ? (long double)(int64_t)vf_u64() : -1.5L; for (int i = 0; i < e; ++i) *(long double *)a *= vf_bool() ? 10.0L : 3.0L; }
    if (t->k == G_BASE && t->leaf == L_LDC) for (int j = 0; j < 2; ++j) { int e = (int)vf_range(0, 400); long double x = (long double)(int64_t)vf_u64(); for (int i = 0; i < e; ++i) x *= 10.0L; ((long double *)a)[j] = x; }
    o = buf; oe = buf + sizeof(buf); *o = 0; refused = 0; render(t, a, NULL);
    metac_value_t *v = metac_new_value(t->e, a); mw_begin(0); char *r = metac_value_string(v); VF_CHECK(r != NULL && mw_live == 1, "every scalar is rendered"); mw_end();
    if (getenv("GSHOW") && strcmp(r, buf)) printf("%s: want %s\ngot  %s\n", g_leaf[t->leaf].n, buf, r);
    VF_CHECK(!strcmp(r, buf), "as C prints it, completely");
    free(r); metac_value_delete(v);
}
#endif
