/* Native only: pseudo-random types (described to the library by hand-built entries) and pseudo-random object graphs
 * over them, with an oracle that walks both by itself.  Used by the deep copy/delete/compare, string and
 * allocation-failure units. */
#ifndef VF_GRAPH_H_
#define VF_GRAPH_H_
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <complex.h>
#include <stdbool.h>
#include "ent.h"
#include "metac/reflect.h"
#include "metac/backend/value.h"

enum { G_BASE = 1, G_ENUM, G_ARR, G_STRUCT, G_UNION, G_PTR };
enum { T_NONE = 0, T_COUNT, T_STR, T_CAST, T_SEL, T_FLEX, T_COUNTFIELD, T_SELFIELD, T_FLEX0 /* flexible array nobody explains: no elements */ };
typedef struct ty ty_t;
typedef struct fld { ty_t *t; size_t off; int tag; long delta; ty_t *real; size_t coff; int bitw; size_t bitpos; metac_entry_t *me, *rptr; char name[8]; } fld_t;
struct ty { int k; size_t size, align, sig; metac_entry_t *e; ty_t *el; long cnt; int nf, flex, leaf, has; fld_t f[12]; };
#define G_NT 256
static metac_entry_t g_pool[1024]; static int g_np;
static ty_t g_ty[G_NT]; static int g_nt;
static ty_t *g_st[4]; static int g_nst;                 /* the structure types */
static metac_offset_t g_nums[512]; static int g_nnums;
static char g_names[64][8]; static int g_nn;
static int g_upmode, g_unmode, g_dag, g_opt;            /* modes; g_opt: G_O_* features left out */
#define G_O_NOBITS 1
#define G_O_NOTAGS 2
#define G_O_NOFLOAT 4
static metac_entry_t *g_e(void) { VF_ASSUME(g_np < 1024); metac_entry_t *e = &g_pool[g_np++]; memset(e, 0, sizeof(*e)); return e; }
static ty_t *g_t(int k) { VF_ASSUME(g_nt < G_NT); ty_t *t = &g_ty[g_nt++]; memset(t, 0, sizeof(*t)); t->k = k; return t; }
static metac_offset_t *g_num(long v) { VF_ASSUME(g_nnums < 512); g_nums[g_nnums] = v; return &g_nums[g_nnums++]; }
static char *g_name(char c) { VF_ASSUME(g_nn < 64); snprintf(g_names[g_nn], 8, "%c%d", c, g_nn); return g_names[g_nn++]; }

enum { L_CHAR, L_UCHAR, L_SHORT, L_USHORT, L_INT, L_UINT, L_LONG, L_ULONG, L_LLONG, L_ULLONG, L_BOOL, L_FLOAT, L_DOUBLE, L_LDOUBLE, L_FC, L_DC, L_LDC, L_N };
static const struct { const char *n; int enc; size_t s, a, sig; } g_leaf[L_N] = {
    {"char", METAC_ENC_signed_char, 1, 1, 1}, {"unsigned char", METAC_ENC_unsigned_char, 1, 1, 1}, {"short int", METAC_ENC_signed, 2, 2, 2}, {"unsigned short int", METAC_ENC_unsigned, 2, 2, 2},
    {"int", METAC_ENC_signed, 4, 4, 4}, {"unsigned int", METAC_ENC_unsigned, 4, 4, 4}, {"long int", METAC_ENC_signed, 8, 8, 8}, {"unsigned long int", METAC_ENC_unsigned, 8, 8, 8},
    {"long long int", METAC_ENC_signed, 8, 8, 8}, {"unsigned long long int", METAC_ENC_unsigned, 8, 8, 8}, {"_Bool", METAC_ENC_boolean, 1, 1, 1},
    {"float", METAC_ENC_float, 4, 4, 4}, {"double", METAC_ENC_float, 8, 8, 8}, {"long double", METAC_ENC_float, 16, 16, 10},
    {"complex float", METAC_ENC_complex_float, 8, 4, 8}, {"complex double", METAC_ENC_complex_float, 16, 8, 16}, {"long complex double", METAC_ENC_complex_float, 32, 16, 26}};
static ty_t *g_base(int l) {
    ty_t *t = g_t(G_BASE); t->leaf = l; t->size = g_leaf[l].s; t->align = g_leaf[l].a; t->sig = g_leaf[l].sig; t->e = g_e();
    *t->e = (metac_entry_t)VF_BASE((char *)g_leaf[l].n, g_leaf[l].enc, g_leaf[l].s); return t;
}
static struct metac_type_enumerator_info g_enums[64][3]; static int g_nen;
static ty_t *g_enum(void) {
    static const size_t sz[4] = {1, 2, 4, 8};
    ty_t *t = g_t(G_ENUM); t->size = t->align = t->sig = sz[vf_range(0, 3)]; t->e = g_e(); VF_ASSUME(g_nen < 64);
    int neg = vf_bool();
    for (int i = 0; i < 3; ++i) { g_enums[g_nen][i].name = (char *)(i == 0 ? "red" : i == 1 ? "green" : "blue"); g_enums[g_nen][i].const_value = i - neg; }
    t->cnt = neg;
    t->e->kind = METAC_KND_enumeration_type; t->e->name = g_name('e'); t->e->enumeration_type_info.byte_size = t->size;
    t->e->enumeration_type_info.enumerators_count = 3; t->e->enumeration_type_info.enumerators = g_enums[g_nen++]; return t;
}
static ty_t *g_ptr(ty_t *el) {
    ty_t *t = g_t(G_PTR); t->size = t->align = 8; t->el = el; t->e = g_e(); *t->e = (metac_entry_t)VF_PTR(el ? el->e : NULL); return t;
}
static ty_t *g_arr(ty_t *el, long n) {
    ty_t *t = g_t(G_ARR); t->el = el; t->cnt = n; t->align = el->align; t->size = n < 0 ? 0 : el->size * n; t->has = el->has; t->e = g_e(); *t->e = (metac_entry_t)VF_ARR(el->e, n); return t;
}
static ty_t *g_wrap(ty_t *x) {   /* typedef or volatile */
    ty_t *t = g_t(0); *t = *x; t->e = g_e();
    if (vf_bool()) { *t->e = (metac_entry_t)VF_TYPEDEF(g_name('t'), x->e); } else { *t->e = (metac_entry_t)VF_QUAL(METAC_KND_volatile_type, x->e); }
    return t;
}
static ty_t *g_scalar(void) {
    int r = (int)vf_range(0, 5);
    ty_t *t = r == 0 ? g_enum() : g_base((int)vf_range(0, (g_opt & G_O_NOFLOAT) ? L_BOOL : L_N - 1));
    return vf_range(0, 4) == 0 ? g_wrap(t) : t;
}
static ty_t *g_any(int maxst, int depth);
static fld_t *g_addf(ty_t *s, ty_t *t) {
    fld_t *f = &s->f[s->nf++]; f->t = t;
    s->size = (s->size + t->align - 1) / t->align * t->align; f->off = s->size; s->size += t->size;
    if (t->align > s->align) s->align = t->align;
    snprintf(f->name, sizeof(f->name), "f%d", s->nf - 1);
    return f;
}
static ty_t *g_ptarget(void) { switch (vf_range(0, 3)) { case 0: return g_scalar(); case 1: return g_ptr(g_base(L_INT)); default: return g_st[vf_range(0, g_nst - 1)]; } }
static int g_flx; /* METAC_FLXARR_ignore: flexible arrays without a handler too */
static int g_flexst(ty_t *t) { return t->k == G_STRUCT && t->flex; }
static long g_alen(ty_t *t, char *a, fld_t *f) { return t->cnt >= 0 ? t->cnt : f->tag == T_FLEX0 ? 0 : *(uint8_t *)(a + f->delta); }
static void g_members(ty_t *s) {
    metac_entry_t *m = &g_pool[g_np]; VF_ASSUME(g_np + s->nf < 1024); g_np += s->nf;
    for (int i = 0; i < s->nf; ++i) {
        fld_t *f = &s->f[i]; f->me = &m[i];
        m[i] = (metac_entry_t)VF_MEMBER(f->name, f->t->e, f->off);
        if (f->bitw) {
            m[i].member_info.p_bit_size = (metac_size_t *)g_num(f->bitw);
            if (vf_bool()) { m[i].member_info.byte_offset = 0; m[i].member_info.p_data_bit_offset = g_num(f->bitpos); }
            else { m[i].member_info.p_bit_offset = g_num((long)((f->off + f->t->size) * 8 - f->bitpos - f->bitw)); m[i].member_info.p_byte_size = (metac_size_t *)g_num(f->t->size); }
        }
    }
    metac_entry_t *e = s->e; char *n = e->name;
    *e = (metac_entry_t)VF_STRUCT(s->k == G_UNION ? METAC_KND_union_type : METAC_KND_struct_type, n, s->size, s->nf, m);
}
static ty_t *g_union(void) {
    ty_t *u = g_t(G_UNION); u->align = 1; int n = (int)vf_range(1, 3); u->e = g_e(); u->e->name = g_name('u');
    for (int i = 0; i < n; ++i) {
        ty_t *t = vf_bool() ? g_scalar() : g_arr(g_base(L_SHORT), (long)vf_range(1, 3));
        if (!(g_opt & G_O_NOTAGS) && vf_range(0, 3) == 0) t = g_ptr(g_base(L_LONG));
        fld_t *f = &u->f[u->nf++]; f->t = t; snprintf(f->name, 8, "m%d", i);
        if (t->size > u->size) u->size = t->size;
        if (t->align > u->align) u->align = t->align;
    }
    u->size = (u->size + u->align - 1) / u->align * u->align;
    g_members(u);
    return u;
}
static void g_struct(ty_t *s, int idx, int may_flex) {
    s->align = 1; s->size = 0; s->nf = 0;
    int n = (int)vf_range(0, 4);
    for (int i = 0; i < n && s->nf < 6; ++i) {
        int tags = !(g_opt & G_O_NOTAGS);
        switch (vf_range(0, 9)) {
        case 0: case 1: case 2: g_addf(s, g_scalar()); break;
        case 3: { fld_t *f = g_addf(s, vf_range(0, 3) == 0 ? g_wrap(g_ptr(g_ptarget())) : g_ptr(g_ptarget())); (void)f; break; }
        case 4: if (idx > 0) { ty_t *sub = g_st[vf_range(0, idx - 1)]; if (!g_flexst(sub)) g_addf(s, vf_bool() ? sub : g_arr(sub, (long)vf_range(0, 2))); } break;
        case 5: g_addf(s, g_arr(vf_range(0, 2) == 0 ? g_ptr(g_ptarget()) : g_scalar(), (long)vf_range(0, 3))); break;
        case 6: if (tags) {     /* counted pointer */
            fld_t *c = g_addf(s, g_base(L_UCHAR)); c->tag = T_COUNTFIELD;
            size_t co = c->off; ty_t *el = g_ptarget();
            fld_t *f = g_addf(s, g_ptr(el)); f->tag = T_COUNT; f->real = el; f->delta = (long)co - (long)f->off;
        } break;
        case 7: if (tags) { if (vf_bool()) { ty_t *el = g_base(L_CHAR); fld_t *f = g_addf(s, g_ptr(el)); f->tag = T_STR; f->real = el; }
            else { ty_t *el = g_ptarget(); int cont = el->k == G_STRUCT && el->nf > 1 && !el->f[1].bitw; fld_t *f = g_addf(s, cont ? g_ptr(el->f[1].t) : g_ptr(NULL)); f->tag = T_CAST; f->real = el; f->coff = cont ? el->f[1].off : 0; ty_t *rp = g_ptr(el); f->rptr = rp->e; } } break;
        case 8: if (tags && vf_bool()) { fld_t *c = g_addf(s, g_base(L_UCHAR)); c->tag = T_SELFIELD; size_t co = c->off; fld_t *f = g_addf(s, g_union()); f->tag = T_SEL; f->delta = (long)co - (long)f->off; }
            else if (g_unmode != METAC_UNION_fail) g_addf(s, g_union());
            else g_addf(s, g_ptr(NULL));
            break;
        default: if (!(g_opt & G_O_NOBITS)) {    /* a group of bit-fields in one storage unit */
            int l = (int)vf_range(0, L_BOOL); ty_t *b = g_base(l); size_t w = l == L_BOOL ? 1 : b->size * 8, at = 0;
            int m = (int)vf_range(1, 2); size_t unit = 0;
            for (int j = 0; j < m && s->nf < 7 && at < w; ++j) {
                size_t bw = (size_t)vf_range(1, w - at); fld_t *f;
                if (j == 0) { f = g_addf(s, b); unit = f->off; } else { f = &s->f[s->nf++]; f->t = b; f->off = unit; snprintf(f->name, 8, "f%d", s->nf - 1); }
                f->bitw = (int)bw; f->bitpos = unit * 8 + at; at += bw;
            }
        }
        }
    }
    if (may_flex && g_flx == METAC_FLXARR_ignore && vf_range(0, 2) == 0) { if (s->size == 0) g_addf(s, g_base(L_INT)); fld_t *f = g_addf(s, g_arr(vf_bool() ? g_scalar() : g_ptr(g_ptarget()), -1)); f->tag = T_FLEX0; s->flex = 2; }
    else if (may_flex && !(g_opt & G_O_NOTAGS) && vf_range(0, 3) == 0) {
        fld_t *c = g_addf(s, g_base(L_UCHAR)); c->tag = T_COUNTFIELD; size_t co = c->off;
        fld_t *f = g_addf(s, g_arr(vf_bool() ? g_scalar() : g_ptr(g_ptarget()), -1)); f->tag = T_FLEX; f->delta = (long)co - (long)f->off; s->flex = 1;
    }
    s->size = (s->size + s->align - 1) / s->align * s->align;
    if (s->size == 0) g_addf(s, g_base(L_INT));
    g_members(s);
}
static void g_types(void) {
    g_np = g_nt = g_nnums = g_nn = g_nen = 0;
    g_nst = (int)vf_range(1, 3);
    for (int i = 0; i < g_nst; ++i) { g_st[i] = g_t(G_STRUCT); g_st[i]->e = g_e(); g_st[i]->e->kind = METAC_KND_struct_type; g_st[i]->e->name = g_name('s'); }
    for (int i = 0; i < g_nst; ++i) g_struct(g_st[i], i, i < g_nst - 1);   /* the last one is the root: no flexible array */
}
/* ---- handlers: the tag's context is the field ---- */
static int g_handler(metac_value_walker_hierarchy_t *h, metac_value_event_t *ev, void *cx) {
    fld_t *f = cx; metac_value_t *v = metac_value_walker_hierarchy_value(h, 0); char *a = metac_value_addr(v);
    switch (f->tag) {
    case T_COUNT: if (ev->type == METAC_RQVST_pointer_array_count) { ev->p_return_value = metac_new_element_count_value(v, *(uint8_t *)(a + f->delta)); return ev->p_return_value ? 0 : -1; } break;
    case T_STR: if (ev->type == METAC_RQVST_pointer_array_count) { ev->p_return_value = metac_new_element_count_value(v, strlen(*(char **)a) + 1); return ev->p_return_value ? 0 : -1; } break;
    case T_FLEX: if (ev->type == METAC_RQVST_flex_array_count) { ev->p_return_value = metac_new_element_count_value(v, *(uint8_t *)(a + f->delta)); return ev->p_return_value ? 0 : -1; } break;
    case T_SEL: if (ev->type == METAC_RQVST_union_member) { ev->p_return_value = metac_new_value_by_member_id(v, *(uint8_t *)(a + f->delta)); return ev->p_return_value ? 0 : -1; } break;
    case T_CAST: if (ev->type == METAC_RQVST_pointer_array_count) {
        char *adj = *(char **)a - f->coff; metac_value_t *t = metac_new_value(f->rptr, &adj); if (!t) return -1;
        ev->p_return_value = metac_new_element_count_value(t, 1); metac_value_delete(t); return ev->p_return_value ? 0 : -1; } break;
    }
    return 0;
}
static metac_tag_map_t *g_tags(void) {
    metac_tag_map_t *m = metac_new_tag_map(NULL);
    if (!m) return NULL;
    for (int i = 0; i < g_nt; ++i) {
        ty_t *t = &g_ty[i];
        if (t->k != G_STRUCT || (t->e->kind != METAC_KND_struct_type)) continue;
        for (int j = 0; j < t->nf; ++j) if (t->f[j].tag >= T_COUNT && t->f[j].tag <= T_FLEX) {
            metac_entry_tag_t tg = {.p_context = &t->f[j], .handler = g_handler};
            if (metac_tag_map_set_tag(m, 0, 1, t->f[j].me, METAC_TEO_entry, &tg) != 0) { metac_tag_map_delete(m); return NULL; }
        }
    }
    return m;
}
/* ---- data ---- */
typedef struct blk { char *p; ty_t *el; long n; size_t size; int str; } blk_t;
#define G_NB 24
static blk_t g_b[G_NB]; static int g_nb;
static struct { char *slot; ty_t *pt; fld_t *f; } g_null[64]; static int g_nnull;
static struct { char *a; ty_t *t; int b; long i, m; } g_sub[512]; static int g_nsub;
static size_t g_bsize(ty_t *el, long n, long flexn) {
    if (n == 1 && g_flexst(el)) { fld_t *f = &el->f[el->nf - 1]; size_t s = f->off + f->t->el->size * (size_t)flexn; return s > el->size ? s : el->size; }
    return el->size * (size_t)n;
}
static void g_leafval(ty_t *t, char *a) {
    if (t->k == G_ENUM) { long v = vf_range(0, 3) ? (long)vf_range(0, 2) - t->cnt : (long)vf_u64() & 0x7f; memcpy(a, &v, t->size); return; }
    uint64_t r = vf_u64();
    switch (t->leaf) {
    case L_BOOL: *a = r & 1; break;
    case L_FLOAT: *(float *)a = (float)(int)r / 8; break;
    case L_DOUBLE: *(double *)a = (double)(long)r / 16; break;
    case L_LDOUBLE: *(long double *)a = (long double)(long)r / 3; break;
    case L_FC: *(float complex *)a = (float)(int)r + (float)(short)(r >> 13) * I; break;
    case L_DC: *(double complex *)a = (double)(int)r + (double)(short)(r >> 13) * I; break;
    case L_LDC: *(long double complex *)a = (long double)(int)r + (long double)(short)(r >> 13) * I; break;
    default: memcpy(a, &r, t->size);
    }
}
static void g_setbits(char *s, size_t pos, int w, uint64_t v) { for (int i = 0; i < w; ++i) { size_t b = pos + i; s[b / 8] = (char)((s[b / 8] & ~(1 << (b % 8))) | (int)((v >> i) & 1) << (b % 8)); } }
static uint64_t g_bits(const char *s, size_t pos, int w) { uint64_t v = 0; for (int i = 0; i < w; ++i) v |= (uint64_t)((s[(pos + i) / 8] >> ((pos + i) % 8)) & 1) << i; return v; }
static void *(*g_alloc)(size_t, size_t) = calloc;
static void g_fill(ty_t *t, char *a, fld_t *f, int depth, long flexn);
static char *g_newblk(ty_t *el, long n, int depth) {
    VF_ASSUME(g_nb < G_NB);
    int b = g_nb++; long fx = g_flexst(el) && el->flex != 2 ? (long)vf_range(0, 3) : 0;
    size_t sz = g_bsize(el, n, fx);
    g_b[b].el = el; g_b[b].n = n; g_b[b].size = sz; g_b[b].str = 0; g_b[b].p = g_alloc(1, sz ? sz : 1);
    for (long i = 0; i < n; ++i) g_fill(el, g_b[b].p + i * (long)el->size, NULL, depth + 1, fx);
    return g_b[b].p;
}
static void g_fill(ty_t *t, char *a, fld_t *f, int depth, long flexn) {
    switch (t->k) {
    case G_BASE: case G_ENUM: g_leafval(t, a); break;
    case G_ARR: for (long i = 0; i < (t->cnt < 0 ? flexn : t->cnt); ++i) g_fill(t->el, a + i * (long)t->el->size, NULL, depth, 0); break;
    case G_STRUCT: for (int i = 0; i < t->nf; ++i) {
            fld_t *x = &t->f[i];
            if (x->bitw) g_setbits(a, x->bitpos, x->bitw, vf_u64());
            else if (x->tag == T_COUNTFIELD) *(uint8_t *)(a + x->off) = t->flex == 1 && i == t->nf - 2 ? (uint8_t)flexn : (uint8_t)vf_range(0, 3);
            else if (x->tag == T_SELFIELD) *(uint8_t *)(a + x->off) = (uint8_t)vf_range(0, t->f[i + 1].t->nf - 1);
            else g_fill(x->t, a + x->off, x, depth, flexn);
        } break;
    case G_UNION: if (f && f->tag == T_SEL) { fld_t *x = &t->f[*(uint8_t *)(a + f->delta)]; g_fill(x->t, a, x, depth, 0); } else vf_bytes(a, t->size < 16 ? t->size : 16); break;
    case G_PTR: {
        int tag = f && f->t == t ? f->tag : 0; ty_t *el = tag ? f->real : t->el;
        if (!el) {    /* void pointer nobody explains */
            if (g_upmode == METAC_UPTR_fail || vf_range(0, 2) == 0) *(void **)a = NULL;
            else if (g_upmode == METAC_UPTR_as_one_byte_ptr) { VF_ASSUME(g_nb < G_NB); static ty_t uc = {.k = G_BASE, .leaf = L_UCHAR, .size = 1, .align = 1, .sig = 1}; *(void **)a = g_newblk(&uc, 1, depth); }
            else *(uint64_t *)a = vf_u64() | 1;
            break;
        }
        if (depth > 4 || g_nb > 10 || vf_range(0, 3) == 0) { *(void **)a = NULL; if (g_nnull < 64) { g_null[g_nnull].slot = a; g_null[g_nnull].pt = t; g_null[g_nnull++].f = tag ? f : NULL; } break; }
        long n = 1;
        if (tag == T_COUNT) { n = *(uint8_t *)(a + f->delta); if (g_flexst(el)) *(uint8_t *)(a + f->delta) = (uint8_t)(n = 1); }
        if (tag == T_STR) { size_t l = (size_t)vf_range(0, 12); VF_ASSUME(g_nb < G_NB); int b = g_nb++; g_b[b].el = el; g_b[b].n = (long)l + 1; g_b[b].size = l + 1; g_b[b].str = 1; g_b[b].p = g_alloc(1, l + 1);
            for (size_t i = 0; i < l; ++i) g_b[b].p[i] = (char)vf_range(1, 255); *(char **)a = g_b[b].p; break; }
        char *p = g_newblk(el, n, depth);
        *(char **)a = p + (tag == T_CAST ? f->coff : 0); break; }
    }
}
static void g_subs(ty_t *t, char *a, int b, long i, long m, fld_t *f) {
    if (g_nsub < 512) { g_sub[g_nsub].a = a; g_sub[g_nsub].t = t; g_sub[g_nsub].b = b; g_sub[g_nsub].i = i; g_sub[g_nsub++].m = m; }
    if (t->k == G_ARR) { long n = g_alen(t, a, f); for (long k = 0; k < n; ++k) g_subs(t->el, a + k * (long)t->el->size, b, k, n, NULL); }
    if (t->k == G_STRUCT) for (int k = 0; k < t->nf; ++k) if (!t->f[k].bitw) g_subs(t->f[k].t, a + t->f[k].off, b, 0, 1, &t->f[k]);
}
/* structural identity of types as the pointers see them (wrappers are separate ty_t with the same shape) */
static int g_sameel(ty_t *a, ty_t *b) {
    if (a == b) return 1;
    if (a->k != b->k || a->size != b->size) return 0;
    if (a->k == G_BASE) return a->leaf == b->leaf;
    if (a->k == G_STRUCT) return a->f[0].me == b->f[0].me;
    return 0;
}
static void g_links(int max) {   /* let some NULL pointers share, look inside or close cycles */
    g_nsub = 0;
    for (int b = 0; b < g_nb; ++b) for (long i = 0; i < g_b[b].n; ++i) g_subs(g_b[b].el, g_b[b].p + i * (long)g_b[b].el->size, b, i, g_b[b].n, NULL);
    for (int i = 0; i < g_nnull && max > 0; ++i) {
        fld_t *f = g_null[i].f; int tag = f ? f->tag : 0; ty_t *el = tag ? f->real : g_null[i].pt->el;
        if (tag == T_STR || vf_range(0, 2) == 0 || g_nsub == 0) continue;
        int s = (int)vf_range(0, g_nsub - 1);
        for (int k = 0; k < g_nsub; ++k, s = (s + 1) % g_nsub) {
            if (!g_sameel(g_sub[s].t, el)) continue;
            if (g_flexst(el) && g_sub[s].a != g_b[g_sub[s].b].p) continue;
            long n = 1;
            /* tree mode: cycles are only closed by pointers that agree on the length */
            if (!g_dag && (g_sub[s].a != g_b[g_sub[s].b].p || !g_sameel(el, g_b[g_sub[s].b].el) || (tag != T_COUNT && g_b[g_sub[s].b].n != 1))) continue;
            if (!g_dag && tag == T_COUNT) { n = g_b[g_sub[s].b].n; *(uint8_t *)(g_null[i].slot + f->delta) = (uint8_t)n; }
            else if (tag == T_COUNT) { n = (long)vf_range(g_flexst(el) ? 1 : 0, g_sub[s].m - g_sub[s].i); *(uint8_t *)(g_null[i].slot + f->delta) = (uint8_t)n; }
            *(char **)g_null[i].slot = g_sub[s].a + (tag == T_CAST ? f->coff : 0); --max; break;
        }
    }
}
/* where a pointer leads: 0 nowhere (NULL or unexplained) */
static int g_target(ty_t *t, fld_t *f, char *a, ty_t **el, long *n, char **base) {
    static ty_t uc = {.k = G_BASE, .leaf = L_UCHAR, .size = 1, .align = 1, .sig = 1};
    int tag = f && f->t == t ? f->tag : 0; char *p = *(char **)a;
    if (!p) return 0;
    *el = tag ? f->real : t->el; *n = 1; *base = p;
    if (!*el) { if (g_upmode != METAC_UPTR_as_one_byte_ptr) return 0; *el = &uc; return 1; }
    if (tag == T_COUNT) *n = *(uint8_t *)(a + f->delta);
    if (tag == T_STR) *n = (long)strlen(p) + 1;
    if (tag == T_CAST) *base = p - f->coff;
    return 1;
}
static char g_root[1024] __attribute__((aligned(16))), g_root0[1024], g_dst[1024] __attribute__((aligned(16)));
static ty_t *g_rt;
static void g_showt(ty_t *t) {
    switch (t->k) { case G_BASE: fprintf(stderr, "%s", g_leaf[t->leaf].n); break; case G_ENUM: fprintf(stderr, "enum%zu", t->size); break;
    case G_ARR: g_showt(t->el); fprintf(stderr, "[%ld]", t->cnt); break; case G_PTR: if (!t->el) fprintf(stderr, "void"); else if (t->el->k == G_STRUCT) fprintf(stderr, "struct %s", t->el->e->name ? t->el->e->name : "?"); else g_showt(t->el); fprintf(stderr, "*"); break;
    default: fprintf(stderr, "%s %s(size %zu){", t->k == G_STRUCT ? "struct" : "union", t->e->name ? t->e->name : "?", t->size);
        for (int i = 0; i < t->nf; ++i) { g_showt(t->f[i].t); fprintf(stderr, " %s@%zu", t->f[i].name, t->f[i].off); if (t->f[i].bitw) fprintf(stderr, ":%d@%zu", t->f[i].bitw, t->f[i].bitpos); if (t->f[i].tag) fprintf(stderr, "<tag %d d %ld coff %zu>", t->f[i].tag, t->f[i].delta, t->f[i].coff); fprintf(stderr, "; "); }
        fprintf(stderr, "}"); }
}
static void g_show(void) {
    if (!getenv("GSHOW")) return;
    fprintf(stderr, "modes uptr %d union %d dag %d\n", g_upmode, g_unmode, g_dag);
    for (int i = 0; i < g_nst; ++i) { g_showt(g_st[i]); fprintf(stderr, "\n"); }
    fprintf(stderr, "root %p:", g_root); for (size_t i = 0; i < g_rt->size; ++i) fprintf(stderr, " %02x", (uint8_t)g_root[i]); fprintf(stderr, "\n");
    for (int b = 0; b < g_nb; ++b) { fprintf(stderr, "block %p %zu ", g_b[b].p, g_b[b].size); g_showt(g_b[b].el); fprintf(stderr, " x%ld:", g_b[b].n); for (size_t i = 0; i < g_b[b].size; ++i) fprintf(stderr, " %02x", (uint8_t)g_b[b].p[i]); fprintf(stderr, "\n"); }
}
/* everything: types, a root object and its graph */
static void g_build(int links) {
    g_types(); g_nb = 0; g_nnull = 0; g_rt = g_st[g_nst - 1]; VF_ASSUME(g_rt->size <= sizeof(g_root));
    memset(g_root, 0, sizeof(g_root));
    g_fill(g_rt, g_root, NULL, 0, 0);
    g_links(links);
    g_show();
}
static void g_drop(void) { for (int b = 0; b < g_nb; ++b) free(g_b[b].p); g_nb = 0; }
static uint64_t g_hash(void) {
    uint64_t h = 1469598103934665603ull;
    for (size_t i = 0; i < sizeof(g_root); ++i) h = (h ^ (uint8_t)g_root[i]) * 1099511628211ull;
    for (int b = 0; b < g_nb; ++b) for (size_t i = 0; i < g_b[b].size; ++i) h = (h ^ (uint8_t)g_b[b].p[i]) * 1099511628211ull;
    return h;
}
#ifdef CALL
/* ---- calls f(x0, x1, x2 [, ...]): every parameter is an int or an object like the root ---- */
static struct { metac_entry_t ps[4], fn; int k[8], n, va, nv, val[8]; ty_t *it; } g_c;
static void c_build(void) {
    memset(&g_c, 0, sizeof(g_c)); g_c.n = (int)vf_range(0, 3); g_c.va = (int)vf_range(0, 1); g_c.nv = g_c.va ? (int)vf_range(0, 3) : 0; g_c.it = g_base(L_INT);
    int one = 0; for (int i = 0; i < g_c.n + g_c.nv; ++i) { one |= g_c.k[i] = (int)vf_range(0, 1); g_c.val[i] = (int)vf_u64(); }
    if (!one) { if (g_c.n == 0) g_c.n = 1; g_c.k[0] = 1; if (g_c.n + g_c.nv > 1) g_c.k[g_c.n + g_c.nv - 1] = 0, g_c.k[0] = 1; }
    for (int i = 0; i < g_c.n; ++i) g_c.ps[i] = (metac_entry_t)VF_PARAM("x", g_c.k[i] ? g_rt->e : g_c.it->e);
    if (g_c.va) { g_c.ps[g_c.n].kind = METAC_KND_func_parameter; g_c.ps[g_c.n].func_parameter_info.unspecified_parameters = 1; }
    g_c.fn = (metac_entry_t)VF_FUNC(METAC_KND_subprogram, "f", NULL, g_c.n + g_c.va, g_c.ps);
}
static char *c_addr(metac_parameter_storage_t *st, int i) {   /* where parameter i (the variable ones follow) is kept */
    if (i >= g_c.n) { metac_value_t *v = metac_parameter_storage_new_param_value(st, g_c.n); if (!v) return NULL; st = metac_value_addr(v); metac_value_delete(v); i -= g_c.n; }
    metac_value_t *v = metac_parameter_storage_new_param_value(st, i); if (!v) return NULL; char *a = metac_value_addr(v); metac_value_delete(v); return a;
}
static void c_sync(metac_parameter_storage_t *st, char *root) { for (int i = 0; i < g_c.n + g_c.nv; ++i) { char *a = c_addr(st, i); if (g_c.k[i]) memcpy(a, root, g_rt->size); else memcpy(a, &g_c.val[i], 4); } }
static metac_parameter_storage_t *c_store(char *root) {
    metac_parameter_storage_t *st = metac_new_parameter_storage(); VF_ASSUME(st != NULL);
    for (int i = 0; i < g_c.n; ++i) VF_ASSUME(metac_parameter_storage_append_by_buffer(st, &g_c.ps[i], g_c.k[i] ? (metac_num_t)g_rt->size : 4) == 0);
    if (g_c.va) {
        VF_ASSUME(metac_parameter_storage_append_by_parameter_storage(st, &g_c.ps[g_c.n]) == 0); metac_value_t *v = metac_parameter_storage_new_param_value(st, g_c.n); metac_parameter_storage_t *in = metac_value_addr(v); metac_value_delete(v);
        for (int i = g_c.n; i < g_c.n + g_c.nv; ++i) VF_ASSUME(metac_parameter_storage_append_by_buffer(in, g_c.k[i] ? g_rt->e : g_c.it->e, g_c.k[i] ? (metac_num_t)g_rt->size : 4) == 0);
    }
    c_sync(st, root);
    return st;
}
#endif
#endif
