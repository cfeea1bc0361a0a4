/* C16: generated declarations, read back by an independent C declaration parser (native).
 * A pseudo-random type is built twice: as entries for the library and as a tree here; the text the library
 * produces, with a name in its placeholder, has to parse to exactly that tree. */
#include "ent.h"
#include "memw.h"
#include <ctype.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

enum { K_NAME, K_PTR, K_ARR, K_FUN, K_REC, K_ENUM };
typedef struct T { int k, q; char name[128]; struct T *el; long cnt; int n; struct { struct T *t; char name[100]; int bits; long val; } m[8]; int var; } T;
#define NT 3000
static T *pool; static int npool;
static T *mk(int k) { VF_ASSUME(npool < NT); T *t = &pool[npool++]; memset(t, 0, sizeof(*t)); t->k = k; return t; }
static metac_entry_t *epool; static int nep;
static metac_entry_t *ent(int n) { VF_ASSUME(nep + n < 4000); metac_entry_t *e = &epool[nep]; memset(e, 0, sizeof(*e) * (size_t)n); nep += n; return e; }
static char *npol[400]; static int nnp;
static char *nm(char pfx) {   /* a name; types start with T, S, U, E, everything else with lower case */
    static const int L[] = {1, 3, 8, 30, 60, 63, 70, 90}; int l = L[vf_range(0, 7)]; if (vf_bool()) l = 2;
    char *s = calloc(1, 100); VF_ASSUME(nnp < 400 && s); npol[nnp++] = s; s[0] = pfx;
    for (int i = 1; i <= l; ++i) s[i] = "abz_019XY"[vf_range(0, 8)];
    return s;
}
enum { C_ANY = 1, C_NOFUN = 2, C_NOARR = 4, C_VOID = 8, C_FLEX = 16, C_REC = 32 };
static const char *bases[] = {"char", "signed char", "unsigned char", "short int", "short unsigned int", "int", "unsigned int", "long int", "long unsigned int", "long long int", "long long unsigned int", "float", "double", "long double", "_Bool"};
static T *addq(T *t, int q) { if (t->k == K_ARR) addq(t->el, q); else t->q |= q; return t; }
static T *dup(T *t) { T *r = mk(t->k); *r = *t; if (r->k == K_ARR) r->el = dup(r->el); return r; }
/* build a type: *pe is the entry (NULL: void) */
static T *gen(int d, int c, metac_entry_t **pe) {
    int k = (int)vf_range(0, d > 0 ? 12 : 4); T *t; metac_entry_t *e;
    if ((c & C_VOID) && vf_range(0, 6) == 0) { *pe = NULL; t = mk(K_NAME); strcpy(t->name, "void"); return t; }
    switch (k) {
    case 0: case 1: default: base: { const char *b = bases[vf_range(0, 14)]; e = ent(1); e->kind = METAC_KND_base_type; e->name = (char *)b; t = mk(K_NAME); strcpy(t->name, b); break; }
    case 2: e = ent(1); e->kind = METAC_KND_typedef; e->name = nm('T'); t = mk(K_NAME); strcpy(t->name, e->name); break;
    case 3: { e = ent(1); int u = vf_bool(); e->kind = u ? METAC_KND_union_type : METAC_KND_struct_type; e->name = nm(u ? 'U' : 'S'); t = mk(K_NAME); sprintf(t->name, "%s %s", u ? "union" : "struct", e->name); break; }
    case 4: {
        e = ent(1); e->kind = METAC_KND_enumeration_type;
        if (vf_bool()) { e->name = nm('E'); t = mk(K_NAME); sprintf(t->name, "enum %s", e->name); break; }
        t = mk(K_ENUM); t->n = (int)vf_range(1, 5); e->enumeration_type_info.enumerators_count = t->n; static struct metac_type_enumerator_info en[2000]; static int nen; if (nen > 1900) nen = 0;
        e->enumeration_type_info.enumerators = &en[nen];
        for (int i = 0; i < t->n; ++i) { char *s = nm('e'); long v = vf_bool() ? (long)vf_range(0, 20) - 10 : (long)vf_u64(); en[nen].name = s; en[nen++].const_value = v; strcpy(t->m[i].name, s); t->m[i].val = v; }
        break; }
    case 5: case 6: case 11: { metac_entry_t *x; T *y = gen(d - 1, C_VOID, &x); e = ent(1); e->kind = METAC_KND_pointer_type; e->pointer_type_info.type = x; e->pointer_type_info.byte_size = 8; t = mk(K_PTR); t->el = y; break; }
    case 7: {
        if (c & C_NOARR) goto base;
        metac_entry_t *x; T *y = gen(d - 1, C_NOFUN, &x); VF_ASSUME(!(y->k == K_ARR && y->cnt < 0));
        e = ent(1); e->kind = METAC_KND_array_type; e->array_type_info.type = x; t = mk(K_ARR); t->el = y; t->cnt = vf_range(0, 5) == 0 ? -1 : vf_bool() ? (long)vf_range(0, 12) : (long)(vf_u64() >> 20); e->array_type_info.count = t->cnt;
        break; }
    case 8: {
        if (c & C_NOFUN) goto base;
        metac_entry_t *x; T *y = gen(d - 1, C_VOID | C_NOARR | C_NOFUN, &x);
        e = ent(1); t = mk(K_FUN); t->el = y; t->n = (int)vf_range(0, 4); metac_entry_t *ps = ent(t->n + 1); int n = t->n;
        e->kind = METAC_KND_subroutine_type; e->subroutine_type_info.type = x; e->subroutine_type_info.parameters = ps;
        for (int i = 0; i < n; ++i) { metac_entry_t *px; t->m[i].t = gen(d - 2, C_NOARR | C_NOFUN, &px); ps[i].kind = METAC_KND_func_parameter; ps[i].func_parameter_info.type = px; }
        if (n && vf_range(0, 3) == 0) { t->var = 1; ps[n].kind = METAC_KND_func_parameter; ps[n].func_parameter_info.unspecified_parameters = 1; }
        e->subroutine_type_info.parameters_count = n + t->var;
        break; }
    case 9: {   /* structure without a name */
        int u = vf_bool(); e = ent(1); t = mk(K_REC); t->var = u; t->n = (int)vf_range(0, 4); metac_entry_t *ms = ent(t->n); static metac_size_t bs[4000]; static int nbs; if (nbs > 3900) nbs = 0;
        e->kind = u ? METAC_KND_union_type : METAC_KND_struct_type; e->structure_type_info.members_count = t->n; e->structure_type_info.members = ms;
        for (int i = 0; i < t->n; ++i) {
            metac_entry_t *x; T *y = gen(d - 1, C_NOFUN, &x); ms[i].kind = METAC_KND_member; ms[i].member_info.type = x; t->m[i].t = y;
            if (y->k == K_REC && y->q == 0 && vf_bool()) continue;       /* anonymous member */
            ms[i].name = nm('m'); strcpy(t->m[i].name, ms[i].name);
            if (y->k == K_NAME && vf_range(0, 3) == 0 && !strchr("TSUE", y->name[0])) { bs[nbs] = vf_range(1, 64); ms[i].member_info.p_bit_size = &bs[nbs]; t->m[i].bits = (int)bs[nbs++]; }
        }
        break; }
    case 10: case 12: {   /* qualifier */
        metac_entry_t *x; T *y = gen(d - 1, (c & ~C_VOID) | C_NOFUN, &x);
        T *b = y; while (b->k == K_ARR) b = b->el;
        int w = (int)vf_range(0, b->k == K_PTR && b->el->k != K_FUN ? 2 : 1);
        e = ent(1); e->kind = w == 0 ? METAC_KND_const_type : w == 1 ? METAC_KND_volatile_type : METAC_KND_restrict_type; e->qual_type_info.type = x;
        if (vf_range(0, 9) == 0 && w < 2 && (c & C_VOID)) { e->qual_type_info.type = NULL; y = mk(K_NAME); strcpy(y->name, "void"); }
        t = addq(dup(y), 1 << w);
        break; }
    }
    *pe = e;
    return t;
}
/* canonical text of a tree */
static char *out, *oe;
static void put(const char *s) { size_t l = strlen(s); VF_ASSUME(out + l < oe); memcpy(out, s, l + 1); out += l; }
static void canon(T *t) {
    char b[64];
    if (t->q & 1) put("C."); if (t->q & 2) put("V."); if (t->q & 4) put("R.");
    switch (t->k) {
    case K_NAME: put("<"); put(t->name); put(">"); break;
    case K_PTR: put("*"); canon(t->el); break;
    case K_ARR: sprintf(b, "[%ld]", t->cnt); put(b); canon(t->el); break;
    case K_FUN: put("f("); for (int i = 0; i < t->n; ++i) { put(t->m[i].name); put("="); canon(t->m[i].t); put(","); } put(t->var ? "...)" : ")"); canon(t->el); break;
    case K_REC: put(t->var ? "u{" : "s{"); for (int i = 0; i < t->n; ++i) { put(t->m[i].name); sprintf(b, ":%d=", t->m[i].bits); put(b); canon(t->m[i].t); put(";"); } put("}"); break;
    case K_ENUM: put("e{"); for (int i = 0; i < t->n; ++i) { put(t->m[i].name); sprintf(b, "=%ld;", t->m[i].val); put(b); } put("}"); break;
    }
}
/* the parser */
static const char *s; static int bad;
static void ws(void) { while (*s == ' ') ++s; }
static int tok(const char *w) { ws(); size_t l = strlen(w); if (strncmp(s, w, l)) return 0; if (isalpha((unsigned char)w[0]) && (isalnum((unsigned char)s[l]) || s[l] == '_')) return 0; s += l; return 1; }
static int ident(char *b) { ws(); int i = 0; if (!isalpha((unsigned char)*s) && *s != '_') return 0; while (isalnum((unsigned char)*s) || *s == '_') { if (i < 99) b[i++] = *s; ++s; } b[i] = 0; return 1; }
static T *decl(char *name, int *bits);
static int is_type_start(void) { const char *k = s; char b[100]; int r = 0; ws(); if (!strncmp(s, "...", 3)) r = 1; else if (ident(b)) r = strchr("TSUE", b[0]) != NULL || strstr(" char signed unsigned short int long float double _Bool const volatile restrict struct union enum void ", b) != NULL; s = k; return r; }
static T *specs(void) {
    T *t = NULL; int q = 0; char nmb[128] = "";
    for (;;) {
        char b[100];
        if (tok("const")) { q |= 1; continue; }
        if (tok("volatile")) { q |= 2; continue; }
        if (tok("restrict")) { q |= 4; continue; }
        if (t || (nmb[0] && strchr("TV", nmb[0]))) break;
        const char *k = s; int u = 0;
        if (tok("struct") || (u = tok("union"))) {
            if (ident(b)) { t = mk(K_NAME); sprintf(t->name, "%s %s", u ? "union" : "struct", b); continue; }
            if (!tok("{")) { bad = 1; break; }
            t = mk(K_REC); t->var = u;
            while (!bad && !tok("}")) { if (t->n == 8) { bad = 1; break; } int i = t->n++; t->m[i].t = decl(t->m[i].name, &t->m[i].bits); if (!tok(";")) bad = 1; }
            continue;
        }
        if (tok("enum")) {
            if (ident(b)) { t = mk(K_NAME); sprintf(t->name, "enum %s", b); continue; }
            if (!tok("{")) { bad = 1; break; }
            t = mk(K_ENUM);
            while (!bad && !tok("}")) { if (t->n == 8) { bad = 1; break; } int i = t->n++; if (!ident(t->m[i].name) || !tok("=")) { bad = 1; break; } ws(); char *e; t->m[i].val = strtol(s, &e, 10); if (e == s) bad = 1; s = e; if (!tok(",")) { if (!tok("}")) bad = 1; break; } }
            continue;
        }
        if (!ident(b)) break;
        if (!strstr(" char signed unsigned short int long float double _Bool void ", b) && b[0] != 'T') { s = k; break; }
        if (b[0] == 'T' && nmb[0]) { s = k; break; }
        if (strlen(nmb) + strlen(b) > 110) { bad = 1; break; }
        if (nmb[0]) strcat(nmb, " "); strcat(nmb, b);
    }
    if (!t) { if (!nmb[0]) { bad = 1; } t = mk(K_NAME); strcpy(t->name, nmb); }
    if (q & 4) bad = 1;                     /* only pointers can be restrict */
    t->q |= q;
    return t;
}
static T *declor(T *base, char *name, T **hole) {   /* returns the type; *hole is where the caller's outer suffixes would go */
    while (tok("*")) { T *p = mk(K_PTR); p->el = base; for (;;) { if (tok("const")) p->q |= 1; else if (tok("volatile")) p->q |= 2; else if (tok("restrict")) p->q |= 4; else break; } base = p; }
    const char *nest = NULL; ws();
    if (*s == '(') { const char *k = s; ++s; ws(); if (*s != ')' && !is_type_start()) { nest = s; int d = 1; while (*s && d) { if (*s == '(') ++d; if (*s == ')') --d; ++s; } if (d) bad = 1; } else s = k; }
    if (!nest) ident(name);
    /* suffixes, read left to right, apply from the outside in */
    T *top = NULL, **tail = &top;
    for (;;) {
        if (bad) return base;
        if (tok("[")) { T *a = mk(K_ARR); ws(); if (*s == ']') a->cnt = -1; else { char *e; a->cnt = strtol(s, &e, 10); if (e == s) bad = 1; s = e; } if (!tok("]")) bad = 1; if (a->cnt < 0 && top) bad = 1; *tail = a; tail = &a->el; continue; }
        if (tok("(")) { T *f = mk(K_FUN); if (!tok(")")) for (;;) { if (bad) return base; if (tok("...")) { f->var = 1; if (!tok(")")) bad = 1; break; } if (f->n == 8) { bad = 1; return base; } int i = f->n++, z; f->m[i].t = decl(f->m[i].name, &z); if (z) bad = 1; if (tok(")")) break; if (!tok(",")) bad = 1; } *tail = f; tail = &f->el; continue; }
        break;
    }
    *tail = base;
    T *ty = top ? top : base;
    for (T *x = ty; x != base; x = x->el) if ((x->k == K_ARR && x->el->k == K_FUN) || (x->k == K_FUN && (x->el->k == K_FUN || x->el->k == K_ARR))) bad = 1;
    if (nest) { const char *after = s; s = nest; ty = declor(ty, name, hole); if (!tok(")")) bad = 1; s = after; }
    return ty;
}
static T *decl(char *name, int *bits) {
    T *b = specs(), *h = NULL; *bits = 0; if (bad) return b;
    T *t = declor(b, name, &h);
    if (tok(":")) { ws(); char *e; *bits = (int)strtol(s, &e, 10); if (e == s) bad = 1; s = e; }
    return t;
}
static char want[200000], got[200000], full[200000];
void harness(void) {
    if (!pool) { pool = malloc(NT * sizeof(T)); epool = malloc(4000 * sizeof(*epool)); }
    npool = nep = 0; for (int i = 0; i < nnp; ++i) free(npol[i]); nnp = 0;
    metac_entry_t *e; int w = (int)vf_range(0, 3); T *t; char nb[100] = "", *vn = "vf_name";
    if (w < 2) {
        t = gen((int)vf_range(0, 6), C_ANY, &e);
        if (w == 1) { metac_entry_t *v = ent(1); v->kind = METAC_KND_variable; v->name = vn = nm('v'); v->variable_info.type = e; e = v; }
    } else if (w == 2) {   /* function */
        metac_entry_t *x; T *y = gen((int)vf_range(0, 4), C_VOID | C_NOARR | C_NOFUN, &x); t = mk(K_FUN); t->el = y; t->n = (int)vf_range(0, 4); metac_entry_t *ps = ent(t->n + 1); e = ent(1); e->kind = METAC_KND_subprogram; e->name = vn = nm('f'); e->subprogram_info.type = x; e->subprogram_info.parameters = ps;
        for (int i = 0; i < t->n; ++i) { metac_entry_t *px; t->m[i].t = gen((int)vf_range(0, 3), C_NOARR | C_NOFUN, &px); ps[i].kind = METAC_KND_func_parameter; ps[i].func_parameter_info.type = px; if (vf_bool()) { ps[i].name = nm('p'); strcpy(t->m[i].name, ps[i].name); } }
        if (t->n && vf_range(0, 3) == 0) { t->var = 1; ps[t->n].kind = METAC_KND_func_parameter; ps[t->n].func_parameter_info.unspecified_parameters = 1; }
        e->subprogram_info.parameters_count = t->n + t->var;
    } else { metac_entry_t *x; t = gen(3, C_ANY, &x); e = ent(1); e->kind = METAC_KND_typedef; e->name = nm('T'); e->typedef_info.type = x; t = mk(K_NAME); strcpy(t->name, e->name); }
#ifdef FAILS   /* any one allocation fails: no result, or the same one; nothing is lost */
    char *ref = metac_entry_cdecl(e); VF_ASSUME(ref != NULL);
    for (long k = 1; k < 400; ++k) {
        mw_begin(k);
        char *x = metac_entry_cdecl(e);
        int fl = (int)mw_failed;
        VF_CHECK(mw_live == (x != NULL), "a failed allocation leaves nothing behind");
        mw_end();
        VF_CHECK(x || fl, "without a failed allocation there is a result");
        VF_CHECK(!x || !strcmp(x, ref), "a result is the whole declaration");
        free(x);
        if (!fl) break;
    }
    free(ref);
    return;
#endif
    mw_begin(0);
    char *r = metac_entry_cdecl(e);
    VF_CHECK(r != NULL, "every supported type has a declaration");
    VF_CHECK(mw_live == 1, "nothing but the result stays allocated");
    mw_end();
    if (getenv("GSHOW")) puts(r);
    int holes = 0; for (char *p = r; *p; ++p) if (*p == '%') { VF_CHECK(p[1] == 's', "a placeholder is %s"); ++holes; }
    VF_CHECK(holes == (w == 1 || w == 2 ? 0 : 1), "types have exactly one placeholder, variables and functions none");
    VF_ASSUME(strlen(r) < sizeof(full) / 2);
    snprintf(full, sizeof(full), r, vn);
    free(r);
    out = want; oe = want + sizeof(want); canon(t);
    s = full; bad = 0; int bits; T *p = decl(nb, &bits); ws(); if (*s || bits) bad = 1;
    if (bad && getenv("GSHOW")) printf("rest: %s\n", s);
    VF_CHECK(!bad, "the declaration is valid C");
    VF_CHECK(!strcmp(nb, vn), "it declares the given name");
    out = got; oe = got + sizeof(got); canon(p);
    if (getenv("GSHOW") && strcmp(want, got)) printf("want %s\ngot  %s\n", want, got);
    VF_CHECK(!strcmp(want, got), "with exactly the described type");
    VF_CHECK(metac_entry_cdecl(NULL) == NULL, "no entry, no declaration");
}
