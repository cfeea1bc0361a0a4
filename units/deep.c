/* C08/C09/C10: deep copy, delete and comparison on pseudo-random object graphs (native).
 *  MODE 1 copy   MODE 2 delete   MODE 3 compare   MODE 4 windows of a block   MODE 5 lists */
#include "graph.h"
#include "memw.h"
#ifndef REFUSE
#define REFUSE 0
#endif

static metac_value_memory_map_mode_t mode;
static void modes(void) {
    g_upmode = (int)vf_range(METAC_UPTR_fail, METAC_UPTR_as_one_byte_ptr); g_unmode = (int)vf_range(METAC_UNION_fail, METAC_UNION_as_mem); g_dag = vf_range(0, 3) != 0; g_flx = vf_range(0, 2) == 0 ? METAC_FLXARR_ignore : METAC_FLXARR_fail;
    mode = (metac_value_memory_map_mode_t){.memory_block_mode = g_dag ? METAC_MMODE_dag : METAC_MMODE_tree, .unknown_ptr_mode = g_upmode, .union_mode = g_unmode, .flex_array_mode = g_flx};
}
/* is there an unexplained pointer (or union, or flexible array) anywhere?  Then the strict mode refuses */
static int odd(ty_t *t, char *a, fld_t *f) {
    int r = 0;
    switch (t->k) {
    case G_ARR: { long n = g_alen(t, a, f); r = f && f->t == t && f->tag == T_FLEX0 && mode.flex_array_mode == METAC_FLXARR_fail; for (long i = 0; i < n; ++i) r |= odd(t->el, a + i * (long)t->el->size, NULL); break; }
    case G_STRUCT: for (int i = 0; i < t->nf; ++i) if (!t->f[i].bitw) r |= odd(t->f[i].t, a + t->f[i].off, &t->f[i]); break;
    case G_UNION: if (f && f->tag == T_SEL) { fld_t *x = &t->f[*(uint8_t *)(a + f->delta)]; r |= odd(x->t, a, x); } else r = mode.union_mode == METAC_UNION_fail; break;
    case G_PTR: r = !t->el && !(f && f->t == t && f->tag) && *(char **)a && mode.unknown_ptr_mode == METAC_UPTR_fail; break;
    }
    return r;
}
static int strict(void) {   /* tighten the modes after building; 1: the operation has to be refused */
    mode.unknown_ptr_mode = METAC_UPTR_fail; if (vf_bool()) mode.union_mode = METAC_UNION_fail; if (vf_bool()) mode.flex_array_mode = METAC_FLXARR_fail;
    int r = odd(g_rt, g_root, NULL);
    for (int b = 0; b < g_nb; ++b) for (long i = 0; i < g_b[b].n; ++i) r |= odd(g_b[b].el, g_b[b].p + i * (long)g_b[b].el->size, NULL);
    return r;
}
static struct { void *p; size_t n; int used; } al[512]; static int nal;
static void *my_calloc(size_t a, size_t b) { VF_CHECK(nal < 512, "allocations"); void *p = calloc(1, a * b ? a * b : 1); al[nal].p = p; al[nal].n = a * b; al[nal++].used = 0; return p; }
static void my_free(void *p) { VF_CHECK(0, "a successful copy frees nothing"); (void)p; }

#if MODE == 1
static struct { char *a, *b; ty_t *t; long n; } seen[4096]; static int nseen;
static char *map[G_NB];
static int al_of(char *p) { for (int i = 0; i < nal; ++i) if (p >= (char *)al[i].p && (p < (char *)al[i].p + al[i].n || p == (char *)al[i].p)) return i; return -1; }
static void same(ty_t *t, char *a, char *b, fld_t *f) {
    switch (t->k) {
    case G_BASE:
        if (t->leaf == L_LDC) { VF_CHECK(!memcmp(a, b, 10) && !memcmp(a + 16, b + 16, 10), "content is copied"); break; }
        /* fall through */
    case G_ENUM: VF_CHECK(!memcmp(a, b, t->sig), "content is copied"); break;
    case G_ARR: { long n = g_alen(t, a, f); for (long i = 0; i < n; ++i) same(t->el, a + i * (long)t->el->size, b + i * (long)t->el->size, NULL); break; }
    case G_STRUCT: for (int i = 0; i < t->nf; ++i) {
            fld_t *x = &t->f[i];
            if (x->bitw) VF_CHECK(g_bits(a, x->bitpos, x->bitw) == g_bits(b, x->bitpos, x->bitw), "bit-field is copied"); else same(x->t, a + x->off, b + x->off, x);
        } break;
    case G_UNION: if (f && f->tag == T_SEL) { fld_t *x = &t->f[*(uint8_t *)(a + f->delta)]; same(x->t, a, b, x); }
        else if (g_unmode == METAC_UNION_as_mem) VF_CHECK(!memcmp(a, b, t->size), "union copied as memory");
        else for (size_t i = 0; i < t->size; ++i) VF_CHECK(b[i] == 0, "ignored union is zeroed");
        break;
    case G_PTR: {
        ty_t *el, *e2; long n, n2; char *pa, *pb;
        if (!g_target(t, f, a, &el, &n, &pa)) {
            if (*(char **)a == NULL) VF_CHECK(*(char **)b == NULL, "NULL stays NULL");
            else if (g_upmode == METAC_UPTR_ignore) VF_CHECK(*(char **)b == NULL, "ignored pointer becomes NULL");
            else VF_CHECK(*(char **)b == *(char **)a, "pointer kept as value");
            break;
        }
        VF_CHECK(*(char **)b != NULL, "pointer is copied");
        int d0 = al_of(*(char **)b); VF_CHECK(d0 >= 0 || (f && f->t == t && f->tag == T_CAST), "a copied pointer leads into memory allocated for the copy");
        if (f && f->t == t && f->tag == T_STR) VF_CHECK((size_t)n <= al[d0].n - (size_t)(*(char **)b - (char *)al[d0].p) && !memcmp(pa, *(char **)b, (size_t)n), "string is copied");
        VF_CHECK(g_target(t, f, b, &e2, &n2, &pb) && n2 == n, "same target");
        int d = al_of(pb); VF_CHECK(d >= 0, "a copied pointer leads into memory allocated for the copy");
        al[d].used = 1;
        int s = -1; for (int i = 0; i < g_nb; ++i) if (pa >= g_b[i].p && (pa < g_b[i].p + g_b[i].size || pa == g_b[i].p)) s = i;
        VF_CHECK(s >= 0, "source block");
        if (g_dag) {
            if (!map[s]) { map[s] = al[d].p; VF_CHECK(al[d].n >= g_b[s].size, "a copied block is as large as its source"); for (int i = 0; i < g_nb; ++i) if (i != s) VF_CHECK(map[i] != al[d].p, "different blocks are copied to different blocks"); }
            VF_CHECK(pb == map[s] + (pa - g_b[s].p), "pointers to one block lead to one copied block, at the same place");
        } else VF_CHECK(pb == al[d].p, "tree mode: every pointer leads to a block of its own");
        for (int i = 0; i < nseen; ++i) if (seen[i].a == pa && seen[i].b == pb && g_sameel(seen[i].t, el) && seen[i].t->size == el->size && n <= seen[i].n) return;
        VF_ASSUME(nseen < 4096); seen[nseen].a = pa; seen[nseen].b = pb; seen[nseen].n = n; seen[nseen++].t = el;
        for (long i = 0; i < n; ++i) same(el, pa + i * (long)el->size, pb + i * (long)el->size, NULL);
        break; }
    }
}
void harness(void) {
    modes(); g_build((int)vf_range(0, 4));
    nal = nseen = 0; memset(map, 0, sizeof(map)); memset(g_dst, 0x5a, sizeof(g_dst));
    metac_tag_map_t *tm = g_tags(); VF_CHECK(tm != NULL, "tags");
#ifdef CALL
    c_build(); metac_parameter_storage_t *ss = c_store(g_root); metac_value_t *s = metac_new_value(&g_c.fn, ss);
    mw_begin(0);
    metac_parameter_storage_t *ds = metac_new_parameter_storage(); metac_value_t *d = metac_new_value(&g_c.fn, ds);
    uint64_t h = g_hash();
#else
    metac_value_t *s = metac_new_value(g_rt->e, g_root), *d = metac_new_value(g_rt->e, g_dst);
    uint64_t h = g_hash();
    mw_begin(0);
#endif
    if (REFUSE) {
        if (!strict()) { mw_end(); goto out; }
#ifdef CALL
        VF_CHECK(metac_value_copy_ex(s, d, &mode, my_calloc, my_free, tm) == NULL, "a value with a part nobody explains is refused"); mw_end(); goto out;
#endif
        VF_CHECK(metac_value_copy_ex(s, d, &mode, my_calloc, my_free, tm) == NULL, "a value with a part nobody explains is refused");
        VF_CHECK(mw_live == 0, "a refused copy leaks nothing");
        mw_end(); VF_CHECK(g_hash() == h, "the source is unchanged");
        goto out;
    }
    metac_value_t *r = metac_value_copy_ex(s, d, vf_bool() && g_dag && !g_upmode && !g_unmode && !g_flx ? NULL : &mode, my_calloc, my_free, tm);
    VF_CHECK(r == d, "the copy succeeds and returns the destination");
    VF_CHECK(g_hash() == h, "the source is unchanged");
    for (size_t i = g_rt->size; i < sizeof(g_dst); ++i) VF_CHECK(g_dst[i] == 0x5a, "nothing outside the destination is written");
#ifdef CALL
    VF_CHECK(metac_value_parameter_count(d) == g_c.n + g_c.va, "every parameter is copied");
    if (g_c.va) { metac_value_t *x = metac_parameter_storage_new_param_value(ds, g_c.n); VF_CHECK(x && metac_value_entry(x) == &g_c.ps[g_c.n] && metac_parameter_storage_size(metac_value_addr(x)) == g_c.nv, "every variable parameter is copied"); metac_value_delete(x); }
    for (int i = 0; i < g_c.n + g_c.nv; ++i) {
        char *a = c_addr(ss, i), *b = c_addr(ds, i); VF_CHECK(b && a != b, "every parameter is copied");
        VF_CHECK(!memcmp(a, g_c.k[i] ? g_root : (char *)&g_c.val[i], g_c.k[i] ? g_rt->size : 4), "the source is unchanged");
        if (g_c.k[i]) same(g_rt, a, b, NULL); else VF_CHECK(!memcmp(a, b, 4), "content is copied");
    }
    metac_value_delete(d); d = NULL; metac_parameter_storage_delete(ds); ds = NULL;
    VF_CHECK(mw_live == nal, "nothing but the copied blocks stays allocated");
    mw_end();
#else
    VF_CHECK(mw_live == nal, "nothing but the copied blocks stays allocated");
    mw_end();
    same(g_rt, g_root, g_dst, NULL);
#endif
    for (int i = 0; i < nal; ++i) VF_CHECK(al[i].used, "every block allocated for the copy is reachable from it");
    for (int i = 0; i < nal; ++i) free(al[i].p);
out:
#ifdef CALL
    if (d) metac_value_delete(d); if (ds) metac_parameter_storage_delete(ds); d = metac_new_value(g_rt->e, g_dst); metac_value_delete(s); s = metac_new_value(g_rt->e, g_dst); metac_parameter_storage_delete(ss);
#endif
    metac_value_delete(s); metac_value_delete(d); metac_tag_map_delete(tm); g_drop();
}
#elif MODE == 2
static int freed[G_NB];
static void rec_free(void *p) {
    for (int i = 0; i < g_nb; ++i) if (g_b[i].p == p) { VF_CHECK(!freed[i], "no block is freed twice"); freed[i] = 1; return; }
    VF_CHECK(0, "nothing but whole reachable blocks is freed");
}
void harness(void) {
    modes(); g_build((int)vf_range(0, 4));
    memset(freed, 0, sizeof(freed));
    metac_tag_map_t *tm = g_tags(); VF_CHECK(tm != NULL, "tags"); metac_value_t *v = metac_new_value(g_rt->e, g_root);
#ifdef CALL
    c_build(); metac_parameter_storage_t *ss = c_store(g_root); metac_value_delete(v); v = metac_new_value(&g_c.fn, ss);
#endif
    metac_value_memory_map_non_handled_mode_t m = {.unknown_ptr_mode = g_upmode, .union_mode = g_unmode, .flex_array_mode = g_flx};
    uint64_t h = g_hash();
    mw_begin(0);
    if (REFUSE) {
        if (!strict()) { mw_end(); goto out; }
        m.unknown_ptr_mode = mode.unknown_ptr_mode; m.union_mode = mode.union_mode; m.flex_array_mode = mode.flex_array_mode;
        VF_CHECK(metac_value_free_ex(v, &m, rec_free, tm) == 0, "a value with a part nobody explains is refused");
        for (int i = 0; i < g_nb; ++i) VF_CHECK(!freed[i], "a refused delete frees nothing");
        VF_CHECK(mw_live == 0, "a refused delete leaks nothing");
        mw_end(); goto out;
    }
    VF_CHECK(metac_value_free_ex(v, !g_upmode && !g_unmode && !g_flx && vf_bool() ? NULL : &m, rec_free, tm) != 0, "deep delete succeeds");
    VF_CHECK(mw_live == 0, "deep delete leaks nothing of its own");
    mw_end();
    VF_CHECK(g_hash() == h, "deep delete writes nothing");
    for (int i = 0; i < g_nb; ++i) VF_CHECK(freed[i], "every reachable block is freed");
out:
#ifdef CALL
    for (int i = 0; i < g_c.n + g_c.nv; ++i) VF_CHECK(!memcmp(c_addr(ss, i), g_c.k[i] ? g_root : (char *)&g_c.val[i], g_c.k[i] ? g_rt->size : 4), "deep delete writes nothing");
    metac_parameter_storage_delete(ss);
#endif
    metac_value_delete(v); metac_tag_map_delete(tm); g_drop();
}
#elif MODE == 3
static char *tw[G_NB];
static int blk_of(char *p) { for (int i = 0; i < g_nb; ++i) if (p >= g_b[i].p && (p < g_b[i].p + g_b[i].size || p == g_b[i].p)) return i; return -1; }
/* sites of one object: kind 0 scalar, 1 bit-field, 2 followed pointer, 3 unexplained pointer, 4 count of a followed sequence, 5 union as memory, 6 ignored union */
static struct { int k; char *a; ty_t *t; fld_t *f; } st[2048]; static int ns;
static void sites(ty_t *t, char *a, fld_t *f) {
    if (ns >= 2040) return;
    switch (t->k) {
    case G_BASE: case G_ENUM: st[ns].k = 0; st[ns].a = a; st[ns].t = t; st[ns++].f = f; break;
    case G_ARR: { long n = g_alen(t, a, f); for (long i = 0; i < n; ++i) sites(t->el, a + i * (long)t->el->size, NULL); break; }
    case G_STRUCT: for (int i = 0; i < t->nf; ++i) {
            fld_t *x = &t->f[i];
            if (x->bitw) { st[ns].k = 1; st[ns].a = a; st[ns].t = x->t; st[ns++].f = x; }
            else if (x->tag == T_COUNTFIELD) { if (*(uint8_t *)(a + x->off) > 0 && (t->f[i + 1].tag == T_FLEX || *(char **)(a + t->f[i + 1].off))) { st[ns].k = 4; st[ns].a = a + x->off; st[ns].t = x->t; st[ns++].f = x; } }
            else if (x->tag == T_SELFIELD) ;
            else sites(x->t, a + x->off, x);
        } break;
    case G_UNION: if (f && f->tag == T_SEL) { fld_t *x = &t->f[*(uint8_t *)(a + f->delta)]; sites(x->t, a, x); } else { st[ns].k = g_unmode == METAC_UNION_as_mem ? 5 : 6; st[ns].a = a; st[ns].t = t; st[ns++].f = f; } break;
    case G_PTR: { ty_t *el; long n; char *p; if (g_target(t, f, a, &el, &n, &p)) st[ns].k = 2; else if (t->el || (f && f->t == t && f->tag)) break; else st[ns].k = 3; st[ns].a = a; st[ns].t = t; st[ns++].f = f; break; }
    }
}
static void all_sites(void) { ns = 0; sites(g_rt, g_root, NULL); for (int b = 0; b < g_nb; ++b) for (long i = 0; i < g_b[b].n - g_b[b].str; ++i) sites(g_b[b].el, g_b[b].p + i * (long)g_b[b].el->size, NULL); }
static char *twin(char *p) { if (p >= g_root && p < g_root + sizeof(g_root)) return g_dst + (p - g_root); int b = blk_of(p); return tw[b] + (p - g_b[b].p); }
static metac_value_t *v1, *v2; static metac_tag_map_t *tm;
#ifdef CALL
static metac_parameter_storage_t *s1, *s2;
#endif
static void expect(int r, const char *what) {
#ifdef CALL
    c_sync(s2, g_dst);
#endif
    mw_begin(0);
    int a = metac_value_equal_ex(v1, v2, &mode, tm), b = metac_value_equal_ex(v2, v1, &mode, tm);
    VF_CHECK(mw_live == 0, "comparison leaks nothing");
    mw_end();
    if (a != r || b != r) fprintf(stderr, "case: %s: got %d and %d\n", what, a, b);
    VF_CHECK(a == r && b == r, "the verdict is the expected one, in both orders");
}
void harness(void) {
    modes(); g_build((int)vf_range(0, 4));
    /* the twin: an exact copy made by the harness itself */
    memcpy(g_dst, g_root, sizeof(g_dst));
    for (int b = 0; b < g_nb; ++b) { tw[b] = malloc(g_b[b].size ? g_b[b].size : 1); memcpy(tw[b], g_b[b].p, g_b[b].size); }
    all_sites();
    for (int i = 0; i < ns; ++i) if (st[i].k == 2) { char *p = *(char **)st[i].a; int c = st[i].f && st[i].f->t == st[i].t && st[i].f->tag == T_CAST ? (int)st[i].f->coff : 0; *(char **)twin(st[i].a) = twin(p - c) + c; }
    tm = g_tags(); VF_CHECK(tm != NULL, "tags"); v1 = metac_new_value(g_rt->e, g_root); v2 = metac_new_value(g_rt->e, g_dst);
    uint64_t h = g_hash();
#ifdef CALL
    c_build(); s1 = c_store(g_root); s2 = c_store(g_dst); metac_value_delete(v1); metac_value_delete(v2); v1 = metac_new_value(&g_c.fn, s1); v2 = metac_new_value(&g_c.fn, s2);
#endif
    if (REFUSE) {
        if (!strict()) goto out;
        mw_begin(0);
        VF_CHECK(metac_value_equal_ex(v1, v2, &mode, tm) < 0 && metac_value_equal_ex(v2, v1, &mode, tm) < 0, "a value with a part nobody explains is refused");
        VF_CHECK(mw_live == 0, "a refused comparison leaks nothing");
        mw_end(); goto out;
    }
    VF_CHECK(metac_value_equal_ex(v1, v1, &mode, tm) == 1, "comparison is reflexive");
    expect(1, "equal");
    VF_CHECK(g_hash() == h, "comparison modifies nothing");
    for (int round = 0; round < 3 && ns > 0; ++round) {
        int i = (int)vf_range(0, ns - 1); char *b = twin(st[i].a); char save[32]; size_t sv = st[i].k == 2 || st[i].k == 3 ? 8 : st[i].k == 1 ? 0 : st[i].t->size < 32 ? st[i].t->size : 32; memcpy(save, b, sv);
        int done = 1; const char *w = "";
        switch (st[i].k) {
        case 0: {
            if (st[i].t->k == G_ENUM) { b[vf_range(0, st[i].t->size - 1)] ^= (char)(1 << vf_range(0, 7)); w = "enum differs"; break; }
            w = "scalar differs";
            switch (st[i].t->leaf) {
            case L_BOOL: *b ^= 1; break;
            case L_FLOAT: *(float *)b = *(float *)b * 2 + 1; done = *(float *)b != *(float *)save; break;
            case L_DOUBLE: *(double *)b = *(double *)b * 2 + 1; done = *(double *)b != *(double *)save; break;
            case L_LDOUBLE: *(long double *)b = *(long double *)b * 2 + 1; done = *(long double *)b != *(long double *)save; break;
            case L_FC: ((float *)b)[vf_range(0, 1)] += 4096 * 4096; break;
            case L_DC: ((double *)b)[vf_range(0, 1)] += 3; break;
            case L_LDC: ((long double *)b)[vf_range(0, 1)] += 3; break;
            default: b[vf_range(0, st[i].t->size - 1)] ^= (char)(1 << vf_range(0, 7));
            }
            if (st[i].t->leaf == L_FC) done = memcmp(b, save, 8) != 0;
            break; }
        case 1: { int k = (int)vf_range(0, st[i].f->bitw - 1); size_t p = st[i].f->bitpos + k; b[p / 8] ^= (char)(1 << (p % 8)); expect(0, "bit-field differs"); b[p / 8] ^= (char)(1 << (p % 8)); done = 0; sv = 0; break; }
        case 2: *(char **)b = NULL; w = "pointer NULL on one side"; break;
        case 3: if (g_upmode == METAC_UPTR_as_values) { *(uint64_t *)b ^= 1ull << vf_range(0, 63); w = "unexplained pointer differs"; }
            else if (g_upmode == METAC_UPTR_ignore && *(char **)b) { *(uint64_t *)b ^= 2; expect(1, "ignored pointer differs"); done = 0; } else done = 0;
            break;
        case 4: --*(uint8_t *)b; w = "length differs"; break;
        case 5: b[vf_range(0, sv - 1)] ^= 1; w = "union differs"; done = st[i].t->size <= 32; break;
        case 6: b[vf_range(0, sv - 1)] ^= 1; expect(1, "ignored union differs"); done = 0; break;
        }
        if (done) expect(0, w);
        memcpy(b, save, sv);
    }
    expect(1, "equal again");
#ifdef CALL
    for (int i = 0; i < g_c.n + g_c.nv; ++i) if (!g_c.k[i]) { g_c.val[i] ^= 1 << vf_range(0, 31); expect(0, "a parameter differs"); c_sync(s1, g_root); expect(1, "equal after all"); }
    if (g_c.va) {   /* one more variable parameter on one side */
        metac_value_t *x = metac_parameter_storage_new_param_value(s2, g_c.n); VF_ASSUME(metac_parameter_storage_append_by_buffer(metac_value_addr(x), g_c.it->e, 4) == 0); metac_value_delete(x); expect(0, "the number of parameters differs");
    }
#endif
out:
#ifdef CALL
    metac_parameter_storage_delete(s1); metac_parameter_storage_delete(s2);
#endif
    metac_value_delete(v1); metac_value_delete(v2); metac_tag_map_delete(tm);
    for (int b = 0; b < g_nb; ++b) free(tw[b]);
    g_drop();
}
#elif MODE == 4
/* several windows of one block, none of which has to cover it: the block is what the windows cover together */
static int freed; static char *blkp;
static void rec_free(void *p) { VF_CHECK(p == blkp && !freed, "the block is freed once, as a whole"); freed = 1; }
void harness(void) {
    g_np = g_nt = g_nnums = g_nn = g_nen = 0; g_upmode = g_unmode = 0; g_dag = 1;
    ty_t *s = g_t(G_STRUCT); s->e = g_e(); s->e->name = "w"; s->align = 1;
    for (int i = 0; i < 3; ++i) { fld_t *c = g_addf(s, g_base(L_UCHAR)); c->tag = T_COUNTFIELD; size_t co = c->off; ty_t *el = g_base(L_SHORT); fld_t *f = g_addf(s, g_ptr(el)); f->tag = T_COUNT; f->real = el; f->delta = (long)co - (long)f->off; }
    s->size = 48; g_members(s); g_rt = s; g_nst = 0;
    short *b = malloc(16 * 2); blkp = (char *)b; for (int i = 0; i < 16; ++i) b[i] = (short)vf_u64();
    memset(g_root, 0, sizeof(g_root)); int end = (int)vf_range(1, 8), st[3] = {0}, ln[3] = {end};
    for (int i = 1; i < 3; ++i) { st[i] = (int)vf_range(0, end - 1); ln[i] = (int)vf_range(1, 8); if (st[i] + ln[i] > end) end = st[i] + ln[i]; VF_ASSUME(end <= 16); }
    int o[3] = {0, 1, 2}; if (vf_bool()) { o[0] = 2; o[2] = 0; } if (vf_bool()) { int t = o[0]; o[0] = o[1]; o[1] = t; }
    for (int i = 0; i < 3; ++i) { g_root[s->f[2 * i].off] = (char)ln[o[i]]; *(short **)(g_root + s->f[2 * i + 1].off) = b + st[o[i]]; }
    metac_tag_map_t *tm = g_tags(); VF_CHECK(tm != NULL, "tags");
    metac_value_t *v = metac_new_value(s->e, g_root), *d = metac_new_value(s->e, g_dst);
    freed = 0; nal = 0; memset(g_dst, 0, sizeof(g_dst));
#ifdef DEL
    VF_CHECK(metac_value_free_ex(v, NULL, rec_free, tm) && freed, "deep delete succeeds");
#else
    VF_CHECK(metac_value_copy_ex(v, d, NULL, my_calloc, my_free, tm) == d, "deep copy succeeds");
    VF_CHECK(nal == 1 && al[0].n >= (size_t)end * 2, "one block large enough for all windows is allocated");
    for (int i = 0; i < 3; ++i) VF_CHECK(*(short **)(g_dst + s->f[2 * i + 1].off) == (short *)al[0].p + st[o[i]], "every pointer leads to its place in the copy");
    VF_CHECK(!memcmp(al[0].p, b, (size_t)end * 2), "the content of all windows is copied");
    free(al[0].p);
#endif
    metac_value_delete(v); metac_value_delete(d); metac_tag_map_delete(tm); free(b);
}
#elif MODE == 5
/* lists whose nodes lie in one arena, in any order and without gaps; the last node ends the list or leads back to any node.
 *  OP 1 copy   OP 2 delete   OP 3 compare */
typedef struct node { int v, w; struct node *next; } node_t;
typedef struct { node_t *mem, *n[6], *head; int len, back; } list_t;
static metac_entry_t e_i = {.kind = METAC_KND_base_type, .name = "int", .base_type_info = {.byte_size = 4, .encoding = METAC_ENC_signed}}, e_node, e_pn, e_ms[3];
static list_t ls[2]; static int freed[6];
static void rec_free(void *p) { for (int i = 0; i < ls[0].len; ++i) if (p == ls[0].n[i]) { VF_CHECK(!freed[i], "no node is freed twice"); freed[i] = 1; return; } VF_CHECK(0, "nothing but nodes is freed"); }
static int own_blocks;   /* every node in a block of its own instead */
static void mk(list_t *l, int len) {
    l->len = len; l->back = (int)vf_range(0, len); l->mem = calloc(len, sizeof(node_t));   /* back == len: ends with NULL */
    int o[6]; for (int i = 0; i < len; ++i) o[i] = i;
    for (int i = len - 1; i > 0; --i) { int j = (int)vf_range(0, i), t = o[i]; o[i] = o[j]; o[j] = t; }
    for (int i = 0; i < len; ++i) { l->n[i] = own_blocks ? malloc(sizeof(node_t)) : l->mem + o[i]; l->n[i]->v = (int)vf_range(0, 1); l->n[i]->w = 7; }
    for (int i = 0; i < len; ++i) l->n[i]->next = i + 1 < len ? l->n[i + 1] : l->back < len ? l->n[l->back] : NULL;
    l->head = l->n[0];
}
void harness(void) {
    e_pn = (metac_entry_t){.kind = METAC_KND_pointer_type, .pointer_type_info = {.byte_size = 8, .type = &e_node}};
    e_ms[0] = (metac_entry_t){.kind = METAC_KND_member, .name = "v", .member_info = {.type = &e_i, .byte_offset = 0}};
    e_ms[1] = (metac_entry_t){.kind = METAC_KND_member, .name = "w", .member_info = {.type = &e_i, .byte_offset = 4}};
    e_ms[2] = (metac_entry_t){.kind = METAC_KND_member, .name = "next", .member_info = {.type = &e_pn, .byte_offset = 8}};
    e_node = (metac_entry_t){.kind = METAC_KND_struct_type, .name = "node", .structure_type_info = {.byte_size = sizeof(node_t), .members_count = 3, .members = e_ms}};
    int len = (int)vf_range(1, 6), std = vf_bool();   /* std: the C library's own functions, by default */
    own_blocks = OP == 2 && std; mw_begin(0); mk(&ls[0], len); mw_end(); own_blocks = 0;
    metac_value_t *v = metac_new_value(&e_pn, &ls[0].head);
#if OP == 1
    node_t *out = NULL, *x; metac_value_t *d = metac_new_value(&e_pn, &out); nal = 0;
    mw_begin(0);
    VF_CHECK(metac_value_copy_ex(v, d, NULL, std ? NULL : my_calloc, std ? NULL : my_free, NULL) == d, "deep copy succeeds");
    VF_CHECK(mw_live == len, "nothing but the copied nodes stays allocated");
    mw_end();
    if (std) for (int i = 0; i < MW_MAX; ++i) if (mw_tab[i].p > (void *)1) { al[nal].p = mw_tab[i].p; al[nal].n = mw_tab[i].n; al[nal++].used = 0; }
    VF_CHECK(nal == len, "every node is copied to a block of its own");
    node_t *c[6]; x = out;
    for (int i = 0; i < len; ++i) {
        int k = -1; for (int j = 0; j < nal; ++j) if (al[j].p == x && !al[j].used) k = j;
        VF_CHECK(k >= 0 && al[k].n >= sizeof(node_t), "every node is copied to a block of its own"); al[k].used = 1;
        VF_CHECK(x->v == ls[0].n[i]->v && x->w == 7, "the content is copied"); c[i] = x; x = x->next;
    }
    VF_CHECK(x == (ls[0].back < len ? c[ls[0].back] : NULL), "the copy ends as the list does");
    for (int i = 0; i < nal; ++i) free(al[i].p);
    metac_value_delete(d);
#elif OP == 2
    memset(freed, 0, sizeof(freed));
    if (std) {
        long before = mw_live; mw_on = 1;
        VF_CHECK(metac_value_free_ex(v, NULL, NULL, NULL) != 0, "deep delete succeeds");
        for (int i = 0; i < len; ++i) VF_CHECK(!mw_is_live(ls[0].n[i]), "every node is freed");
        VF_CHECK(mw_live == before - len, "nothing else is freed or stays allocated"); mw_end();
    } else {
        VF_CHECK(metac_value_free_ex(v, NULL, rec_free, NULL) != 0, "deep delete succeeds");
        for (int i = 0; i < len; ++i) VF_CHECK(freed[i], "every node is freed");
    }
#else
    mk(&ls[1], vf_range(0, 3) ? len : (int)vf_range(1, 6));
    int eq = ls[0].len == ls[1].len && ls[0].back == ls[1].back;
    for (int i = 0; eq && i < len; ++i) { if (vf_range(0, 7)) ls[1].n[i]->v = ls[0].n[i]->v; eq = ls[0].n[i]->v == ls[1].n[i]->v; }
    metac_value_t *u = metac_new_value(&e_pn, &ls[1].head);
    VF_CHECK(metac_value_equal_ex(v, u, NULL, NULL) == eq && metac_value_equal_ex(u, v, NULL, NULL) == eq, "lists are equal exactly when they have the same nodes and end the same way");
    metac_value_delete(u); free(ls[1].mem);
#endif
    metac_value_delete(v); free(ls[0].mem);
}
#endif
