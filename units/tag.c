/* C13: tags.
 * MODE 1 key lookup in a tag string (LEN characters), 2 lookup of an entry's tag in NCAT categories / any number of them
 * (CUT; private structures, the hash map assumed by the contract C06 checks), 3 setting a tag, 4 creation and deletion,
 * 5 (native) histories of public calls against a reference, with a single allocation failure when FAILS */
#include "ent.h"
#include "metac/reflect/entry_tag.h"
#include "metac/backend/hashmap.h"
#if MODE == 1
#ifndef KLEN
#define KLEN 2
#endif
/* reference: where the value of the first item key:"value" with that key lies; -1 when there is none */
static long ref(const char *s, const char *k, size_t *len) {
    size_t i = 0, kl = strlen(k);
    for (;;) {
        while (s[i] == ' ') ++i;
        if (!s[i]) return -1;
        size_t kb = i++;
        while (s[i] && s[i] != ' ' && s[i] != ':') ++i;
        if (!s[i]) return -1;
        if (s[i] == ' ') continue;                     /* a word that is no item */
        size_t n = i - kb;
        ++i;
        if (s[i] != '"') {                              /* key without a quoted value */
            while (s[i] && s[i] != ' ') ++i;
            continue;
        }
        size_t vb = ++i;
        while (s[i] && s[i] != '"') { if (s[i] == '\\' && !s[++i]) return -1; ++i; }
        if (!s[i]) return -1;                           /* not terminated */
        if (n == kl && memcmp(s + kb, k, n) == 0) { *len = i - vb; return (long)vb; }
        ++i;
    }
}
void harness(void) {
    char s[LEN + 1], k[KLEN + 1];
#ifdef POOL
    static const char al[] = "aabb::\"\"  \\c";
    size_t n = (size_t)vf_range(0, LEN);
    for (size_t i = 0; i < n; ++i) s[i] = al[vf_range(0, sizeof(al) - 2)];
    if (vf_bool()) {    /* mostly well-formed items */
        static const char *it[] = {"a:\"b\"", "b:\"\"", "ab:\"a b\"", "c", "a:x", "b:\"\\\"\"", "a:\"c", " ", "ba:\"\\\\\"", "a:\"a:\\\"b\\\"\""};
        s[0] = 0; n = 0;
        for (int j = (int)vf_range(0, 5); j > 0; --j) { const char *q = it[vf_range(0, 9)]; if (n + strlen(q) + 1 > LEN) break; strcpy(s + n, q); n += strlen(q); s[n++] = ' '; s[n] = 0; }
    }
    s[n] = 0;
    size_t kn = (size_t)vf_range(0, KLEN);
    for (size_t i = 0; i < kn; ++i) k[i] = "ab:c"[vf_range(0, 3)];
    k[kn] = 0;
    char *t = malloc(n + 1), *kk = malloc(kn + 1);      /* exact blocks: reading outside is caught */
    strcpy(t, s); strcpy(kk, k);
#else
    for (int i = 0; i < LEN; ++i) { s[i] = (char)vf_u64(); VF_ASSUME(s[i] != 0); }
    s[LEN] = 0;
    size_t kn = (size_t)vf_range(0, KLEN);
    for (int i = 0; i < KLEN; ++i) { k[i] = (char)vf_u64(); VF_ASSUME(k[i] != 0); }
    k[kn] = 0;
    char *t = s, *kk = k;
#endif
    for (size_t i = 0; s[i]; ++i) VF_ASSUME(!(s[i] == ':' && s[i + 1] == ' '));   /* left open: a colon with nothing after it */
    metac_entry_tag_t tag = {.p_tagstring = t};
    size_t len = 0;
    long at = ref(s, k, &len);
    char *r = metac_entry_tag_string_lookup(&tag, kk);
    VF_CHECK((r != NULL) == (at >= 0), "a value is found exactly when an item has that key");
    if (r) {
        int same = 1;
        for (size_t i = 0; i < LEN; ++i) if (i < len && r[i] != s[at + (long)i]) same = 0;
        VF_CHECK(same && r[len] == 0, "the value is the quoted text of the first such item");
        VF_REACH("found");
        free(r);
    } else { VF_REACH("absent"); }
    VF_CHECK(tag.p_tagstring == t && strcmp(t, s) == 0 && strcmp(kk, k) == 0, "nothing is modified");
    metac_entry_tag_t none = {0};
    VF_CHECK(metac_entry_tag_string_lookup(NULL, kk) == NULL && metac_entry_tag_string_lookup(&none, kk) == NULL && metac_entry_tag_string_lookup(&tag, NULL) == NULL, "missing arguments yield nothing");
#ifdef POOL
    free(t); free(kk);
#endif
}
#elif MODE <= 4
static int vf_oom, vf_allocs;
static void *vf_calloc(size_t n, size_t s) { ++vf_allocs; return vf_oom && vf_allocs == vf_oom ? NULL : calloc(n, s); }
static char *vf_strdup(const char *s) { ++vf_allocs; if (vf_oom && vf_allocs == vf_oom) return NULL; size_t n = strlen(s) + 1; char *p = malloc(n); __CPROVER_assume(p != NULL); memcpy(p, s, n); return p; }
static void *g_freed[8]; static int g_nfreed;
static void vf_free(void *p) { if (g_nfreed < 8) g_freed[g_nfreed] = p; ++g_nfreed; free(p); }
static int freed(void *p) { int c = 0; for (int i = 0; i < 8; ++i) if (i < g_nfreed && g_freed[i] == p) ++c; return c; }
#define calloc vf_calloc
#define free vf_free
#define strdup vf_strdup
#include SRC_entry_tag
#undef calloc
#undef free
#undef strdup
static char g_m[4];                                     /* the maps */
#define MAP(i) ((Hashmap *)&g_m[i])
static metac_entry_t t_int, t_td, g_e;
static void init(void) {
    metac_entry_t b = VF_BASE("int", METAC_ENC_signed, 4), d = {.kind = METAC_KND_typedef, .name = "t", VF_T0(&t_int) .typedef_info = {.type = &t_int}};
    t_int = b; t_td = d; vf_oom = vf_allocs = g_nfreed = 0;
    uint64_t k = vf_range(0, 3);
    metac_entry_t m = VF_MEMBER("m", &t_td, 0), v = VF_VAR("v", &t_td), p = VF_PARAM("p", &t_td), o = VF_STRUCT(METAC_KND_struct_type, "s", 4, 0, NULL);
    g_e = k == 0 ? m : k == 1 ? v : k == 2 ? p : o;
}
static int kind_mask(void) {
    return g_e.kind == METAC_KND_member ? 1 << METAC_TEC_member : g_e.kind == METAC_KND_variable ? 1 << METAC_TEC_variable : g_e.kind == METAC_KND_func_parameter ? 1 << METAC_TEC_func_parameter : 0;
}
#endif
#if MODE == 2
static metac_entry_tag_t *g_own[4], *g_fin[4];          /* what map i holds for the entry and for its final type */
void *hashmapGet(Hashmap *m, void *key) {
    for (int i = 0; i < 4; ++i) if (m == MAP(i)) return key == (void *)&g_e ? (void *)g_own[i] : key == (void *)&t_int && g_e.kind != METAC_KND_struct_type ? (void *)g_fin[i] : key == (void *)&t_td ? (void *)&g_m[0] : NULL;
    VF_CHECK(0, "only maps of matching categories are asked");
    return NULL;
}
static metac_entry_tag_t g_t[10];
static metac_entry_tag_t *maybe(int i) { return vf_bool() ? &g_t[i] : NULL; }
static metac_entry_tag_t *ref_cat(struct metac_tag_map_entry *c, int m) {
    if (!(c->mask & kind_mask())) return NULL;
    return g_own[m] ? g_own[m] : (c->mask & (1 << METAC_TEC_final)) ? g_fin[m] : NULL;
}
#ifdef CUT
static struct metac_tag_map_entry g_cell; int g_i, g_f, g_cnt;
int vf_hv_idx(void) { return g_i; }
static metac_entry_t *fin(void) { return g_e.kind == METAC_KND_struct_type ? &g_e : &t_int; }
int vf_inv_tag(int i, void *fe) { return i >= 0 && i <= g_f && (fe == NULL || fe == fin()); }
void *vf_hv_fin(void) { return vf_hv() & 1 ? (void *)fin() : NULL; }
void harness(void) {
    init();
    g_cnt = (int)vf_range(0, 0x7fffffff); g_f = (int)vf_range(0, 0x7fffffff); g_i = (int)vf_range(0, 0x7fffffff);
    VF_ASSUME(g_f <= g_cnt);
    g_own[0] = maybe(0); g_fin[0] = maybe(1);
    for (int i = 1; i < 4; ++i) g_own[i] = g_fin[i] = NULL;
    memset(&g_cell, 0, sizeof(g_cell));
    g_cell.mask = (metac_tag_map_entry_category_mask_t)vf_range(0, 15); g_cell.p_map = MAP(0); g_cell.p_ext_map = NULL;
    metac_entry_tag_t *hit = ref_cat(&g_cell, 0);
    if (g_i < g_f) VF_ASSUME(hit == NULL);
    if (g_i == g_f && g_f < g_cnt) VF_ASSUME(hit != NULL);
    metac_tag_map_t map = {.categories_count = g_cnt, .p_categories = (struct metac_tag_map_entry *)((char *)&g_cell - (uint64_t)g_i * sizeof(g_cell)), .p_default_tag = maybe(2)};
    metac_entry_tag_t *r = metac_tag_map_tag(&map, &g_e);
    VF_CHECK(r == (g_f < g_cnt ? hit : map.p_default_tag), "the tag of the first category that has one for the entry, else the default");
    if (g_f < g_cnt) { VF_REACH("found"); } else { VF_REACH("default"); }
}
#else
void harness(void) {
    init();
    struct metac_tag_map_entry c[NCAT + 1], x[2];
    metac_tag_map_t ext = {.categories_count = 1, .p_categories = x};
    memset(c, 0, sizeof(c)); memset(x, 0, sizeof(x));
    for (int i = 0; i < 4; ++i) { g_own[i] = maybe(2 * i); g_fin[i] = maybe(2 * i + 1); }
    x[0].mask = (metac_tag_map_entry_category_mask_t)vf_range(0, 15); x[0].p_map = MAP(3);
    ext.p_default_tag = maybe(8);
    metac_tag_map_t map = {.categories_count = NCAT, .p_categories = c, .p_default_tag = maybe(9)};
    metac_entry_tag_t *want = NULL;
    for (int i = 0; i < NCAT; ++i) {
        c[i].mask = (metac_tag_map_entry_category_mask_t)vf_range(0, 15);
        if (vf_bool()) c[i].p_ext_map = &ext; else c[i].p_map = MAP(i);
        if (want == NULL && (c[i].mask & kind_mask())) {
            if (!c[i].p_ext_map) want = ref_cat(&c[i], i);
            else { want = ref_cat(&x[0], 3); if (!want) want = ext.p_default_tag; }
        }
    }
    if (want == NULL) want = map.p_default_tag;
    metac_entry_tag_t *r = metac_tag_map_tag(&map, &g_e);
    VF_CHECK(r == want, "the tag of the first category that has one for the entry, else the default");
    VF_CHECK(metac_tag_map_tag(NULL, &g_e) == NULL, "no map, no tag");
    if (r) { VF_REACH("found"); } else { VF_REACH("none"); }
}
#endif
#elif MODE == 3
static int g_has, g_puts, g_putfail, g_key_ok; static metac_entry_tag_t *g_prev, *g_put; static void *g_key;
static int g_cfree; static char g_ctx_new, g_ctx_old;
static void ctx_free(void *p) { VF_CHECK(p == &g_ctx_old, "only the replaced tag's context is released"); ++g_cfree; }
bool hashmapContainsKey(Hashmap *m, void *key) { VF_CHECK(m == MAP(0), "the map of the category"); return key == g_key ? g_has : !g_has; }
int hashmapPut(Hashmap *m, void *key, void *v, void **pp) {
    VF_CHECK(m == MAP(0) && key == g_key, "stored for exactly that entry in that category");
    if (g_putfail) return -1;
    ++g_puts; g_put = v;
    if (pp) *pp = g_has ? g_prev : NULL;
    return 0;
}
void harness(void) {
    init();
    struct metac_tag_map_entry c[3]; memset(c, 0, sizeof(c));
    int cat = (int)vf_srange(-1, 3), ext = vf_bool(), ov = vf_bool(), fin = vf_bool(), str = vf_bool(), miss = (int)vf_range(0, 7);
    metac_tag_map_t map = {.categories_count = 3, .p_categories = c}, other;
    for (int i = 0; i < 3; ++i) c[i].p_map = i == cat ? MAP(0) : MAP(1);
    if (ext && cat >= 0 && cat < 3) { c[cat].p_map = NULL; c[cat].p_ext_map = &other; }
    g_has = vf_bool(); g_puts = 0; g_putfail = vf_range(0, 3) == 0; g_cfree = 0; vf_oom = (int)vf_range(0, 3);
    g_key = fin ? (g_e.kind == METAC_KND_struct_type ? (void *)&g_e : (void *)&t_int) : (void *)&g_e;
    g_prev = malloc(sizeof(*g_prev)); char *ps = malloc(2);
    VF_ASSUME(g_prev && ps);
    ps[0] = 'o'; ps[1] = 0;
    metac_entry_tag_t old = {.p_tagstring = ps, .p_context = &g_ctx_old, .context_free_handler = ctx_free};
    *g_prev = old;
    char s[3] = "xy";
    metac_entry_tag_t tag = {.p_tagstring = str ? s : NULL, .p_context = &g_ctx_new, .context_free_handler = ctx_free, .handler = (metac_value_event_handler_t)(void *)&g_m[2]};
    int r = metac_tag_map_set_tag(miss == 1 ? NULL : &map, cat, ov, miss == 2 ? NULL : &g_e, fin ? METAC_TEO_final_entry : METAC_TEO_entry, miss == 3 ? NULL : &tag);
    int refuse = (miss >= 1 && miss <= 3) || cat < 0 || cat > 2 || ext || (g_has && !ov), oom = !refuse && vf_oom && vf_allocs >= vf_oom;
    VF_CHECK(s[0] == 'x' && s[1] == 'y', "the given tag is not modified");
    if (refuse || oom || g_putfail) {
        VF_CHECK(r != 0 && g_puts == 0 && g_cfree == 0, "refused or failed: reported, nothing stored or released");
        VF_CHECK(freed(g_prev) == 0 && freed(ps) == 0, "and the existing tag stays");
        if (refuse) { VF_CHECK(vf_allocs == 0, "nothing allocated"); VF_REACH("refused"); } else { VF_REACH("failed"); }
        VF_CHECK(g_nfreed == vf_allocs - (oom ? 1 : 0), "everything allocated is released");
        return;
    }
    VF_CHECK(r == 0 && g_puts == 1, "stored");
    VF_CHECK(g_put != &tag && g_put->p_context == &g_ctx_new && g_put->handler == tag.handler && g_put->context_free_handler == ctx_free, "a copy of the tag");
    VF_CHECK(str ? g_put->p_tagstring != s && g_put->p_tagstring != NULL && strcmp(g_put->p_tagstring, "xy") == 0 : g_put->p_tagstring == NULL, "with a string of its own");
    VF_CHECK(freed(g_put) == 0 && (!str || freed(g_put->p_tagstring) == 0), "which stays alive");
    if (g_has) { VF_CHECK(g_cfree == 1 && freed(g_prev) == 1 && freed(ps) == 1, "the replaced tag is released once"); VF_REACH("replaced"); }
    else { VF_CHECK(g_cfree == 0 && g_nfreed == 0, "nothing else is released"); VF_REACH("new"); }
}
#elif MODE == 4
/* creation of NCAT categories with a failure at any point; deletion of what was created */
static int g_created, g_cfail, g_state[4], g_cfree; static char g_ctx; static metac_entry_tag_t *g_in[4];
static void ctx_free(void *p) { VF_CHECK(p == &g_ctx, "context"); ++g_cfree; }
Hashmap *hashmapCreate(size_t n, int (*h)(void *), bool (*eq)(void *, void *)) {
    VF_CHECK(eq(&g_m[0], &g_m[0]) && !eq(&g_m[0], &g_m[1]), "entries are told apart by identity");
    if (g_cfail && g_created + 1 == g_cfail) { g_created = 100; return NULL; }
    if (g_created >= 100) return NULL;
    g_state[g_created] = 1;
    return MAP(g_created++);
}
void hashmapForEach(Hashmap *m, bool (*cb)(void *, void *, void *), void *ctx) {
    for (int i = 0; i < 4; ++i) if (m == MAP(i)) {
        VF_CHECK(g_state[i] == 1, "each map is walked once, before it is released"); g_state[i] = 2;
        if (g_in[i]) cb(&t_int, g_in[i], ctx);
        return;
    }
    VF_CHECK(0, "own map");
}
void hashmapFree(Hashmap *m) { for (int i = 0; i < 4; ++i) if (m == MAP(i)) { VF_CHECK(g_state[i] == 2, "each map is released once, after its tags"); g_state[i] = 3; return; } VF_CHECK(0, "own map"); }
void harness(void) {
    init();
    metac_tag_map_entry_t me[NCAT + 1]; char s[3] = "d"; metac_tag_map_t *other = (metac_tag_map_t *)&g_m[3]; int own = 0, hasdef = vf_bool(), nmap = 0;
    for (int i = 0; i < 4; ++i) { g_state[i] = 0; g_in[i] = NULL; }
    g_created = 0; g_cfree = 0;
    for (int i = 0; i < NCAT; ++i) { me[i].mask = (metac_tag_map_entry_category_mask_t)vf_range(0, 15); me[i].p_ext_map = vf_bool() ? other : NULL; if (!me[i].p_ext_map) ++own; }
    vf_oom = (int)vf_range(0, 5); g_cfail = (int)vf_range(0, 4);
    metac_entry_tag_t def = {.p_tagstring = s, .p_context = &g_ctx, .context_free_handler = ctx_free};
    metac_tag_map_t *p = metac_new_tag_map_ex(NCAT, vf_bool() || NCAT == 0 ? me : me, hasdef ? &def : NULL);
    int oom = (vf_oom && vf_allocs >= vf_oom) || g_created >= 100;
    VF_CHECK((p == NULL) == (NCAT == 0 || oom), "created exactly when there are categories and memory");
    if (p == NULL) {
        VF_CHECK(g_nfreed == vf_allocs - (vf_oom && vf_allocs >= vf_oom ? 1 : 0), "a failed creation releases everything");
        for (int i = 0; i < 4; ++i) VF_CHECK(g_state[i] == 0 || g_state[i] == 3, "and every map");
        VF_REACH("failed");
        return;
    }
    VF_CHECK(g_created == own && g_nfreed == 0, "one map per own category");
    VF_CHECK(hasdef ? p->p_default_tag != NULL && p->p_default_tag != &def && p->p_default_tag->p_context == &g_ctx && p->p_default_tag->p_tagstring != s && strcmp(p->p_default_tag->p_tagstring, "d") == 0 : p->p_default_tag == NULL, "default tag copied");
    VF_CHECK(p->categories_count == NCAT, "categories");
    for (int i = 0; i < NCAT; ++i) VF_CHECK(p->p_categories[i].mask == me[i].mask && p->p_categories[i].p_ext_map == me[i].p_ext_map && (me[i].p_ext_map ? p->p_categories[i].p_map == NULL : p->p_categories[i].p_map == MAP(nmap++)), "as requested");
    for (int i = 0; i < own; ++i) if (vf_bool()) { g_in[i] = malloc(sizeof(metac_entry_tag_t)); VF_ASSUME(g_in[i] != NULL); metac_entry_tag_t t = {.p_context = &g_ctx, .context_free_handler = ctx_free}; *g_in[i] = t; }
    int want = hasdef; metac_entry_tag_t *d = p->p_default_tag;
    for (int i = 0; i < own; ++i) want += g_in[i] != NULL;
    metac_tag_map_delete(p);
    VF_CHECK(g_cfree == want, "every context is released once");
    for (int i = 0; i < own; ++i) VF_CHECK(g_state[i] == 3 && (!g_in[i] || freed(g_in[i]) == 1), "every map and tag is released once");
    VF_CHECK(freed(p) == 1 && (!d || freed(d) == 1), "and the map itself");
    metac_tag_map_delete(NULL);
    VF_REACH("deleted");
}
#elif MODE == 5
#include "memw.h"
#define NE 12
static metac_entry_t ty[4], td[4], e[NE];
struct ctx { int live; }; static struct ctx cx[256]; static int ncx, frees_bad;
static void ctx_free(void *p) { struct ctx *c = p; if (c->live != 1) frees_bad = 1; c->live = 2; }
static char strs[256][8];
static int h(metac_value_walker_hierarchy_t *a, metac_value_event_t *b, void *c) { return 0; }
struct rmap { int n; int mask[4]; int ext[4]; int own[4][NE + 4]; int def; metac_tag_map_t *p; };
static struct rmap M[3];
static int fin_of(int k) { return NE + (k % 4); }
static int kmask(int k) { return k < NE ? (k % 3 == 0 ? 1 << METAC_TEC_variable : k % 3 == 1 ? 1 << METAC_TEC_member : 1 << METAC_TEC_func_parameter) : 0; }
static int rlook(int m, int k) {
    for (int i = 0; i < M[m].n; ++i) {
        if (!(M[m].mask[i] & kmask(k))) continue;
        if (M[m].ext[i] >= 0) { int t = rlook(M[m].ext[i], k); if (t) return t; continue; }
        if (M[m].own[i][k]) return M[m].own[i][k];
        if ((M[m].mask[i] & (1 << METAC_TEC_final)) && M[m].own[i][fin_of(k)]) return M[m].own[i][fin_of(k)];
    }
    return M[m].def;
}
static metac_entry_tag_t mk(int *id) {
    *id = ++ncx; cx[ncx].live = 1;
    snprintf(strs[ncx], 8, "t%d", ncx);
    metac_entry_tag_t t = {.p_tagstring = vf_range(0, 4) ? strs[ncx] : NULL, .p_context = &cx[ncx], .handler = h, .context_free_handler = ctx_free};
    return t;
}
static void all_lookups(int nm) {
    for (int m = 0; m < nm; ++m) for (int k = 0; k < NE; ++k) {
        metac_entry_tag_t *t = metac_tag_map_tag(M[m].p, &e[k]);
        int w = rlook(m, k);
        VF_CHECK((t != NULL) == (w != 0), "an entry has a tag exactly when one was set for it");
        if (t) { VF_CHECK(t->p_context == &cx[w] && t->handler == h && (t->p_tagstring == NULL || (t->p_tagstring != strs[w] && strcmp(t->p_tagstring, strs[w]) == 0)), "and it is that tag"); VF_CHECK(cx[w].live == 1, "still alive"); }
    }
}
void harness(void) {
    static const char *tn[4] = {"int", "char", "long int", "double"};
    for (int i = 0; i < 4; ++i) { metac_entry_t b = VF_BASE((char *)tn[i], METAC_ENC_signed, 4), d = {.kind = METAC_KND_typedef, .name = "t", .typedef_info = {.type = &ty[i]}}; ty[i] = b; td[i] = d; }
    for (int k = 0; k < NE; ++k) {
        metac_entry_t *t = k % 2 ? &td[k % 4] : &ty[k % 4];
        metac_entry_t v = VF_VAR("n", t), m = VF_MEMBER("n", t, 0), p = VF_PARAM("n", t);
        e[k] = k % 3 == 0 ? v : k % 3 == 1 ? m : p;
    }
    ncx = 0; frees_bad = 0; memset(M, 0, sizeof(M)); memset(cx, 0, sizeof(cx));
    mw_begin(0);
#ifdef FAILS
    mw_fail_at = (long)vf_range(1, 60);
#endif
    int nm = (int)vf_range(1, 3), id;
    for (int m = 0; m < nm; ++m) {
        metac_tag_map_entry_t me[4];
        int simple = vf_range(0, 4) == 0;
        M[m].n = simple ? 1 : (int)vf_range(1, 4);
        for (int i = 0; i < M[m].n; ++i) {
            M[m].ext[i] = !simple && m > 0 && vf_bool() ? (int)vf_range(0, (uint64_t)m - 1) : -1;
            M[m].mask[i] = simple ? (1 << METAC_TEC_variable) | (1 << METAC_TEC_member) | (1 << METAC_TEC_func_parameter) : (int)vf_range(1, 15);
            me[i].mask = (metac_tag_map_entry_category_mask_t)M[m].mask[i]; me[i].p_ext_map = M[m].ext[i] >= 0 ? M[M[m].ext[i]].p : NULL;
        }
        metac_entry_tag_t d; int hasd = vf_bool();
        if (hasd) d = mk(&id);
        int pre = mw_failed; long live = mw_live;
        M[m].p = simple ? metac_new_tag_map(hasd ? &d : NULL) : metac_new_tag_map_ex(M[m].n, me, hasd ? &d : NULL);
        if (M[m].p == NULL) { VF_CHECK(!pre && mw_failed, "creation fails only without memory"); VF_CHECK(mw_live == live, "and then leaks nothing"); for (int j = 0; j <= ncx; ++j) if (cx[j].live == 2) VF_CHECK(hasd && j == id, "contexts stay"); nm = m; break; }
        VF_CHECK(pre == mw_failed, "no success without memory");
        M[m].def = hasd ? id : 0;
    }
    int ops = (int)vf_range(0, 40);
    for (int o = 0; nm && o < ops; ++o) {
        int m = (int)vf_range(0, (uint64_t)nm - 1), c = (int)vf_srange(-1, 4), k = (int)vf_range(0, NE - 1), fin = vf_bool(), ov = vf_bool();
        metac_entry_tag_t t = mk(&id);
        int key = fin ? fin_of(k) : k, bad = c < 0 || c >= M[m].n || M[m].ext[c < 0 ? 0 : c % 4] >= 0, dup = !bad && M[m].own[c][key] && !ov;
        int pre = mw_failed; long live = mw_live;
        int r = metac_tag_map_set_tag(M[m].p, (metac_num_t)c, (metac_flag_t)ov, &e[k], fin ? METAC_TEO_final_entry : METAC_TEO_entry, &t);
        if (bad || dup || mw_failed != pre) { VF_CHECK(r != 0, "refused"); VF_CHECK(cx[id].live == 1 && mw_live == live, "nothing kept or lost"); if (!bad && dup) VF_CHECK(r == -(EALREADY), "already set"); }
        else {
            VF_CHECK(r == 0, "set");
            int old = M[m].own[c][key];
            if (old) VF_CHECK(cx[old].live == 2, "the replaced context is released");
            M[m].own[c][key] = id;
        }
        if (vf_range(0, 7) == 0) all_lookups(nm);
    }
    all_lookups(nm);
    VF_CHECK(metac_tag_map_tag(NULL, &e[0]) == NULL, "no map, no tag");
    mw_fail_at = 0;
    for (int m = nm - 1; m >= 0; --m) metac_tag_map_delete(M[m].p);
    VF_CHECK(mw_live == 0, "deletion releases everything");
    VF_CHECK(!frees_bad, "no context is released twice");
    for (int m = 0; m < nm; ++m) { for (int i = 0; i < M[m].n; ++i) for (int k = 0; k < NE + 4; ++k) if (M[m].own[i][k]) VF_CHECK(cx[M[m].own[i][k]].live == 2, "every context is released"); if (M[m].def) VF_CHECK(cx[M[m].def].live == 2, "the default context is released"); }
    mw_end();
    VF_REACH("end");
}
#endif
