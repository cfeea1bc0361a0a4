/* C17: lookup in the declaration-location database.
 * MODE 1 every database of NI items per level (names of up to NL characters), MODE 2 any number of items per level:
 * the C library's bsearch is assumed by its contract, MODE 3 (native) large databases */
#include "ent.h"
#include "metac/reflect/loc.h"
#ifndef NI
#define NI 3
#endif
static int vf_cmp(const char *a, const char *b) {   /* byte order, as the database generator sorts */
    size_t i = 0;
    while (a[i] && a[i] == b[i]) ++i;
    return (int)(unsigned char)a[i] - (int)(unsigned char)b[i];
}
static metac_entry_t g_e[64];
static metac_entry_t *g_list[4];
#if MODE == 1
#ifdef VF_CBMC
void *bsearch(const void *key, const void *base, size_t n, size_t size, int (*cmp)(const void *, const void *)) {
    size_t l = 0, u = n;
    while (l < u) {
        size_t i = (l + u) / 2;
        const void *p = (const char *)base + i * size;
        int c = cmp(key, p);
        if (c < 0) u = i; else if (c > 0) l = i + 1; else return (void *)p;
    }
    return 0;
}
#endif
#ifndef LEVEL
#define LEVEL 0
#endif
/* one object per name: CBMC 6.11 loses the content of rows of a two-dimensional array */
static char nm0[3], nm1[3], nm2[3], nm3[3];
static char *nm[4];
static void names(int n) {      /* n sorted distinct names and a query at nm[n] */
    nm[0] = nm0; nm[1] = nm1; nm[2] = nm2; nm[3] = nm3;
    for (int i = 0; i <= n; ++i) { nm[i][0] = (char)vf_u64(); nm[i][1] = (char)vf_u64(); nm[i][2] = 0; if (!nm[i][0]) nm[i][1] = 0; }
    for (int i = 0; i + 1 < n; ++i) VF_ASSUME(vf_cmp(nm[i], nm[i + 1]) < 0);
}
void harness(void) {
    int n = NI;
    names(n);
    metac_num_t ec[NI + 1];
    for (int i = 0; i < n; ++i) { ec[i] = (metac_num_t)vf_range(0, 3); }
    for (int i = 0; i < 4; ++i) g_list[i] = &g_e[i];
    struct metac_per_name_item ni[NI + 1], n1[2] = {{.name = "v", .entry_count = 1, .pp_entries = &g_list[3]}, {.name = "w", .entry_count = 1, .pp_entries = &g_list[2]}};
    for (int i = 0; i < n; ++i) { ni[i].name = nm[i]; ni[i].entry_count = ec[i]; ni[i].pp_entries = &g_list[i % 3]; }
    int at = -1;
    for (int i = 0; i < n; ++i) if (vf_cmp(nm[i], nm[n]) == 0) at = i;
#if LEVEL == 0
    struct metac_per_loc_item li[2] = {{.loc_name = "k", .per_name_item_count = 2, .per_name_items = n1}, {.loc_name = "l", .per_name_item_count = n, .per_name_items = ni}};
    struct metac_per_file_item fi[1] = {{.file = "f", .per_loc_item_count = 2, .per_loc_items = li}};
    struct metac_entry_db db = {.per_file_item_count = 1, .per_file_items = fi};
    struct metac_decl_loc loc = {.file = "f", .name = "l"};
    metac_entry_t *want = at >= 0 && ec[at] == 1 ? g_list[at % 3] : NULL, *r = metac_entry_from_entry_db(&db, &loc, nm[n]);
#else
    struct metac_per_name_item own[NI + 1][2] = {0};
    for (int i = 0; i < n; ++i) { own[i][0].name = "u"; own[i][0].entry_count = 0; own[i][1].name = "v"; own[i][1].entry_count = ec[i]; own[i][1].pp_entries = &g_list[i % 3]; }
    metac_entry_t *want = at >= 0 && ec[at] == 1 ? g_list[at % 3] : NULL, *r;
#if LEVEL == 1
    struct metac_per_loc_item li[NI + 1] = {
        {.loc_name = nm[0], .per_name_item_count = 2, .per_name_items = own[0]},
#if NI > 1
        {.loc_name = nm[1], .per_name_item_count = 2, .per_name_items = own[1]},
#endif
#if NI > 2
        {.loc_name = nm[2], .per_name_item_count = 2, .per_name_items = own[2]},
#endif
    };
    struct metac_per_file_item fi[2] = {{.file = "e", .per_loc_item_count = 0, .per_loc_items = 0}, {.file = "f", .per_loc_item_count = n, .per_loc_items = li}};
    struct metac_entry_db db = {.per_file_item_count = 2, .per_file_items = fi};
    struct metac_decl_loc loc = {.file = "f", .name = nm[n]};
#else
    struct metac_per_loc_item li[3] = {{.loc_name = "l", .per_name_item_count = 2, .per_name_items = own[0]}, {.loc_name = "l", .per_name_item_count = 2, .per_name_items = own[1]}, {.loc_name = "l", .per_name_item_count = 2, .per_name_items = own[NI > 2 ? 2 : 0]}};
    struct metac_per_file_item fi[NI + 1];
    for (int i = 0; i < n; ++i) { fi[i].file = nm[i]; fi[i].per_loc_item_count = 1; fi[i].per_loc_items = &li[i]; }
    struct metac_entry_db db = {.per_file_item_count = n, .per_file_items = fi};
    struct metac_decl_loc loc = {.file = nm[n], .name = "l"};
#endif
    r = metac_entry_from_entry_db(&db, &loc, "v");
    VF_CHECK(metac_entry_from_entry_db(&db, &loc, "x") == NULL, "an absent name is not found");
#endif
    VF_CHECK(r == want, "the one entry of that name, location and file, or nothing");
#if NI > 0
    if (r) VF_REACH("found");
#endif
    if (!r) VF_REACH("not found");
    VF_CHECK(metac_entry_from_entry_db(NULL, &loc, "v") == NULL && metac_entry_from_entry_db(&db, NULL, "v") == NULL && metac_entry_from_entry_db(&db, &loc, NULL) == NULL, "missing arguments");
}
#elif MODE == 2
/* any number of items: the item looked for, if present, sits at an arbitrary index of an array of arbitrary length; the
 * assumed contract of bsearch (ISO C 7.22.5.1: sorted array of n elements of the given size, a consistent comparison)
 * has its preconditions checked on an arbitrary element */
static int g_calls, g_present[3];
static size_t g_n[3];
static struct metac_per_file_item g_f; static struct metac_per_name_item g_nm; 
static const struct metac_per_loc_item *g_l;
static const char *g_q[3], *g_other[3];
static void *g_base[3];
void *bsearch(const void *key, const void *base, size_t n, size_t size, int (*cmp)(const void *, const void *)) {
    int k = g_calls++;
    VF_CHECK(k < 3, "three levels");
    VF_CHECK(base == g_base[k] && n == g_n[k], "the items of that level, all of them");
    VF_CHECK(size == (k == 0 ? sizeof(struct metac_per_file_item) : k == 1 ? sizeof(struct metac_per_loc_item) : sizeof(struct metac_per_name_item)), "size of an item");
    /* any item of the array: the comparison orders it as its name */
    int c, w = vf_cmp(g_q[k], g_other[k]);
    if (k == 0) { struct metac_per_file_item o = {.file = (char *)g_other[0]}; c = cmp(key, &o); }
    else if (k == 1) { struct metac_per_loc_item o = {.loc_name = (char *)g_other[1]}; c = cmp(key, &o); }
    else { struct metac_per_name_item o = {.name = (char *)g_other[2]}; c = cmp(key, &o); }
    VF_CHECK((c < 0) == (w < 0) && (c > 0) == (w > 0), "comparison in the order the database is sorted");
    if (!g_present[k]) return NULL;
    return k == 0 ? (void *)&g_f : k == 1 ? (void *)g_l : (void *)&g_nm;
}
void harness(void) {
    static char q0[4], q1[4], q2[4], o0[4], o1[4], o2[4];
    char *q[3] = {q0, q1, q2}, *o[3] = {o0, o1, o2};
    for (int i = 0; i < 3; ++i) {
        for (int j = 0; j < 3; ++j) { q[i][j] = (char)vf_u64(); o[i][j] = (char)vf_u64(); }
        q[i][3] = o[i][3] = 0;
        g_q[i] = q[i]; g_other[i] = o[i];
        g_present[i] = vf_bool();
        g_n[i] = vf_range(0, 0x7fffffff);
    }
    g_calls = 0;
    metac_num_t ec = (metac_num_t)vf_srange(0, 0x7fffffff);
    metac_entry_t *ents[1] = {&g_e[0]};
    char arrays[3][8];
    g_base[0] = arrays[0]; g_base[1] = arrays[1]; g_base[2] = arrays[2];
    struct metac_per_loc_item li = {.loc_name = q[1], .per_name_item_count = (metac_num_t)g_n[2], .per_name_items = g_base[2]};
    g_l = &li;
    g_f.file = q[0]; g_f.per_loc_item_count = (metac_num_t)g_n[1]; g_f.per_loc_items = g_base[1];
    g_nm.name = q[2]; g_nm.entry_count = ec; g_nm.pp_entries = ents;
    struct metac_entry_db db = {.per_file_item_count = (metac_num_t)g_n[0], .per_file_items = g_base[0]};
    struct metac_decl_loc loc = {.file = q[0], .name = q[1]};
    metac_entry_t *r = metac_entry_from_entry_db(&db, &loc, q[2]);
    if (g_present[0] && g_present[1] && g_present[2] && ec == 1) { VF_CHECK(r == &g_e[0], "the only entry"); VF_REACH("found"); }
    else { VF_CHECK(r == NULL, "nothing when absent or ambiguous"); VF_REACH("not found"); }
}
#else
#include <stdio.h>
static char *rname(void) {
    static const char pool[] = "aabz_/.1\xc3\xff~";
    static char buf[4096][12]; static int nb;
    char *b = buf[nb++ & 4095];
    int n = (int)vf_range(0, 6), i;
    for (i = 0; i < n; ++i) b[i] = pool[vf_range(0, sizeof(pool) - 2)];
    b[i] = 0;
    return b;
}
static int scmp(const void *a, const void *b) { return vf_cmp(*(char **)a, *(char **)b); }
static int rset(char **v, int max) {
    int n = (int)vf_range(0, max), m = 0;
    for (int i = 0; i < n; ++i) v[i] = rname();
    qsort(v, n, sizeof(*v), scmp);
    for (int i = 0; i < n; ++i) if (m == 0 || vf_cmp(v[m - 1], v[i]) != 0) v[m++] = v[i];
    return m;
}
void harness(void) {
    char *f[8], *l[8][8], *n[8][8][12];
    struct metac_per_file_item fi[8]; static struct metac_per_name_item ni[8][8][12];
    int nf = rset(f, 8), nl[8], nn[8][8];
    metac_entry_t *ents[64];
    for (int i = 0; i < 64; ++i) ents[i] = &g_e[i];
    struct metac_per_loc_item *li = malloc(64 * sizeof(*li));
    for (int i = 0; i < nf; ++i) {
        nl[i] = rset(l[i], 8);
        for (int j = 0; j < nl[i]; ++j) {
            nn[i][j] = rset(n[i][j], 12);
            for (int k = 0; k < nn[i][j]; ++k) {
                ni[i][j][k].name = n[i][j][k]; ni[i][j][k].entry_count = (metac_num_t)(vf_range(0, 3) ? 1 : vf_range(0, 2)); ni[i][j][k].pp_entries = &ents[vf_range(0, 60)];
            }
            struct metac_per_loc_item t = {.loc_name = l[i][j], .per_name_item_count = nn[i][j], .per_name_items = ni[i][j]};
            memcpy(&li[i * 8 + j], &t, sizeof(t));
        }
        fi[i].file = f[i]; fi[i].per_loc_item_count = nl[i]; fi[i].per_loc_items = &li[i * 8];
    }
    struct metac_entry_db db = {.per_file_item_count = nf, .per_file_items = fi};
    for (int i = 0; i < nf; ++i) for (int j = 0; j < nl[i]; ++j) {
        for (int k = 0; k < nn[i][j]; ++k) {
            char a[12], b[12], c[12];           /* equal text, not equal pointers */
            strcpy(a, f[i]); strcpy(b, l[i][j]); strcpy(c, n[i][j][k]);
            struct metac_decl_loc loc = {.file = a, .name = b};
            metac_entry_t *w = ni[i][j][k].entry_count == 1 ? ni[i][j][k].pp_entries[0] : NULL;
            VF_CHECK(metac_entry_from_entry_db(&db, &loc, c) == w, "every entry of the database is found");
        }
    }
    for (int t = 0; t < 6; ++t) {
        char *qf = nf && vf_range(0, 3) ? f[vf_range(0, nf - 1)] : rname(), *ql = rname(), *qn = rname();
        int a = -1, b = -1, c = -1;
        for (int i = 0; i < nf; ++i) if (!vf_cmp(f[i], qf)) a = i;
        if (a >= 0 && nl[a] && vf_range(0, 3)) ql = l[a][vf_range(0, nl[a] - 1)];
        if (a >= 0) for (int i = 0; i < nl[a]; ++i) if (!vf_cmp(l[a][i], ql)) b = i;
        if (b >= 0) for (int i = 0; i < nn[a][b]; ++i) if (!vf_cmp(n[a][b][i], qn)) c = i;
        struct metac_decl_loc loc = {.file = qf, .name = ql};
        metac_entry_t *w = c >= 0 && ni[a][b][c].entry_count == 1 ? ni[a][b][c].pp_entries[0] : NULL;
        VF_CHECK(metac_entry_from_entry_db(&db, &loc, qn) == w, "nothing else is found");
    }
    free(li);
}
#endif
