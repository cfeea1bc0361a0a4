/* C12: captured call parameters.
 * MODE 1 append, 2 lookup, 3 copy, 4 clean-up on a storage of any length (private structures), 5 (native) histories of
 * public calls against a reference, 6 (native) capture of the arguments of a call (FAILS: an allocation fails inside),
 * 7 call results, 8 recognising va_list parameters */
#ifdef VF_CBMC
#define MODE_PRIV 1
#endif
#include "ent.h"
#include <stdarg.h>
#include <complex.h>
#include <stdbool.h>
#include "metac/backend/value.h"
#include "metac/backend/entry.h"
#if MODE <= 4
/* storages of any length, on the private structures */
static int vf_oom, vf_allocs;
static void *vf_calloc(size_t n, size_t s) { ++vf_allocs; return vf_oom && vf_allocs == vf_oom ? NULL : calloc(n, s); }
static void *g_freed[4]; static int g_nfreed;
static void vf_free(void *p) { if (g_nfreed < 4) g_freed[g_nfreed] = p; ++g_nfreed; free(p); }
#define calloc vf_calloc
#define free vf_free
/* entry.c: "free entry (checks metac_entry_is_dynamic)" */
static void vf_entry_delete(metac_entry_t *e) { if (e != NULL && e->dynamically_allocated) vf_free(e); }
#define metac_entry_delete vf_entry_delete
#include SRC_value_with_args
#undef metac_entry_delete
#undef calloc
#undef free
/* recognising a va_list parameter by the text of its type is C16's business */
static metac_entry_t t_tag, t_valist;
char *metac_entry_cdecl(metac_entry_t *e) { char *r = malloc(32); VF_ASSUME(r != NULL); strcpy(r, e == &t_valist ? "va_list %s" : "int %s"); return r; }
typedef metac_parameter_t N;
static metac_entry_t t_int = VF_BASE("int", METAC_ENC_signed, 4), e_plain = VF_PARAM("p", &t_int), e_unspec = {.kind = METAC_KND_func_parameter, .func_parameter_info = {.unspecified_parameters = 1}}, e_va = VF_PARAM("ap", &t_valist);
static metac_entry_t e_dyn = {.dynamically_allocated = 1, .kind = METAC_KND_array_type, VF_T0(&t_int) .array_type_info = {.type = &t_int, .count = 5}};
static metac_entry_t *any_entry(void) { uint64_t k = vf_range(0, 2); return k == 0 ? &e_plain : k == 1 ? &t_int : &e_dyn; }
static void init(void) {
    metac_entry_t tg = VF_STRUCT(METAC_KND_struct_type, "__va_list_tag", 24, 0, 0), p = VF_PTR(&t_tag); t_tag = tg; t_valist = p;
    vf_oom = 0; vf_allocs = 0; g_nfreed = 0;
    /* statics are havocked by the contract instrumentation: set them again */
    metac_entry_t a = VF_BASE("int", METAC_ENC_signed, 4), b = VF_PARAM("p", &t_int), c = {.kind = METAC_KND_func_parameter, .func_parameter_info = {.unspecified_parameters = 1}}, d = VF_PARAM("ap", &t_valist);
    metac_entry_t e = {.dynamically_allocated = 1, .kind = METAC_KND_array_type, VF_T0(&t_int) .array_type_info = {.type = &t_int, .count = 5}};
    t_int = a; e_plain = b; e_unspec = c; e_va = d; e_dyn = e;
}
static int same_node(N *a, N *b) { return a->size == b->size && a->p_entry == b->p_entry && a->addr == b->addr; }
static metac_parameter_storage_t g_s, g_d;
static char g_mem[64];
#endif
#if MODE == 1
void harness(void) {
    init();
    static N f, m, l; N sf, sm, sl;
    int n = (int)vf_range(0, 3), cnt;
    memset(&f, 0, sizeof(f)); memset(&m, 0, sizeof(m)); memset(&l, 0, sizeof(l)); memset(&g_s, 0, sizeof(g_s));
    f.addr = g_mem; f.size = 4; f.p_entry = &e_plain; l.addr = g_mem + 8; l.size = 4; l.p_entry = &t_int; m.addr = g_mem + 16; m.size = 1; m.p_entry = &t_int;
    f.links.le_prev = &g_s.list.lh_first;
    if (n == 1) { g_s.list.lh_first = g_s.p_last_added_param = &f; }
    if (n == 2) { g_s.list.lh_first = &f; f.links.le_next = &l; l.links.le_prev = &f.links.le_next; g_s.p_last_added_param = &l; }
    if (n == 3) { g_s.list.lh_first = &f; f.links.le_next = &m; m.links.le_prev = &f.links.le_next; m.links.le_next = (N *)(g_mem + 1); l.links.le_prev = (N **)(g_mem + 2); g_s.p_last_added_param = &l; }
    cnt = n < 3 ? n : (int)vf_srange(3, 0x7ffffffe);
    g_s.list_size = cnt;
    sf = f; sm = m; sl = l;
    N *tail = n == 0 ? NULL : n == 1 ? &f : &l;
    int nested = vf_bool();
    metac_entry_t *e = nested ? (vf_bool() ? &e_unspec : &e_va) : any_entry();
    metac_num_t size = (metac_num_t)vf_srange(-2, 24);
    vf_oom = (int)vf_range(0, 4);
    int noent = !nested && vf_range(0, 3) == 0;
    int r = nested ? metac_parameter_storage_append_by_parameter_storage(&g_s, e) : metac_parameter_storage_append_by_buffer(&g_s, noent ? NULL : e, size);
    int refuse = !nested && (noent || size <= 0), oom = !refuse && vf_oom && vf_allocs >= vf_oom;
    VF_CHECK(same_node(&f, &sf) && same_node(&m, &sm) && same_node(&l, &sl), "earlier parameters are not touched");
    if (refuse || oom) {
        VF_CHECK(r != 0, "reported");
        VF_CHECK(g_s.list_size == cnt && g_s.p_last_added_param == tail && g_s.list.lh_first == (n ? &f : NULL) && (tail == NULL || tail->links.le_next == NULL), "and nothing changed");
        if (oom) { VF_REACH("oom"); } else { VF_REACH("refused"); }
        return;
    }
    VF_CHECK(r == 0, "appended");
    VF_CHECK(g_s.list_size == (metac_num_t)(cnt + 1), "one more parameter");
    N *x = tail ? tail->links.le_next : g_s.list.lh_first;
    VF_CHECK(x != NULL && x != &f && x != &m && x != &l && g_s.p_last_added_param == x, "after all earlier ones");
    if (x == NULL) return;
    VF_CHECK(x->links.le_next == NULL && x->links.le_prev == (tail ? &tail->links.le_next : &g_s.list.lh_first), "links are consistent");
    VF_CHECK(n == 0 || g_s.list.lh_first == &f, "the first stays the first");
    VF_CHECK(n < 2 || (f.links.le_next == sf.links.le_next && m.links.le_next == sm.links.le_next), "the order is kept");
    if (e == &e_dyn) { VF_CHECK(x->p_entry != &e_dyn && x->p_entry->kind == METAC_KND_array_type && x->p_entry->array_type_info.count == 5 && x->p_entry->array_type_info.type == &t_int, "an independent equal description"); VF_REACH("dynamic"); }
    else VF_CHECK(x->p_entry == e, "with its description");
    VF_CHECK(x->addr != NULL, "with memory of its own");
    if (nested) {
        metac_parameter_storage_t *in = x->addr;
        VF_CHECK(x->size == 0 && in->list.lh_first == NULL && in->list_size == 0 && in->p_last_added_param == NULL, "an empty list");
        VF_REACH("nested");
    } else {
        VF_CHECK(x->size == size, "of the size asked for");
        size_t k = (size_t)vf_range(0, 23);
        VF_ASSUME(k < (size_t)size);
        VF_CHECK(((char *)x->addr)[k] == 0, "zeroed");
        ((char *)x->addr)[k] = 1;
        VF_REACH("plain");
    }
}
#elif MODE == 2
static int g_n, g_j, g_id; static N *g_first, *g_a, *g_b; static N n_f, n_a, n_b;
#ifdef ALT                 /* the loop counts down */
#define CUR(c) ((int)((unsigned)g_id - (unsigned)(c)))
#else
#define CUR(c) (c)
#endif
int vf_inv_look(void *p, int cur) { cur = CUR(cur); return ((p == g_first && cur == 0) || (p == g_a && cur == g_j) || (p == g_b && cur == g_j + 1) || (p == NULL && cur == g_n)) && cur <= g_n && cur >= 0 && (p != NULL || cur == g_n) && !(g_id >= 0 && g_id < cur); }
void *vf_hv_look(void) { return vf_hv() & 1 ? (void *)g_a : NULL; }
void harness(void) {
    init();
    g_n = (int)vf_srange(0, 0x7ffffff0); g_id = (int)vf_srange(-5, 0x7ffffff0);
    memset(&n_f, 0, sizeof(N)); memset(&n_a, 0, sizeof(N)); memset(&n_b, 0, sizeof(N));
    n_f.addr = g_mem; n_a.addr = g_mem + 1; n_b.addr = g_mem + 2; n_f.p_entry = &t_int; n_a.p_entry = &e_plain; n_b.p_entry = &t_int;
    if (g_n > 0) {
        g_j = (int)vf_srange(0, 0x7fffffff); VF_ASSUME(g_j < g_n);
        g_a = &n_a; g_first = g_j == 0 ? g_a : &n_f; g_b = g_j + 1 < g_n ? &n_b : NULL;
        n_a.links.le_next = g_b;
        n_f.links.le_next = g_n == 1 ? NULL : g_j == 1 ? g_a : &n_b /* some other node; never followed: a second visit ends the path */;
    } else { g_j = -1; g_a = g_first = g_b = NULL; }
    g_s.list.lh_first = g_first; g_s.list_size = g_n; g_s.p_last_added_param = NULL;
    metac_value_t *v = metac_parameter_storage_new_param_value(&g_s, g_id);
    if (v) {
        VF_CHECK(g_id >= 0 && g_id < g_n, "nothing out of range");
        VF_CHECK((g_id == 0 && metac_value_addr(v) == g_first->addr && metac_value_entry(v) == g_first->p_entry) || (g_id == g_j && metac_value_addr(v) == g_a->addr && metac_value_entry(v) == g_a->p_entry) || (g_b && g_id == g_j + 1 && metac_value_addr(v) == g_b->addr && metac_value_entry(v) == g_b->p_entry), "the parameter at that position");
        VF_REACH("found");
        metac_value_delete(v);
    } else {
        VF_CHECK(g_id < 0 || g_id >= g_n, "every parameter in range is found");
        VF_REACH("out of range");
    }
}
#elif MODE == 3
/* copy: at an arbitrary node of the source, g_j parameters were copied so far */
static int g_n, g_j, g_vis; static N *g_first, *g_a, *g_b; static N n_f, n_a, n_b, d_l; static char m_a[16], s_a[16]; static N snap;
static void copied(N *src, N *prev, int cnt) {
    N *x = g_d.p_last_added_param;
    VF_CHECK(x != NULL && x != prev && x != src, "the copy is a new parameter");
    if (x == NULL) return;
    VF_CHECK(g_d.list_size == cnt, "one per source parameter");
    VF_CHECK((prev ? prev->links.le_next : g_d.list.lh_first) == x && x->links.le_next == NULL, "in the same order");
    VF_CHECK(x->size == src->size && x->p_entry == src->p_entry && x->addr != src->addr && x->addr != NULL, "same type, own memory");
    size_t k = (size_t)vf_hv();
    VF_ASSUME(k < (size_t)src->size && k < 16);
    VF_CHECK(((char *)x->addr)[k] == ((char *)src->addr)[k], "same content");
}
int vf_inv_copy(void *p) {
    ++g_vis;
    if (g_vis == 1) return p == g_first && g_d.list_size == 0;
    if (g_vis == 2) return p == NULL ? g_d.list_size == g_n : (p == g_a && g_d.list_size == g_j);
    /* after one step from node g_a */
    copied(&n_a, g_j > 0 ? &d_l : NULL, g_j + 1);
    VF_CHECK(memcmp(m_a, s_a, 16) == 0 && same_node(&n_a, &snap), "the source is unchanged");
    VF_REACH("step");
    return p == g_b && g_d.list_size == g_j + 1;
}
void *vf_hv_node(void) { return vf_hv() & 1 ? (void *)g_a : NULL; }
void vf_hv_dst(void) {
    /* any number of parameters was copied before */
    g_d.list_size = (metac_num_t)vf_hv();
    memset(&d_l, 0, sizeof(d_l));
    if (g_d.list_size > 0) { g_d.p_last_added_param = &d_l; g_d.list.lh_first = g_d.list_size == 1 ? &d_l : (N *)(g_mem + 8); d_l.links.le_prev = g_d.list_size == 1 ? &g_d.list.lh_first : (N **)(g_mem + 16); }
    else { g_d.p_last_added_param = NULL; g_d.list.lh_first = NULL; }
}
void harness(void) {
    init(); g_vis = 0;
    g_n = (int)vf_srange(0, 0x7ffffff0);
    memset(&n_f, 0, sizeof(N)); memset(&n_a, 0, sizeof(N)); memset(&n_b, 0, sizeof(N)); memset(&g_d, 0, sizeof(g_d)); memset(&g_s, 0, sizeof(g_s));
    vf_bytes(m_a, 16); memcpy(s_a, m_a, 16);
    n_a.addr = m_a; n_a.p_entry = &e_plain; n_a.size = (metac_num_t)vf_range(1, 16);
    n_f = n_a; n_b = n_a;
    if (g_n > 0) { g_j = (int)vf_srange(0, 0x7fffffff); VF_ASSUME(g_j < g_n); g_a = &n_a; g_first = g_j == 0 ? g_a : &n_f; g_b = g_j + 1 < g_n ? &n_b : NULL; n_a.links.le_next = g_b; }
    else { g_j = -1; g_a = g_first = g_b = NULL; }
    snap = n_a;
    g_s.list.lh_first = g_first; g_s.list_size = g_n;
    int r = metac_parameter_storage_copy(&g_s, &g_d);
    VF_CHECK(r == 0, "copied");
    VF_CHECK(g_d.list_size == g_n, "all of them");
    VF_REACH("end");
}
#elif MODE == 4
/* clean-up: at an arbitrary point of the list */
static int g_vis, g_more, g_dyn, g_kind; static N *g_x, *g_y; static void *g_addr, *g_ent;
static int was_freed(void *p) { int c = 0; for (int i = 0; i < 4; ++i) if (i < g_nfreed && g_freed[i] == p) ++c; return c; }
static metac_parameter_storage_t *g_inner;
int vf_inv_clean(void) {
    ++g_vis;
    if (g_vis < 3) return g_s.list.lh_first == NULL || g_s.list.lh_first == g_x;
    VF_CHECK(was_freed(g_x) == 1, "the parameter is released once");
    VF_CHECK(was_freed(g_addr) == 1, "with its memory");
    if (g_dyn) { VF_CHECK(was_freed(g_ent) == 1, "and its own description"); VF_REACH("dynamic"); }
    VF_CHECK(g_nfreed == 2 + g_dyn, "and nothing else");
    VF_REACH("step");
    return g_s.list.lh_first == g_y;
}
void vf_hv_clean(void) { if (vf_hv() & 1) { g_s.list.lh_first = NULL; } else g_s.list.lh_first = g_x; }
void harness(void) {
    init(); g_vis = 0;
    static N y; memset(&y, 0, sizeof(y));
    g_x = calloc(1, sizeof(N)); VF_ASSUME(g_x != NULL);
    g_kind = (int)vf_range(0, 1);
    if (g_kind == 0) { g_addr = calloc(1, 8); g_x->size = 8; }
    else { g_inner = calloc(1, sizeof(*g_inner)); g_addr = g_inner; g_x->size = 0; }
    VF_ASSUME(g_addr != NULL);
    g_x->addr = g_addr; g_x->p_entry = g_kind ? &e_unspec : &e_plain;
    g_dyn = vf_bool();
    if (g_dyn) { metac_entry_t *e = calloc(1, sizeof(*e)); VF_ASSUME(e != NULL); e->kind = METAC_KND_array_type; e->dynamically_allocated = 1; g_x->p_entry = e; g_ent = e; }
    g_y = vf_bool() ? &y : NULL; g_x->links.le_next = g_y; g_x->links.le_prev = &g_s.list.lh_first; y.links.le_prev = &g_x->links.le_next;
    g_s.list.lh_first = vf_bool() ? g_x : NULL; g_s.list_size = (metac_num_t)vf_range(0, 100); g_s.p_last_added_param = g_x;
#if KIND == 0
    VF_ASSUME(g_kind == 0);
#endif
    metac_parameter_storage_cleanup(&g_s);
    VF_CHECK(g_s.list.lh_first == NULL && g_s.list_size == 0 && g_s.p_last_added_param == NULL, "empty and usable again");
    VF_REACH("end");
}
#endif
#if MODE >= 5
#include <stdio.h>
#include "memw.h"
/* ---- a reference copy of what was recorded */
typedef struct node { metac_entry_t *e; size_t n; unsigned char data[64]; struct node *sub[12]; int nsub; int nested; } node_t;
static node_t g_n[512]; static int g_nn;
static node_t *nn(void) { node_t *p = &g_n[g_nn++]; VF_ASSUME(g_nn < 500); memset(p, 0, sizeof(*p)); return p; }
static metac_entry_t t_char = VF_BASE("char", METAC_ENC_signed_char, 1);
static metac_entry_t p_plain = VF_PARAM("p", &t_char), p_unspec, p_va, t_tag, t_valist, t_vtd, t_dynarr;
static void init_entries(void) {
    memset(&p_unspec, 0, sizeof(p_unspec));
    p_unspec.kind = METAC_KND_func_parameter; p_unspec.func_parameter_info.unspecified_parameters = 1;
    metac_entry_t tag = VF_STRUCT(METAC_KND_struct_type, "__va_list_tag", 24, 0, 0), ptr = VF_PTR(&t_tag), par = VF_PARAM("ap", &t_valist);
    t_tag = tag; t_valist = ptr; p_va = par;
    metac_entry_t da = {.dynamically_allocated = 1, .kind = METAC_KND_array_type, .array_type_info = {.type = &t_char, .count = 7}};
    t_dynarr = da;
}
static void verify(metac_parameter_storage_t *s, node_t *r) {
    VF_CHECK(metac_parameter_storage_size(s) == r->nsub, "number of parameters");
    metac_entry_t fe = {.kind = METAC_KND_subprogram, .name = "f"};
    metac_value_t *fv = metac_new_value(&fe, s);
    VF_CHECK(metac_value_parameter_count(fv) == r->nsub, "number of parameters of the value");
    for (int i = 0; i < r->nsub; ++i) {
        metac_value_t *v = (i & 1) ? metac_parameter_storage_new_param_value(s, i) : metac_value_parameter_new_item(fv, i);
        VF_CHECK(v != NULL, "every parameter is returned");
        metac_entry_t *ge = metac_value_entry(v), *we = r->sub[i]->e;
        if (we == &t_dynarr) VF_CHECK(ge != NULL && ge != we && ge->kind == we->kind && ge->array_type_info.count == we->array_type_info.count && ge->array_type_info.type == &t_char, "with a description of its own that equals the given one");
        else VF_CHECK(ge == we, "with its description");
        if (r->sub[i]->nested) verify((metac_parameter_storage_t *)metac_value_addr(v), r->sub[i]);
        else VF_CHECK(memcmp(metac_value_addr(v), r->sub[i]->data, r->sub[i]->n) == 0, "and its content");
        metac_value_delete(v);
    }
    VF_CHECK(metac_parameter_storage_new_param_value(s, r->nsub) == NULL && metac_parameter_storage_new_param_value(s, -1) == NULL && metac_parameter_storage_new_param_value(s, r->nsub + (metac_num_t)vf_range(0, 1000)) == NULL, "an index out of range yields nothing");
    metac_value_delete(fv);
}
#endif
#if MODE == 5
static void grow(metac_parameter_storage_t *s, node_t *r, int depth) {
    int n = (int)vf_range(0, depth ? 4 : 10);
    for (int i = 0; i < n; ++i) {
        node_t *c = nn();
        if (depth < 3 && vf_range(0, 4) == 0) {
            c->nested = 1; c->e = vf_bool() ? &p_unspec : &p_va;
            VF_CHECK(metac_parameter_storage_append_by_parameter_storage(s, c->e) == 0, "a nested list is appended");
            metac_value_t *v = metac_parameter_storage_new_param_value(s, r->nsub);
            VF_CHECK(v != NULL, "appended at the end");
            grow((metac_parameter_storage_t *)metac_value_addr(v), c, depth + 1);
            metac_value_delete(v);
        } else {
            c->e = vf_range(0, 3) == 0 ? &t_dynarr : vf_bool() ? &p_plain : &t_char; c->n = (size_t)vf_range(1, 40);
            VF_CHECK(metac_parameter_storage_append_by_buffer(s, c->e, (metac_num_t)c->n) == 0, "a parameter is appended");
            metac_value_t *v = metac_parameter_storage_new_param_value(s, r->nsub);
            VF_CHECK(v != NULL, "appended at the end");
            unsigned char *a = metac_value_addr(v);
            for (size_t k = 0; k < c->n; ++k) { VF_CHECK(a[k] == 0, "fresh storage is zeroed"); a[k] = c->data[k] = (unsigned char)vf_u64(); }
            metac_value_delete(v);
        }
        r->sub[r->nsub++] = c;
    }
    VF_CHECK(metac_parameter_storage_append_by_buffer(s, NULL, 4) != 0 && metac_parameter_storage_append_by_buffer(s, &p_plain, 0) != 0 && metac_parameter_storage_append_by_buffer(s, &p_plain, -1) != 0 && metac_parameter_storage_append_by_buffer(NULL, &p_plain, 1) != 0, "refused requests");
}
void harness(void) {
    g_nn = 0; init_entries(); mw_begin(0);
    metac_parameter_storage_t *a = metac_new_parameter_storage(), *b = metac_new_parameter_storage();
    node_t *ra = nn();
    VF_CHECK(metac_parameter_storage_size(NULL) == 0 && metac_value_parameter_count(NULL) == 0 && metac_value_parameter_new_item(NULL, 0) == NULL && metac_value_parameter_wrap(NULL, NULL, 1) == NULL, "nothing of nothing");
    verify(a, ra);
    grow(a, ra, 0);
    verify(a, ra);
    VF_CHECK(metac_parameter_storage_copy(a, b) == 0, "copied");
    verify(b, ra); verify(a, ra);
    /* independence: change every block of the original, then drop it */
    for (int i = 0; i < ra->nsub; ++i) if (!ra->sub[i]->nested) {
        metac_value_t *v = metac_parameter_storage_new_param_value(a, i);
        memset(metac_value_addr(v), 0x5a ^ ra->sub[i]->data[0], ra->sub[i]->n);
        metac_value_delete(v);
    }
    verify(b, ra);
    if (vf_bool()) {
        node_t *e = nn();
        metac_parameter_storage_cleanup(a); verify(a, e);
        VF_CHECK(metac_parameter_storage_append_by_buffer(a, &p_plain, 3) == 0 && metac_parameter_storage_size(a) == 1, "usable after clean-up");
    }
    metac_parameter_storage_delete(a);
    verify(b, ra);
    metac_parameter_storage_cleanup(NULL); metac_parameter_storage_delete(NULL);
    metac_parameter_storage_delete(b);
    VF_CHECK(mw_live == 0, "everything recorded is released");
    mw_end();
}
#elif MODE == 6
typedef struct { unsigned gp, fp; void *over, *save; } va_x86;
/* every argument lies in the overflow area of a hand-built list, as the x86-64 ABI lays it out when the registers are used up */
static unsigned char g_area[4][2048] __attribute__((aligned(16))); static int g_areas;
typedef struct { unsigned char *p; size_t n; } area_t;
static area_t area(void) { area_t a = {g_area[g_areas++], 0}; return a; }
static void put(area_t *a, const void *v, size_t n, size_t al) {
    a->n = (a->n + al - 1) / al * al;
    memset(a->p + a->n, 0xcc, (n + 7) / 8 * 8);
    memcpy(a->p + a->n, v, n);
    a->n += (n + 7) / 8 * 8;
}
#define BASES(X) X(char, int, "char", METAC_ENC_signed_char) X(unsigned char, int, "unsigned char", METAC_ENC_unsigned_char) X(short, int, "short int", METAC_ENC_signed) X(unsigned short, int, "unsigned short int", METAC_ENC_unsigned) \
    X(int, int, "int", METAC_ENC_signed) X(unsigned int, unsigned int, "unsigned int", METAC_ENC_unsigned) X(long, long, "long int", METAC_ENC_signed) X(unsigned long, unsigned long, "unsigned long int", METAC_ENC_unsigned) \
    X(long long, long long, "long long int", METAC_ENC_signed) X(unsigned long long, unsigned long long, "unsigned long long int", METAC_ENC_unsigned) X(_Bool, int, "_Bool", METAC_ENC_boolean) \
    X(float, double, "float", METAC_ENC_float) X(double, double, "double", METAC_ENC_float) X(long double, long double, "long double", METAC_ENC_float) \
    X(float complex, float complex, "complex float", METAC_ENC_complex_float) X(double complex, double complex, "complex double", METAC_ENC_complex_float) X(long double complex, long double complex, "long complex double", METAC_ENC_complex_float)
static metac_entry_t t_base[] = {
#define X(t, v, n, e) VF_BASE(n, e, sizeof(t)),
BASES(X)
#undef X
};
#define NB (sizeof(t_base) / sizeof(t_base[0]))
static void base_arg(int k, area_t *a, node_t *c) {
    int i = 0;
#define X(T, V, nm, e) if (i++ == k) { T v; memset(&v, 0, sizeof(v)); double d = (double)(int64_t)vf_srange(-1000000, 1000000) / 8; uint64_t u = vf_u64(); \
        v = e == METAC_ENC_float ? (T)d : e == METAC_ENC_complex_float ? (T)(d + 0.5 * (double)(int)(u & 0xff) * I) : (T)u; \
        V w; memset(&w, 0, sizeof(w)); w = (V)v; c->n = sizeof(T); T x; memset(&x, 0, sizeof(x)); x = v; memcpy(c->data, &x, sizeof(T)); put(a, &w, sizeof(V), _Alignof(V) > 8 ? 16 : 8); }
    BASES(X)
#undef X
}
static metac_entry_t t_ptr = VF_PTR(&t_char), t_enum[4], t_st[4], t_un, tds[16], quals[16], m0 = VF_MEMBER("x", &t_char, 0);
struct s3 { unsigned char a[3]; }; struct s8 { unsigned char a[8]; }; struct s24 { long a[3]; }; struct s40 { unsigned char a[40]; };
static metac_flag_t va3(struct va_list_container *c, void *b) { struct s3 v = va_arg(c->parameters, struct s3); memcpy(b, &v, 3); return 1; }
static metac_flag_t va8(struct va_list_container *c, void *b) { struct s8 v = va_arg(c->parameters, struct s8); memcpy(b, &v, 8); return 1; }
static metac_flag_t va24(struct va_list_container *c, void *b) { struct s24 v = va_arg(c->parameters, struct s24); memcpy(b, &v, 24); return 1; }
static metac_flag_t va40(struct va_list_container *c, void *b) { struct s40 v = va_arg(c->parameters, struct s40); memcpy(b, &v, 40); return 1; }
static int g_nested_calls, g_refuse, g_seen_id;
static int g_want_id[12];
/* handler for ... and va_list: takes ints until a negative one */
static int take_ints(metac_value_walker_hierarchy_t *h, metac_value_event_t *ev, void *ctx) {
    VF_CHECK(ev->type == METAC_RQVST_va_list && ev->p_return_value != NULL && ev->p_va_list_container != NULL && ctx == &g_nested_calls, "the handler gets the list and its context");
    VF_CHECK(ev->va_list_param_id == g_want_id[g_nested_calls], "and the position of the parameter");
    VF_CHECK(metac_value_walker_hierarchy_level(h) == 0, "on the call itself");
    ++g_nested_calls;
    metac_parameter_storage_t *s = metac_value_addr(ev->p_return_value);
    static metac_entry_t ti = VF_BASE("int", METAC_ENC_signed, 4);
    for (metac_num_t n = 0;; ++n) {
        int v = va_arg(ev->p_va_list_container->parameters, int);
        if (v < 0) break;
        if (metac_parameter_storage_append_by_buffer(s, &ti, 4) != 0) return -1;
        metac_value_t *x = metac_parameter_storage_new_param_value(s, n);
        if (x == NULL && mw_failed) return -1;
        VF_CHECK(x != NULL && metac_value_set_int(x, v) == 0, "nested parameter");
        metac_value_delete(x);
    }
    return g_refuse ? -(EFAULT) : 0;
}
static metac_entry_t *g_int_entry;
static void ints(area_t *a, node_t *c) {
    int n = (int)vf_range(0, 4), e = -1;
    for (int i = 0; i < n; ++i) { node_t *k = nn(); int v = (int)(vf_u64() & 0x7fffffff); k->n = 4; memcpy(k->data, &v, 4); c->sub[c->nsub++] = k; put(a, &v, 4, 8); }
    put(a, &e, 4, 8);
}
static void verify6(metac_parameter_storage_t *s, node_t *r) {
    VF_CHECK(metac_parameter_storage_size(s) == r->nsub, "one parameter per declared parameter");
    for (int i = 0; i < r->nsub; ++i) {
        metac_value_t *v = metac_parameter_storage_new_param_value(s, i);
        VF_CHECK(v != NULL, "every parameter is there");
        if (r->sub[i]->e) VF_CHECK(metac_value_entry(v) == r->sub[i]->e, "in order, with the declared type");
        if (r->sub[i]->nested) verify6((metac_parameter_storage_t *)metac_value_addr(v), r->sub[i]);
        else VF_CHECK(memcmp(metac_value_addr(v), r->sub[i]->data, r->sub[i]->n == 32 || r->sub[i]->n == 16 ? 10 : r->sub[i]->n) == 0, "with the value passed");
        metac_value_delete(v);
    }
}
static metac_entry_t *layers(metac_entry_t *t, int *nl) {
    if (*nl < 15 && vf_range(0, 2) == 0) { metac_entry_t q = VF_QUAL(METAC_KND_const_type, t); quals[*nl] = q; t = &quals[(*nl)++]; }
    if (*nl < 15 && vf_range(0, 2) == 0) { metac_entry_t q = VF_TYPEDEF("td_t", t); tds[*nl] = q; t = &tds[(*nl)++]; }
    return t;
}
void harness(void) {
    g_nn = 0; g_areas = 0; g_nested_calls = 0; init_entries();
    static const int es[4] = {1, 2, 4, 8};
    for (int i = 0; i < 4; ++i) { memset(&t_enum[i], 0, sizeof(t_enum[i])); t_enum[i].kind = METAC_KND_enumeration_type; t_enum[i].name = "e"; t_enum[i].enumeration_type_info.byte_size = es[i]; }
    static const int ss[4] = {3, 8, 24, 40};
    metac_flag_t (*fn[4])(struct va_list_container *, void *) = {va3, va8, va24, va40};
    for (int i = 0; i < 4; ++i) { metac_entry_t s = VF_STRUCT(METAC_KND_struct_type, "s", ss[i], 1, &m0); t_st[i] = s; t_st[i].structure_type_info.p_va_arg_fn = fn[i]; }
    int np = (int)vf_range(0, 8), nl = 0, bad = -1, tagged = (int)vf_range(0, 3) != 0, want_fail = 0, nva = 0;
    g_refuse = vf_range(0, 9) == 0;
    static metac_entry_t ps[10];
    area_t a = area();
    node_t *r = nn();
    static va_x86 inner[4]; int ni = 0;
    for (int i = 0; i < np; ++i) {
        node_t *c = nn();
        metac_entry_t *t = NULL;
        c->e = &ps[i];
        switch (vf_range(0, 6)) {
        case 0: { t = &t_ptr; void *v = (void *)vf_u64(); c->n = 8; memcpy(c->data, &v, 8); put(&a, &v, 8, 8); break; }
        case 1: { int k = (int)vf_range(0, 3); t = &t_enum[k]; int64_t v = (int64_t)vf_u64(); if (es[k] < 8) v = (int)v; c->n = es[k]; memcpy(c->data, &v, c->n); put(&a, &v, es[k] == 8 ? 8 : 4, 8); break; }
        case 2: { int k = (int)vf_range(0, 3); t = &t_st[k]; unsigned char v[40]; for (int j = 0; j < 40; ++j) v[j] = (unsigned char)vf_u64(); c->n = ss[k]; memcpy(c->data, v, c->n); put(&a, v, ss[k], 8); break; }
        case 3: if (ni < 3) {                    /* a va_list parameter */
            c->nested = 1;
            area_t b = area();
            node_t *d = tagged ? c : nn();       /* without a handler the list stays empty */
            ints(&b, d);
            va_x86 x = {48, 304, b.p, NULL}; inner[ni] = x;
            void *v = &inner[ni++]; put(&a, &v, 8, 8);
            g_want_id[nva++] = i;
            metac_entry_t p = VF_PARAM("ap", &t_valist); ps[i] = p;
            r->sub[r->nsub++] = c;
            continue; }
        default: { int k = (int)vf_range(0, NB - 1); t = &t_base[k]; base_arg(k, &a, c); }
        }
        if (vf_range(0, 60) == 0 && bad < 0) {   /* a structure the generator gave no extraction function, an unknown base type or no type */
            static metac_entry_t un = VF_STRUCT(METAC_KND_struct_type, "u", 8, 1, &m0), ub = VF_BASE("__int128", METAC_ENC_signed, 16);
            bad = i; t = vf_bool() ? &un : vf_bool() ? &ub : NULL;
        }
        metac_entry_t p = VF_PARAM("p", t ? layers(t, &nl) : NULL); ps[i] = p;
        r->sub[r->nsub++] = c;
    }
    if (vf_range(0, 3) == 0) {
        memset(&ps[np], 0, sizeof(ps[np])); ps[np].kind = METAC_KND_func_parameter; ps[np].func_parameter_info.unspecified_parameters = 1;
        node_t *c = nn(); c->nested = 1; c->e = &ps[np];
        g_want_id[nva++] = np;
        ints(&a, tagged ? c : nn());
        r->sub[r->nsub++] = c; ++np;
    }
    int sub = vf_bool();
    metac_entry_t f = VF_FUNC(METAC_KND_subprogram, "f", NULL, np, ps);
    if (sub) { memset(&f, 0, sizeof(f)); f.kind = METAC_KND_subroutine_type; f.subroutine_type_info.parameters_count = np; f.subroutine_type_info.parameters = ps; }
    mw_begin(0);
    metac_entry_tag_t dt = {.p_context = &g_nested_calls, .handler = take_ints};
    metac_tag_map_t *map = nva || vf_bool() ? metac_new_tag_map(tagged ? &dt : NULL) : NULL;
    long before = mw_live;
    metac_value_t *fv = metac_new_value_with_call_params(&f);
    VF_CHECK(fv != NULL, "value with a parameter list");
    metac_parameter_storage_t *s = metac_value_addr(fv);
    va_x86 l = {48, 304, a.p, NULL};
    va_list ap;
    memcpy(ap, &l, sizeof(l));
#ifdef FAILS
    mw_fail_at = (long)vf_range(1, vf_bool() ? 6 : 40); mw_count = 0;
#endif
    metac_value_t *w = metac_value_parameter_vwrap(fv, map, ap);
    mw_fail_at = 0;
    if (mw_failed && w == NULL) {        /* reported; otherwise the capture has to be complete */
        metac_parameter_storage_delete(s);
    } else if (bad >= 0 || (g_refuse && tagged && nva)) {
        VF_CHECK(w == NULL, "a parameter that can not be extracted fails the capture");
        metac_parameter_storage_delete(s);
    } else {
        VF_CHECK(w == fv, "the call is captured");
        VF_CHECK(!tagged || g_nested_calls == nva, "every variable part is handled once");
        VF_CHECK(metac_value_parameter_count(w) == np, "count");
        memset(g_area, 0, sizeof(g_area));       /* the caller's arguments are gone */
        verify6(s, r);
        metac_parameter_storage_t *b = metac_new_parameter_storage();
        VF_CHECK(metac_parameter_storage_copy(s, b) == 0, "copied");
        metac_value_with_call_params_delete(w);
        verify6(b, r);
        metac_parameter_storage_delete(b);
    }
    VF_CHECK(mw_live == before, "everything recorded is released");
    metac_tag_map_delete(map);
    VF_CHECK(metac_value_parameter_vwrap(NULL, NULL, ap) == NULL, "no value");
    VF_CHECK(mw_live == 0, "all memory is released");
    mw_end();
}
#endif
#if MODE == 7
/* result of a call: memory for exactly the declared result type, nothing for void or anything that is no function */
char *metac_entry_cdecl(metac_entry_t *e) { return NULL; }
void harness(void) {
    metac_size_t sz = vf_range(0, 16);
    metac_entry_t b = VF_BASE("t", METAC_ENC_signed, sz), td = VF_TYPEDEF("td", &b);
    metac_entry_t *res = vf_bool() ? (vf_bool() ? &b : &td) : NULL;
    metac_entry_t f = VF_FUNC(vf_bool() ? METAC_KND_subprogram : METAC_KND_subroutine_type, "f", res, 0, 0), tf = VF_TYPEDEF("fn_t", &f);
    metac_entry_t un = {.kind = METAC_KND_func_parameter, .func_parameter_info = {.unspecified_parameters = 1}};
    uint64_t w = vf_range(0, 4);
    metac_entry_t *e = w == 0 ? &f : w == 1 ? &tf : w == 2 ? &b : w == 3 ? &un : NULL;
    metac_value_t *v = metac_new_value_with_call_result(e);
    if (w <= 1 && res != NULL && sz > 0) {
        VF_CHECK(v != NULL && metac_value_entry(v) == res, "a value of the result type");
        size_t k = vf_range(0, 15);
        VF_ASSUME(k < sz && v != NULL);
        VF_CHECK(((char *)metac_value_addr(v))[k] == 0, "with zeroed memory of its size");
        ((char *)metac_value_addr(v))[k] = 1;
        VF_REACH("result");
    } else { VF_CHECK(v == NULL, "no result"); VF_REACH("none"); }
    metac_value_with_call_result_delete(v);
}
#endif
#if MODE == 8
/* a parameter is a va_list exactly when its type is va_list or what the compiler makes of it (struct __va_list_tag *) */
void harness(void) {
    static char *nm[5] = {"va_list", "__va_list_tag", "va_lis", "va_list_", NULL};
    char *n1 = NULL, *n2 = NULL; uint64_t a = vf_range(0, 4), b = vf_range(0, 4);
    n1 = a == 0 ? "va_list" : a == 1 ? "__va_list_tag" : a == 2 ? "va_lis" : a == 3 ? "va_list_" : NULL;
    n2 = b == 0 ? "va_list" : b == 1 ? "__va_list_tag" : b == 2 ? "__va_list_ta" : b == 3 ? "__va_list_tag_" : NULL;
    metac_entry_t base = VF_BASE("int", METAC_ENC_signed, 4);
    base.name = n2 ? n2 : "int";
    metac_entry_t st = VF_STRUCT(METAC_KND_struct_type, n2, 24, 0, 0), un = VF_STRUCT(METAC_KND_union_type, n2, 24, 0, 0);
    metac_entry_t *in = INNER == 0 ? &st : INNER == 1 ? &un : INNER == 2 ? &base : NULL;
    metac_entry_t ptr = VF_PTR(in), td = VF_TYPEDEF(n1 ? n1 : "t", in ? in : &base), arr = VF_ARR(in ? in : &base, 1), pp = VF_PTR(&ptr), cq = {.kind = METAC_KND_const_type, VF_T0(&ptr) .qual_type_info = {.type = &ptr}};
    metac_entry_t *t = OUTER == 0 ? &ptr : OUTER == 1 ? &td : OUTER == 2 ? &arr : OUTER == 3 ? &pp : OUTER == 4 ? &cq : in;
    metac_entry_t par = VF_PARAM("p", t), var = VF_VAR("p", t), uns = {.kind = METAC_KND_func_parameter, .func_parameter_info = {.unspecified_parameters = 1}};
    int want = (t == &ptr && in == &st && n2 && strcmp(n2, "__va_list_tag") == 0) || (t == &td && n1 && strcmp(n1, "va_list") == 0) || (t == &base && n2 && strcmp(n2, "va_list") == 0);
    VF_CHECK((metac_entry_is_va_list_parameter(&par) != 0) == want, "recognised exactly by its type");
    VF_CHECK((metac_entry_has_parameter_load(&par) != 0) == want, "and then it carries parameters of its own");
    VF_CHECK(metac_entry_is_va_list_parameter(&var) == 0 && metac_entry_is_va_list_parameter(NULL) == 0 && metac_entry_is_va_list_parameter(&uns) == 0, "nothing else is");
    VF_CHECK(metac_entry_is_unspecified_parameter(&uns) != 0 && metac_entry_is_unspecified_parameter(&par) == 0 && metac_entry_is_unspecified_parameter(NULL) == 0 && metac_entry_has_parameter_load(&uns) != 0, "...");
    VF_REACH("any");
}
#endif
