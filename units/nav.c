/* C05: members, elements and parameters resolve to the right place.
 * MODE 1 member by number (any count)        2 member by name (NM members)      3 member paths (ids)
 *      4 member values (addresses)           5 elements (any count, index)      6 element-count conversion of arrays and pointers
 *      7 parameter by number (any count)     8 parameter by name (NM)           9 parents, entry copies, names, kinds
 *     10 member offsets (raw location)      11 function results and parameter predicates */
#include "ent.h"
#ifndef NM
#define NM 3
#endif
static const char *const pool[] = {"", "a", "ab", "b", "abc"};
static const char *pick_name(int null_ok) {
#if MODE == 3
    return vf_bool() ? pool[1] : pool[2];
#endif
    uint64_t i = vf_range(0, 5);
    if (i == 5) { if (null_ok) return NULL; i = 4; }
    return i == 0 ? pool[0] : i == 1 ? pool[1] : i == 2 ? pool[2] : i == 3 ? pool[3] : pool[4];
}
static int same(const char *a, const char *b) {     /* reference string equality on the pool */
    if (a == NULL || b == NULL) return 0;
    for (int i = 0; i < 4; ++i) { if (a[i] != b[i]) return 0; if (!a[i]) return 1; }
    return 0;
}
static metac_kind_t pick_struct_kind(void) { uint64_t k = vf_range(0, 2); return k == 0 ? METAC_KND_struct_type : k == 1 ? METAC_KND_union_type : METAC_KND_class_type; }

metac_entry_t e_int = VF_BASE("int", METAC_ENC_signed, 4);
#if NM == 0
#define NMS 1
#else
#define NMS NM
#endif
metac_entry_t g_ms[NMS];
uint8_t g_mem[64], g_old[64];

/* the entry itself, or behind typedef / qualifier / variable */
#define WRAP(e) \
    metac_entry_t w_td = VF_TYPEDEF("td", e); metac_entry_t w_q = VF_QUAL(METAC_KND_const_type, &w_td); metac_entry_t w_var = VF_VAR("v", &w_td); \
    metac_entry_t w_mem = VF_MEMBER("w", e, 8); metac_entry_t w_par = VF_PARAM("wp", &w_q); \
    uint64_t w_s = vf_range(0, 5); \
    metac_entry_t *top = w_s == 0 ? (e) : w_s == 1 ? &w_td : w_s == 2 ? &w_q : w_s == 3 ? &w_var : w_s == 4 ? &w_mem : &w_par

/* types that have none of members, elements, parameters of the kind asked for */
#define OTHERS \
    metac_entry_t o_base = VF_BASE("int", METAC_ENC_signed, 4); metac_entry_t o_ptr = VF_PTR(&o_base); \
    metac_entry_t o_en = {.kind = METAC_KND_enumeration_type, .enumeration_type_info = {.byte_size = 4}}

#if MODE == 1
metac_entry_t *g_want;
metac_entry_t *metac_entry_by_member_id(metac_entry_t *p_entry, metac_num_t member_id) VF_ENSURES(VF_RET == g_want) VF_ASSIGNS();
#elif MODE == 7
metac_entry_t *g_want;
metac_entry_t *metac_entry_by_paremeter_id(metac_entry_t *p_entry, metac_num_t param_id) VF_ENSURES(VF_RET == g_want) VF_ASSIGNS();
#elif MODE == 5
void *g_wanta;
metac_value_t *metac_new_value_by_element_id(metac_value_t *p_val, metac_num_t element_id) VF_ENSURES((VF_RET == NULL) == (g_wanta == NULL)) VF_ASSIGNS();
#endif

#ifdef CUT
/* Unbounded search: the loop is cut at index g_i (arbitrary).  Only the cell at that index is materialised: the array
 * starts g_i cells before it.  g_m is the number of the first match (g_cnt when there is none); what is known of cell
 * g_i is exactly what that says. */
metac_entry_t g_cell; int g_i, g_m, g_cnt;
int vf_hv_idx(void) { return g_i; }
int vf_inv_idx(int i) { return i >= 0 && i <= g_m; }
static metac_entry_t *lazy(const char *q, int param) {
    g_cnt = (int)vf_range(0, 0x7fffffff); g_m = (int)vf_range(0, 0x7fffffff); g_i = (int)vf_range(0, 0x7fffffff);
    VF_ASSUME(g_m <= g_cnt);
    const char *n = pick_name(1);
    if (g_i < g_m) VF_ASSUME(!same(n, q));
    if (g_i == g_m && g_m < g_cnt) VF_ASSUME(same(n, q));
    metac_entry_t m = VF_MEMBER((metac_name_t)n, &e_int, 0), p = VF_PARAM((metac_name_t)n, &e_int);
    if (param) g_cell = p; else g_cell = m;
    return (metac_entry_t *)((char *)&g_cell - (uint64_t)g_i * sizeof(g_cell));
}
#endif

void harness(void) {
#ifdef CUT
    const char *q = pick_name(0);
    metac_entry_t *arr = lazy(q, MODE == 8);
    metac_entry_t st = VF_STRUCT(pick_struct_kind(), "s", 64, g_cnt, arr);
#ifdef SUBR
    metac_entry_t fn = VF_FUNC(METAC_KND_subroutine_type, "f", &e_int, g_cnt, arr);
#else
    metac_entry_t fn = VF_FUNC(METAC_KND_subprogram, "f", &e_int, g_cnt, arr);
#endif
    metac_entry_t *f = MODE == 8 ? &fn : &st;
    WRAP(f);
    metac_num_t r = MODE == 8 ? metac_entry_paremeter_name_to_id(top, (metac_name_t)q) : metac_entry_member_name_to_id(top, (metac_name_t)q);
    VF_CHECK(r == (g_m < g_cnt ? g_m : -(ENOENT)), "a name yields the number of the first entry with exactly that name, an error when there is none");
    if (r >= 0) { VF_REACH("found"); } else { VF_REACH("absent"); }
#elif MODE == 1
    metac_num_t cnt = (metac_num_t)vf_srange(0, 0x7fffffff), id = (metac_num_t)vf_u64();
    int oth = (int)vf_range(0, 3);
    OTHERS;
    metac_entry_t st = VF_STRUCT(pick_struct_kind(), "s", 64, cnt, g_ms);
    metac_entry_t ar = VF_ARR(&st, 4);
    metac_entry_t *f = oth == 0 ? &st : oth == 1 ? &o_ptr : oth == 2 ? &o_en : &ar;
    WRAP(f);
    g_want = oth == 0 && id >= 0 && id < cnt ? (metac_entry_t *)((char *)g_ms + (size_t)id * sizeof(metac_entry_t)) : NULL;
    metac_entry_t *r = metac_entry_by_member_id(top, id);
    VF_CHECK(r == g_want, "a member is found at exactly its number, nothing outside the declared range");
    VF_CHECK(metac_entry_member_count(top) == (oth == 0 ? cnt : -(EINVAL)), "member count");
    VF_CHECK((metac_entry_has_members(top) != 0) == (oth == 0), "structures, unions and classes have members");
    VF_CHECK(metac_entry_has_members(NULL) == 0 && metac_entry_member_count(NULL) < 0, "no type, no members");
    if (r) { VF_REACH("found"); } else { VF_REACH("refused"); }
#elif MODE == 2
    for (int i = 0; i < NM; ++i) { metac_entry_t m = VF_MEMBER((metac_name_t)pick_name(1), &e_int, i * 4); g_ms[i] = m; }
    int oth = vf_bool();
    metac_entry_t st = VF_STRUCT(pick_struct_kind(), "s", 64, NM, g_ms);
    metac_entry_t pt = VF_PTR(&st);
    metac_entry_t *f = oth ? &pt : &st;
    WRAP(f);
    const char *q = pick_name(0);
    metac_num_t want = -(ENOENT);
    for (int i = NM - 1; i >= 0; --i) if (same(g_ms[i].name, q)) want = i;
    metac_num_t r = metac_entry_member_name_to_id(top, (metac_name_t)q);
    VF_CHECK(oth ? r < 0 : r == want, "a name yields the number of the first member with exactly that name, an error when there is none");
    VF_CHECK(metac_entry_member_name_to_id(NULL, "a") < 0, "no type, no member");
    VF_REACH("end");
#elif MODE == 3
    static metac_entry_t in_ms[2];
    static metac_entry_t inner, itd;
    metac_entry_t i0 = VF_MEMBER((metac_name_t)pick_name(1), &e_int, 0), i1 = VF_MEMBER((metac_name_t)pick_name(1), &e_int, 4);
    in_ms[0] = i0; in_ms[1] = i1;
    metac_entry_t in_ = VF_STRUCT(pick_struct_kind(), "in", 8, 2, in_ms); inner = in_;
    metac_entry_t itd_ = VF_TYPEDEF("in_t", &inner); itd = itd_;
    metac_entry_t m0 = VF_MEMBER((metac_name_t)pick_name(1), &itd, 0), m1 = VF_MEMBER((metac_name_t)pick_name(1), &e_int, 8);
    static metac_entry_t ms[2];
    ms[0] = m0; ms[1] = m1;
    metac_entry_t st = VF_STRUCT(METAC_KND_struct_type, "s", 12, 2, ms);
    metac_entry_t td = VF_TYPEDEF("s_t", &st);
#ifdef PN
    metac_num_t n = PN;
#else
    metac_num_t n = (metac_num_t)vf_range(0, 3);
#endif
    metac_entry_id_t ids[3];
    int byname[3];
    for (int i = 0; i < 3; ++i) { byname[i] = vf_bool(); metac_entry_id_t x = {.n = byname[i] ? (metac_name_t)pick_name(0) : NULL, .i = (metac_num_t)vf_srange(-2, 3)}; ids[i] = x; }
#ifdef PFIN
    int fin = PFIN;
#else
    int fin = vf_bool();
#endif
    /* reference walk */
    metac_entry_t *cur = &td;
    for (int i = 0; i < 3 && cur; ++i) if (i < n) {
        metac_entry_t *set = cur == &td ? ms : cur == &ms[0] ? in_ms : NULL, *nx = NULL;
        if (set) for (int k = 1; k >= 0; --k) if (byname[i] ? same(set[k].name, ids[i].n) : ids[i].i == k) nx = &set[k];
        cur = nx;
    }
    if (fin) cur = cur == &td ? &st : cur == &ms[0] ? &inner : cur ? &e_int : NULL;
    VF_CHECK(metac_entry_by_member_ids(&td, fin, ids, n) == cur, "a member path selects by name or number at every level, nothing when any step fails");
    VF_REACH("end");
#elif MODE == 4
    uint64_t off[NMS];
    for (int i = 0; i < NM; ++i) { off[i] = vf_range(0, 0xffffff); metac_entry_t m = VF_MEMBER("m", &e_int, off[i]); g_ms[i] = m; }
    int oth = vf_bool();
    metac_num_t id = (metac_num_t)vf_u64();
    metac_entry_t st = VF_STRUCT(pick_struct_kind(), "s", 64, NM, g_ms);
    metac_entry_t pt = VF_PTR(&st);
    metac_entry_t *f = oth ? &pt : &st;
    WRAP(f);
    metac_value_t *v = metac_new_value(top, g_mem);
    VF_ASSUME(v != NULL);
    VF_CHECK((metac_value_has_members(v) != 0) == !oth && metac_value_member_count(v) == (oth ? -(EINVAL) : NM), "member count of a value");
    metac_value_t *m = metac_new_value_by_member_id(v, id);
    int ok = !oth && id >= 0 && id < NM;
    VF_CHECK((m != NULL) == ok, "a member value exists exactly for a declared number");
    if (m) {
        uint64_t o = 0;
        for (int i = 0; i < NM; ++i) if (id == i) o = off[i];
        VF_CHECK((uintptr_t)metac_value_addr(m) == (uintptr_t)g_mem + o, "the member lies at the declared offset");
        VF_CHECK(metac_value_entry(m) == &g_ms[id], "the member value is described by that member");
        metac_value_delete(m);
#if NM
        VF_REACH("member");
#endif
    }
    VF_CHECK(metac_new_value_by_member_id(NULL, 0) == NULL && metac_value_has_members(NULL) == 0, "no value, no member");
    metac_value_delete(v);
    VF_REACH("end");
#elif MODE == 5
    metac_num_t cnt = (metac_num_t)vf_srange(-1, 0x7fffffff), id = (metac_num_t)vf_u64();
#ifdef ESZ
    const uint64_t esz = ESZ;
#else
    uint64_t esz = vf_u64() & 0xff;
    VF_ASSUME(id < 64);
#endif
    int oth = vf_bool(), sized = vf_bool();
    metac_entry_t el = VF_BASE("x", METAC_ENC_signed, esz);
    metac_entry_t fn = VF_FUNC(METAC_KND_subroutine_type, NULL, NULL, 0, NULL);
    metac_entry_t etd = VF_TYPEDEF("el_t", &el);
    metac_entry_t ar = VF_ARR(sized ? &etd : &fn, cnt);
    metac_entry_t pt = VF_PTR(&etd);
    metac_entry_t *f = oth ? &pt : &ar;
    WRAP(f);
    VF_CHECK((metac_entry_has_elements(top) != 0) == !oth && metac_entry_element_count(top) == (oth ? -(EINVAL) : cnt), "only arrays have elements, as many as declared");
    VF_CHECK(metac_entry_element_entry(top) == (oth ? NULL : sized ? &etd : &fn), "element type");
    metac_value_t *v = metac_new_value(top, g_mem);
    VF_ASSUME(v != NULL);
    VF_CHECK((metac_value_has_elements(v) != 0) == !oth && metac_value_element_count(v) == (oth ? -(EINVAL) : cnt), "element count of a value");
    int ok = !oth && sized && id >= 0 && id < cnt;
    g_wanta = ok ? g_mem : NULL;
    metac_value_t *m = metac_new_value_by_element_id(v, id);
    VF_CHECK((m != NULL) == ok, "an element exists exactly for an index within the array");
    if (m) {
        VF_CHECK((uintptr_t)metac_value_addr(m) == (uintptr_t)g_mem + (uint64_t)id * esz, "the element lies at index times element size");
        VF_CHECK(metac_value_entry(m) == &etd, "the element value is described by the element type");
        metac_value_delete(m);
        VF_REACH("element");
    } else { VF_REACH("refused"); }
    metac_value_delete(v);
#elif MODE == 6
    metac_num_t cnt = (metac_num_t)vf_srange(-1, 0x7fffffff), ncnt = (metac_num_t)vf_u64();
    uint64_t kind = vf_range(0, 3);
    void *target = kind == 1 && vf_bool() ? NULL : g_mem + 32;
    metac_entry_t ar = VF_ARR(&e_int, cnt), pt = VF_PTR(&e_int), vp = VF_PTR(NULL);
    metac_entry_t *f = kind == 0 ? &ar : kind == 1 ? &pt : kind == 2 ? &vp : &e_int;
    WRAP(f);
    void *slot = target;
    metac_value_t *v = metac_new_value(top, kind == 1 || kind == 2 ? (void *)&slot : (void *)g_mem);
    VF_ASSUME(v != NULL);
    metac_entry_t *ne = metac_new_element_count_entry(top, ncnt);
    VF_CHECK((ne != NULL) == (kind <= 1), "arrays and typed pointers convert to a counted array");
    if (ne) {
        VF_CHECK(metac_entry_element_count(ne) == ncnt && metac_entry_element_entry(ne) == &e_int && metac_entry_is_dynamic(ne), "with the requested length and the same element type");
        metac_entry_delete(ne);
    }
    metac_value_t *nv = metac_new_element_count_value(v, ncnt);
    VF_CHECK((nv != NULL) == (kind == 0 || (kind == 1 && target)), "a value converts unless it is a NULL or untyped pointer or no sequence at all");
    if (nv) {
        VF_CHECK(metac_value_element_count(nv) == ncnt, "with the requested length");
        VF_CHECK(metac_value_addr(nv) == (kind == 0 ? (void *)g_mem : target), "at the array, or where the pointer points");
        VF_CHECK(metac_entry_element_entry(metac_value_entry(nv)) == &e_int, "with the same element type");
        metac_value_delete(nv);
        VF_REACH("converted");
    } else { VF_REACH("refused"); }
    VF_CHECK(ar.array_type_info.count == cnt, "the original description keeps its length");
    metac_value_delete(v);
#elif MODE == 7
    metac_num_t cnt = (metac_num_t)vf_srange(0, 0x7fffffff), id = (metac_num_t)vf_u64();
    int oth = vf_bool();
    metac_entry_t fn = VF_FUNC(vf_bool() ? METAC_KND_subprogram : METAC_KND_subroutine_type, "f", &e_int, cnt, g_ms);
    metac_entry_t pt = VF_PTR(&fn);
    metac_entry_t *f = oth ? &pt : &fn;
    WRAP(f);
    g_want = !oth && id >= 0 && id < cnt ? (metac_entry_t *)((char *)g_ms + (size_t)id * sizeof(metac_entry_t)) : NULL;
    metac_entry_t *r = metac_entry_by_paremeter_id(top, id);
    VF_CHECK(r == g_want, "a parameter is found at exactly its number, nothing outside the declared range");
    VF_CHECK(metac_entry_parameters_count(top) == (oth ? -(EINVAL) : cnt) && (metac_entry_has_parameters(top) != 0) == !oth, "parameter count");
    VF_CHECK(metac_entry_parameters_count(NULL) < 0 && metac_entry_has_parameters(NULL) == 0, "no type, no parameters");
    if (r) { VF_REACH("found"); } else { VF_REACH("refused"); }
#elif MODE == 8
    for (int i = 0; i < NM; ++i) { metac_entry_t m = VF_PARAM((metac_name_t)pick_name(1), &e_int); g_ms[i] = m; }
    int oth = vf_bool();
    metac_entry_t fn = VF_FUNC(vf_bool() ? METAC_KND_subprogram : METAC_KND_subroutine_type, "f", &e_int, NM, g_ms);
    metac_entry_t pt = VF_PTR(&fn);
    metac_entry_t *f = oth ? &pt : &fn;
    WRAP(f);
    const char *q = pick_name(0);
    metac_num_t want = -(ENOENT);
    for (int i = NM - 1; i >= 0; --i) if (same(g_ms[i].name, q)) want = i;
    metac_num_t r = metac_entry_paremeter_name_to_id(top, (metac_name_t)q);
    VF_CHECK(oth ? r < 0 : r == want, "a name yields the number of the first parameter with exactly that name, an error when there is none");
    metac_entry_id_t id = {.n = vf_bool() ? (metac_name_t)q : NULL, .i = (metac_num_t)vf_srange(-2, NM + 1)};
    int fin = vf_bool();
    metac_num_t w2 = id.n ? want : id.i;
    metac_entry_t *we = oth || w2 < 0 || w2 >= NM ? NULL : fin ? &e_int : &g_ms[w2];
    VF_CHECK(metac_entry_by_parameter_ids(top, fin, &id) == we, "selection by name or number");
    VF_REACH("end");
#elif MODE == 9
    metac_entry_t *parents[2] = {&g_ms[0], &g_ms[1]};
    metac_num_t pc = (metac_num_t)vf_range(0, 2), id = (metac_num_t)vf_u64();
    metac_entry_t e = VF_BASE((metac_name_t)pick_name(1), METAC_ENC_signed, 4);
    e.parents_count = pc; e.parents = parents;
    VF_CHECK(metac_entry_parent_count(&e) == pc && metac_entry_parent_count(NULL) == 0, "parent count");
    metac_entry_t *w = id == 0 && pc > 0 ? &g_ms[0] : id == 1 && pc > 1 ? &g_ms[1] : NULL;
    VF_CHECK(metac_entry_parent_entry(&e, id) == w && metac_entry_parent_entry(NULL, 0) == NULL, "parent at exactly its number");
    VF_CHECK(metac_entry_kind(&e) == METAC_KND_base_type && metac_entry_name(&e) == e.name && metac_entry_kind(NULL) == METAC_KND_invalid && metac_entry_name(NULL) == NULL, "kind and name");
    int dyn = vf_bool();
    e.dynamically_allocated = 0;
    metac_entry_t *c = metac_new_entry(&e);
    VF_ASSUME(c != NULL);
    VF_CHECK(metac_entry_is_dynamic(c) && !metac_entry_is_dynamic(&e) && c != &e, "a new entry is an allocated copy");
    VF_CHECK(c->kind == e.kind && c->name == e.name && c->parents_count == pc && c->base_type_info.byte_size == 4, "with the same content");
    VF_CHECK(metac_new_entry(NULL) == NULL, "nothing to copy");
    metac_entry_t td = VF_TYPEDEF("t", &e);
    metac_entry_t q = VF_QUAL(METAC_KND_const_type, &td);
    metac_value_t *v = metac_new_value(dyn ? c : &q, g_mem);
    VF_ASSUME(v != NULL);
    VF_CHECK(dyn ? metac_value_entry(v) != c : metac_value_entry(v) == &q, "a value owns a copy of an allocated description and refers to a static one");
    metac_entry_delete(c);
    metac_entry_delete(&e); metac_entry_delete(NULL);          /* static descriptions are not freed */
    VF_CHECK(metac_value_addr(v) == g_mem && metac_value_kind(v) == (dyn ? METAC_KND_base_type : METAC_KND_const_type), "address and kind of a value");
    metac_quals_t qs = {.flags = 0};
    VF_CHECK(metac_value_final_kind(v, &qs) == METAC_KND_base_type && (qs.flag_const != 0) == !dyn, "final kind of a value");
    VF_CHECK(metac_value_name(v) == (dyn ? e.name : NULL), "name of a value");
    metac_value_t *v2 = metac_new_value_from_value(v);
    VF_ASSUME(v2 != NULL);
    VF_CHECK(v2 != v && metac_value_addr(v2) == g_mem && metac_value_kind(v2) == metac_value_kind(v), "a copied value refers to the same object");
    metac_value_delete(v);
    VF_CHECK(metac_value_final_kind(v2, NULL) == METAC_KND_base_type, "and survives the original");
    metac_value_delete(v2);
    VF_CHECK(metac_new_value(&e, NULL) == NULL && metac_value_entry(NULL) == NULL && metac_value_addr(NULL) == NULL && metac_value_name(NULL) == NULL && metac_value_kind(NULL) == METAC_KND_invalid, "nothing in, nothing out");
    VF_REACH("end");
#elif MODE == 10
    metac_size_t bs = vf_u64(), bits = vf_u64(); metac_offset_t dbo = vf_u64(), bo = vf_u64(), off = vf_u64();
    int h0 = vf_bool(), h1 = vf_bool(), h2 = vf_bool(), h3 = vf_bool(), ism = vf_bool();
    metac_entry_t m = {.kind = METAC_KND_member, .name = "m", VF_T0(&e_int) .member_info = {.type = &e_int, .byte_offset = off, .p_byte_size = h0 ? &bs : NULL,
        .p_data_bit_offset = h1 ? &dbo : NULL, .p_bit_offset = h2 ? &bo : NULL, .p_bit_size = h3 ? &bits : NULL}};
    metac_entry_t td = VF_TYPEDEF("t", &e_int);
    struct metac_member_raw_location_info li, li0;
    memset(&li, 0x5a, sizeof(li)); li0 = li;
    int r = metac_entry_member_raw_location_info(ism ? &m : &td, &li);
    VF_CHECK((r == 0) == ism, "location only of members");
    if (ism) VF_CHECK(li.byte_offset == off && li.p_byte_size == (h0 ? &bs : NULL) && li.p_data_bit_offset == (h1 ? &dbo : NULL) && li.p_bit_offset == (h2 ? &bo : NULL) && li.p_bit_size == (h3 ? &bits : NULL), "exactly the declared location");
    else VF_CHECK(li.byte_offset == li0.byte_offset && li.p_bit_size == li0.p_bit_size, "untouched on error");
    VF_CHECK(metac_entry_member_raw_location_info(NULL, &li) != 0, "no entry");
    VF_CHECK((metac_entry_is_member(ism ? &m : &td) != 0) == ism && metac_entry_member_entry(ism ? &m : &td) == (ism ? &e_int : NULL), "member test and type");
    VF_CHECK(metac_entry_is_member(NULL) == 0 && metac_entry_member_entry(NULL) == NULL, "no member");
    VF_REACH("end");
#elif MODE == 11
    int hasr = vf_bool(), oth = vf_bool(), un = vf_bool();
    metac_entry_t p0 = {.kind = METAC_KND_func_parameter, .name = un ? NULL : "p", .func_parameter_info = {.unspecified_parameters = un, .type = un ? NULL : &e_int}};
    g_ms[0] = p0;
    metac_entry_t fn = VF_FUNC(vf_bool() ? METAC_KND_subprogram : METAC_KND_subroutine_type, "f", hasr ? &e_int : NULL, 1, g_ms);
    metac_entry_t *f = oth ? &e_int : &fn;
    WRAP(f);
    VF_CHECK((metac_entry_has_result(top) != 0) == (!oth && hasr) && metac_entry_result_type(top) == (!oth && hasr ? &e_int : NULL), "result type");
    VF_CHECK(metac_entry_has_result(NULL) == 0 && metac_entry_result_type(NULL) == NULL, "no function");
    metac_entry_t *pp = metac_entry_by_paremeter_id(&fn, 0);
    VF_CHECK(pp == &g_ms[0] && metac_entry_is_parameter(pp) && !metac_entry_is_parameter(&fn) && !metac_entry_is_parameter(NULL), "parameters are recognised");
    VF_CHECK((metac_entry_is_unspecified_parameter(pp) != 0) == un && !metac_entry_is_unspecified_parameter(&fn) && !metac_entry_is_unspecified_parameter(NULL), "unspecified parameters are recognised");
    VF_CHECK(metac_entry_parameter_entry(pp) == (un ? NULL : &e_int) && metac_entry_parameter_entry(&fn) == NULL && metac_entry_parameter_entry(NULL) == NULL, "parameter type");
    VF_REACH("end");
#endif
}
