/* C15: the life of one task of the walk that renders a value (value_string.c), for any task: what it delivers is the text assembled from the
 * texts of its parts.  Value layer, iterator, tags and handlers by the contracts C01, C03, C04, C05, C12, C19, C07, C13, C14 check; vsnprintf by
 * ISO C for the conversions used (%s, %%).  Texts of parts: representatives (what dsprintf makes of any texts is MODE 3); the code looks at whether a text is empty and at its first character only.
 * MODE 1: K 0 base, 1 enum, 2 pointer, 3 struct, 4 union, 5 array, 6 call, 7 variable parameters, 8 call by pointer, 9 something else
 * N parts, TAG 0 no tag map 1 no tag 2 no handler 3 handler, DEEP, FLEX, EMPTY mask of parts without text, ANON mask of parts without name, QUOTE mask of parts that are
 * string literals, SELF 0 not a member 1 member 2 member without name, VALIST, FNEW/FAILAT/RF which part fails, NOMEM which string does not fit in memory,
 * HF handler: 0 answers 1 nothing 2 fails 3 something elsewhere, PTR 0 NULL 1 plain 2 void 3 loop 4 no array;   MODE 2: strings of char (LEN)  MODE 3: dsprintf  MODE 4: trim */
#define NT 1
#define NOITER 0
#include "ent.h"
#include "metac/backend/value.h"
#include "metac/backend/iterator.h"
#include "metac/reflect/value.h"
#include <errno.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include "walk_ghost.h"
#if MODE == 3 || MODE == 4
#define TXT_NOMEM
#endif
#if MODE == 2
#define SZ 28
#define MAXOUT 28
static char cb0[16]; static int c_live;
static int fr(void *p) { if (p != (void *)cb0) return 0; VF_CHECK(c_live, "a string is released once"); c_live = 0; return 1; }
#define TXT_FREE(p) fr(p)
#endif
#include "txt_ghost.h"
#if MODE == 3
#include "metac/backend/string.h"
dsprintf_render_with_buf(8)
void harness(void) {
    char s[L + 1], t[3];
    for (int i = 0; i < L; ++i) { s[i] = (char)vf_u64(); VF_ASSUME(s[i] != 0); }
    s[L] = 0; t[0] = (char)vf_u64(); t[1] = (char)vf_u64(); t[2] = 0;
    VF_ASSUME(t[0] != 0 && t[1] != 0);
    char *r = dsprintf8("(%s)%s,", s, t);
    if (r == NULL) return;
    VF_CHECK(r[0] == '(' && r[L + 1] == ')' && r[L + 2] == t[0] && r[L + 3] == t[1] && r[L + 4] == ',' && r[L + 5] == 0, "the whole text");
    for (int i = 0; i < L; ++i) VF_CHECK(r[i + 1] == s[i], "and nothing but it");
    free(r);
    VF_REACH("made");
}
#endif
#if MODE == 4
#include "metac/backend/string.h"
void harness(void) {
    char s[L + 1], o[L + 1];
    for (int i = 0; i < L; ++i) { o[i] = s[i] = (char)vf_u64(); VF_ASSUME(s[i] != 0); }
    o[L] = s[L] = 0;
    VF_CHECK(trim_trailing_spaces(s) == s && trim_trailing_spaces(NULL) == NULL, "in place");
    int end = L;
    for (int i = L; i > 0; --i) if (end == i && o[i - 1] == ' ') end = i - 1;
    for (int i = 0; i < L; ++i) if (i < end) VF_CHECK(s[i] == o[i], "the text stays");
    VF_CHECK(s[end] == 0, "the spaces at its end do not");
    VF_REACH("trimmed");
}
#endif
#if MODE == 1 || MODE == 2
#if MODE == 2
#define NCH LEN
#define N LEN
#else
#define NCH 3
#endif
static char t0[3], t1[3], t2[3], t3[3], tt[3], ty[2];
struct metac_value { int kind, fkind; metac_entry_t *e; char *addr; int live; const char *name; };
static metac_entry_t e_in, e_p0, e_p1, e_p2, e_p3, e_arr, e_flex, e_el; static struct metac_value v_in, v_top, v_p0, v_p1, v_p2, v_p3, v_arr, v_flex;
#define v_part(i) (*((i) == 0 ? &v_p0 : (i) == 1 ? &v_p1 : (i) == 2 ? &v_p2 : &v_p3))
#define e_part(i) (*((i) == 0 ? &e_p0 : (i) == 1 ? &e_p1 : (i) == 2 ? &e_p2 : &e_p3))
static char mem[64], far_[64];
#define txt(i) ((i) == 0 ? t0 : (i) == 1 ? t1 : (i) == 2 ? t2 : t3)
#define NEWV(v) ((v).live++, &(v))
static int is_load(struct metac_value *v) { return v == &v_in && K >= 6 && K <= 8; }
void metac_value_delete(metac_value_t *p) { VF_CHECK(p != &v_in && p != &v_top, "a value is released by its owner"); if (p) { VF_CHECK(p->live == 1, "a value is released once"); p->live = 0; } }
metac_kind_t metac_value_kind(metac_value_t *p) { return p->kind; }
metac_kind_t metac_value_final_kind(metac_value_t *p, metac_quals_t *q) { return p->fkind; }
metac_entry_t *metac_value_entry(metac_value_t *p) { VF_CHECK(p->live == 1, "values are used while they are there"); return p->e; }
metac_name_t metac_value_name(metac_value_t *p) { VF_CHECK(p->live == 1, "values are used while they are there"); return (metac_name_t)p->name; }
void *metac_value_addr(metac_value_t *p) { return p->addr; }
metac_flag_t metac_value_has_parameter_load(metac_value_t *p) { return is_load(p); }
metac_flag_t metac_value_has_members(metac_value_t *p) { return p->fkind == METAC_KND_struct_type || p->fkind == METAC_KND_union_type; }
metac_num_t metac_value_member_count(metac_value_t *p) { VF_CHECK(p == &v_in, "its own members"); return N; }
static metac_value_t *part(int i) { VF_CHECK(i >= 0 && i < N, "only existing parts"); if (i < 0 || i >= N || i >= NCH || FNEW == i + 1) return NULL; return NEWV(v_part(i)); }
metac_value_t *metac_new_value_by_member_id(metac_value_t *p, metac_num_t i) { VF_CHECK(p == &v_in && (K == 3 || K == 4), "its own members"); return part(i); }
static int g_alen;
metac_flag_t metac_value_has_elements(metac_value_t *p) { return p == &v_arr ? PTR != 4 : p->fkind == METAC_KND_array_type; }
metac_num_t metac_value_element_count(metac_value_t *p) { if (p == &v_arr) return g_alen; VF_CHECK(p == &v_in, "its own elements"); return FLEX ? -1 : N; }
metac_value_t *metac_new_value_by_element_id(metac_value_t *p, metac_num_t i) { VF_CHECK(p == &v_in ? !FLEX : p == &v_arr && p->live == 1 && FLEX, "its own elements"); return part(i); }
static int n_cnt;
metac_value_t *metac_new_element_count_value(metac_value_t *p, metac_num_t n) {
    if (p == &v_arr) { VF_CHECK(K == 2 && n == -1 && p->live == 1, "the type of the array pointed to"); ++n_cnt; return NEWV(v_flex); }
    VF_CHECK(p == &v_in && n == (K == 5 ? 0 : 1), "the default length");
    g_alen = n;
    return NEWV(v_arr);
}
int metac_value_pointer(metac_value_t *p, void **a) { if (p->fkind != METAC_KND_pointer_type) return -(EINVAL); *a = PTR ? far_ : NULL; return 0; }
metac_flag_t metac_value_is_void_pointer(metac_value_t *p) { return PTR == 2; }
int metac_value_level_introduced_loop(metac_recursive_iterator_t *p) { IT(p); return PTR == 3 ? 1 : PTR == 1 ? -1 : 0; }
metac_num_t metac_value_parameter_count(metac_value_t *p) { VF_CHECK(p == &v_in && is_load(p), "its own parameters"); return N; }
metac_value_t *metac_value_parameter_new_item(metac_value_t *p, metac_num_t i) { VF_CHECK(p == &v_in && is_load(p), "its own parameters"); return part(i); }
static int f_scalar;
static char *scalar(metac_value_t *p) { VF_CHECK(p == &v_in, "its own text"); return f_scalar ? NULL : put(tt); }
char *metac_value_base_type_string(metac_value_t *p) { VF_CHECK(K == 0, "as what it is"); return scalar(p); }
char *metac_value_enumeration_string(metac_value_t *p) { VF_CHECK(K == 1, "as what it is"); return scalar(p); }
char *metac_value_pointer_string(metac_value_t *p) { VF_CHECK(K == 2, "as what it is"); return scalar(p); }
static int n_decl;
char *metac_entry_cdecl(metac_entry_t *e) {
    ++n_decl; VF_CHECK(K == 2 ? e == &e_flex : K == 7 && (e == &e_p0 || e == &e_p1 || e == &e_p2), "the type of what is shown");
    if (NODECL) return NULL;
    char s[9]; s[0] = K == 2 ? ty[0] : e == &e_p0 ? '0' : e == &e_p1 ? '1' : '2'; s[1] = ' '; s[2] = '%'; s[3] = 's'; if (K == 2) { s[4] = '['; s[5] = ']'; s[6] = 0; } else s[4] = 0;
    return put(s);
}
metac_name_t metac_entry_name(metac_entry_t *e) { VF_CHECK(e == &e_in, "its own name"); return "fn"; }
metac_flag_t metac_entry_is_va_list_parameter(metac_entry_t *e) { VF_CHECK(e == &e_in, "itself"); return VALIST; }
/* elements of arrays: numbers, or char in MODE 2 */
metac_entry_t *metac_entry_element_entry(metac_entry_t *e) { return &e_el; }
metac_entry_t *metac_entry_final_entry(metac_entry_t *e, metac_quals_t *q) { return e; }
metac_flag_t metac_entry_is_base_type(metac_entry_t *e) { return MODE == 2; }
metac_name_t metac_entry_base_type_name(metac_entry_t *e) { return "char"; }
static char tags_tok, cx_tok; static metac_entry_tag_t g_tag; static int h_calls;
static int h_dummy(metac_value_walker_hierarchy_t *h, metac_value_event_t *ev, void *cx) { return 0; }
metac_entry_tag_t *metac_tag_map_tag(metac_tag_map_t *m, metac_entry_t *e) { VF_CHECK((void *)m == (void *)&tags_tok && e == &e_in, "the tag of the value"); return TAG >= 2 ? &g_tag : NULL; }
int metac_value_event_handler_call(metac_value_event_handler_t h, metac_recursive_iterator_t *it, metac_value_event_t *ev, void *cx) {
    IT(it); ++h_calls;
    VF_CHECK(TAG == 3 && h == h_dummy && cx == (void *)&cx_tok && ev->p_return_value == NULL, "the handler of the tag is asked");
    VF_CHECK(ev->type == (K == 4 ? METAC_RQVST_union_member : K == 5 ? METAC_RQVST_flex_array_count : METAC_RQVST_pointer_array_count), "what the value needs to know");
    if (HF == 2) return -(EFAULT);
    if (HF != 1) { ev->p_return_value = K == 4 ? NEWV(v_part(0)) : NEWV(v_arr); g_alen = N; if (HF == 3) v_arr.addr = far_ + 8; }
    return 0;
}
static void w_request(struct task *t, void *in) {
    int i = t->nreq < NCH ? t->nreq : 0;
    VF_CHECK(in == (K == 2 ? &v_arr : &v_part(i)) && ((struct metac_value *)in)->live == 1, "every part is asked for, in order");
}
static void w_result(struct task *t, int i) { if (i >= NCH) return; t->rfail[i] = RF == i + 1; t->res[i] = t->rfail[i] ? NULL : put(txt(i)); }
static void any(char *s, int n, char c) { for (int i = 0; i < n; ++i) s[i] = i ? c - 'a' + 'A' : c; s[n] = 0; }
static void setup(void) {
    w_init();
    static const int kinds[] = {METAC_KND_base_type, METAC_KND_enumeration_type, METAC_KND_pointer_type, METAC_KND_struct_type, METAC_KND_union_type, METAC_KND_array_type, METAC_KND_subprogram, METAC_KND_invalid, METAC_KND_subroutine_type, METAC_KND_typedef};
    v_in.fkind = kinds[K]; v_in.kind = K == 7 ? METAC_KND_func_parameter : SELF ? METAC_KND_member : kinds[K]; v_in.e = &e_in; v_in.addr = mem; v_in.live = 1; v_in.name = SELF == 1 ? "me" : NULL;
    v_top = v_in;
    nB = n_dup = n_decl = n_cnt = h_calls = 0; nw = 0; for (int i = 0; i < 16; ++i) live[i] = 0;
    for (int i = 0; i < NCH; ++i) { v_part(i).live = 0; v_part(i).e = &e_part(i); v_part(i).addr = mem + i; v_part(i).kind = METAC_KND_member; v_part(i).fkind = METAC_KND_base_type; v_part(i).name = (ANON >> i) & 1 ? NULL : i == 0 ? "x" : i == 1 ? "yy" : "z";
        }
    any(t0, EMPTY & 1 ? 0 : 2, QUOTE & 1 ? '"' : 'a'); any(t1, EMPTY & 2 ? 0 : 1, QUOTE & 2 ? '"' : 'b'); any(t2, EMPTY & 4 ? 0 : 2, QUOTE & 4 ? '"' : 'c');
    v_arr.live = v_flex.live = 0; v_arr.e = &e_arr; v_flex.e = &e_flex; v_arr.kind = v_arr.fkind = v_flex.kind = v_flex.fkind = METAC_KND_array_type; v_arr.addr = K == 5 ? mem : far_; v_flex.addr = far_; g_alen = 1;
    any(t3, 1, 'd'); any(tt, 2, 't'); any(ty, 1, 'y'); f_scalar = SF;
    g_tag.handler = TAG == 3 ? h_dummy : NULL; g_tag.p_context = &cx_tok;
    w_none = 0; w_failat = FAILAT; w_rootfail = 0; w_rootout = (void *)"r";
    T[0].in = &v_in;
}
#endif
#if MODE == 1
void harness(void) {
    setup();
    char *r = metac_value_string_ex(&v_top, DEEP ? METAC_WMODE_deep : METAC_WMODE_shallow, TAG ? (metac_tag_map_t *)&tags_tok : NULL);
    struct task *t = &T[0];
    VF_CHECK(t->ended && w_root == &v_top && w_freed == 1, "the walk starts at the value, the task finishes");
    VF_CHECK(r == (w_rootfail ? NULL : w_rootout), "the text is what the walk delivers");
    VF_CHECK(!v_p0.live && !v_p1.live && !v_p2.live && !v_arr.live && !v_flex.live, "no value is kept");
    int none = t->failed || t->out == NULL, own = 0;
#if K < 2 || (K == 2 && !DEEP)
    own = f_scalar; w(tt);
#elif K == 2
    int fromh = TAG == 3 && HF == 0, asks = PTR && PTR != 3;
    VF_CHECK(h_calls == (TAG == 3 && asks), "the handler is asked once");
    if (!PTR) { own = f_scalar; w(tt); }
    else if (PTR == 3 || (TAG == 3 && HF >= 2)) own = 1;
    else if (PTR == 2 && !fromh) { own = f_scalar; w(tt); }
    else {
        own = PTR == 4 || FAILAT || RF || NODECL;
        if (!own) { VF_CHECK(n_decl == 1 && t->nreq == 1, "its target"); if (!(QUOTE & 1)) { w("("); w(ty); w(" [])"); } w(t0); }
    }
#elif K == 3 || K == 4
    int parts = K == 3 ? N : TAG == 3 && N > 0 && HF == 0 ? 1 : 0, first = 1;
    if (K == 4) { VF_CHECK(h_calls == (TAG == 3 && N > 0), "the handler is asked once"); own = TAG == 3 && N > 0 && HF == 2; }
    own = own || (FNEW && K == 3 && FNEW <= N) || (FAILAT && FAILAT <= parts) || (RF && RF <= parts);
    if (!own) VF_CHECK(t->nreq == parts, "all parts");
    if (SELF != 2) w("{");
    for (int i = 0; i < NCH; ++i) if (i < parts && !((EMPTY >> i) & 1)) { if (!first) w(" "); first = 0; if (!((ANON >> i) & 1)) { w("."); w(i == 0 ? "x" : i == 1 ? "yy" : "z"); w(" = "); w(txt(i)); w(","); } else w(txt(i)); }
    if (SELF != 2) w("}");
#elif K == 5
    int skip = FLEX && TAG && !(TAG == 3 && HF == 0), parts = FLEX && !TAG ? 0 : N, first = 1;
    VF_CHECK(h_calls == (TAG == 3 && FLEX), "the handler is asked once");
    if (FLEX && TAG == 3 && HF == 2) own = 1;
    else if (!skip) {
        own = (FNEW && FNEW <= parts) || (FAILAT && FAILAT <= parts) || (RF && RF <= parts);
        if (!own) VF_CHECK(t->nreq == parts, "all elements");
        w("{"); for (int i = 0; i < NCH; ++i) if (i < parts) { if (!first) w(" "); first = 0; w(txt(i)); w(","); } w("}");
    }
#elif K == 6 || K == 8
    int first = 1;
    own = (FNEW && FNEW <= N) || (FAILAT && FAILAT <= N) || (RF && RF <= N);
    if (!own) VF_CHECK(t->nreq == N, "all parameters");
    w(K == 8 ? "(fn)(" : "fn("); for (int i = 0; i < NCH; ++i) if (i < N && !((EMPTY >> i) & 1)) { if (!first) w(", "); first = 0; w(txt(i)); } w(")");
#elif K == 7
    int first = 1;
    own = (FNEW && FNEW <= N) || (FAILAT && FAILAT <= N) || (RF && RF <= N) || (NODECL && N > 0);
    if (!own) VF_CHECK(t->nreq == N, "all parameters");
    if (VALIST) w("VA_LIST(");
    for (int i = 0; i < NCH; ++i) if (i < N) { if (!first) w(", "); first = 0; if (!((QUOTE >> i) & 1)) { w("("); w(i == 0 ? "0" : i == 1 ? "1" : "2"); w(")"); } w(txt(i)); }
    if (VALIST) w(")");
#else
    own = 1;
#endif
    if (NOMEM) { if (n_dup >= NOMEM) { VF_CHECK(none, "no text without memory"); own = 1; } }
    VF_CHECK(none == (own != 0), "a text exactly if all parts have one");
    VF_CHECK(ALIVE(t->out) == (none ? 0 : 1), "nothing but the text is kept");
    if (!none) same(t->out);
    VF_REACH("life");
}
#endif
#if MODE == 2
/* arrays of LEN char, every value of a char in every place: a literal exactly if the last one is the terminator and the others can be shown */
void *calloc(size_t n, size_t s) { VF_CHECK(!c_live && n * s <= sizeof(cb0), "room for the text"); for (int i = 0; i < (int)sizeof(cb0); ++i) cb0[i] = i < n * s ? 0 : '#'; c_live = 1; return cb0; }
static const char other[] = {'x', '\n', '\\', 7, '%'};
static void one(int place, int c, int k) {
    setup();
    for (int i = 0; i < LEN; ++i) mem[i] = i == LEN - 1 ? 0 : other[(i + k) % 5];
    mem[place] = (char)c;
    char *r = metac_value_string_ex(&v_top, METAC_WMODE_deep, NULL);
    struct task *t = &T[0];
    VF_CHECK(t->ended && w_freed == 1 && r == w_rootout && !t->failed, "the text is what the walk delivers");
    VF_CHECK(!v_p0.live && !v_p1.live && !v_p2.live && !v_p3.live && !v_arr.live && !v_flex.live, "no value is kept");
    int lit = LEN >= 2 && mem[LEN - 1] == 0;
    want[nw++] = '"';
    for (int i = 0; i + 1 < LEN; ++i) {
        char c = mem[i], e = c == '\n' ? 'n' : c == '\r' ? 'r' : c == '\t' ? 't' : c == '\v' ? 'v' : c == '\b' ? 'b' : c == '\f' ? 'f' : c == '\a' ? 'a' : c == '\\' || c == '\'' || c == '"' || c == '?' ? c : 0;
        if (e) { want[nw++] = '\\'; want[nw++] = e; } else { if (c < 32 || c > 126) lit = 0; want[nw++] = c; }
    }
    want[nw++] = '"'; want[nw] = 0;
    VF_CHECK(t->nreq == (lit ? 0 : LEN), "element by element unless it is a literal");
    if (!lit) { nw = 0; w("{"); for (int i = 0; i < LEN; ++i) { if (i) w(" "); w(txt(i)); w(","); } w("}"); }
    same(t->out);
    VF_CHECK(ALIVE(t->out) == 1 && !c_live, "nothing but the text is kept");
}
void harness(void) {
    for (int c = FROM; c < FROM + 32; ++c) one(PLACE, c, c % 5);
    VF_REACH("life");
}
#endif
