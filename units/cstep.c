/* C16: the life of one task of the walk that writes a type as a declaration (entry_cdecl.c): what it delivers is the declaration assembled from
 * the declarations of its parts, each by the contract of the walk itself (a text with one place for what is declared).  Iterator by the contract C07 checks,
 * texts in memory by txt_ghost.h.
 * K 0 variable, 1 typedef, 2 base type, 3 enumeration, 4 array, 5 qualifier (QK), 6 pointer, 7 struct, 8 union, 9 function, 10 type of functions, 11 something else
 * TY 0 nothing 1 a plain type 2 one with text on both sides;  OF what it is made of: 0 number 1 array 2 pointer 3 qualified array 4 array of pointers 5 qualified pointer;
 * N parts, NAMED, COUNT, NONAME mask of parts without name, BITS mask of bit-fields, NOTY mask of parts without type, UNSPEC mask of "...", FAILAT, RF, NOMEM */
#define NT 1
#define NOITER 0
#define MAXREQ 4
#include "ent.h"
#include "metac/backend/iterator.h"
#include <errno.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#define MAXOUT 64
#include "txt_ghost.h"
#include "walk_ghost.h"
#define NCH 3
#define LINK (K == 0 || K == 4 || K == 5 || K == 6 || K == 9 || K == 10)
#define PARTS (K == 7 || K == 8 || K == 9 || K == 10)
static metac_entry_t e_in, e_of, e_of2, e_of3, e_t0, e_t1, e_t2, parts[3];
static metac_size_t bits;
static struct metac_type_enumerator_info en[3];
#define e_t(i) (*((i) == 0 ? &e_t0 : (i) == 1 ? &e_t1 : &e_t2))
#define HAS(m, i) (((m) >> (i)) & 1)
static int pre, nth[4];            /* what the n-th sub-task is about: -1 the type it is made of, else the part */
static int asks(int i) { return i < N && !HAS(NOTY, i) && !(K >= 9 && HAS(UNSPEC, i)); }
static void w_request(struct task *t, void *in) {
    int n = t->nreq, i = nth[n < 4 ? n : 3];
    VF_CHECK(in == (i < 0 ? (void *)&e_of : (void *)&e_t(i)), "every part is asked for, in order");
}
/* declarations of the parts: U(x) and A(x), B(x), C(x) */
static const char *L(int i) { return i < 0 ? "u " : i == 0 ? "a " : i == 1 ? "bb " : "c "; }
static const char *R(int i) { return i < 0 ? (TY == 2 ? "[2]" : "") : i == 1 ? "[7]" : ""; }
static void w_result(struct task *t, int n) {
    int i = nth[n < 4 ? n : 3]; static char b[16]; int k = 0; const char *s;
    t->rfail[n] = RF == n + 1;
    if (RF == n + 1) { t->res[n] = NULL; return; }
    for (s = L(i); *s; ++s) b[k++] = *s;
    b[k++] = '%'; b[k++] = 's';
    for (s = R(i); *s; ++s) b[k++] = *s;
    b[k] = 0; t->res[n] = put(b);
}
void harness(void) {
    w_init();
    nB = n_dup = 0; nw = 0; for (int i = 0; i < 16; ++i) live[i] = 0;
    static const int kinds[] = {METAC_KND_variable, METAC_KND_typedef, METAC_KND_base_type, METAC_KND_enumeration_type, METAC_KND_array_type, 0, METAC_KND_pointer_type, METAC_KND_struct_type, METAC_KND_union_type, METAC_KND_subprogram, METAC_KND_subroutine_type, METAC_KND_invalid};
    static const int quals[] = {METAC_KND_const_type, METAC_KND_volatile_type, METAC_KND_restrict_type, METAC_KND_mutable_type, METAC_KND_shared_type, METAC_KND_packed_type};
    static const char *const qn[] = {"const ", "volatile ", "restrict ", "mutable ", "shared ", "packed "};
    static const char *const nm[] = {"x", "yy", "z"};
    e_of3 = (metac_entry_t)VF_BASE("n", METAC_ENC_signed, 4);
    e_of2 = OF == 4 ? (metac_entry_t)VF_PTR(&e_of3) : OF == 3 ? (metac_entry_t)VF_ARR(&e_of3, 2) : OF == 5 ? (metac_entry_t)VF_PTR(&e_of3) : e_of3;
    e_of = OF == 0 ? (metac_entry_t)VF_BASE("n", METAC_ENC_signed, 4) : OF == 1 || OF == 4 ? (metac_entry_t)VF_ARR(&e_of2, 2) : OF == 2 ? (metac_entry_t)VF_PTR(&e_of3) : (metac_entry_t)VF_QUAL(METAC_KND_const_type, &e_of2);
    metac_entry_t *of = TY ? &e_of : NULL;
    metac_name_t name = NAMED ? "N" : NULL;
#if K == 0
    e_in = (metac_entry_t)VF_VAR(name, of);
#elif K == 1
    e_in = (metac_entry_t)VF_TYPEDEF(name, &e_of);
#elif K == 2
    e_in = (metac_entry_t)VF_BASE(name, METAC_ENC_signed, 4);
#elif K == 3
    e_in = (metac_entry_t){.kind = METAC_KND_enumeration_type, .name = name, .enumeration_type_info = {.byte_size = 4, .enumerators_count = N, .enumerators = en}};
    for (int i = 0; i < 3; ++i) { en[i].name = (metac_name_t)nm[i]; en[i].const_value = i == 0 ? 0 : i == 1 ? -12 : 2147483648L; }
#elif K == 4
    e_in = (metac_entry_t)VF_ARR(of, COUNT);
#elif K == 5
    e_in = (metac_entry_t)VF_QUAL(quals[QK], of);
#elif K == 6
    e_in = (metac_entry_t)VF_PTR(of);
#elif K == 7 || K == 8
    e_in = (metac_entry_t)VF_STRUCT(kinds[K], name, 8, N, parts);
    bits = 13;
    for (int i = 0; i < 3; ++i) { parts[i] = (metac_entry_t)VF_MEMBER(HAS(NONAME, i) ? NULL : (metac_name_t)nm[i], HAS(NOTY, i) ? NULL : &e_t(i), 0); if (HAS(BITS, i)) parts[i].member_info.p_bit_size = &bits; }
#elif K == 9 || K == 10
    e_in = (metac_entry_t)VF_FUNC(kinds[K], name, of, N, parts);
    for (int i = 0; i < 3; ++i) { parts[i] = (metac_entry_t)VF_PARAM(HAS(NONAME, i) ? NULL : (metac_name_t)nm[i], HAS(NOTY, i) || HAS(UNSPEC, i) ? NULL : &e_t(i)); parts[i].func_parameter_info.unspecified_parameters = HAS(UNSPEC, i); }
#else
    e_in = (metac_entry_t){.kind = kinds[K]};
#endif
    int q = 0;
    for (int i = 0; i < 4; ++i) nth[i] = 99;
    if (LINK && TY) nth[q++] = -1;
    if (PARTS && !((K == 7 || K == 8) && NAMED)) for (int i = 0; i < NCH; ++i) if (asks(i)) nth[q++] = i;
    w_failat = FAILAT; w_rootout = (void *)"r";
    T[0].in = &e_in;
    static metac_entry_t e_top; e_top = e_in;
    char *r = metac_entry_cdecl(&e_top);
    struct task *t = &T[0];
    VF_CHECK(t->ended && w_root == &e_top && w_freed == 1, "the walk starts at the type, the task finishes");
    VF_CHECK(r == w_rootout, "the text is what the walk delivers");
    int none = t->failed || t->out == NULL, own = (FAILAT && FAILAT <= q) || (RF && RF <= q);
    if (K >= 9) for (int i = 0; i < NCH; ++i) if (i < N && HAS(NOTY, i) && !HAS(UNSPEC, i)) own = 1;
    if (!own) VF_CHECK(t->nreq == q, "all parts");
    const char *l = TY ? L(-1) : "void ", *rr = TY ? R(-1) : "";
#if K == 0
    w(l); w("N"); w(rr);
#elif K == 1 || K == 2
    w("N %s");
#elif K == 3
    if (NAMED) w("enum N %s");
    else { w("enum {"); if (N > 0) w("x = 0,"); if (N > 1) w(" yy = -12,"); if (N > 2) w(" z = 2147483648,"); w("} %s"); }
#elif K == 4
    w(l); w(COUNT < 0 ? "%s[]" : COUNT == 0 ? "%s[0]" : COUNT == 1 ? "%s[1]" : "%s[4294967297]"); w(rr);
#elif K == 5
    if (TY && (OF == 2 || OF == 4 || OF == 5)) { w(l); w(qn[QK]); w("%s"); w(rr); } else { w(qn[QK]); w(l); w("%s"); w(rr); }
#elif K == 6
    w(l); w(TY && (OF == 1 || OF == 3 || OF == 4) ? "(* %s)" : "* %s"); w(rr);
#elif K == 7 || K == 8
    w(K == 7 ? "struct " : "union ");
    if (NAMED) w("N %s");
    else {
        w("{");
        for (int i = 0; i < NCH; ++i) if (i < N) {
            int to = nw;
            w(HAS(NOTY, i) ? "void " : L(i));
            if (!HAS(NONAME, i)) { w(nm[i]); if (HAS(BITS, i)) w(":13"); }
            if (!HAS(NOTY, i)) w(R(i));
            while (nw > to && want[nw - 1] == ' ') want[--nw] = 0;
            w("; ");
        }
        w("} %s");
    }
#elif K == 9 || K == 10
    w(l); w(K == 9 ? "N(" : "(%s)(");
    for (int i = 0; i < NCH; ++i) if (i < N) {
        if (i) w(", ");
        if (HAS(UNSPEC, i)) { w("..."); continue; }
        w(L(i)); if (K == 9 && !HAS(NONAME, i)) w(nm[i]); w(R(i));
        while (want[nw - 1] == ' ') want[--nw] = 0;
    }
    w(")"); w(rr);
#else
    own = 1;
#endif
    if (NOMEM && n_dup >= NOMEM) { VF_CHECK(none, "no text without memory"); own = 1; }
    VF_CHECK(none == (own != 0), "a text exactly if all parts have one");
    VF_CHECK(ALIVE(t->out) == (none ? 0 : 1), "nothing but the text is kept");
    if (!none) same(t->out);
    VF_REACH("life");
}
