/* C07: the recursive work iterator.
 * MODE 1 append, 2 dequeue, 3 next, 4 level, 5 path lookup, 6 queue size, 7 result lookup, 8 state/context/result, 9 public-API histories against a reference model (native),
 * 10 public-API histories of a fixed small length (unwound). */
#include "vf.h"
#include <stdio.h>
#include <limits.h>
#if MODE < 9
#ifdef VF_CBMC
static int vf_oom;
static void *vf_calloc(size_t n, size_t s) { return vf_oom ? NULL : calloc(n, s); }
#define calloc vf_calloc
#endif
#include SRC_iterator
#ifdef VF_CBMC
#undef calloc
#endif
typedef struct recursive_iterator_entry R;
static char g_obj[32];
static void *anyp(void) { uint64_t o = vf_range(0, 32); return o == 32 ? NULL : (void *)(g_obj + o); }
static int anystate(void) { return (int)vf_srange(-3, INT_MAX); }
struct metac_recursive_iterator *g_it;
R g_root_, g_c, g_par, g_f, g_m, g_l, g_u;     /* current, parent, first, middle, last dep */
R s_c, s_par, s_f, s_m, s_l;
static int same(R *a, R *b) { return a->p_parent == b->p_parent && a->state == b->state && a->p_in == b->p_in && a->p_context == b->p_context && a->p_out == b->p_out && a->deps.lh_first == b->deps.lh_first && a->last_dep == b->last_dep; }
static int same_links(R *a, R *b) { return a->links.le_next == b->links.le_next && a->links.le_prev == b->links.le_prev; }
static void any(R *r, R *parent) {
    r->p_parent = parent; r->state = anystate(); r->p_in = anyp(); r->p_context = anyp(); r->p_out = r->state == METAC_R_ITER_failed ? NULL : anyp();
    r->deps.lh_first = NULL; r->last_dep = NULL; r->links.le_next = NULL; r->links.le_prev = NULL;
}
#endif
#if MODE == 4 || MODE == 5
int g_D, g_j, g_req; R g_a, g_b;
#ifndef ALT
#define ALT 0              /* 1: the loop may run past the first task */
#endif
#define END(l) (ALT && p == NULL && (l) == g_D + 1)
#if MODE == 4
#define NOTPAST(l) 1
#else
#define NOTPAST(l) (g_req < 0 || (l) <= g_req)
#endif
int vf_inv_climb(void *p, int level) { return ((p == &g_c && level == 0) || (p == &g_a && level == g_j) || (p == &g_b && level == g_j + 1) || END(level)) && NOTPAST(level); }
void *vf_hv_climb(void) { return ALT && (vf_hv() & 1) ? NULL : (void *)&g_a; }
#elif MODE == 6 || MODE == 7
#ifndef ALT
#define ALT 0
#endif
int g_n, g_j, g_i0; R *g_a, *g_b;      /* list of g_n nodes: g_a at position g_j, g_b after it (NULL at the end) */
int vf_inv_climb(void *p, int size) { return (p == g_c.deps.lh_first && size == 0) || (p == g_a && size == g_j) || (g_n > 0 && p == g_b && size == g_j + 1) || (p == NULL && size == g_n); }
void *vf_hv_climb(void) { return vf_hv() & 1 ? g_a : NULL; }
int vf_inv_pos(void *p, int i) { return i >= 0 && (ALT || p != NULL) && ((p == g_c.deps.lh_first && i == g_i0) || (p == g_a && i == g_i0 - g_j) || (p == g_b && i == g_i0 - g_j - 1)); }
#elif MODE == 3
R *g_T, *g_T0; R *g_U, *g_P;
static int ended(R *r) { return r->state == METAC_R_ITER_done || r->state == METAC_R_ITER_failed; }
/* g_c: an arbitrary task; g_T: the task next() has to hand out from it; the same task from its parent when it is ended, from its first unfinished sub-task otherwise */
int vf_inv_next(void) { return g_it->p_current == &g_c || (ended(&g_c) && g_P != NULL && g_it->p_current == g_P) || (!ended(&g_c) && g_U != NULL && g_it->p_current == g_U); }
void vf_hv_next(void) { g_it->p_current = &g_c; }
int vf_inv_scan(void *p) { return p == g_U || (p != NULL && (p == &g_f || p == &g_m || p == &g_l)); }
void *vf_hv_scan(void) { return vf_hv() & 1 ? (void *)g_U : (void *)&g_m; }
#endif

#if MODE <= 2
/* the queue of the current task: none, one or any larger number of sub-tasks (what lies between is never touched) */
static int build_queue(void) {
    int n = (int)vf_range(0, 3);
    any(&g_par, NULL); any(&g_c, vf_bool() ? &g_par : NULL);
    any(&g_f, &g_c); any(&g_m, &g_c); any(&g_l, &g_c);
    g_f.links.le_prev = &g_c.deps.lh_first;
    if (n == 0) { }
    else if (n == 1) { g_c.deps.lh_first = &g_f; g_c.last_dep = &g_f; }
    else {
        g_c.deps.lh_first = &g_f; g_c.last_dep = &g_l;
        if (n == 2) { g_f.links.le_next = &g_l; g_l.links.le_prev = &g_f.links.le_next; }
        else { g_f.links.le_next = &g_m; g_m.links.le_prev = &g_f.links.le_next; g_m.links.le_next = (R *)(g_obj + 1) /* opaque rest */; g_l.links.le_prev = (R **)(g_obj + 2); }
    }
    return n;
}
#endif

#if MODE < 9
void harness(void) {
    struct metac_recursive_iterator it;
    memset(&it, 0, sizeof(it));
    g_it = &it;
    it.p_current = &g_c;
#if MODE == 1
    int n = build_queue();
    VF_ASSUME(!metac_r_iter_state_is_end(g_c.state));
    s_c = g_c; s_par = g_par; s_f = g_f; s_m = g_m; s_l = g_l;
    void *in = anyp();
#ifdef VF_CBMC
    vf_oom = vf_bool();
#endif
    int r = metac_recursive_iterator_create_and_append_dep(&it, in);
    VF_CHECK(it.p_current == &g_c && same(&g_par, &s_par) && same(&g_f, &s_f) && same(&g_l, &s_l) && same(&g_m, &s_m) && same_links(&g_m, &s_m), "requesting a sub-task disturbs no other task");
    VF_CHECK(g_c.state == s_c.state && g_c.p_in == s_c.p_in && g_c.p_context == s_c.p_context && g_c.p_out == s_c.p_out && g_c.p_parent == s_c.p_parent, "nor the current one");
#ifdef VF_CBMC
    if (vf_oom) {
        VF_CHECK(r != 0 && same(&g_c, &s_c) && same_links(&g_f, &s_f) && same_links(&g_l, &s_l), "out of memory is reported and changes nothing");
        VF_REACH("oom");
        return;
    }
#endif
    VF_CHECK(r == 0, "a sub-task is accepted");
    R *tail = n == 0 ? NULL : n == 1 ? &g_f : &g_l;
    R *x = tail ? tail->links.le_next : g_c.deps.lh_first;
    VF_CHECK(x != NULL && x != &g_f && x != &g_l && x != &g_m, "the new sub-task is queued after all others");
    if (x == NULL) return;
    VF_CHECK(n == 0 || g_c.deps.lh_first == &g_f, "the order of earlier sub-tasks is kept");
    VF_CHECK(n < 2 || same_links(&g_f, &s_f), "the order of earlier sub-tasks is kept");
    VF_CHECK(x->p_parent == &g_c && x->p_in == in && x->state == METAC_R_ITER_start && x->p_out == NULL && x->p_context == NULL && x->deps.lh_first == NULL && x->links.le_next == NULL, "it starts afresh with its input, below the current task");
    VF_CHECK(x->links.le_prev == (tail ? &tail->links.le_next : &g_c.deps.lh_first), "queue links are consistent");
    VF_CHECK(g_c.last_dep == x, "the next one will follow it");
    if (n == 0) { VF_REACH("first"); } else if (n == 1) { VF_REACH("second"); } else { VF_REACH("many"); }
    free(x);
#elif MODE == 2
    int n = build_queue();
    R *f = calloc(1, sizeof(R));       /* the first sub-task lives on the heap: it is deleted */
    VF_ASSUME(f != NULL);
    *f = g_f;
    if (n) g_c.deps.lh_first = f;
    if (n == 1) g_c.last_dep = f;
    if (n == 2) g_l.links.le_prev = &f->links.le_next;
    if (n == 3) g_m.links.le_prev = &f->links.le_next;
    VF_ASSUME(n == 0 || metac_r_iter_state_is_end(f->state));
    s_c = g_c; s_par = g_par; s_m = g_m; s_l = g_l; s_f = *f;
    void *in = g_obj; int fail = 7;
    int win = vf_bool(), wf = vf_bool();
    void *r = metac_recursive_iterator_dequeue_and_delete_dep(&it, win ? &in : NULL, wf ? &fail : NULL);
    VF_CHECK(it.p_current == &g_c && same(&g_par, &s_par) && same(&g_l, &s_l) && same(&g_m, &s_m), "fetching a result disturbs no other task");
    VF_CHECK(g_c.state == s_c.state && g_c.p_in == s_c.p_in && g_c.p_context == s_c.p_context && g_c.p_out == s_c.p_out && g_c.p_parent == s_c.p_parent, "nor the current one");
    if (n == 0) {
        VF_CHECK(r == NULL && in == g_obj && fail == 7 && g_c.deps.lh_first == NULL, "an empty queue yields nothing");
        VF_REACH("empty");
    } else {
        VF_CHECK(r == s_f.p_out && (!win || in == s_f.p_in) && (!wf || fail == (s_f.state == METAC_R_ITER_failed)), "the result, input and outcome of the first sub-task are delivered");
        VF_CHECK(g_c.deps.lh_first == (n == 1 ? NULL : n == 2 ? &g_l : &g_m), "the next sub-task becomes the first");
        if (n == 2) VF_CHECK(g_l.links.le_prev == &g_c.deps.lh_first && g_l.links.le_next == NULL, "queue links are consistent");
        if (n == 3) VF_CHECK(g_m.links.le_prev == &g_c.deps.lh_first && g_m.links.le_next == s_m.links.le_next && same_links(&g_l, &s_l), "queue links are consistent");
        if (n >= 2) VF_CHECK(g_c.last_dep == &g_l, "later sub-tasks follow the last one");
        if (n == 1) {
            VF_ASSUME(!metac_r_iter_state_is_end(g_c.state));
            VF_CHECK(metac_recursive_iterator_create_and_append_dep(&it, in) == 0 && g_c.deps.lh_first != NULL, "a task may request further sub-tasks after fetching all results");
            VF_REACH("one");
            free(g_c.deps.lh_first);
        } else { VF_REACH("many"); }
    }
    if (n == 0) free(f);
#elif MODE == 3
    any(&g_par, NULL);
    g_P = vf_bool() ? &g_par : NULL;
    any(&g_c, g_P); any(&g_f, &g_c); any(&g_m, &g_c); any(&g_l, &g_c); any(&g_u, &g_c);
    /* queue of g_c: g_f ... g_m (g_l) ... g_u: g_u is the first unfinished one, if there is one, all before it are ended */
    g_U = vf_bool() ? &g_u : NULL;
    VF_ASSUME(ended(&g_f) && ended(&g_m) && ended(&g_l) && !ended(&g_u));
    g_u.links.le_next = vf_bool() ? (R *)(g_obj + 1) : NULL;
    g_c.deps.lh_first = vf_bool() ? &g_f : g_U;
    g_f.links.le_next = vf_bool() ? &g_m : g_U;
    g_m.links.le_next = vf_bool() ? &g_l : g_U;
    g_l.links.le_next = g_U;
    s_c = g_c; s_par = g_par; s_f = g_f; s_m = g_m; s_l = g_l;
    void *r = metac_recursive_iterator_next(&it);
    R *t = it.p_current;
    if (ended(&g_c)) {
        VF_CHECK(g_P == NULL && t == &g_c && r == NULL, "the walk ends exactly when the first task is finished");
        VF_REACH("end of walk");
    } else {
        VF_CHECK(g_U == NULL && t == &g_c && r == g_c.p_in, "a task is handed out exactly when it is unfinished and all its sub-tasks are finished");
        VF_REACH("handed out");
    }
    VF_CHECK(same(&g_c, &s_c) && same(&g_par, &s_par) && same(&g_f, &s_f) && same(&g_m, &s_m) && same(&g_l, &s_l), "moving on changes no task");
    VF_CHECK(same_links(&g_f, &s_f) && same_links(&g_m, &s_m) && same_links(&g_l, &s_l), "moving on changes no queue");
    VF_CHECK(metac_recursive_iterator_next(NULL) == NULL, "no iterator, no task");
#elif MODE == 4 || MODE == 5
    g_D = (int)vf_range(0, 1 << 30); g_j = (int)vf_range(0, 1 << 30); g_req = (int)vf_u64();
    VF_ASSUME(g_j <= g_D);
    any(&g_c, g_D == 0 ? NULL : &g_b); any(&g_b, NULL); any(&g_a, g_j == g_D ? NULL : &g_b);
    if (g_j == 0) it.p_current = &g_a;
    else if (g_j > 1) g_c.p_parent = &g_par;      /* some task in between: never looked at, the cut moves on to g_a */
    else g_c.p_parent = &g_a;
    any(&g_par, &g_a);
    R *cur = it.p_current;
#if MODE == 4
    int r = metac_recursive_iterator_level(&it);
    VF_CHECK(r == g_D, "the level is the number of tasks above the current one");
    VF_CHECK(metac_recursive_iterator_level(NULL) == -1, "no iterator");
    VF_REACH("end");
#else
    void *r = metac_recursive_iterator_get_in(&it, g_req);
    if (g_req < 0 || g_req > g_D) { VF_CHECK(r == NULL, "outside the path there is nothing"); VF_REACH("outside"); }
    else if (g_req == 0) { VF_CHECK(r == cur->p_in, "level 0 is the current task"); VF_REACH("current"); }
    else { VF_CHECK(g_req == g_j && r == g_a.p_in, "each level of the path yields that task's input"); VF_REACH("above"); }
    VF_CHECK(metac_recursive_iterator_get_in(NULL, 0) == NULL, "no iterator");
#endif
#elif MODE == 6 || MODE == 7
    any(&g_c, NULL); any(&g_f, &g_c); any(&g_m, &g_c); any(&g_l, &g_c);
    g_n = (int)vf_range(0, 1 << 30); g_j = (int)vf_range(0, 1 << 30); g_i0 = (int)vf_u64();
    VF_ASSUME(g_n == 0 ? g_j == 0 : g_j < g_n);
    g_a = &g_m; g_b = g_j + 1 < g_n ? &g_l : NULL;
    if (g_n == 0) { g_a = NULL; g_b = NULL; }
    g_c.deps.lh_first = g_n == 0 ? NULL : g_j == 0 ? g_a : &g_f;
    g_f.links.le_next = g_j == 1 ? g_a : &g_l;
    g_m.links.le_next = g_b;
#if MODE == 6
    int r = metac_recursive_iterator_dep_queue_size(&it);
    VF_CHECK(r == g_n, "the queue size is the number of sub-tasks");
    VF_CHECK((metac_recursive_iterator_dep_queue_is_empty(&it) != 0) == (g_n == 0), "empty means no sub-tasks");
    VF_CHECK(metac_recursive_iterator_dep_queue_size(NULL) < 0 && metac_recursive_iterator_dep_queue_is_empty(NULL) < 0, "no iterator");
    VF_REACH("end");
#else
    VF_ASSUME(g_i0 >= 0);
    VF_ASSUME(metac_r_iter_state_is_end(g_f.state) && metac_r_iter_state_is_end(g_m.state) && metac_r_iter_state_is_end(g_l.state));
    void *in = g_obj; int fail = 7;
    void *r = metac_recursive_iterator_get_dep_out(&it, g_i0, &in, &fail);
    if (g_n == 0 || g_i0 >= g_n) { VF_CHECK(r == NULL && in == g_obj && fail == 7, "no such sub-task"); VF_REACH("none"); }
    else if (g_i0 == 0) { R *x = g_c.deps.lh_first; VF_CHECK(r == x->p_out && in == x->p_in && fail == (x->state == METAC_R_ITER_failed), "first result"); VF_REACH("first"); }
    else { VF_CHECK(g_i0 == g_j && r == g_m.p_out && in == g_m.p_in && fail == (g_m.state == METAC_R_ITER_failed), "results are delivered by position"); VF_REACH("later"); }
#endif
#elif MODE == 8
    any(&g_par, NULL); any(&g_c, &g_par); any(&g_f, &g_c);
    g_c.deps.lh_first = vf_bool() ? &g_f : NULL;
    s_c = g_c; s_par = g_par;
    VF_CHECK(metac_recursive_iterator_get_state(&it) == g_c.state && metac_recursive_iterator_get_context(&it) == g_c.p_context, "state and context of the current task");
    int op = (int)vf_range(0, 4), end = metac_r_iter_state_is_end(g_c.state);
    int st = anystate(); void *x = anyp();
    if (op == 0) {
        VF_CHECK(metac_recursive_iterator_set_context(&it, x) == x && metac_recursive_iterator_get_context(&it) == x, "context is kept"); s_c.p_context = x;
        VF_REACH("context");
    } else if (op == 1 && !end) {
        void *r = metac_recursive_iterator_set_state(&it, st);
        if (st == METAC_R_ITER_error) VF_CHECK(r == NULL, "the error state cannot be set");
        else { VF_CHECK(r == &it && metac_recursive_iterator_get_state(&it) == st, "state is kept"); s_c.state = st; }
        VF_REACH("state");
    } else if (op == 2 && !end) {
        VF_CHECK(metac_recursive_iterator_fail(&it) == &it && metac_recursive_iterator_get_state(&it) == METAC_R_ITER_failed, "a task can fail"); s_c.state = METAC_R_ITER_failed;
        VF_REACH("fail");
    } else if (op == 3 && !end) {
        VF_CHECK(metac_recursive_iterator_done(&it, x) == &it && metac_recursive_iterator_get_state(&it) == METAC_R_ITER_done, "a task can finish"); s_c.state = METAC_R_ITER_done; s_c.p_out = x;
        VF_REACH("done");
    } else if (op == 4 && end) {
        void *in = g_obj; int fail = 7;
        VF_CHECK(metac_recursive_iterator_get_out(&it, &in, &fail) == g_c.p_out && in == g_c.p_in && fail == (g_c.state == METAC_R_ITER_failed), "the final result");
        VF_CHECK(metac_recursive_iterator_get_out(&it, NULL, NULL) == g_c.p_out, "the final result");
        VF_REACH("result");
    }
    VF_CHECK(same(&g_c, &s_c) && same(&g_par, &s_par), "nothing else changes");
    VF_CHECK(metac_recursive_iterator_get_state(NULL) == METAC_R_ITER_error && metac_recursive_iterator_get_context(NULL) == NULL && metac_recursive_iterator_set_context(NULL, x) == NULL && metac_recursive_iterator_set_state(NULL, 1) == NULL &&
        metac_recursive_iterator_fail(NULL) == NULL && metac_recursive_iterator_done(NULL, x) == NULL && metac_recursive_iterator_get_out(NULL, NULL, NULL) == NULL && metac_recursive_iterator_dequeue_and_delete_dep(NULL, NULL, NULL) == NULL &&
        metac_recursive_iterator_create_and_append_dep(NULL, x) < 0 && metac_recursive_iterator_get_dep_out(NULL, 0, NULL, NULL) == NULL, "no iterator");
    void *in0 = anyp();
    metac_recursive_iterator_t *nit = metac_new_recursive_iterator(in0);
    VF_ASSUME(nit != NULL);
    VF_CHECK(nit->p_current == &nit->recursive_iterator_entry && nit->p_in == in0 && nit->state == METAC_R_ITER_start && nit->p_parent == NULL && nit->deps.lh_first == NULL && nit->p_context == NULL && nit->p_out == NULL, "a new iterator starts at its task");
    metac_recursive_iterator_free(nit);
#endif
}
#else
#include "metac/backend/iterator.h"
#ifdef FAILS         /* allocations fail now and then */
#include "memw.h"
#define ARM (mw_count = 0, mw_failed = 0, mw_fail_at = (long)vf_range(0, 6))
#define DISARM mw_fail_at = 0
#define FAILED mw_failed
#else
#define ARM (void)0
#define DISARM (void)0
#define FAILED 0
#endif
/* reference model: tasks with ordered child queues */
#define MAXT 64
static char tok[MAXT * 2 + 2];
static struct { int parent, state, nch, ch[MAXT]; void *in, *out, *ctx; } T[MAXT];
static int nt, cur;
static int isend(int s) { return s == -2 || s == -3; }
static int m_next(void) {          /* returns 1 if a task is handed out */
    for (;;) {
        if (isend(T[cur].state)) { if (T[cur].parent < 0) return 0; cur = T[cur].parent; continue; }
        int k; for (k = 0; k < T[cur].nch && isend(T[T[cur].ch[k]].state); ++k) ;
        if (k == T[cur].nch) return 1;
        cur = T[cur].ch[k];
    }
}
static void *out_tok(void) { return vf_range(0, 3) ? (void *)(tok + vf_range(0, MAXT)) : NULL; }
static void newt(int parent, void *in) { T[nt].parent = parent; T[nt].state = 0; T[nt].nch = 0; T[nt].in = in; T[nt].out = T[nt].ctx = NULL; nt++; }
#ifndef STEPS
#define STEPS 120
#endif
void harness(void) {
    nt = 0; cur = 0;
    newt(-1, tok);
#ifdef FAILS
    mw_begin(0); ARM;
#endif
    metac_recursive_iterator_t *it = metac_new_recursive_iterator(tok);
    DISARM;
#ifdef FAILS
    if (it == NULL) { VF_CHECK(mw_failed && mw_live == 0, "no leak"); mw_end(); return; }
#endif
    VF_ASSUME(it != NULL);
    int steps = (int)vf_range(1, STEPS), grow = (int)vf_range(1, 12);
    for (int s = 0; ; ++s) {
        int c = cur, end = isend(T[c].state), wind = s >= steps;
        int op = (int)vf_range(0, 10 + grow);
        if (wind) op = end || T[c].nch == 0 ? (end ? 0 : 1) : isend(T[T[c].ch[0]].state) ? 4 : 0;
        switch (op) {
        case 0: {
            void *r = metac_recursive_iterator_next(it);
            int ok = m_next();
            VF_CHECK(r == (ok ? T[cur].in : NULL), "next hands out the first unfinished task whose sub-tasks are all finished");
            if (!ok) goto done;
            break; }
        case 1: if (!end && T[c].nch == 0) { void *o = out_tok(); metac_recursive_iterator_done(it, o); T[c].state = -2; T[c].out = o; } break;
        case 2: if (!end && T[c].nch == 0) { metac_recursive_iterator_fail(it); T[c].state = -3; } break;
        case 3: if (!end) { int st = (int)vf_range(0, 5); metac_recursive_iterator_set_state(it, st); T[c].state = st; } break;
        case 4: if (T[c].nch == 0 || isend(T[T[c].ch[0]].state)) {
            void *in = &nt; int f = 9;
            void *r = metac_recursive_iterator_dequeue_and_delete_dep(it, &in, &f);
            if (T[c].nch == 0) VF_CHECK(r == NULL && in == &nt && f == 9, "an empty queue yields nothing");
            else {
                int d = T[c].ch[0];
                VF_CHECK(r == T[d].out && in == T[d].in && f == (T[d].state == -3), "results come in request order");
                for (int k = 1; k < T[c].nch; ++k) T[c].ch[k - 1] = T[c].ch[k];
                T[c].nch--;
            } } break;
        case 5: { void *x = out_tok(); metac_recursive_iterator_set_context(it, x); T[c].ctx = x; } break;
        case 6: { int i = (int)vf_range(0, T[c].nch); void *in = &nt; int f = 9;
            if (i < T[c].nch && !isend(T[T[c].ch[i]].state)) break;
            void *r = metac_recursive_iterator_get_dep_out(it, i, &in, &f);
            if (i >= T[c].nch) VF_CHECK(r == NULL && in == &nt && f == 9, "no such sub-task");
            else { int d = T[c].ch[i]; VF_CHECK(r == T[d].out && in == T[d].in && f == (T[d].state == -3), "results are delivered by position"); } } break;
        default: if (!end && nt < MAXT) { void *in = tok + nt; ARM; int r = metac_recursive_iterator_create_and_append_dep(it, in); DISARM; if (r != 0 && FAILED) break; VF_CHECK(r == 0, "a sub-task is accepted"); T[c].ch[T[c].nch++] = nt; newt(c, in); } break;
        }
        int lv = 0; for (int k = cur; T[k].parent >= 0; k = T[k].parent) lv++;
        VF_CHECK(metac_recursive_iterator_level(it) == lv, "level is the depth of the current task");
        VF_CHECK(metac_recursive_iterator_dep_queue_size(it) == T[cur].nch && !metac_recursive_iterator_dep_queue_is_empty(it) == (T[cur].nch != 0), "queue size");
        VF_CHECK(metac_recursive_iterator_get_state(it) == T[cur].state && metac_recursive_iterator_get_context(it) == T[cur].ctx, "state and context belong to the current task");
        int q = (int)vf_srange(-1, lv + 1), k = cur; void *want = NULL;
        if (q >= 0 && q <= lv) { for (int z = 0; z < q; ++z) k = T[k].parent; want = T[k].in; }
        VF_CHECK(metac_recursive_iterator_get_in(it, q) == want, "inputs on the path to the root");
    }
done:;
    void *in = &nt; int f = 9;
    VF_CHECK(metac_recursive_iterator_get_out(it, &in, &f) == T[0].out && in == T[0].in && f == (T[0].state == -3), "the walk ends with the result of the first task");
    VF_REACH("end");
    metac_recursive_iterator_free(it);
#ifdef FAILS
    VF_CHECK(mw_live == 0, "no leak"); mw_end();
#endif
}
#endif
