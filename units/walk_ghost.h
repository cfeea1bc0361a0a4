/* The iterator by the contract C07 checks, seen from one task: the task is handed out until it finishes, each time in the
 * state it was left in and with the results of the sub-tasks it asked for; other tasks of the walk do not interfere.
 * NT tasks are handed out one after the other; every task of every walk goes through exactly such a life. */
#ifndef VF_WALK_GHOST_H_
#define VF_WALK_GHOST_H_
#ifndef MAXREQ
#define MAXREQ 4
#endif
#ifndef MAXHAND
#define MAXHAND 3
#endif
struct task { void *in; int state; void *ctx; int nreq, taken; void *req[MAXREQ], *res[MAXREQ]; int rfail[MAXREQ]; int ended, failed; void *out; int hands, refused; };
static struct task T[NT];
static int w_cur, w_hand, w_over; static void *w_root; static int w_rootfail, w_freed, w_none; static void *w_rootout;
static int w_appends, w_failat;                        /* the w_failat-th append runs out of memory (0: none) */
static void w_request(struct task *t, void *in);       /* obligation: this sub-task may be asked for now */
static void w_result(struct task *t, int i);           /* ghost: what the sub-task delivers */
static void w_init(void) { memset(T, 0, sizeof(T)); w_cur = 0; w_hand = 0; w_over = 0; w_root = NULL; w_freed = 0; w_appends = 0; w_failat = 0; w_none = 0; w_rootfail = 0; w_rootout = NULL; }
static char w_it;
#define IT(p) VF_CHECK((void *)(p) == (void *)&w_it, "the walk uses its own iterator")
metac_recursive_iterator_t *metac_new_recursive_iterator(void *in) { w_root = in; return w_none ? NULL : (metac_recursive_iterator_t *)&w_it; }
void *metac_recursive_iterator_next(metac_recursive_iterator_t *p) {
    if (p == NULL) return NULL;
    IT(p);
    ++w_hand;                                           /* the first NT - 1 tasks finish at once, the last one within MAXHAND */
    if (w_hand > 1) {
        struct task *t = &T[w_cur];
        if (w_hand <= NT) VF_CHECK(t->ended, "a task without parts finishes at once");
        else if (w_hand <= NT + MAXHAND) {
            if (t->ended) w_over = 1;
            else VF_CHECK(t->nreq > 0 || t->state != 0, "a task that is not finished makes progress");
        }
    }
    w_cur = w_hand <= NT ? w_hand - 1 : NT - 1;
    if (w_hand >= NT + MAXHAND) { if (!w_over) VF_CHECK(0, "a task finishes"); w_over = 1; return NULL; }
    if (w_over) return NULL;
    ++T[w_cur].hands;
    return T[w_cur].in;
}
metac_r_iter_state_t metac_recursive_iterator_get_state(metac_recursive_iterator_t *p) { IT(p); return T[w_cur].state; }
metac_recursive_iterator_t *metac_recursive_iterator_set_state(metac_recursive_iterator_t *p, metac_r_iter_state_t s) { IT(p); VF_CHECK(!T[w_cur].ended, "a finished task stays finished"); T[w_cur].state = s; return p; }
void *metac_recursive_iterator_get_context(metac_recursive_iterator_t *p) { IT(p); return T[w_cur].ctx; }
void *metac_recursive_iterator_set_context(metac_recursive_iterator_t *p, void *c) { IT(p); T[w_cur].ctx = c; return c; }
int metac_recursive_iterator_create_and_append_dep(metac_recursive_iterator_t *p, void *in) {
    IT(p);
    struct task *t = &T[w_cur];
    VF_CHECK(!t->ended, "no sub-tasks of a finished task");
    if (++w_appends == w_failat) { ++t->refused; return -(ENOMEM); }
    VF_CHECK(t->nreq < MAXREQ, "no more sub-tasks than parts");
    w_request(t, in);
    if (t->nreq < MAXREQ) { t->req[t->nreq] = in; w_result(t, t->nreq); ++t->nreq; }
    return 0;
}
int metac_recursive_iterator_dep_queue_is_empty(metac_recursive_iterator_t *p) { IT(p); return T[w_cur].taken == T[w_cur].nreq; }
int metac_recursive_iterator_dep_queue_size(metac_recursive_iterator_t *p) { IT(p); return T[w_cur].nreq - T[w_cur].taken; }
static int w_sz(struct task *t) { VF_CHECK(t->hands > 1, "results are taken only after the sub-tasks were worked on"); return t->nreq - t->taken; }
void *metac_recursive_iterator_dequeue_and_delete_dep(metac_recursive_iterator_t *p, void **in, int *fail) {
    IT(p);
    struct task *t = &T[w_cur];
    if (w_sz(t) == 0) return NULL;
    int i = t->taken++;
    if (in) *in = t->req[i];
    if (fail) *fail = t->rfail[i];
    return t->res[i];
}
void *metac_recursive_iterator_get_dep_out(metac_recursive_iterator_t *p, int i, void **in, int *fail) {
    IT(p);
    struct task *t = &T[w_cur];
    if (i < 0 || i >= w_sz(t)) return NULL;
    i += t->taken;
    if (in) *in = t->req[i];
    if (fail) *fail = t->rfail[i];
    return t->res[i];
}
static void w_end(metac_recursive_iterator_t *p, int failed, void *out) {
    IT(p);
    struct task *t = &T[w_cur];
    VF_CHECK(!t->ended, "a task finishes once");
    VF_CHECK(t->taken == t->nreq, "a task takes the results of all its sub-tasks");
    t->ended = 1; t->failed = failed; t->out = out;
}
metac_recursive_iterator_t *metac_recursive_iterator_done(metac_recursive_iterator_t *p, void *out) { w_end(p, 0, out); return p; }
metac_recursive_iterator_t *metac_recursive_iterator_fail(metac_recursive_iterator_t *p) { w_end(p, 1, NULL); return p; }
void *metac_recursive_iterator_get_out(metac_recursive_iterator_t *p, void **in, int *fail) {
    if (p == NULL) return NULL;
    IT(p);
    VF_CHECK(w_over, "the walk is finished");
#ifdef W_ROOT_IS_TASK
    w_rootfail = T[0].failed;
#endif
    if (in) *in = w_root;
    if (fail) *fail = w_rootfail;
    return w_rootfail ? NULL : w_rootout;
}
void metac_recursive_iterator_free(metac_recursive_iterator_t *p) { if (p) { IT(p); ++w_freed; } }
#endif
