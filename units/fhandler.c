/* C11: the handler that captures the variable part of a printf-like call, for any call, format and outcome of the capture.
 * Assumed: the iterator's level and path (C07), lookup of a stored parameter (C12), the capture itself (the other C11 units). */
#include "ent.h"
#include <stdarg.h>
#include "metac/backend/value.h"
#include "metac/backend/iterator.h"
#include "metac/backend/printf_format.h"
#include "metac/reflect/entry_tag.h"
#include "metac/reflect/value.h"
static metac_entry_t t_int, t_char, t_pchar, t_cc, t_cpc, ps[4], f;
static metac_value_t *g_val, *g_item, *g_ret;
static int g_lev, g_id, g_res, g_calls, g_live, g_missing, g_isptr;
static char g_mem[16], *g_fmt; static long g_st[4], g_st2[4];
static struct va_list_container g_cntr;
int metac_recursive_iterator_level(metac_recursive_iterator_t *p) { return g_lev; }
void *metac_recursive_iterator_get_in(metac_recursive_iterator_t *p, int l) { return l == 0 && g_lev >= 0 ? (void *)g_val : NULL; }
metac_value_t *metac_parameter_storage_new_param_value(metac_parameter_storage_t *p, metac_num_t id) {
    VF_CHECK((void *)p == (void *)g_st, "parameters of the call are looked up");
    VF_CHECK(id == g_id - 1, "the format is the parameter before the variable part");
    if (g_missing || id < 0) return NULL;
    ++g_live;
    return g_item;
}
/* the looked-up value belongs to the handler until it deletes it */
void metac_value_delete(metac_value_t *v) { VF_CHECK(v == g_item && g_live == 1, "only the looked-up value is released, once"); --g_live; }
int metac_store_vprintf_params(metac_parameter_storage_t *p, const char *fm, va_list l) {
    ++g_calls;
    VF_CHECK((void *)p == (void *)g_st2, "the arguments go to the storage of the request");
    VF_CHECK(fm == g_fmt, "the format is the one passed to the call");
    VF_CHECK((void *)l == (void *)g_cntr.parameters, "the arguments come from the list of the request");
    return g_res;
}
void harness(void) {
    metac_entry_t a = VF_BASE("int", METAC_ENC_signed, 4), b = VF_BASE("char", METAC_ENC_signed_char, 1); t_int = a; t_char = b;
    metac_entry_t pc = VF_PTR(&t_char), q = VF_QUAL(METAC_KND_const_type, &t_char), pq = VF_PTR(&t_cc); t_pchar = pc; t_cc = q; t_cpc = pq;
    g_isptr = vf_bool(); g_missing = vf_bool(); g_fmt = vf_bool() ? g_mem : NULL; g_res = vf_bool() ? 0 : (int)vf_srange(-200, 200); g_lev = (int)vf_srange(-1, 3);
    int n = (int)vf_range(1, 4); g_id = (int)vf_range(0, 3); VF_ASSUME(g_id < n);
    for (int i = 0; i < 4; ++i) { metac_entry_t x = VF_PARAM("p", &t_int), u = {.kind = METAC_KND_func_parameter, .func_parameter_info = {.unspecified_parameters = 1}}; ps[i] = i == g_id ? u : x; }
    metac_entry_t fm = VF_PARAM("format", vf_bool() ? &t_pchar : &t_cpc); if (g_id > 0 && g_isptr) ps[g_id - 1] = fm;
    metac_entry_t fn = VF_FUNC(METAC_KND_subprogram, "f", NULL, n, ps); f = fn;
    int num = 5; void *slot = g_fmt;
    g_val = metac_new_value(&f, g_st); g_item = metac_new_value(g_id > 0 ? &ps[g_id - 1] : &ps[0], g_isptr ? (void *)&slot : (void *)&num); g_ret = metac_new_value(&ps[g_id], g_st2);
    VF_ASSUME(g_val && g_item && g_ret);
    int ty = (int)vf_range(0, 5), noc = vf_bool();
    metac_value_event_t ev = {.type = ty, .p_return_value = g_ret, .va_list_param_id = g_id, .p_va_list_container = noc ? NULL : &g_cntr};
    int r = metac_value_event_handler_call(metac_handle_printf_format, (metac_recursive_iterator_t *)&g_lev, &ev, NULL);
    int ok = ty == METAC_RQVST_va_list && !noc && g_lev >= 0 && !g_missing && g_id > 0 && g_isptr && g_fmt;
    VF_CHECK(g_live == 0, "the looked-up value is released");
    VF_CHECK(g_calls == ok, "the arguments are captured once, when there is a format");
    VF_CHECK(ok ? r == g_res : r != 0, "the outcome is the one of the capture; anything else is refused");
    if (ok) { VF_REACH("captured"); } else { VF_REACH("refused"); }
    VF_CHECK(metac_handle_printf_format(NULL, NULL, NULL) != 0, "no request");
}
