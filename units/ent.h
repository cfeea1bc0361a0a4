/* Builders for type-description entries.
 * In the verified text every arm of the entry's union has its own storage (see vfrun.Ctx); the real
 * union overlays them.  VF_T0(t) therefore fills every arm whose first field is the "type" link, so
 * code that reads the link through another arm sees what it would see in the overlay.  The arm that
 * belongs to the entry's kind is always initialised last, which is the one that counts natively. */
#ifndef VF_ENT_H_
#define VF_ENT_H_
#include "vf.h"
#include "metac/reflect.h"
#include "metac/backend/entry.h"
#ifdef VF_CBMC
#define VF_T0(t) .typedef_info = {.type = (t)}, .qual_type_info = {.type = (t)}, .variable_info = {.type = (t)}, .member_info = {.type = (t)},
#else
#define VF_T0(t)
#endif
#ifdef VF_CBMC
#define VF_FUNC(k, n, t, cnt, ps) {.kind = (k), .name = (n), .subroutine_type_info = {.type = (t), .parameters_count = (cnt), .parameters = (ps)}, .subprogram_info = {.type = (t), .parameters_count = (cnt), .parameters = (ps)}}
#else
#define VF_FUNC(k, n, t, cnt, ps) {.kind = (k), .name = (n), .subprogram_info = {.type = (t), .parameters_count = (cnt), .parameters = (ps)}}
#endif
#define VF_QUAL(k, t)   {.kind = (k), VF_T0(t) .qual_type_info = {.type = (t)}}
#define VF_TYPEDEF(n, t) {.kind = METAC_KND_typedef, .name = (n), VF_T0(t) .typedef_info = {.type = (t)}}
#define VF_VAR(n, t)    {.kind = METAC_KND_variable, .name = (n), VF_T0(t) .variable_info = {.type = (t)}}
#define VF_PARAM(n, t)  {.kind = METAC_KND_func_parameter, .name = (n), .func_parameter_info = {.type = (t)}}
#define VF_BASE(n, e, s) {.kind = METAC_KND_base_type, .name = (n), .base_type_info = {.byte_size = (s), .encoding = (e)}}
#define VF_PTR(t)       {.kind = METAC_KND_pointer_type, .pointer_type_info = {.byte_size = sizeof(void *), .type = (t)}}
#define VF_ARR(t, c)    {.kind = METAC_KND_array_type, VF_T0(t) .array_type_info = {.type = (t), .count = (c)}}
#define VF_MEMBER(n, t, off) {.kind = METAC_KND_member, .name = (n), VF_T0(t) .member_info = {.type = (t), .byte_offset = (off)}}
#define VF_STRUCT(k, n, sz, cnt, ms) {.kind = (k), .name = (n), .structure_type_info = {.byte_size = (sz), .members_count = (cnt), .members = (ms)}}
#endif
