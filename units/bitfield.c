/* C02: bit-field read/write.  Variants: -DT=<c type> -DGET=/-DSET=<accessor> -DNAME="<dwarf name>" -DENC=<encoding> -DSGN=0/1
 *      -DMODE_SET for the writer.
 * Specification (bit-exact): the field occupies the bits [D, D+S) counted from the start of the
 * structure, little-endian; D is data_bit_offset (DWARF4) or (byte_offset+byte_size)*8-(bit_offset+S) (DWARF3).
 */
#include "vf.h"
#include "metac/reflect.h"
#include "metac/backend/entry.h"

#ifndef NB
#define NB 24
#endif

/* ghost description of the field under test */
uint8_t g_mem[NB], g_old[NB];
uint64_t g_D, g_S;          /* field position and width in bits, from g_base */
uint64_t g_base;            /* structure start inside g_mem */
uint64_t g_k;               /* Skolem bit index */
int g_const, g_match, g_sgn;   /* const-qualified?  accessor matches? */
T g_out, g_out0;
metac_value_t *g_val;

static int bit_of(const uint8_t *m, uint64_t b) { return (m[b / 8] >> (b % 8)) & 1; }

#ifndef MODE_SET
static int post_get(int r, T *p) {
    if (!g_match) return r != 0 && *p == g_out0;
    if (r != 0) return 0;
    uint64_t v = (uint64_t)*p;
    int got = (v >> g_k) & 1;
    if (g_k < g_S) return got == bit_of(g_old, 8 * g_base + g_D + g_k);
    return got == (g_sgn ? bit_of(g_old, 8 * g_base + g_D + g_S - 1) : 0);
}
int GET(metac_value_t *p_val, T *p_var)
VF_REQUIRES(p_val == g_val && p_var == &g_out)
VF_ENSURES(post_get(VF_RET, p_var))
VF_ASSIGNS(g_out)
;
#else
static int post_set(int r, T v) {
    int now = bit_of(g_mem, g_k), was = bit_of(g_old, g_k);
    if (!g_match || g_const) return r != 0 && now == was;
    if (r != 0) return 0;
    uint64_t lo = 8 * g_base + g_D;
    if (g_k >= lo && g_k < lo + g_S) return now == (int)(((uint64_t)v >> (g_k - lo)) & 1);
    return now == was;
}
int SET(metac_value_t *p_val, T var)
VF_REQUIRES(p_val == g_val)
VF_ENSURES(post_set(VF_RET, VF_OLD(var)))
VF_ASSIGNS(__CPROVER_object_whole(g_mem))
;
#endif

void harness(void) {
    vf_bytes(g_mem, NB);
    memcpy(g_old, g_mem, NB);

    /* a non-matching accessor: same type with another width/encoding/name */
    uint64_t sz = vf_range(0, 16), enc = vf_range(0, 255);
    int othername = vf_bool();
    g_match = !othername && (enc == METAC_ENC_undefined || enc == ENC ALT_ENC) && (sz == 0 || sz == sizeof(T));
    g_sgn = SGN && enc != METAC_ENC_unsigned_char;
    metac_entry_t base = {.kind = METAC_KND_base_type, .name = othername ? "other type" : NAME,
        .base_type_info = {.byte_size = sz, .encoding = (metac_encoding_t)enc}};
    metac_entry_t cst = {.kind = METAC_KND_const_type, .qual_type_info = {.type = &base}};
    metac_entry_t tdef = {.kind = METAC_KND_typedef, .name = "td", .typedef_info = {.type = &base}};
    g_const = vf_bool();
    int td = vf_bool();
    if (g_const) tdef.typedef_info.type = &cst;

    uint64_t W8 = 8 * sizeof(T);
    g_S = vf_range(1, W8);
    g_base = vf_range(0, NB);
    uint64_t B = vf_range(0, NB);            /* byte offset of the declared location */
    metac_size_t dw_size = sizeof(T);
    metac_offset_t dw_bit = 0;
    metac_size_t dw_S = g_S;
    const int dw3 = (DW == 3), has_size = (DW == 5);   /* DW4/DW5: data_bit_offset without/with the storage size */
    if (dw3) {      /* DWARF 3: offset from the most significant bit of the storage unit */
        dw_bit = vf_range(0, W8 - 1);
        VF_ASSUME(dw_bit + g_S <= W8);
        g_D = (B + sizeof(T)) * 8 - (dw_bit + g_S);
    } else {        /* DWARF 4+: offset from the start of the structure, any alignment (packed too) */
        g_D = vf_range(0, 8 * NB);
        dw_bit = g_D;
    }
    metac_entry_t memb = {.kind = METAC_KND_member, .name = "f", .member_info = {
        .type = td ? &tdef : g_const ? &cst : &base,
        .byte_offset = B,
        .p_bit_size = &dw_S,
        .p_bit_offset = dw3 ? &dw_bit : NULL,
        .p_data_bit_offset = dw3 ? NULL : &dw_bit,
        .p_byte_size = (dw3 || has_size) ? &dw_size : NULL,
    }};
    VF_ASSUME(8 * g_base + g_D + g_S <= 8 * NB);
    VF_ASSUME(g_base + B <= NB);

    g_val = metac_new_value(&memb, g_mem + g_base + B);
    VF_ASSUME(g_val != NULL);
#ifndef MODE_SET
    g_k = vf_range(0, W8 - 1);
    vf_bytes(&g_out, sizeof(T));
    g_out0 = g_out;
    int r = GET(g_val, &g_out);
    VF_CHECK(post_get(r, &g_out), "bit-field read returns exactly the field's bits, sign/zero extended, or refuses a wrong type");
    VF_CHECK(memcmp(g_mem, g_old, NB) == 0, "bit-field read leaves the structure alone");
    if (r == 0) { VF_REACH("read ok"); } else { VF_REACH("read refused"); }
#else
    T v; vf_bytes(&v, sizeof(T));
    g_k = vf_range(0, 8 * NB - 1);
    int r = SET(g_val, v);
    VF_CHECK(post_set(r, v), "bit-field write changes exactly the field's bits, or refuses and changes nothing");
    if (r == 0) { VF_REACH("write ok"); } else { VF_REACH("write refused"); }
#endif
    metac_value_delete(g_val);
}
