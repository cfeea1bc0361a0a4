#ifndef CHAIN_GHOST_H_
#define CHAIN_GHOST_H_
#include <stdint.h>
#include "metac/reflect.h"
metac_entry_t *vf_hv_entry(void);
metac_quals_t vf_hv_quals(void);
int vf_inv(metac_entry_t *cur, uint64_t acc);
#endif
