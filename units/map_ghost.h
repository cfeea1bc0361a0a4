int vf_inv_ent(void *p);
void *vf_hv_ent(void);
int vf_inv_ent2(void *p);
void *vf_hv_ent2(void);
int vf_inv_link(void *p);
void *vf_hv_link(void);
int vf_inv_i(unsigned long i);
unsigned long vf_hv_i(void);
