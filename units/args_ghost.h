int vf_inv_look(void *p, int cur);
void *vf_hv_look(void);
int vf_inv_copy(void *p);
void *vf_hv_node(void);
void vf_hv_dst(void);
int vf_inv_clean(void);
void vf_hv_clean(void);
