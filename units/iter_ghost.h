int vf_inv_climb(void *p, int level);
void *vf_hv_climb(void);
int vf_inv_scan(void *p);
void *vf_hv_scan(void);
int vf_inv_next(void);
void vf_hv_next(void);
int vf_inv_pos(void *p, int i);
