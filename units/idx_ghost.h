int vf_hv_idx(void);
int vf_inv_idx(int i);
