int vf_hv_idx(void);
int vf_inv_tag(int i, void *fe);
void *vf_hv_fin(void);
