int vf_inv_loop(int l);
