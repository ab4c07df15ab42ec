extern int vp_args_inv(int), vp_args_any(void);
#define VERIF_LOOP_args VP_LOOP(args, vp_args_inv(i), { i = vp_args_any(); char *p_; ptr = p_; })
