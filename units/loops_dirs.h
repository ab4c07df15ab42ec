#include <dirent.h>
extern int vp_dir_inv(const void *), vp_dir_any(void), vp_find_inv(const void *); extern void vp_find_any(void); extern struct dirent *vp_dir_ent(void);
#define VERIF_LOOP_encrypt_dir VP_LOOP(encrypt_dir, vp_dir_inv(dir) && result == 1, { vp_dir_any(); dir = vp_dir_ent(); result = 1; })
#define VERIF_LOOP_zip_dir VP_LOOP(zip_dir, vp_dir_inv(dir) && result == 1, { int s_; vp_dir_any(); dir = vp_dir_ent(); result = 1; status = s_; })
#define VERIF_LOOP_copy_dir VP_LOOP(copy_dir, vp_dir_inv(dir) && result == 1, { vp_dir_any(); dir = vp_dir_ent(); result = 1; })
#define VERIF_LOOP_remove_dir VP_LOOP(remove_dir, vp_dir_inv(dirEntry) && status == 0, { size_t l_; char *n_; struct stat s_; vp_dir_any(); dirEntry = vp_dir_ent(); status = 0; len = l_; newPath = n_; statbuf = s_; })
#define VERIF_LOOP_find_file VP_LOOP(find_file, vp_find_inv(dir), { size_t l_; int r_; vp_find_any(); dir = vp_dir_ent(); path_len = l_; result = r_; })
