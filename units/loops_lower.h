extern int vp_lower_inv(const char *, int), vp_lower_any(char *);
#define VERIF_LOOP_lower VP_LOOP(lower, vp_lower_inv(str, i), { i = vp_lower_any(str); })
#include <stddef.h>
extern char *g_data, *g_path; extern size_t g_n, g_t, g_k; int trim_fact(size_t i);
/* bytes g_t..path_size of the path are separators; what is kept is still the path's text */
#define VERIF_LOOP_trim_path VP_LOOP(trim_path, path == g_path && path_size > g_t && path_size <= g_n && last == path[path_size - 1] && (last == '/' || last == '\\') && path[path_size] == 0 && (g_k >= path_size || path[g_k] == g_data[g_k]), \
    { size_t p_; path_size = p_; __CPROVER_assume(path_size > g_t && path_size <= g_n); __CPROVER_havoc_object(path); \
      __CPROVER_assume(trim_fact(path_size - 1) && trim_fact(path_size - 2) && path[path_size - 1] == g_data[path_size - 1] && (path_size < 2 || path[path_size - 2] == g_data[path_size - 2])); \
      last = path[path_size - 1]; })
