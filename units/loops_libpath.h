#include <stddef.h>
extern char *g_data; extern size_t g_n, g_t, g_k; int trim_fact(size_t i);
/* bytes g_t..path_size of the path are separators; what is kept is still the path's text */
#define VERIF_LOOP_trim_slash VP_LOOP(trim_slash, path_size > g_t && path_size <= g_n && last == lve_ctx->libpath[path_size - 1] && (last == '/' || last == '\\') && lve_ctx->libpath[path_size] == 0 && (g_k >= path_size || lve_ctx->libpath[g_k] == g_data[g_k]), \
    { size_t p_; path_size = p_; __CPROVER_assume(path_size > g_t && path_size <= g_n); __CPROVER_havoc_object(lve_ctx->libpath); \
      __CPROVER_assume(trim_fact(path_size - 1) && trim_fact(path_size - 2) && lve_ctx->libpath[path_size - 1] == g_data[path_size - 1] && (path_size < 2 || lve_ctx->libpath[path_size - 2] == g_data[path_size - 2])); \
      last = lve_ctx->libpath[path_size - 1]; })
