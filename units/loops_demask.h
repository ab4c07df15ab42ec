#include <stddef.h>
extern const char *g_rel; extern size_t g_n, g_L, g_k; int path_facts(size_t i);
/* path holds the first i bytes of the path (at any position g_k); last_slash_index is the last separator seen */
#define VERIF_LOOP_demask_path VP_LOOP(demask_path, i >= 0 && i < MLLE_LONG_FILE_NAME_MAX && (size_t)i < g_n && last_slash_index >= 0 && last_slash_index <= i && (last_slash_index < i || i == 0) && (((size_t)i > g_L || g_L == 0) ? (size_t)last_slash_index == g_L : 1) && (g_k >= (size_t)i || path[g_k] == rel_file_path[g_k]), \
    { int i_, l_; char c_; i = i_; last_slash_index = l_; ch = c_; __CPROVER_havoc_object(path); __CPROVER_assume(i >= 0 && (size_t)i < g_n && path_facts(i) && path_facts((size_t)i + 1)); })
#define VERIF_LOOP_mask_path VP_LOOP(mask_path, i >= 0 && i < MLLE_LONG_FILE_NAME_MAX && (size_t)i < g_n && last_slash_index >= 0 && last_slash_index <= i && (last_slash_index < i || i == 0) && (((size_t)i > g_L || g_L == 0) ? (size_t)last_slash_index == g_L : 1) && (g_k >= (size_t)i || path[g_k] == rel_file_path[g_k]) && (i == 0 || path[0] == rel_file_path[0]), \
    { int i_, l_; char c_; i = i_; last_slash_index = l_; ch = c_; __CPROVER_havoc_object(path); __CPROVER_assume(i >= 0 && (size_t)i < g_n && path_facts(i) && path_facts((size_t)i + 1)); })
