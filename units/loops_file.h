#include <stddef.h>
extern char *g_rel; extern size_t g_rn, g_p; extern int g_has; int elem_start(size_t i); int parent_fact(size_t i);
/* path is the start of an element, not beyond the first '..' element */
#define VERIF_LOOP_parent_element VP_LOOP(parent_element, __CPROVER_same_object(path, g_rel) && (size_t)(path - g_rel) < g_rn && path >= g_rel && elem_start((size_t)(path - g_rel)) && (!g_has || (size_t)(path - g_rel) <= g_p), \
    { size_t o_; __CPROVER_assume(o_ < g_rn); path = g_rel + o_; __CPROVER_assume(*path != 0 && parent_fact(o_)); })
