#include <stddef.h>
extern size_t g_lead, g_blen; extern char *g_buf;
int extract_fact(size_t i);
/* every byte before g_lead is a newline, byte g_lead is not; the definition of
 * g_lead is instantiated at the current and the next position */
#define VERIF_LOOP_skip_empty_lines VP_LOOP(skip_empty_lines, line_start < g_lead, \
    { size_t h_; line_start = h_; __CPROVER_assume(line_start < g_lead && extract_fact(line_start) && extract_fact(line_start + 1)); })
