#include <stddef.h>
#include "mlle_lve.h"
extern int vp_alloc_failed, g_reply_due, g_ended, g_validated, g_parsed; extern enum mlle_lve_state g_state; extern char *g_msg; extern size_t g_len, g_k;
char *vp_fresh(size_t n);
/* a message of g_len bytes is at hand and still unanswered; the state is the automaton's */
#define VERIF_LOOP_lve_receive VP_LOOP(lve_receive, g_reply_due == 1 && !g_ended && g_validated && g_parsed == 0 && vp_alloc_failed == 0 && bytesRead > 0 && bytesRead <= (1 << 30) && (size_t)bytesRead == g_len && messageBuffer == g_msg && g_k < g_len \
      && __CPROVER_rw_ok(messageBuffer, g_len) && __CPROVER_POINTER_OFFSET(messageBuffer) == 0 && state == g_state && state >= 1 && state <= 4, \
    { int b_; bytesRead = b_; __CPROVER_assume(bytesRead > 0); size_t l_; g_len = l_; size_t k_; g_k = k_; g_len = (size_t)bytesRead; messageBuffer = g_msg = vp_fresh(g_len); enum mlle_lve_state s_; state = s_; g_state = s_; \
      struct mlle_command c_; command = c_; command.data = NULL; enum mlle_grammar_error_t ge_; grammar_error = ge_; __CPROVER_havoc_object(error_msg); int e_; errorCode = e_; tokenBuffer = NULL; g_parsed = 0; vp_alloc_failed = 0; })
