#include <stddef.h>
extern size_t g_total, g_k, g_w, g_ann, g_mlen; extern char g_exp, *g_msg; extern int g_live, g_fail, g_nread, g_parsed, g_err, g_extracted, g_id; extern long g_number; char *vp_fresh(size_t n);
/* the first totalBytesRead payload bytes have arrived and are in place; every message so far is released */
#define VERIF_LOOP_read_more VP_LOOP(read_more, totalBytesRead == g_total && g_total < g_ann && command->length == g_ann && (int)command->id == g_id && command->number == g_number && command->data != NULL && __CPROVER_rw_ok(command->data, g_ann + 1) \
      && __CPROVER_POINTER_OFFSET(command->data) == 0 && command->data[g_ann] == 0 && (g_k >= g_total || command->data[g_k] == g_exp) && messageBuffer == NULL && !g_live && !g_fail && !g_err && g_extracted == 1 && g_parsed && g_nread >= 1 && g_nread < 3, \
    { int b_; bytesRead = b_; size_t t_; totalBytesRead = t_; size_t gt_; g_total = gt_; char x_; g_exp = x_; int e_; errorCode = e_; int n_; g_nread = n_; size_t ml_; g_mlen = ml_; int mg_; messageLength = mg_; \
      __CPROVER_havoc_object(error_msg); command->data = vp_fresh(g_ann + 1); command->length = g_ann; command->number = g_number; command->id = (enum mlle_protocol_command_id)g_id; messageBuffer = NULL; g_msg = NULL; })
