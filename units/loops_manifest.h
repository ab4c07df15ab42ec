#include <stddef.h>
extern size_t g_n, g_dec, g_k; extern char *g_text; extern char g_byte; extern int g_state, g_bad;
#define VERIF_LOOP_manifest_text VP_LOOP(manifest_text, len == g_n && i >= 0 && (size_t)i < g_n && g_dec == (size_t)i && g_state == 1 && !g_bad && (g_k >= (size_t)i || g_byte == g_text[g_k]), \
    { int i_; size_t d_; char b_; i = i_; g_dec = d_; g_byte = b_; })
extern size_t g_N, g_nl, g_rd; extern int g_pend, g_pb, g_ls, g_hasnl, g_rerr, g_eof, g_lastnl, g_copying, g_werr;
/* byte g_rd-1 of the file has just been read; it still has to be written exactly if it is beyond the first line */
#ifdef VP_WRITE_ERRORS
#define VERIF_LOOP_manifest_copy VP_LOOP(manifest_copy, g_copying && g_rd >= 1 && g_rd <= g_N && !g_eof && !g_rerr && (g_werr == 0 || g_werr == 1), \
    { int c_, f_, n_, p_, b_, w_; size_t r_; ch = c_; firstLine = f_; xml_on_new_line = n_; g_pend = p_; g_pb = b_; g_rd = r_; g_werr = w_; __CPROVER_assume(ch >= 0 && ch <= 255); })
#else
#define VERIF_LOOP_manifest_copy VP_LOOP(manifest_copy, g_copying && g_rd >= 1 && g_rd <= g_N && ch >= 0 && ch <= 255 && !g_eof && !g_rerr && (firstLine == 0) == (g_hasnl && g_rd - 1 > g_nl) && g_pend == (firstLine == 0) && (!g_pend || g_pb == ch) \
    && (firstLine == 0 || ((ch == '\n') == (g_hasnl && g_rd - 1 == g_nl))) && (g_ls == 0 || g_ls == 1) && (!xml_on_new_line || g_ls) && (xml_on_new_line == 0 || xml_on_new_line == 1) && (firstLine == 0 || xml_on_new_line) && (xml_on_new_line || (firstLine == 0 && !g_lastnl)) && (!xml_on_new_line || g_lastnl), \
    { int c_, f_, n_, l_, p_, b_, w_; size_t r_; ch = c_; firstLine = f_; xml_on_new_line = n_; g_ls = l_; g_pend = p_; g_pb = b_; g_rd = r_; g_lastnl = w_; })
#endif
