#include <stddef.h>
extern size_t g_p1, g_p2, g_q1, g_q2, g_cnt, g_len, g_n, g_total; extern char g_b1, g_b2; extern unsigned char *g_data; int kept(char c);
/* data[0..j) is the kept part of the first i bytes, in order; the rest is untouched */
#define IN_PLACE(p, q, b) ((p) >= g_len || ((p) >= i ? (char)data[p] == (b) : !kept(b) || ((q) < j && (char)data[q] == (b))))
#define VERIF_LOOP_strip_cr VP_LOOP(strip_cr, i < len && j <= i && j == g_cnt && IN_PLACE(g_p1, g_q1, g_b1) && IN_PLACE(g_p2, g_q2, g_b2) && (!(g_p1 < g_p2 && g_p2 < i && kept(g_b1) && kept(g_b2)) || g_q1 < g_q2) && len == g_len && data == g_data, \
    { size_t i_, j_, c_, q1_, q2_; i = i_; j = j_; g_cnt = c_; g_q1 = q1_; g_q2 = q2_; __CPROVER_havoc_object(data); }) \
    { if (i == g_p1) g_q1 = j; if (i == g_p2) g_q2 = j; if (kept((char)data[i])) g_cnt++; }
#define VERIF_LOOP_write_key VP_LOOP(write_key, i >= 0 && (size_t)i == g_n && g_n < g_total, { int i_; i = i_; size_t n_; g_n = n_; })
