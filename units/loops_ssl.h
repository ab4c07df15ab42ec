#include <stddef.h>
extern int g_written, g_tries, g_last_err, g_last_ret;
#define VERIF_LOOP_ssl_write VP_LOOP(ssl_write, bytes < 0 && bytes == g_last_ret && !g_written && g_tries > 0, \
    { int h_; bytes = h_; int e_; errorCode = e_; int l_; g_last_err = l_; g_last_ret = bytes; g_tries = 2; g_written = 0; })
extern size_t g_total, g_K, g_want_more; extern unsigned char g_byte;
char *vp_fresh(size_t n);
/* received so far: g_total bytes, byte g_K of them is g_byte */
#define VERIF_LOOP_ssl_read VP_LOOP(ssl_read, keepReading && g_want_more && totalBytesRead >= 0 && (size_t)totalBytesRead == g_total && g_total <= (1UL << 30) && \
    bufferLen >= totalBytesRead && bufferLen <= (1 << 30) + 20000 && (buffer == NULL ? bufferLen == 0 : \
      bufferLen > 0 && __CPROVER_rw_ok(buffer, bufferLen) && __CPROVER_POINTER_OFFSET(buffer) == 0 && __CPROVER_OBJECT_SIZE(buffer) == bufferLen && (g_K >= g_total || (unsigned char)buffer[g_K] == g_byte)), \
    { int h_; bufferLen = h_; __CPROVER_assume(bufferLen >= 0); int a_, b_, c_, d_, e_, f_; totalBytesRead = a_; noOfBytes = b_; pendingData = c_; neededSpace = d_; errorResult = e_; keepReading = f_; \
      size_t t_; g_total = t_; unsigned char y_; g_byte = y_; char *tp_; tmpPointer = NULL; __CPROVER_havoc_object(tmpBuffer); int ec_; *errorCode = ec_; \
      buffer = bufferLen == 0 ? NULL : vp_fresh(bufferLen); size_t w_; g_want_more = w_; })
