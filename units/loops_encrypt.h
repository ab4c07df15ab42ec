#include <stddef.h>
int enc_inv(void); void enc_havoc(void);
#define VERIF_LOOP_encrypt_data VP_LOOP(encrypt_data, enc_inv(), \
    { int r_, c_; read_len = r_; crypt_len = c_; __CPROVER_havoc_object(read_buf); __CPROVER_havoc_object(crypt_buf); enc_havoc(); })
