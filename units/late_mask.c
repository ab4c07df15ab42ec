/* Calls the real (recursive) functions; linked after their inner calls were replaced by contracts. */
#include "vp.h"
#include "libcrypto-compat.h"
#include "mlle_cr_decrypt.h"
#ifdef LATE_MASK
int mlle_mask_key(mlle_cr_context *, const char *, unsigned char *, unsigned char *);
int real_mask(mlle_cr_context *c, const char *r, unsigned char *k, unsigned char *s) { return mlle_mask_key(c, r, k, s); }
#else
int mlle_demask_key(mlle_cr_context *, const char *, unsigned char *);
int real_demask(mlle_cr_context *c, const char *r, unsigned char *k) { return mlle_demask_key(c, r, k); }
#endif
