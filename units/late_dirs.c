/* Calls the real (recursive) functions; linked after their inner calls were replaced by contracts. */
#include "vp.h"
#include "mlle_cr_encrypt.h"
#include "zip.h"
#if defined VP_ENC
int encryptDirectoryLinux(const char *, const char *, mlle_cr_context *);
int real_encdir(const char *t, const char *r, mlle_cr_context *c) { return encryptDirectoryLinux(t, r, c); }
#elif defined VP_ZIP
int zipDirectoryLinux(struct zip_t *, char *, char *, int);
int real_zipdir(struct zip_t *z, char *p, char *a, int e) { return zipDirectoryLinux(z, p, a, e); }
#elif defined VP_COPY
int copyDirectoryLinux(char *, char *);
int real_copydir(char *f, char *t) { return copyDirectoryLinux(f, t); }
#elif defined VP_REMOVE
int removeFolderLinux(const char *);
int real_remove(const char *p) { return removeFolderLinux(p); }
#elif defined VP_FIND
int findFileLinux(const char *, const char *);
int real_find(const char *n, const char *p) { return findFileLinux(n, p); }
#endif
