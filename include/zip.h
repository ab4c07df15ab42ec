/* Stand-in for kuba--/zip's zip.h (the library is not installed): the part of its interface
 * src/packagetool/utils.c uses; the units give the functions. */
#ifndef VP_ZIP_H
#define VP_ZIP_H
#include <stddef.h>
struct zip_t;
struct zip_t *zip_openwitherror(const char *name, int level, char mode, int *err);
const char *zip_strerror(int err);
void zip_close(struct zip_t *zip);
int zip_entry_open(struct zip_t *zip, const char *entry);
int zip_entry_fwrite(struct zip_t *zip, const char *file);
int zip_entry_close(struct zip_t *zip);
#endif
