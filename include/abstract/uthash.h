/* Contract of the part of uthash the code uses: a map from strings to items. */
#ifndef UTHASH_H
#define UTHASH_H
#include <stddef.h>
typedef struct UT_hash_handle { const void *key; unsigned keylen; } UT_hash_handle;
void *vp_hash_find(const void *head, const char *key);
void *vp_hash_add(void *head, const char *key, size_t keylen, void *item);   /* returns the new head */
#define HASH_FIND_STR(head, findstr, out) ((out) = vp_hash_find((head), (findstr)))
#define HASH_FIND(hh, head, keyptr, keylen, out) ((out) = vp_hash_find((head), (keyptr)))
#define HASH_ADD_KEYPTR(hh, head, keyptr, keylen, add) ((head) = vp_hash_add((head), (keyptr), (keylen), (add)))
#endif
