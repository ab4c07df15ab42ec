/* Common verification vocabulary: nondeterminism, assumptions, obligations.
 *
 * A harness is written once and used in three modes:
 *   CBMC, -DVP_PROOF    obligations generated from the real code, sizes unbounded
 *   CBMC, -DVP_BOUNDED  small sizes, executable library models (stand-in)
 *   native (no __CPROVER) replay of a counterexample, or sampling, under ASan
 */
#ifndef VP_H
#define VP_H
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <limits.h>

#ifdef VP_CBMC_MODE
#define VP_CBMC 1
#else
#define VP_NATIVE 1
#endif

#ifdef VP_CBMC
extern unsigned long vp_nd_log;       /* every choice is logged here, in order */
unsigned long nondet_vp_ulong(void);
#define VP_ASSERT(c, id) __CPROVER_assert((c), id)
#define VP_ASSUME(c) __CPROVER_assume(c)
#define VP_COVER(id) __CPROVER_assert(0, "COVER:" id)
#define VP_UNSUPPORTED(id) do { __CPROVER_assert(0, "UNSUPPORTED:" id); __CPROVER_assume(0); } while (0)
#else
void vp_native_assert(int c, const char *id);
void vp_native_assume(int c);
void vp_native_cover(const char *id);
void vp_native_unsupported(const char *id);
#define VP_ASSERT(c, id) vp_native_assert(!!(c), id)
#define VP_ASSUME(c) vp_native_assume(!!(c))
#define VP_COVER(id) vp_native_cover(id)
#define VP_UNSUPPORTED(id) vp_native_unsupported(id)
#endif

/* an arbitrary 64-bit value */
unsigned long nd_u64(void);
/* an arbitrary value in [lo, hi] (inclusive) */
unsigned long nd_range(unsigned long lo, unsigned long hi);
/* a text that was filled in (an uninitialised buffer may begin with anything) */
static inline int vp_text(const char *m) { return !m || !m[0] || (m[0] >= ' ' && m[0] < 127); }
static inline int nd_bool(void) { return (int)nd_range(0, 1); }
static inline unsigned char nd_u8(void) { return (unsigned char)nd_range(0, 255); }
static inline long nd_long(void) { return (long)nd_u64(); }
int nd_int(void);

extern int vp_alloc_fails, vp_alloc_failed, vp_live;
void *vp_malloc(size_t n);
void *vp_calloc(size_t a, size_t b);
void *vp_realloc(void *p, size_t n);
char *vp_strdup(const char *s);
void vp_cleanse(void *p, size_t n);   /* OPENSSL_cleanse, explicit_bzero */

/* a fresh object of n bytes with arbitrary contents (n may be 0); never NULL */
char *nd_buf(size_t n);
void nd_fill(char *p, size_t n);

/* the bound on data sizes in this mode */
#if defined(VP_PROOF)
#define VP_MAX(bounded, proof) (proof)
#else
#define VP_MAX(bounded, proof) (bounded)
#endif
#endif
