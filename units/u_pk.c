/* Contracts of the packaging functions for one file and of the steps around them. */
#include "vp.h"
#include <errno.h>
#include <sys/stat.h>
#include "mlle_cr_encrypt.h"
#include "zip.h"
#include "utils.h"
static int outcome(void); int g_fail;
static int outcome(void) { if (nd_bool()) return 1; g_fail = 1; return 0; }
int vp_printf(const char *f, ...) { return 0; }

#ifdef VP_COPYFILE
/* a file of g_N bytes; byte g_k of it is g_byte; stdio reads and writes any number of bytes */
static char g_from[2], g_to[2], g_in, g_out; static size_t g_N, g_k, g_rp, g_wp; static char g_byte; static int g_io, g_oo, g_ic, g_oc, g_hit, g_mode, g_chm, g_eof;
FILE *vp_fopen(const char *p, const char *m)
{
    if (p == g_from && m[0] == 'r') { VP_ASSERT(!g_io, "copyfile.opened-once"); if (!outcome()) return NULL; g_io = 1; return (FILE *)&g_in; }
    VP_ASSERT(p == g_to && m[0] == 'w' && !g_oo, "copyfile.that-file"); if (!outcome()) return NULL; g_oo = 1; return (FILE *)&g_out;
}
int vp_fclose(FILE *f) { if (f == (FILE *)&g_in) { VP_ASSERT(g_io && !g_ic, "copyfile.closed-once"); g_ic = 1; return 0; } VP_ASSERT(f == (FILE *)&g_out && g_oo && !g_oc, "copyfile.closed-once"); g_oc = 1; return outcome() ? 0 : EOF; }
int vp_stat(const char *p, struct stat *s) { VP_ASSERT(p == g_from, "copyfile.that-file"); if (!outcome()) return -1; s->st_size = (off_t)g_N; s->st_mode = (mode_t)g_mode; return 0; }
int vp_chmod(const char *p, mode_t m) { VP_ASSERT(p == g_to && g_oo && m == (mode_t)g_mode, "copyfile.permissions"); if (!outcome()) return -1; g_chm = 1; return 0; }
size_t vp_fread(void *b, size_t s, size_t n, FILE *f)
{
    VP_ASSERT(f == (FILE *)&g_in && g_io && !g_ic, "copyfile.that-file"); if (s != 1) VP_UNSUPPORTED("size");
    VP_ASSERT(__CPROVER_w_ok(b, n), "copyfile.within-buffer"); size_t left = g_N - g_rp, r = n < left ? n : left; if (nd_bool()) { size_t q = nd_u64(); VP_ASSUME(q <= r && (q < r || !r)); r = q; if (n) g_fail = 1; }
    if (n) __CPROVER_havoc_slice(b, n); if (g_k >= g_rp && g_k - g_rp < r) ((char *)b)[g_k - g_rp] = g_byte; g_rp += r; if (g_rp == g_N) g_eof = 1; return r;
}
size_t vp_fwrite(const void *b, size_t s, size_t n, FILE *f)
{
    VP_ASSERT(f == (FILE *)&g_out && g_oo && !g_oc, "copyfile.that-file"); if (s != 1) VP_UNSUPPORTED("size");
    VP_ASSERT(__CPROVER_r_ok(b, n), "copyfile.within-buffer"); if (g_k >= g_wp && g_k - g_wp < n) { VP_ASSERT(((char *)b)[g_k - g_wp] == g_byte && g_wp + n <= g_N, "copyfile.bytes-as-they-are"); g_hit = 1; }
    size_t r = n; if (nd_bool()) { r = nd_u64(); VP_ASSUME(r < n); g_fail = 1; } g_wp += r; return r;
}
char *vp_strerror(int e) { return g_from; }
int copyFile(char *, char *);
void h_pk(void)
{
    g_N = nd_range(0, 1UL << 40); g_k = nd_u64(); VP_ASSUME(!g_N || g_k < g_N); g_byte = (char)nd_u8(); g_mode = (int)nd_range(0, 07777) | S_IFREG;
    int r = copyFile(g_from, g_to); VP_ASSERT(g_ic == g_io && g_oc == g_oo, "copyfile.closed-once");
    if (r) { VP_ASSERT(!g_fail && g_io && g_oo && g_wp == g_N && (g_hit || !g_N), "copyfile.success-only-when-complete"); VP_ASSERT(g_chm, "copyfile.permissions"); VP_COVER("copyfile.done"); }
    else { VP_ASSERT(g_fail || vp_alloc_failed, "copyfile.fails-only-with-a-reason"); VP_COVER("copyfile.failed"); }
}
#endif

#ifdef VP_ENCFILE
enum { BASE = 1, REL, MOC = 32 };
static char g_base[2], g_rel[2], g_in, g_out; static int g_io, g_oo, g_ic, g_oc, g_done; static mlle_cr_context *g_ctx; static char g_ctxo;
#include "paths.h"
static seq_t atom_of(const char *s, int *slash) { *slash = 0; return s == g_base ? BASE : s == g_rel ? REL : 0; }
static seq_t lit_of(const char *m, int *used) { if (m[0] == 'c' && !m[1]) { *used = 1; return MOC; } return 0; }
FILE *vp_fopen(const char *p, const char *m)
{
    if (m[0] == 'r') { VP_ASSERT(m[1] == 'b' && !g_io && path_of(p) == P2(BASE, REL), "encfile.reads-that-file"); if (!outcome()) return NULL; g_io = 1; return (FILE *)&g_in; }
    VP_ASSERT(m[0] == 'w' && m[1] == 'b' && !g_oo && path_of(p) == P3(BASE, REL, MOC), "encfile.writes-moc-beside-it"); if (!outcome()) return NULL; g_oo = 1; return (FILE *)&g_out;
}
int vp_fclose(FILE *f) { if (f == (FILE *)&g_in) { VP_ASSERT(g_io && !g_ic, "encfile.closed-once"); g_ic = 1; return 0; } VP_ASSERT(f == (FILE *)&g_out && g_oo && !g_oc, "encfile.closed-once"); g_oc = 1; return outcome() ? 0 : EOF; }
int mlle_cr_encrypt(mlle_cr_context *c, const char *rel, FILE *i, FILE *o)
{ VP_ASSERT(c == g_ctx && rel == g_rel, "encfile.key-of-its-path"); VP_ASSERT(i == (FILE *)&g_in && g_io && !g_ic && o == (FILE *)&g_out && g_oo && !g_oc && !g_done, "encfile.that-file"); if (!outcome()) return 0; g_done = 1; return 1; }
int encryptFile(mlle_cr_context *, const char *, const char *);
void h_pk(void)
{
    g_ctx = (mlle_cr_context *)&g_ctxo; int r = encryptFile(g_ctx, g_base, g_rel); VP_ASSERT(g_ic == g_io && g_oc == g_oo, "encfile.closed-once");
    if (r) { VP_ASSERT(g_done && !g_fail, "encfile.success-only-when-complete"); VP_COVER("encfile.done"); } else { VP_ASSERT(g_fail, "encfile.fails-only-with-a-reason"); VP_COVER("encfile.failed"); }
}
#endif

#ifdef VP_ADD
static char g_z, g_entry[2], g_file[2], g_arch[2]; static int g_open, g_written, g_closed; typedef struct zip_t zt;
int zip_entry_open(zt *z, const char *e) { VP_ASSERT(z == (zt *)&g_z && e == g_entry && !g_open, "zipadd.entry"); if (!outcome()) return -1; g_open = 1; return 0; }
int zip_entry_fwrite(zt *z, const char *f) { VP_ASSERT(z == (zt *)&g_z && f == g_file && g_open && !g_written && !g_closed, "zipadd.whole-file"); if (!outcome()) return -(int)nd_range(1, 40); g_written = 1; return 0; }
int zip_entry_close(zt *z) { VP_ASSERT(z == (zt *)&g_z && g_open && !g_closed, "zipadd.entry"); g_closed = 1; return outcome() ? 0 : -1; }
const char *zip_strerror(int e) { return g_file; }
int addFileToZipArchive(zt *, char *, char *, char *);
void h_pk(void)
{
    int r = addFileToZipArchive((zt *)&g_z, g_arch, g_entry, g_file);
    if (r == 1) { VP_ASSERT(g_open && g_written && g_closed && !g_fail, "zipadd.success-only-when-complete"); VP_COVER("zipadd.done"); } else { VP_ASSERT(g_fail, "zipadd.fails-only-with-a-reason"); VP_COVER("zipadd.failed"); }
}
#endif

#ifdef VP_CREATE
enum { LIB = 1, CWD, STAGE, MOL = 32 };
static char g_lib[2], g_cwd[2], g_stage[2], g_z; static int g_enc, g_open, g_closed, g_filled, g_removed, g_exists; typedef struct zip_t zt;
#include "paths.h"
static seq_t atom_of(const char *s, int *slash) { *slash = 0; return s == g_lib ? LIB : s == g_cwd ? CWD : s == g_stage ? STAGE : 0; }
static seq_t lit_of(const char *m, int *used) { if (m[0] == '.' && m[1] == 'm' && m[2] == 'o' && m[3] == 'l' && !m[4]) { *used = 4; return MOL; } return 0; }
char *getLibraryName(void) { return g_lib; } int ct_using(void) { return g_enc; } int ct_cwd(char **c) { if (nd_bool()) return 0; *c = g_cwd; return 1; } char *ct_stage(void) { return g_stage; }
int ct_exists(char *p) { VP_ASSERT(path_of(p) == P3(CWD, LIB, MOL), "zipcreate.place"); return g_exists; }
int vp_remove(const char *p) { VP_ASSERT(path_of(p) == P3(CWD, LIB, MOL) && !g_open, "zipcreate.removes-only-the-old-archive"); g_removed = 1; return nd_bool() ? 0 : -1; }
zt *zip_openwitherror(const char *n, int level, char mode, int *err) { VP_ASSERT(path_of(n) == P2(LIB, MOL) && mode == 'w' && level >= 0 && level <= 10 && !g_open, "zipcreate.place"); if (!outcome()) { *err = -1; return NULL; } g_open = 1; return (zt *)&g_z; }
const char *zip_strerror(int e) { return g_lib; }
void zip_close(zt *z) { VP_ASSERT(z == (zt *)&g_z && g_open && !g_closed, "zipcreate.closed-once"); g_closed = 1; }
int ct_zipdir(zt *z, char *p, char *a, int e) { VP_ASSERT(z == (zt *)&g_z && g_open && !g_closed && p == g_stage && path_of(a) == P2(LIB, MOL) && !g_filled, "zipcreate.whole-staging-folder"); VP_ASSERT(!!e == !!g_enc, "zipcreate.encryption-as-asked"); g_filled = 1; return outcome(); }
int createZipArchive(void);
void h_pk(void)
{
    g_enc = nd_bool(); g_exists = nd_bool(); int r = createZipArchive(); VP_ASSERT(g_closed == g_open, "zipcreate.closed-once");
    if (r) { VP_ASSERT(g_filled && !g_fail, "zipcreate.success-only-when-complete"); VP_COVER("zipcreate.done"); } else { VP_ASSERT(g_fail, "zipcreate.fails-only-with-a-reason"); VP_COVER("zipcreate.failed"); }
}
#endif

#ifdef VP_STRIP
/* the name in the archive is what follows the staging folder and its slash */
static char g_stage[2]; static char *g_search; static size_t g_L; static char g_zip[4]; static int g_set;
char *ct_stage(void) { return g_stage; }
size_t vp_strlen(const char *s) { if (s == g_stage) return g_L; if (s == g_zip) return nd_range(0, 3); VP_UNSUPPORTED("length"); return 0; }
int vp_snprintf(char *b, size_t n, const char *m, ...) { va_list ap; va_start(ap, m); const char *a = va_arg(ap, const char *); va_end(ap); VP_ASSERT(b == g_zip && n == sizeof g_zip && m[0] == '%' && m[1] == 's' && !m[2], "strip.entry-name"); VP_ASSERT(a == g_search + g_L + 1, "strip.entry-name"); g_set = 1; return 1; }
int removeTmpFolderName(char *, char *, size_t);
void h_pk(void)
{
    g_L = nd_range(1, 1UL << 20); g_search = nd_buf(g_L + 3); VP_ASSUME(g_search[g_L] == '/' && g_search[g_L + 1]);
    removeTmpFolderName(g_search, g_zip, sizeof g_zip); VP_ASSERT(g_set, "strip.entry-name"); VP_COVER("strip.done");
}
#endif

#ifdef VP_ICON
/* prepareIconFile: the icon's path in the manifest is its path below the copied library */
extern char *pathToIcon; static size_t g_L, g_n, g_k; static char g_src[2], g_val[2], g_name[2]; static int g_given, g_found; static char g_byte, *g_ic; static int g_moved;
char *getValueOf(const char *k) { VP_ASSERT(k[0] == 'i' && k[1] == 'c', "icon.option"); return g_given ? g_val : NULL; }
char *ct_filename(char *p) { VP_ASSERT(p == g_val, "icon.its-name"); return g_name; }
char *getCopied(void) { return g_src; }
int ct_find(const char *n, const char *p) { VP_ASSERT(n == g_name && p == g_src && !pathToIcon, "icon.looked-for-in-the-copy"); if (nd_bool()) { g_fail = 1; return nd_bool(); } g_found = 1; pathToIcon = g_ic; return nd_bool(); }
size_t vp_strlen(const char *s) { if (s == g_src) return g_L; if (!g_moved && __CPROVER_same_object(s, g_ic) && __CPROVER_POINTER_OFFSET(s) <= g_n) return g_n - __CPROVER_POINTER_OFFSET(s); VP_UNSUPPORTED("length"); return 0; }
void *vp_memmove(void *d, const void *s, size_t n) { VP_ASSERT(d == g_ic && s == g_ic + g_L + 1 && n == g_n - g_L && !g_moved, "icon.path-below-the-library"); g_moved = 1; return d; }
int prepareIconFile(void);
void h_pk(void)
{
    int r; g_given = nd_bool(); g_L = nd_range(1, 1UL << 20); g_n = nd_range(g_L + 2, 1UL << 21); g_ic = nd_buf(g_n + 1); pathToIcon = NULL;
    r = prepareIconFile();
    if (r) { VP_ASSERT(!g_given || (g_found && g_moved && pathToIcon == g_ic), "icon.path-below-the-library"); VP_ASSERT(g_given || !pathToIcon, "icon.only-when-given"); if (g_given) VP_COVER("icon.given"); else VP_COVER("icon.none"); }
    else { VP_ASSERT(g_fail && g_given, "icon.fails-only-with-a-reason"); VP_COVER("icon.failed"); }
}
#endif

#ifdef VP_LVE
/* copyLVE: with encryption, exactly the executables that are there are copied, listed under their names */
#define NREC 16
enum { EXE = 1, DOTL, NAME0, LVEDIR = NAME0 + NO_OF_LVE };
extern char *lve[NO_OF_LVE], **lveList, *dotLibraryPath, *pathToIcon, *tempStagingFolder, *sourcePathFolder; static char *g_exe, g_dot[2]; static int g_enc, there[NO_OF_LVE], copied_[NO_OF_LVE];
#include "paths.h"
static seq_t atom_of(const char *s, int *slash) { *slash = 0; if (s == g_exe) return EXE; if (s == g_dot) return DOTL; for (int j = 0; j < NO_OF_LVE; j++) if (s == lve[j]) return NAME0 + j; return 0; }
static seq_t lit_of(const char *m, int *used) { if (m[0] == 'L' && m[1] == 'V' && m[2] == 'E' && m[3] == '/') { *used = 3; return LVEDIR; } return 0; }
int ct_using(void) { return g_enc; } char *ct_exedir(void) { if (!outcome()) return NULL; return g_exe = malloc(2); } char *ct_dot(void) { return g_dot; }
size_t vp_strlen(const char *s) { atom_of(s, &(int){0}); return nd_range(1, 100); }
int ct_exists(char *p) { seq_t s = path_of(p); int j = (int)(s & 63) - NAME0; VP_ASSERT(j >= 0 && j < NO_OF_LVE && s == P3(EXE, LVEDIR, NAME0 + j), "lve.place"); return there[j]; }
int ct_copyfile(char *f, char *t) { seq_t s = path_of(t); int j = (int)(s & 63) - NAME0; VP_ASSERT(j >= 0 && j < NO_OF_LVE && s == P2(DOTL, NAME0 + j) && path_of(f) == P3(EXE, LVEDIR, NAME0 + j) && there[j] && !copied_[j], "lve.copied-under-its-name"); copied_[j] = 1; return outcome(); }
int copyLVE(void);
void h_pk(void)
{
    int j, r; g_enc = nd_bool(); lveList = NULL; for (j = 0; j < NO_OF_LVE; j++) there[j] = nd_bool(); vp_alloc_failed = 0; dotLibraryPath = pathToIcon = tempStagingFolder = sourcePathFolder = NULL;
    if (nd_bool()) { int c = 0; for (j = 0; j < NO_OF_LVE; j++) c += there[j]; r = countLVE(); VP_ASSERT(((g_fail || vp_alloc_failed) && r == 0) || r == c, "lve.counted"); VP_COVER("lve.counted"); return; }
    r = copyLVE();
    if (!r) { VP_ASSERT(g_fail || vp_alloc_failed, "lve.fails-only-with-a-reason"); VP_COVER("lve.failed"); cleanUp(); return; }
    VP_ASSERT(!g_fail, "lve.success-only-when-complete");
    j = (int)nd_range(0, NO_OF_LVE - 1); VP_ASSERT(copied_[j] == (g_enc && there[j]), "lve.exactly-those-there");
    if (g_enc) { VP_ASSERT(lveList != NULL, "lve.listed"); VP_ASSERT(there[j] ? lveList[j] && path_of(lveList[j]) == NAME0 + j : !lveList[j], "lve.listed"); VP_COVER("lve.copied"); } else VP_COVER("lve.none");
    cleanUp();     /* the end of doWork: no wrong or double free */
}
#endif

#ifdef VP_STAGE
/* copyFolderStructure, createLibraryFolder, copyExtraFiles, encryptFiles, deleteTemporaryStagingFolder */
enum { STAGE = 1, LIB, FROM, EXE, DOTL };
static size_t g_ls, g_ll;   /* lengths of the staging folder's and the library's name */
#define VP_PATH_ROOM(r, n) do { if ((r) == P2(STAGE, LIB)) VP_ASSERT((n) >= g_ls + g_ll + 2, "stage.whole-name"); } while (0)
static char g_stage[27], g_lib[2], g_from[2], *g_exe; static int g_enc, g_made, g_staged, g_encd, g_mkdtemp, g_exists, g_rm, g_extra; extern char *tempStagingFolder, *sourcePathFolder, *dotLibraryPath;
#include "paths.h"
static seq_t atom_of(const char *s, int *slash) { *slash = 0; return s && s == tempStagingFolder ? STAGE : s == g_lib ? LIB : s == g_from ? FROM : s == g_exe ? EXE : 0; }
static seq_t lit_of(const char *m, int *used) { int u = starts(m, ".library"); if (u && !m[u]) { *used = u; return DOTL; } return 0; }
char *vp_mkdtemp(char *t) { int n = 0; while (t[n]) n++; VP_ASSERT(n > 6 && t[n - 1] == 'X' && t[n - 6] == 'X' && !g_mkdtemp, "stage.own-folder"); if (!outcome()) return NULL; g_mkdtemp = 1; return t; }
char *getLibraryName(void) { return g_lib; } int ct_using(void) { return g_enc; } char *getValueOf(const char *k) { VP_ASSERT(k[0] == 'l' && k[7] == 'p', "stage.library"); return g_from; } char *ct_exedir(void) { if (!outcome()) return NULL; return g_exe = malloc(2); }
size_t vp_strlen(const char *s) { seq_t p = path_of(s); return p == P1(STAGE) ? g_ls : p == P1(LIB) ? g_ll : p == P2(STAGE, LIB) ? g_ls + g_ll + 1 : nd_range(1, 200); }
static int g_mkn; int vp_mkdir(const char *p, mode_t m) { seq_t s = path_of(p); VP_ASSERT(g_mkdtemp && (m & 0700) == 0700 && (g_mkn == 0 ? s == P2(STAGE, LIB) : g_mkn == 1 && g_staged && s == P3(STAGE, LIB, DOTL)), "stage.folders-in-the-staging-folder"); g_mkn++; return outcome() ? 0 : -1; }
int ct_copydir(char *f, char *t)
{
    if (!g_staged) { VP_ASSERT(f == g_from && g_mkn == 1 && path_of(t) == P2(STAGE, LIB), "stage.whole-library"); g_staged = 1; }
    else { VP_ASSERT(!g_extra && g_exists && path_of(f) == P2(EXE, DOTL) && path_of(t) == P3(STAGE, LIB, DOTL), "stage.extra-files"); g_extra = 1; }
    return outcome();
}
int ct_encdir(const char *t, const char *r, mlle_cr_context *c) { VP_ASSERT(!g_encd && path_of(t) == P2(STAGE, LIB) && !r && !c, "stage.whole-copy-encrypted"); g_encd = 1; return outcome(); }
int ct_exists(char *p) { seq_t s = path_of(p); if (s == P1(STAGE)) return 1; VP_ASSERT(s == P2(EXE, DOTL), "stage.extra-files"); return g_exists; }
int ct_remove(const char *p) { VP_ASSERT(path_of(p) == P1(STAGE) && g_mkdtemp, "stage.removes-only-its-folder"); g_rm++; return outcome() ? 0 : -1; }
char *vp_strerror(int e) { return g_lib; }
void h_pk(void)
{
    vp_alloc_fails = 0; g_ls = nd_range(1, 1000); g_ll = nd_range(1, 200); g_enc = nd_bool(); g_exists = nd_bool(); tempStagingFolder = sourcePathFolder = dotLibraryPath = NULL;
    int r = copyFolderStructure(); VP_ASSERT((r != 0) == !g_fail && (!r || (g_staged && g_mkn == 1)), "stage.success-only-when-complete"); if (!r) { VP_COVER("stage.failed"); return; }
    r = createLibraryFolder(); VP_ASSERT((r != 0) == !g_fail && (!r || (g_mkn == 2 && path_of(getDotLibraryPath()) == P3(STAGE, LIB, DOTL))), "stage.dot-library-created"); if (!r) return;
    r = copyExtraFiles(); VP_ASSERT((r != 0) == !g_fail && (!r || g_extra == g_exists), "stage.extra-files"); if (!r) { VP_COVER("stage.extra-failed"); return; }
    r = encryptFiles(); VP_ASSERT((r != 0) == !g_fail && g_encd == g_enc, "stage.encrypted-exactly-when-asked"); if (!r) { VP_COVER("stage.encrypt-failed"); return; }
    r = deleteTemporaryStagingFolder(); VP_ASSERT(g_rm == 1 && (r != 0) == !g_fail, "stage.removed"); VP_COVER("stage.done");
}
#endif

#ifdef VP_LOWER
/* isModelicaFile and usingEncryption, through stringToLower (loop invariant): names of any length */
static char *g_str; static size_t g_n; static char o[6]; static int g_given, g_dots; int vp_ph_lower;
static char lc(char c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int vp_lower_inv(const char *s, int i) { if (s != g_str || i < 0 || (size_t)i >= g_n || !s[i]) return 0; for (int j = 0; j < 6; j++) if ((size_t)j <= g_n && (j < i ? !o[j] || s[j] != lc(o[j]) : s[j] != o[j])) return 0; return 1; }
int vp_lower_any(char *s) { __CPROVER_havoc_object(s); __CPROVER_assume(s[g_n] == 0); return (int)nd_range(0, 0x7fffffff); }
#endif
#ifdef VP_LOWER
static char g_name[2];
char *vp_strrchr(const char *s, int c) { if (s != g_name || c != '.') VP_UNSUPPORTED("search"); return g_dots ? g_str : NULL; }   /* the part from the last dot on is the object of its own g_str */
char *getValueOf(const char *k) { VP_ASSERT(k[0] == 'e' && k[2] == 'c', "lower.option"); return g_given ? g_str : NULL; } int containsKey(char *k) { VP_ASSERT(k[0] == 'e' && k[2] == 'c', "lower.option"); return g_given; }
int vp_tolower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
void h_pk(void)
{
    int j, r, want; g_n = nd_range(1, 0x7ffffff0); g_str = nd_buf(g_n + 1); VP_ASSUME(g_str[g_n] == 0); for (j = 0; j < 6; j++) if ((size_t)j <= g_n) o[j] = g_str[j]; g_given = nd_bool(); g_dots = nd_bool();
    if (nd_bool()) { VP_ASSUME(o[0] == '.'); r = isModelicaFile(g_name); want = g_dots && lc(o[1]) == 'm' && g_n >= 3 && lc(o[2]) == 'o' && o[3] == 0; VP_ASSERT((r != 0) == want, "lower.modelica-file-in-any-case"); if (want) VP_COVER("lower.modelica"); else VP_COVER("lower.other"); }
    else { r = usingEncryption(); want = g_given && g_n >= 4 && lc(o[0]) == 't' && lc(o[1]) == 'r' && lc(o[2]) == 'u' && lc(o[3]) == 'e' && o[4] == 0; VP_ASSERT((r != 0) == want, "lower.encryption-exactly-when-true"); if (want) VP_COVER("lower.encrypted"); else VP_COVER("lower.plain"); }
}
#endif

#ifdef VP_WORK
/* doWork: the steps in order, each only after the ones before succeeded; 0 only when all did */
#include "arguments.h"
#include "manifest.h"
static int g_help, step, valid, g_shown, g_deleted;
#define STEP(n, k) int n { VP_ASSERT(!g_fail && valid == 63, "work.only-after-validation"); VP_ASSERT(step == k, "work.order"); step++; return outcome(); }
#define CHECK(n, b) int n { VP_ASSERT(!g_help && step == 1, "work.order"); valid |= b; return outcome(); }
int helpRequested(int c, char **v) { return g_help; } void printArgumentHelp(void) { g_shown = 1; }
int validateArguments(int c, char **v) { VP_ASSERT(step == 0, "work.order"); step = 1; return outcome(); }
CHECK(validateMandatoryArguments(void), 1) CHECK(validateLibraryPath(void), 2) CHECK(validateEncryption(void), 4) CHECK(validateIcon(void), 32)
int validateXmlFile(char *k) { VP_ASSERT(k[0] == 't' || k[0] == 'd', "work.order"); valid |= k[0] == 't' ? 8 : 16; return outcome(); }
STEP(copyFolderStructure(void), 1) STEP(createLibraryFolder(void), 2)
static int g_icon_, g_lve_, g_extra_;
static int mid(int *f) { VP_ASSERT(!g_fail && valid == 63 && step == 3 && !*f, "work.order"); *f = 1; return outcome(); }
int prepareIconFile(void) { if (step == 2) { VP_ASSERT(!g_fail && !g_icon_, "work.order"); g_icon_ = 1; return outcome(); } return mid(&g_icon_); } int copyLVE(void) { return mid(&g_lve_); } int copyExtraFiles(void) { return mid(&g_extra_); }
int createManifestFile(void) { VP_ASSERT(!g_fail && step == 3 && g_icon_ && g_lve_, "work.manifest-after-its-parts"); step = 4; return outcome(); }
STEP(encryptFiles(void), 4)
int createZipArchive(void) { VP_ASSERT(!g_fail && step == 5 && g_extra_, "work.archive-last"); step = 6; return outcome(); }
int deleteTemporaryStagingFolder(void) { VP_ASSERT(step == 6 || g_fail, "work.order"); g_deleted = 1; return nd_bool(); }
char *getCopiedSourcePath(void) { return (char *)&step; } static int g_clean; void cleanUp(void) { g_clean++; }
FILE *mlle_log;
int doWork(int, char **);
void h_pk(void)
{
    int r; g_help = nd_bool(); char *v[2] = { 0, 0 }; r = doWork(1, v);
    if (g_help) { VP_ASSERT(g_shown && !r && !step && !valid, "work.help"); VP_COVER("work.help"); return; }
    VP_ASSERT((r == 0) == (!g_fail && step == 6), "work.zero-exactly-when-all-done"); VP_ASSERT(g_clean <= 1, "work.cleaned-once"); if (!r) { VP_ASSERT(g_deleted, "work.staging-folder-removed"); VP_COVER("work.done"); } else VP_COVER("work.failed");
}
#endif

#ifdef VP_PLAT
/* extractPlatform: for each of the executables, the platform its name says */
extern char *lve[NO_OF_LVE];
char *extractPlatform(char *);
void h_pk(void)
{
    static const char *const want[NO_OF_LVE] = { "win32", "win64", "linux32", "linux64", "darwin64" }; int j = (int)nd_range(0, NO_OF_LVE - 1); char *p = NULL;
    for (int i = 0; i < NO_OF_LVE; i++) if (i == j) { p = extractPlatform(lve[i]); if (!p) { VP_ASSERT(vp_alloc_failed, "platform.fails-only-without-memory"); VP_COVER("platform.no-memory"); return; } VP_ASSERT(strcmp(p, want[i]) == 0, "platform.as-the-name-says"); VP_COVER("platform.done"); }
}
#endif

#ifdef VP_NAME
/* getLibraryName: the last part of the path (which does not end with a slash, see validatePath) */
static char *g_path; static size_t g_n, g_last; static int g_slash;
char *ct_value(const char *k) { VP_ASSERT(k[0] == 'l' && k[7] == 'p', "name.option"); return g_path; }
char *vp_strrchr(const char *s, int c) { if (s != g_path || c != '/') VP_UNSUPPORTED("search"); return g_slash ? g_path + g_last : NULL; }
size_t vp_strlen(const char *s) { if (s != g_path) VP_UNSUPPORTED("length"); return g_n; }
char *getLibraryName(void);
void h_pk(void)
{
    g_n = nd_range(1, 1UL << 30); g_path = nd_buf(g_n + 1); VP_ASSUME(!g_path[g_n] && g_path[g_n - 1] && g_path[g_n - 1] != '/'); g_slash = nd_bool(); g_last = nd_u64(); VP_ASSUME(g_last < g_n - 1 || !g_slash); VP_ASSUME(!g_slash || g_path[g_last] == '/');
    char *r = getLibraryName(); VP_ASSERT(r == (g_slash ? g_path + g_last + 1 : g_path), "name.last-part-of-the-path"); VP_ASSERT(!g_path[g_n] && g_path[g_n - 1] && g_path[g_n - 1] != '/', "name.path-unchanged"); if (g_slash) VP_COVER("name.path"); else VP_COVER("name.plain");
}
#endif

#ifdef VP_TRIM
/* validatePath: only trailing separators are cut off the path, all of them, and what is left must be a directory */
int vp_ph_trim_path; char *g_data, *g_path; size_t g_n, g_t, g_k; static int g_dir, g_asked;
static int slash(char c) { return c == '/' || c == '\\'; }
int trim_fact(size_t i) { return i >= g_n || (i >= g_t ? slash(g_data[i]) : i != g_t - 1 || g_t == 1 || !slash(g_data[i])); }
int vp_stat(const char *p, struct stat *b) { VP_ASSERT(p == g_path && !g_asked, "trim.that-directory"); g_asked = 1; if (!g_dir && nd_bool()) return -1; b->st_mode = (g_dir ? S_IFDIR : S_IFREG) | (mode_t)nd_range(0, 07777); return 0; }
size_t vp_strlen(const char *s) { if (s != g_path) VP_UNSUPPORTED("length"); return g_n; }
void h_pk(void)
{
    g_n = nd_range(0, 1UL << 30); g_data = nd_buf(g_n + 1); g_path = nd_buf(g_n + 1); g_t = nd_range(1, 1UL << 30); VP_ASSUME(!g_n || g_t <= g_n); g_k = nd_u64(); g_dir = nd_bool();
    VP_ASSUME(g_k < g_n && g_path[g_k] == g_data[g_k] || g_k >= g_n); VP_ASSUME(!g_path[g_n] && (!g_n || g_path[g_n - 1] == g_data[g_n - 1])); VP_ASSUME(trim_fact(g_n - 1) && trim_fact(g_t - 1)); if (g_n) VP_ASSUME(g_path[g_t - 1] == g_data[g_t - 1] && (g_n < 2 || g_path[g_n - 2] == g_data[g_n - 2]) && trim_fact(g_n - 2));
#ifdef VP_UNWOUND
    VP_ASSUME(g_n <= 3); for (int i = 0; i < 3; i++) VP_ASSUME((size_t)i >= g_n || g_path[i] == g_data[i] && trim_fact(i));
#endif
    int r = validatePath(g_path);
    VP_ASSERT((r != 0) == (g_n && g_dir), "trim.accepted-exactly-a-directory");
    if (r) { VP_ASSERT(g_path[g_t] == 0 && (g_k >= g_t || g_path[g_k] == g_data[g_k]), "trim.only-trailing-separators"); VP_COVER("trim.accepted"); } else VP_COVER("trim.refused");
}
#endif
