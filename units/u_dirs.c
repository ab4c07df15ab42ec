/* Contracts of encryptDirectoryLinux, zipDirectoryLinux, copyDirectoryLinux, removeFolderLinux and
 * findFileLinux: success means that every entry of the directory was treated, each exactly once, on the right
 * path, and that none of it failed.  The directory has any number of entries of any names and types (loop
 * invariant: before each entry all earlier ones were treated); the call for a subdirectory is by contract. */
#include "vp.h"
#include <dirent.h>
#include <errno.h>
#include <sys/stat.h>
#include "mlle_cr_encrypt.h"
#include "zip.h"
enum { TOP = 1, TO, REL, NAME, PKG, LOWERED, STRIPPED };
enum { DOT, DOTDOT, DOTLIB, PKGFILE, PKGCASE, PLAIN };
static char g_top[3], g_to[3], g_rel[3], g_zipo, g_arch[2], g_ctxo, g_file, g_d, g_wanted[2]; static struct dirent g_ent;
static int cls, g_mo, g_low, g_calls, g_mk, g_opened, g_closed, g_end, g_match, g_top_slash, g_sym; int g_fail; int g_phase;
#include "paths.h"
static seq_t atom_of(const char *s, int *slash)
{ *slash = 0; if (s == g_top) { *slash = g_top_slash; return TOP; } return s == g_to ? TO : s == g_rel ? REL : s == g_ent.d_name ? (g_low ? LOWERED : NAME) : 0; }
static seq_t lit_of(const char *m, int *used) { if (starts(m, "package.mo") && !m[10]) { *used = 10; return PKG; } return 0; }
static void before_next(void);
static void fresh(void)
{
    cls = (int)nd_range(DOT, PLAIN); g_mo = nd_bool(); g_low = 0; g_calls = g_mk = 0; g_match = 0; g_ent.d_type = nd_u8();
    for (int i = 0; i < 4; i++) g_ent.d_name[i] = (char)nd_u8();
    if (cls == DOT) { g_ent.d_name[0] = '.'; g_ent.d_name[1] = 0; } else if (cls == DOTDOT) { g_ent.d_name[0] = g_ent.d_name[1] = '.'; g_ent.d_name[2] = 0; }
    else if (cls == DOTLIB) { g_ent.d_name[0] = '.'; g_ent.d_name[1] = 'l'; g_ent.d_name[2] = 'i'; g_ent.d_name[3] = 'b'; } else if (cls == PKGFILE) { g_ent.d_name[0] = 'p'; g_ent.d_name[1] = 'a'; g_ent.d_name[2] = 'c'; g_ent.d_name[3] = 'k'; }
    else VP_ASSUME(g_ent.d_name[0] && g_ent.d_name[0] != '.');       /* also stands for every other name with a leading dot */
    if (cls == DOT || cls == DOTDOT) { VP_ASSUME(g_ent.d_type == DT_DIR); }
    if (cls == DOT || cls == DOTDOT || cls == DOTLIB) g_mo = 0; if (cls == PKGFILE || cls == PKGCASE) g_mo = 1;
#ifdef VP_FIND
    g_match = cls == PLAIN && nd_bool();
#endif
}
int vp_dir_any(void) { fresh(); rec_forget(); return 1; }
int vp_dir_inv(const void *e) { return e == (void *)&g_ent && g_opened && !g_closed && !g_end && !g_fail && !g_calls && !g_mk && !g_low; }
struct dirent *vp_dir_ent(void) { return &g_ent; }
int vp_ph_encrypt_dir, vp_ph_zip_dir, vp_ph_copy_dir, vp_ph_remove_dir, vp_ph_find_file;
static int name_is(const char *b) { return cls == (b[0] == '.' && !b[1] ? DOT : b[0] == '.' && b[1] == '.' && !b[2] ? DOTDOT : starts(b, ".library") && !b[8] ? DOTLIB : starts(b, "package.mo") && !b[10] ? PKGFILE : -1); }
int vp_strcmp(const char *a, const char *b)
{
    const char *t; if (b == g_ent.d_name) { t = a; a = b; b = t; } if (a != g_ent.d_name) VP_UNSUPPORTED("comparison");
    if (b == g_wanted) return !g_match; if (g_low) VP_UNSUPPORTED("changed name compared");
    if (!(b[0] == '.' && !b[1]) && !(b[0] == '.' && b[1] == '.' && !b[2]) && !(starts(b, ".library") && !b[8]) && !(starts(b, "package.mo") && !b[10])) VP_UNSUPPORTED("name");
    return !name_is(b);
}
int vp_strcasecmp(const char *a, const char *b) { const char *t; if (b == g_ent.d_name) { t = a; a = b; b = t; } if (a != g_ent.d_name || !(starts(b, "package.mo") && !b[10])) VP_UNSUPPORTED("comparison"); return !(cls == PKGFILE || cls == PKGCASE); }
size_t vp_strlen(const char *s) { if (s == g_top || s == g_to || s == g_rel) return 2; if (s == g_ent.d_name) return nd_range(1, 255); path_of(s); return nd_range(1, 2047); }
static seq_t g_dirpath;
DIR *vp_opendir(const char *p) { VP_ASSERT(!g_opened && path_of(p) == g_dirpath, "dirs.that-directory"); if (nd_bool()) { g_fail = 1; return NULL; } g_opened = 1; return (DIR *)&g_d; }
struct dirent *vp_readdir(DIR *d)
{
    VP_ASSERT(d == (DIR *)&g_d && g_opened && !g_closed, "dirs.open-directory"); before_next();
    if (g_end || nd_bool()) { g_end = 1; cls = DOT; g_calls = g_mk = 0; return NULL; }
    fresh(); return &g_ent;
}
int vp_closedir(DIR *d) { VP_ASSERT(d == (DIR *)&g_d && g_opened && !g_closed, "dirs.closed-once"); g_closed = 1; return 0; }
int ct_ismo(char *s) { if (s != g_ent.d_name) VP_UNSUPPORTED("name"); g_low = 1; return g_mo; }
static int outcome(void) { if (nd_bool()) return 1; g_fail = 1; return 0; }
int vp_printf(const char *f, ...) { return 0; }
static int dots(void) { return cls == DOT || cls == DOTDOT; }
#define ONCE() (VP_ASSERT(!g_calls, "dirs.each-entry-once"), g_calls = 1)
#ifdef VP_ENC
static int g_pkg, g_pkgdone, g_rel_null, g_created, g_freed; static mlle_cr_context *g_ctx;
mlle_cr_context *mlle_cr_create(const char *b) { VP_ASSERT(b == g_top && g_rel_null && !g_created, "encdir.context"); if (nd_bool()) { g_fail = 1; return NULL; } g_created = 1; return g_ctx = (mlle_cr_context *)&g_ctxo; }
void mlle_cr_free(mlle_cr_context *c) { VP_ASSERT(c == g_ctx && g_created && !g_freed, "encdir.context"); g_freed = 1; }
FILE *vp_fopen(const char *p, const char *m) { VP_ASSERT(path_of(p) == (g_rel_null ? P2(TOP, PKG) : P3(TOP, REL, PKG)) && m[0] == 'r', "encdir.package-path"); if (g_pkg == 1) return (FILE *)&g_file; errno = g_pkg ? EACCES : ENOENT; if (g_pkg) g_fail = 1; return NULL; }
int vp_fclose(FILE *f) { VP_ASSERT(f == (FILE *)&g_file, "encdir.package-path"); return 0; }
int ct_encfile(mlle_cr_context *c, const char *base, const char *rel)
{
    VP_ASSERT(c && c == g_ctx && !g_freed && base == g_top, "encdir.context");
    if (rel && rel[0] == 'p' && !g_opened && g_rel_null && starts(rel, "package.mo")) ;
    else if (!g_opened) VP_ASSERT(path_of(rel) == (g_rel_null ? P1(PKG) : P2(REL, PKG)), "encdir.package-path");
    else { ONCE(); VP_ASSERT(path_of(rel) == (g_rel_null ? P1(NAME) : P2(REL, NAME)), "encdir.file-path"); VP_ASSERT(g_ent.d_type != DT_DIR, "encdir.file-path"); VP_ASSERT(g_mo, "encdir.only-modelica-files"); VP_ASSERT(cls == PLAIN, "encdir.package-once"); return outcome(); }
    VP_ASSERT(!g_pkgdone && g_pkg, "encdir.package-once"); g_pkgdone = 1; return outcome();
}
int ct_encdir(const char *top, const char *rel, mlle_cr_context *c) { VP_ASSERT(top == g_top && c && c == g_ctx && !g_freed, "encdir.context"); ONCE(); VP_ASSERT(!dots() && path_of(rel) == (g_rel_null ? P1(NAME) : P2(REL, NAME)), "encdir.folder-path"); return outcome(); }
static void before_next(void)
{
    VP_ASSERT(g_fail || !g_pkg || g_pkgdone, "encdir.package-first"); if (g_fail || !g_phase) { g_phase = 1; return; }
    VP_ASSERT(cls != PKGCASE, "encdir.package-in-other-case-refused");
    if (cls == PLAIN || cls == DOTLIB) { if (g_ent.d_type == DT_DIR) VP_ASSERT(g_calls, "encdir.every-folder"); if (g_ent.d_type == DT_REG && g_mo) VP_ASSERT(g_calls, "encdir.every-modelica-file"); }
}
int real_encdir(const char *, const char *, mlle_cr_context *);
void h_dirs(void)
{
    int r; g_rel_null = nd_bool(); g_pkg = (int)nd_range(0, 2); g_dirpath = g_rel_null ? P1(TOP) : P2(TOP, REL); g_ctx = g_rel_null ? NULL : (mlle_cr_context *)&g_ctxo;
    r = real_encdir(g_top, g_rel_null ? NULL : g_rel, g_ctx);
    VP_ASSERT(g_closed == g_opened, "dirs.closed-once"); VP_ASSERT(g_freed == g_created, "encdir.context-freed");
    if (r) { VP_ASSERT(g_opened && g_end && !g_fail && (!g_pkg || g_pkgdone), "encdir.success-only-when-complete"); VP_COVER("encdir.done"); }
    else { VP_ASSERT(g_fail || cls == PKGCASE, "encdir.fails-only-with-a-reason"); VP_COVER("encdir.failed"); }
}
#endif
#ifdef VP_ZIP
static int g_enc;
int ct_zipdir(struct zip_t *z, char *p, char *a, int e) { VP_ASSERT(z == (struct zip_t *)&g_zipo && a == g_arch && !!e == !!g_enc, "zipdir.same-archive"); ONCE(); VP_ASSERT(!dots() && path_of(p) == P2(TOP, NAME), "zipdir.folder-path"); return outcome(); }
int ct_strip(char *s, char *z, size_t n) { seq_t p = path_of(s); VP_ASSERT(n <= 2049, "paths.within-buffer"); rec_set(z, P2(p, STRIPPED)); return 1; }
int ct_add(struct zip_t *z, char *a, char *entry, char *file)
{
    VP_ASSERT(z == (struct zip_t *)&g_zipo && a == g_arch, "zipdir.same-archive"); ONCE();
    VP_ASSERT(!dots() && path_of(file) == P2(TOP, NAME), "zipdir.file-path"); VP_ASSERT(path_of(entry) == P3(TOP, NAME, STRIPPED), "zipdir.entry-name"); VP_ASSERT(!g_enc || !g_mo, "zipdir.no-readable-modelica-file"); return outcome();
}
static void before_next(void)
{
    if (g_fail || !g_phase) { g_phase = 1; return; }
    if (!dots()) { if (g_ent.d_type == DT_DIR) VP_ASSERT(g_calls, "zipdir.every-folder"); if (g_ent.d_type == DT_REG && (!g_enc || !g_mo)) VP_ASSERT(g_calls, "zipdir.every-file"); }
}
int real_zipdir(struct zip_t *, char *, char *, int);
void h_dirs(void)
{
    int r; g_enc = nd_bool(); g_top[0] = 'x'; g_top[1] = (g_top_slash = nd_bool()) ? '/' : 'y'; g_dirpath = P1(TOP);
    r = real_zipdir((struct zip_t *)&g_zipo, g_top, g_arch, g_enc);
    VP_ASSERT(g_closed == g_opened, "dirs.closed-once");
    if (r == 1) { VP_ASSERT(g_opened && g_end && !g_fail, "zipdir.success-only-when-complete"); VP_COVER("zipdir.done"); } else { VP_ASSERT(g_fail, "zipdir.fails-only-with-a-reason"); VP_COVER("zipdir.failed"); }
}
#endif
#ifdef VP_COPY
int vp_mkdir(const char *p, mode_t m) { VP_ASSERT(!g_mk && !g_calls && !dots() && cls != DOTLIB && path_of(p) == P2(TO, NAME), "copydir.folder-path"); VP_ASSERT((m & 0700) == 0700, "copydir.folder-usable"); if (nd_bool()) { g_fail = 1; return -1; } g_mk = 1; return 0; }
int ct_copydir(char *f, char *t) { ONCE(); VP_ASSERT(!dots() && cls != DOTLIB, "copydir.no-dot-library"); VP_ASSERT(g_mk && path_of(f) == P2(TOP, NAME) && path_of(t) == P2(TO, NAME), "copydir.folder-path"); return outcome(); }
int ct_copyfile(char *f, char *t) { ONCE(); VP_ASSERT(!dots() && cls != DOTLIB, "copydir.no-dot-library"); VP_ASSERT(path_of(f) == P2(TOP, NAME) && path_of(t) == P2(TO, NAME), "copydir.file-path"); return outcome(); }
static void before_next(void)
{
    if (g_fail || !g_phase) { g_phase = 1; return; }
    if (!dots() && cls != DOTLIB) { if (g_ent.d_type == DT_DIR) VP_ASSERT(g_calls && g_mk, "copydir.every-folder"); if (g_ent.d_type == DT_REG) VP_ASSERT(g_calls, "copydir.every-file"); }
}
int real_copydir(char *, char *);
void h_dirs(void)
{
    int r; g_top[0] = 'x'; g_top[1] = (g_top_slash = nd_bool()) ? '/' : 'y'; g_dirpath = P1(TOP);
    r = real_copydir(g_top, g_to); VP_ASSERT(g_closed == g_opened, "dirs.closed-once");
    if (r) { VP_ASSERT(g_opened && g_end && !g_fail, "copydir.success-only-when-complete"); VP_COVER("copydir.done"); } else { VP_ASSERT(g_fail, "copydir.fails-only-with-a-reason"); VP_COVER("copydir.failed"); }
}
#endif
#ifdef VP_REMOVE
static int g_rm;
int vp_stat(const char *p, struct stat *s) { VP_ASSERT(path_of(p) == P2(TOP, NAME), "remove.only-its-entries"); if (nd_bool()) { g_fail = 1; return -1; } s->st_mode = g_ent.d_type == DT_DIR ? S_IFDIR | 0700 : S_IFREG | 0600; return 0; }
int vp_unlink(const char *p) { ONCE(); VP_ASSERT(path_of(p) == P2(TOP, NAME) && g_opened && !g_end, "remove.only-its-entries"); return outcome() ? 0 : -1; }
int ct_remove(const char *p) { ONCE(); VP_ASSERT(path_of(p) == P2(TOP, NAME) && g_opened && !g_end && !dots(), "remove.only-its-entries"); return outcome() ? 0 : -1; }
int vp_rmdir(const char *p) { VP_ASSERT(path_of(p) == P1(TOP) && !g_rm && g_end && !g_fail, "remove.directory-last"); if (nd_bool()) { g_fail = 1; return -1; } g_rm = 1; return 0; }
static void before_next(void) { if (g_fail || !g_phase) { g_phase = 1; return; } if (!dots()) VP_ASSERT(g_calls, "remove.every-entry"); }
int real_remove(const char *);
void h_dirs(void)
{
    int r; g_dirpath = P1(TOP); r = real_remove(g_top);
    if (!r) { VP_ASSERT(g_closed == g_opened, "dirs.closed-once"); VP_ASSERT(!g_opened || (g_rm && g_end), "remove.success-only-when-complete"); VP_COVER("remove.done"); } else { VP_ASSERT(g_fail || vp_alloc_failed, "remove.fails-only-with-a-reason"); VP_COVER("remove.failed"); }
}
#endif
#ifdef VP_FIND
extern char *pathToIcon; static char g_sub, *g_icon; static seq_t g_copied; int g_found;
static int g_had;
int ct_find(const char *n, const char *p) { VP_ASSERT(n == g_wanted, "find.that-name"); ONCE(); VP_ASSERT(!dots() && path_of(p) == P2(TOP, NAME), "find.folder-path"); if (!pathToIcon && nd_bool()) { pathToIcon = &g_sub; g_found = 1; } return nd_bool(); }
char *vp_strcpy(char *d, const char *s) { VP_ASSERT(path_of(s) == P2(TOP, NAME) && g_match && g_ent.d_type == DT_REG && !g_had && !g_found, "find.path-of-the-file"); g_found = 1; g_icon = d; return d; }
static void before_next(void)
{
    if (!g_phase) { g_phase = 1; return; }
    if (!dots() && g_ent.d_type == DT_DIR) VP_ASSERT(g_calls || g_found || g_had, "find.every-folder"); if (g_match && g_ent.d_type == DT_REG) VP_ASSERT(g_found || g_had, "find.the-file");
}
int vp_find_inv(const void *e) { return vp_dir_inv(e) && (g_found ? pathToIcon == &g_sub : pathToIcon == (g_had ? &g_file : NULL)) && !(g_found && g_had); }
void vp_find_any(void) { vp_dir_any(); g_found = !g_had && nd_bool(); pathToIcon = g_found ? &g_sub : g_had ? &g_file : NULL; }
int real_find(const char *, const char *);
void h_dirs(void)
{
    g_top[0] = 'x'; g_top[1] = (g_top_slash = nd_bool()) ? '/' : 'y'; g_dirpath = P1(TOP); g_had = nd_bool(); pathToIcon = g_had ? &g_file : NULL; vp_alloc_fails = 0;
    real_find(g_wanted, g_top);
    if (g_had) { VP_ASSERT(pathToIcon == &g_file && !g_found, "find.first-one-kept"); VP_COVER("find.had"); }
    else if (pathToIcon) { VP_ASSERT(g_found && (pathToIcon == &g_sub || pathToIcon == g_icon), "find.path-of-the-file"); VP_COVER("find.found"); }
    else { VP_ASSERT(!g_found && (g_end || !g_opened), "find.all-searched"); VP_COVER("find.none"); }
    VP_ASSERT(g_closed == g_opened, "dirs.closed-once");
}
#endif
