/* Bounded stand-in and replay for the package tool: whole libraries are packaged with the real
 * code (command line, staging, encryption, manifest, archive), real files below a scratch
 * directory and the real OpenSSL.  The archive library is a stand-in that keeps the entries in
 * memory.  Calls that create, change or remove files are refused outside the scratch directory
 * and reported; any one of them can be made to fail.  CHK selects what is judged. */
#include "vp.h"
#include <errno.h>
#include <unistd.h>
#include <ctype.h>
#include <dirent.h>
#include <ftw.h>
#include <sys/wait.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <openssl/ssl.h>
#include "zip.h"
#include "mlle_cr_decrypt.h"
enum { MANIFEST = 1, PACK = 2 };
#ifndef CHK
#define CHK 255
#endif
#define MUST(cls, c, id) do { if (((CHK) & (cls)) && !(c)) { wipe_all(); VP_ASSERT(0, id); } } while (0)
int pt_main(int, char **);
extern FILE *mlle_log;
static unsigned char K[32];
void vp_key_init(unsigned char *k, int n) { memcpy(k, K, 32); }
void vp_key_clear(unsigned char *k, int n) { memset(k, 0, 32); }
int ssl_write_message(SSL *s, const char *m, size_t n) { return -1; }
static uint64_t rs; int vp_RAND_bytes(unsigned char *b, int n) { for (int i = 0; i < n; i++) { rs = rs * 6364136223846793005ULL + 1442695040888963407ULL; b[i] = (unsigned char)(rs >> 41); } return 1; }
static char top[200]; static size_t topn;
static int rm1(const char *p, const struct stat *s, int t, struct FTW *w) { return strncmp(p, top, topn) ? -1 : remove(p); }
static void wipe_all(void) { if (top[0]) nftw(top, rm1, 20, FTW_DEPTH | FTW_PHYS); top[0] = 0; }
static int inside(const char *p) { return top[0] && p && strncmp(p, top, topn) == 0 && p[topn] == '/' && !strstr(p, ".."); }
static int in_lib(const char *p) { char b[260]; size_t n = sprintf(b, "%s/src/", top); return strncmp(p, b, n) == 0; }
/* ---- faults: the fail_at-th fallible call fails ---- */
enum { OPENR, OPENW, CLOSE, WRITE, READ, GETC, PRINT, FLUSH, MKDIR, CHMOD, OPENDIR, MKDTEMP, ZOPEN, ZENTRY, ZWRITE, ZCLOSE, NKIND };
static int fail_at, fail_kind, calls[NKIND], failed, *dry;
static int fault(int kind) { if (dry) dry[kind]++; if (++calls[kind] != fail_at || kind != fail_kind) return 0; failed = 1; errno = EIO; return 1; }
FILE *vp_fopen(const char *p, const char *m)
{
    if (fault(m[0] == 'r' ? OPENR : OPENW)) return NULL;
    if (m[0] != 'r') { MUST(PACK, inside(p) && !in_lib(p), "pack.changes-only-its-own-files"); if (!inside(p)) return NULL; }
    return fopen(p, m);
}
static FILE *badf;      /* the stream a fault happened on */
int vp_fclose(FILE *f) { int r = fclose(f); if (badf == f) badf = NULL; if (fault(CLOSE)) return EOF; return r; }
size_t vp_fwrite(const void *b, size_t s, size_t n, FILE *f) { if (fault(WRITE)) { badf = f; return fwrite(b, s, n / 2, f); } return fwrite(b, s, n, f); }
size_t vp_fread(void *b, size_t s, size_t n, FILE *f) { if (fault(READ)) { badf = f; return fread(b, s, n / 2, f); } return fread(b, s, n, f); }
int vp_getc(FILE *f) { if (fault(GETC)) { badf = f; return EOF; } return getc(f); }
int vp_fprintf(FILE *f, const char *m, ...) { va_list a; int r; if (f == stderr) return 0; if (fault(PRINT)) { badf = f; return -1; } va_start(a, m); r = vfprintf(f, m, a); va_end(a); return r; }
int vp_fflush(FILE *f) { if (f && fault(FLUSH)) { badf = f; return EOF; } return fflush(f); }
int vp_ferror(FILE *f) { return f == badf || ferror(f); }
int vp_mkdir(const char *p, mode_t m) { if (fault(MKDIR)) return -1; MUST(PACK, inside(p) && !in_lib(p), "pack.changes-only-its-own-files"); return mkdir(p, m); }
int vp_chmod(const char *p, mode_t m) { if (fault(CHMOD)) return -1; MUST(PACK, inside(p) && !in_lib(p), "pack.changes-only-its-own-files"); return chmod(p, m | 0600); }
DIR *vp_opendir(const char *p) { if (fault(OPENDIR)) return NULL; return opendir(p); }
static int gone(const char *p) { char b[260]; MUST(PACK, inside(p) && !in_lib(p), "pack.changes-only-its-own-files"); sprintf(b, "%s/bin", top); MUST(PACK, strncmp(p, b, strlen(b)) != 0, "pack.changes-only-its-own-files"); return inside(p); }
int vp_unlink(const char *p) { return gone(p) ? unlink(p) : -1; }
int vp_rmdir(const char *p) { return gone(p) ? rmdir(p) : -1; }
int vp_remove(const char *p) { return gone(p) ? remove(p) : -1; }
char *vp_mkdtemp(char *t) { static char b[300]; if (fault(MKDTEMP)) return NULL; sprintf(b, "%s/tmp/St%s", top, t + strlen(t) - 6); if (!mkdtemp(b)) return NULL; return b; }
ssize_t vp_readlink(const char *p, char *b, size_t n) { char x[300]; if (strncmp(p, "/proc/", 6)) return -1; int k = sprintf(x, "%s/bin/packagetool", top); memcpy(b, x, k); return k; }
char *vp_getcwd(char *b, size_t n) { char x[300]; sprintf(x, "%s/cwd", top); return strdup(x); }
char *vp_getenv(const char *n) { return strcmp(n, "TMPDIR") == 0 && (rs & 1) ? "/some/other/temporary/directory/with/a/rather/long/name/that/is/not/where/anything/of/the/package/tool/lies/and/that/is/longer/than/every/path/in/this/test/even/the/longest/one/below/the/scratch/directory" : NULL; }
int vp_printf(const char *f, ...) { if (getenv("VP_DBG")) { va_list a; va_start(a, f); vfprintf(stderr, f, a); va_end(a); } return 0; }
/* ---- archive ---- */
struct zip_t { int x; } the_zip;
#define NE 60
static struct ent { char name[300]; unsigned char *p; size_t n; int closed; } E[NE]; static int ne, zopen, zclosed; static char zname[300];
struct zip_t *zip_openwitherror(const char *n, int l, char m, int *e) { *e = -1; if (fault(ZOPEN)) return NULL; *e = 0; MUST(PACK, !zopen && m == 'w', "pack.one-archive"); zopen = 1; snprintf(zname, sizeof zname, "%s", n); return &the_zip; }
const char *zip_strerror(int e) { return "error"; }
void zip_close(struct zip_t *z) { MUST(PACK, z == &the_zip && zopen && !zclosed, "pack.one-archive"); zclosed = 1; }
int zip_entry_open(struct zip_t *z, const char *n) { if (fault(ZENTRY)) return -1; if (ne == NE) _exit(4); MUST(PACK, z == &the_zip && (ne == 0 || E[ne - 1].closed), "pack.one-archive"); snprintf(E[ne].name, 300, "%s", n); E[ne].p = NULL; E[ne].n = 0; E[ne].closed = 0; ne++; return 0; }
static unsigned char *get(const char *p, size_t *n) { FILE *f = fopen(p, "rb"); unsigned char *b; if (!f) return NULL; fseek(f, 0, SEEK_END); *n = ftell(f); rewind(f); b = malloc(*n + 1); if (fread(b, 1, *n, f) != *n) _exit(4); b[*n] = 0; fclose(f); return b; }
int zip_entry_fwrite(struct zip_t *z, const char *f) { if (fault(ZWRITE)) return -1; if (!ne || E[ne - 1].closed) return -1; free(E[ne - 1].p); E[ne - 1].p = get(f, &E[ne - 1].n); return E[ne - 1].p ? 0 : -1; }
int zip_entry_close(struct zip_t *z) { if (fault(ZCLOSE)) return -1; if (!ne || E[ne - 1].closed) return -1; E[ne - 1].closed = 1; return 0; }
/* ---- the library ---- */
static void put(const char *p, const void *b, size_t n) { FILE *f = fopen(p, "wb"); if (!f || (n && fwrite(b, 1, n, f) != n) || fclose(f)) _exit(4); }
#define ND 6
static const char *const dirs[ND] = { "", "A", "A/B", "Resources", "Resources/Images", ".library" };
#define NB 9
static const char *const names[NB] = { "package.mo", "x.mo", "Y.MO", "Package.mo", "data.txt", "noext", "z.mo.txt", "icon.png", ".mo" };
static struct src { int there; unsigned char *p; size_t n; } S[ND][NB]; static char lib[40];
#define NX 3
static const char *const xname[NX] = { "lve_linux64", "lve_win32.exe", "lve_darwin64" }; static int xthere[NX];
static int is_mo(const char *n) { size_t k = strlen(n); return k >= 3 && strcasecmp(n + k - 3, ".mo") == 0; }
static struct ent *entry(const char *n) { struct ent *r = NULL; for (int i = 0; i < ne; i++) if (strcmp(E[i].name, n) == 0) { MUST(PACK, !r, "pack.each-file-once"); r = &E[i]; } return r; }
/* ---- reading the manifest back ---- */
static const unsigned char *mp; static int bad;
static void sp(void) { while (isspace(*mp)) mp++; }
static int eat(const char *s) { size_t n = strlen(s); if (strncmp((const char *)mp, s, n)) return 0; mp += n; return 1; }
static void val(char *b, const char *end) { size_t k = 0; while (*mp && !strchr(end, *mp)) { int c; if (*mp == '<') { bad = 1; return; } if (*mp == '&') { if (eat("&lt;")) c = '<'; else if (eat("&gt;")) c = '>'; else if (eat("&quot;")) c = '"'; else if (eat("&amp;")) c = '&'; else if (eat("&apos;")) c = '\''; else { bad = 1; return; } } else c = *mp++; if (k < 4000) b[k++] = (char)c; } b[k] = 0; }
struct el { char name[40]; struct { char n[40], v[4001]; } a[6]; int na; char text[4001]; struct el *kid[30]; int nk; };
static struct el *parse(int d)
{
    struct el *e; size_t k = 0; if (d > 8 || !eat("<")) { bad = 1; return NULL; } e = calloc(1, sizeof *e);
    while (isalnum(*mp) && k < 39) e->name[k++] = *mp++;
    for (;;) { const unsigned char *b = mp; sp(); if (eat("/>")) return e; if (eat(">")) break; if (b == mp || e->na == 6) { bad = 1; return e; } k = 0; while (isalnum(*mp) && k < 39) e->a[e->na].n[k++] = *mp++; if (!eat("=\"")) { bad = 1; return e; } val(e->a[e->na].v, "\""); if (bad || !eat("\"")) { bad = 1; return e; } for (int i = 0; i < e->na; i++) if (!strcmp(e->a[i].n, e->a[e->na].n)) bad = 1; e->na++; }
    for (;;) { char t[4001]; val(t, "<"); if (bad) return e; if (!e->text[0]) strcpy(e->text, t); else if (strspn(t, " \t\n") != strlen(t)) bad = 1; if (eat("</")) { size_t n = strlen(e->name); if (strncmp((const char *)mp, e->name, n) || mp[n] != '>') bad = 1; mp += n + 1; return e; } if (*mp != '<' || e->nk == 30) { bad = 1; return e; } e->kid[e->nk++] = parse(d + 1); if (bad) return e; }
}
static void drop(struct el *e) { if (!e) return; for (int i = 0; i < e->nk; i++) drop(e->kid[i]); free(e); }
static struct el *kid(struct el *e, const char *n) { struct el *r = NULL; if (e) for (int i = 0; i < e->nk; i++) if (!strcmp(e->kid[i]->name, n)) { if (r) bad = 1; r = e->kid[i]; } return r; }
static const char *attr(struct el *e, const char *n) { if (e) for (int i = 0; i < e->na; i++) if (!strcmp(e->a[i].n, n)) return e->a[i].v; return NULL; }
static int same(const char *a, const char *b) { return !a ? !b : b && !strcmp(a, b); }
static int text(struct el *e, const char *v) { char *t; size_t n; if (!v) return !e; if (!e || e->na) return 0; t = e->text; n = strlen(v); if (!strcmp(t, v)) return 1; while (*t == '\n' || *t == '\t') { if (!strncmp(t, v, n) && strspn(t + n, "\n\t") == strlen(t + n)) return 1; t++; } return !strncmp(t, v, n) && strspn(t + n, "\n\t") == strlen(t + n); }
enum { TITLE, DESC, VER, BUILD, DATE, LANG, COPY, LIC, ENA, NV };
static const char *const opt[NV] = { "-title", "-description", "-version", "-build", "-date", "-language", "-copyright", "-license", "-enabled" };
static char *V[NV];
static char *rnd_text(void) { size_t n = nd_range(0, 9) ? nd_range(1, 12) : nd_range(200, 700); char *b = malloc(n + 1); for (size_t i = 0; i < n; i++) b[i] = "<>&\"' ;abAB%s\\\xc3\x85=/-"[nd_range(0, 18)]; b[n] = 0; if (nd_bool()) { static const char *const tok[] = { "&lt;", "&gt;", "&amp;", "&quot;", "&#38;", "]]>", "<!--", "\r\n", "%s%n", "</title>" }; const char *t = tok[nd_range(0, 9)]; size_t z = strlen(t); if (z <= n) memcpy(b + nd_range(0, n - z), t, z); } if (b[0] == ' ') b[0] = 'x'; if (b[n - 1] == ' ') b[n - 1] = 'y'; return b; }
static void judge_manifest(int enc, int icon, char *tl, size_t tln, char *dl, size_t dln)
{
    char b[300]; struct ent *m; struct el *r, *l, *e, *x; int i, k; unsigned char *copy, *cut;
    sprintf(b, "%s/.library/manifest.xml", lib); m = entry(b); MUST(MANIFEST | PACK, m != NULL, "manifest.there"); if (!m) return;
    MUST(MANIFEST, strlen((char *)m->p) == m->n, "manifest.well-formed");
    /* the two copied parts follow as they are: take them out */
    copy = (unsigned char *)strdup((char *)m->p);
    for (k = 0; k < 2; k++) { char *t = k ? dl : tl; size_t tn = k ? dln : tln; char *line = t, *at = (char *)copy; if (!t) continue;
        for (size_t o = 0; o < tn; ) { size_t z = 0; while (o + z < tn && t[o + z] != '\n') z++; line = malloc(z + 2); memcpy(line, t + o, z); line[z] = '\n'; line[z + 1] = 0; at = strstr(at, line); if (!at) { free(line); free(copy); MUST(MANIFEST, 0, "manifest.other-files-complete"); return; } memset(at, ' ', z + 1); free(line); o += z + 1; } }
    mp = copy; bad = 0; MUST(MANIFEST, eat("<?xml version=\"1.0\" encoding=\"utf-8\"?>\n"), "manifest.well-formed"); sp(); r = parse(0); sp(); if (*mp) bad = 1;
    MUST(MANIFEST, !bad && r && !strcmp(r->name, "archive"), "manifest.well-formed");
    if (!bad && r) {
        e = kid(r, "manifest"); MUST(MANIFEST, e && same(attr(e, "version"), "1.0"), "manifest.format-version");
        l = kid(r, "library"); MUST(MANIFEST, l && same(attr(l, "id"), lib), "manifest.library-id"); MUST(MANIFEST, same(attr(l, "enabled"), V[ENA]), "manifest.enabled");
        MUST(MANIFEST, text(kid(l, "title"), V[TITLE]) && text(kid(l, "description"), V[DESC]) && text(kid(l, "copyright"), V[COPY]) && text(kid(l, "license"), V[LIC]), "manifest.texts-as-given");
        e = kid(l, "version"); MUST(MANIFEST, e && same(attr(e, "number"), V[VER]) && same(attr(e, "build"), V[BUILD]) && same(attr(e, "date"), V[DATE]), "manifest.version-as-given");
        e = kid(l, "language"); MUST(MANIFEST, e && same(attr(e, "version"), V[LANG]), "manifest.language-as-given");
        e = kid(l, "icon"); if (icon < 0) MUST(MANIFEST, !e, "manifest.icon"); else { sprintf(b, "%s/%s", lib, e && attr(e, "file") ? attr(e, "file") : "?"); MUST(MANIFEST, e && entry(b) && strlen(b) > 9 && !strcmp(strrchr(b, '/'), "/icon.png"), "manifest.icon"); }
        e = kid(l, "encryption"); MUST(MANIFEST, !e == !enc, "manifest.encryption");
        for (i = 0; i < NX && e; i++) { sprintf(b, ".library/%s", xname[i]); x = NULL; for (k = 0; k < e->nk; k++) if (same(attr(e->kid[k], "path"), b)) x = e->kid[k]; MUST(MANIFEST, !x == !xthere[i], "manifest.executables"); if (x) { char pl[40]; strcpy(pl, xname[i] + 4); if (strchr(pl, '.')) *strchr(pl, '.') = 0; MUST(MANIFEST, same(attr(x, "platform"), pl) && same(attr(x, "licensing"), "true"), "manifest.executables"); } }
    }
    drop(r); free(copy);
}
static char xml[2][6000]; static size_t xmln[2];
static void make_xml(int k, char *p)
{
    char *b = xml[k]; size_t n = 0; int lines = (int)nd_range(0, 5); static const char *const t[2] = { "compatibility", "dependencies" };
    n += sprintf(b, "<?xml version=\"1.0\"?>\n"); n += sprintf(b + n, "<%s>\n", t[k]);
    for (int i = 0; i < lines; i++) { int z = nd_range(0, 3) ? (int)nd_range(0, 60) : (int)nd_range(150, 900); n += sprintf(b + n, "  <tool name=\"%d%d", k, i); while (z--) b[n++] = "abcdefgh \xff\xc3."[nd_range(0, 11)]; n += sprintf(b + n, "\"/>\n"); }
    n += sprintf(b + n, "</%s>%s", t[k], nd_bool() ? "\n" : ""); xmln[k] = n; put(p, b, n);
}
void h_pack(void)
{
    char b[300], arg_lib[300], arg_icon[300], arg_x[2][300], *av[60]; int ac = 0, i, j, k, rc, enc, icon = -1, kind, oldlib, hasx[2], any, extra; static const char *const xtra[2] = { "info.txt", "sub/x" }; char *given[NV]; char encv[8];
    wipe_all(); if (!getcwd(top, 100)) _exit(4); sprintf(top + strlen(top), "/pk%d", (int)getpid()); topn = strlen(top);
    for (i = 0; i < 6; i++) { static const char *const d[6] = { "", "/src", "/tmp", "/bin", "/cwd", "/bin/LVE" }; sprintf(b, "%s%s", top, d[i]); if (mkdir(b, 0755)) _exit(4); }
    rs = nd_range(0, ULONG_MAX); nd_fill((char *)K, 32); fail_at = 0; failed = 0; ne = zopen = zclosed = 0; vp_alloc_fails = 0; mlle_log = NULL;
    strcpy(lib, nd_bool() ? "Lib" : "My_Library"); oldlib = nd_range(0, 3) == 0; any = 0;
    for (i = 0; i < ND; i++) {
        int have = i == 0 || (i == 5 ? oldlib : nd_range(0, 3) != 0); char dn[300]; struct stat st;
        sprintf(dn, "%s/src/%s%s%s", top, lib, i ? "/" : "", dirs[i]); for (k = (int)strlen(dn) - 1; dn[k] != '/'; k--) ; dn[k] = 0; if (stat(dn, &st)) have = 0; dn[k] = '/';
        if (have && mkdir(dn, 0755)) _exit(4);
        for (j = 0; j < NB; j++) { S[i][j].there = have && nd_range(0, 2) == 0 && !(j == 7 && any); if (!S[i][j].there) continue; if (j == 7 && i != 5) { any = 1; icon = i; } S[i][j].n = nd_range(0, 3) ? nd_range(0, 60) : nd_range(200, 5000); S[i][j].p = malloc(S[i][j].n + 1); for (size_t q = 0; q < S[i][j].n; q++) { rs = rs * 6364136223846793005ULL + 1442695040888963407ULL; S[i][j].p[q] = (unsigned char)(rs >> 40); } sprintf(b, "%s/%s", dn, names[j]); put(b, S[i][j].p, S[i][j].n); }
    }
    for (i = 0; i < NX; i++) { xthere[i] = nd_bool(); sprintf(b, "%s/bin/LVE/%s", top, xname[i]); if (xthere[i]) put(b, xname[i], strlen(xname[i])); }
    enc = nd_range(0, 2) != 0; if (enc) xthere[0] = 1, sprintf(b, "%s/bin/LVE/%s", top, xname[0]), put(b, xname[0], strlen(xname[0]));
    extra = nd_range(0, 3) == 0; if (extra) { sprintf(b, "%s/bin/.library", top); mkdir(b, 0755); sprintf(b, "%s/bin/.library/sub", top); mkdir(b, 0755); for (i = 0; i < 2; i++) { sprintf(b, "%s/bin/.library/%s", top, xtra[i]); put(b, "extra", 5); } }
    sprintf(b, "%s/cwd/%s.mol", top, lib); if (nd_bool()) put(b, "old", 3);
    av[ac++] = "packagetool"; sprintf(arg_lib, "%s/src/%s%s", top, lib, nd_range(0, 3) ? "" : "/"); av[ac++] = "-librarypath"; av[ac++] = arg_lib;
    for (i = 0; i < NV; i++) { V[i] = i == VER || i == LANG || nd_bool() ? rnd_text() : NULL; given[i] = V[i] ? strdup(V[i]) : NULL; if (V[i]) { av[ac++] = (char *)opt[i]; av[ac++] = V[i]; } }
    strcpy(encv, enc ? (nd_bool() ? "true" : "True") : "false"); if (enc || nd_bool()) { av[ac++] = "-encrypt"; av[ac++] = encv; }
    if (icon >= 0 && nd_bool()) { sprintf(arg_icon, "%s/src/%s/%s%sicon.png", top, lib, dirs[icon], icon ? "/" : ""); av[ac++] = "-icon"; av[ac++] = arg_icon; } else icon = -1;
    for (i = 0; i < 2; i++) if ((hasx[i] = nd_bool())) { sprintf(arg_x[i], "%s/x%d.xml", top, i); make_xml(i, arg_x[i]); av[ac++] = i ? "-dependencies" : "-tools"; av[ac++] = arg_x[i]; }
    /* sometimes: a command line that must be refused */
    kind = nd_range(0, 3) ? 0 : (int)nd_range(1, 6);
    if (kind == 1) { av[ac++] = "-title"; if (!V[TITLE]) av[ac - 1] = "-version"; av[ac++] = "twice"; }
    else if (kind == 2) { av[ac++] = "-unknown"; av[ac++] = "x"; }
    else if (kind == 3) { for (i = 1; i < ac; i++) if (!strcmp(av[i], "-version") || (nd_bool() && !strcmp(av[i], "-language"))) break; for (; i + 2 < ac; i++) av[i] = av[i + 2]; ac -= 2; }
    else if (kind == 4) { ac--; if (nd_bool()) av[ac++] = ""; }
    else if (kind == 5) { strcpy(arg_lib + strlen(arg_lib), "missing"); }
    else if (kind == 6) { av[ac++] = ""; av[ac++] = "title"; if (nd_bool()) { av[ac++] = "value"; } }
    if (kind == 6) { char *e = malloc(1); e[0] = 0; av[ac - (ac > 2 && !strcmp(av[ac - 2], "title") ? 3 : 2)] = e; }
    av[ac] = NULL;
    if (kind == 0 && nd_bool()) {   /* count the calls of a run without a fault, then let one of them fail */
        pid_t p; int st; memset(calls, 0, sizeof calls); dry = mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        if ((p = fork()) == 0) { pt_main(ac, av); _exit(0); } waitpid(p, &st, 0);
        fail_kind = (int)nd_range(0, NKIND - 1); fail_at = dry[fail_kind] ? (int)nd_range(1, dry[fail_kind]) : 0; munmap(dry, 4096); dry = NULL;
        if (st) fail_at = 0;
    }
    rc = pt_main(ac, av);
    if (kind) MUST(MANIFEST, rc != 0 && !zopen, "args.bad-command-line-refused");
    else if (!failed) { int odd = 0; for (i = 0; i < ND; i++) odd |= enc && S[i][3].there; if (!odd) MUST(PACK | MANIFEST, rc == 0, "pack.succeeds"); }
    /* the library is as it was */
    for (i = 0; i < ND; i++) for (j = 0; j < NB; j++) if (S[i][j].there) { size_t n; unsigned char *p; sprintf(b, "%s/src/%s/%s%s%s", top, lib, dirs[i], i ? "/" : "", names[j]); p = get(b, &n); MUST(PACK, p && n == S[i][j].n && !memcmp(p, S[i][j].p, n), "pack.library-unchanged"); free(p); }
    /* encrypted: nothing readable is ever in the archive */
    if (enc) for (i = 0; i < ne; i++) MUST(PACK, !is_mo(E[i].name), "pack.no-readable-file-when-encrypted");
    if (rc == 0) {
        mlle_cr_context *c; int files = 0; char base[300];
        MUST(PACK, zopen && zclosed, "pack.archive-closed"); sprintf(b, "%s.mol", lib); MUST(PACK, !strcmp(zname, b), "pack.archive-name");
        /* unpack, then look at every file of the library */
        sprintf(base, "%s/un", top); if (mkdir(base, 0755)) _exit(4);
        for (i = 0; i < ne; i++) { char q[700]; sprintf(q, "%s/un/%s", top, E[i].name); for (k = (int)strlen(base) + 1; q[k]; k++) if (q[k] == '/') { q[k] = 0; mkdir(q, 0755); q[k] = '/'; } MUST(PACK, E[i].closed && E[i].p && !strstr(E[i].name, "..") && E[i].name[0] != '/', "pack.entries"); put(q, E[i].p, E[i].n); }
        sprintf(base, "%s/un/%s/", top, lib); c = mlle_cr_create(base);
        for (i = 0; i < ND - 1; i++) for (j = 0; j < NB; j++) if (S[i][j].there) {
            int e = enc && is_mo(names[j]); struct ent *x; sprintf(b, "%s/%s%s%s%s", lib, dirs[i], i ? "/" : "", names[j], e ? "c" : ""); x = entry(b); files++;
            MUST(PACK, x != NULL, "pack.every-file-in-the-archive"); if (!x) continue;
            if (!e) MUST(PACK, x->n == S[i][j].n && !memcmp(x->p, S[i][j].p, x->n), "pack.exact-contents");
            else { char *o = malloc(x->n + 1), *in = malloc(x->n + 1), r[300]; int n; memcpy(in, x->p, x->n); sprintf(r, "%s%s%sc", dirs[i], i ? "/" : "", names[j]); n = mlle_cr_decrypt(c, r, in, x->n, o); MUST(PACK, n == (int)S[i][j].n && !memcmp(o, S[i][j].p, S[i][j].n), "pack.encrypted-contents"); free(o); free(in); }
        }
        mlle_cr_free(c); files++;
        for (i = 0; i < NX; i++) { struct ent *x; sprintf(b, "%s/.library/%s", lib, xname[i]); x = entry(b); MUST(PACK, !x == !(enc && xthere[i]), "pack.executables"); if (x) { files++; MUST(PACK, x->n == strlen(xname[i]) && !memcmp(x->p, xname[i], x->n), "pack.executables"); } }
        for (i = 0; i < 2 && extra; i++) { struct ent *x; sprintf(b, "%s/.library/%s", lib, xtra[i]); x = entry(b); MUST(PACK, x && x->n == 5 && !memcmp(x->p, "extra", 5), "pack.extra-files"); files++; }
        MUST(PACK, ne == files, "pack.nothing-else");
        for (i = 0; i < NV; i++) { free(V[i]); V[i] = given[i]; given[i] = NULL; }
        judge_manifest(enc, icon, hasx[0] ? strchr(xml[0], '\n') + 1 : NULL, hasx[0] ? xmln[0] - (strchr(xml[0], '\n') + 1 - xml[0]) : 0, hasx[1] ? strchr(xml[1], '\n') + 1 : NULL, hasx[1] ? xmln[1] - (strchr(xml[1], '\n') + 1 - xml[1]) : 0);
        if (!failed) { sprintf(b, "%s/tmp", top); DIR *d = opendir(b); int n = 0; while (readdir(d)) n++; closedir(d); MUST(PACK, n == 2, "pack.temporary-files-removed"); }
    }
    for (i = 0; i < NV; i++) { free(V[i]); V[i] = NULL; free(given[i]); }
    for (i = 0; i < ne; i++) { free(E[i].p); E[i].p = NULL; }
    for (i = 0; i < ND; i++) for (j = 0; j < NB; j++) { if (S[i][j].there) free(S[i][j].p); S[i][j].there = 0; }
    wipe_all();
}
/* every sample in a process of its own: the package tool keeps its state in globals */
void vp_native_harness(void)
{
    int st; pid_t p; fflush(stdout); p = fork(); if (p < 0) _exit(4);
    if (!p) { VP_ENTRY(); fflush(stdout); _exit(0); }
    if (waitpid(p, &st, 0) < 0) _exit(4);
    if (WIFEXITED(st) && WEXITSTATUS(st)) _exit(WEXITSTATUS(st));
    if (WIFSIGNALED(st)) { printf("VP_FAIL killed by signal %d\n", WTERMSIG(st)); fflush(stdout); _exit(42); }
}
