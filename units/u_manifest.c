/* Contract of createManifestFile: success means that a well-formed manifest was written completely, with
 * exactly the elements, attributes and texts of the options given, the executables that were put in, and the
 * tools and dependencies files from their second line on.  Everything written goes through a ghost XML
 * reader; texts are known by identity (print_escaped_text by its contract, unit manifest_text). */
#include "vp.h"
#include "manifest.h"
#include "utils.h"
typedef unsigned __int128 name_t;
extern FILE *fd; static char g_out, g_xml, g_key[14], g_lib, g_icon, g_dot[2]; static int given[14], g_enc; static char *g_lve[NO_OF_LVE], g_lvename[NO_OF_LVE][2]; static char *g_plat[NO_OF_LVE];
#ifdef VP_WRITE_ERRORS
#define FAILS() nd_bool()     /* any write may fail: only the result is judged */
#define NOTE(c) ((void)0)
#else
#define FAILS() 0
#define NOTE(c) (g_copying ? copied(c) : eat(c))
#endif
int g_werr; static int g_closed, g_opened, g_failed; static char *g_path;
int vp_ph_manifest_copy;
enum { LIBRARYPATH, ENABLED, TITLE, DESCRIPTION, VERSION, BUILD, DATE, LANGUAGE, COPYRIGHT, LICENSE, ENCRYPT, ICON, TOOLS, DEPENDENCIES };
static int key(const char *s) { static const char *const n[14] = { "librarypath", "enabled", "title", "description", "version", "build", "date", "language", "copyright", "license", "encrypt", "icon", "tools", "dependencies" }; for (int k = 0; k < 14; k++) if (s == n[k]) return k; VP_UNSUPPORTED("option"); return 0; }
char *getValueOf(const char *k) { int i = key(k); return given[i] ? &g_key[i] : NULL; }
int containsKey(char *k) { return given[key(k)]; }
char *getLibraryName(void) { return &g_lib; } char *getDotLibraryPath(void) { return g_dot; } int usingEncryption(void) { return g_enc; } char **getLveList(void) { return g_lve; } char *getIconPath(void) { return &g_icon; }
static const char *rec_buf; static int rec_kind, rec_lve;      /* what the last path made by snprintf says */
int snprintf(char *b, size_t n, const char *m, ...)
{
    va_list ap; va_start(ap, m); const char *a = va_arg(ap, const char *); va_end(ap); rec_buf = b; rec_kind = 0;
    if (n < 2) VP_UNSUPPORTED("size");
    if (m[0] == '%' && m[1] == 's' && m[2] == '/') { VP_ASSERT(a == g_dot && m[3] == 'm' && m[11] == '.' && m[12] == 'x' && m[15] == 0, "manifest.place"); rec_kind = 1; }
    else if (m[0] == '.' && m[1] == 'l' && m[7] == 'y' && m[8] == '/' && m[9] == '%' && m[10] == 's' && m[11] == 0) { rec_kind = 2; rec_lve = -1; for (int j = 0; j < NO_OF_LVE; j++) if (a == g_lvename[j]) rec_lve = j; if (rec_lve < 0) VP_UNSUPPORTED("executable name"); }
    else VP_UNSUPPORTED("snprintf format");
    b[0] = 'x'; b[1] = 0; return 1;
}
char *ct_platform(char *f) { int j; for (j = 0; j < NO_OF_LVE; j++) if (f == g_lvename[j]) break; VP_ASSERT(j < NO_OF_LVE, "manifest.platform-of-an-executable"); if (nd_bool()) { g_failed = 1; return NULL; } return g_plat[j] = malloc(1); }
/* ---- reading the text back ---- */
enum { TEXT, LT, PI, NAME, CNAME, IN_TAG, ANAME, EQ, AVAL, SELF, AFTER_CLOSE };
static int st, depth, g_any, g_selfclosed; static name_t nm, an, stack[6]; static const char *aval, *tval; static int has_t;
/* names, as the numbers their characters make */
#define N_archive ((name_t)0x0UL << 64 | 0x61726368697665UL)
#define N_build ((name_t)0x0UL << 64 | 0x6275696c64UL)
#define N_copyright ((name_t)0x63UL << 64 | 0x6f70797269676874UL)
#define N_date ((name_t)0x0UL << 64 | 0x64617465UL)
#define N_description ((name_t)0x646573UL << 64 | 0x6372697074696f6eUL)
#define N_enabled ((name_t)0x0UL << 64 | 0x656e61626c6564UL)
#define N_encryption ((name_t)0x656eUL << 64 | 0x6372797074696f6eUL)
#define N_executable ((name_t)0x6578UL << 64 | 0x6563757461626c65UL)
#define N_file ((name_t)0x0UL << 64 | 0x66696c65UL)
#define N_icon ((name_t)0x0UL << 64 | 0x69636f6eUL)
#define N_id ((name_t)0x0UL << 64 | 0x6964UL)
#define N_language ((name_t)0x0UL << 64 | 0x6c616e6775616765UL)
#define N_library ((name_t)0x0UL << 64 | 0x6c696272617279UL)
#define N_license ((name_t)0x0UL << 64 | 0x6c6963656e7365UL)
#define N_licensing ((name_t)0x6cUL << 64 | 0x6963656e73696e67UL)
#define N_manifest ((name_t)0x0UL << 64 | 0x6d616e6966657374UL)
#define N_number ((name_t)0x0UL << 64 | 0x6e756d626572UL)
#define N_path ((name_t)0x0UL << 64 | 0x70617468UL)
#define N_platform ((name_t)0x0UL << 64 | 0x706c6174666f726dUL)
#define N_title ((name_t)0x0UL << 64 | 0x7469746c65UL)
#define N_version ((name_t)0x0UL << 64 | 0x76657273696f6eUL)
/* what must be there: one flag per item, set when seen */
enum { S_ARCHIVE, S_MANIFEST, S_MVERSION, S_LIBRARY, S_ID, S_ENABLED, S_TITLE, S_DESCRIPTION, S_VERSION, S_NUMBER, S_BUILD, S_DATE, S_LANGUAGE, S_LVERSION, S_COPYRIGHT, S_LICENSE, S_ENCRYPTION, S_ICON, S_FILE, NS };
static int seen[NS], texts[14], ex_seen[NO_OF_LVE], ex_path, ex_plat, ex_lic, g_tools, g_deps;
static void once(int s) { VP_ASSERT(!seen[s], "manifest.each-item-once"); seen[s] = 1; }
static void opened(void)
{
    name_t p = depth ? stack[depth - 1] : 0; int top = p == N_archive && depth == 1, lib = p == N_library && depth == 2;
    has_t = 0;
    if (nm == N_archive) { VP_ASSERT(depth == 0, "manifest.structure"); once(S_ARCHIVE); }
    else if (nm == N_manifest) { VP_ASSERT(top, "manifest.structure"); once(S_MANIFEST); }
    else if (nm == N_library) { VP_ASSERT(top, "manifest.structure"); once(S_LIBRARY); }
    else if (nm == N_executable) { VP_ASSERT(p == N_encryption && depth == 3, "manifest.structure"); ex_path = ex_plat = ex_lic = -1; }
    else {
        VP_ASSERT(lib, "manifest.structure");
        if (nm == N_title) once(S_TITLE); else if (nm == N_description) once(S_DESCRIPTION); else if (nm == N_version) once(S_VERSION); else if (nm == N_language) once(S_LANGUAGE); else if (nm == N_copyright) once(S_COPYRIGHT);
        else if (nm == N_license) once(S_LICENSE); else if (nm == N_encryption) once(S_ENCRYPTION); else if (nm == N_icon) once(S_ICON); else VP_ASSERT(0, "manifest.nothing-else");
    }
    VP_ASSERT(depth < 5, "manifest.structure"); stack[depth] = nm; depth++;
}
static void item(int s, int ok) { once(s); VP_ASSERT(ok, "manifest.value-as-given"); }
static int lit(const char *v, const char *w) { return v == w; }
static void attribute(void)
{
    name_t e = stack[depth - 1];
    if (e == N_manifest && an == N_version) item(S_MVERSION, lit(aval, "1.0"));
    else if (e == N_library && an == N_id) item(S_ID, aval == &g_lib);
    else if (e == N_library && an == N_enabled) item(S_ENABLED, given[ENABLED] && aval == &g_key[ENABLED]);
    else if (e == N_version && an == N_number) item(S_NUMBER, aval == &g_key[VERSION]);
    else if (e == N_version && an == N_build) item(S_BUILD, given[BUILD] && aval == &g_key[BUILD]);
    else if (e == N_version && an == N_date) item(S_DATE, given[DATE] && aval == &g_key[DATE]);
    else if (e == N_language && an == N_version) item(S_LVERSION, aval == &g_key[LANGUAGE]);
    else if (e == N_icon && an == N_file) item(S_FILE, aval == &g_icon);
    else if (e == N_executable && an == N_path) { VP_ASSERT(ex_path < 0 && aval == rec_buf && rec_kind == 2, "manifest.executable-path"); ex_path = rec_lve; }
    else if (e == N_executable && an == N_platform) { VP_ASSERT(ex_plat < 0, "manifest.each-item-once"); for (int j = 0; j < NO_OF_LVE; j++) if (g_plat[j] && aval == g_plat[j]) ex_plat = j; VP_ASSERT(ex_plat >= 0, "manifest.executable-platform"); }
    else if (e == N_executable && an == N_licensing) { VP_ASSERT(ex_lic < 0 && lit(aval, "true"), "manifest.executable-licensing"); ex_lic = 1; }
    else VP_ASSERT(0, "manifest.nothing-else");
}
static void closed(void)
{
    VP_ASSERT(depth > 0, "manifest.well-formed"); depth--; name_t e = stack[depth];
    if (e == N_executable) { VP_ASSERT(ex_path >= 0 && ex_plat == ex_path && ex_lic == 1, "manifest.executable-complete"); VP_ASSERT(!ex_seen[ex_path], "manifest.each-item-once"); ex_seen[ex_path] = 1; }
    int t = e == N_title ? TITLE : e == N_description ? DESCRIPTION : e == N_copyright ? COPYRIGHT : e == N_license ? LICENSE : -1;
    if (t >= 0) { VP_ASSERT(has_t && given[t] && tval == &g_key[t], "manifest.text-as-given"); texts[t] = 1; } else VP_ASSERT(!has_t, "manifest.no-other-text");
    has_t = 0;
}
static void value(const char *v)
{
    if (st == AVAL) { VP_ASSERT(!aval, "manifest.one-value"); aval = v; }
    else { VP_ASSERT(st == TEXT && depth == 3 && !has_t, "manifest.text-in-its-element"); has_t = 1; tval = v; }
}
static void eat(char c)
{
    switch (st) {
    case TEXT: if (c == '<') st = LT; else VP_ASSERT(c == '\n' || c == '\t' || c == ' ', "manifest.no-other-text"); break;
    case LT: nm = 0; if (c == '?') { VP_ASSERT(!g_any, "manifest.prolog-first"); st = PI; } else if (c == '/') st = CNAME; else { st = NAME; nm = (unsigned char)c; } g_any = 1; break;
    case PI: if (c == '>') st = TEXT; break;
    case NAME: if (c == ' ' || c == '>' || c == '/') { opened(); st = c == ' ' ? IN_TAG : c == '/' ? SELF : TEXT; } else { VP_ASSERT(c > ' ' && c != '<' && c != '"' && c != '&', "manifest.well-formed"); nm = nm << 8 | (unsigned char)c; } break;
    case IN_TAG: if (c == '>') st = TEXT; else if (c == '/') st = SELF; else if (c != ' ') { st = ANAME; an = (unsigned char)c; } break;
    case ANAME: if (c == '=') st = EQ; else { VP_ASSERT(c > ' ' && c != '<' && c != '>' && c != '"' && c != '/', "manifest.well-formed"); an = an << 8 | (unsigned char)c; } break;
    case EQ: VP_ASSERT(c == '"', "manifest.well-formed"); st = AVAL; aval = NULL; break;
    case AVAL: if (c != '"') VP_UNSUPPORTED("literal attribute value"); VP_ASSERT(aval != NULL, "manifest.value-as-given"); attribute(); st = IN_TAG + 100; break;
    case IN_TAG + 100: VP_ASSERT(c == ' ' || c == '>' || c == '/', "manifest.well-formed"); st = c == ' ' ? IN_TAG : c == '/' ? SELF : TEXT; break;
    case SELF: VP_ASSERT(c == '>', "manifest.well-formed"); closed(); st = TEXT; break;
    case CNAME: if (c == '>') { VP_ASSERT(depth > 0 && stack[depth - 1] == nm, "manifest.well-formed"); closed(); st = TEXT; } else nm = nm << 8 | (unsigned char)c; break;
    }
}
void ct_text(const char *t) { VP_ASSERT(t != NULL, "manifest.value-as-given"); 
#ifndef VP_WRITE_ERRORS
    value(t);
#endif
    if (FAILS()) g_werr = 1; }
/* ---- copying a file ---- */
size_t g_N, g_nl, g_rd; int g_pend, g_pb, g_ls, g_hasnl, g_rerr, g_copying, g_eof, g_lastnl; static char *g_what;
static void copied(char c)
{
    if (g_pend && c == (char)g_pb) { g_pend = 0; g_lastnl = c == '\n'; if (c == '\n') g_ls = 1; else if (c != '\t') g_ls = 0; return; }
    if (c == '\t' && g_ls) return;
    VP_ASSERT(c == '\n' && (g_eof || g_rerr) && !g_lastnl, "manifest.copied-as-it-is"); g_lastnl = 1; g_ls = 1;
}
int vp_fprintf(FILE *f, const char *m, ...)
{
    va_list ap; VP_ASSERT(f == (FILE *)&g_out && g_opened && !g_closed, "manifest.that-file"); va_start(ap, m);
    for (; *m; m++) {
        if (*m != '%') { NOTE(*m); continue; }
        m++; if (*m == 'c') { char c = va_arg(ap, char); NOTE(c); }
        else if (*m == 's') { const char *s = va_arg(ap, const char *); for (; *s; s++) NOTE(*s); } else VP_UNSUPPORTED("conversion");
    }
    va_end(ap); if (FAILS()) { g_werr = 1; return -1; } return 1;
}
int vp_fputc(int c, FILE *f) { VP_ASSERT(f == (FILE *)&g_out && g_opened && !g_closed, "manifest.that-file"); NOTE((char)c); if (FAILS()) { g_werr = 1; return EOF; } return (unsigned char)c; }
int vp_fputs(const char *s, FILE *f) { VP_ASSERT(f == (FILE *)&g_out && g_opened && !g_closed, "manifest.that-file"); for (; *s; s++) NOTE(*s); if (FAILS()) { g_werr = 1; return EOF; } return 1; }
FILE *vp_fopen(const char *p, const char *m)
{
    if (m[0] == 'w') { VP_ASSERT(!g_opened && p == rec_buf && rec_kind == 1, "manifest.place"); if (nd_bool()) return NULL; g_opened = 1; return (FILE *)&g_out; }
    VP_ASSERT(m[0] == 'r' && !g_copying, "manifest.other-file-read"); VP_ASSERT(given[TOOLS] && p == &g_key[TOOLS] || given[DEPENDENCIES] && p == &g_key[DEPENDENCIES], "manifest.other-file-read");
    if (nd_bool()) { g_failed = 1; return NULL; }
    g_N = nd_range(0, 1UL << 60); g_hasnl = nd_bool(); g_nl = nd_u64(); VP_ASSUME(!g_hasnl || g_nl < g_N); g_rd = 0; g_pend = 0; g_rerr = g_eof = 0; g_ls = 1; g_lastnl = 1; g_copying = 1; g_what = (char *)p; vp_ph_manifest_copy = 0;
#ifndef VP_WRITE_ERRORS
    VP_ASSERT(st == TEXT && depth == 2 && stack[1] == N_library, "manifest.structure");
#endif
    return (FILE *)&g_xml;
}
int vp_getc(FILE *f)
{
    VP_ASSERT(f == (FILE *)&g_xml && g_copying, "manifest.other-file-read"); 
#ifndef VP_WRITE_ERRORS
    VP_ASSERT(!g_pend, "manifest.copied-whole");
#endif
    if (g_rd >= g_N) { g_eof = 1; return EOF; }
    if (nd_bool()) { g_rerr = 1; return EOF; }
    unsigned char c = nd_u8(); size_t p = g_rd++; VP_ASSUME((g_hasnl && p == g_nl) ? c == '\n' : (!g_hasnl || p < g_nl) ? c != '\n' : 1);
    if (g_hasnl && p > g_nl) { g_pend = 1; g_pb = c; }
    return c;
}
int vp_ferror(FILE *f) { if (f == (FILE *)&g_xml && g_copying) return g_rerr; VP_ASSERT(f == (FILE *)&g_out && g_opened && !g_closed, "manifest.that-file"); return g_werr; }
int vp_fclose(FILE *f)
{
    if (f == (FILE *)&g_xml) {
        VP_ASSERT(g_copying, "manifest.closed-once"); g_copying = 0;
        if (g_rerr) g_failed = 1; else { VP_ASSERT(g_eof, "manifest.copied-whole"); 
#ifndef VP_WRITE_ERRORS
            VP_ASSERT(!g_pend && g_lastnl, "manifest.copied-whole");
#endif
        }
        if (g_what == &g_key[TOOLS]) { VP_ASSERT(!g_tools, "manifest.each-item-once"); g_tools = 1; } else { VP_ASSERT(!g_deps, "manifest.each-item-once"); g_deps = 1; }
        return 0;
    }
    VP_ASSERT(f == (FILE *)&g_out && g_opened && !g_closed, "manifest.closed-once"); g_closed = 1; if (FAILS()) { g_werr = 1; return EOF; } return 0;
}
int vp_printf(const char *f, ...) { return 0; }
void h_manifest(void)
{
    int r, j, any = 0;
    for (j = 0; j < 14; j++) given[j] = nd_bool();
    VP_ASSUME(given[LIBRARYPATH] && given[VERSION] && given[LANGUAGE]); g_enc = given[ENCRYPT] && nd_bool();
    for (j = 0; j < NO_OF_LVE; j++) { g_lve[j] = nd_bool() ? g_lvename[j] : NULL; any |= g_lve[j] != NULL; }
    r = createManifestFile();
    VP_ASSERT(g_closed == g_opened, "manifest.closed-once"); VP_ASSERT(!g_copying, "manifest.closed-once");
    if (!r) { VP_ASSERT(!g_opened || g_failed || g_werr, "manifest.fails-only-with-a-reason"); VP_COVER("manifest.failed"); return; }
    VP_ASSERT(g_opened && !g_werr && !g_failed, "manifest.success-only-when-complete");
#ifdef VP_WRITE_ERRORS
    VP_COVER("manifest.written");
#else
    VP_ASSERT(st == TEXT && depth == 0 && seen[S_ARCHIVE], "manifest.well-formed");
    VP_ASSERT(seen[S_MANIFEST] && seen[S_MVERSION] && seen[S_LIBRARY] && seen[S_ID] && seen[S_VERSION] && seen[S_NUMBER] && seen[S_LANGUAGE] && seen[S_LVERSION], "manifest.mandatory-parts");
    VP_ASSERT(seen[S_ENABLED] == given[ENABLED] && seen[S_BUILD] == given[BUILD] && seen[S_DATE] == given[DATE] && seen[S_ICON] == given[ICON] && seen[S_FILE] == given[ICON], "manifest.parts-exactly-when-given");
    VP_ASSERT(texts[TITLE] == given[TITLE] && texts[DESCRIPTION] == given[DESCRIPTION] && texts[COPYRIGHT] == given[COPYRIGHT] && texts[LICENSE] == given[LICENSE], "manifest.parts-exactly-when-given");
    VP_ASSERT(g_tools == given[TOOLS] && g_deps == given[DEPENDENCIES], "manifest.parts-exactly-when-given");
    VP_ASSERT(seen[S_ENCRYPTION] == g_enc, "manifest.encryption-exactly-when-used");
    for (j = 0; j < NO_OF_LVE; j++) VP_ASSERT(ex_seen[j] == (g_enc && g_lve[j] != NULL), "manifest.executables-exactly-those-put-in");
    if (g_enc && any && given[TOOLS]) VP_COVER("manifest.encrypted"); else VP_COVER("manifest.plain");
#endif
}
