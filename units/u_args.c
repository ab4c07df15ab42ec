/* Contract of validateArguments, getValueOf, containsKey, validateMandatoryArguments, helpRequested and the
 * validate* functions: a command line is accepted exactly when it consists of documented options, each given
 * once and with a value, and afterwards every option has exactly the value given.
 * An argument is known by what it says (its option after the first character, or other text); the option
 * names are compared by identity of their text (CBMC keeps one object per literal text). */
#include "vp.h"
#include "arguments.h"
#define NARG 31
enum { K_OTHER = 14, K_ONE, K_EMPTY, K_HELP, K_SHORT };   /* below 14: the option of that number */
static char A[NARG][2];    /* first character; what the rest says: 0 nothing, k+1 option k, 15 anything else */
static int cls[NARG], low_true[NARG], exists_[NARG]; static char low[2]; static int g_low = -1;
static const char *name(int k)
{ switch (k) { case 0: return "librarypath"; case 1: return "enabled"; case 2: return "title"; case 3: return "description"; case 4: return "version"; case 5: return "build"; case 6: return "date"; case 7: return "language"; case 8: return "copyright"; case 9: return "license"; case 10: return "encrypt"; case 11: return "icon"; case 12: return "tools"; default: return "dependencies"; } }
/* what a text says: 0 nothing, k+1 option k, 15 other, 20 a whole argument, 22.. other literals */
static int lit(const char *s)
{
    return s == "" ? 0 : s == "librarypath" ? 1 : s == "enabled" ? 2 : s == "title" ? 3 : s == "description" ? 4 : s == "version" ? 5 : s == "build" ? 6 : s == "date" ? 7 : s == "language" ? 8 : s == "copyright" ? 9 : s == "license" ? 10 : s == "encrypt" ? 11 : s == "icon" ? 12
        : s == "tools" ? 13 : s == "dependencies" ? 14 : s == "--help" ? 22 : s == "-h" ? 23 : s == "true" ? 25 : s == low ? 24 : -1;
}
#ifdef VP_HELP
int vp_strcmp(const char *a, const char *b) { const char *t = a; if (lit(a) < 0) { a = b; b = t; } int x = lit(a); if ((x != 22 && x != 23) || !__CPROVER_same_object(b, A)) VP_UNSUPPORTED("text"); return cls[__CPROVER_POINTER_OFFSET(b) / 2] != (x == 22 ? K_HELP : K_SHORT); }
#else
static int says(const char *s) { int l = lit(s); if (l >= 0) return l; if (!__CPROVER_same_object(s, A)) VP_UNSUPPORTED("text"); if (s[0] == 0) VP_UNSUPPORTED("empty name looked up"); return s[0]; }
int vp_strcmp(const char *a, const char *b)
{
    if (b == "") {
        if (a == "") return 0;
        if (!__CPROVER_same_object(a, A)) VP_UNSUPPORTED("text");
        if (__CPROVER_POINTER_OFFSET(a) & 1) { VP_ASSERT(a[-1] != 0, "args.no-read-past-an-argument"); if (a[0] == 0) VP_UNSUPPORTED("empty name looked up"); return 1; }
        return a[0] != 0;
    }
    int x = says(a), y = says(b);
    if (x == 24 || y == 24) { if (x != 25 && y != 25) VP_UNSUPPORTED("lower case text"); return !low_true[g_low]; }
    if (x == 40 || y == 40) VP_UNSUPPORTED("whole argument compared");
    return x != y;
}
#endif
static int at(const char *v) { size_t o = __CPROVER_POINTER_OFFSET(v); if (!__CPROVER_same_object(v, A) || o % 2) VP_UNSUPPORTED("value"); return (int)(o / 2); }
char *stringToLower(char *s) { g_low = at(s); return low; }
static int g_lves; int countLVE(void) { return g_lves; }
int fileExists(char *p) { return exists_[at(p)]; }
static int g_pathok; static const char *g_path; int validatePath(char *p) { g_path = p; return g_pathok; }
int vp_printf(const char *f, ...) { return 0; } int vp_fflush(FILE *f) { return 0; }
#ifdef VP_HELP
void h_args(void)
{
    char *argv[NARG + 1]; int argc = (int)nd_range(1, NARG), i, help = 0;
    for (i = 0; i <= NARG; i++) argv[i] = i < NARG ? A[i] : NULL;
    for (i = 0; i < NARG; i++) { cls[i] = (int)nd_range(0, K_SHORT); if (i && i < argc && (cls[i] == K_HELP || cls[i] == K_SHORT)) help = 1; }
    VP_ASSERT(helpRequested(argc, argv) == help, "args.help"); if (help) VP_COVER("args.help"); else VP_COVER("args.no-help");
}
#else
/* the loop over the command line: i = 2n+1 with n options read, all well formed, and stored in this order */
int vp_ph_args, g_argc; static int okp[17]; extern char *manifestData[2][MAX_ARGUMENTS];
int vp_args_inv(int i)
{
    int n = i / 2, j; if (i < 1 || i >= g_argc || i > 29 || !(i & 1) || !okp[n]) return 0;
    for (j = 0; j < MAX_ARGUMENTS; j++) if (j < n ? manifestData[0][j] != &A[2 * j + 1][1] || manifestData[1][j] != A[2 * j + 2] : vp_strcmp(manifestData[0][j], "") != 0) return 0;
    return 1;
}
int vp_args_any(void)
{
    int i = (int)nd_range(0, 14) * 2 + 1, n = i / 2, j; VP_ASSUME(i < g_argc && okp[n]);
    for (j = 0; j < MAX_ARGUMENTS; j++) { manifestData[0][j] = j < n ? &A[2 * j + 1][1] : ""; manifestData[1][j] = j < n ? A[2 * j + 2] : ""; }
    return i;
}
void h_args(void)
{
    char *argv[NARG]; int argc = g_argc = (int)nd_range(1, 0x7ffffffe), i, k, ok, r, seen[14];
    for (i = 0; i < NARG; i++) argv[i] = A[i];       /* arguments beyond the first 31 are never looked at */
    for (k = 0; k < 14; k++) seen[k] = 0;
    for (i = 0; i < NARG; i++) {
        cls[i] = (int)nd_range(0, K_SHORT); A[i][0] = cls[i] == K_EMPTY ? 0 : 40; A[i][1] = cls[i] == K_EMPTY || cls[i] == K_ONE ? 0 : cls[i] < 14 ? cls[i] + 1 : 15; low_true[i] = nd_bool(); exists_[i] = nd_bool();
    }
    okp[0] = 1; ok = 1;
    for (k = 0; k < 15; k++) {
        i = 2 * k + 1;
        if (i < argc && ok) { if (cls[i] >= 14 || seen[cls[i] < 14 ? cls[i] : 0] || i + 1 >= argc || cls[i + 1] == K_EMPTY) ok = 0; else seen[cls[i]] = i + 1; }
        okp[k + 1] = ok;
    }
    if (argc > 29) VP_ASSUME(!ok);        /* lemma (pigeonhole): among 15 options of 14 names one is not valid or is given twice */
    r = validateArguments(argc, argv);
    VP_ASSERT((r != 0) == ok, "args.accepted-exactly-when-well-formed");
    if (!ok) { VP_COVER("args.refused"); return; }
    k = (int)nd_range(0, 13);
    VP_ASSERT((containsKey((char *)name(k)) != 0) == (seen[k] != 0), "args.given");
    VP_ASSERT(getValueOf(name(k)) == (seen[k] ? argv[seen[k]] : NULL), "args.value");
    r = validateMandatoryArguments(); VP_ASSERT((r != 0) == (seen[0] && seen[4] && seen[7]), "args.mandatory");
    if (!r) { VP_COVER("args.mandatory-missing"); return; }
    g_lves = (int)nd_range(0, 5); g_pathok = nd_bool();
    VP_ASSERT((validateLibraryPath() != 0) == (g_pathok && g_path == argv[seen[0]]), "args.library-path"); VP_ASSERT(g_path == argv[seen[0]], "args.library-path");
    VP_ASSERT((validateEncryption() != 0) == (!seen[10] || !low_true[seen[10]] || g_lves > 0), "args.encryption-needs-executables");
    k = nd_bool() ? 12 : 13; VP_ASSERT((validateXmlFile((char *)name(k)) != 0) == (!seen[k] || exists_[seen[k]]), "args.files-exist");
    VP_ASSERT((validateIcon() != 0) == (!seen[11] || exists_[seen[11]]), "args.files-exist");
    if (argc == 29) VP_COVER("args.all-options"); else VP_COVER("args.accepted");
}
#endif
