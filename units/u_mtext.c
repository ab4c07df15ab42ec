/* Contract of print_escaped_text (through add_value_attribute): what it writes between the quotes is XML
 * attribute text that reads back as exactly the given characters. */
#include "vp.h"
#include "manifest.h"
void add_value_attribute(const char *element, const char *argument);
int vp_ph_manifest_text; extern FILE *fd; static char g_fobj;
size_t g_n, g_dec, g_k; char *g_text; char g_byte; int g_state, g_bad; static unsigned long g_ent, g_elen;   /* states: 0 before the value, 1 in it, 2 in an entity, 3 after it */
static void dec(char c) { if (g_dec == g_k) g_byte = c; g_dec++; }
static void eat(char c)
{
    if (g_state == 0) { if (c == '"') g_state = 1; return; }
    if (g_state == 3) { g_bad = 1; return; }
    if (g_state == 1) { if (c == '"') g_state = 3; else if (c == '<') g_bad = 1; else if (c == '&') { g_state = 2; g_ent = 0; g_elen = 0; } else dec(c); return; }
    if (c != ';') { if (g_elen >= 4) g_bad = 1; g_ent = g_ent * 256 + (unsigned char)c; g_elen++; return; }
    g_state = 1;
    if (g_ent == 0x6c74) dec('<'); else if (g_ent == 0x6774) dec('>'); else if (g_ent == 0x616d70) dec('&'); else if (g_ent == 0x71756f74) dec('"'); else if (g_ent == 0x61706f73) dec('\''); else g_bad = 1;
}
int vp_fprintf(FILE *f, const char *m, ...)
{
    va_list ap; VP_ASSERT(f == (FILE *)&g_fobj, "manifest.that-file"); va_start(ap, m);
    for (; *m; m++) {
        if (*m != '%') { eat(*m); continue; }
        m++; if (*m == 'c') eat(va_arg(ap, char)); else if (*m == 's') { const char *s = va_arg(ap, const char *); if (s == g_text) VP_UNSUPPORTED("text printed whole"); for (; *s; s++) eat(*s); } else VP_UNSUPPORTED("conversion");
    }
    va_end(ap); return 1;
}
int vp_fputc(int c, FILE *f) { VP_ASSERT(f == (FILE *)&g_fobj, "manifest.that-file"); eat((char)c); return c; }
int vp_fputs(const char *s, FILE *f) { if (s == g_text) VP_UNSUPPORTED("text printed whole"); for (; *s; s++) vp_fputc(*s, f); return 1; }
size_t vp_strlen(const char *s) { if (s != g_text) VP_UNSUPPORTED("strlen"); return g_n; }
char *getValueOf(const char *k) { return k[0] == 'k' ? g_text : NULL; }
void h_mtext(void)
{
    g_n = nd_range(0, INT_MAX - 1); g_text = nd_buf(g_n + 1); g_text[g_n] = 0; g_k = nd_u64(); g_dec = 0; g_state = g_bad = 0; fd = (FILE *)&g_fobj; vp_ph_manifest_text = 0;
    VP_ASSUME(g_n == 0 || (g_text[0] != 0 && g_text[g_n - 1] != 0)); VP_ASSUME(g_k >= g_n || g_text[g_k] != 0);
#ifdef VP_UNWOUND
    VP_ASSUME(g_n <= 3); for (int i = 0; i < 3; i++) VP_ASSUME((size_t)i >= g_n || g_text[i] != 0);
#endif
    add_value_attribute("element", "k");
    VP_ASSERT(!g_bad && g_state == 3, "manifest.well-formed");
    VP_ASSERT(g_dec == g_n, "manifest.whole-text"); VP_ASSERT(g_k >= g_n || g_byte == g_text[g_k], "manifest.text-as-given");
    if (g_n) VP_COVER("manifest.text"); else VP_COVER("manifest.empty-text");
}
