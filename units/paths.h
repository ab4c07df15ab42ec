/* Paths known by what they are made of: a path is a sequence of names (digits to base 64); snprintf joins
 * sequences and every buffer it fills is remembered.  Two names next to each other without a separator make
 * the wrong path (digit 63). */
#ifndef PATHS_H
#define PATHS_H
typedef unsigned long seq_t;
#define P1(a) ((seq_t)(a))
#define P2(a, b) ((seq_t)(a) << 6 | (b))
#define P3(a, b, c) (P2(a, b) << 6 | (c))
#ifndef VP_PATH_ROOM   /* the length a path needs, where the unit knows it */
#define VP_PATH_ROOM(r, n)
#endif
#ifndef NREC
#define NREC 8
#endif
static const char *rec_b[NREC]; static seq_t rec_s[NREC]; static int rec_n;
static seq_t atom_of(const char *s, int *slash);          /* given by the unit; 0: not one of its names */
static void rec_set(const char *b, seq_t s) { int i; for (i = 0; i < rec_n; i++) if (rec_b[i] == b) { rec_s[i] = s; return; } if (rec_n >= NREC) VP_UNSUPPORTED("paths"); rec_b[rec_n] = b; rec_s[rec_n++] = s; }
static seq_t path_of(const char *s)
{
    int i, sl = 0; seq_t a = s ? atom_of(s, &sl) : 0; if (a) return a;
    for (i = 0; i < rec_n; i++) if (rec_b[i] == s) return rec_s[i];
    VP_UNSUPPORTED("unknown path"); return 0;
}
static void rec_forget(void) { int i; for (i = 0; i < rec_n; i++) rec_s[i] = 63; }
static seq_t cat(seq_t a, seq_t b) { for (int i = 0; i < 6; i++) { int d = (int)(b >> (30 - 6 * i)) & 63; if (d) a = a << 6 | d; } return a; }
static seq_t lit_of(const char *m, int *used);            /* literal names in formats, given by the unit */
static seq_t path_format(const char *m, va_list ap)
{
    seq_t r = 0; int sep = 1, u, sl;
    while (*m) {
        if (*m == '/') { sep = 1; m++; continue; }
        if (m[0] == '%' && m[1] == 's') { const char *a = va_arg(ap, const char *); sl = 0; seq_t x = atom_of(a, &sl); if (!x) x = path_of(a); if (!sep) r = r << 6 | 63; r = cat(r, x); sep = sl; m += 2; continue; }
        u = 0; seq_t x = lit_of(m, &u); if (!u) { VP_UNSUPPORTED("format"); }
        if (!sep && x < 32) r = r << 6 | 63; r = r << 6 | x; sep = 0; m += u;
    }
    return r;
}
int vp_snprintf(char *b, size_t n, const char *m, ...) { va_list ap; va_start(ap, m); seq_t r = path_format(m, ap); va_end(ap); VP_PATH_ROOM(r, n); VP_ASSERT(n > 1 && __CPROVER_w_ok(b, n), "paths.within-buffer"); b[0] = 'x'; b[1] = 0; rec_set(b, r); return 1; }
#define W(m, i, t) (m[i] == t)
static int starts(const char *m, const char *w) { int i; for (i = 0; w[i]; i++) if (m[i] != w[i]) return 0; return i; }
#endif
