/* Contract of mlle_tokenize, unbounded string length.
 *
 * The input is S[0..N) with terminator; its first non-empty line is [ls,le) and
 * holds words [wa[i],wb[i]).  The bytes are described by region (class_at), so
 * the universally quantified clauses of strtok_r's contract are instantiated at
 * the finitely many region boundaries. */
#include "vp.h"
#include "mlle_parse_command.h"
#ifdef VP_PROOF
static char *S; static size_t N;
static size_t ls, le, wa[4], wb[4]; static int nw;   /* nw == 4: four words or more */
static size_t cuts[6]; static int ncuts;
enum cls { C_NUL, C_NL, C_SP, C_W };
static enum cls class_at(size_t k)
{
    for (int i = 0; i < 6; i++) if (i < ncuts && cuts[i] == k) return C_NUL;
    if (k == N) return C_NUL;
    if (k < ls || k == le) return C_NL;
    if (k > le) { enum cls c; __CPROVER_assume(c == C_NL || c == C_SP || c == C_W); return c; }
    for (int i = 0; i < 4; i++) if (i < nw && k >= wa[i] && k < wb[i]) return C_W;
    if (nw == 4 && k > wb[3]) { enum cls c; __CPROVER_assume(c == C_SP || c == C_W); return c; }
    return C_SP;
}
static int in_set(enum cls c, const char *d)
{
    for (int i = 0; i < 3; i++) { if (!d[i]) break; if ((d[i] == '\n' && c == C_NL) || (d[i] == ' ' && c == C_SP)) return 1; }
    return 0;
}
char *strtok_r(char *s, const char *d, char **save)
{
    size_t cur, p, q;
    if (!s) s = *save;
    __CPROVER_assert(__CPROVER_same_object(s, S), "UNSUPPORTED:strtok_r on another object");
    cur = __CPROVER_POINTER_OFFSET(s);
    __CPROVER_assert(cur <= N, "strtok_r: argument inside the string");
    size_t W[18] = { 0, ls, le, N, wa[0], wa[1], wa[2], wa[3], wb[0], wb[1], wb[2], wb[3], cuts[0], cuts[1], cuts[2], cuts[3], cuts[4], cuts[5] };
    __CPROVER_assume(p >= cur && p <= N);
    enum cls cp = class_at(p);
    __CPROVER_assume(cp == C_NUL || !in_set(cp, d));
    for (int i = 0; i < 18; i++) if (W[i] >= cur && W[i] < p) __CPROVER_assume(in_set(class_at(W[i]), d));
    if (cp == C_NUL) { *save = S + p; return 0; }
    __CPROVER_assume(q > p && q <= N);
    enum cls cq = class_at(q);
    __CPROVER_assume(cq == C_NUL || in_set(cq, d));
    for (int i = 0; i < 18; i++) if (W[i] >= p && W[i] < q) { enum cls c = class_at(W[i]); __CPROVER_assume(c != C_NUL && !in_set(c, d)); }
    if (cq != C_NUL) { S[q] = 0; __CPROVER_assert(ncuts < 6, "UNSUPPORTED:more cuts"); cuts[ncuts++] = q; *save = S + q + 1; }
    else *save = S + q;
    return S + p;
}
size_t strlen(const char *s)
{
    __CPROVER_assert(s == S && ncuts == 0, "UNSUPPORTED:strlen");
    return N;
}
void h_tokenize(void)
{
    char *tokens[MLLE_PROTOCOL_MAX_TOKENS_PER_MSG] = { NULL, NULL, NULL };
    N = nd_u64(); VP_ASSUME(N < (1UL << 40));
    S = nd_buf(N + 1); S[N] = 0;
    ls = nd_u64(); le = nd_u64(); nw = (int)nd_range(0, 4);
    VP_ASSUME(ls <= le && le <= N && (ls == N || le > ls));
    for (int i = 0; i < 4; i++) { wa[i] = nd_u64(); wb[i] = nd_u64(); if (i >= nw) VP_ASSUME(wa[i] == N && wb[i] == N); }
    size_t prev = ls;
    for (int i = 0; i < 4; i++) if (i < nw) {
        VP_ASSUME(wa[i] >= prev && wa[i] < wb[i] && wb[i] <= le && (i == 0 || wa[i] > prev));
        prev = wb[i];
    }
    for (int i = 0; i < 6; i++) cuts[i] = N;
    enum cls c0 = class_at(0); VP_ASSUME((S[0] == 0) == (c0 == C_NUL) && (S[0] == '\n') == (c0 == C_NL) && (S[0] == ' ') == (c0 == C_SP));
    size_t k = nd_u64(); VP_ASSUME(k <= N); char ck = S[k];
    if (nd_bool()) {
        VP_ASSERT(mlle_tokenize(NULL, tokens) == 0, "tokenize.null-has-no-tokens");
        return;
    }
    size_t r = mlle_tokenize(S, tokens);
    VP_ASSERT(r == (nw == 4 ? (size_t)MLLE_PROTOCOL_TOO_MANY_TOKENS : (size_t)nw), "tokenize.count");
    for (int i = 0; i < 3; i++) if (i < nw) {
        VP_ASSERT(tokens[i] == S + wa[i], "tokenize.token-start");
        VP_ASSERT(nw == 4 || S[wb[i]] == 0, "tokenize.token-end");
        if (k >= wa[i] && k < wb[i]) VP_ASSERT(S[k] == ck, "tokenize.frame-words-unchanged");
    }
    if (nw == 0) VP_COVER("tokenize.none");
    if (nw == 3) VP_COVER("tokenize.three");
    if (nw == 4) VP_COVER("tokenize.too-many");
}
#endif
