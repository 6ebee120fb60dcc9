/* C02: every string function of palm against its documented meaning */
#include "h.h"
#include <limits.h>
#include "palm/str.h"
#include "palm/memory.h"

/* an argument: an exactly sized heap string, or NULL, and its saved value */
typedef struct { char *p, *save; } arg;
static arg A(const char *s) { arg a = {h_dup(s), h_dup(s)}; return a; }
static void same(arg *a, const char *fn)
{
    if ((a->p == NULL) != (a->save == NULL) || (a->p && strcmp(a->p, a->save))) h_bad("argument-changed", "%s changed an argument from \"%s\" to \"%s\"", fn, a->save, a->p);
    free(a->p); free(a->save);
}
static long nresults;
/* got must be a fresh allocation holding want (NULL: must be NULL) */
static void fresh(const char *fn, char *got, const char *want, arg *a, arg *b, arg *c)
{
    nresults++;
    if (!want) { if (got) h_bad(fn, "returned \"%s\", expected NULL", got); return; }
    if (!got) h_bad(fn, "returned NULL, expected \"%.200s\"", want);
    if (!__sanitizer_get_ownership(got)) h_bad("not-owned", "%s returned memory the caller cannot own", fn);
    if ((a && got == a->p) || (b && got == b->p) || (c && got == c->p)) h_bad("not-distinct", "%s returned its argument", fn);
    if (__sanitizer_get_allocated_size(got) < strlen(want) + 1) h_bad("too-small", "%s: block of %zu bytes for \"%.100s\"", fn, __sanitizer_get_allocated_size(got), want);
    if (strcmp(got, want)) h_bad(fn, "returned \"%.300s\", expected \"%.300s\"", got, want);
    memset(got, 'Z', strlen(want) + 1);
    free(got);
}
static void is(const char *fn, long got, long want) { nresults++; if (got != want) h_bad(fn, "returned %ld, expected %ld", got, want); }

static char pool[40][700];
static const char *alpha;
static const char *rs(void)     /* a random string; related to earlier ones so that prefixes, suffixes and occurrences are frequent */
{
    static int slot;
    char *b = pool[slot++ % 40], *o = pool[h_below(40)];
    size_t n = 0;
    switch (h_below(12)) {
    case 0: b[0] = 0; break;
    case 1: return NULL;
    case 2: n = h_below(strlen(o) + 1); memmove(b, o, n); b[n] = 0; break;                     /* a prefix */
    case 3: n = h_below(strlen(o) + 1); memmove(b, o + n, strlen(o + n) + 1); break;            /* a suffix */
    case 4: memmove(b, o, strlen(o) + 1); if (*b) b[h_below(strlen(b))] ^= 0x20; for (char *c = b; *c; c++) if (!*c) *c = 'x'; break;
    case 5: memmove(b, o, strlen(o) + 1); break;
    case 6: n = h_below(600); for (size_t i = 0; i < n; i++) b[i] = (char)(1 + h_below(255)); b[n] = 0; break;
    case 7: n = h_below(4); for (size_t i = 0; i < n; i++) b[i] = alpha[0]; b[n] = 0; break;
    case 8: n = 1; b[0] = (char)(1 + h_below(255)); b[1] = 0; break;
    default: n = h_below(h_below(3) ? 9 : 60); for (size_t i = 0; i < n; i++) b[i] = alpha[h_below(strlen(alpha))]; b[n] = 0;
    }
    return b;
}
static int low(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
static int up(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
static char wb[1 << 18];

static void one(long *stats)
{
    const char *x = rs(), *y = rs(), *z = rs();
    char xs[700], ys[700], zs[700];
    if (x) x = strcpy(xs, x);
    if (y) y = strcpy(ys, y);
    if (z) z = strcpy(zs, z);
    size_t lx = x ? strlen(x) : 0, ly = y ? strlen(y) : 0;
    int f = (int)h_below(24);
    stats[f]++;
    h_reset();
    h_note("f%d x=%s%.250s y=%s%.250s z=%s%.250s ", f, x ? "" : "NULL", x ? x : "", y ? "" : "NULL", y ? y : "", z ? "" : "NULL", z ? z : "");
    long live = h_live;
    arg a = A(x), b = A(y), c = A(z);
    const char *fn = "?";
    switch (f) {
    case 0: fresh(fn = "STRcpy", STRcpy(a.p), x, &a, &b, &c); break;
    case 1: {
        static const int ns[] = {0, 1, 2, 3, INT_MAX};
        int n = h_below(3) ? (int)h_below(lx + 3) : ns[h_below(5)];
        h_note("n=%d ", n);
        if (x) { strcpy(wb, x); if ((size_t)n < lx) wb[n] = 0; }
        fresh(fn = "STRncpy", STRncpy(a.p, n), x ? wb : NULL, &a, NULL, NULL);
        break; }
    case 2: is(fn = "STReq", STReq(a.p, b.p), (!x && !y) || (x && y && !strcmp(x, y))); break;
    case 3: {
        bool w = !x && !y;
        if (x && y) { w = lx == ly; for (size_t i = 0; w && i < lx; i++) w = low((unsigned char)x[i]) == low((unsigned char)y[i]); }
        is(fn = "STReqci", STReqci(a.p, b.p), w);
        break; }
    case 4: {
        int n = h_below(4) ? (int)h_below(lx + ly + 2) : h_below(2) ? 0 : INT_MAX;
        h_note("n=%d ", n);
        bool w;
        if (!x || !y) w = (!x && !y) || n == 0;
        else {
            w = true;
            for (int i = 0; i < n; i++) { if (x[i] != y[i]) { w = false; break; } if (!x[i]) break; }
        }
        is(fn = "STReqn", STReqn(a.p, b.p, n), w);
        break; }
    case 5: is(fn = "STRlen", (long)STRlen(a.p), (long)lx); break;
    case 6:
        wb[0] = 0; if (x) strcat(wb, x); if (y) strcat(wb, y);
        fresh(fn = "STRcat", STRcat(a.p, b.p), x || y ? wb : NULL, &a, &b, NULL);
        break;
    case 7: {
        wb[0] = 0; if (x) strcat(wb, x); if (y) strcat(wb, y); if (z) strcat(wb, z);
        int n = h_range(3, 6);
        char *r;
        switch (n) {
        case 3: r = STRcatn(3, a.p, b.p, c.p); break;
        case 4: r = STRcatn(4, a.p, b.p, c.p, a.p); if (x) strcat(wb, x); break;
        case 5: r = STRcatn(5, a.p, b.p, c.p, NULL, b.p); if (y) strcat(wb, y); break;
        default: r = STRcatn(6, a.p, b.p, c.p, "", "%s", c.p); strcat(wb, "%s"); if (z) strcat(wb, z);
        }
        fn = "STRcatn";
        if (!wb[0] && !r) nresults++;            /* nothing to concatenate: NULL or an empty string */
        else fresh(fn, r, wb, &a, &b, &c);
        break; }
    case 8: {
        char *r;
        int d = (int)h_rand(); long l = (long)h_rand(); double g = (double)(int)h_rand() / 1000;
        switch (h_below(6)) {
        case 0: snprintf(wb, sizeof wb, "%s", x ? x : "-"); r = STRfmt("%s", x ? a.p : "-"); break;
        case 1: snprintf(wb, sizeof wb, "%d%%%s|%5d", d, y ? y : "", d % 100); r = STRfmt("%d%%%s|%5d", d, y ? b.p : "", d % 100); break;
        case 2: snprintf(wb, sizeof wb, "%.3f %ld %c %lx", g, l, 'q', l); r = STRfmt("%.3f %ld %c %lx", g, l, 'q', l); break;
        case 3: wb[0] = 0; r = STRfmt("%s", ""); break;
        case 4: { int w = (int)h_below(4100); snprintf(wb, sizeof wb, "%*d|%s", w, d, z ? z : ""); r = STRfmt("%*d|%s", w, d, z ? c.p : ""); break; }
        default: snprintf(wb, sizeof wb, "%s%s%s", x ? x : "", y ? y : "", z ? z : ""); r = STRfmt("%s%s%s", x ? a.p : "", y ? b.p : "", z ? c.p : "");
        }
        fresh(fn = "STRfmt", r, wb, &a, &b, &c);
        break; }
    case 9: {
        static char other[4] = "alt";
        char *alt = h_below(4) ? other : NULL, *r = STRonNull(alt, a.p);
        nresults++;
        if (r != (x ? a.p : alt)) h_bad(fn = "STRonNull", "returned neither the string nor the alternative");
        break; }
    case 10: {
        static const int v[] = {0, 1, -1, 9, 10, -10, INT_MAX, INT_MIN, INT_MIN + 1};
        int d = h_below(2) ? v[h_below(9)] : (int)h_rand() >> h_below(31);
        h_note("n=%d ", d);
        snprintf(wb, sizeof wb, "%d", d);
        fresh(fn = "STRitoa", STRitoa(d), wb, NULL, NULL, NULL);
        break; }
    case 11: case 12: {
        if (x) { strcpy(wb, x); for (char *q = wb; *q; q++) *q = (char)(f == 11 ? low((unsigned char)*q) : up((unsigned char)*q)); }
        fresh(fn = f == 11 ? "STRlower" : "STRupper", f == 11 ? STRlower(a.p) : STRupper(a.p), x ? wb : NULL, &a, NULL, NULL);
        break; }
    case 13: case 14: {
        if (x) { strcpy(wb, x); for (char *q = wb; *q; q++) *q = (char)(f == 13 ? low((unsigned char)*q) : up((unsigned char)*q)); }
        fn = f == 13 ? "STRtoLower" : "STRtoUpper";
        if (f == 13) STRtoLower(a.p); else STRtoUpper(a.p);
        nresults++;
        if (x && strcmp(a.p, wb)) h_bad(fn, "made \"%s\", expected \"%s\"", a.p, wb);
        if (x) strcpy(a.p, a.save);
        break; }
    case 15: case 16: {                                            /* all tokens, with other calls between, or abandoned by a new one */
        char pieces[700];
        fn = "STRtok";
        if (!x) break;
        if (!y) { y = ","; free(b.p); free(b.save); b = A(y); }
        size_t pos = 0; bool done = false, abandon = f == 16 && h_below(2);
        int k = 0;
        while (!done) {
            size_t n = 0;
            while (x[pos] && !strchr(y, x[pos])) pieces[n++] = x[pos++];
            pieces[n] = 0;
            done = !x[pos];
            pos++;
            char *r = STRtok(k++ == 0 ? a.p : NULL, b.p);
            if (k == 1 && h_below(3) == 0) { memset(a.p, '#', lx); strcpy(a.p, a.save); }
            fresh(fn, r, pieces, &a, &b, NULL);
            if (abandon && h_below(3) == 0) break;
            if (h_below(4) == 0) free(STRfmt("%d", k));
        }
        if (!done) {                                               /* a new string replaces the rest */
            fresh(fn, STRtok("last", ""), "last", NULL, NULL, NULL);
            done = true;
        }
        if (STRtok(NULL, b.p)) h_bad(fn, "a token after the last one");
        if (STRtok(NULL, b.p)) h_bad(fn, "a token after the end");
        break; }
    case 17: is(fn = "STRprefix", STRprefix(a.p, b.p), !x ? 1 : !y ? 0 : lx <= ly && !memcmp(x, y, lx)); break;
    case 18: is(fn = "STRsuffix", STRsuffix(a.p, b.p), !x ? 1 : !y ? 0 : lx <= ly && !memcmp(x, y + ly - lx, lx)); break;
    case 19: {
        bool w = !x;
        if (x && y) for (size_t i = 0; i + lx <= ly; i++) if (!memcmp(x, y + i, lx)) w = true;
        is(fn = "STRsub", STRsub(a.p, b.p), w);
        break; }
    case 20: {                                                     /* start within the string or past it, any length */
        int start = (int)h_below(lx + 3), n;
        switch (h_below(5)) {
        case 0: n = -(int)h_below(lx + 4); break;
        case 1: n = INT_MAX; break;
        case 2: n = -INT_MAX; break;
        case 3: n = 0; break;
        default: n = (int)h_below(lx + 4);
        }
        h_note("start=%d n=%d ", start, n);
        long want = n < 0 ? (long)lx + n : n;
        if (want > (long)lx - start) want = (long)lx - start;
        if (want < 0) want = 0;
        wb[0] = 0;
        if (want > 0) { memcpy(wb, x + start, (size_t)want); wb[want] = 0; }
        fresh(fn = "STRsubStr", STRsubStr(a.p, start, n), wb, &a, NULL, NULL);
        break; }
    case 21: case 22: {
        fn = "STRsubstToken";
        if (x && (!y || !*y)) { strcpy(wb, x); }
        else if (x) {
            size_t o = 0;
            for (size_t i = 0; i < lx;) {
                if (i + ly <= lx && !memcmp(x + i, y, ly)) { if (z) { strcpy(wb + o, z); o += strlen(z); } i += ly; }
                else wb[o++] = x[i++];
            }
            wb[o] = 0;
        }
        fresh(fn, STRsubstToken(a.p, b.p, c.p), x ? wb : NULL, &a, &b, &c);
        break; }
    default: fresh(fn = "STRnull", STRnull(), "", NULL, NULL, NULL); break;
    }
    same(&a, fn); same(&b, fn); same(&c, fn);
    if (h_live != live) h_bad("leak", "%s leaves %ld allocations", fn, h_live - live);
    printf("CASE %016llx\n", (unsigned long long)h_hash(h_hist, h_len));

}

int main(int argc, char **argv)
{
    uint64_t seed = strtoull(argv[1], NULL, 10);
    int n = atoi(argv[2]);
    static long stats[32];
    static char outbuf[1 << 16];
    setvbuf(stdout, outbuf, _IOFBF, sizeof outbuf);
    printf("start\n");
    h_hooks();
    for (int i = 0; i < n; i++) {
        static const char *al[] = {"ab", "aA", ",;a ", "abcXYZ09", "\n\t %", "\xe9\xc9\x80\xff", "a%s"};
        h_seed = seed + (uint64_t)i; h_state = h_seed * 7919;
        alpha = al[h_below(7)];
        one(stats);
        if (i % (n / 4 + 1) == 3) printf("SAMPLE %.200s\n", h_hist);
    }
    static const char *nm[] = {"STRcpy", "STRncpy", "STReq", "STReqci", "STReqn", "STRlen", "STRcat", "STRcatn", "STRfmt", "STRonNull", "STRitoa",
        "STRlower", "STRupper", "STRtoLower", "STRtoUpper", "STRtok", "STRtok abandoned", "STRprefix", "STRsuffix", "STRsub", "STRsubStr",
        "STRsubstToken", "STRsubstToken", "STRnull"};
    for (int i = 0; i < 24; i++) printf("STAT %ld calls of %s\n", stats[i], nm[i]);
    printf("STAT %ld results checked\n", nresults);
    (void)argc;
    return 0;
}
