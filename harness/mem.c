/* C23: the allocation helpers. mem rand SEED N: random histories of blocks against a model.
   mem fault SCENARIO K: the K-th allocation made by the library fails; prints what it asked for.  */
#include "h.h"
#include <unistd.h>
#include "palm/memory.h"
#include "palm/str.h"
#include "palm/hash_table.h"
#include "palm/ctinfo.h"

static long faultat = -1, nalloc; static int on;
static bool fail(size_t n)
{
    if (!on) return false;
    if (++nalloc == faultat) { on = 0; printf("FAILED %zu\n", n); fflush(stdout); return true; }
    return false;
}
extern void *__real_malloc(size_t); extern void *__real_calloc(size_t, size_t); extern void *__real_realloc(void *, size_t);
extern char *__real_strdup(const char *); extern char *__real_strndup(const char *, size_t); extern int __real_vasprintf(char **, const char *, va_list);
void *__wrap_malloc(size_t n) { return fail(n) ? NULL : __real_malloc(n); }
void *__wrap_calloc(size_t a, size_t b) { return fail(a * b) ? NULL : __real_calloc(a, b); }
void *__wrap_realloc(void *p, size_t n) { return fail(n) ? NULL : __real_realloc(p, n); }
char *__wrap_strdup(const char *s) { return fail(strlen(s) + 1) ? NULL : __real_strdup(s); }
char *__wrap_strndup(const char *s, size_t n) { return fail(strlen(s) < n ? strlen(s) + 1 : n + 1) ? NULL : __real_strndup(s, n); }
int __wrap_vasprintf(char **r, const char *f, va_list a)
{
    if (fail(0)) { *r = NULL; return -1; }
    return __real_vasprintf(r, f, a);
}

#define SLOTS 24
typedef struct { unsigned char *p; size_t n; unsigned char seed; } blk;
static void fill(blk *b, size_t from) { for (size_t i = from; i < b->n; i++) b->p[i] = (unsigned char)(b->seed + i * 7); }
static void verify(blk *b, size_t upto, const char *what)
{
    for (size_t i = 0; i < upto; i++) if (b->p[i] != (unsigned char)(b->seed + i * 7)) h_bad(what, "byte %zu of %zu is %d", i, b->n, b->p[i]);
}
static size_t rsize(void)
{
    static const size_t s[] = {0, 1, 2, 7, 8, 15, 16, 17, 24, 31, 32, 63, 64, 65, 127, 128, 4095, 4096, 4097, 65535, 65536, 1 << 17};
    return h_below(2) ? s[h_below(22)] : h_below(300);
}
static void usable(void *p, size_t n, const char *fn)
{
    if (n == 0) { if (p) h_bad(fn, "a request of size zero returned %p", p); return; }
    if (!p) h_bad(fn, "NULL for a request of %zu bytes", n);
    if ((uintptr_t)p % 16) h_bad(fn, "misaligned block");
    if (__sanitizer_get_allocated_size(p) < n) h_bad(fn, "%zu bytes for a request of %zu", __sanitizer_get_allocated_size(p), n);
}
static int randmode(uint64_t seed, int n)
{
    static long st[5];
    for (int i = 0; i < n; i++) {
        h_seed = seed + (uint64_t)i; h_state = h_seed; h_reset();
        long live = h_live;
        blk b[SLOTS]; memset(b, 0, sizeof b);
        for (int o = h_range(5, 120); o > 0; o--) {
            blk *x = &b[h_below(SLOTS)], *y = &b[h_below(SLOTS)];
            size_t sz = rsize();
            switch (h_below(5)) {
            case 0:
                if (x->p) break;
                h_note("malloc(%zu) ", sz); st[0]++;
                x->p = MEMmalloc(sz); x->n = sz; x->seed = (unsigned char)h_rand();
                usable(x->p, sz, "MEMmalloc"); if (x->p) fill(x, 0);
                break;
            case 1: case 2: {
                h_note("realloc(%s%zu,%zu) ", x->p ? "" : "NULL ", x->n, sz); st[1]++;
                size_t old = x->p ? x->n : 0;
                if (!x->p) x->seed = (unsigned char)h_rand();
                x->p = MEMrealloc(x->p, sz); x->n = sz;
                usable(x->p, sz, "MEMrealloc");
                if (x->p) { verify(x, old < sz ? old : sz, "realloc-contents"); fill(x, old < sz ? old : sz); }
                break; }
            case 3: {
                if (x == y || y->p) break;
                size_t k = x->p ? h_below(x->n + 1) : 0;
                h_note("copy(%zu of %zu) ", k, x->n); st[2]++;
                y->p = MEMcopy(k, x->p); y->n = k; y->seed = x->seed;
                usable(y->p, k, "MEMcopy");
                if (y->p && y->p == x->p) h_bad("copy-distinct", "the copy is the original");
                if (y->p) verify(y, k, "copy-contents");
                if (x->p) verify(x, x->n, "copy-source");
                if (y->p && h_below(2)) { y->seed++; fill(y, 0); verify(x, x->n, "copy-shares"); }
                break; }
            default: {
                h_note("free(%zu) ", x->n); st[3]++;
                void *r = MEMfree(x->p);
                if (r) h_bad("free-result", "MEMfree returned %p", r);
                x->p = NULL; x->n = 0; }
            }
            for (int j = 0; j < SLOTS; j++) if (b[j].p && b[j].n < 5000) verify(&b[j], b[j].n, "disturbed");
        }
        for (int j = 0; j < SLOTS; j++) { if (b[j].p) verify(&b[j], b[j].n, "disturbed"); if (MEMfree(b[j].p)) h_bad("free-result", "not NULL"); }
        if (h_live != live) h_bad("leak", "%ld allocations left", h_live - live);
        printf("CASE %016llx\n", (unsigned long long)h_hash(h_hist, h_len));
        if (i == 2) printf("SAMPLE %.300s\n", h_hist);
    }
    printf("STAT %ld MEMmalloc\nSTAT %ld MEMrealloc\nSTAT %ld MEMcopy\nSTAT %ld MEMfree\n", st[0], st[1], st[2], st[3]);
    return 0;
}

static void *ident(void *p) { return p; }
static void *kcpy(void *p) { return STRcpy(p); }
static const char *names[] = {"malloc", "realloc-new", "realloc-grow", "copy", "hash", "hash-copy", "iterate", "strings", "tokens", "messages", "big", "grow-messages", NULL};
static void scenario(int s)
{
    char buf[5000];
    switch (s) {
    case 0: for (int i = 1; i < 6; i++) { char *p = MEMmalloc((size_t)i * 1000); p[0] = p[i * 1000 - 1] = 1; MEMfree(p); } break;
    case 1: { char *p = MEMrealloc(NULL, 77); memset(p, 1, 77); MEMfree(p); break; }
    case 2: { char *p = NULL; for (int i = 1; i < 8; i++) { p = MEMrealloc(p, (size_t)(i * i * 100)); memset(p, i, (size_t)(i * i * 100)); } MEMfree(p); break; }
    case 3: { memset(buf, 3, 100); char *p = MEMcopy(100, buf); p[99] = 0; MEMfree(p); break; }
    case 4: { htable_st *t = HTnew_String(7); for (int i = 0; i < 9; i++) HTinsert(t, (char *)names[i], buf + i); HTremove(t, (void *)names[3]); HTclear(t); HTinsert(t, "x", buf);
              HTdelete(t); t = HTnew_Int(3); int k = 4; HTinsert(t, &k, buf); HTdelete(t); t = HTnew_Ptr(100); HTinsert(t, &k, buf); HTdelete(t); break; }
    case 5: { htable_st *t = HTnew_String(2); for (int i = 0; i < 6; i++) HTinsert(t, (char *)names[i], buf + i); htable_st *c = HTcpy(t), *d = HTdeep_copy(t, kcpy, ident);
              HTdelete(t); HTdelete(c); HTdelete(d); break; }
    case 6: { htable_st *t = HTnew_String(2); for (int i = 0; i < 6; i++) HTinsert(t, (char *)names[i], buf + i); for (htable_iter_st *i = HTiterate(t); i; i = HTiterateNext(i)) HTiterSetValue(i, buf);
              HTdelete(t); break; }
    case 7: { char *l[20]; int n = 0; l[n++] = STRcpy("abc"); l[n++] = STRncpy("abcdef", 3); l[n++] = STRcat("abc", "def"); l[n++] = STRcatn(3, "a", "bb", "ccc");
              l[n++] = STRfmt("%d-%s", 12, "xyz"); l[n++] = STRitoa(-77); l[n++] = STRlower("ABC"); l[n++] = STRupper("abc"); l[n++] = STRsubStr("abcdef", 1, 3);
              l[n++] = STRsubStr("abcdef", 9, 3); l[n++] = STRsubstToken("a.b.c", ".", "::"); l[n++] = STRnull(); while (n) MEMfree(l[--n]); break; }
    case 8: { char *t = STRtok("a,b,c", ","); while (t) { MEMfree(t); t = STRtok(NULL, ","); } break; }
    case 9: CTI(CTI_ERROR, true, "first %d", 1); CTI(CTI_WARN, true, "second"); { struct ctinfo i = {1, 2, 1, 4, "file", "abcdef"}; CTIobj(CTI_NOTE, false, i, "third %s", "x"); } break;
    case 10: { char *p = MEMmalloc((size_t)5 << 30); (void)p; break; }
    case 11: for (int i = 1; i < 5; i++) { memset(buf, 'm', sizeof buf); buf[i * 1100] = 0; CTI(CTI_ERROR, true, "%s", buf); } break;
    }
}
int main(int argc, char **argv)
{
    static char outbuf[1 << 16];
    setvbuf(stdout, outbuf, _IOFBF, sizeof outbuf);
    printf("start\n");
    if (!strcmp(argv[1], "rand")) { h_hooks(); return randmode(strtoull(argv[2], NULL, 10), atoi(argv[3])); }
    faultat = atol(argv[3]);
    on = 1;
    scenario(atoi(argv[2]));
    on = 0;
    printf("DONE %ld %d %d\n", nalloc, CTIgetErrors(), CTIgetWarnings());
    (void)argc;
    return 0;
}
