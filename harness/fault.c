/* C23: the FAULT_AT-th allocation made by the library or the generated program fails (linked with --wrap) */
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
extern int fault_on;
int fault_on;
static long at, n;
static int fail(size_t size)
{
    if (!fault_on) return 0;
    if (++n != at) return 0;
    fault_on = 0;
    char b[60];
    int l = snprintf(b, sizeof b, "\nFAILED %zu\n", size);
    if (write(1, b, (size_t)l) < 0) abort();
    return 1;
}
static void fin(void)
{
    char b[60];
    int l = snprintf(b, sizeof b, "\nALLOCS %ld\n", n);
    if (write(1, b, (size_t)l) < 0) abort();
}
__attribute__((constructor)) static void init(void)
{
    const char *e = getenv("FAULT_AT");
    at = e ? atol(e) : -1;
    atexit(fin);
    fault_on = 1;
}
extern void *__real_malloc(size_t); extern void *__real_calloc(size_t, size_t); extern void *__real_realloc(void *, size_t);
extern char *__real_strdup(const char *); extern char *__real_strndup(const char *, size_t); extern int __real_vasprintf(char **, const char *, va_list);
void *__wrap_malloc(size_t s) { return fail(s) ? NULL : __real_malloc(s); }
void *__wrap_calloc(size_t a, size_t b) { return fail(a * b) ? NULL : __real_calloc(a, b); }
void *__wrap_realloc(void *p, size_t s) { return fail(s) ? NULL : __real_realloc(p, s); }
char *__wrap_strdup(const char *s) { return fail(strlen(s) + 1) ? NULL : __real_strdup(s); }
char *__wrap_strndup(const char *s, size_t k) { return fail(k + 1) ? NULL : __real_strndup(s, k); }
int __wrap_vasprintf(char **r, const char *f, va_list a) { if (fail(0)) { *r = NULL; return -1; } return __real_vasprintf(r, f, a); }
