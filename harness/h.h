/* shared by the palm harnesses: deterministic random numbers, live-allocation accounting, mismatch reports */
#pragma once
#include <stdarg.h>
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

extern int __sanitizer_install_malloc_and_free_hooks(void (*m)(const volatile void *, size_t), void (*f)(const volatile void *));
extern size_t __sanitizer_get_allocated_size(const volatile void *);
extern int __sanitizer_get_ownership(const volatile void *);

static uint64_t h_state;
static inline uint64_t h_rand(void)
{
    uint64_t z = (h_state += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
static inline size_t h_below(size_t n) { return n ? h_rand() % n : 0; }
static inline int h_range(int a, int b) { return a + (int)h_below((size_t)(b - a + 1)); }

static volatile long h_live, h_allocs;
static void h_m(const volatile void *p, size_t n) { (void)n; if (p) { h_live++; h_allocs++; } }
static void h_f(const volatile void *p) { if (p) h_live--; }
static inline void h_hooks(void) { __sanitizer_install_malloc_and_free_hooks(h_m, h_f); }

static char h_hist[1 << 16];
static size_t h_len;
static inline void h_reset(void) { h_len = 0; h_hist[0] = 0; }
static inline void h_note(const char *f, ...)
{
    va_list a;
    if (h_len > sizeof h_hist - 400) {            /* keep the tail */
        memmove(h_hist, h_hist + sizeof h_hist / 2, h_len - sizeof h_hist / 2 + 1);
        h_len -= sizeof h_hist / 2;
    }
    va_start(a, f);
    h_len += (size_t)vsnprintf(h_hist + h_len, 300, f, a);
    if (h_len > sizeof h_hist - 2) h_len = sizeof h_hist - 2;
    va_end(a);
}
static const char *h_case = "";
static unsigned long long h_seed;
static inline void h_bad(const char *key, const char *f, ...)
{
    va_list a;
    printf("MISMATCH %s\nseed %llu case %s: ", key, h_seed, h_case);
    va_start(a, f);
    vprintf(f, a);
    va_end(a);
    printf("\nhistory (tail): %s\n", h_len > 3000 ? h_hist + h_len - 3000 : h_hist);
    fflush(stdout);
    _Exit(3);
}
static inline uint64_t h_hash(const void *p, size_t n)
{
    const unsigned char *c = p;
    uint64_t h = 1469598103934665603ull;
    while (n--) h = (h ^ *c++) * 1099511628211ull;
    return h;
}
/* an exactly sized heap copy, so that a read past the terminator is caught */
static inline char *h_dup(const char *s)
{
    if (!s) return NULL;
    size_t n = strlen(s) + 1;
    char *p = malloc(n);
    memcpy(p, s, n);
    return p;
}
