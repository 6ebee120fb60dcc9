/* LD_PRELOAD: another memory layout, other garbage in fresh memory, another time and process id. PERTURB selects one of many. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <malloc.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

extern void *__libc_malloc(size_t);
extern void __libc_free(void *);

static uint64_t st;
static uint64_t rnd(void)
{
    if (!st) {
        char *e = getenv("PERTURB");
        st = 88172645463325252ull + (e ? strtoull(e, 0, 10) * 0x9E3779B97F4A7C15ull : 0);
        if (!st) st = 1;
    }
    st ^= st << 13; st ^= st >> 7; st ^= st << 17;
    return st;
}

#define K 64
static void *pool[64][K];
static int npool[64];
static void *held[256];

void *malloc(size_t n)
{
    void *p;
    size_t c = (n + 31) / 32;
    if (c < 64 && c > 0) {
        if (npool[c] == 0 || (npool[c] < K && rnd() % 8 == 0)) {
            int k = 1 + rnd() % (K - npool[c]);
            while (k--) pool[c][npool[c]++] = __libc_malloc(c * 32 + rnd() % 3 * 16);
        }
        int i = rnd() % npool[c];
        p = pool[c][i];
        pool[c][i] = pool[c][--npool[c]];
    } else {
        p = __libc_malloc(n + rnd() % 256);
    }
    if (p && n < 1 << 20) {
        unsigned char b = rnd();
        memset(p, b, malloc_usable_size(p));
    }
    return p;
}

void free(void *p)
{
    if (!p) return;
    memset(p, (int)rnd(), malloc_usable_size(p) < 4096 ? malloc_usable_size(p) : 0);
    int i = rnd() % 256;
    void *o = held[i];
    held[i] = p;
    if (o) __libc_free(o);
}

void *calloc(size_t a, size_t b)
{
    if (b && a > SIZE_MAX / b) return 0;
    void *p = malloc(a * b);
    if (p) memset(p, 0, a * b);
    return p;
}

void *realloc(void *p, size_t n)
{
    if (!p) return malloc(n);
    void *q = malloc(n);
    if (q) {
        size_t m = malloc_usable_size(p);
        memcpy(q, p, m < n ? m : n);
        free(p);
    }
    return q;
}

time_t time(time_t *t) { time_t r = 1000000000 + rnd() % 1000000000; if (t) *t = r; return r; }
int gettimeofday(struct timeval *restrict v, void *restrict z) { v->tv_sec = time(0); v->tv_usec = rnd() % 1000000; return 0; }
int clock_gettime(clockid_t c, struct timespec *s) { s->tv_sec = time(0); s->tv_nsec = rnd() % 1000000000; return 0; }
clock_t clock(void) { return rnd() % 1000000000; }
pid_t getpid(void) { return 2 + rnd() % 30000; }
