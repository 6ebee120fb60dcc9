/* LD_PRELOAD: appends every call that could create, change or remove a file to the file named by IOLOG, with the absolute path asked for */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <unistd.h>

static void note(const char *op, const char *path)
{
    int e = errno;
    char cwd[8192], line[20000];
    if (!path) path = "(null)";
    if (path[0] == '/' || !getcwd(cwd, sizeof cwd)) cwd[0] = 0;
    int n = snprintf(line, sizeof line, "%s %s%s%s\n", op, cwd, cwd[0] ? "/" : "", path);
    char *l = getenv("IOLOG");
    int fd = l ? syscall(SYS_openat, AT_FDCWD, l, O_WRONLY | O_APPEND | O_CREAT, 0644) : -1;
    if (fd >= 0) { if (write(fd, line, n < (int)sizeof line ? n : (int)sizeof line)) {} syscall(SYS_close, fd); }
    errno = e;
}
#define NEXT(f) ((__typeof__(&f))dlsym(RTLD_NEXT, #f))
static int wr(const char *m) { return m && (strchr(m, 'w') || strchr(m, 'a') || strchr(m, '+')); }

FILE *fopen(const char *p, const char *m) { if (wr(m)) note("fopen", p); return NEXT(fopen)(p, m); }
FILE *fopen64(const char *p, const char *m) { if (wr(m)) note("fopen", p); return NEXT(fopen64)(p, m); }
FILE *freopen(const char *p, const char *m, FILE *f) { if (wr(m)) note("freopen", p); return NEXT(freopen)(p, m, f); }
#define W (O_WRONLY | O_RDWR | O_CREAT | O_TRUNC)
#define MODE(fl) mode_t mo = 0; if (fl & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, fl); mo = va_arg(a, mode_t); va_end(a); }
int open(const char *p, int fl, ...) { MODE(fl) if (fl & W) note("open", p); return NEXT(open)(p, fl, mo); }
int open64(const char *p, int fl, ...) { MODE(fl) if (fl & W) note("open", p); return NEXT(open64)(p, fl, mo); }
int openat(int d, const char *p, int fl, ...) { MODE(fl) if (fl & W) note("openat", p); return NEXT(openat)(d, p, fl, mo); }
int creat(const char *p, mode_t m) { note("creat", p); return NEXT(creat)(p, m); }
int mkdir(const char *p, mode_t m) { note("mkdir", p); return NEXT(mkdir)(p, m); }
int mkdirat(int d, const char *p, mode_t m) { note("mkdirat", p); return NEXT(mkdirat)(d, p, m); }
int rename(const char *p, const char *q) { note("rename", p); note("rename", q); return NEXT(rename)(p, q); }
int unlink(const char *p) { note("unlink", p); return NEXT(unlink)(p); }
int unlinkat(int d, const char *p, int f) { note("unlinkat", p); return NEXT(unlinkat)(d, p, f); }
int remove(const char *p) { note("remove", p); return NEXT(remove)(p); }
int rmdir(const char *p) { note("rmdir", p); return NEXT(rmdir)(p); }
int truncate(const char *p, off_t n) { note("truncate", p); return NEXT(truncate)(p, n); }
int symlink(const char *p, const char *q) { note("symlink", q); return NEXT(symlink)(p, q); }
int link(const char *p, const char *q) { note("link", q); return NEXT(link)(p, q); }
int chmod(const char *p, mode_t m) { note("chmod", p); return NEXT(chmod)(p, m); }
int chdir(const char *p) { note("chdir", p); return NEXT(chdir)(p); }
int mkstemp(char *p) { note("mkstemp", p); return NEXT(mkstemp)(p); }
FILE *tmpfile(void) { note("tmpfile", P_tmpdir); return NEXT(tmpfile)(); }
int mknod(const char *p, mode_t m, dev_t d) { note("mknod", p); return NEXT(mknod)(p, m, d); }
int mkfifo(const char *p, mode_t m) { note("mkfifo", p); return NEXT(mkfifo)(p, m); }
FILE *popen(const char *c, const char *m) { note("popen", c); return NEXT(popen)(c, m); }
int system(const char *c) { note("system", c); return NEXT(system)(c); }
