/* C03: executes a script of message calls; what each one writes to standard error is copied to standard output in hex,
   with both counters. Lines of the script (fields separated by one space, strings in hex, "-" is NULL):
   M type newline how text                      CTI
   O type newline how text fl fc ll lc file line CTIobj
   A | E | B size | L                           abortCompilation, abortOnError, abortOutOfMemory (in a child), line lengths */
#include "h.h"
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>
#include "palm/ctinfo.h"

static char *unhex(const char *h)
{
    if (!strcmp(h, "-")) return NULL;
    size_t n = strlen(h + 1) / 2;
    char *r = malloc(n + 1);
    for (size_t i = 0; i < n; i++) { unsigned v; sscanf(h + 1 + 2 * i, "%2x", &v); r[i] = (char)v; }
    r[n] = 0;
    return r;
}
static int fd; static off_t pos;
static void dump(const char *tag, int rc)
{
    fflush(stderr);
    off_t end = lseek(fd, 0, SEEK_END);
    size_t n = (size_t)(end - pos);
    char *b = malloc(n + 1);
    if (pread(fd, b, n, pos) != (ssize_t)n) abort();
    pos = end;
    printf("%s %d %d %d ", tag, rc, CTIgetErrors(), CTIgetWarnings());
    for (size_t i = 0; i < n; i++) printf("%02x", (unsigned char)b[i]);
    printf("\n");
    free(b);
}
int main(int argc, char **argv)
{
    static char line[1 << 20];
    char *w[16];
    FILE *in = fopen(argv[1], "r");
    /* read everything first: a child that exits would move the shared file position */
    static char **script; size_t nl = 0, cap_l = 0;
    while (in && fgets(line, sizeof line, in)) {
        if (nl == cap_l) script = realloc(script, sizeof *script * (cap_l = cap_l * 2 + 64));
        script[nl++] = h_dup(line);
    }
    if (in) fclose(in);
    FILE *cap = tmpfile();
    if (!in || !cap) return 9;
    fd = fileno(cap);
    fcntl(fd, F_SETFL, O_APPEND);
    int keep = dup(2);
    dup2(fd, 2);
    (void)keep; (void)argc;
    for (size_t li = 0; li < nl; li++) {
        strcpy(line, script[li]);
        int n = 0;
        for (char *t = strtok(line, " \n"); t && n < 16; t = strtok(NULL, " \n")) w[n++] = t;
        if (n == 0) continue;
        switch (w[0][0]) {
        case 'M': case 'O': {
            enum cti_type ty = (enum cti_type)atoi(w[1]);
            bool newl = atoi(w[2]);
            int how = atoi(w[3]);
            char *text = unhex(w[4]), *file = NULL, *src = NULL;
            struct ctinfo info = {0};
            if (w[0][0] == 'O') {
                file = unhex(w[9]); src = unhex(w[10]);
                info = (struct ctinfo){atoi(w[5]), atoi(w[6]), atoi(w[7]), atoi(w[8]), file, src};
            }
            size_t h = strlen(text) / 2;
            if (w[0][0] == 'M') {
                if (how == 0) CTI(ty, newl, "%s", text);
                else if (how == 1) CTI(ty, newl, text);
                else CTI(ty, newl, "%.*s%s%.0d%c%lu %%", (int)h, text, text + h, 0, 'q', (unsigned long)-1);
            } else {
                if (how == 0) CTIobj(ty, newl, info, "%s", text);
                else if (how == 1) CTIobj(ty, newl, info, text);
                else CTIobj(ty, newl, info, "%.*s%s%.0d%c%lu %%", (int)h, text, text + h, 0, 'q', (unsigned long)-1);
            }
            dump(w[0], 0);
            free(text); free(file); free(src);
            break; }
        case 'L': printf("L %d %d\n", CTIgetErrorMessageLineLength(), CTIgetWarnMessageLineLength()); break;
        default: {
            fflush(stdout); fflush(stderr);
            pid_t p = fork();
            if (p == 0) {
                fclose(stdout);
                if (w[0][0] == 'A') CTIabortCompilation();
                else if (w[0][0] == 'E') CTIabortOnError();
                else CTIabortOutOfMemory(strtoul(w[1], NULL, 10));
                _Exit(100);                   /* it returned */
            }
            int st; waitpid(p, &st, 0);
            dump(w[0], WIFEXITED(st) ? WEXITSTATUS(st) : -WTERMSIG(st));
        } }
    }
    return 0;
}
