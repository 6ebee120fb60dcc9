#include "rt.h"
#include "palm/ctinfo.h"
#include "palm/memory.h"
#include "palm/str.h"
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdlib.h>
#include <unistd.h>

/* ---- log: static buffer, one write per line, no allocation */
static int logfd = 1;
static char lbuf[1 << 16];
static size_t llen;

static void flushlog(void)
{
    size_t o = 0;
    while (o < llen) {
        ssize_t w = write(logfd, lbuf + o, llen - o);
        if (w <= 0) {
            _exit(99);
        }
        o += (size_t)w;
    }
    llen = 0;
}

void rt_put(const char *fmt, ...)
{
    va_list ap;
    if (llen > sizeof lbuf - 8192) {
        flushlog();
    }
    va_start(ap, fmt);
    llen += (size_t)vsnprintf(lbuf + llen, sizeof lbuf - llen, fmt, ap);
    va_end(ap);
}

void rt_endl(void)
{
    rt_put("\n");
    flushlog();
}

void rt_putstr(const char *s)
{
    if (!s) {
        rt_put("~");
        return;
    }
    rt_put("'");
    for (; *s; s++) {
        unsigned char c = (unsigned char)*s;
        if (c <= 32 || c >= 127 || c == '\'' || c == '%') {
            rt_put("%%%02x", c);
        } else {
            rt_put("%c", c);
        }
    }
    rt_put("'");
}

void rt_putd(double d)
{
    uint64_t u;
    memcpy(&u, &d, 8);
    rt_put("%016llx", (unsigned long long)u);
}

void rt_putf(float f)
{
    uint32_t u;
    memcpy(&u, &f, 4);
    rt_put("%08x", u);
}

/* ---- values */
static const char *const pool[] = {"", "a", "two words", "x\ty\n", "\xc3\xa9\xe2\x82\xac", "%s%d%n", "'quoted'",
    "a rather long string that does not fit in any small buffer, repeated: a rather long string that does not fit in any small buffer",
    "nul", "0"};
#define NPOOL ((int64_t)(sizeof pool / sizeof *pool))

const char *rt_cstr(int64_t v)
{
    static const char *cpool[] = {"c0", "c1", "c2"};
    return v == 0 ? NULL : cpool[(uint64_t)v % 3];
}

extern int fault_on __attribute__((weak));

char *rt_mkstr(int64_t v)
{
    if (v == 0) {
        return NULL;
    }
    const char *s = pool[(uint64_t)v % (uint64_t)NPOOL];
    size_t n = strlen(s) + 1;
    int keep = &fault_on ? fault_on : 0;      /* an allocation of the user, not of the library */
    if (&fault_on) {
        fault_on = 0;
    }
    char *r = malloc(n);
    if (&fault_on) {
        fault_on = keep;
    }
    memcpy(r, s, n);
    return r;
}

static const double fpool[] = {0.0, 1.0, -1.0, 0.5, -2.25, 1024.125, -0.0, 1e30, 3.0e-30};
#define NF (sizeof fpool / sizeof *fpool)
float rt_mkfloat(int64_t v) { return (float)fpool[(uint64_t)v % NF]; }
double rt_mkdouble(int64_t v) { return v % 5 == 4 ? 1.0 / (double)(v | 1) : fpool[(uint64_t)v % NF]; }

/* ---- node identities: pointer -> number, static table */
#define NREG (1 << 15)
static struct { node_st *p; int id; } reg[NREG];
static int nextid;

static void regnode(node_st *n)
{
    size_t h = ((uintptr_t)n >> 4) * 2654435761u % NREG;
    while (reg[h].p && reg[h].p != n) {
        h = (h + 1) % NREG;
    }
    reg[h].p = n;
    reg[h].id = ++nextid;
    if (nextid > NREG / 2) {
        _exit(98);
    }
}

int rt_id(node_st *n)
{
    if (!n) {
        return 0;
    }
    size_t h = ((uintptr_t)n >> 4) * 2654435761u % NREG;
    while (reg[h].p && reg[h].p != n) {
        h = (h + 1) % NREG;
    }
    return reg[h].p ? reg[h].id : -1;
}

static void regtree(node_st *n)
{
    if (!n) {
        return;
    }
    regnode(n);
    int t = rt_typeof(n);
    if (t < 0) {
        return;
    }
    for (int i = 0; i < rt_nchildren[t]; i++) {
        regtree(*rt_child(n, i));
    }
}

static void agdump(node_st *n, void (*f)(node_st *));

static void dump(node_st *n)
{
    if (!n) {
        rt_put("_");
        return;
    }
    int t = rt_typeof(n);
    if (t < 0) {
        rt_put("?%d", rt_id(n));
        return;
    }
    rt_put("%d:%s", rt_id(n), rt_typename[t]);
    if (NODE_BLINE(n) || NODE_ELINE(n) || NODE_BCOL(n) || NODE_ECOL(n) || NODE_FILENAME(n)) {
        rt_put("@%u.%u.%u.%u", NODE_BLINE(n), NODE_BCOL(n), NODE_ELINE(n), NODE_ECOL(n));
        rt_putstr(NODE_FILENAME(n));
    }
    if (rt_nattrs[t]) {
        rt_put("(");
        for (int i = 0; i < rt_nattrs[t]; i++) {
            if (i) {
                rt_put(",");
            }
            if (rt_attr_kind(n, i) == K_LINK) {
                node_st *l = rt_attr_link(n, i);
                rt_put("#%d", rt_id(l));
            } else {
                rt_attr_log(n, i);
            }
        }
        rt_put(")");
    }
    if (rt_nchildren[t]) {
        rt_put("[");
        for (int i = 0; i < rt_nchildren[t]; i++) {
            if (i) {
                rt_put(" ");
            }
            node_st *c = *rt_child(n, i);
            dump(c);
        }
        rt_put("]");
    }
}

/* ---- allocation accounting */
#if defined(__SANITIZE_ADDRESS__)
extern int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void *, size_t), void (*)(const volatile void *));
extern int __asan_address_is_poisoned(void const volatile *);
static long live, total;
static void on_malloc(const volatile void *p, size_t s)
{
    (void)s;
    if (p) {
        live++;
        total++;
    }
}
static void on_free(const volatile void *p)
{
    if (p) {
        live--;
    }
}
static void installhooks(void) { __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free); }
static int isfreed(void *p) { return __asan_address_is_poisoned(p); }
#else
static long live, total;
static void installhooks(void) {}
static int isfreed(void *p) { (void)p; return -1; }
#endif

/* recorded addresses of a tree */
#define NSLOT 16
#define NREC 8192
static void *recs[NSLOT][NREC];
static int nrec[NSLOT];

static void rec(int s, void *p)
{
    if (p && nrec[s] < NREC) {
        recs[s][nrec[s]++] = p;
    }
}

static void rectree(int s, node_st *n)
{
    if (!n) {
        return;
    }
    int t = rt_typeof(n);
    if (t < 0) {
        return;
    }
    rec(s, n);
    rec(s, NODE_FILENAME(n));
    for (int i = 0; i < rt_nattrs[t]; i++) {
        if (rt_attr_kind(n, i) == K_STRING) {
            rec(s, rt_attr_str(n, i));
        }
    }
    for (int i = 0; i < rt_nchildren[t]; i++) {
        rectree(s, *rt_child(n, i));
    }
}

static int cmpp(const void *a, const void *b)
{
    uintptr_t x = (uintptr_t) * (void *const *)a, y = (uintptr_t) * (void *const *)b;
    return x < y ? -1 : x > y;
}

/* ---- scripts */
struct op {
    int code, argc, off;
};
#define MAXOPS 40000
#define MAXARGS 200000
static struct op ops[MAXOPS];
static int64_t args[MAXARGS];
static int nops, nargs;
#define MAXSCR 4000
static struct { int first, n; } scr[MAXSCR];
#define MAXMAP 256
#define MAXALT 12
struct map {
    int n, occ;
    int alt[MAXALT];
};
static struct map mh[64][64], mp[MAXMAP], mg[MAXMAP], mi[64], mf[64], mbp;
static int fuel = 300, nodefuel = 400;
static node_st *regs[2048];

static const char *const opname[] = {"new", "setc", "seta", "setl", "loc", "run", "start", "dump", "copy", "free", "cyc", "chk", "bp",
    "bpid", "verb", "show", "eval", "mark", "live", "rec", "psn", "dis", "cap",
    "tc", "tk", "to", "td", "ts", "tS", "push", "pop", "wr", "ld", "sa", "sl", "fc", "nc", "rp", "cp", "mv", "nt", "ea", "ep", "ce",
    "cw", "cn", "cs", "id", "dn", "cpf", "runscr", "abe", "abc", "pst", "gl", "chkt", "ead", "sad", "setz", "chkm", NULL};
enum {
    O_new, O_setc, O_seta, O_setl, O_loc, O_run, O_start, O_dump, O_copy, O_free, O_cyc, O_chk, O_bp, O_bpid, O_verb, O_show, O_eval,
    O_mark, O_live, O_rec, O_psn, O_dis, O_cap, O_tc, O_tk, O_to, O_td, O_ts, O_tS, O_push, O_pop, O_wr, O_ld, O_sa, O_sl, O_fc, O_nc,
    O_rp, O_cp, O_mv, O_nt, O_ea, O_ep, O_ce, O_cw, O_cn, O_cs, O_id, O_dn, O_cpf, O_runscr, O_abe, O_abc, O_pst, O_gl, O_chkt, O_ead, O_sad, O_setz, O_chkm
};

static char strs[64][512];
static long marked;
static int checkerrs;      /* errors found by chkm */

static node_st *leaf(int type, int64_t v)
{
    node_st *kids[64] = {0}, *links[64] = {0};
    int64_t vals[64];
    for (int i = 0; i < 64; i++) {
        vals[i] = v == 0 ? 0 : v + i;
    }
    node_st *n = rt_construct(type, kids, vals, links);
    regnode(n);
    nodefuel--;
    return n;
}

static void setattr(node_st *n, int i, int64_t v, node_st *link)
{
    if (rt_attr_kind(n, i) == K_STRING) {
        char *old = rt_attr_str(n, i);
        free(old);
    }
    rt_attr_set(n, i, v, link);
}

static int size(node_st *n)
{
    if (!n) {
        return 0;
    }
    int t = rt_typeof(n), r = 1;
    for (int i = 0; i < rt_nchildren[t]; i++) {
        r += size(*rt_child(n, i));
    }
    return r;
}

static node_st *exec(int s, node_st *n)
{
    for (int k = 0; k < scr[s].n; k++) {
        struct op *o = &ops[scr[s].first + k];
        int64_t *a = args + o->off;
        int t = n ? rt_typeof(n) : -1;
        int nc = t >= 0 ? rt_nchildren[t] : 0;
        int na = t >= 0 ? rt_nattrs[t] : 0;
        switch (o->code) {
        /* tree building and top level */
        case O_new: {
            /* new r type nk kids.. nv (v link).. */
            node_st *kids[64] = {0}, *links[64] = {0};
            int64_t vals[64] = {0};
            int p = 2, nk = (int)a[p++];
            for (int i = 0; i < nk; i++) {
                kids[i] = regs[a[p++]];
            }
            int nv = (int)a[p++];
            for (int i = 0; i < nv; i++) {
                vals[i] = a[p++];
                links[i] = regs[a[p++]];
            }
            regs[a[0]] = rt_construct((int)a[1], kids, vals, links);
            regnode(regs[a[0]]);
            break;
        }
        case O_setc: *rt_child(regs[a[0]], (int)a[1]) = regs[a[2]]; break;
        case O_seta: setattr(regs[a[0]], (int)a[1], a[2], NULL); break;
        case O_setl: setattr(regs[a[0]], (int)a[1], 0, regs[a[2]]); break;
        case O_loc: {
            node_st *m = regs[a[0]];
            NODE_BLINE(m) = (uint32_t)a[1];
            NODE_BCOL(m) = (uint32_t)a[2];
            NODE_ELINE(m) = (uint32_t)a[3];
            NODE_ECOL(m) = (uint32_t)a[4];
            free(NODE_FILENAME(m));
            NODE_FILENAME(m) = rt_mkstr(a[5]);
            break;
        }
        case O_run: {
            node_st *m = regs[a[0]];
            regs[a[0]] = NULL;
            rt_put("run");
            rt_endl();
            CCNrun(m);
            rt_put("ran");
            rt_endl();
            break;
        }
        case O_start: {
            rt_put("start %d", (int)a[0]);
            rt_endl();
            regs[a[1]] = TRAVstart(regs[a[1]], rt_trav_type((int)a[0]));
            rt_put("started %d", rt_id(regs[a[1]]));
            rt_endl();
            break;
        }
        case O_chkt:
            regs[a[0]] = TRAVstart(regs[a[0]], TRAV_check);
            rt_put("checked %d", rt_id(regs[a[0]]));
            rt_endl();
            break;
        case O_dump:
            rt_put("dump ");
            dump(regs[a[0]]);
            rt_endl();
            break;
        case O_copy:
            regs[a[0]] = CCNcopy(regs[a[1]]);
            regtree(regs[a[0]]);
            rt_put("copy ");
            dump(regs[a[0]]);
            rt_endl();
            break;
        case O_free: {
            node_st *r = CCNfree(regs[a[0]]);
            regs[a[0]] = NULL;
            rt_put("free %s", r ? "notnull" : "null");
            rt_endl();
            break;
        }
        case O_bp: CCNsetBreakpoint(strs[a[0]]); break;
        case O_bpid: CCNsetBreakpointWithID((size_t)a[0]); break;
        case O_verb: CCNsetVerbosity((enum pd_verbosity)a[0]); break;
        case O_show:
            fflush(stdout);
            CCNshowTree();
            fflush(stdout);
            break;
        case O_eval:
            rt_put("eval %d", rt_id(regs[a[0]]));
            rt_endl();
            rt_evaluate(regs[a[0]]);
            rt_put("evald");
            rt_endl();
            break;
        case O_ead:
            rt_put("ead ");
            agdump(regs[a[0]], rt_ag_log);
            rt_endl();
            break;
        case O_sad:
            rt_put("sad ");
            if (regs[a[0]]) {
                agdump(regs[a[0]], rt_sa_log);
            } else {
                rt_put("_");
            }
            rt_endl();
            break;
        case O_chkm: {      /* does the tree check find something? */
            int before = CTIgetErrors();
            regs[a[0]] = TRAVstart(regs[a[0]], TRAV_check);
            checkerrs += CTIgetErrors() - before;
            rt_put("chkm %d %s", rt_id(regs[a[0]]), CTIgetErrors() > before ? "bad" : "ok");
            rt_endl();
            break;
        }
        case O_setz: rt_sa_set(regs[a[0]], (int)a[1], a[2], regs[a[3]], (unsigned)a[4]); break;
        case O_mark: marked = live; break;
        case O_live:
            rt_put("live %ld", live - marked);
            rt_endl();
            break;
        case O_rec:
            nrec[a[0]] = 0;
            rectree((int)a[0], regs[a[1]]);
            break;
        case O_psn: {
            int f = 0;
            for (int i = 0; i < nrec[a[0]]; i++) {
                f += isfreed(recs[a[0]][i]) != 0;
            }
            rt_put("psn %d of %d", f, nrec[a[0]]);
            rt_endl();
            break;
        }
        case O_dis: {
            /* do slots a0 and a1 share an address? */
            static void *x[2 * NREC];
            int c = 0, same = 0;
            for (int j = 0; j < 2; j++) {
                for (int i = 0; i < nrec[a[j]]; i++) {
                    x[c++] = recs[a[j]][i];
                }
            }
            qsort(x, (size_t)c, sizeof *x, cmpp);
            for (int i = 1; i < c; i++) {
                same += x[i] == x[i - 1];
            }
            rt_put("shared %d", same);
            rt_endl();
            break;
        }
        case O_gl:
            rt_put("errors %d warnings %d", CTIgetErrors(), CTIgetWarnings());
            rt_endl();
            break;
        case O_abe: CTIabortOnError(); break;
        case O_abc: CTIabortCompilation(); break;
        /* actions on the current node */
        case O_tc: if (n) n = TRAVchildren(n); break;
        case O_tk: if (nc) n = rt_travchild(n, (int)(a[0] % nc)); break;
        case O_to: if (nc) { node_st **c = rt_child(n, (int)(a[0] % nc)); *c = TRAVopt(*c); } break;
        case O_td: if (nc) { node_st **c = rt_child(n, (int)(a[0] % nc)); if (*c) *c = TRAVdo(*c); } break;
        case O_ts: if (nc) { node_st **c = rt_child(n, (int)(a[1] % nc)); *c = TRAVstart(*c, rt_trav_type((int)a[0])); } break;
        case O_tS: n = TRAVstart(n, rt_trav_type((int)a[0])); break;
        case O_push: TRAVpush(rt_trav_type((int)a[0])); break;
        case O_pop: TRAVpop(); break;
        case O_wr: {
            int c = rt_cur_trav();
            if (c >= 0 && rt_td_count(c)) {
                rt_td_write(c, (int)(a[0] % rt_td_count(c)), a[1], a[2] ? n : NULL);
            }
            break;
        }
        case O_ld: {
            int c = rt_cur_trav();
            rt_put("data %d ", c);
            if (c >= 0 && rt_td_count(c)) {
                rt_td_log(c);
            }
            rt_endl();
            break;
        }
        case O_sa:
            if (na && rt_attr_kind(n, (int)(a[0] % na)) != K_LINK) {
                setattr(n, (int)(a[0] % na), a[1], NULL);
            }
            break;
        case O_sl:
            if (na && rt_attr_kind(n, (int)(a[0] % na)) == K_LINK) {
                setattr(n, (int)(a[0] % na), 0, a[1] == 0 ? NULL : n);
            }
            break;
        case O_fc: if (nc) { node_st **c = rt_child(n, (int)(a[0] % nc)); *c = CCNfree(*c); } break;
        case O_nc:
            if (nc && t == a[0] && nodefuel > 0) {
                node_st **c = rt_child(n, (int)a[1]);
                if (!*c) {
                    *c = leaf((int)a[2], a[3]);
                }
            }
            break;
        case O_rp:
            if (n && t == a[0] && nodefuel > 0) {
                node_st *m = leaf((int)a[1], a[2]);
                CCNfree(n);
                n = m;
            }
            break;
        case O_cp:
            /* cp type i j: child j := copy of child i */
            if (n && t == a[0] && nodefuel > 0) {
                node_st *c = *rt_child(n, (int)a[1]);
                int sz = size(c);
                if (c && sz < 30) {
                    nodefuel -= sz;
                    node_st *d = CCNcopy(c);
                    regtree(d);
                    node_st **e = rt_child(n, (int)a[2]);
                    if (*e) {
                        CCNfree(*e);
                    }
                    *e = d;
                }
            }
            break;
        case O_mv:
            if (n && t == a[0]) {
                node_st **x = rt_child(n, (int)a[1]), **y = rt_child(n, (int)a[2]), *z = *x;
                *x = *y;
                *y = z;
            }
            break;
        case O_nt: CCNcycleNotify(); break;
        case O_ea: CCNerrorAction(); break;
        case O_ep: CCNerrorPhase(); break;
        case O_ce: CTI(CTI_ERROR, true, "user error %d", (int)a[0]); break;
        case O_cw: CTI(CTI_WARN, true, "user warning %d", (int)a[0]); break;
        case O_cn: CTI(CTI_NOTE, true, "user note %d", (int)a[0]); break;
        case O_cs: CTI(CTI_STATE, true, "user state %d", (int)a[0]); break;
        case O_id:
            rt_put("id %zu", CCNgetCurrentActionId());
            rt_endl();
            break;
        case O_dn:
            rt_put("dn ");
            dump(n);
            rt_endl();
            break;
        case O_cpf:
            if (n && nodefuel > 0) {
                node_st *d = CCNcopy(n);
                regtree(d);
                nodefuel -= size(d);
                rt_put("cpf ");
                dump(d);
                d = CCNfree(d);
                rt_put(" %s", d ? "notnull" : "null");
                rt_endl();
            }
            break;
        case O_cyc: CCNsetCycles((size_t)a[0]); break;
        case O_chk: CCNsetTreeCheck(a[0] != 0); break;
        default: _exit(97);
        }
    }
    return n;
}

static int pick(struct map *m, int dflt)
{
    if (m->n == 0) {
        return dflt;
    }
    return m->alt[m->occ++ % m->n];
}

node_st *rt_handler(int trav, int type, node_st *n)
{
    rt_put("H %d %d %d %d", trav, type, rt_id(n), rt_cur_trav());
    if (n && rt_typeof(n) != type) {
        rt_put(" !type %d", rt_typeof(n));
    }
    rt_endl();
    if (fuel-- <= 0) {
        return n;
    }
    int s = pick(&mh[trav][type], 0);
    n = exec(s, n);
    rt_put("h %d %d", trav, rt_id(n));
    rt_endl();
    return n;
}

node_st *rt_pass(int pass, node_st *n)
{
    rt_put("P %d %d id %zu cur %d", pass, rt_id(n), CCNgetCurrentActionId(), rt_cur_trav());
    rt_endl();
    if (fuel-- <= 0) {
        return n;
    }
    int s = pick(&mp[pass], 1);
    n = exec(s, n);
    rt_put("p %d %d", pass, rt_id(n));
    rt_endl();
    return n;
}

bool rt_gate(int gate)
{
    int r = pick(&mg[gate], 1);
    rt_put("G %d %d", gate, r & 1);
    rt_endl();
    if (r & 2) {
        CCNcycleNotify();
    }
    return r & 1;
}

void rt_init(int trav)
{
    rt_put("I %d %d ", trav, rt_cur_trav());
    if (rt_cur_trav() == trav && rt_td_count(trav)) {
        rt_td_log(trav);
    }
    rt_endl();
    if (rt_cur_trav() == trav) {
        exec(pick(&mi[trav], 1), NULL);
    }
}

void rt_fini(int trav)
{
    rt_put("F %d %d ", trav, rt_cur_trav());
    if (rt_cur_trav() == trav && rt_td_count(trav)) {
        rt_td_log(trav);
    }
    rt_endl();
    if (rt_cur_trav() == trav) {
        exec(pick(&mf[trav], 1), NULL);
    }
}

void BreakpointHandler(node_st *n)
{
    rt_put("BP %d ", rt_id(n));
    dump(n);
    rt_endl();
}

/* ---- attribute equations: the value is a hash of the logged line */
static size_t eqstart;

void rt_eq_begin(int eq, int mask)
{
    if (llen > sizeof lbuf - 16384) {
        flushlog();
    }
    eqstart = llen;
    rt_put("E %d %d ", eq, mask);
}

int64_t rt_eq_end(void)
{
    uint64_t h = 0xcbf29ce484222325u;
    while (llen > eqstart && lbuf[llen - 1] == ' ') {
        llen--;
    }
    for (size_t i = eqstart; i < llen; i++) {
        h = (h ^ (unsigned char)lbuf[i]) * 0x100000001b3u;
    }
    rt_endl();
    return (int64_t)h;
}

static void agdump(node_st *n, void (*f)(node_st *))
{
    int t = rt_typeof(n);
    if (t < 0) {
        rt_put("?%d", rt_id(n));
        return;
    }
    rt_put("%d(", rt_id(n));
    f(n);
    rt_put(")");
    for (int i = 0; i < rt_nchildren[t]; i++) {
        node_st *c = *rt_child(n, i);
        if (c) {
            agdump(c, f);
        }
    }
}

/* ---- main: script file on argv[1], log on argv[2] */
static int opcode(const char *s)
{
    for (int i = 0; opname[i]; i++) {
        if (!strcmp(opname[i], s)) {
            return i;
        }
    }
    fprintf(stderr, "rt: unknown op %s\n", s);
    _exit(97);
}

static char text[1 << 22];

int main(int argc, char **argv)
{
    if (argc < 3) {
        return 97;
    }
    int fd = open(argv[1], O_RDONLY);
    ssize_t got, len = 0;
    while ((got = read(fd, text + len, sizeof text - 1 - (size_t)len)) > 0) {
        len += got;
    }
    close(fd);
    text[len] = 0;
    logfd = open(argv[2], O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644);
    if (fd < 0 || logfd < 0) {
        return 97;
    }
    int cur = -1, mainscr = 1;
    char *save1 = NULL;
    for (char *line = strtok_r(text, "\n", &save1); line; line = strtok_r(NULL, "\n", &save1)) {
        char *save2 = NULL, *w = strtok_r(line, " ", &save2), *x;
        if (!w) {
            continue;
        }
        if (!strcmp(w, "SCR")) {
            cur = atoi(strtok_r(NULL, " ", &save2));
            if (cur >= MAXSCR) {
                _exit(97);
            }
            scr[cur].first = nops;
        } else if (!strcmp(w, "STR")) {
            int k = atoi(strtok_r(NULL, " ", &save2));
            snprintf(strs[k], sizeof strs[k], "%s", strtok_r(NULL, " ", &save2));
        } else if (!strcmp(w, "FUEL")) {
            fuel = atoi(strtok_r(NULL, " ", &save2));
            nodefuel = atoi(strtok_r(NULL, " ", &save2));
        } else if (!strcmp(w, "MAIN")) {
            mainscr = atoi(strtok_r(NULL, " ", &save2));
        } else if (!strcmp(w, "MAP")) {
            char *k = strtok_r(NULL, " ", &save2);
            int i = atoi(strtok_r(NULL, " ", &save2));
            struct map *m = NULL;
            if (*k == 'H') {
                m = &mh[i][atoi(strtok_r(NULL, " ", &save2))];
            } else {
                m = *k == 'P' ? &mp[i] : *k == 'G' ? &mg[i] : *k == 'I' ? &mi[i] : *k == 'F' ? &mf[i] : &mbp;
            }
            while ((x = strtok_r(NULL, " ", &save2)) && m->n < MAXALT) {
                m->alt[m->n++] = atoi(x);
            }
        } else {
            ops[nops].code = opcode(w);
            ops[nops].off = nargs;
            while ((x = strtok_r(NULL, " ", &save2))) {
                args[nargs++] = strtoll(x, NULL, 10);
                ops[nops].argc++;
                if (nargs > MAXARGS - 64) {
                    _exit(97);
                }
            }
            nops++;
            scr[cur].n++;
            if (nops > MAXOPS - 4) {
                _exit(97);
            }
        }
    }
    installhooks();
    exec(mainscr, NULL);
    rt_put("end errors %d warnings %d", CTIgetErrors() - checkerrs, CTIgetWarnings());
    rt_endl();
    return 0;
}
