/* C01: random histories of hash-table operations compared with a finite map */
#include "h.h"
#include <ctype.h>
#include <limits.h>
#include "palm/hash_table.h"

enum kind { STR, INT, PTR, UCONST, UMAX, UCI, UMOD, KINDS };
static const char *kname[] = {"string", "int", "ptr", "const-hash", "max-hash", "ci-hash", "mod-hash"};

typedef struct { void *key; void *val; int kid; } ent;
typedef struct { htable_st *t; enum kind k; size_t buckets; ent *e; size_t n; } map;
/* keys are shared between a table and its shallow copies */
typedef struct { void *p; int refs; } kref;

static kref *krefs; static size_t nkref, capkref;
static kref *kfind(void *p) { for (size_t i = 0; i < nkref; i++) if (krefs[i].p == p) return &krefs[i]; return NULL; }
static void kdrop(void *p, enum kind k)
{
    if (!p || k == PTR) return;
    kref *r = kfind(p);
    if (!r) abort();
    if (--r->refs == 0) { free(p); *r = krefs[--nkref]; }
}
static void kuse(void *p, enum kind k)
{
    if (!p || k == PTR) return;
    kref *r = kfind(p);
    if (!r) {
        if (nkref == capkref) krefs = realloc(krefs, sizeof *krefs * (capkref = capkref * 2 + 64));
        r = &krefs[nkref++];
        r->p = p; r->refs = 0;
    }
    r->refs++;
}

#define MAXK 700
static char *skeys[MAXK]; static int ikeys[MAXK]; static char *pkeys[MAXK]; static int nk;
static bool is_string(enum kind k) { return k == STR || k == UCI; }
static void *mkkey(enum kind k, int kid)
{
    if (is_string(k)) {
        char *s = h_dup(skeys[kid]);
        if (k == UCI) for (char *c = s; *c; c++) if (h_rand() & 1) *c = islower((unsigned char)*c) ? toupper(*c) : tolower((unsigned char)*c);
        return s;
    }
    if (k == PTR) return pkeys[kid];
    int *p = malloc(sizeof *p);
    *p = ikeys[kid];
    return p;
}
static int keyid(enum kind k, void *key)
{
    for (int i = 0; i < nk; i++) {
        if (k == PTR) { if (pkeys[i] == key) return i; }
        else if (k == STR) { if (!strcmp(skeys[i], key)) return i; }
        else if (k == UCI) { if (!strcasecmp(skeys[i], key)) return i; }
        else if (ikeys[i] == *(int *)key) return i;
    }
    return -1;
}
extern int strcasecmp(const char *, const char *);
static size_t hconst(void *p) { (void)p; return 12; }
static size_t hmax(void *p) { return SIZE_MAX - (size_t)(*(int *)p & 3); }
static size_t hmod(void *p) { return (size_t)(*(int *)p % 3 + 3); }
static bool eqint(void *a, void *b) { return *(int *)a == *(int *)b; }
static size_t hci(void *p) { size_t h = 0; for (unsigned char *c = p; *c; c++) h = h * 31 + (size_t)tolower(*c); return h; }
static bool eqci(void *a, void *b) { return strcasecmp(a, b) == 0; }

static htable_st *mk(enum kind k, size_t b)
{
    switch (k) {
    case STR: return HTnew_String(b);
    case INT: return HTnew_Int(b);
    case PTR: return HTnew_Ptr(b);
    case UCONST: return HTnew(b, hconst, eqint);
    case UMAX: return HTnew(b, hmax, eqint);
    case UMOD: return HTnew(b, hmod, eqint);
    default: return HTnew(b, hci, eqci);
    }
}
static ent *mfind(map *m, int kid) { for (size_t i = 0; i < m->n; i++) if (m->e[i].kid == kid) return &m->e[i]; return NULL; }
static void mremove(map *m, ent *e)
{
    kdrop(e->key, m->k);
    *e = m->e[--m->n];
}

/* which key object an overwritten entry refers to is not specified: keep the first and the newest, and check it is one of those */
static void kuse_alias(ent *e, map *m, void *key)
{
    if (m->k == PTR) return;
    void *cur = NULL;
    for (htable_iter_st *it = HTiterate(m->t); it; it = HTiterateNext(it))
        if (keyid(m->k, HTiterKey(it)) == e->kid) cur = HTiterKey(it);
    if (cur != key && cur != e->key) h_bad("overwrite-key", "the entry refers to a key object that was never given with it");
    if (cur == key) { kuse(key, m->k); kdrop(e->key, m->k); e->key = key; }
    else free(key);
}

static long vals;
static void *newval(void) { return h_below(12) == 0 ? NULL : (void *)(++vals * 16); }

/* callbacks */
static map *cb_m; static unsigned char *cb_seen; static size_t cb_calls; static int cb_mode; static void *cb_data;
static void *cb_vals[4096];
static ent *by_val_key(void *key, void *val, bool haskey)
{
    for (size_t i = 0; i < cb_m->n; i++) {
        if (cb_seen[i]) continue;
        if (haskey && keyid(cb_m->k, key) != cb_m->e[i].kid) continue;
        if (cb_m->e[i].val != val) continue;
        cb_seen[i] = 1;
        return &cb_m->e[i];
    }
    h_bad(haskey ? "map-key-entry" : "map-entry", "callback got an entry that is not in the map or was visited before (key %d, value %p)",
          haskey ? keyid(cb_m->k, key) : -2, val);
    return NULL;
}
static void *apply(void *key, void *v, bool haskey)
{
    cb_calls++;
    ent *e = by_val_key(key, v, haskey);
    if (haskey && h_below(3) == 0) {   /* the callback uses the table */
        void *got = HTlookup(cb_m->t, key);
        if (got != v) h_bad("lookup-in-map", "looked up %p, expected %p", got, v);
    }
    if (cb_mode == 0 || (!haskey && !v)) return v;     /* several entries may hold NULL */
    e->val = newval();
    return e->val;
}
static void *cb_map(void *v) { return apply(NULL, v, false); }
static void *cb_mapk(void *k, void *v) { return apply(k, v, true); }
static void *cb_mapdk(void *d, void *k, void *v) { if (d != cb_data) h_bad("map-data", "data %p, expected %p", d, cb_data); return apply(k, v, true); }
static void *cb_fold(void *acc, void *v)
{
    if (acc != cb_data) h_bad("fold-acc", "accumulator %p, expected %p", acc, cb_data);
    cb_calls++;
    by_val_key(NULL, v, false);
    *(long *)acc += (long)v;
    return acc;
}
/* deep copy: a fresh key object, a value derived from the old one */
static enum kind dc_k; static size_t dc_keys, dc_vals;
static void *dc_key(void *k)
{
    dc_keys++;
    if (is_string(dc_k)) return h_dup(k);
    int *p = malloc(sizeof *p); *p = *(int *)k; return p;
}
static void *dc_val(void *v) { dc_vals++; return v ? (char *)v + 1 : NULL; }

static void check(map *m)
{
    if (HTelementCount(m->t) != m->n) h_bad("count", "count %zu, expected %zu", HTelementCount(m->t), m->n);
    for (int i = 0; i < nk; i++) {
        ent *e = mfind(m, i);
        void *key = mkkey(m->k, i), *got = HTlookup(m->t, key);
        if (m->k != PTR) free(key);
        if (got != (e ? e->val : NULL)) h_bad("lookup", "key %d: got %p, expected %p", i, got, e ? e->val : NULL);
    }
}
static void iterate(map *m, bool set, bool cancel)
{
    unsigned char *seen = calloc(m->n + 1, 1);
    size_t stop = cancel && m->n ? h_below(m->n) : (size_t)-1, visited = 0;
    htable_iter_st *it = HTiterate(m->t);
    if (!it && m->n) h_bad("iterate-none", "no iterator for %zu elements", m->n);
    for (; it; it = HTiterateNext(it)) {
        void *k = HTiterKey(it), *v = HTiterValue(it);
        int kid = keyid(m->k, k);
        ent *e = kid < 0 ? NULL : mfind(m, kid);
        if (!e) h_bad("iterate-absent", "iteration reached key %d that is not in the map", kid);
        if (seen[e - m->e]++) h_bad("iterate-twice", "iteration reached key %d twice", kid);
        if (v != e->val) h_bad("iterate-value", "key %d: value %p, expected %p", kid, v, e->val);
        visited++;
        if (set && (h_rand() & 1)) {
            e->val = newval();
            HTiterSetValue(it, e->val);
            if (HTiterValue(it) != e->val) h_bad("iterate-set", "value not set");
        }
        if (h_below(8) == 0) {
            void *got = HTlookup(m->t, k);
            if (got != e->val) h_bad("iterate-lookup", "lookup %p, expected %p", got, e->val);
        }
        if (h_below(16) == 0) {        /* a second iterator over the same table */
            size_t c = 0;
            for (htable_iter_st *j = HTiterate(m->t); j; j = HTiterateNext(j)) {
                if (++c > m->n) h_bad("iterate-nested", "inner iteration is longer than the map");
            }
            if (c != m->n) h_bad("iterate-nested", "inner iteration saw %zu of %zu", c, m->n);
        }
        if (visited > m->n) h_bad("iterate-long", "too many elements");
        if (visited - 1 == stop) { HTiterateCancel(it); free(seen); return; }
    }
    if (visited != m->n) h_bad("iterate-missed", "visited %zu of %zu", visited, m->n);
    free(seen);
}

static void history(uint64_t seed, int nops, long *stats)
{
    h_state = seed; h_seed = seed; h_reset();
    enum kind kind0 = h_below(KINDS);
    bool big = nops > 1000;
    nk = big ? MAXK : h_range(1, h_below(3) ? 12 : 64);
    /* key universe: colliding, empty, long and high-bit strings; extreme ints; pointers that differ in low, middle and high bits */
    for (int i = 0; i < nk; i++) {
        char b[300]; int n;
        switch (h_below(5)) {
        case 0: n = 0; for (int j = h_range(0, 3); j > 0; j--) b[n++] = "ab"[h_below(2)]; b[n] = 0; break;
        case 1: sprintf(b, "%c%c%d", 'a' + (int)h_below(3), h_below(2) ? 'B' : 'c', i % 3); break;
        case 2: n = h_range(1, 280); for (int j = 0; j < n; j++) b[j] = 'x'; b[n] = 0; break;
        case 3: sprintf(b, "%c%c", 0x80 + (int)h_below(128), 1 + (int)h_below(255)); break;
        default: sprintf(b, "key%d", i);
        }
        skeys[i] = h_dup(b);
        for (;;) {
            bool dup = false;
            for (int j = 0; j < i; j++) dup |= strcasecmp(skeys[i], skeys[j]) == 0;
            if (!dup) break;
            free(skeys[i]);
            sprintf(b, "k%d_%u", i, (unsigned)h_rand());
            skeys[i] = h_dup(b);
        }
        static const int ex[] = {0, -1, 1, INT_MAX, INT_MIN, 256, -256, 1024};
        ikeys[i] = i < 8 ? ex[i] : (int)h_rand();
        if (i > 8 && h_below(3) == 0) ikeys[i] = (int)((unsigned)ikeys[h_below(i)] ^ (1u << (8 + h_below(24))));   /* one bit apart */
        for (int j = 0; j < i; j++) if (ikeys[j] == ikeys[i]) { ikeys[i] = (int)((unsigned)ikeys[i] + 1); j = -1; }
        pkeys[i] = (char *)(uintptr_t)(4096 + (uintptr_t)i * (i % 3 == 0 ? 1 : i % 3 == 1 ? 32 : 1ull << 40) + 0x10000ull * (uintptr_t)i);
        if (i > 0 && h_below(3) == 0) pkeys[i] = (char *)((uintptr_t)pkeys[h_below(i)] ^ ((uintptr_t)1 << (5 + h_below(42))));   /* one bit apart */
        for (int j = 0; j < i; j++) if (pkeys[j] == pkeys[i] || !pkeys[i]) { pkeys[i] += 8; j = -1; }
    }
    long live0 = h_live - (long)nk;
    map ms[5]; int nm = 0;
    memset(ms, 0, sizeof ms);
    static const size_t bs[] = {1, 1, 2, 3, 5, 7, 16, 31, 64, 1000};
#define NEWMAP(KK, BB, TT) do { map *q = &ms[nm++]; q->k = KK; q->buckets = BB; q->t = TT; q->n = 0; q->e = calloc((size_t)nk + 1, sizeof(ent)); } while (0)
    size_t b0 = bs[h_below(10)];
    h_note("new %s buckets %zu keys %d; ", kname[kind0], b0, nk);
    NEWMAP(kind0, b0, mk(kind0, b0));
    for (int o = 0; o < nops; o++) {
        if (nm == 0) { NEWMAP(kind0, b0, mk(kind0, b0)); h_note("new; "); }
        int mi = (int)h_below((size_t)nm);
        map *m = &ms[mi];
        int kid = (int)h_below((size_t)nk);
        unsigned op = (unsigned)h_below(100);
        cb_m = m; cb_calls = 0; cb_mode = (int)h_below(2); cb_data = &cb_vals[h_below(100)];
        stats[op < 40 ? 0 : op < 58 ? 1 : op < 70 ? 2 : op < 72 ? 3 : op < 76 ? 4 : op < 80 ? 5 : op < 90 ? 6 : op < 92 ? 7 : 8]++;
        if (op < 40 || (big && o < 1200 && op < 90)) {      /* insert */
            void *key = mkkey(m->k, kid), *v = newval();
            h_note("%d.insert(%d,%p) ", mi, kid, v);
            bool ok = HTinsert(m->t, key, v);
            if (!ok) h_bad("insert-false", "insert returned false");
            ent *e = mfind(m, kid);
            if (e) {
                e->val = v;
                kuse_alias(e, m, key);
            } else {
                ent *ne = &m->e[m->n++];
                kuse(key, m->k); ne->key = key; ne->val = v; ne->kid = kid;
            }
        } else if (op < 58) {                              /* remove */
            void *key = mkkey(m->k, kid);
            ent *e = mfind(m, kid);
            h_note("%d.remove(%d) ", mi, kid);
            void *got = HTremove(m->t, key);
            if (m->k != PTR) free(key);
            if (got != (e ? e->val : NULL)) h_bad("remove", "key %d: removed %p, expected %p", kid, got, e ? e->val : NULL);
            if (e) mremove(m, e);
        } else if (op < 70) {
            h_note("%d.lookup(%d) ", mi, kid);
            void *key = mkkey(m->k, kid);
            ent *e = mfind(m, kid);
            void *got = HTlookup(m->t, key);
            if (m->k != PTR) free(key);
            if (got != (e ? e->val : NULL)) h_bad("lookup", "key %d: got %p, expected %p", kid, got, e ? e->val : NULL);
        } else if (op < 72 && !(big && h_below(10))) {
            h_note("%d.clear ", mi);
            HTclear(m->t);
            while (m->n) mremove(m, &m->e[0]);
        } else if (op < 76 && nm < 5) {
            h_note("%d.copy ", mi);
            htable_st *t = HTcpy(m->t);
            map *src = m;
            NEWMAP(src->k, src->buckets, t);
            map *q = &ms[nm - 1];
            for (size_t i = 0; i < src->n; i++) { q->e[q->n++] = src->e[i]; kuse(src->e[i].key, q->k); }
        } else if (op < 80 && nm < 5 && m->k != PTR) {
            h_note("%d.deepcopy ", mi);
            dc_k = m->k; dc_keys = dc_vals = 0;
            htable_st *t = HTdeep_copy(m->t, dc_key, dc_val);
            if (dc_keys != m->n || dc_vals != m->n) h_bad("deep-copy-calls", "%zu key and %zu value copies for %zu entries", dc_keys, dc_vals, m->n);
            map *src = m;
            NEWMAP(src->k, src->buckets, t);
            map *q = &ms[nm - 1];
            for (size_t i = 0; i < src->n; i++) {
                q->e[q->n] = src->e[i];
                q->e[q->n].val = src->e[i].val ? (char *)src->e[i].val + 1 : NULL;
                q->e[q->n].key = NULL;
                q->n++;
            }
            /* learn the fresh key objects from the new table; each must differ from every key of the source */
            size_t got = 0;
            for (htable_iter_st *it = HTiterate(t); it; it = HTiterateNext(it)) {
                void *k = HTiterKey(it);
                ent *e = mfind(q, keyid(q->k, k));
                if (!e || e->key) h_bad("deep-copy-keys", "unexpected key in the copy");
                if (kfind(k)) h_bad("deep-copy-shares", "the deep copy shares a key object");
                e->key = k; kuse(k, q->k);
                if (++got > q->n) h_bad("deep-copy-keys", "too many keys");
            }
            if (got != q->n) h_bad("deep-copy-keys", "%zu of %zu keys", got, q->n);
        } else if (op >= 72 && op < 90 && !(big && h_below(8))) {
            unsigned w = (unsigned)h_below(7);
            h_note("%d.iter%u ", mi, w);
            unsigned char seen[MAXK + 1] = {0};
            cb_seen = seen;
            long acc = 0, sum = 0;
            switch (w) {
            case 0: HTmap(m->t, cb_map); break;
            case 1: HTmapWithKey(m->t, cb_mapk); break;
            case 2: HTmapWithDataAndKey(m->t, cb_data, cb_mapdk); break;
            case 3:
                for (size_t i = 0; i < m->n; i++) sum += (long)m->e[i].val;
                cb_data = &acc;
                HTfold(m->t, cb_fold, &acc);
                if (acc != sum) h_bad("fold", "sum %ld, expected %ld", acc, sum);
                break;
            case 4: iterate(m, false, false); break;
            case 5: iterate(m, true, false); break;
            default: iterate(m, h_rand() & 1, true);
            }
            if (w < 4 && cb_calls != m->n) h_bad("map-missed", "%zu calls for %zu entries", cb_calls, m->n);
        } else if (op >= 90 && op < 92 && !(big && h_below(8))) {
            h_note("%d.delete ", mi);
            HTdelete(m->t);
            while (m->n) mremove(m, &m->e[0]);
            free(m->e);
            *m = ms[--nm];
            continue;
        } else {
            if (HTelementCount(m->t) != m->n) h_bad("count", "count %zu, expected %zu", HTelementCount(m->t), m->n);
        }
        if (h_below(big ? 400 : 6) == 0) for (int i = 0; i < nm; i++) check(&ms[i]);   /* the others too: independence */
        if ((long)m->n > stats[10]) stats[10] = (long)m->n;
    }
    for (int i = 0; i < nm; i++) check(&ms[i]);
    for (int i = 0; i < nm; i++) {
        h_note("%d.delete ", i);
        HTdelete(ms[i].t);
        while (ms[i].n) mremove(&ms[i], &ms[i].e[0]);
        free(ms[i].e);
    }
    free(krefs); krefs = NULL; nkref = capkref = 0;
    for (int i = 0; i < nk; i++) free(skeys[i]);
    if (h_live != live0) h_bad("leak", "%ld allocations are left after all tables were deleted", h_live - live0);
    printf("CASE %016llx\n", (unsigned long long)h_hash(h_hist, h_len));
    if (seed % 97 == 0) printf("SAMPLE %.300s\n", h_hist);
}

int main(int argc, char **argv)
{
    uint64_t seed = strtoull(argv[1], NULL, 10);
    int n = atoi(argv[2]);
    static long stats[12];
    static char outbuf[1 << 16];
    setvbuf(stdout, outbuf, _IOFBF, sizeof outbuf);
    printf("start\n");
    h_hooks();
    for (int i = 0; i < n; i++) {
        int nops = i % 150 == 7 ? 4000 : i % 10 == 0 ? 400 : i % 3 == 0 ? 8 : 60;
        history(seed + (uint64_t)i, nops, stats);
    }
    static const char *nm[] = {"inserts", "removes", "lookups", "clears", "copies", "deep copies", "iterations and maps", "deletes", "counts"};
    for (int i = 0; i < 9; i++) printf("STAT %ld %s\n", stats[i], nm[i]);
    (void)argc;
    return 0;
}
