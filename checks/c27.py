#!/usr/bin/env python3
"""C27: accessors refuse nodes of another type and grammar attributes that were not evaluated"""
import os, random, re, shutil, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import ag, c17, cgen, common, engine, spec as S

MAIN = r'''
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <sys/wait.h>
static void one(int k, int t, node_st *n)
{
    int p[2];
    static char buf[4096];
    size_t len = 0;
    ssize_t got;
    int status;
    fflush(stdout);
    if (pipe(p)) _exit(99);
    pid_t c = fork();
    if (c < 0) _exit(99);
    if (c == 0) {
        dup2(p[1], 2);
        close(p[0]);
        probes[k](n);
        _exit(0);
    }
    close(p[1]);
    while ((got = read(p[0], buf + len, sizeof buf - 1 - len)) > 0) len += got;
    close(p[0]);
    waitpid(c, &status, 0);
    buf[len] = 0;
    for (char *q = buf; *q; q++) if (*q == '\n' || *q == '\t') *q = ' ';
    printf("%d %d %d %s\n", k, t, WIFSIGNALED(status) ? -WTERMSIG(status) : WEXITSTATUS(status), buf);
}
__attribute__((constructor)) static void probe_all(void)
{
    if (!getenv("PROBE")) return;
    node_st *nodes[NTYPES];
    make(nodes);
    int k, t;
    while (scanf("%d %d", &k, &t) == 2) one(k, t, nodes[t]);
    fflush(stdout);
    _exit(0);
}
'''


class Probe:
    """what: 'node', 'set' or 'child'; ok: indexes of the node types it is for"""
    def __init__(self, what, expr, owner, field, ok, unset, names):
        self.what, self.expr, self.owner, self.field, self.ok, self.unset, self.names = what, expr, owner, field, ok, unset, names


def probes(s):
    out = []
    for t, n in enumerate(s.nodes):
        for f in n.children + n.attrs:
            out.append(Probe("node", cgen.mac(n, f) + "(n)", n, f, {t}, isinstance(f, S.Attr) and ag.is_ag(f), [cgen.mac(n, f), n.name]))
    for x in s.nodesets:
        mem = s.eval(x.expr)
        for a in ag.set_attrs(s, x):
            ok = {t for t, n in enumerate(s.nodes) if n.name.lower() in mem}
            out.append(Probe("set", "%s_%s(n)" % (x.name.upper(), a.name.upper()), x, a, ok, ag.is_ag(a), ["%s_%s" % (x.name.upper(), a.name.upper()), x.name]))
    for c in sorted({c.name.lower() for n in s.nodes for c in n.children}):
        ok = {t for t, n in enumerate(s.nodes) if n.child(c)}
        out.append(Probe("child", "TRAV%s(n)" % c, None, c, ok, False, [c]))
    return out


def source(s, ps):
    o = ['#include "ccngen/ast.h"', '#include "ccngen/trav.h"', '#include "palm/memory.h"', "#include <stdint.h>", "#include <stdbool.h>", "#define NTYPES %d" % len(s.nodes),
         "static volatile long sink;"]
    lines = {}
    for k, p in enumerate(ps):
        if p.what == "child":
            o.append("static void probe_%d(node_st *n) { sink = %s == n; }" % (k, p.expr))
        else:
            o.append("static void probe_%d(node_st *n) { sink = !!%s; }" % (k, p.expr))
        lines[k] = len(o)
    o.append("static void (*const probes[])(node_st *) = {%s};" % ", ".join("probe_%d" % k for k in range(len(ps))))
    o.append("static void make(node_st **nodes)\n{")
    for t, n in enumerate(s.nodes):
        args = ["NULL" for c in n.children if c.ctor] + ["(%s){0}" % cgen.ctype(s, a) for a in n.attrs if a.ctor]
        o.append("    nodes[%d] = AST%s(%s);" % (t, n.name.lower(), ", ".join(args)))
    o.append("}")
    return "\n".join(o) + MAIN, lines


def judge(s, ps, k, t, st, msg, line, ndebug):
    p = ps[k]
    words = set(re.findall(r"\w+", msg.lower()))
    if "AddressSanitizer" in msg or "runtime error" in msg:
        return "sanitizer"
    if t in p.ok and not p.unset:
        if st != 0:
            return "refuses a node of the right type"
        if msg.strip():
            return "reports something about a node of the right type"
        return None
    if st == 0:
        return "accepts a %s" % ("grammar attribute that has no value" if t in p.ok else "node of another type")
    if st != -6:
        return "ends with status %d" % st
    if p.what == "child":
        return None if p.field in words else "does not name the child"
    if t in p.ok:
        return None if p.field.name.lower() in words and p.what == "set" or p.field.name.lower() in words and "acc" in words and str(line) in words else "does not name the attribute, file and line"
    if not {x.lower() for x in p.names} <= words:
        return "does not name the accessor and the expected type"
    if not {"acc", "c", str(line), "probe_%d" % k} <= words:
        return "does not name the place of the access"
    return None


def job(a):
    b, seed = a
    r = random.Random(seed)
    if seed % 2:
        s = ag.gen(seed, ag.AgCfg(**c17.CFG))
        eqs = ag.ev(s)[0]
    else:
        s = S.gen_spec(seed, S.Cfg(nodes=(2, 7), sets=(0, 4), children=(0, 4), attrs=(0, 4), travs=(0, 2), passes=(1, 2), phases=(0, 2), enums=(0, 2)))
        eqs = None
    d = os.path.join(common.scratch(), "c27-%d" % seed)
    os.makedirs(d, exist_ok=True)
    ps = probes(s)
    out = {"seed": seed, "viol": [], "seen": [], "problem": None, "text": None}
    if not ps:
        shutil.rmtree(d, ignore_errors=True)
        return out
    text, lines = source(s, ps)
    src = os.path.join(d, "acc.c")
    open(src, "w").write(text)
    for nd in (False, True):
        if nd and r.random() < 0.6:
            continue
        c = engine.build_spec(b, s, d, eqs=eqs, extra_src=[src], extra_defs=["-DNDEBUG"] if nd else [])
        if c.problem:
            out["problem"] = c.problem
            break
        combos = [(k, t) for k, p in enumerate(ps) for t in range(len(s.nodes)) if not nd or (t in p.ok and not p.unset)]
        if len(combos) > 250:
            combos = r.sample(combos, 250)
        x = common.run([c.exe], timeout=120, extra={"PROBE": "1"}, stdin="".join("%d %d\n" % q for q in combos).encode())
        got = {}
        for l in x.out.split("\n"):
            m = re.match(r"(\d+) (\d+) (-?\d+) (.*)$", l)
            if m:
                got[int(m.group(1)), int(m.group(2))] = int(m.group(3)), m.group(4)
        if x.timeout or x.rc != 0 or len(got) != len(combos):
            if x.sanitizer:
                out["viol"].append(("sanitizer", x.sanitizer[1]))
                break
            raise common.HarnessError("probe run: exit %s, %d of %d: %s" % (x.rc, len(got), len(combos), x.err[-500:]))
        for (k, t), (st, msg) in got.items():
            p = ps[k]
            kind = ("right type" if t in p.ok and not p.unset else "not evaluated" if t in p.ok else "other type")
            out["seen"].append((p.what, kind, nd, p.field if p.what == "child" else getattr(p.field, "type", None), len(p.ok)))
            bad = judge(s, ps, k, t, st, msg, lines[k], nd)
            if bad:
                out["viol"].append(("%s accessor, %s%s: %s" % (p.what, kind, ", NDEBUG" if nd else "", bad), "%s on a node of type %s: exit %d: %s" % (p.expr, s.nodes[t].name, st, msg[:500])))
    out["text"] = S.to_dsl(s, random.Random(1))
    out["src"] = text
    shutil.rmtree(d, ignore_errors=True)
    return out


def main():
    ck = common.Check("C27", "one evaluation = one accessor (of a child, an attribute, a node set's attribute, or a TRAV<child> function) applied to a node of one type in a process of its own; "
                      "distinct = different specification, accessor kind, field type, and relation of the node's type to the accessor")
    b = common.Build()
    seeds = [common.SEED * 1000003 + 2700000 + i for i in range(ck.n(80, 2500))]
    if common.REPLAY is not None:
        seeds = [common.REPLAY]
    for o in common.pmap(job, [(b, x) for x in seeds]):
        if o["problem"]:
            ck.violation("spec-" + o["problem"][0], "specification seed %d: %s" % (o["seed"], o["problem"][1]))
            continue
        for x in o["seen"]:
            ck.count("%s accessor, %s%s" % (x[0], x[1], ", NDEBUG" if x[2] else ""))
            ck.observe((o["seed"],) + tuple(map(str, x)), {"seed": o["seed"], "accessor": x[0], "case": x[1]})
        for key, what in o["viol"]:
            ck.violation(key, "specification seed %d: %s" % (o["seed"], what), {"spec.ccn": o["text"], "acc.c": o["src"]} if o["text"] else {})
    return ck.finish(500)


if __name__ == "__main__":
    common.main(main)
