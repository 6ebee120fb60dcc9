#!/usr/bin/env python3
"""C17: attributes of node sets reach every member exactly once"""
import os, random, re, shutil, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import ag, common, cgen, engine, rtc, spec as S
from workload import WL
from c18 import mand

ALL = S.PRIM_TYPES + ["string", "string", "string", "enum", "link", "user"]


def make(r, s, k):
    w = WL(r, s, {}, depth=r.choice([0, 1, 2, 3]), maxnodes=r.choice([1, 5, 15, 40]), p_attr=r.choice([0.0, 0.3, 1.0]))
    ok = [i for i, n in enumerate(s.nodes) if ag.evaluable(s, n.name)]
    mem = [i for i, n in enumerate(s.nodes) if any(cgen.set_accessors(s, n, a) for a in n.attrs)]
    roots = []
    for t in (mem if k == 0 else [r.choice(mem or range(len(s.nodes))) for _ in range(3)]):
        reg = w.tree(t, mand=mand)
        roots.append((reg, t))
        w.main += ["dump %d" % reg, "sad %d" % reg]      # the defaults
    cand = [(reg, t, i) for reg, t in w.nodes for i, a in enumerate(s.nodes[t].attrs) if a.kind == "classic" and cgen.set_accessors(s, s.nodes[t], a)]
    for _ in range(r.randint(4, 30) if cand else 0):
        reg, t, i = r.choice(cand)
        a = s.nodes[t].attrs[i]
        link = w.link(a, reg) if a.type == "link" else 0
        if r.random() < 0.5:
            w.main.append("setz %d %d %d %d %d" % (reg, i, w.value(), link, r.randrange(4)))
        elif a.type == "link":
            w.main.append("setl %d %d %d" % (reg, i, link))
        else:
            w.main.append("seta %d %d %d" % (reg, i, w.value()))
        w.main.append("%s %d" % (r.choice(["dump", "sad"]), r.choice([reg, r.choice(w.nodes)[0]])))
    for reg, t in roots:
        if t in ok and r.random() < 0.6:
            w.main += ["eval %d" % reg, "ead %d" % reg]      # grammar attributes through the node's and the sets' accessors
        if r.random() < 0.5:
            cp = 1000 + len(w.main)
            w.main += ["copy %d %d" % (cp, reg), "sad %d" % cp, "dump %d" % cp]
            if r.random() < 0.5:
                w.main += ["free %d" % cp, "sad %d" % reg]
        w.main += ["dump %d" % reg, "sad %d" % reg]
    return w.text()


class G:
    may_refuse = False

    def __init__(self, **kw):
        self.cfg = ag.AgCfg(**kw)

    def __call__(self, seed):
        return ag.gen(seed, self.cfg)


CFG = dict(mode="L", types=None, set_classic=0.9, nclassic=(1, 4), cltypes=ALL, inner_classic=0.7, overlaps=(0, 3), overlap=0.9,
           overlap_classic=0.7, extra_syn=0.5, chain=0.85, nest=(1, 2, 2, 3, 3), bare=0.3, families=(1, 2), famsize=6, nodes=(4, 9), repeat=0.4)


def variants(s, rng):
    """specifications that repeat a set attribute in a member in ways that are not allowed, and one that does not need the set"""
    import copy
    out = []
    def fresh():
        t = copy.deepcopy(s)
        return t
    sites = [(n.name, x.name, a.name) for n in s.nodes for x in s.nodesets if n.name.lower() in s.eval(x.expr) for a in x.attrs]
    if not sites:
        return out

    def at(s, q):
        return next(a for a in s.nodeset(q[1]).attrs if a.name == q[2])

    def pick(kinds):
        l = [q for q in sites if at(s, q).kind in kinds]
        return rng.choice(l) if l else None
    q = pick(("classic",))
    if q:
        t = fresh()
        n, a = t.node(q[0]), at(t, q)
        n.attrs = [x for x in n.attrs if x.name.lower() != a.name.lower()]
        b = S.Attr(a.name, "bool" if a.type != "bool" else "int", None, True)
        b.own = True
        n.attrs.append(b)
        out.append(("repeated with another type", t))
        t = fresh()
        n, a = t.node(q[0]), at(t, q)
        n.attrs = [x for x in n.attrs if x.name.lower() != a.name.lower()]
        n.attrs.append(S.Attr(a.name, a.type, a.ref, False, rng.choice(["syn", "inh"])))
        out.append(("plain attribute repeated as grammar attribute", t))
        if len(t.enums) > 1 or a.type == "link":
            t = fresh()
            n, a = t.node(q[0]), at(t, q)
            other = None
            if a.type == "enum":
                l = [e.name for e in t.enums if e.name.lower() != a.ref.lower()]
                other = rng.choice(l) if l else None
            elif a.type == "link":
                l = [e.name for e in t.nodes if e.name.lower() != a.ref.lower()]
                other = rng.choice(l) if l else None
            if other:
                n.attrs = [x for x in n.attrs if x.name.lower() != a.name.lower()]
                n.attrs.append(S.Attr(a.name, a.type, other, True))
                out.append(("repeated with another referenced type", t))
    q = pick(("syn",))
    if q:
        t = fresh()
        n, a = t.node(q[0]), at(t, q)
        n.attrs = [x for x in n.attrs if x.name.lower() != a.name.lower()]
        n.attrs.append(S.Attr(a.name, a.type, a.ref, True))
        out.append(("grammar attribute repeated as plain attribute", t))
        t = fresh()
        n, a = t.node(q[0]), at(t, q)
        n.attrs = [x for x in n.attrs if x.name.lower() != a.name.lower()]
        n.attrs.append(S.Attr(a.name, "bool" if a.type != "bool" else "int", None, False, "syn"))
        out.append(("grammar attribute repeated with another type", t))
    # two sets give one node two attributes of the same name and different types
    q = pick(("classic", "syn"))
    if q:
        t = fresh()
        a = at(t, q)
        y = S.NodeSet("Zzclash", ("lit", [q[0]]), True)
        y.attrs = [S.Attr(a.name, "bool" if a.type != "bool" else "int", None, False, "classic")]
        t.nodesets.append(y)
        out.append(("two sets with different attributes of one name", t))
    return out


def reject_job(args):
    b, seed = args
    s = ag.gen(seed, ag.AgCfg(**CFG))
    rng = random.Random(seed + 17)
    d = os.path.join(common.scratch(), "r%d" % seed)
    os.makedirs(d, exist_ok=True)
    out = []
    for k, (what, t) in enumerate(variants(s, rng)):
        text = S.to_dsl(t, random.Random(k))
        f = os.path.join(d, "v%d.ccn" % k)
        open(f, "w").write(text)
        r = b.gen(f, os.path.join(d, "o%d" % k))
        v = "timeout" if r.timeout else "crash " + r.sanitizer[0] if r.sanitizer else "accepted" if r.rc == 0 else \
            "refused" if r.rc == 1 and "error" in r.err.lower() else "exit %s" % r.rc
        out.append((what, v, text, r.err[-1200:]))
    # macros of attributes a node must not have
    text = S.to_dsl(s, random.Random(1))
    f = os.path.join(d, "s.ccn")
    open(f, "w").write(text)
    o = os.path.join(d, "o")
    r = b.gen(f, o)
    extra, names = [], 0
    if r.rc == 0:
        with open(os.path.join(d, "user_types.h"), "w") as g:
            g.write(cgen.user_types_h(s))
        keys = []
        allattrs = sorted({a.name for n in s.nodes for a in n.attrs} | {a.name for x in s.nodesets for a in x.attrs})
        for n in s.nodes:
            have = {a.name.lower() for a in n.attrs} | {c.name.lower() for c in n.children}
            for a in allattrs:
                m = "%s_%s" % (n.name.upper(), a.upper())
                keys.append((m, a.lower() in have))
        open(os.path.join(d, "p.c"), "w").write('#include "ccngen/ast.h"\n')
        p = common.run(["gcc", "-E", "-dM", "-I", o, "-I", d, *engine.INC, os.path.join(d, "p.c")])
        defs = set(re.findall(r"^#define (\w+)", p.out, re.M))
        if p.rc == 0:
            names = len(keys)
            extra = [(m, want) for m, want in keys if (m in defs) != want]
    shutil.rmtree(d, ignore_errors=True)
    return seed, out, extra, names, text


def main():
    ck = common.Check("C17", "one evaluation = one script on one generated program whose node sets have attributes (defaults, writes and reads through the node's "
                      "accessor and through those of all its sets, evaluation, copies), or one verdict on an inadmissible repetition; distinct = different expected "
                      "event sequence with a read through a set, or different text")
    b = common.Build()
    rtc.explore(ck, b, G(**CFG), make, ck.n(70, 1000), ck.n(10, 30), lambda st, e, n: st.get("read through node set", 0) > 0, ev=ag.ev)
    seeds = [common.SEED * 1000003 + 700000 + i for i in range(ck.n(100, 2000))]
    if common.REPLAY is not None:
        seeds = [common.REPLAY]
    for seed, out, extra, names, text in common.pmap(reject_job, [(b, x) for x in seeds]):
        ck.count("accessor names compared", names)
        for m, want in extra:
            ck.violation("accessor", "specification seed %d: accessor %s %s" % (seed, m, "is missing" if want else "exists for a node that is not a member"), {"spec.ccn": text})
        for what, v, t, err in out:
            ck.count(what + ": " + v)
            ck.observe(t, {"seed": seed, "variant": what, "verdict": v})
            if v != "refused":
                ck.violation("%s: %s" % (what, v), "specification seed %d: %s: %s\n%s" % (seed, what, v, err), {"spec.ccn": t})
    return ck.finish(50)


if __name__ == "__main__":
    common.main(main)
