#!/usr/bin/env python3
"""C16: set expressions denote exactly the set algebra they are written in"""
import os, random, shutil, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import common, rtc, spec as S
from workload import WL


def make(r, s, k):
    w = WL(r, s, {}, depth=r.choice([0, 1, 2, 3]), maxnodes=r.choice([10, 30]), p_child=r.choice([0.5, 1.0]))
    w.head.append("FUEL 20000 20000")
    w.scrs[0] = ["tc"]
    if k == 0:
        # every traversal on a node of every type; every child with a node of every type
        for t, n in enumerate(s.nodes):
            for i in range(len(s.travs)):
                reg = w.tree(t, 0)
                w.main.append("start %d %d" % (i, reg))
            for i in range(len(n.children)):
                p = w.tree(t, 0)
                for u in range(len(s.nodes)):
                    q = w.tree(u, 0)
                    w.main += ["setc %d %d %d" % (p, i, q), "chkm %d" % p]
    else:
        for _ in range(3):
            t = r.randrange(len(s.nodes))
            reg = w.tree(t)
            for i in r.sample(range(len(s.travs)), min(4, len(s.travs))):
                w.main.append("start %d %d" % (i, reg))
            w.main.append("chkm %d" % reg)
    return w.text()


CFG = S.Cfg(nodes=(2, 12), sets=(3, 12), travs=(3, 9), passes=(1, 1), phases=(0, 0), enums=(0, 0), attrs=(0, 1), children=(0, 4), setdepth=4,
            travdata=0.0, all_trav=0.1, user=False, empty=0.3)


def tweak(s, rng):
    return S.to_dsl(s, rng)


def bad(s, r):
    """ill-formed uses of set expressions: (what, text to add)"""
    n = [x.name for x in s.nodes]
    sets = [x.name for x in s.nodesets]
    a = r.choice(n)
    b = r.choice(n)
    full = "{%s}" % ", ".join(n)
    y = r.choice(sets)
    ym = s.eval(("ref", y))
    out = [
        ("control", "nodeset zzx = {%s} | %s; nodeset zzy = {%s} - {%s}; node zzn { children { zzx zzc } }; traversal zzt { uid = zztu, nodes = zzx & zzx };" % (a, y, a, a)),
        ("self reference with a child", "nodeset zzx = {%s} | zzx; node zzn { children { zzx zzc } };" % a),
        ("self reference", "nodeset zzx = {%s} | zzx;" % a),
        ("bare self reference", "nodeset zzx = zzx;"),
        ("mutual reference", "nodeset zzx = {%s} | zzy; nodeset zzy = {%s} | zzx;" % (a, b)),
        ("long cycle", "nodeset zzx = zzy & %s; nodeset zzy = zzz | {%s}; nodeset zzz = {%s} - zzx;" % (full, a, b)),
        ("node as set reference", "nodeset zzx = %s | {%s};" % (a, b)),
        ("undefined set", "nodeset zzx = {%s} | zzundefined;" % a),
        ("undefined node", "nodeset zzx = {%s, zzundefined};" % a),
        ("set as node", "nodeset zzx = {%s, %s};" % (a, y)),
        ("traversal as set", "nodeset zzx = {%s} | %s;" % (a, s.travs[0].name)),
        ("pass as set", "nodeset zzx = %s;" % s.passes[0].name),
        ("phase as node", "nodeset zzx = {%s};" % s.start.name),
        ("undefined set in traversal", "traversal zzt { uid = zztu, nodes = {%s} | zzundefined };" % a),
        ("undefined node in traversal", "traversal zzt { uid = zztu, nodes = {%s, zzundefined} };" % a),
        ("node as set in traversal", "traversal zzt { uid = zztu, nodes = %s };" % a),
        ("traversal as set in traversal", "traversal zzt { uid = zztu, nodes = {%s} & %s };" % (a, s.travs[0].name)),
    ]
    others = [x for x in n if x.lower() not in ym]
    empty = [("difference", "{%s} - {%s}" % (a, a)), ("difference of everything", "%s - %s" % (y, full)),
             ("left grouping", "{%s} | {%s} - {%s, %s}" % (a, b, b, a))]
    if others:
        empty.append(("intersection", "%s & {%s}" % (y, r.choice(others))))
        if len(others) > 1:
            empty.append(("intersection reversed", "{%s} & %s" % (", ".join(r.sample(others, 2)), y)))
    for what, e in empty:
        out.append(("empty traversal: " + what, "traversal zzt { uid = zztu, nodes = %s };" % e))
        out.append(("empty traversal with data: " + what, "traversal zzt { uid = zztu, nodes = %s, travdata { int zzd } };" % e))
        out.append(("child without members: " + what, "node zzn { children { zzx zzc } }; nodeset zzx = %s;" % e))
        out.append(("empty traversal by reference: " + what, "nodeset zzx = %s; traversal zzt { uid = zztu, nodes = zzx };" % e))
    return out


def bad_job(args):
    b, seed = args
    s = S.gen_spec(seed, CFG)
    r = random.Random(seed + 5)
    text = S.to_dsl(s, random.Random(1))
    d = os.path.join(common.scratch(), "b%d" % seed)
    os.makedirs(d)
    out = []
    for k, (what, add) in enumerate(bad(s, r)):
        t = add + "\n" + text if r.random() < 0.5 else text.rstrip().rstrip(";") + ";\n" + add + "\n"
        f = os.path.join(d, "v%d.ccn" % k)
        open(f, "w").write(t)
        x = b.gen(f, os.path.join(d, "o"), timeout=20)
        v = "does not terminate" if x.timeout else "crash " + x.sanitizer[0] if x.sanitizer else "accepted" if x.rc == 0 else \
            "refused" if x.rc == 1 and "error" in x.err.lower() else "exit %s" % x.rc
        out.append((what, v, t, x.err[-1200:]))
    shutil.rmtree(d, ignore_errors=True)
    return seed, out


def main():
    ck = common.Check("C16", "one evaluation = one script on one generated program with nested set expressions: every traversal started on a node of every type, every "
                      "child given a node of every type, larger trees traversed and checked; or one verdict on an ill-formed expression; distinct = different expected "
                      "event sequence, or different text")
    b = common.Build()
    rtc.explore(ck, b, CFG, make, ck.n(90, 1500), ck.n(6, 20), ev=None, tweak=tweak, nontrivial=lambda st, e, n: st.get("admission granted", 0) + st.get("activations", 0) > 0)
    seeds = [common.SEED * 1000003 + 800000 + i for i in range(ck.n(60, 1500))]
    if common.REPLAY is not None:
        seeds = [common.REPLAY]
    for seed, out in common.pmap(bad_job, [(b, x) for x in seeds]):
        for what, v, t, err in out:
            ck.count(what + ": " + v)
            ck.observe(t, {"seed": seed, "variant": what, "verdict": v})
            if v != ("accepted" if what == "control" else "refused"):
                ck.violation("%s: %s" % (what, v), "specification seed %d: %s: %s\n%s" % (seed, what, v, err), {"spec.ccn": t})
    return ck.finish(50)


if __name__ == "__main__":
    common.main(main)
