#!/usr/bin/env python3
"""C22: ill-typed trees are reported before the next action, well-typed ones never"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import common, model, rtc, spec as S
from workload import WL

OPS = dict(bad=3, nc=2, fc=2, rp=1, cp=2, mv=1, ld=1, dn=1)
GOOD = dict(nc=3, fc=2, rp=2, cp=2, mv=2, tc=3, ld=2, wr=2, ts=1, dn=1)


def bad_child(w, r, s):
    """put a node of an unadmitted type below a random constructed node"""
    c = []
    for reg, t in w.nodes:
        n = s.nodes[t]
        for i, ch in enumerate(n.children):
            x = sorted(set(range(len(s.nodes))) - set(w.admitted(ch)))
            if x:
                c.append((reg, i, x))
    if not c:
        return False
    reg, i, x = r.choice(c)
    me = w.tree(r.choice(x), 0)
    w.main.append("setc %d %d %d" % (reg, i, me))
    return True


def make(r, s, k):
    mode = r.choice(["good", "good", "bad start", "bad later", "bad later", "off", "big"])
    ops = dict(GOOD if mode in ("good", "big") else OPS)
    if r.random() < 0.3:
        # errors and requests to stop next to the errors of the check itself
        ops.update(r.choice([dict(ce=1), dict(ce=1, cw=1), dict(ce=1, ep=1), dict(ea=1, ep=1)]))
    w = WL(r, s, ops, depth=r.choice([1, 3, 5]) if mode != "big" else 9,
           maxnodes=r.choice([3, 20, 60]) if mode != "big" else 200, calm=r.choice([0.2, 0.6]), p_child=r.choice([0.3, 0.8]))
    w.head.append("FUEL 200 100")
    w.main.append("cyc 2")
    reg = w.tree(full=(r.random() < 0.2))
    if mode == "bad start":
        bad_child(w, r, s)
    if mode == "off":
        # without the check only passes may run: a traversal has no business with ill-typed children
        if any(s.trav(a) for p in s.phases for a in p.actions):
            mode = "bad start"
        else:
            w.main.append("chk 0")
        bad_child(w, r, s)
    w.main += ["dump %d" % reg, "run %d" % reg]
    w.plans(handlers=(mode in ("good", "big")))
    return w.text()


def with_lifetimes(r, s, k):
    """types and lifetimes checked by the same code: keep those scripts that get past the first check"""
    best = None
    for _ in range(6):
        w = WL(r, s, dict(sa=4, sl=1, fc=2, nc=4, id=1, bad=2), depth=r.choice([1, 2, 3]), maxnodes=r.choice([3, 8, 15]), calm=r.choice([0.3, 0.7]),
               p_attr=r.choice([0.0, 1.0]), p_child=r.choice([0.0, 0.8, 1.0]))
        w.head.append("FUEL 200 60")
        w.main.append("cyc 1")
        try:
            reg = w.tree()
        except ValueError:
            continue
        if r.random() < 0.3:
            bad_child(w, r, s)
        w.main.append("run %d" % reg)
        w.plans()
        t = w.text()
        x = model.Sim(s, t)
        code, why = x.main()
        score = x.stats.get("actions", 0) + (4 if why[0] == "tree" else 0) + r.random()
        if best is None or score > best[0]:
            best = (score, t)
    return best[1] if best else None


def main():
    ck = common.Check("C22", "one evaluation = one run on a well-typed tree, or on one into which some action or the start put a child of an unadmitted type; distinct = "
                      "different expected event sequence and exit status with at least one tree check")
    b = common.Build()
    cfg = S.Cfg(nodes=(2, 6), sets=(0, 3), travs=(0, 3), passes=(1, 4), phases=(0, 3), enums=(0, 1), attrs=(0, 2), children=(0, 4))
    nt = lambda st, e, n: st.get("treechecks", 0) > 0 or st.get("actions", 0) > 0
    rtc.explore(ck, b, cfg, make, ck.n(80, 1200), ck.n(18, 60), nt)
    cfg = S.Cfg(nodes=(2, 5), sets=(0, 2), travs=(0, 0), passes=(1, 4), phases=(0, 2), enums=(0, 0), attrs=(0, 2), children=(1, 4))
    rtc.explore(ck, b, cfg, make, ck.n(25, 300), ck.n(18, 60), nt, base=500000)
    cfg = S.Cfg(nodes=(2, 4), sets=(0, 2), travs=(0, 2), passes=(1, 4), phases=(0, 3), enums=(0, 0), attrs=(0, 2), children=(1, 3), lifetimes=True,
                attr_types=["string", "link", "int"], uid=0.3)
    rtc.explore(ck, b, cfg, with_lifetimes, ck.n(40, 400), ck.n(16, 50), nt, base=700000)
    return ck.finish(50)


if __name__ == "__main__":
    common.main(main)
