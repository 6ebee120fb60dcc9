#!/usr/bin/env python3
"""C10: traversals visit exactly the target nodes, in order"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import ag, common, rtc, spec as S
from workload import WL

OPS = dict(tc=3, tk=4, to=3, td=3, ts=3, tS=1, rp=2, nc=2, fc=1, mv=2, cp=1, push=1, dn=1)


def make(r, s, k):
    if not s.travs:
        return None
    w = WL(r, s, OPS, depth=r.choice([2, 3, 5, 7]), maxnodes=r.choice([5, 20, 60, 120]), p_child=r.choice([0.5, 0.7, 0.95]), calm=r.choice([0.1, 0.4, 0.8]))
    w.head.append("FUEL %d 100" % r.choice([100, 300, 600]))
    for _ in range(r.randint(1, 3)):
        t = None if r.random() < 0.5 else r.randrange(len(s.nodes))
        reg = w.tree(t)
        w.main.append("dump %d" % reg)
        for _ in range(r.randint(1, 3)):
            w.main.append("start %d %d" % (r.randrange(len(s.travs)), reg))
        w.main.append("dump %d" % reg)
    w.main.append("start %d 1999" % r.randrange(len(s.travs)))        # an absent tree
    w.plans(passes=False, gate=False)
    return w.text()


def deep(r, s, k):
    """long chains: every node type that can reach itself through one child"""
    w = WL(r, s, OPS, depth=1, maxnodes=3)
    ok = False
    for t, n in enumerate(s.nodes):
        for i, c in enumerate(n.children):
            if t in w.admitted(c) and s.travs:
                regs = []
                for _ in range(r.choice([50, 200])):
                    me = w.newreg()
                    nc = sum(1 for x in n.children if x.ctor)
                    va = [a for a in n.attrs if a.ctor]
                    w.main.append("new %d %d %d %s %d %s" % (me, t, nc, " ".join(["0"] * nc), len(va), " ".join("%d 0" % w.value() for a in va)))
                    if regs:
                        w.main.append("setc %d %d %d" % (me, i, regs[-1]))
                    regs.append(me)
                w.main += ["start %d %d" % (r.randrange(len(s.travs)), regs[-1]), "dump %d" % regs[-1]]
                ok = True
                break
        if ok:
            break
    w.head.append("FUEL 5000 50")
    return w.text() if ok else None


def main():
    ck = common.Check("C10", "one evaluation = one script of traversal starts over random trees with handlers that visit, skip, replace, delete, move and copy children "
                      "and start other traversals; distinct = different expected call sequence with at least two visits")
    b = common.Build()
    cfg = S.Cfg(nodes=(1, 8), sets=(0, 4), travs=(1, 4), passes=(1, 1), phases=(0, 0), attrs=(0, 2), children=(0, 4), all_trav=0.2, setdepth=3)
    rtc.explore(ck, b, rtc.Mixed(cfg, 0.2), make, ck.n(90, 1500), ck.n(16, 50), lambda st, e, n: st.get("visits", 0) > 1)
    cfg = S.Cfg(nodes=(1, 3), sets=(0, 2), travs=(1, 2), passes=(1, 1), phases=(0, 0), attrs=(0, 1), children=(1, 3))
    rtc.explore(ck, b, cfg, deep, ck.n(16, 100), 2, lambda st, e, n: st.get("visits", 0) > 1, base=500000)
    rtc.explore(ck, b, rtc.AttributeGrammars(), make, ck.n(20, 300), ck.n(8, 30), lambda st, e, n: st.get("visits", 0) > 1, ev=ag.ev, base=800000)
    return ck.finish(50)


if __name__ == "__main__":
    common.main(main)
