#!/usr/bin/env python3
"""C15: lifetimes are enforced exactly in the stated range of actions."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import common, model, rtc, spec as S
from workload import WL

OPS = dict(sa=4, sl=2, fc=4, nc=5, rp=1, tc=3, id=1, nt=2, ce=1, cw=1)


def once(r, s, k, ranges):
    w = WL(r, s, OPS, depth=r.choice([0, 1, 2, 3]), maxnodes=r.choice([2, 6, 15]), calm=r.choice([0.3, 0.7]), p_attr=r.choice([0.0, 0.5, 1.0]),
           p_child=r.choice([0.0, 0.3, 0.8, 1.0]))
    w.head.append("FUEL 200 60")
    w.main.append("cyc %d" % r.choice([1, 2, 3]))
    # respect, at the start, what holds before the first action
    man = {(n, i) for kd, (what, n, i), (lo, hi) in ranges if what == "child" and
           ((kd == "mandatory" and lo <= 1 < hi) or (kd == "optional" and not lo <= 1 < hi))}
    kids = {}
    for t, n in enumerate(s.nodes):
        for i, c in enumerate(n.children):
            kids[id(c)] = (t, i)
    tries = r.random() < 0.7
    try:
        reg = w.tree(mand=lambda n, c: tries and kids[id(c)] in man and w.nreg < 200)
    except ValueError:
        return None
    w.main.append("run %d" % reg)
    w.plans()
    return w.text()


def make(r, s, k):
    sim = model.Sim(s, "MAIN 1\nSCR 1\n")
    best = None
    for _ in range(8):
        t = once(r, s, k, sim.lts)
        if t is None:
            continue
        x = model.Sim(s, t)
        code, why = x.main()
        # prefer programs that get far; keep a violation at the very start now and then
        score = x.stats.get("actions", 0) + (3 if why[0] == "tree" else 0) + r.random()
        if k % 5 == 0:
            score = r.random()
        if best is None or score > best[0]:
            best = (score, t)
    return best[1] if best else None


def main():
    ck = common.Check("C15", "one evaluation = one run of a compiler with random lifetimes on nodes, children and attributes on a tree that actions edit; "
                      "distinct = different expected event sequence and exit status with at least two tree checks")
    b = common.Build()
    cfg = S.Cfg(nodes=(1, 4), sets=(0, 2), travs=(0, 3), passes=(1, 4), phases=(1, 5), enums=(0, 0), attrs=(0, 3), children=(0, 3), lifetimes=True,
                attr_types=["string", "string", "link", "int"], phase_reuse=0.3, uid=0.6)
    rtc.explore(ck, b, cfg, make, ck.n(110, 1500), ck.n(20, 60), lambda st, e, n: st.get("treechecks", 0) > 1)
    return ck.finish(50)


if __name__ == "__main__":
    common.main(main)
