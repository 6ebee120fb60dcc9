#!/usr/bin/env python3
"""C25: progress messages report exactly what runs, and nothing depends on them"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import common, rtc, spec as S
from workload import WL

OPS = dict(ea=1, ep=1, ce=1, cw=1, cn=1, nt=4, tc=3, ts=1, id=1, rp=1)


def make(r, s, k):
    ops = dict(OPS)
    if r.random() < 0.6:
        for o in ("ea", "ep"):
            ops.pop(o)
    w = WL(r, s, ops, depth=2, maxnodes=8, calm=r.choice([0.2, 0.6]))
    w.head.append("FUEL 200 100")
    w.main.append("cyc %d" % r.choice([1, 2, 3]))
    if r.random() < 0.3:
        acts = s.actions()
        if r.random() < 0.5:
            w.main.append("bpid %d" % r.randint(1, len(acts) + 1))
        else:
            w.head.append("STR 0 %s" % ".".join(r.choice(acts)[2]))
            w.main.append("bp 0")
    reg = w.tree()
    w.main.append("verb %d" % (k % 4))
    w.main.append("run %d" % reg)
    if r.random() < 0.3:
        w.main.append("verb %d" % r.randint(0, 3))
        w.main.append("run %d" % w.tree())
    w.plans()
    for i in range(len(w.gl)):
        if r.random() < 0.6:
            w.maps = [m for m in w.maps if not m.startswith("MAP G %d " % i)]
            w.maps.append("MAP G %d %s" % (i, " ".join(str(r.choice([0, 1, 1])) for _ in range(r.randint(1, 4)))))
    return w.text()


def main():
    ck = common.Check("C25", "one evaluation = one run of a generated compiler at one of the four verbosity levels (with cycles, gates, breakpoints and requests to stop); "
                      "its progress lines and its event log are compared with the reference model; distinct = different expected event sequence with at least two actions")
    b = common.Build()
    cfg = S.Cfg(nodes=(1, 4), sets=(0, 1), travs=(0, 3), passes=(1, 4), phases=(1, 6), enums=(0, 1), attrs=(0, 2), children=(0, 2), phase_reuse=0.3)
    rtc.explore(ck, b, rtc.Mixed(cfg, 0.1), make, ck.n(60, 900), ck.n(16, 40), lambda st, e, n: st.get("actions", 0) > 1, base=2500000)
    return ck.finish(50)


if __name__ == "__main__":
    common.main(main)
