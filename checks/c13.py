#!/usr/bin/env python3
"""C13: an error request ends the compilation at the documented point"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import common, rtc, spec as S
from workload import WL

OPS = dict(ea=1, ep=2, ce=3, cw=1, cn=1, cs=1, nt=2, tc=3, ts=1, tS=1, id=1)


def make(r, s, k):
    ops = dict(OPS)
    x = r.random()
    if x < 0.3:
        ops.pop("ea")
    elif x < 0.5:
        ops.pop("ep")
    elif x < 0.65:
        ops.pop("ep")
        ops.pop("ea")
    if r.random() < 0.15:
        ops["bad"] = 1      # an ill-typed child: the check before the next action reports the error
    w = WL(r, s, ops, depth=2, maxnodes=8, calm=r.choice([0.2, 0.6, 0.85]))
    w.head.append("FUEL 150 100")
    if r.random() < 0.2:
        w.main.append("ce 7")
    w.main.append("cyc %d" % r.choice([1, 2, 3]))
    w.main += ["run %d" % w.tree(), "gl"]
    if r.random() < 0.3:
        w.main += ["abe"]
    if r.random() < 0.15:
        w.main += ["abc"]
    w.plans()
    # an error request is documented to come with a reported error: pair them
    for k2, body in w.scrs.items():
        out = []
        for o in body:
            if o in ("ea", "ep") and r.random() < 0.8:
                out.append("ce %d" % r.randrange(100))
            out.append(o)
        w.scrs[k2] = out
    return w.text()


def main():
    ck = common.Check("C13", "one evaluation = one run in which handlers and passes report errors and request the end of the compilation at random points; distinct = "
                      "different expected event sequence and exit status with at least two actions run")
    b = common.Build()
    cfg = S.Cfg(nodes=(1, 4), sets=(0, 1), travs=(0, 3), passes=(1, 4), phases=(1, 6), enums=(0, 1), attrs=(0, 1), children=(0, 2), phase_reuse=0.2)
    rtc.explore(ck, b, rtc.Mixed(cfg, 0.1), make, ck.n(80, 1200), ck.n(20, 60), lambda st, e, n: st.get("actions", 0) > 1)
    return ck.finish(50)


if __name__ == "__main__":
    common.main(main)
