#!/usr/bin/env python3
"""C14: action numbers, breakpoints and the printed phase tree agree"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import common, rtc, spec as S
from workload import WL

OPS = dict(id=5, nt=2, rp=1, tc=2, sa=1)


def case(r, x):
    return r.choice([str, str.lower, str.upper, lambda y: "".join(c.upper() if r.random() < .5 else c.lower() for c in y)])(x)


def make(r, s, k):
    w = WL(r, s, OPS, depth=2, maxnodes=8, calm=0.4)
    w.head.append("FUEL 300 100")
    acts = s.actions()
    if r.random() < 0.5:
        w.main.append("show")
    mode = r.choice(["id", "path", "none", "badid"])
    if k < len(acts):
        mode = r.choice(["id", "path"])
        a = acts[k]
    else:
        a = r.choice(acts)
    if mode == "id":
        w.main.append("bpid %d" % a[0])
    elif mode == "path":
        path = case(r, ".".join(a[2]))
        # a path that names several actions stops at the first one that is executed: the model does the same
        w.head.append("STR 0 %s" % path)
        w.main.append("bp 0")
    elif mode == "badid":
        if r.random() < 0.5:
            w.main.append("bpid %d" % (acts[-1][0] + r.randint(1, 50)))
        else:
            p = r.choice(acts)[2]
            bad = ".".join(p) + r.choice(["x", ".q", "."])
            w.head.append("STR 0 %s" % bad)
            w.main.append("bp 0")
    w.main.append("cyc %d" % r.choice([1, 2, 3]))
    w.main.append("run %d" % w.tree())
    w.main.append("show")
    w.plans()
    return w.text()


def main():
    ck = common.Check("C14", "one evaluation = one run with a breakpoint on one action (every action of each specification in turn, by number or by path in random letter case, "
                      "then absent and misspelt ones); distinct = different expected event sequence with at least three actions")
    b = common.Build()
    cfg = S.Cfg(nodes=(1, 4), sets=(0, 1), travs=(0, 3), passes=(1, 4), phases=(0, 6), enums=(0, 1), attrs=(0, 2), children=(0, 2))
    rtc.explore(ck, b, rtc.Mixed(cfg, 0.1), make, ck.n(80, 1200), ck.n(20, 50), lambda st, e, n: st.get("actions", 0) > 2)
    return ck.finish(50)


if __name__ == "__main__":
    common.main(main)
