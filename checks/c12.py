#!/usr/bin/env python3
"""C12: actions run in listed order; gates skip; cycles iterate on notification up to the maximum."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import common, rtc, spec as S
from workload import WL

OPS = dict(nt=6, cyc=1, tS=1, id=1, tc=1, ts=1, wr=1, ld=1, rp=1, dn=1)


def make(r, s, k):
    w = WL(r, s, OPS, depth=2, maxnodes=8, calm=0.2)
    if r.random() < 0.9:
        w.main.append("cyc %d" % r.choice([1, 2, 3, 4, 7]))
    w.head.append("FUEL %d 200" % r.choice([200, 400, 600]))
    reg = w.tree()
    w.main.append("mark")
    w.main.append("run %d" % reg)
    if r.random() < 0.3:
        # a second compilation in the same process starts from a clean slate
        w.main.append("cyc %d" % r.choice([1, 2, 5]))
        w.main.append("run %d" % w.tree())
    w.plans()
    for i in range(len(w.gl)):
        if r.random() < 0.5:
            w.maps = [m for m in w.maps if not m.startswith("MAP G %d " % i)]
            w.maps.append("MAP G %d %s" % (i, " ".join(str(r.choice([0, 1, 1, 1, 3, 2])) for _ in range(r.randint(1, 5)))))
    return w.text()


def long_cycle(r, s, k):
    """the default maximum of iterations: a pass that always notifies"""
    w = WL(r, s, OPS, depth=1, maxnodes=3)
    w.head.append("FUEL 100000 10")
    reg = w.tree()
    w.main.append("run %d" % reg)
    x = w.newscr(["nt"])
    for i in range(len(s.passes)):
        w.maps.append("MAP P %d %d" % (i, x))
    return w.text()


def main():
    ck = common.Check("C12", "one evaluation = one run of one generated compiler under a random workload script (handlers, passes and gates "
                      "notify, skip, start traversals); distinct = different expected event sequence with at least one cycle iteration, "
                      "gate decision or nested phase")
    b = common.Build()
    cfg = S.Cfg(nodes=(1, 4), sets=(0, 1), travs=(0, 3), passes=(1, 4), phases=(1, 6), enums=(0, 1), attrs=(0, 2), children=(0, 2),
                phase_reuse=0.3)
    rtc.explore(ck, b, rtc.Mixed(cfg, 0.1), make, ck.n(60, 900), ck.n(12, 40), lambda st, e, n: st.get("iterations", 0) + st.get("gates", 0) + st.get("actions", 0) > 2)
    cfg2 = S.Cfg(nodes=(1, 2), sets=(0, 0), travs=(0, 1), passes=(1, 2), phases=(1, 1), enums=(0, 0), attrs=(0, 1), children=(0, 1), gates=False)
    rtc.explore(ck, b, cfg2, long_cycle, ck.n(8, 40), 1, None, base=500000)
    return ck.finish(50)


if __name__ == "__main__":
    common.main(main)
