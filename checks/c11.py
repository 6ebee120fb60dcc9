#!/usr/bin/env python3
"""C11: traversal data belongs to exactly one activation"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import common, rtc, spec as S
from workload import WL

OPS = dict(tc=3, tk=2, ts=4, tS=3, push=4, wr=7, ld=6, rp=1, cpf=1, td=1)


def make(r, s, k):
    if not any(t.data for t in s.travs):
        return None
    w = WL(r, s, OPS, depth=r.choice([1, 2, 4]), maxnodes=r.choice([3, 15, 40]), calm=0.15)
    w.head.append("FUEL %d 100" % r.choice([50, 150, 300]))
    whole = r.random() < 0.4
    reg = w.tree(None if whole else r.randrange(len(s.nodes)))
    w.main.append("mark")
    if whole:
        w.main += ["cyc 2", "run %d" % reg]
    else:
        for _ in range(r.randint(1, 4)):
            w.main += ["start %d %d" % (r.randrange(len(s.travs)), reg), "ld"]
        if not any(x in " ".join(w.ops) for x in ("rp",)):
            w.main.append("live")
    # nested activations without any node
    def nest(d):
        t = r.randrange(len(s.travs))
        w.main.append("push %d" % t)
        for _ in range(r.randint(1, 4)):
            x = r.random()
            if x < 0.5:
                w.main.append("wr %d %d 0" % (r.randrange(4), w.value()))
            elif x < 0.75 and d:
                nest(d - 1)
            w.main.append("ld")
        w.main.append("pop")
    w.main.append("mark")
    for _ in range(r.randint(1, 3)):
        nest(r.randint(0, 5))
    w.main += ["ld", "live"]
    w.plans()
    return w.text()


def main():
    ck = common.Check("C11", "one evaluation = one script of nested and repeated activations with random reads and writes of traversal data from node functions, "
                      "initialisers and finalisers; distinct = different expected event sequence with at least two activations and one data write")
    b = common.Build()
    cfg = S.Cfg(nodes=(1, 4), sets=(0, 2), travs=(1, 5), passes=(1, 2), phases=(0, 1), attrs=(0, 2), children=(0, 3), travdata=0.75)
    rtc.explore(ck, b, rtc.Mixed(cfg, 0.15), make, ck.n(90, 1500), ck.n(16, 50), lambda st, e, n: st.get("activations", 0) > 1 and st.get("datawrites", 0) > 0)
    return ck.finish(50)


if __name__ == "__main__":
    common.main(main)
