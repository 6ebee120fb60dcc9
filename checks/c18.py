#!/usr/bin/env python3
"""C18: every attribute is evaluated exactly once, after its dependencies"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import ag, common, rtc
from workload import WL


def mand(n, c):
    return c.mandatory


def make(r, s, k):
    w = WL(r, s, {}, depth=r.choice([0, 1, 2, 3, 5]), maxnodes=r.choice([1, 5, 15, 40, 80]), p_child=r.choice([0.3, 0.6, 0.9, 1.0]))
    ok = [i for i, n in enumerate(s.nodes) if ag.evaluable(s, n.name)]
    root = w.idx[s.root.name.lower()]
    for _ in range(r.choice([1, 1, 2, 3])):
        t = root
        if t not in ok or r.random() < 0.3:
            t = r.choice(ok) if ok else root
        if r.random() < 0.05:
            t = r.randrange(len(s.nodes))       # may be refused
        reg = w.tree(t, mand=mand)
        w.main += ["eval %d" % reg, "ead %d" % reg]
        if r.random() < 0.3:
            w.main.append("dump %d" % reg)
        if r.random() < 0.3:        # again, with other values
            for i, a in enumerate(s.nodes[t].attrs):
                if a.kind == "classic" and a.type != "link" and r.random() < 0.6:
                    w.main.append("seta %d %d %d" % (reg, i, r.randrange(1, 1000)))
            w.main += ["eval %d" % reg, "ead %d" % reg]
        if r.random() < 0.3:
            # attributes of a copy have to be evaluated anew
            cp = 900 + len(w.main)
            w.main += ["copy %d %d" % (cp, reg), "eval %d" % cp, "ead %d" % cp]
            if r.random() < 0.5:
                w.main += ["free %d" % r.choice([cp, reg])]
    return w.text()


class G:
    def __init__(self, may_refuse=False, **kw):
        self.cfg = ag.AgCfg(**kw)
        self.may_refuse = may_refuse

    def __call__(self, seed):
        return ag.gen(seed, self.cfg)


def main():
    ck = common.Check("C18", "one evaluation = one run of a program generated from an attribute grammar; all calls of equations, their arguments and all resulting values are compared with an on-demand evaluator; distinct = different expected event sequence with more than one equation")
    b = common.Build()
    nt = lambda st, e, n: st.get("equations", 0) > 1
    rtc.explore(ck, b, G(mode="L"), make, ck.n(60, 900), ck.n(10, 30), nt, ev=ag.ev)
    # any dependencies: several visits per node
    rtc.explore(ck, b, G(True, mode="R", deps=(0, 2), nodes=(1, 6), overlap=0.0), make, ck.n(80, 1200), ck.n(10, 30), nt, ev=ag.ev, base=300000)
    for k, kw in enumerate([dict(stages=2), dict(stages=3, force=True), dict(stages=4, deps=(0, 2), overlap=0.0)]):
        rtc.explore(ck, b, G(True, mode="M", inh=(1, 4), syn=(1, 4), **kw), make, ck.n(40, 600), ck.n(10, 30), nt, ev=ag.ev, base=400000 + 50000 * k)
    return ck.finish(50)


if __name__ == "__main__":
    common.main(main)
