#!/usr/bin/env python3
"""C08: copies are equal and fully independent"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import ag, common, rtc, spec as S
from workload import WL

OPS = dict(cpf=4, cp=2, tc=2, tk=1, sa=2, sl=1, ld=2, wr=2, fc=1, ts=1, dn=1)


def mutate(w, r, nodes):
    for _ in range(r.randint(1, 12)):
        reg, t = r.choice(nodes)
        n = w.s.nodes[t]
        if n.attrs:
            i = r.randrange(len(n.attrs))
            if n.attrs[i].kind != "classic":
                pass
            elif n.attrs[i].type == "link":
                w.main.append("setl %d %d 0" % (reg, i))
            else:
                w.main.append("seta %d %d %d" % (reg, i, w.value()))
        if r.random() < 0.3:
            w.main.append("loc %d 1 2 3 4 %d" % (reg, w.value()))


def make(r, s, k):
    w = WL(r, s, OPS, depth=r.choice([0, 1, 3, 4, 6]), maxnodes=r.choice([1, 10, 40, 120]), p_attr=r.choice([0.2, 0.7, 1.0]), p_child=r.choice([0.5, 0.9]))
    t = r.randrange(len(s.nodes)) if r.random() < 0.5 else None
    w.main.append("copy 1900 1901")          # nothing yields nothing
    reg = w.tree(t)
    own = list(w.nodes)
    w.main += ["dump %d" % reg, "rec 0 %d" % reg, "mark"]
    w.main += ["copy 2000 %d" % reg, "rec 1 2000", "dis 0 1", "dump %d" % reg]
    if r.random() < 0.5:
        # a copy of a sub-tree, taken before anything else happens
        sub, _ = r.choice(own)
        w.main += ["copy 2001 %d" % sub, "rec 2 2001", "dis 0 2", "dis 1 2", "dump 2001", "free 2001", "psn 2", "dump 2000"]
    mode = r.choice(["free copy", "free original", "change original", "copy of copy"])
    if mode == "free copy":
        w.main += ["free 2000", "live", "psn 1", "psn 0", "dump %d" % reg]
    elif mode == "free original":
        # references of the copy point into the original: only follow them while it exists
        if any(a.type == "link" for n in s.nodes for a in n.attrs):
            mode = "change original"
        else:
            w.main += ["free %d" % reg, "psn 0", "psn 1", "dump 2000"]
    if mode == "change original":
        mutate(w, r, own)
        w.main += ["dump 2000", "dump %d" % reg]
        if r.random() < 0.5:
            w.main += ["rec 1 2000", "free 2000", "psn 1", "dump %d" % reg]
    if mode == "copy of copy":
        w.main += ["copy 2002 2000", "rec 3 2002", "dis 1 3", "dis 0 3", "free 2000", "dump 2002", "dump %d" % reg]
    if mode != "free original" and s.travs and r.random() < 0.7:
        for _ in range(r.randint(1, 3)):
            w.main.append("start %d %d" % (r.randrange(len(s.travs)), reg))
        w.main.append("dump %d" % reg)
        w.plans(passes=False, gate=False)
    return w.text()


def main():
    ck = common.Check("C08", "one evaluation = one script that copies trees (whole, sub-trees, inside traversals), compares addresses, then changes or frees "
                      "one side and reads the other; distinct = different expected event sequence with at least two copied nodes")
    b = common.Build()
    cfg = S.Cfg(nodes=(1, 6), sets=(0, 3), travs=(0, 3), passes=(1, 1), phases=(0, 0), attrs=(0, 6), children=(0, 4))
    rtc.explore(ck, b, rtc.Mixed(cfg, 0.2), make, ck.n(80, 1200), ck.n(14, 40), lambda st, e, n: st.get("copied", 0) > 1)
    nolink = S.Cfg(nodes=(1, 4), sets=(0, 2), travs=(0, 2), passes=(1, 1), phases=(0, 0), attrs=(1, 5), children=(0, 4), links=False)
    rtc.explore(ck, b, nolink, make, ck.n(25, 400), ck.n(14, 40), lambda st, e, n: st.get("copied", 0) > 1, base=500000)
    rtc.explore(ck, b, rtc.AttributeGrammars(), make, ck.n(20, 300), ck.n(8, 30), lambda st, e, n: st.get("copied", 0) > 1, ev=ag.ev, base=800000)
    return ck.finish(50)


if __name__ == "__main__":
    common.main(main)
