#!/usr/bin/env python3
"""C09: freeing releases exactly what the tree owns"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import ag, common, rtc, spec as S
from workload import WL

OPS = dict(fc=4, rp=3, cp=2, nc=3, cpf=1, tc=2, tk=1, sa=2, ts=1, mv=1, ce=1, cw=1)


def make(r, s, k):
    w = WL(r, s, OPS, depth=r.choice([0, 1, 3, 5]), maxnodes=r.choice([1, 10, 40, 120]), p_attr=r.choice([0.0, 0.7, 1.0]), p_child=r.choice([0.5, 0.9]))
    keep = w.tree(r.randrange(len(s.nodes)))      # another tree, possibly referenced
    # the first message allocates the buffer all later ones reuse
    w.main += ["rec 5 %d" % keep, "dump %d" % keep, "free 1999", "cw 1", "mark"]
    t = r.randrange(len(s.nodes)) if r.random() < 0.5 else None
    mode = r.choice(["whole", "whole", "parts", "run", "trav"])
    first = len(w.nodes)
    if mode in ("run", "trav"):
        t = None
    reg = w.tree(t)
    if mode == "parts":
        # detach a child of the top node, free the two separately
        n = s.nodes[w.nodes[-1][1]]
        own = w.nodes[first:]
        w.main += ["rec 0 %d" % reg]
        if n.children:
            i = r.randrange(len(n.children))
            w.main += ["setc %d %d 0" % (reg, i), "rec 1 %d" % reg, "free %d" % reg, "psn 1"]
        else:
            w.main += ["free %d" % reg, "psn 0", "live"]
    elif mode == "whole":
        if r.random() < 0.5:
            for _ in range(5):
                x, tt = r.choice(w.nodes[first:])
                a = s.nodes[tt].attrs
                if a:
                    i = r.randrange(len(a))
                    if a[i].type != "link" and a[i].kind == "classic":
                        w.main.append("seta %d %d %d" % (x, i, w.value()))
        w.main += ["rec 0 %d" % reg, "free %d" % reg, "psn 0", "live"]
    elif mode == "trav" and s.travs:
        w.plans(passes=False, gate=False)
        for _ in range(r.randint(1, 3)):
            w.main.append("start %d %d" % (r.randrange(len(s.travs)), reg))
        w.main += ["rec 0 %d" % reg, "dump %d" % reg, "free %d" % reg, "psn 0", "live"]
    else:
        w.plans()
        w.main += ["cyc %d" % r.choice([1, 2, 3]), "rec 0 %d" % reg, "run %d" % reg, "psn 0", "live"]
    w.main += ["psn 5", "dump %d" % keep]
    return w.text()


def main():
    ck = common.Check("C09", "one evaluation = one script that builds trees, edits them (also from traversals) and frees them whole, in parts or by a complete run, "
                      "with the allocator's live count and the state of every recorded block compared with the model; distinct = different expected event sequence with a freed node")
    b = common.Build()
    cfg = S.Cfg(nodes=(1, 6), sets=(0, 3), travs=(0, 3), passes=(1, 2), phases=(0, 2), attrs=(0, 6), children=(0, 4))
    rtc.explore(ck, b, rtc.Mixed(cfg, 0.15), make, ck.n(90, 1500), ck.n(14, 40), lambda st, e, n: st.get("freed", 0) > 0)
    rtc.explore(ck, b, rtc.AttributeGrammars(), make, ck.n(20, 300), ck.n(8, 30), lambda st, e, n: st.get("freed", 0) > 0, ev=ag.ev, base=800000)
    return ck.finish(50)


if __name__ == "__main__":
    common.main(main)
