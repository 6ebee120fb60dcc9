#!/usr/bin/env python3
"""C07: constructed nodes hold exactly what they were given"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import ag, common, rtc, spec as S
from workload import WL

def make(r, s, k):
    w = WL(r, s, {}, depth=r.choice([0, 1, 2, 3]), maxnodes=r.choice([1, 5, 20, 60]), p_attr=r.choice([0.0, 0.3, 1.0]))
    regs = []
    for t in range(len(s.nodes)) if k == 0 else [r.randrange(len(s.nodes)) for _ in range(4)]:
        reg = w.tree(t, full=(k % 3 == 0))
        w.main.append("dump %d" % reg)
        regs.append(reg)
    for _ in range(r.randint(5, 40)):
        reg, t = r.choice(w.nodes)
        n = s.nodes[t]
        if n.attrs:
            i = r.randrange(len(n.attrs))
            if n.attrs[i].kind != "classic":
                pass
            elif n.attrs[i].type == "link":
                w.main.append("setl %d %d %d" % (reg, i, w.link(n.attrs[i], reg)))
            else:
                w.main.append("seta %d %d %d" % (reg, i, w.value()))
        if r.random() < 0.2:
            w.main.append("loc %d %d %d %d %d %d" % (reg, r.randrange(1 << 32), r.randrange(200), r.choice([0, 4294967295, 77]), r.randrange(200), w.value()))
        if n.children and r.random() < 0.3:
            # detach and attach something fresh
            i = r.randrange(len(n.children))
            w.main.append("setc %d %d 0" % (reg, i))
            if r.random() < 0.5:
                w.main.append("setc %d %d %d" % (reg, i, w.tree(r.choice(w.admitted(n.children[i])), 0)))
        if r.random() < 0.5:
            w.main.append("dump %d" % reg)
        else:
            w.main.append("dump %d" % r.choice(w.nodes)[0])
    for reg in regs:
        w.main.append("dump %d" % reg)
    return w.text()


def main():
    ck = common.Check("C07", "one evaluation = one script of constructor calls and field writes on one generated program, with every node read back "
                      "in full through the access macros; distinct = different expected sequence of values with at least one constructed node")
    b = common.Build()
    cfg = S.Cfg(nodes=(1, 6), sets=(0, 3), travs=(0, 1), passes=(1, 1), phases=(0, 0), enums=(1, 3), attrs=(0, 9), children=(0, 5), type_is_name=0.2)
    rtc.explore(ck, b, rtc.Mixed(cfg, 0.2), make, ck.n(90, 1500), ck.n(10, 30), lambda st, e, n: st.get("constructed", 0) > 0)
    rtc.explore(ck, b, rtc.AttributeGrammars(), make, ck.n(20, 300), ck.n(8, 30), lambda st, e, n: st.get("constructed", 0) > 0, ev=ag.ev, base=800000)
    return ck.finish(50)


if __name__ == "__main__":
    common.main(main)
