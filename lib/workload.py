"""Random workload scripts for a specification."""
from cgen import gates, kind
from spec import Phase

EXTREME = [0, 1, -1, 2, 7, 127, 128, 255, 256, -128, -129, 32767, 32768, 65535, 65536, -32768, 2147483647, 2147483648, -2147483648,
           4294967295, 4294967296, 9223372036854775807, -9223372036854775808, -9223372036854775807, 0x0123456789abcdef, 0x00ff00ff00ff00ff]


class WL:
    def __init__(self, rng, s, ops=None, depth=4, p_child=0.7, maxnodes=40, p_attr=0.7, calm=0.25):
        self.rng, self.s = rng, s
        self.main, self.scrs, self.maps, self.head = [], {0: ["tc"], 1: []}, [], []
        self.nreg = 0
        self.nodes = []          # (reg, type) of everything built
        self.depth, self.p_child, self.maxnodes, self.p_attr, self.calm = depth, p_child, maxnodes, p_attr, calm
        self.idx = {n.name.lower(): i for i, n in enumerate(s.nodes)}
        self.ops = ops or {}
        self.adm = {}
        self.heights = None
        self.gl = gates(s)

    def admitted(self, c):
        k = c.type.lower()
        if k not in self.adm:
            self.adm[k] = sorted(self.idx[x] for x in self.s.members(c.type))
        return self.adm[k]

    def value(self):
        r = self.rng
        x = r.random()
        if x < 0.15:
            return 0
        if x < 0.6:
            return r.randint(1, 1000)
        if x < 0.85:
            return r.choice(EXTREME)
        return r.getrandbits(64) - (1 << 63)

    def newreg(self):
        self.nreg += 1
        return self.nreg

    # ---- trees
    def tree(self, t=None, depth=None, mand=lambda n, c: False, full=False, badtype=None):
        """emit construction of a tree whose root has type t; returns its register"""
        r = self.rng
        s = self.s
        depth = self.depth if depth is None else depth
        t = self.idx[s.root.name.lower()] if t is None else t
        d = s.nodes[t]
        kids = []
        for c in d.children:
            reg = 0
            m = mand(d, c)
            if m or (depth > 0 and self.nreg < self.maxnodes and (full or r.random() < self.p_child)):
                ch = self.admitted(c)
                if m and depth <= 0:
                    if self.heights is None:
                        import ag
                        self.heights = ag.heights(s)
                    hs = [self.heights.get(s.nodes[x].name.lower(), 1 << 30) for x in ch]
                    if min(hs) == 1 << 30 or depth < -40:
                        raise ValueError("mandatory children never end")
                    ch = [x for x, y in zip(ch, hs) if y == min(hs)]
                reg = self.tree(r.choice(ch), depth - 1, mand, full)
            kids.append(reg)
        me = self.newreg()
        cargs = [str(k) for c, k in zip(d.children, kids) if c.ctor]
        vargs = []
        for a in d.attrs:
            if a.ctor:
                vargs.append("%d %d" % (self.value(), self.link(a, me)))
        self.main.append("new %d %d %d %s %d %s" % (me, t, len(cargs), " ".join(cargs), len(vargs), " ".join(vargs)))
        for i, (c, k) in enumerate(zip(d.children, kids)):
            if not c.ctor and k:
                self.main.append("setc %d %d %d" % (me, i, k))
        for i, a in enumerate(d.attrs):
            if r.random() < (self.p_attr if not a.ctor else 0.1):
                if a.type == "link":
                    self.main.append("setl %d %d %d" % (me, i, self.link(a, me)))
                else:
                    self.main.append("seta %d %d %d" % (me, i, self.value()))
        if r.random() < 0.15:
            self.main.append("loc %d %d %d %d %d %d" % (me, r.randrange(5000), r.randrange(200), r.choice([0, 4294967295, 77]), r.randrange(200), self.value()))
        self.nodes.append((me, t))
        return me

    def link(self, a, me):
        ms = {self.idx[x] for x in self.s.members(a.ref)} if a.type == "link" else set()
        c = [reg for reg, t in self.nodes if t in ms]
        return self.rng.choice(c) if c and self.rng.random() < 0.7 else 0

    # ---- scripts of handlers and passes
    def repl(self, t):
        """types every place that admits t admits too"""
        s = self.s
        out = set(range(len(s.nodes)))
        for n in s.nodes:
            for c in n.children:
                a = self.admitted(c)
                if t in a:
                    out &= set(a)
        if s.nodes[t].root:
            return [t]
        return sorted(out | {t})

    def script(self, t=None, trav=True, allow=None):
        """a script for a node of type t (None: unknown, passes get the root type)"""
        r = self.rng
        w = dict(self.ops)
        if allow is not None:
            w = {k: v for k, v in w.items() if k in allow}
        if not trav:
            for k in ("tc", "tk", "to", "td"):
                w.pop(k, None)
        names = sorted(k for k in w if w[k] > 0)
        out = []
        if not names:
            return ["tc"] if trav else []
        for _ in range(r.choice([1, 1, 2, 2, 3, 4])):
            k = r.choices(names, [w[x] for x in names])[0]
            out += self.op(k, t, trav)
        if trav and r.random() < 0.7 and "tc" not in out:
            out.insert(r.randint(0, len(out)), "tc")
        return out

    def op(self, k, t, trav):
        r, s = self.rng, self.s
        d = s.nodes[t] if t is not None else None
        ntr = len(s.travs)
        if k in ("tc", "ld", "id", "dn", "cpf", "nt", "ea", "ep"):
            return [k]
        if k in ("tk", "to", "td", "fc"):
            if not d or not d.children:
                return []
            i = r.randrange(len(d.children))
            if k == "fc" and d.children[i].mandatory:
                return []
            return ["%s %d" % (k, i)]
        if k == "ts":
            return ["ts %d %d" % (r.randrange(ntr), r.randrange(8))] if ntr else []
        if k == "tS":
            return ["tS %d" % r.randrange(ntr)] if ntr else []
        if k == "push":
            if not ntr:
                return []
            body = []
            for _ in range(r.randint(0, 2)):
                x = r.choice(["tc", "ld", "wr"])
                body += self.op(x, t, True)
            return ["push %d" % r.randrange(ntr)] + body + ["pop"]
        if k == "wr":
            return ["wr %d %d %d" % (r.randrange(4), self.value(), r.randrange(2))]
        if k == "sa":
            return ["sa %d %d" % (r.randrange(6), self.value())]
        if k == "sl":
            return ["sl %d %d" % (r.randrange(6), r.randrange(2))]
        if k == "nc":
            if not d or not d.children:
                return []
            i = r.randrange(len(d.children))
            return ["nc %d %d %d %d" % (t, i, r.choice(self.admitted(d.children[i])), self.value() & 0xffff)]
        if k == "bad":
            # a child of a type its declaration does not admit
            if not d or not d.children:
                return []
            i = r.randrange(len(d.children))
            bad = sorted(set(range(len(s.nodes))) - set(self.admitted(d.children[i])))
            return ["fc %d" % i, "nc %d %d %d 0" % (t, i, r.choice(bad))] if bad else []
        if k == "rp":
            return ["rp %d %d %d" % (t, r.choice(self.repl(t)), self.value() & 0xffff)] if d else []
        if k in ("cp", "mv"):
            if not d or not d.children:
                return []
            ps = [(i, j) for i, a in enumerate(d.children) for j, b in enumerate(d.children)
                  if i != j and (set(self.admitted(a)) <= set(self.admitted(b)) if k == "cp" else self.admitted(a) == self.admitted(b))]
            if not ps:
                return []
            i, j = r.choice(ps)
            return ["%s %d %d %d" % (k, t, i, j)]
        if k in ("ce", "cw", "cn", "cs"):
            return ["%s %d" % (k, r.randrange(1000))]
        if k == "cyc":
            return ["cyc %d" % r.choice([1, 2, 3, 5])]
        if k == "chk":
            return ["chk %d" % r.randrange(2)]
        raise AssertionError(k)

    def newscr(self, body):
        k = len(self.scrs)
        self.scrs[k] = body
        return k

    def plans(self, handlers=True, passes=True, gate=True, data=True, allow_pass=None):
        r, s = self.rng, self.s
        if handlers:
            for i, t in enumerate(s.travs):
                for x in sorted(s.targets(t)):
                    if r.random() < self.calm:
                        continue
                    ks = [self.newscr(self.script(self.idx[x])) for _ in range(r.randint(1, 3))]
                    if r.random() < 0.4:
                        ks.append(0)
                    self.maps.append("MAP H %d %d %s" % (i, self.idx[x], " ".join(map(str, ks))))
        if passes:
            rt = self.idx[s.root.name.lower()]
            for i, p in enumerate(s.passes):
                if r.random() < self.calm:
                    continue
                ks = [self.newscr(self.script(rt, False, allow_pass)) for _ in range(r.randint(1, 3))]
                if r.random() < 0.6:
                    ks.append(1)
                self.maps.append("MAP P %d %s" % (i, " ".join(map(str, ks))))
        if gate:
            for i in range(len(self.gl)):
                if r.random() < 0.7:
                    self.maps.append("MAP G %d %s" % (i, " ".join(str(r.choice([0, 1, 1, 1])) for _ in range(r.randint(1, 4)))))
        if data:
            for i, t in enumerate(s.travs):
                if t.data:
                    for k in "IF":
                        if r.random() < 0.4:
                            body = []
                            for _ in range(r.randint(1, 2)):
                                body += self.op("wr", None, True)[0:1]
                            body = [b.rsplit(" ", 1)[0] + " 0" for b in body] + ["ld"]
                            self.maps.append("MAP %s %d %d" % (k, i, self.newscr(body)))

    def text(self):
        o = list(self.head)
        mk = len(self.scrs)
        for k in sorted(self.scrs):
            o.append("SCR %d" % k)
            o += self.scrs[k]
        o.append("SCR %d" % mk)
        o += self.main
        o += self.maps
        o.append("MAIN %d" % mk)
        return "\n".join(o) + "\n"
