"""Reference model: executes a workload script on a specification and predicts the log, exit status and printed
phase tree of the generated program. Written from the documentation, not from the generated code."""
import struct, sys
sys.setrecursionlimit(20000)
from spec import INT_TYPES, Phase, Pass, Trav, resolve
import cgen
from cgen import gates, kind, utype

POOL = [b"", b"a", b"two words", b"x\ty\n", b"\xc3\xa9\xe2\x82\xac", b"%s%d%n", b"'quoted'",
        b"a rather long string that does not fit in any small buffer, repeated: a rather long string that does not fit in any small buffer",
        b"nul", b"0"]
FPOOL = [0.0, 1.0, -1.0, 0.5, -2.25, 1024.125, -0.0, 1e30, 3.0e-30]
M64 = (1 << 64) - 1


class Exit(Exception):
    def __init__(self, code, why=""):
        self.code, self.why = code, why


def s64(v):
    v &= M64
    return v - (1 << 64) if v >> 63 else v


def cmod(a, b):
    """C remainder"""
    r = abs(a) % b
    return -r if a < 0 else r


def esc(b):
    if b is None:
        return "~"
    return "'" + "".join("%%%02x" % c if c <= 32 or c >= 127 or c in (39, 37) else chr(c) for c in b) + "'"


def mkf(v):
    return struct.unpack("f", struct.pack("f", FPOOL[(v & M64) % len(FPOOL)]))[0]


def mkd(v):
    return 1.0 / float(v | 1) if cmod(v, 5) == 4 else FPOOL[(v & M64) % len(FPOOL)]


def flog(f):
    return "%08x" % struct.unpack("I", struct.pack("f", f))[0]


def dlog(d):
    return "%016x" % struct.unpack("Q", struct.pack("d", d))[0]


def conv(s, a, v, link, owned=True):
    """the value attribute a holds after it was given v"""
    k = kind(a, True)
    if k in ("K_INT", "K_UINT"):
        bits, signed = INT_TYPES[a.type]
        v &= (1 << bits) - 1
        if signed and v >> (bits - 1):
            v -= 1 << bits
        return v
    if k == "K_FLOAT":
        return mkf(v)
    if k == "K_DOUBLE":
        return mkd(v)
    if k == "K_BOOL":
        return v & 1
    if k == "K_STRING":
        if not owned:
            return None if v == 0 else [b"c0", b"c1", b"c2"][(v & M64) % 3]
        return None if v == 0 else POOL[(v & M64) % len(POOL)]
    if k == "K_ENUM":
        return (v & M64) % (len(s.enum(a.ref).values) + 1)
    if k == "K_LINK":
        return link
    t = utype(s, a)
    if t == "double":
        return mkd(v)
    if t == "const char *":
        return None if v == 0 else [b"c0", b"c1", b"c2"][(v & M64) % 3]
    if t == "unsigned char":
        return v & 255
    return s64(v)


def zero(s, a):
    k = kind(a, True)
    if k in ("K_FLOAT", "K_DOUBLE"):
        return 0.0
    if k in ("K_STRING", "K_LINK"):
        return None
    if k == "K_USER":
        t = utype(s, a)
        return 0.0 if t == "double" else None if t == "const char *" else 0
    return 0


def alog(s, a, v):
    k = kind(a, True)
    if k in ("K_INT", "K_UINT", "K_BOOL", "K_ENUM"):
        return str(v)
    if k == "K_FLOAT":
        return flog(v)
    if k == "K_DOUBLE":
        return dlog(v)
    if k == "K_STRING":
        return esc(v)
    if k == "K_LINK":
        return "#%d" % (v.id if v else 0)
    t = utype(s, a)
    if t == "double":
        return dlog(v)
    if t == "const char *":
        return esc(v)
    if t == "void *":
        return "%x" % (v & M64)
    return str(v)


class N:
    __slots__ = ("t", "id", "kids", "attrs", "loc", "freed")

    def __init__(self, t, nk, na):
        self.t, self.id, self.kids, self.attrs, self.loc, self.freed = t, 0, [None] * nk, [None] * na, None, False


class Sim:
    def __init__(self, s, script):
        self.s = s
        self.log = []
        self.out = []
        self.nextid = 0
        self.live = 0          # allocations owned by trees
        self.marked = 0
        self.fuel, self.nodefuel = 300, 400
        self.errors = self.warnings = 0
        self.regs = {0: None}
        self.recs = {}
        self.tn = [n for n in s.nodes]
        self.idx = {n.name.lower(): i for i, n in enumerate(s.nodes)}
        self.ctor = []
        for n in s.nodes:
            self.ctor.append(([i for i, c in enumerate(n.children) if c.ctor], [i for i, a in enumerate(n.attrs) if a.ctor]))
        self.members = {}
        self.targets = [{self.idx[x] for x in s.targets(t)} for t in s.travs]
        self.reaching = [self.reach(x) for x in self.targets]
        self.unspecified = False
        self.stack = []        # traversal stack: [index, data or None]
        self.gates = gates(s)
        self.cyc, self.check = 100, True
        self.bp = self.bpid = None
        self.verb = 0
        self.progress = []
        self.actions = s.actions()
        self.action_id = 0
        self.aerr = self.perr = False
        self.notified = False
        self.strs = {}
        self.maps, self.scr = {}, {}
        self.mainscr = 1
        self.occ = {}
        self.evaluator = None
        self.stats = {}
        self.parse(script)
        self.lts = self.lifetimes()

    # ------------------------------------------------ script
    def parse(self, script):
        cur = None
        for l in script.split("\n"):
            w = l.split()
            if not w:
                continue
            if w[0] == "SCR":
                cur = self.scr.setdefault(int(w[1]), [])
            elif w[0] == "STR":
                self.strs[int(w[1])] = w[2]
            elif w[0] == "FUEL":
                self.fuel, self.nodefuel = int(w[1]), int(w[2])
            elif w[0] == "MAIN":
                self.mainscr = int(w[1])
            elif w[0] == "MAP":
                k = (w[1], int(w[2]), int(w[3])) if w[1] == "H" else (w[1], int(w[2]))
                self.maps[k] = [int(x) for x in (w[4:] if w[1] == "H" else w[3:])]
            else:
                cur.append((w[0], [int(x) for x in w[1:]]))

    def pick(self, k, d):
        m = self.maps.get(k)
        if not m:
            return d
        o = self.occ.get(k, 0)
        self.occ[k] = o + 1
        return m[o % len(m)]

    def stat(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    # ------------------------------------------------ nodes
    def reg(self, n):
        self.nextid += 1
        n.id = self.nextid

    def regtree(self, n):
        if n:
            self.reg(n)
            for c in n.kids:
                self.regtree(c)

    def construct(self, t, kids, vals, links):
        d = self.s.nodes[t]
        n = N(t, len(d.children), len(d.attrs))
        for j, i in enumerate(self.ctor[t][0]):
            n.kids[i] = kids[j] if j < len(kids) else None
        for i, a in enumerate(d.attrs):
            n.attrs[i] = zero(self.s, a)
        for j, i in enumerate(self.ctor[t][1]):
            n.attrs[i] = conv(self.s, d.attrs[i], vals[j], links[j])
        self.live += self.nblocks(n)
        return n

    def nblocks(self, n):
        """allocations of one node: the node, its data (if it has any field) and its strings"""
        d = self.s.nodes[n.t]
        k = 1 + (1 if d.children or d.attrs else 0)
        if n.loc and n.loc[4] is not None:
            k += 1
        for a, v in zip(d.attrs, n.attrs):
            if a.type == "string" and v is not None:
                k += 1
        return k

    def leaf(self, t, v):
        n = self.construct(t, [], [0 if v == 0 else v + i for i in range(64)], [None] * 64)
        self.reg(n)
        self.nodefuel -= 1
        return n

    def setattr(self, n, i, v, link):
        a = self.s.nodes[n.t].attrs[i]
        if a.kind != "classic":
            return
        if a.type == "string" and n.attrs[i] is not None:
            self.live -= 1
        n.attrs[i] = conv(self.s, a, v, link)
        if a.type == "string" and n.attrs[i] is not None:
            self.live += 1

    def size(self, n):
        return 0 if n is None else 1 + sum(self.size(c) for c in n.kids)

    def dump(self, n):
        if n is None:
            return "_"
        d = self.s.nodes[n.t]
        o = "%d:%s" % (n.id, d.name)
        if n.loc and (any(n.loc[:4]) or n.loc[4] is not None):
            o += "@%d.%d.%d.%d%s" % (n.loc[0], n.loc[1], n.loc[2], n.loc[3], esc(n.loc[4]))
        if d.attrs:
            o += "(" + ",".join("-" if a.kind != "classic" else alog(self.s, a, v) for a, v in zip(d.attrs, n.attrs)) + ")"
        if d.children:
            o += "[" + " ".join(self.dump(c) for c in n.kids) + "]"
        return o

    def agdump(self, n):
        d = self.s.nodes[n.t]
        o = []
        for a, v in zip(d.attrs, n.attrs):
            if a.kind != "classic":
                k = 1 + len(cgen.set_accessors(self.s, d, a))
                o.append("|".join([alog(self.s, a, v)] * k))
        return "%d(%s)%s" % (n.id, ",".join(o), "".join(self.agdump(c) for c in n.kids if c))

    def sadump(self, n):
        d = self.s.nodes[n.t]
        o = []
        for a, v in zip(d.attrs, n.attrs):
            k = len(cgen.set_accessors(self.s, d, a)) if a.kind == "classic" else 0
            if k:
                o.append("|".join([alog(self.s, a, v)] * (k + 1)))
                self.stat("read through node set", k)
        return "%d(%s)%s" % (n.id, ",".join(o), "".join(self.sadump(c) for c in n.kids if c))

    def copy(self, n):
        if n is None:
            return None
        self.stat("copied")
        m = N(n.t, len(n.kids), len(n.attrs))
        m.kids = [self.copy(c) for c in n.kids]
        m.attrs = list(n.attrs)
        m.loc = list(n.loc) if n.loc else None
        self.live += self.nblocks(m)
        return m

    def free(self, n):
        if n is None:
            return None
        for c in n.kids:
            self.free(c)
        self.live -= self.nblocks(n)
        n.freed = True
        self.stat("freed")
        return None

    def admitted(self, c):
        k = c.type.lower()
        if k not in self.members:
            self.members[k] = {self.idx[x] for x in self.s.members(c.type)}
        return self.members[k]

    # ------------------------------------------------ traversals
    def reach(self, targets):
        """the node types below which the specification allows a target"""
        down = [{self.idx[m] for c in n.children for m in self.s.members(c.type)} for n in self.s.nodes]
        out = set(targets)
        while True:
            new = {t for t, d in enumerate(down) if d & out} - out
            if not new:
                return out
            out |= new

    def astray(self, t, n):
        """is there a target below n, a node whose type does not allow one (n is ill-typed)?"""
        return any(k is not None and (k.t in self.targets[t] or self.astray(t, k)) for k in n.kids)

    def start(self, t, n):
        self.push(t)
        n = self.opt(n)
        self.pop()
        return n

    def put(self, x):
        self.log.append(x.rstrip())

    def datalog(self, t, data):
        tr = self.s.travs[t]
        return ",".join(alog(self.s, d, v) for d, v in zip(tr.data, data))

    def push(self, t):
        tr = self.s.travs[t]
        data = None
        if tr.data is not None:
            data = [zero(self.s, d) for d in tr.data]
        self.live += 1 + (1 if data else 0)
        self.stack.append([t, data])
        self.stat("activations")
        if data is not None:
            self.put("I %d %d %s" % (t, t, self.datalog(t, data)))
            self.exec(self.pick(("I", t), 1), None)

    def pop(self):
        t, data = self.stack[-1]
        if data is not None:
            self.put("F %d %d %s" % (t, t, self.datalog(t, data)))
            self.exec(self.pick(("F", t), 1), None)
        self.live -= 1 + (1 if data else 0)
        self.stack.pop()

    def cur(self):
        return self.stack[-1][0] if self.stack else -1

    def opt(self, n):
        return n if n is None else self.do(n)

    def do(self, n):
        t = self.stack[-1][0]
        if n.t in self.targets[t]:
            return self.handler(t, n)
        if n.t not in self.reaching[t] and self.astray(t, n):
            # nothing is promised about targets in places no well-typed tree has them
            self.unspecified = True
        return self.children(n)

    def children(self, n):
        for i in range(len(n.kids)):
            n.kids[i] = self.opt(n.kids[i])
        return n

    def handler(self, t, n):
        self.put("H %d %d %d %d" % (t, n.t, n.id, self.cur()))
        self.stat("visits")
        self.fuel -= 1
        if self.fuel + 1 <= 0:
            return n
        n = self.exec(self.pick(("H", t, n.t), 0), n)
        self.put("h %d %d" % (t, n.id if n else 0))
        return n

    # ------------------------------------------------ phase driver
    def lifetimes(self):
        """[(kind, subject, id interval or None)], with subject ('node', t) / ('child', t, i) / ('attr', t, i)"""
        out = []
        for t, n in enumerate(self.s.nodes):
            for l in n.lifetimes:
                out.append((l.kind, ("node", t, None), self.ltrange(l)))
            for i, c in enumerate(n.children):
                for l in c.lifetimes:
                    out.append((l.kind, ("child", t, i), self.ltrange(l)))
            for i, a in enumerate(n.attrs):
                for l in a.lifetimes:
                    out.append((l.kind, ("attr", t, i), self.ltrange(l)))
        return out

    def ltrange(self, l):
        lo, hi = 0, 1 << 60
        if l.begin:
            i, nx = resolve(self.s, l.begin[1])
            lo = i if l.begin[0] else nx
        if l.end:
            i, nx = resolve(self.s, l.end[1])
            hi = nx if l.end[0] else i
        return lo, hi

    def treeok(self, n, aid):
        """first problem or None; self.bad gets every distinct one"""
        self.bad = {}
        todo = [n]
        while todo:
            n = todo.pop()
            if n is None:
                continue
            d = self.s.nodes[n.t]
            for k, (w, t, i), (lo, hi) in self.lts:
                if t != n.t:
                    continue
                inside = lo <= aid < hi
                if w == "node":
                    if (k == "disallowed" and inside) or (k == "allowed" and not inside):
                        self.bad["node lifetime", d.name, None, None] = 1
                    continue
                v = n.kids[i] if w == "child" else n.attrs[i]
                f = d.children[i] if w == "child" else d.attrs[i]
                if v is not None and ((k == "disallowed" and inside) or (k == "allowed" and not inside)):
                    self.bad[w + " lifetime", d.name, f.name, None] = 1
                if v is None and ((k == "mandatory" and inside) or (k == "optional" and not inside)):
                    self.bad[w + " lifetime", d.name, f.name, None] = 1
            for c, v in zip(d.children, n.kids):
                if v is not None and v.t not in self.admitted(c):
                    self.bad["type", d.name, c.name, self.s.nodes[v.t].name] = 1
            todo += reversed(n.kids)
        self.stat("tree problems", len(self.bad))
        return next((x[:3] for x in self.bad), None)

    def dispatch(self, name, n, path):
        self.action_id += 1
        me = self.action_id
        s = self.s
        o = s.phase(name) or s.trav(name) or s.pas(name)
        path = path + [o.name]
        is_phase = not isinstance(o, (Pass, Trav))
        if is_phase and self.verb > 0:
            self.prog(">> " + o.name)
        elif not is_phase and self.verb > 1:
            self.prog("*** " + o.name)
        self.stat("actions")
        if self.check:
            self.stat("treechecks")
            r = self.treeok(n, me)
            if r:
                self.errors += 1
                raise Exit(1, ("tree",) + r)
        if isinstance(o, Pass):
            n = self.pas(o, n)
        elif isinstance(o, Trav):
            n = self.start(s.travs.index(o), n)
        else:
            save, self.perr = self.perr, False
            n = self.phase(o, n, path)
            self.perr = self.perr or save
        if self.aerr:
            raise Exit(1, ("action error",))
        if (self.bp and ".".join(path).lower() == self.bp.lower()) or (self.bpid == me):
            self.put("BP %d %s" % (n.id if n else 0, self.dump(n)))
            raise Exit(0, ("breakpoint",))
        if is_phase and self.verb > 0:
            self.prog("<< " + o.name)
        return n

    def prog(self, line):
        self.stat("progress lines")
        self.progress.append(line)

    def skip(self, o):
        for a in o.actions:
            self.action_id += 1
            p = self.s.phase(a)
            if p:
                self.skip(p)

    def phase(self, o, n, path):
        if o.gate:
            g = self.gates.index(o.gate)
            r = self.pick(("G", g), 1)
            self.put("G %d %d" % (g, r & 1))
            self.stat("gates")
            if r & 2:
                self.notified = True
            if not r & 1:
                if self.verb > 2:
                    self.prog("skip " + o.name)
                self.skip(o)
                return n
        first = self.action_id
        outer, any_ = self.notified, False
        it = 0
        while True:
            self.notified = False
            self.action_id = first
            for a in o.actions:
                n = self.dispatch(a, n, path)
            it += 1
            any_ = any_ or self.notified
            if o.cycle:
                self.stat("iterations")
            if not (o.cycle and it < self.cyc and self.notified):
                break
        self.notified = outer or any_
        if self.perr:
            raise Exit(1, ("phase error",))
        return n

    def pas(self, o, n):
        i = next(k for k, p in enumerate(self.s.passes) if p.cfunc == o.cfunc)
        self.put("P %d %d id %d cur %d" % (i, n.id if n else 0, self.action_id, self.cur()))
        self.fuel -= 1
        if self.fuel + 1 <= 0:
            return n
        n = self.exec(self.pick(("P", i), 1), n)
        self.put("p %d %d" % (i, n.id if n else 0))
        return n

    def run(self, n):
        self.action_id = 0
        self.aerr = self.perr = self.notified = False
        n = self.dispatch(self.s.start.name, n, [])
        self.free(n)

    def show(self):
        def go(i):
            """prints action i's sub-tree"""
            a = self.actions[i]
            o = ""
            if a[0] > 1:
                o += "%d|%d|%s\n" % (a[1] - 1, a[0], a[2][-1])
            return o
        return "".join(go(i) for i in range(len(self.actions)))

    # ------------------------------------------------ interpreter
    def exec(self, s, n):
        sp = self.s
        for op, a in self.scr.get(s, []):
            nc = len(n.kids) if n else 0
            na = len(n.attrs) if n else 0
            decl = sp.nodes[n.t] if n else None
            if op == "new":
                p = 2
                nk = a[p]
                kids = [self.regs.get(x) for x in a[p + 1:p + 1 + nk]]
                p += 1 + nk
                nv = a[p]
                rest = a[p + 1:]
                vals = rest[0::2][:nv]
                links = [self.regs.get(x) for x in rest[1::2][:nv]]
                m = self.construct(a[1], kids, vals, links)
                self.reg(m)
                self.regs[a[0]] = m
                self.stat("constructed")
            elif op == "setc":
                self.regs[a[0]].kids[a[1]] = self.regs.get(a[2])
            elif op == "sad":
                m = self.regs.get(a[0])
                self.put("sad " + (self.sadump(m) if m else "_"))
            elif op == "setz":
                m = self.regs[a[0]]
                d = self.s.nodes[m.t]
                if a[1] < len(d.attrs) and cgen.set_accessors(self.s, d, d.attrs[a[1]]):
                    self.setattr(m, a[1], a[2], self.regs.get(a[3]))
                    self.stat("set through node set")
            elif op == "seta":
                self.setattr(self.regs[a[0]], a[1], a[2], None)
            elif op == "setl":
                self.setattr(self.regs[a[0]], a[1], 0, self.regs.get(a[2]))
            elif op == "loc":
                m = self.regs[a[0]]
                self.live -= self.nblocks(m)
                m.loc = [x & 0xffffffff for x in a[1:5]] + [None if a[5] == 0 else POOL[(a[5] & M64) % len(POOL)]]
                self.live += self.nblocks(m)
            elif op == "run":
                m = self.regs.get(a[0])
                self.regs[a[0]] = None
                self.put("run")
                self.run(m)
                self.put("ran")
            elif op == "start":
                self.put("start %d" % a[0])
                m = self.start(a[0], self.regs.get(a[1]))
                self.regs[a[1]] = m
                self.put("started %d" % (m.id if m else 0))
            elif op == "chkm":
                m = self.regs[a[0]]
                bad = self.treeok(m, 0)
                self.stat("admission refused" if bad else "admission granted")
                self.put("chkm %d %s" % (m.id, "bad" if bad else "ok"))
            elif op == "chkt":
                m = self.regs.get(a[0])
                self.put("checked %d" % (m.id if m else 0))
            elif op == "dump":
                self.put("dump " + self.dump(self.regs.get(a[0])))
            elif op == "copy":
                m = self.copy(self.regs.get(a[1]))
                self.regtree(m)
                self.regs[a[0]] = m
                self.put("copy " + self.dump(m))
            elif op == "free":
                self.free(self.regs.get(a[0]))
                self.regs[a[0]] = None
                self.put("free null")
            elif op == "bp":
                self.bp = self.strs[a[0]]
            elif op == "bpid":
                self.bpid = a[0]
            elif op == "verb":
                self.verb = a[0]
                self.stat("runs at verbosity %d" % a[0])
            elif op == "show":
                self.out.append(self.show())
            elif op == "eval":
                m = self.regs.get(a[0])
                self.put("eval %d" % m.id)
                self.evaluator(self, m)
                self.put("evald")
            elif op == "ead":
                self.put("ead " + self.agdump(self.regs.get(a[0])))
            elif op == "mark":
                self.marked = self.live
            elif op == "live":
                self.put("live %d" % (self.live - self.marked))
            elif op == "rec":
                r = []

                def go(x):
                    if x is None:
                        return
                    d = sp.nodes[x.t]
                    r.append(x)
                    if x.loc and x.loc[4] is not None:
                        r.append(x)
                    for at, v in zip(d.attrs, x.attrs):
                        if at.type == "string" and v is not None:
                            r.append(x)
                    for c in x.kids:
                        go(c)
                go(self.regs.get(a[1]))
                self.recs[a[0]] = r
            elif op == "psn":
                r = self.recs.get(a[0], [])
                self.put("psn %d of %d" % (sum(x.freed for x in r), len(r)))
            elif op == "dis":
                self.put("shared 0")
            elif op == "gl":
                self.put("errors %d warnings %d" % (self.errors, self.warnings))
            elif op == "abe":
                if self.errors:
                    raise Exit(1, ("abort on error",))
            elif op == "abc":
                raise Exit(1, ("abort",))
            elif op == "tc":
                if n:
                    n = self.children(n)
            elif op in ("tk", "to"):
                if nc:
                    i = a[0] % nc
                    n.kids[i] = self.opt(n.kids[i])
            elif op == "td":
                if nc:
                    i = a[0] % nc
                    if n.kids[i]:
                        n.kids[i] = self.do(n.kids[i])
            elif op == "ts":
                if nc:
                    i = a[1] % nc
                    n.kids[i] = self.start(a[0], n.kids[i])
            elif op == "tS":
                n = self.start(a[0], n)
            elif op == "push":
                self.push(a[0])
            elif op == "pop":
                self.pop()
            elif op == "wr":
                if self.stack and self.stack[-1][1]:
                    t, data = self.stack[-1]
                    f = a[0] % len(data)
                    data[f] = conv(sp, sp.travs[t].data[f], a[1], n if a[2] else None, False)
                    self.stat("datawrites")
            elif op == "ld":
                if self.stack and self.stack[-1][1]:
                    self.put("data %d %s" % (self.stack[-1][0], self.datalog(*self.stack[-1])))
                else:
                    self.put("data %d" % self.cur())
            elif op == "sa":
                if na and decl.attrs[a[0] % na].type != "link":
                    self.setattr(n, a[0] % na, a[1], None)
            elif op == "sl":
                if na and decl.attrs[a[0] % na].type == "link":
                    self.setattr(n, a[0] % na, 0, None if a[1] == 0 else n)
            elif op == "fc":
                if nc:
                    self.free(n.kids[a[0] % nc])
                    n.kids[a[0] % nc] = None
            elif op == "nc":
                if nc and n.t == a[0] and self.nodefuel > 0 and n.kids[a[1]] is None:
                    n.kids[a[1]] = self.leaf(a[2], a[3])
            elif op == "rp":
                if n and n.t == a[0] and self.nodefuel > 0:
                    m = self.leaf(a[1], a[2])
                    self.free(n)
                    n = m
                    self.stat("replaced")
            elif op == "cp":
                if n and n.t == a[0] and self.nodefuel > 0:
                    c = n.kids[a[1]]
                    sz = self.size(c)
                    if c and sz < 30:
                        self.nodefuel -= sz
                        d = self.copy(c)
                        self.regtree(d)
                        if n.kids[a[2]]:
                            self.free(n.kids[a[2]])
                        n.kids[a[2]] = d
            elif op == "mv":
                if n and n.t == a[0]:
                    n.kids[a[1]], n.kids[a[2]] = n.kids[a[2]], n.kids[a[1]]
            elif op == "nt":
                self.notified = True
                self.stat("notifies")
            elif op == "ea":
                self.aerr = True
            elif op == "ep":
                self.perr = True
            elif op == "ce":
                self.errors += 1
            elif op == "cw":
                self.warnings += 1
            elif op in ("cn", "cs"):
                pass
            elif op == "id":
                self.put("id %d" % self.action_id)
            elif op == "dn":
                self.put("dn " + self.dump(n))
            elif op == "cpf":
                if n and self.nodefuel > 0:
                    d = self.copy(n)
                    self.regtree(d)
                    self.nodefuel -= self.size(d)
                    self.put("cpf " + self.dump(d) + " null")
                    self.free(d)
            elif op == "cyc":
                self.cyc = a[0]
            elif op == "chk":
                self.check = bool(a[0])
            else:
                raise AssertionError(op)
        return n

    def main(self):
        """-> exit status, reason"""
        try:
            self.exec(self.mainscr, None)
        except Exit as e:
            return e.code, e.why
        self.put("end errors %d warnings %d" % (self.errors, self.warnings))
        return 0, ("end",)
