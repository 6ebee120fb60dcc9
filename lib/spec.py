"""Model of a CoCoNut specification, a seeded random generator of well-formed ones, and a printer."""
import random

C_KEYWORDS = set("auto break case char const continue default do double else enum extern float for goto if inline int long register restrict return short signed sizeof static struct switch typedef union unsigned void volatile while bool true false".split())
DSL_KEYWORDS = set("args attributes children constructor cycle enum equations inherited mandatory node nodeset nodes pass passes phase phases actions prefix subphases synthesized this to traversal travdata values info func root start double float int uint int8 int16 int32 int64 uint8 uint16 uint32 uint64 string bool lifetime disallowed optional allowed false true gate user uid null".split())
RESERVED = C_KEYWORDS | DSL_KEYWORDS | set("nt ns ccn n trav pass phase node eval cpy chk del trv free check cleanup".split())

INT_TYPES = {"int": (32, True), "int8": (8, True), "int16": (16, True), "int32": (32, True), "int64": (64, True),
             "uint8": (8, False), "uint16": (16, False), "uint32": (32, False), "uint64": (64, False)}
PRIM_TYPES = list(INT_TYPES) + ["float", "double", "bool", "string"]


class Enum:
    def __init__(self, name, prefix, values):
        self.name, self.prefix, self.values = name, prefix, values


class Lt:
    """lifetime; begin/end are None or (inclusive, [names])"""
    def __init__(self, kind, begin=None, end=None, bare=True):
        self.kind, self.begin, self.end, self.bare = kind, begin, end, bare


class Child:
    def __init__(self, name, type, ctor=False, lifetimes=None):
        self.name, self.type, self.ctor, self.lifetimes = name, type, ctor, lifetimes or []

    @property
    def mandatory(self):
        return any(l.kind == "mandatory" and l.begin is None and l.end is None for l in self.lifetimes)


class Attr:
    """type: a primitive, 'enum', 'link' or 'user'; ref names the enum, node(set) or C type"""
    def __init__(self, name, type, ref=None, ctor=False, kind="classic", lifetimes=None):
        self.name, self.type, self.ref, self.ctor, self.kind = name, type, ref, ctor, kind
        self.lifetimes = lifetimes or []
        self.prop = False        # comes from a node set


class Eq:
    """target/deps: (child or None, attribute name)"""
    def __init__(self, target, deps):
        self.target, self.deps = target, deps


class Node:
    def __init__(self, name, root=False):
        self.name, self.root = name, root
        self.children, self.attrs, self.eqs, self.lifetimes = [], [], [], []

    def child(self, name):
        for c in self.children:
            if c.name.lower() == name.lower():
                return c

    def attr(self, name):
        for a in self.attrs:
            if a.name.lower() == name.lower():
                return a


class NodeSet:
    def __init__(self, name, expr, long=False):
        self.name, self.expr, self.long = name, expr, long
        self.attrs = []


class Trav:
    def __init__(self, name, uid, expr=None, data=None, info=None):
        self.name, self.uid, self.expr, self.data, self.info = name, uid, expr, data, info


class Pass:
    def __init__(self, name, uid=None, func=None, info=None):
        self.name, self.uid, self.func, self.info = name, uid, func, info

    @property
    def cfunc(self):
        if self.func:
            return self.func
        return (self.uid.upper() if self.uid else "") + self.name


class Phase:
    def __init__(self, name, actions, start=False, cycle=False, uid=None, gate=None, info=None):
        self.name, self.actions, self.start, self.cycle = name, actions, start, cycle
        self.uid, self.gate, self.info = uid, gate, info


class Spec:
    def __init__(self):
        self.enums, self.nodes, self.nodesets, self.travs, self.passes, self.phases = [], [], [], [], [], []
        self.user_types = []      # [(typedef name, C type)]
        self.inline = set()       # names of actions written inline at their first reference
        self.order = None

    # -- lookups
    def by(self, lst, name):
        for x in lst:
            if x.name.lower() == name.lower():
                return x

    def node(self, n): return self.by(self.nodes, n)
    def nodeset(self, n): return self.by(self.nodesets, n)
    def phase(self, n): return self.by(self.phases, n)
    def trav(self, n): return self.by(self.travs, n)
    def pas(self, n): return self.by(self.passes, n)
    def enum(self, n): return self.by(self.enums, n)

    @property
    def root(self):
        return next(n for n in self.nodes if n.root)

    @property
    def start(self):
        return next(p for p in self.phases if p.start)

    # -- set algebra
    def eval(self, e, depth=0):
        """set of lower-case node names"""
        assert depth < 50
        k = e[0]
        if k == "lit":
            return {x.lower() for x in e[1]}
        if k == "ref":
            return self.eval(self.nodeset(e[1]).expr, depth + 1)
        a, b = self.eval(e[1], depth), self.eval(e[2], depth)
        return a | b if k == "|" else a & b if k == "&" else a - b

    def members(self, typ):
        """lower-case node names admitted by a child/link type"""
        if self.node(typ):
            return {typ.lower()}
        return self.eval(self.nodeset(typ).expr)

    def targets(self, t):
        return {n.name.lower() for n in self.nodes} if t.expr is None else self.eval(t.expr)

    def child_graph(self):
        return {n.name.lower(): set().union(*[self.members(c.type) for c in n.children]) if n.children else set()
                for n in self.nodes}

    # -- action numbering: list of (id, depth, path, obj) in depth-first order, start phase first
    def actions(self):
        out = []
        cnt = [0]

        def go(name, depth, path):
            cnt[0] += 1
            obj = self.phase(name) or self.pas(name) or self.trav(name)
            me = [cnt[0], depth, path + [obj.name], obj, None]
            out.append(me)
            if isinstance(obj, Phase):
                for a in obj.actions:
                    go(a, depth + 1, path + [obj.name])
            me[4] = cnt[0] + 1      # first id after the sub-tree
        go(self.start.name, 0, [])
        return out


# ------------------------------------------------------------------ printing

def pset(e, rng=None, right=False):
    if e[0] == "lit":
        return "{" + ", ".join(e[1]) + "}"
    if e[0] == "ref":
        return e[1]
    l = pset(e[1], rng)
    if rng is not None and rng.random() < 0.3:
        l = "(" + l + ")"
    r = pset(e[2], rng)
    if len(e[2]) == 3 and e[2][0] in ("|", "&", "-") or rng is not None and rng.random() < 0.1:
        r = "(" + r + ")"
    return "%s %s %s" % (l, e[0], r)


def plt(l):
    if l.begin is None and l.end is None and l.bare:
        return l.kind
    b = "(" if l.begin is None else ("[" if l.begin[0] else "(") + ".".join(l.begin[1])
    e = ")" if l.end is None else ".".join(l.end[1]) + ("]" if l.end[0] else ")")
    return "%s %s -> %s" % (l.kind, b, e)


def pattr(a):
    t = a.type if a.type in PRIM_TYPES else ("user " + a.ref if a.type == "user" else a.ref)
    opts = []
    if a.ctor:
        opts.append("constructor")
    if a.kind == "syn":
        opts.append("synthesized")
    if a.kind == "inh":
        opts.append("inherited")
    opts += [plt(l) for l in a.lifetimes]
    return "%s %s%s" % (t, a.name, " { %s }" % ", ".join(opts) if opts else " { }" if getattr(a, "braces", False) else "")


def pchild(c):
    opts = (["constructor"] if c.ctor else []) + [plt(l) for l in c.lifetimes]
    return "%s %s%s" % (c.type, c.name, " { %s }" % ", ".join(opts) if opts else " { }" if getattr(c, "braces", False) else "")


def pref(r):
    return "%s.%s" % (r[0] if r[0] else "this", r[1])


def peq(e):
    if e.deps is None:
        return "%s = {}" % pref(e.target)
    return "%s = {args = {%s}}" % (pref(e.target), ", ".join(pref(d) for d in e.deps))


def pnode(n):
    parts = []
    if n.children:
        parts.append("children {\n        %s\n    }" % ",\n        ".join(pchild(c) for c in n.children))
    own = [a for a in n.attrs if not a.prop]
    if own:
        parts.append("attributes {\n        %s\n    }" % ",\n        ".join(pattr(a) for a in own))
    if n.eqs:
        parts.append("equations {\n        %s\n    }" % ",\n        ".join(peq(e) for e in n.eqs))
    if n.lifetimes:
        parts.append("lifetime {\n        %s\n    }" % ",\n        ".join(plt(l) for l in n.lifetimes))
    return "%snode %s {\n    %s\n}" % ("root " if n.root else "", n.name, ",\n    ".join(parts))


def pnodeset(s, rng=None):
    info = getattr(s, "info", None)
    if not s.long and not s.attrs and info is None:
        return "nodeset %s = %s" % (s.name, pset(s.expr, rng))
    a = ""
    if s.attrs:
        a = ",\n    attributes {\n        %s\n    }" % ",\n        ".join(pattr(x) for x in s.attrs)
    return "nodeset %s {\n%s    nodes = %s%s\n}" % (s.name, "" if info is None else '    info = "%s",\n' % info, pset(s.expr, rng), a)


def ptrav(t, rng=None):
    parts = []
    if t.info is not None:
        parts.append('info = "%s"' % t.info)
    parts.append("uid = %s" % t.uid)
    if t.expr is not None:
        parts.append("nodes = %s" % pset(t.expr, rng))
    if t.data is not None:
        parts.append("travdata {\n        %s\n    }" % ",\n        ".join(
            "%s %s" % (d.type if d.type in PRIM_TYPES else ("user " + d.ref if d.type == "user" else d.ref), d.name)
            for d in t.data))
    return "traversal %s {\n    %s\n}" % (t.name, ",\n    ".join(parts))


def ppass(p):
    if p.func and not p.uid and p.info is None:
        return "pass %s = %s" % (p.name, p.func) if p.form else "pass %s { func = %s }" % (p.name, p.func)
    parts = []
    if p.info is not None:
        parts.append('info = "%s"' % p.info)
    if p.uid:
        parts.append("uid = %s" % p.uid)
    if p.func:
        parts.append("func = %s" % p.func)
    if not parts:
        return "pass %s" % p.name
    return "pass %s { %s }" % (p.name, ", ".join(parts))


Pass.form = True


def penum(e):
    info = getattr(e, "info", None)
    return "enum %s {\n%s    prefix = %s,\n    values {\n        %s\n    }\n}" % (e.name, "" if info is None else '    info = "%s",\n' % info, e.prefix, ", ".join(e.values))


def pphase(s, p, done, rng=None):
    parts = []
    if p.info is not None:
        parts.append('info = "%s"' % p.info)
    if p.uid:
        parts.append("uid = %s" % p.uid)
    if p.gate:
        parts.append("gate = %s" % p.gate)
    acts = []
    for a in p.actions:
        if a.lower() in s.inline and a.lower() not in done:
            done.add(a.lower())
            if s.phase(a):
                acts.append(pphase(s, s.phase(a), done, rng))
            elif s.trav(a):
                acts.append(ptrav(s.trav(a), rng))
            else:
                acts.append(ppass(s.pas(a)))
        else:
            acts.append(a)
    parts.append("actions {\n%s\n    }" % "\n".join("        %s;" % a for a in acts))
    return "%s%s %s {\n    %s\n}" % ("start " if p.start else "", "cycle" if p.cycle else "phase", p.name, ",\n    ".join(parts))


def to_dsl(s, rng=None):
    """print the specification; rng only chooses redundant parentheses"""
    done = set()
    decls = []
    ph = {}
    # inline definitions are printed where they are first used, so print phases that contain others first
    order = [s.start] + [p for p in s.phases if not p.start]
    todo = list(order)
    while todo:
        p = todo.pop(0)
        if p.name.lower() in s.inline and p.name.lower() not in done:
            # its (only) reference is in a phase printed later; make sure that one comes first
            parent = next((q for q in s.phases if p.name.lower() in [a.lower() for a in q.actions]), None)
            if parent is None or parent in todo:
                todo.append(p)
                if parent is None:
                    s.inline.discard(p.name.lower())
                continue
        if p.name.lower() in done:
            continue
        ph[p.name.lower()] = pphase(s, p, done, rng)
        done.add(p.name.lower())
    for p in s.phases:
        if p.name.lower() in ph:
            decls.append(("phase", p.name, ph[p.name.lower()]))
    for p in s.passes:
        if p.name.lower() not in done:
            decls.append(("pass", p.name, ppass(p)))
    for t in s.travs:
        if t.name.lower() not in done:
            decls.append(("trav", t.name, ptrav(t, rng)))
    for e in s.enums:
        decls.append(("enum", e.name, penum(e)))
    for n in s.nodes:
        decls.append(("node", n.name, pnode(n)))
    for x in s.nodesets:
        decls.append(("nodeset", x.name, pnodeset(x, rng)))
    if s.order is not None:
        r = random.Random(s.order)
        # relative order inside each kind is part of the generated numbering of types only
        r.shuffle(decls)
    return "\n\n".join(d[2] + ";" for d in decls) + "\n"


# ------------------------------------------------------------------ generation

SYL = ["za", "xo", "qi", "vu", "je", "ky", "wo", "bra", "tru", "mel", "nor", "pax", "zik", "lum", "fox", "quo", "vex", "hib"]


SPECIAL = []         # words a check wants to see as names too


class Names:
    def __init__(self, rng):
        self.rng = rng
        self.used = set()

    def raw(self, n=None):
        r = self.rng
        if SPECIAL and r.random() < 0.1:
            return r.choice(SPECIAL)
        w = "".join(r.choice(SYL) for _ in range(n or r.choice([2, 2, 3])))
        if r.random() < 0.15:
            w += str(r.randrange(10))
        return w

    def style(self, w):
        r = self.rng.random()
        if r < 0.45:
            return w
        if r < 0.75:
            return w.capitalize()
        if r < 0.85:
            return w.upper()
        return "".join(c.upper() if self.rng.random() < 0.3 else c for c in w)

    def new(self, style=True):
        while True:
            w = self.raw()
            if w.lower() not in self.used and w.lower() not in RESERVED:
                self.used.add(w.lower())
                return self.style(w) if style else w

    def uid(self):
        while True:
            w = "".join(self.rng.choice("abcdefghjklmqrstuvwxyz") for _ in range(self.rng.choice([2, 3, 3, 4]))) + self.rng.choice(["", "z", "7"])
            if len(w) > 2 and w.lower() not in self.used and w.lower() not in RESERVED:
                self.used.add(w.lower())
                return self.style(w)


class Cfg:
    """what a generated specification may contain"""
    def __init__(self, **kw):
        d = dict(nodes=(2, 6), sets=(0, 3), travs=(0, 4), passes=(1, 4), phases=(0, 3), enums=(0, 2), children=(0, 3),
                 attrs=(0, 4), setdepth=2, cycles=True, gates=True, travdata=0.6, lifetimes=False, child_mandatory=0.0,
                 user=True, links=True, inline=0.3, set_attrs=0.4, all_trav=0.3, reuse=0.5, shared_names=True,
                 upper_fields=True, phase_reuse=0.0, type_is_name=0.15, attr_types=None, empty=0.0, uid=0.4, func=0.3, info=0.3)
        d.update(kw)
        self.__dict__.update(d)


def rint(rng, lo_hi):
    return rng.randint(*lo_hi)


def gen_setexpr(rng, s, names, depth, refs):
    if depth == 0 or rng.random() < 0.35:
        if refs and rng.random() < 0.45:
            return ("ref", rng.choice(refs))
        k = rng.randint(1, min(4, len(names)))
        return ("lit", rng.sample(names, k))
    op = rng.choice(["|", "|", "&", "-"])
    return (op, gen_setexpr(rng, s, names, depth - 1, refs), gen_setexpr(rng, s, names, depth - 1, refs))


def gen_attr(rng, s, nm, cfg, name, allow_ctor=True):
    types = cfg.attr_types or (PRIM_TYPES + (["enum"] * 2 if s.enums else []) + (["link"] * 2 if cfg.links else []) + (["user"] if cfg.user else []) + ["string"] * 2)
    t = rng.choice(types)
    ref = None
    if t == "enum" and not s.enums:
        t = "int"
    if t == "enum":
        ref = rng.choice(s.enums).name
    elif t == "link":
        ref = rng.choice(s.nodes + s.nodesets).name
    elif t == "user":
        if not s.user_types or rng.random() < 0.3:
            s.user_types.append((nm.new(), rng.choice(["long", "void *", "double", "unsigned char", "const char *"])))
        ref = rng.choice(s.user_types)[0]
    return Attr(name, t, ref, allow_ctor and rng.random() < 0.4)


def gen_spec(seed, cfg=None):
    cfg = cfg or Cfg()
    rng = random.Random(seed)
    nm = Names(rng)
    s = Spec()
    for _ in range(rint(rng, cfg.enums)):
        vals = []
        while len(vals) < rng.randint(1, 5):
            v = nm.style(nm.raw(rng.choice([1, 2])))
            if rng.random() < 0.2:
                v = rng.choice(["int", "node", "add", "Sub", "while", "user", "float", "pass", "args"])
            if v.lower() not in [x.lower() for x in vals] and v.lower() != "null":
                vals.append(v)
        s.enums.append(Enum(nm.new(), nm.uid(), vals))
    for _ in range(max(1, rint(rng, cfg.nodes))):
        s.nodes.append(Node(nm.new()))
    rng.choice(s.nodes).root = True
    nnames = [n.name for n in s.nodes]
    refs = []
    setnames = [nm.new() for _ in range(rint(rng, cfg.sets))]
    for sn in setnames:
        for _ in range(30):
            e = gen_setexpr(rng, s, nnames, rng.randint(0, cfg.setdepth), refs)
            if s.eval(e) or (cfg.empty and rng.random() < cfg.empty):
                break
        else:
            e = ("lit", [rng.choice(nnames)])
        s.nodesets.append(NodeSet(sn, e, rng.random() < 0.3))
        refs.append(sn)
    fieldpool = [nm.new(False) for _ in range(6)]
    for n in s.nodes:
        used = set()

        def fname(typ=None):
            while True:
                if typ and rng.random() < cfg.type_is_name:
                    w = typ.lower()
                elif cfg.shared_names and rng.random() < 0.5:
                    w = rng.choice(fieldpool)
                else:
                    w = nm.new(False)
                if w.lower() in used:
                    if typ and w == typ.lower():
                        typ = None
                    continue
                used.add(w.lower())
                if cfg.upper_fields and rng.random() < 0.25 and w not in fieldpool:
                    w = nm.style(w)
                return w
        for _ in range(rint(rng, cfg.children)):
            t = rng.choice(s.nodes + [x for x in s.nodesets if s.eval(x.expr)] * 2).name
            c = Child(fname(t), t, rng.random() < 0.5)
            if rng.random() < cfg.child_mandatory:
                c.lifetimes.append(Lt("mandatory"))
            n.children.append(c)
        for _ in range(rint(rng, cfg.attrs)):
            n.attrs.append(gen_attr(rng, s, nm, cfg, fname()))
    if cfg.set_attrs:
        add_set_attrs(rng, s, nm, cfg)
    for _ in range(rint(rng, cfg.travs)):
        e = None
        if rng.random() >= cfg.all_trav:
            for _ in range(30):
                e = gen_setexpr(rng, s, nnames, rng.randint(0, cfg.setdepth), refs)
                if s.eval(e):
                    break
            else:
                e = ("lit", [rng.choice(nnames)])
        data = None
        if rng.random() < cfg.travdata:
            data = []
            used = set()
            for _ in range(rng.randint(1, 4)):
                # names of data may be those of other traversals or of attributes
                w = nm.new(False)
                f = [x for x in fieldpool if x not in used]
                if f and len(w) % 2:
                    w = f[len(w) % len(f)]
                used.add(w)
                data.append(gen_attr(rng, s, nm, cfg, nm.style(w) if cfg.upper_fields else w, False))
        s.travs.append(Trav(nm.new(), nm.uid(), e, data, "a traversal" if rng.random() < cfg.info and (e is not None or data is None) else None))
    for _ in range(rint(rng, cfg.passes)):
        p = Pass(nm.new())
        if rng.random() < cfg.uid:
            p.uid = nm.uid()
        if rng.random() < cfg.func:
            p.func = nm.new()
        if rng.random() < cfg.info and (p.func or p.uid):
            p.info = "pass info, with; punctuation {}"
        p.form = rng.random() < 0.5
        s.passes.append(p)
    # phases: a tree
    leaf = [t.name for t in s.travs] + [p.name for p in s.passes]
    nph = rint(rng, cfg.phases)
    r2 = random.Random(seed * 31 + 7)
    ph = [Phase(nm.new(), [], i == 0, cfg.cycles and i > 0 and rng.random() < 0.45) for i in range(nph + 1)]
    for i, p in enumerate(ph):
        if rng.random() < cfg.uid:
            p.uid = nm.uid()
        if i > 0 and cfg.gates and rng.random() < 0.35:
            p.gate = nm.new()
        if rng.random() < cfg.info:
            p.info = "info of a phase"
        if i == 0 and cfg.phases and r2.random() < 0.2:
            p.cycle = cfg.cycles and r2.random() < 0.5
            if cfg.gates and r2.random() < 0.7:
                p.gate = nm.new()
        elif p.gate and i > 1 and r2.random() < 0.15:
            p.gate = r2.choice([q.gate for q in ph[:i + 1] if q.gate])
        if p.cycle and p.info is not None and p.uid and p.gate:
            p.info = None        # the grammar of cycles has no commas there
    for p in ph:
        for _ in range(rng.randint(1, 4)):
            if leaf:
                p.actions.append(rng.choice(leaf))
    for i in range(1, len(ph)):
        parent = ph[rng.randrange(i)]
        parent.actions.insert(rng.randint(0, len(parent.actions)), ph[i].name)
        if cfg.phase_reuse and rng.random() < cfg.phase_reuse:
            other = ph[rng.randrange(i)]
            other.actions.insert(rng.randint(0, len(other.actions)), ph[i].name)
    used = [a.lower() for p in ph for a in p.actions]
    for a in leaf:
        if a.lower() not in used and rng.random() < 0.7:
            rng.choice(ph).actions.append(a)
    for p in ph:
        if not p.actions:
            x = Pass(nm.new())
            s.passes.append(x)
            p.actions.append(x.name)
    s.phases = ph[:]
    if rng.random() < 0.5:
        rng.shuffle(s.phases)
    acts = [a.lower() for p in ph for a in p.actions]
    for a in set(acts):
        if rng.random() < cfg.inline:
            s.inline.add(a)
    s.inline = set(sorted(s.inline))
    if cfg.lifetimes:
        add_lifetimes(rng, s, cfg)
    if rng.random() < 0.5:
        s.order = rng.randrange(1 << 30)
    return s


def add_set_attrs(rng, s, nm, cfg):
    """give node sets that are plain unions attributes; members may repeat them as constructor arguments"""
    import ag

    def plain(e):
        return e[0] == "lit" or (e[0] == "ref" and plain(s.nodeset(e[1]).expr)) or (e[0] == "|" and plain(e[1]) and plain(e[2]))
    if cfg.sets[1] and len(s.nodes) > 3 and rng.random() < 0.3:       # two disjoint unions, whose attributes can share a name
        pick = [n.name for n in rng.sample(s.nodes, rng.randint(2, min(6, len(s.nodes))))]
        k = rng.randint(1, len(pick) - 1)
        s.nodesets += [NodeSet(nm.new(), ("lit", p), rng.random() < 0.8) for p in (pick[:k], pick[k:])]
    users = {}       # name of a set attribute -> all members it belongs to
    for x in s.nodesets:
        if plain(x.expr) and rng.random() < cfg.set_attrs:
            for _ in range(rng.choice([1, 1, 2, 3])):
                mem = set(s.eval(x.expr))
                same = sorted(k for k, v in users.items() if not v & mem)
                a = gen_attr(rng, s, nm, cfg, rng.choice(same) if same and rng.random() < 0.6 else nm.new(False), False)
                users.setdefault(a.name, set()).update(mem)
                x.attrs.append(a)
                for m in sorted(s.eval(x.expr)):
                    n = s.node(m)
                    if rng.random() < 0.2:
                        b = Attr(a.name, a.type, a.ref, True)
                        n.attrs.insert(rng.randint(0, len(n.attrs)), b)
    ag.propagate(s)


def rand_target(rng, s, acts):
    """a lifetime reference (list of names) and its meaning, or None"""
    a = rng.choice(acts[1:])
    path = a[2][1:]
    k = rng.randint(1, len(path))
    obj = a[3]
    names = path[-k:]
    # use uids now and then
    out = []
    for x in names:
        o = s.phase(x) or s.pas(x) or s.trav(x)
        if getattr(o, "uid", None) and rng.random() < 0.4:
            x = o.uid
        out.append(x)
    return out


def resolve(s, names):
    """documented meaning: each name is the first encounter, depth first, inside what the previous one named.
    Returns (id, next id) or None."""
    def match(o, n):
        return o.name.lower() == n.lower() or (getattr(o, "uid", None) or "").lower() == n.lower()
    acts = s.actions()
    lo, hi = 2, acts[0][4]
    cur = None
    for n in names:
        if cur is not None:
            if not isinstance(cur[3], Phase):
                return None
            lo, hi = cur[0] + 1, cur[4]
        cur = next((a for a in acts if lo <= a[0] < hi and match(a[3], n)), None)
        if cur is None:
            return None
    return cur[0], cur[4]


def add_lifetimes(rng, s, cfg):
    acts = s.actions()
    if len(acts) < 2:
        return

    def rnd(kinds, bare_kinds):
        k = rng.choice(kinds)
        if k in bare_kinds and rng.random() < 0.12:
            return Lt(k)
        b = (rng.random() < 0.5, rand_target(rng, s, acts)) if rng.random() < 0.75 else None
        e = (rng.random() < 0.5, rand_target(rng, s, acts)) if rng.random() < 0.75 else None
        if b and e:
            rb, re_ = resolve(s, b[1]), resolve(s, e[1])
            if rb and re_ and rb[0] > re_[0]:
                b, e = (b[0], e[1]), (e[0], b[1])
        return Lt(k, b, e, bare=False)

    def many(kinds, bare):
        return [rnd(kinds, bare) for _ in range(rng.choice([1, 1, 2]))]
    ck = ["disallowed", "allowed", "mandatory", "optional"]
    for n in s.nodes:
        if not n.root and rng.random() < 0.35:
            n.lifetimes = many(["disallowed", "allowed"], ["disallowed"])
        for c in n.children:
            if rng.random() < 0.35:
                c.lifetimes += many(ck, ["mandatory", "disallowed"])
        for a in n.attrs:
            if a.type in ("string", "link") and not a.prop and rng.random() < 0.4:
                a.lifetimes = [rnd(ck, ["mandatory", "disallowed"])] if True else []
