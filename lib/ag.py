"""Attribute grammars: random generation, exact circularity, C evaluation functions and an on-demand evaluator."""
import itertools, os, random, re
import spec as S
from spec import Attr, Child, Eq, Lt, Node, NodeSet
import cgen

AGT = ["int"] * 5 + ["int64"] * 3 + ["uint16", "bool", "double", "float", "int8", "string", "string", "enum", "link"]


def is_ag(a):
    return a.kind in ("syn", "inh")


# ------------------------------------------------------------------ node set attributes

def refs(e):
    return {e[1].lower()} if e[0] == "ref" else set() if e[0] == "lit" else refs(e[1]) | refs(e[2])


def supersets(s, x):
    """the node sets of which set x is a (nested) member, itself included"""
    out, todo = [], [x]
    while todo:
        y = todo.pop()
        if y in out:
            continue
        out.append(y)
        todo += [z for z in s.nodesets if y.name.lower() in refs(z.expr)]
    return out


def set_attrs(s, x):
    """all attributes of a node set: its own and those of the sets it belongs to"""
    return [a for y in supersets(s, x) for a in y.attrs]


def type_attrs(s, t):
    n = s.node(t)
    return n.attrs if n else set_attrs(s, s.nodeset(t))


def propagate(s):
    """give every member the attributes of its sets (marked prop); a repeated one stays as declared"""
    for x in s.nodesets:
        for m in sorted(s.eval(x.expr)):
            n = s.node(m)
            for a in x.attrs:
                if not n.attr(a.name):
                    b = Attr(a.name, a.type, a.ref, False, a.kind)
                    b.prop = True
                    n.attrs.insert(0, b)


# ------------------------------------------------------------------ generation

class AgCfg:
    def __init__(self, **kw):
        d = dict(mode="L", nodes=(2, 6), children=(0, 3), inh=(0, 3), syn=(0, 3), families=(0, 2), famsize=3, overlap=0.3, mandatory=0.3,
                 deps=(0, 3), types=None, p_set_child=0.6, classic_dep=0.3, chain=0.4, nest=(1, 1, 2, 3), bare=0.1, extra_syn=0.4, set_classic=0.3, repeat=0.3,
                 nclassic=(1, 1), cltypes=["int", "string", "int64", "bool", "link"], inner_classic=0.0, overlaps=(1, 1), overlap_classic=0.0,
                 child_inh_dep=0.15, user=False, stages=2, force=False, sparse=0.15)
        d.update(kw)
        self.__dict__.update(d)


def ri(rng, t):
    return rng.randint(*t)


def base_cfg(**kw):
    d = dict(nodes=(2, 6), sets=(0, 0), children=(0, 0), attrs=(0, 3), travs=(0, 1), passes=(1, 1), phases=(0, 0), enums=(0, 1), user=False,
             links=True, inline=0.0, uid=0.2, info=0.1)
    d.update(kw)
    return S.Cfg(**d)


def gen(seed, cfg):
    """a specification with an attribute grammar"""
    rng = random.Random(seed * 7 + 3)
    s = S.gen_spec(seed, base_cfg(nodes=cfg.nodes))
    nm = S.Names(rng)
    nm.used = {x.name.lower() for l in (s.nodes, s.nodesets, s.travs, s.passes, s.phases, s.enums) for x in l}
    nm.used |= {p.gate.lower() for p in s.phases if p.gate}
    nm.used |= {f.name.lower() for n in s.nodes for f in n.attrs} | {t.uid.lower() for t in s.travs}
    nm.used |= {p.uid.lower() for p in s.passes + s.phases if p.uid} | {p.func.lower() for p in s.passes if p.func}
    for a in [a for n in s.nodes for a in n.attrs]:
        nm.used.add(a.name.lower())

    def at(kind, types=None):
        t = rng.choice(types or cfg.types or AGT)
        ref = None
        if t == "enum":
            if s.enums:
                ref = rng.choice(s.enums).name
            else:
                t = "int"
        if t == "link":
            ref = rng.choice(s.nodes).name
        if t == "user":
            if not s.user_types:
                s.user_types.append((nm.new(), rng.choice(["long", "void *", "double", "unsigned char", "const char *"])))
            ref = rng.choice(s.user_types)[0]
        return Attr(nm.new(), t, ref, False, kind)

    others = [n for n in s.nodes if not n.root]
    rng.shuffle(others)
    # families: disjoint groups of nodes under one top set that may hold inherited attributes
    fams = []
    for _ in range(ri(rng, cfg.families)):
        k = min(len(others), rng.randint(1, cfg.famsize) + rng.choice([0, 0, 0, 1, 3]))
        if k == 0:
            break
        mem, others = others[:k], others[k:]
        names = [m.name for m in mem]
        inner = []
        if k > 1 and rng.random() < cfg.chain:
            # nested sets: each contains the one before, the top contains the last and sometimes others again
            def union(parts):
                rng.shuffle(parts)
                e = parts[0]
                for p in parts[1:]:
                    e = ("|", e, p)
                return e
            cut = sorted(rng.sample(range(1, k), min(k - 1, rng.choice(cfg.nest))))
            lo = 0
            for j in cut:
                parts = [("lit", names[lo:j])] if j > lo else []
                if inner:
                    parts.append(("ref", inner[-1].name))
                    if len(inner) > 1 and rng.random() < 0.3:
                        parts.append(("ref", rng.choice(inner[:-1]).name))
                lo = j
                inner.append(NodeSet(nm.new(), union(parts), rng.random() < 0.5))
            parts = [("lit", names[lo:]), ("ref", inner[-1].name)]
            if len(inner) > 1 and rng.random() < 0.3:
                parts.append(("ref", rng.choice(inner[:-1]).name))
            top = NodeSet(nm.new(), union(parts), True)
        elif k > 1 and rng.random() < 0.3:
            j = rng.randint(1, k - 1)
            top = NodeSet(nm.new(), ("|", ("lit", names[:j]), ("lit", names[j:])), True)
        else:
            top = NodeSet(nm.new(), ("lit", names), True)
        fams.append((top, inner, mem))
        fam = [top] + inner
        if rng.random() < 0.6:
            rng.shuffle(fam)
        s.nodesets += fam
    fam_members = {m.name for f in fams for m in f[2]}
    free = [n for n in s.nodes if n.name not in fam_members]
    # attributes
    sparse = rng.random() < cfg.sparse     # few types have attributes, the others are only on the way to them
    for top, inner, mem in fams:
        if sparse:
            rng.choice(mem).attrs += [at("syn") for _ in range(rng.randint(1, 2))]
            continue
        top.attrs = [at("inh") for _ in range(ri(rng, cfg.inh))] + [at("syn") for _ in range(ri(rng, cfg.syn))]
        rng.shuffle(top.attrs)
        if rng.random() < cfg.set_classic:
            top.attrs += [at("classic", cfg.cltypes) for _ in range(ri(rng, cfg.nclassic))]
        for x in inner:
            if rng.random() < cfg.bare:
                continue
            if rng.random() < cfg.inner_classic:
                x.attrs = [at("classic", cfg.cltypes) for _ in range(ri(rng, cfg.nclassic))]
                x.long = True
            if rng.random() < cfg.extra_syn:
                x.attrs += [at("syn") for _ in range(ri(rng, (1, 2)))]
                x.long = True
        for m in mem:
            if rng.random() < cfg.extra_syn:
                m.attrs += [at("syn") for _ in range(rng.randint(1, 2))]
            for a in [a for y in [top] + inner if m.name.lower() in s.eval(y.expr) for a in y.attrs]:
                if a.kind == "classic" and rng.random() < cfg.repeat:
                    m.attrs.append(Attr(a.name, a.type, a.ref, True))
    for _ in range(ri(rng, cfg.overlaps)):
        if rng.random() >= cfg.overlap:
            break
        k = rng.randint(1, min(3, len(s.nodes)))
        x = NodeSet(nm.new(), ("lit", [n.name for n in rng.sample(s.nodes, k)]), True)
        x.attrs = [at("syn") for _ in range(rng.randint(1, 2))]
        if rng.random() < cfg.overlap_classic:
            x.attrs += [at("classic", cfg.cltypes) for _ in range(ri(rng, cfg.nclassic))]
        x.free = True
        s.nodesets.append(x)
    for n in free:
        if sparse and rng.random() < 0.7:
            continue
        own = [at("syn") for _ in range(ri(rng, cfg.syn))]
        if not n.root:
            own += [at("inh") for _ in range(ri(rng, cfg.inh))]
        rng.shuffle(own)
        n.attrs += own
    propagate(s)
    for x in s.nodesets:
        if rng.random() < 0.2:
            rng.shuffle(x.attrs)
    # children: a set may only be used where it provides all inherited attributes of its members
    usable = [n.name for n in s.nodes]
    for x in s.nodesets:
        need = {a.name for m in s.eval(x.expr) for a in s.node(m).attrs if a.kind == "inh"}
        have = {a.name for a in set_attrs(s, x) if a.kind == "inh"}
        if need <= have:
            usable.append(x.name)
    setn = [u for u in usable if s.nodeset(u)]
    for n in s.nodes:
        used = {a.name.lower() for a in n.attrs}
        for _ in range(ri(rng, cfg.children)):
            t = rng.choice(setn) if setn and rng.random() < cfg.p_set_child else rng.choice(usable)
            while True:
                w = nm.raw()
                if w not in used and w not in S.RESERVED and w not in ("this",):
                    used.add(w)
                    break
            c = Child(w, t, rng.random() < 0.5)
            if rng.random() < cfg.mandatory:
                c.lifetimes.append(Lt("mandatory"))
            n.children.append(c)
        rng.shuffle(n.children)
    # every type must have finite trees
    while True:
        h = heights(s)
        bad = [n for n in s.nodes if n.name.lower() not in h]
        if not bad:
            break
        cs = [c for n in bad for c in n.children if c.mandatory]
        rng.choice(cs).lifetimes = []
    equations(rng, s, cfg)
    return s


def heights(s):
    """height of the lowest tree of each type that has one"""
    h = {}
    changed = True
    while changed:
        changed = False
        for n in s.nodes:
            k = 0
            for c in n.children:
                if c.mandatory:
                    m = [h[x] for x in s.members(c.type) if x in h]
                    k = max(k, min(m) + 1) if m and k is not None else None
                    if k is None:
                        break
            if k is not None and h.get(n.name.lower(), 1 << 30) > k:
                h[n.name.lower()] = k
                changed = True
    return h


def equations(rng, s, cfg):
    """the dependencies"""
    mode = cfg.mode
    # attributes of one node depend on each other in the same direction everywhere
    key = {a: rng.random() for a in sorted({a.name.lower() for x in s.nodes + s.nodesets for a in x.attrs})}
    for n in s.nodes:
        this_inh = [(None, a.name) for a in n.attrs if a.kind == "inh"]
        this_cl = [(None, a.name) for a in n.attrs if a.kind == "classic"]
        this_syn = [(None, a.name) for a in n.attrs if a.kind == "syn"]
        ca = {c.name: type_attrs(s, c.type) for c in n.children}
        eqs = []

        def pickdeps(pool):
            pool = list(dict.fromkeys(pool))
            k = min(len(pool), ri(rng, cfg.deps))
            d = rng.sample(pool, k)
            if this_cl and rng.random() < cfg.classic_dep:
                d.append(rng.choice(this_cl))
            elif n.children and rng.random() < cfg.classic_dep / 2:
                c = rng.choice(n.children)
                cl = [(c.name, a.name) for a in ca[c.name] if a.kind == "classic"]
                if cl:
                    d.append(rng.choice(cl))
            d = list(dict.fromkeys(d))
            rng.shuffle(d)
            return d
        if mode == "L":
            order = list(n.children)
            rng.shuffle(order)      # any fixed order of the children
            avail = list(this_inh)
            for c in order:
                inh = [a for a in ca[c.name] if a.kind == "inh"]
                inh.sort(key=lambda a: key[a.name.lower()])
                mine = []
                for a in inh:
                    pool = avail + (mine if rng.random() < cfg.child_inh_dep else [])
                    eqs.append(Eq((c.name, a.name), pickdeps(pool)))
                    mine.append((c.name, a.name))
                avail += [(c.name, a.name) for a in ca[c.name] if a.kind == "syn"]
                if rng.random() < cfg.child_inh_dep:
                    avail += mine
            syn = sorted(this_syn, key=lambda x: key[x[1].lower()])
            done = []
            for t in syn:
                eqs.append(Eq(t, pickdeps(avail + done)))
                done.append(t)
        elif mode == "M":
            # several visits: the attributes of every type belong to stages (inherited, then synthesized), the stages
            # of the children are interleaved in any way with those of the parent, and everything depends on what is
            # earlier; with cfg.force every stage depends on the stage before, which leaves one order only
            st = {x: int(key[x] * 1e6) % cfg.stages for x in key}
            ev = [(k, kind) for k in range(cfg.stages) for kind in ("inh", "syn")]
            line = [(None,) + e for e in ev]
            for c in n.children:
                pos = sorted(rng.randint(1, len(line) - (0 if n.root else 1)) for _ in range(cfg.stages))
                for k in range(cfg.stages - 1, -1, -1):
                    line.insert(pos[k], (c.name, k, "both"))
            have = []
            seen = {None: [[], []]}
            seen.update({c.name: [[], []] for c in n.children})

            def stage(who, k, kind):
                pool = ([(None, a.name) for a in n.attrs if a.kind == kind and st[a.name.lower()] == k] if who is None else
                        [(who, a.name) for a in ca[who] if a.kind == kind and st[a.name.lower()] == k])
                pool.sort(key=lambda x: key[x[1].lower()])
                mine = kind == ("syn" if who is None else "inh")
                before = list(have)
                for t in pool:
                    if mine:
                        deps = pickdeps(before)
                        last = [x for x in seen[who][kind == "inh"]]
                        if cfg.force and last:
                            deps = list(dict.fromkeys(deps + last))
                            rng.shuffle(deps)
                        eqs.append(Eq(t, deps))
                if pool:
                    seen[who][kind == "syn"] = pool
                have.extend(pool)
            for who, k, kind in line:
                for x in (["inh", "syn"] if kind == "both" else [kind]):
                    stage(who, k, x)
        else:
            pool = this_inh + this_syn + [(c.name, a.name) for c in n.children for a in ca[c.name] if is_ag(a)]
            for c in n.children:
                for a in ca[c.name]:
                    if a.kind == "inh":
                        eqs.append(Eq((c.name, a.name), pickdeps([p for p in pool if p != (c.name, a.name)])))
            for t in this_syn:
                eqs.append(Eq(t, pickdeps([p for p in pool if p != t])))
        rng.shuffle(eqs)
        n.eqs = eqs
        for e in eqs:
            if not e.deps and rng.random() < 0.3:
                e.deps = None       # the short form


# ------------------------------------------------------------------ circularity

def productive_graphs(s, limit=400):
    """{node name: set of frozenset of (inh, syn) pairs}: dependencies of synthesized on inherited attributes that some
    sub-tree makes. Second result: nodes with a circular production, or None if the limit was exceeded"""
    G = {n.name.lower(): set() for n in s.nodes}
    circ = {}
    changed = True
    while changed:
        changed = False
        for n in s.nodes:
            choices = []
            for c in n.children:
                o = [] if c.mandatory else [None]
                for m in sorted(s.members(c.type)):
                    o += [(m, g) for g in G[m]]
                choices.append(list(dict.fromkeys((x if x is None else x[1]) for x in o)) if o else [])
            if any(not o for o in choices):
                continue
            k = 1
            for o in choices:
                k *= len(o)
            if k > limit:
                return None, None
            for combo in itertools.product(*choices):
                present = {c.name: g for c, g in zip(n.children, combo)}
                edges = {}
                for e in n.eqs:
                    if e.target[0] is not None and present[e.target[0]] is None:
                        continue
                    for d in e.deps or []:
                        if d[0] is not None and present[d[0]] is None:
                            continue
                        edges.setdefault((d[0], d[1].lower()), set()).add((e.target[0], e.target[1].lower()))
                for c, g in present.items():
                    if g is not None:
                        for i, y in g:
                            edges.setdefault((c, i), set()).add((c, y))
                reach = {}
                cyc = False
                for v in list(edges):
                    seen, todo = set(), [v]
                    while todo:
                        for x in edges.get(todo.pop(), ()):
                            if x not in seen:
                                seen.add(x)
                                todo.append(x)
                    reach[v] = seen
                    if v in seen:
                        cyc = True
                if cyc:
                    circ[n.name.lower()] = True
                io = frozenset((a.name.lower(), x[1]) for a in n.attrs if a.kind == "inh"
                               for x in reach.get((None, a.name.lower()), ()) if x[0] is None and n.attr(x[1]).kind == "syn")
                if io not in G[n.name.lower()]:
                    G[n.name.lower()].add(io)
                    changed = True
    return G, circ


def circular(s):
    """True, False, or None (unknown). Only productions that a complete tree under the root can contain count."""
    G, circ = productive_graphs(s)
    if G is None:
        return None
    reach, todo = set(), [s.root.name.lower()]
    while todo:
        x = todo.pop()
        if x in reach or not G[x]:
            continue
        reach.add(x)
        for c in s.node(x).children:
            todo += list(s.members(c.type))
    return any(x in reach for x in circ)


# ------------------------------------------------------------------ C side

def eq_list(s):
    return [(n, e) for n in s.nodes for e in n.eqs]


def attr_of(s, n, ref):
    if ref[0] is None:
        return n.attr(ref[1])
    t = n.child(ref[0]).type
    return next(a for a in type_attrs(s, t) if a.name.lower() == ref[1].lower())


def protos(gen_dir):
    """names of the evaluation functions declared by the generated headers"""
    out = set()
    d = os.path.join(gen_dir, "ccngen")
    for top, _, fs in os.walk(d):
        for f in fs:
            if "equation" in os.path.join(top, f):
                out |= set(re.findall(r"\b(EVAL\w+)\s*\(", open(os.path.join(top, f)).read()))
    return out


class Missing(Exception):
    pass


def ev(s):
    return eqs_c, (lambda sim, m: evaluate(sim, m))


def eqs_c(s, gen_dir):
    """definitions of all evaluation functions"""
    have = protos(gen_dir)
    o = ['#include "ccngen/equation.h"']
    ids = {}
    for i, (n, e) in enumerate(eq_list(s)):
        base = "EVAL%s_%s_%s" % (n.name.lower(), (e.target[0] or "this").lower(), e.target[1].lower())
        opt = []
        for d in e.deps or []:
            if d[0] is not None and not n.child(d[0]).mandatory and d[0] not in opt:
                opt.append(d[0])
        ta = attr_of(s, n, e.target)
        for r in range(len(opt) + 1):
            for null in itertools.combinations(opt, r):
                name = None
                for p in itertools.permutations(null):
                    c = base + "".join("_%s_NULL" % x.lower() for x in p)
                    if c in have:
                        name = c
                if name is None:
                    raise Missing("no evaluation function for %s.%s of node %s with absent children (%s)" % (
                        e.target[0] or "this", e.target[1], n.name, ", ".join(null)))
                args = [d for d in e.deps or [] if d[0] not in null]
                par, body = [], []
                link = "NULL"
                for k, d in enumerate(args):
                    a = attr_of(s, n, d)
                    par.append("%s a%d" % (cgen.ctype(s, a), k))
                    body.append(('rt_put(","); ' if k else "") + cgen.log_c(s, a, "a%d" % k))
                    if a.type == "link" and link == "NULL":
                        link = "a%d" % k
                mask = sum(1 << opt.index(x) for x in null)
                o.append("%s %s(%s) {" % (cgen.ctype(s, ta), name, ", ".join(par) or "void"))
                o.append('    rt_eq_begin(%d, %d); %s int64_t v = rt_eq_end(); (void)v;' % (i, mask, " ".join(body)))
                o.append("    return %s;\n}" % ("(char *)rt_cstr(v)" if ta.type == "string" else cgen.to_c(s, ta, "v", link)))
    return o


# ------------------------------------------------------------------ on-demand evaluation

def fnv(t):
    h = 0xcbf29ce484222325
    for c in t.encode("latin-1"):
        h = ((h ^ c) * 0x100000001b3) & ((1 << 64) - 1)
    return h - (1 << 64) if h >> 63 else h


class Cycle(Exception):
    pass


def evaluable(s, t):
    """can the evaluation start at a node of type t? it has no inherited attributes, and something to evaluate"""
    if any(a.kind == "inh" for a in s.node(t).attrs):
        return False
    seen, todo = set(), [t.lower()]
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        if any(is_ag(a) for a in s.node(x).attrs):
            return True
        for c in s.node(x).children:
            todo += list(s.members(c.type))
    return False


def evaluate(sim, root):
    """evaluate all attributes under root on demand; logs required (E) and tolerated (?E) calls"""
    import model
    s = sim.s
    if not evaluable(s, s.nodes[root.t].name):
        sim.stat("refused evaluations")
        raise model.Exit(1, ("evaluation refused",))
    number = {(n.name.lower(), e.target[0], e.target[1].lower()): (i, e) for i, (n, e) in enumerate(eq_list(s))}
    parent = {}
    val = {}
    busy = set()

    def walk(x):
        yield x
        d = s.nodes[x.t]
        for i, c in enumerate(x.kids):
            if c is not None:
                parent[id(c)] = (x, d.children[i])
                yield from walk(c)

    nodes = list(walk(root))

    def get(x, name):
        d = s.nodes[x.t]
        a = d.attr(name)
        if not is_ag(a):
            return x.attrs[d.attrs.index(a)], a
        k = (id(x), name.lower())
        if k in val:
            return val[k], a
        if k in busy:
            raise Cycle()
        busy.add(k)
        if a.kind == "syn":
            v = call(x, None, a)
        else:
            p, c = parent[id(x)]
            v = call(p, c, a)
        busy.discard(k)
        val[k] = v
        x.attrs[d.attrs.index(a)] = v
        return v, a

    def call(x, c, a, prefix=""):
        d = s.nodes[x.t]
        i, e = number[(d.name.lower(), c.name if c else None, a.name.lower())]
        opt = []
        for q in e.deps or []:
            if q[0] is not None and not d.child(q[0]).mandatory and q[0] not in opt:
                opt.append(q[0])
        kid = lambda nme: x.kids[d.children.index(d.child(nme))]
        mask = sum(1 << k for k, q in enumerate(opt) if kid(q) is None)
        args, link = [], None
        haslink = False
        for q in e.deps or []:
            if q[0] is None:
                v, b = get(x, q[1])
            elif kid(q[0]) is None:
                if q[0] not in opt:
                    raise Cycle()       # a mandatory child is absent
                continue
            else:
                v, b = get(kid(q[0]), q[1])
            args.append(model.alog(s, b, v))
            if b.type == "link" and not haslink:
                link, haslink = v, True
        line = ("E %d %d %s" % (i, mask, ",".join(args))).rstrip()
        sim.log.append(prefix + line)
        sim.stat("equations" if not prefix else "optional equations")
        if mask:
            sim.stat("absent-child forms")
        return model.conv(s, a, fnv(line), link, owned=False)

    for x in nodes:
        for a in s.nodes[x.t].attrs:
            if is_ag(a) and (a.kind == "syn" or id(x) in parent):
                get(x, a.name)
    # equations for absent children have no effect that anybody can see: they may be called or not
    for x in nodes:
        d = s.nodes[x.t]
        for c, k in zip(d.children, x.kids):
            if k is None:
                for a in type_attrs(s, c.type):
                    if a.kind == "inh":
                        try:
                            call(x, c, a, "?")
                        except Cycle:
                            pass


# ------------------------------------------------------------------ verdicts of the generator

def reorder(s, rng):
    """the same grammar, with everything that has no meaning in another order"""
    import copy
    t = copy.deepcopy(s)
    for l in (t.nodes, t.nodesets):
        rng.shuffle(l)
    for n in t.nodes:
        for l in (n.attrs, n.children, n.eqs):
            rng.shuffle(l)
        for e in n.eqs:
            if e.deps:
                rng.shuffle(e.deps)
    for x in t.nodesets:
        rng.shuffle(x.attrs)
    t.order = rng.randrange(1 << 30)
    return t


def close_cycle(s, rng, tries=60):
    """add one dependency that makes the grammar circular; False if none was found"""
    pairs = []
    for n in s.nodes:
        pool = [(None, a.name) for a in n.attrs if is_ag(a)]
        pool += [(c.name, a.name) for c in n.children for a in type_attrs(s, c.type) if is_ag(a)]
        for e in n.eqs:
            for d in pool:
                if not any(x[0] == d[0] and x[1].lower() == d[1].lower() for x in e.deps or []):
                    pairs.append((e, d))
    rng.shuffle(pairs)
    for e, d in pairs[:tries]:
        old = e.deps
        e.deps = list(old or [])
        e.deps.insert(rng.randint(0, len(e.deps)), d)
        if circular(s) is True:
            return True
        e.deps = old
    return False
