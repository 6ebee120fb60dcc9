#!/usr/bin/env python3
"""C28: the diagrams and the printed tree and visit sequences agree with the specification"""
import os, random, re, shutil, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import ag, c21, common, spec as S


class Bad(Exception):
    pass


# ---------------------------------------------------------------- the specification

def low(x):
    return x.lower()


def decl(s, t):
    """the name as declared: names in a graph are case sensitive"""
    return (s.node(t) or s.nodeset(t)).name


def members(s, t):
    """the node types a child of type t can have"""
    n = s.node(t)
    return [low(n.name)] if n else sorted(low(x) for x in s.eval(s.nodeset(t).expr))


def aga(s, t):
    """{attribute: kind} of the attribute grammar of a node or node set"""
    return {low(a.name): a.kind for a in ag.type_attrs(s, t) if ag.is_ag(a)}


# ---------------------------------------------------------------- ast.dot

ID = r'"?([A-Za-z_]\w*)"?'
RESERVED = {"node", "edge", "graph", "digraph", "subgraph", "strict"}


def attrs_of(t):
    return dict((k, a or b) for k, a, b in re.findall(r'(\w+)\s*=\s*(?:"([^"]*)"|(\w+))', t))


def ast_dot(s, text):
    lines = [x.strip() for x in text.split("\n") if x.strip()]
    if not re.fullmatch(r"digraph\s+\w+\s*\{", lines[0]) or lines[-1] != "}":
        raise Bad("ast.dot does not have the form of a graph")
    nodes, edges = [], []
    for l in lines[1:-1]:
        for x in re.findall(r'"[^"]*"|\w+', re.sub(r"\[.*\]", "", l)):
            if x.lower() in RESERVED:
                raise Bad("ast.dot uses %s, a keyword of the graph language, as a name: %s" % (x, l))
        m = re.fullmatch(ID + r"\s*(\[.*\])?\s*;?", l)
        if m:
            nodes.append(m.group(1))
            continue
        m = re.fullmatch(ID + r"\s*->\s*" + ID + r"\s*(?:\[(.*)\])?\s*;?", l)
        if not m:
            raise Bad("ast.dot: line not understood: " + l)
        a = attrs_of(m.group(3) or "")
        edges.append((m.group(1), m.group(2), a.get("color"), low(a.get("label", ""))))
    want = [n.name for n in s.nodes] + [x.name for x in s.nodesets]
    if sorted(nodes) != sorted(want):
        raise Bad("ast.dot: nodes are %s, not %s" % (sorted(nodes), sorted(want)))
    we = []
    for n in s.nodes:
        we += [(n.name, decl(s, c.type), None, low(c.name)) for c in n.children]
        we += [(n.name, decl(s, a.ref), "red", low(a.name)) for a in n.attrs if a.type == "link"]
    for x in s.nodesets:
        we += [(x.name, decl(s, m), "blue", "") for m in s.eval(x.expr)]
    key = lambda e: tuple(str(y) for y in e)
    for e in edges:
        if e not in we:
            raise Bad("ast.dot: edge %s does not belong to the specification" % (e,))
    for e in we:
        if e not in edges:
            raise Bad("ast.dot: edge %s is missing" % (e,))
    if sorted(edges, key=key) != sorted(we, key=key):
        raise Bad("ast.dot: an edge is repeated: %s" % [e for e in edges if edges.count(e) > we.count(e)][:3])
    return len(nodes) + len(edges)


# ---------------------------------------------------------------- ag_dot

def ag_dot(s, text, part):
    """[(production, {cluster label: {attribute name: (id, partition)}}, [(id, id, dotted)])]"""
    out = []
    cur = None
    for l in text.split("\n"):
        l = l.strip()
        m = re.match(r"label=<Production of <B>(\w+)</B>>", l)
        if m:
            cur = (m.group(1), {}, [])
            out.append(cur)
            continue
        m = re.match(r"label=<<B>(\w+)</B>(?: (\w+))?>", l)
        if m:
            k = (low(m.group(1)), m.group(2) and low(m.group(2)))
            if k in cur[1]:
                raise Bad("production %s shows %s twice" % (cur[0], k))
            box = cur[1].setdefault(k, {})
            continue
        m = re.match(r"(\w+) \[label=<(\w+)(?: <I>(\w)<SUB>(\d+)</SUB></I>)?>\]", l)
        if m:
            v = (m.group(1), (m.group(3), int(m.group(4))) if m.group(3) else None)
            if box.get(low(m.group(2)), v) != v:
                raise Bad("production %s shows attribute %s of %s twice, differently" % (cur[0], m.group(2), k))
            box[low(m.group(2))] = v
            continue
        m = re.match(r"(\w+) -> (\w+)( \[style=\"dotted\"\])?;", l)
        if m:
            cur[2].append((m.group(1), m.group(2), bool(m.group(3))))
        elif "->" in l or "NaN" in l:
            raise Bad("line not understood: " + l)
    return out


def check_ag(s, text, part, parts):
    n = 0
    prods = ag_dot(s, text, part)
    names = [low(p[0]) for p in prods]
    for x in s.nodes:
        if names.count(low(x.name)) != 1:
            raise Bad("node %s has %d productions" % (x.name, names.count(low(x.name))))
    for x in s.nodesets:
        m = members(s, x.name)
        w = [low(x.name)] if len(m) == 1 else ["%s_%d" % (low(x.name), i + 1) for i in range(len(m))]
        got = [y for y in names if y == low(x.name) or re.fullmatch(re.escape(low(x.name)) + r"_\d+", y)]
        if sorted(got) != sorted(w):
            raise Bad("node set %s with %d members has the productions %s" % (x.name, len(m), got))
    for name, boxes, edges in prods:
        node = s.node(name)
        ids = {}
        for (t, c), box in boxes.items():
            # a member of a node set may be shown with the attributes of the set only
            if set(box) != set(aga(s, t)) and not (node is None and s.node(t) and set(box) < set(aga(s, t))):
                raise Bad("production %s, %s: attributes are %s, not %s" % (name, c or t, sorted(box), sorted(aga(s, t))))
            for a, (i, p) in box.items():
                if i in ids:
                    raise Bad("production %s: two attributes have the identity %s" % (name, i))
                ids[i] = (t, c, a)
                n += 1
                if part:
                    if p is None:
                        raise Bad("attribute %s of %s has no partition" % (a, t))
                    if (p[0] == "I") != (aga(s, t)[a] == "inh"):
                        raise Bad("attribute %s of %s is shown as %s%d" % (a, t, p[0], p[1]))
                    if parts.setdefault((t, a), p) != p:
                        raise Bad("attribute %s of %s is in partition %s%d and in %s%d" % ((a, t) + p + parts[t, a]))
        if node:
            want = {(low(node.name), None): 1 for _ in [0] if aga(s, name)}
            want.update({(low(c.type), low(c.name)): 1 for c in node.children if aga(s, c.type)})
            if set(want) != set(boxes):
                raise Bad("production %s: shows %s, not %s" % (name, sorted(map(str, boxes)), sorted(map(str, want))))
        for a, b, d in edges:
            if a not in ids or b not in ids:
                raise Bad("production %s: edge %s -> %s between unknown attributes" % (name, a, b))
        if node:
            kinds = {(None, low(a.name)) for a in node.attrs if ag.is_ag(a)}
            kinds |= {(low(c.name), a) for c in node.children for a in aga(s, c.type)}
            want = set()
            for e in node.eqs:
                t = (e.target[0] and low(e.target[0]), low(e.target[1]))
                for d in e.deps or []:
                    d = (d[0] and low(d[0]), low(d[1]))
                    if d in kinds:
                        want.add((d, t))
            got = {(ids[a][1:], ids[b][1:]) for a, b, d in edges if not d}
            if got != want:
                raise Bad("production %s: dependencies shown and not in the equations: %s; missing: %s" % (name, sorted(map(str, got - want))[:3], sorted(map(str, want - got))[:3]))
            n += len(got)
        if part:
            for a, b, d in edges:
                (t, c, x), (t2, c2, y) = ids[a], ids[b]
                if (t, c) == (t2, c2):
                    p, q = parts[t, x], parts[t, y]
                    if 2 * p[1] + (p[0] == "S") > 2 * q[1] + (q[0] == "S"):
                        raise Bad("production %s: %s.%s in %s%d depends on %s in %s%d" % ((name, c or t, y) + q + (x,) + p))
    return n


# ---------------------------------------------------------------- the printed tree

def parse_show(out):
    """[(kind, name, {section: lines})] of nodes and node sets, the visits of a node under 'Visits'"""
    res = []
    lines = out.split("\n")
    i = 0
    cur = sec = None
    reach = []
    while i < len(lines):
        l = lines[i]
        m = re.match(r"NODE: (\w+)\((\d+)\) \{", l) or re.match(r"nodeset (\w+) (\(illegal attr setexpr\) )?\{", l)
        if m:
            cur = {"Members": []}
            res.append(("node" if l.startswith("NODE") else "set", m.group(1), cur, int(m.group(2)) if l.startswith("NODE") else None))
            sec = "Members"
        elif re.match(r"    (Children|Attributes|Equations|Child nodesets) \{", l):
            sec = l.strip()[:-2]
            cur[sec] = []
        elif l.startswith("Visits {"):
            sec = "Visits"
            cur[sec] = []
        elif l.startswith("Reachability"):
            while i + 1 < len(lines) and re.match(r"\d+: ", lines[i + 1]):
                i += 1
                reach.append([int(x) for x in re.findall(r"-?\d+", lines[i].split(":", 1)[1])])
            cur = None
        elif re.match(r"(STE|Phase|Pass|Trav)\b", l):
            cur = None
        elif cur is not None and l.strip():
            cur[sec].append(l.rstrip())
        i += 1
    return res, reach


def ref(t):
    m = re.fullmatch(r"(?:<this>|(\w+)(?:<(\w+)>)?)\.(\w+)", t.strip())
    if not m:
        raise Bad("reference not understood: %r" % t)
    return (m.group(1) and low(m.group(1)), low(m.group(3)))


def reflist(t):
    return [ref(x) for x in t.split(",") if x.strip()]


def visits_of(lines):
    out = []
    for l in lines:
        m = re.match(r"\s+(\w+)_(\d+) \(in: \{(.*)\} out: \{(.*)\}\) \{", l)
        if m:
            out.append((m.group(1), int(m.group(2)), reflist(m.group(3)), reflist(m.group(4)), []))
            more = False
            continue
        t = l.strip()
        if t == "}":
            continue
        m = re.fullmatch(r"eval (\S+)", t)
        if m:
            out[-1][4].append(("eval", ref(m.group(1))))
            continue
        cont = t.endswith(" or")
        t = t[:-3] if cont else t
        m = re.fullmatch(r"visit (\w+) (\w+)_(\d+)", t)
        d = re.fullmatch(r"<dummy visit for (\w+)>", t)
        if not m and not d:
            raise Bad("visit sequence: line not understood: " + l)
        if not more:
            out[-1][4].append(("visit", []))
        out[-1][4][-1][1].append((low(m.group(1)), low(m.group(2)), int(m.group(3))) if m else (None, low(d.group(1)), 0))
        more = cont
    return out


def check_show(s, text, parts):
    res, reach = parse_show(text)
    names = [(k, n) for k, n, _, _ in res]
    want = [("node", n.name) for n in s.nodes] + [("set", x.name) for x in s.nodesets]
    if sorted(names) != sorted(want):
        raise Bad("printed: %s, specified: %s" % (sorted(names), sorted(want)))
    allv = {}
    count = 0
    for kind, name, sec, idx in res:
        attrs = [re.match(r"\s+(.+?) (\w+) \{(.*)$", l) for l in sec["Attributes"]]
        got = []
        for l in sec["Attributes"]:
            m = re.match(r"        (\S+) (\w+) \{(\w+)?(?:, (\w+))?", l)
            if m:
                got.append((low(m.group(1)), low(m.group(2)), m.group(3) == "constructor", "synthesized" in l, "inherited" in l))
        x = s.node(name) if kind == "node" else s.nodeset(name)
        wa = []
        for a in (x.attrs if kind == "node" else []):
            wa.append((low(a.ref or a.type), low(a.name), a.ctor, a.kind == "syn", a.kind == "inh"))
        if kind == "node" and sorted(got) != sorted(wa):
            raise Bad("node %s: attributes printed: %s, specified: %s" % (name, [y for y in got if y not in wa], [y for y in wa if y not in got]))
        count += len(got)
        if kind == "set":
            m = [low(l.strip()) for l in sec["Members"] if l.strip() != "}"]
            if sorted(m) != members(s, name):
                raise Bad("node set %s: members printed: %s, specified: %s" % (name, sorted(m), members(s, name)))
            continue
        ch = [low(l.strip()) for l in sec["Children"] if l.strip() != "}"]
        if ch != [low(c.name) for c in x.children]:
            raise Bad("node %s: children printed: %s" % (name, ch))
        body = "\n".join(sec["Equations"])
        eqs = [(ref(t), reflist(a)) for t, a in re.findall(r"(\S+) = \{\s+args = \{(.*)\}", body)]
        we = [((e.target[0] and low(e.target[0]), low(e.target[1])), [(d[0] and low(d[0]), low(d[1])) for d in e.deps or []]) for e in x.eqs]
        if sorted(map(str, eqs)) != sorted(map(str, we)):
            raise Bad("node %s: equations printed and not specified: %s" % (name, [y for y in eqs if y not in we][:2]))
        allv[low(name)] = visits_of(sec["Visits"])
    for n in s.nodes:
        count += check_visits(s, n, allv, parts)
    if s.travs:
        order = {i: low(name) for k, name, _, i in res if k == "node"}
        travs = {int(i): low(t) for t, i in re.findall(r"^Trav (\w+) \{\s+Traversal index: (\d+)", text, re.M)}
        check_reach(s, reach, order, travs)
    return count


def check_visits(s, n, allv, parts):
    """every attribute is computed exactly once, after what it depends on; inputs before, outputs after the visit"""
    vs = allv[low(n.name)]
    eqs = {(e.target[0] and low(e.target[0]), low(e.target[1])): [(d[0] and low(d[0]), low(d[1])) for d in e.deps or []] for e in n.eqs}
    types = {low(c.name): members(s, c.type) for c in n.children}
    known = {(None, low(a.name)) for a in n.attrs if not ag.is_ag(a)}
    known |= {(low(c.name), low(a.name)) for c in n.children for a in ag.type_attrs(s, c.type) if not ag.is_ag(a)}
    done = {}
    ins, outs = [], []
    count = 0
    where = lambda v: "node %s, visit %d: " % (n.name, v[1])
    for k, v in enumerate(vs):
        if v[0] != low(n.name) or v[1] != k + 1:
            raise Bad("node %s: visit %s_%d is number %d" % (n.name, v[0], v[1], k + 1))
        ins += v[2]
        outs += v[3]
        known |= set(v[2])
        for what, x in v[4]:
            if what == "eval":
                if x not in eqs:
                    raise Bad(where(v) + "%s is evaluated without an equation" % (x,))
                if x in known:
                    raise Bad(where(v) + "%s is evaluated twice" % (x,))
                for d in eqs[x]:
                    if d not in known:
                        raise Bad(where(v) + "%s is evaluated before %s" % (x, d))
                known.add(x)
                count += 1
                continue
            cs = {c for c, t, i in x if c}
            if len(cs) != 1:
                raise Bad(where(v) + "a visit of the children %s" % sorted(cs))
            c = cs.pop()
            if sorted({t for _, t, _ in x}) != types[c]:
                raise Bad(where(v) + "visit of %s handles the types %s, not %s" % (c, sorted({t for _, t, _ in x}), types[c]))
            for _, t, i in x:
                if i == 0:
                    continue
                if i != done.get((c, t), 0) + 1:
                    raise Bad(where(v) + "visit %d of %s as %s follows visit %d" % (i, c, t, done.get((c, t), 0)))
                done[c, t] = i
                for _, a in allv[t][i - 1][2]:
                    if (c, a) not in known:
                        raise Bad(where(v) + "visit %d of %s as %s before its attribute %s is known" % (i, c, t, a))
                count += 1
            have = None
            for t in types[c]:
                o = {a for j in range(done.get((c, t), 0)) for _, a in allv[t][j][3]}
                have = o if have is None else have & o
            known |= {(c, a) for a in have or ()}
        for o in v[3]:
            if o not in known:
                raise Bad(where(v) + "output %s is not computed" % (o,))
    for x in eqs:
        if x not in known:
            raise Bad("node %s: %s is never evaluated" % (n.name, x))
    for c in n.children:
        for t in types[low(c.name)]:
            if done.get((low(c.name), t), 0) != len(allv[t]) and aga(s, t):
                raise Bad("node %s: %d of the %d visits of %s as %s happen" % (n.name, done.get((low(c.name), t), 0), len(allv[t]), c.name, t))
    a = aga(s, n.name)
    if sorted(x[1] for x in ins) != sorted(k for k in a if a[k] == "inh") or sorted(x[1] for x in outs) != sorted(k for k in a if a[k] == "syn"):
        raise Bad("node %s: inputs %s and outputs %s of the visits, attributes %s" % (n.name, ins, outs, a))
    for v in vs:
        for _, x in v[2] + v[3]:
            if parts and parts[low(n.name), x] != ("I" if a[x] == "inh" else "S", v[1]):
                raise Bad("node %s: %s belongs to visit %d and to partition %s%d" % ((n.name, x, v[1]) + parts[low(n.name), x]))
    return count


def check_reach(s, reach, order, travs):
    """a row per traversal: 0 for the nodes with no target in any sub-tree"""
    kids = {low(n.name): {m for c in n.children for m in members(s, c.type)} for n in s.nodes}
    if len(reach) != len(s.travs):
        raise Bad("%d rows of reachability for %d traversals" % (len(reach), len(s.travs)))
    for i, row in enumerate(reach):
        t = [x for x in s.travs if low(x.name) == travs[i]][0]
        if t.expr is None:
            want = set(kids)
        else:
            want = {low(x) for x in s.eval(t.expr)}
            while True:
                more = {k for k in kids if k not in want and kids[k] & want}
                if not more:
                    break
                want |= more
        got = {order[j] for j, v in enumerate(row) if v}
        if len(row) != len(s.nodes) or got != want:
            raise Bad("traversal %s reaches %s by the matrix, %s by the grammar" % (t.name, sorted(got), sorted(want)))


# ---------------------------------------------------------------- running

def rename(s, r):
    """children with the names of node types, nodes with the names of graph keywords"""
    for n in s.nodes:
        for c in n.children:
            used = {low(x.name) for x in n.children} | {low(a.name) for a in n.attrs}
            new = r.choice([n.name, c.type])
            new = r.choice([new, new.lower()])
            if r.random() < 0.4 and low(new) not in used and low(new) not in S.C_KEYWORDS | S.DSL_KEYWORDS:
                for e in n.eqs:
                    e.target = (new if e.target[0] == c.name else e.target[0], e.target[1])
                    e.deps = e.deps and [(new if d[0] == c.name else d[0], d[1]) for d in e.deps]
                c.name = new
    return s


def job(a):
    b, seed, kind = a
    r = random.Random(seed * 13 + 1)
    S.SPECIAL[:] = sorted(RESERVED - {"node"})
    if kind == "plain":
        s = S.gen_spec(seed, S.Cfg(nodes=(2, 9), sets=(0, 4), travs=(0, 3), phases=(0, 3), attrs=(0, 4), lifetimes=r.random() < 0.2, user=False, set_attrs=r.random() < 0.4))
    elif kind == "visits":
        k = r.randint(2, 4)
        s = ag.gen(seed, ag.AgCfg(mode="M", stages=k, force=r.random() < 0.5, inh=(1, 4), syn=(1, 4), deps=(0, r.randint(1, 3)), overlap=r.choice([0, 0.3])))
    elif kind == "any":
        s = ag.gen(seed, ag.AgCfg(mode="R", deps=(0, 2), overlap=0.0, nodes=(1, 6)))
    else:
        s = ag.gen(seed, ag.AgCfg(mode="L"))
    grammar = kind != "plain"
    S.SPECIAL[:] = []
    rename(s, r)
    if r.random() < 0.5:
        c21.recase(s, r)
    text = S.to_dsl(s, random.Random(seed) if r.random() < 0.7 else None)
    d = os.path.join(common.scratch(), "%s%d" % (kind, seed))
    os.makedirs(d, exist_ok=True)
    f = os.path.join(d, "s.ccn")
    open(f, "w").write(text)
    g = os.path.join(d, "g")
    x = b.gen(f, g, ["--show-ast"])
    rd = lambda p: open(os.path.join(g, p)).read() if os.path.exists(os.path.join(g, p)) else None
    prob, n, status = None, 0, "accepted"
    files = {"spec.ccn": text, "stdout.txt": x.out[-100000:], "stderr.txt": x.err[-3000:]}
    try:
        if x.timeout or x.sanitizer:
            raise Bad("cocogen: %s" % (x.sanitizer[0] if x.sanitizer else "does not terminate"))
        parts = {}
        if x.rc != 0:
            if kind not in ("visits", "any") or x.rc != 1 or not x.err.strip():     # cocogen need not find an order of visits
                raise Bad("cocogen refuses the specification: " + x.err[-300:])
            status = "refused"
        else:
            for p in ("ast.dot", "ag_dot/pre_induce.dot", "ag_dot/partitioned.dot"):
                if rd(p) is None:
                    raise Bad("%s is not written" % p)
                files[os.path.basename(p)] = rd(p)
            n += ast_dot(s, rd("ast.dot"))
            n += check_ag(s, rd("ag_dot/pre_induce.dot"), False, parts)
            parts = {}
            n += check_ag(s, rd("ag_dot/partitioned.dot"), True, parts)
            n += check_show(s, x.out, parts)
    except Bad as e:
        prob = str(e)
    shutil.rmtree(d, ignore_errors=True)
    nv = len(re.findall(r"^\s+\w+_[2-9] \(in:", x.out, re.M))
    return seed, kind, status, n, nv, prob, text, files if prob else {}


def main():
    ck = common.Check("C28", "one evaluation = one specification whose diagrams (ast.dot, ag_dot) and printed tree with visit sequences are all checked; distinct = "
                      "different text of an accepted specification with something to show")
    b = common.Build()
    k = ck.n(250, 5000)
    jobs = [(b, common.SEED * 1000003 + 28000000 + i, kind) for i in range(k) for kind in ("plain", "grammar", "visits", "any")]
    if common.REPLAY is not None:
        jobs = [(b, common.REPLAY, kind) for kind in ("plain", "grammar", "visits", "any")]
    for seed, kind, status, n, nv, prob, text, files in common.pmap(job, jobs):
        ck.count("%s: %s" % (kind, status))
        ck.count("facts checked", n)
        ck.count("nodes with several visits", nv)
        ck.observe(text if n else None, {"seed": seed, "kind": kind, "status": status, "facts": n})
        if prob:
            ck.violation(re.sub(r"\d+|'[^']*'", "", prob)[:40], "%s specification, seed %d: %s" % (kind, seed, prob), files)
    return ck.finish(300)


if __name__ == "__main__":
    common.main(main)
