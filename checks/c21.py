#!/usr/bin/env python3
"""C21: layout, comments, declaration order and letter case do not change meaning"""
import copy, hashlib, os, random, re, shutil, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import ag, c05, c18, c20, common, engine, rtc, spec as S
from workload import WL

TOK = re.compile(r'"(?:\\.|[^"\\])*"|[A-Za-z_]\w*|->|\S', re.S)
WORDS = ["node", "root node x { };", "phase", "enum", "start", "nodeset", "'", "\"", "it's", "a \"quoted\" word", "{", "}", ";", "*", "**", "/ /", "#", "@", "%s", "\\", "\u00e9", "~", "/", "=", "->", ""]


def comment(r):
    if r.random() < 0.4:
        t = " ".join(r.choice(WORDS + ["/*", "*/", "//"]) for _ in range(r.choice([0, 1, 3, 12])))
        return "//" + t.rstrip("\\") + "\n"
    t = (r.choice([" ", "\n", "\n * ", ""])).join(r.choice(WORDS + ["//"]) for _ in range(r.choice([0, 1, 2, 5, 40])))
    t = re.sub(r"/\*", "/ *", re.sub(r"\*/", "* /", t)).rstrip("/*")
    if t.startswith("/"):
        t = " " + t
    return "/*" + r.choice(["", "*", "**", " ", "\n"]) + t + r.choice(["", " ", "*", "**", "\n"]) + "*/"


def gap(r, style, need):
    if style == "tight":
        return " " if need else ""
    if style == "lines":
        return r.choice(["\n", "\n\n", "\r\n", "\n   \t"])
    if style == "wide":
        return r.choice([" ", "  ", "\t", "\t \t", " " * 40, "\n", "\r\n", "\r", "\n" * 20]) if need or r.random() < 0.7 else ""
    n = r.choice([0, 0, 1, 1, 2, 3])
    out = "".join(comment(r) + r.choice(["", " ", "\n"]) for _ in range(n))
    return out if out else (" " if need else "")


def layout(r, text, style):
    t = TOK.findall(text)
    out = [gap(r, style, False)]
    for i, x in enumerate(t):
        need = i + 1 < len(t) and re.match(r"\w", t[i + 1]) and re.match(r"\w", x[-1]) or (x == "-" and i + 1 < len(t) and t[i + 1][0] == ">")
        if i + 1 == len(t) and x == ";" and r.random() < 0.5:
            x = ""
        out += [x, gap(r, style, bool(need))]
    o = "".join(out)
    return o


STYLES = ["tight", "lines", "wide", "comments", "comments"]


def layouts(a):
    """one specification written in several layouts by the same generator: same bytes, same verdict"""
    b, seed = a
    t, kind = c20.text(seed)
    r = random.Random(seed)
    d = os.path.join(common.scratch(), "l%d" % seed)
    os.makedirs(d)
    if re.search(r'/\*|//', t) or kind == "ill-formed" and t.count('"') % 2:
        shutil.rmtree(d)
        return []
    out = []
    ref = None
    for k, st in enumerate(["as printed"] + STYLES):
        v = t if k == 0 else layout(r, t, st)
        o = os.path.join(d, "o")
        shutil.rmtree(o, ignore_errors=True)
        with open(os.path.join(d, "s.ccn"), "w", newline="") as f:
            f.write(v)
        x = b.gen(os.path.join(d, "s.ccn"), o)
        rc = "timeout" if x.timeout else x.sanitizer[0] if x.sanitizer else x.rc
        got = (rc, c20.tree(o) if rc == 0 else None)
        if k == 0:
            ref = got
            out.append((st, kind, rc, None, t))
            continue
        why = None
        if got[0] != ref[0]:
            why = "%s: status" % st, "status %s, as printed %s: %s" % (got[0], ref[0], x.err[-800:])
        elif got[1] != ref[1]:
            f = sorted(q for q in set(ref[1]) | set(got[1]) if ref[1].get(q) != got[1].get(q))
            why = "%s: other files" % st, "files that differ: %s" % f[:6]
        out.append((st, kind, rc, why, v))
    shutil.rmtree(d, ignore_errors=True)
    return out


def case(r, n):
    return r.choice([n, n, n.upper(), n.lower(), n.swapcase(), n.capitalize()])


def recase(s, r):
    """letter case of every reference"""
    def exp(e):
        if e[0] == "lit":
            return ("lit", [case(r, x) for x in e[1]])
        if e[0] == "ref":
            return ("ref", case(r, e[1]))
        return (e[0], exp(e[1]), exp(e[2]))

    def lts(x):
        for l in x.lifetimes:
            for at in ("begin", "end"):
                v = getattr(l, at)
                if v:
                    setattr(l, at, (v[0], [case(r, q) for q in v[1]]))

    def attr(x):
        if x.type in ("enum", "link"):
            x.ref = case(r, x.ref)
        lts(x)
    for n in s.nodes:
        lts(n)
        for c in n.children:
            c.type = case(r, c.type)
            lts(c)
        for x in n.attrs:
            attr(x)
        for e in n.eqs:
            e.target = (e.target[0] and case(r, e.target[0]), case(r, e.target[1]))
            if e.deps:
                e.deps = [(q[0] and case(r, q[0]), case(r, q[1])) for q in e.deps]
    for x in s.nodesets:
        x.expr = exp(x.expr)
        for y in x.attrs:
            attr(y)
    for t in s.travs:
        if t.expr is not None:
            t.expr = exp(t.expr)
        for y in t.data or []:
            attr(y)
    for p in s.phases:
        p.actions = [case(r, q) for q in p.actions]
    return s


def rewrite(s, r, what):
    """text of the same specification written differently"""
    s = copy.deepcopy(s)
    if "order" in what:
        for l in (s.enums, s.nodes, s.nodesets, s.travs, s.passes, s.phases):
            r.shuffle(l)
        s.order = r.randrange(1 << 30)
    if "inline" in what:
        acts = [q.lower() for p in s.phases for q in p.actions]
        s.inline = set(q for q in sorted(set(acts)) if r.random() < 0.5)
    if "forms" in what:
        for x in s.nodesets:
            x.long = not x.long if r.random() < 0.8 else x.long
        for p in s.passes:
            p.form = not p.form
    if "case" in what:
        recase(s, r)
    t = S.to_dsl(s, r if "brackets" in what else None)
    if "layout" in what:
        t = layout(r, t, r.choice(STYLES))
    return t


KINDS = [(), ("order",), ("case",), ("inline",), ("forms", "brackets"), ("order", "case", "inline", "forms", "brackets", "layout")]


def make(r, s, k):
    w = WL(r, s, {}, depth=r.choice([1, 2, 4]), maxnodes=r.choice([5, 15, 40]), p_child=r.choice([0.5, 0.9]))
    w.head.append("FUEL 4000 4000")
    w.random_scripts(s) if hasattr(w, "random_scripts") else None
    reg = w.tree(w.idx[s.root.name.lower()])
    w.main.append("dump %d" % reg)
    for i in range(len(s.travs)):
        w.main.append("start %d %d" % (i, reg))
    w.main += ["copy 800 %d" % reg, "dump 800", "run %d" % reg]
    return w.text()


def meaning(a):
    """one specification in several spellings: every program behaves as the model of the specification says"""
    b, seed, isag = a
    r = random.Random(seed * 3 + 1)
    ev = None
    if isag:
        mode = random.Random(seed).choice("LLM")
        s = ag.gen(seed, ag.AgCfg(mode=mode, nodes=(2, 5), stages=2, force=True))
        s.multi = mode == "M"
        ev = ag.ev
        mk = c18.make
    else:
        s = S.gen_spec(seed, S.Cfg(nodes=(2, 6), sets=(1, 4), enums=(1, 2), travs=(1, 4), passes=(1, 4), phases=(1, 4), lifetimes=seed % 3 == 0, user=False, info=0.3, set_attrs=seed % 2 == 0))
        s.order = None
        mk = make
    out, viol = [], []
    eqs = evaluator = None
    if ev:
        eqs, evaluator = ev(s)
    kinds = [k for k in KINDS if not (isag and "inline" in k and len(k) == 1)]
    for k, what in enumerate(kinds):
        if k and k < len(kinds) - 1 and r.random() < 0.5:
            continue
        t = rewrite(s, r, what)
        d = os.path.join(common.scratch(), "m%d_%d" % (seed, k))
        c = engine.build_spec(b, s, d, text=t, eqs=eqs)
        name = "+".join(what) or "as printed"
        if isag and s.multi and c.problem and "Loop found" in str(c.problem):
            continue        # several visits: cocogen may refuse
        if c.problem:
            viol.append(("%s: %s" % (name, c.problem[0]), c.problem[1], c.files))
            shutil.rmtree(d, ignore_errors=True)
            continue
        for i in range(2):
            script = mk(random.Random(seed * 1000 + i), s, i)
            p, sim = engine.run_script(c, s, script, d, "t%d" % i, evaluator)
            out.append((name, isag, len(sim.log), hash(tuple(sim.log)) & 0xffffffff))
            if p:
                viol.append(("%s: %s" % (name, p[0]), p[1], rtc.files_of(c, d, "t%d" % i)))
        shutil.rmtree(d, ignore_errors=True)
    return seed, out, viol


def twins(a):
    """the same name twice, in another letter case: refused"""
    b, seed = a
    out = []
    base = c05.bases(seed)
    d = os.path.join(common.scratch(), "t%d" % seed)
    os.makedirs(d)
    r = random.Random(seed)
    for kind, names in sorted(c05.kinds(base).items()):
        if not names:
            continue
        n = r.choice(names)
        m = r.choice([x for x in (n.upper(), n.lower(), n.swapcase(), n.capitalize()) if x != n] or [n])
        if m in S.C_KEYWORDS or m in S.DSL_KEYWORDS:
            continue
        s = copy.deepcopy(base)
        t = c05.add(s, c05.decl(kind, m, s, r), r, base=c05.dsl_of(s))
        open(d + "/s.ccn", "w").write(t)
        x = b.gen(d + "/s.ccn", d + "/o")
        rc = "timeout" if x.timeout else x.sanitizer[0] if x.sanitizer else x.rc
        out.append(("twin " + kind, n, m, rc, None if rc == 1 and x.err.strip() else "status %s: %s" % (rc, x.err[-500:]), t))
    shutil.rmtree(d, ignore_errors=True)
    return out


def call(a):
    return a[0], a[0](a[1])


def main():
    ck = common.Check("C21", "one evaluation = one run of cocogen on one specification in another layout, compared byte by byte, or one run of the program generated from a rewritten specification, "
                      "compared with the reference model of the original, or one verdict on a name declared twice in different letter case; distinct = different text or event sequence and rewrite")
    b = common.Build()
    s0 = common.SEED * 1000003 + 21000000
    if common.REPLAY is not None:
        jobs = [(meaning, (b, common.REPLAY, False)), (meaning, (b, common.REPLAY, True)), (layouts, (b, common.REPLAY)), (twins, (b, common.REPLAY))]
    else:
        jobs = [(meaning, (b, s0 + i, i % 3 == 2)) for i in range(ck.n(48, 800))]
        jobs += [(layouts, (b, s0 + 10**6 + i)) for i in range(ck.n(120, 4000))]
        jobs += [(twins, (b, s0 + 2 * 10**6 + i)) for i in range(ck.n(30, 400))]
    for f, res in common.pmap(call, jobs):
        if f is meaning:
            seed, out, viol = res
            for name, isag, n, fp in out:
                ck.count("programs: " + name)
                ck.count("events", n)
                ck.observe((name, fp), {"seed": seed, "rewrite": name, "events": n})
            for key, what, files in viol:
                ck.violation(key, "specification seed %d: %s" % (seed, what), files)
        elif f is layouts:
            for st, kind, rc, why, t in res:
                ck.count("layout: " + st)
                ck.count("layout status %s" % rc)
                ck.observe(hashlib.sha1(t.encode()).hexdigest() if st != "as printed" else None, {"layout": st, "status": rc, "head": t[:100]})
                if why:
                    ck.violation(why[0], why[1], {"spec.ccn": t})
        else:
            for kind, n, m, rc, why, t in res:
                ck.count(kind)
                ck.observe((kind, n, m), {"twin": [n, m], "status": rc})
                if why:
                    ck.violation("%s accepted or unexplained" % kind, "%s and %s: %s" % (n, m, why), {"spec.ccn": t})
    return ck.finish(200)


if __name__ == "__main__":
    common.main(main)
