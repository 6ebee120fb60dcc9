#!/usr/bin/env python3
"""C04: every well-formed specification yields a complete program"""
import os, random, re, shutil, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import ag, cgen, common, spec as S

# letter-case variants of C keywords and of words of the language are documented as good names
ODD = ["Float", "Int", "Return", "Default", "Switch", "While", "Static", "Const", "Struct", "Register", "Char", "Long", "Pass",
       "Phase", "Enum", "User", "Void", "Bool", "True", "String", "DOUBLE", "Inline", "Volatile", "Uint8", "Args", "IF", "THIS", "Info"]
INFO = ["plain words", "it's 100% done: %s %d %n", "quote \\\" inside", "back\\\\slash", "a comment */ ends", "/* opens", "// line", "two\nlines",
        "tab\there", "ends with backslash \\\\", "#define x", "", " ", "??/", "{ } ; = , [ ] ( )", "caf\u00e9", "*", "**/", "\\n\\t", "/", "@brief \\brief @file"]
OPTS = [[], [], [], [], ["-v"], ["-vv"], ["--consistency-checks"], ["--show-ast"], ["--backend", "dynamic"], ["--ag-scheduler-max-iter", "5000"]]
CC = [("gcc", []), ("gcc", ["-std=c11", "-D_DEFAULT_SOURCE"]), ("gcc", ["-std=c99", "-D_DEFAULT_SOURCE"]), ("gcc", ["-DNDEBUG"]), ("gcc", ["-O2"]), ("clang", []), ("clang", ["-std=gnu17", "-DNDEBUG"])]
STRICT = ["-w", "-Werror=implicit-function-declaration", "-Werror=implicit-int", "-Werror=incompatible-pointer-types", "-Werror=int-conversion",
          "-Werror=return-type", "-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"]


BASE = S.Names


class Odd(S.Names):
    """names: some are odd ones, some have underscores"""
    p = 0.0
    under = 0.0

    def new(self, style=True):
        r = self.rng
        if r.random() < self.p:
            w = r.choice(ODD)
            if w.lower() not in self.used and (style or w.lower() not in S.RESERVED):
                self.used.add(w.lower())
                return w if style else w.lower()
        w = BASE.new(self, style)
        if r.random() < self.under:
            k = r.randint(2, len(w) - 1)
            w = w[:k] + "_" + w[k:]
            if w.lower() in self.used:
                return self.new(style)
            self.used.add(w.lower())
        return w


def make(seed):
    r = random.Random(seed * 7 + 3)
    kind = r.choice(["plain", "plain", "plain", "big", "lifetimes", "lifetimes", "grammar", "grammar", "everything", "everything"])
    cls = type("O", (Odd,), {"p": r.choice([0, 0, 0.1, 0.3]), "under": r.choice([0, 0.2])})
    old, S.Names = S.Names, cls
    try:
        if kind in ("grammar", "everything"):
            s = ag.gen(seed, ag.AgCfg(mode=r.choice("LR") if False else "L", nodes=(1, 6), user=r.random() < 0.5))
        elif kind == "big":
            s = S.gen_spec(seed, S.Cfg(nodes=(8, 30), sets=(2, 10), enums=(2, 6), travs=(3, 10), passes=(3, 12), phases=(3, 12), children=(0, 6), attrs=(0, 8), set_attrs=True, type_is_name=0))
        else:
            s = S.gen_spec(seed, S.Cfg(nodes=(1, 7), sets=(0, 5), enums=(0, 3), travs=(0, 5), passes=(0, 5), phases=(0, 5), lifetimes=kind == "lifetimes",
                                       set_attrs=r.random() < 0.5, phase_reuse=r.choice([0, 0, 0.4]), func=r.choice([0, 0.5]), info=0.6, type_is_name=0))
        if kind == "everything":
            S.add_lifetimes(r, s, S.Cfg())
            for n in s.nodes:
                for x in n.attrs:
                    if ag.is_ag(x):
                        x.lifetimes = []
    finally:
        S.Names = old
    # all phases, passes and traversals: any information text
    bad = r.random() < 0.5
    for x in s.travs + s.passes + s.phases:
        has = x.info is not None
        if isinstance(x, S.Pass) and not (x.uid or x.func) or isinstance(x, S.Phase) and x.cycle and x.gate:
            continue
        if has or r.random() < 0.3:
            x.info = r.choice(INFO if bad else INFO[:2])
    for n in s.nodes:
        for c in n.children:
            c.braces = r.random() < 0.1
        for a in n.attrs:
            a.braces = r.random() < 0.1
    for e in s.enums:
        if r.random() < 0.3:
            e.info = r.choice(INFO if bad else INFO[:2])
    for x in s.nodesets:
        if r.random() < 0.3:
            x.info = r.choice(INFO if bad else INFO[:2])
    return s, kind, r


def features(s, kind):
    f = {kind}
    for n in s.nodes:
        b = (bool(n.children), bool([a for a in n.attrs if not a.prop]), bool(n.eqs), bool(n.lifetimes))
        f.add("node blocks " + "".join("cael"[i] if x else "-" for i, x in enumerate(b)))
        for a in n.attrs:
            f.add("%s %s attribute%s%s" % (a.kind, a.type, ", constructor" if a.ctor else "", ", from a set" if a.prop else ""))
    for t in s.travs:
        f.add("traversal%s%s%s" % (" info" if t.info is not None else "", " nodes" if t.expr is not None else "", " data" if t.data else ""))
        for d in t.data or []:
            f.add("%s traversal data" % d.type)
    for p in s.passes:
        f.add("pass%s%s%s" % (" info" if p.info is not None else "", " uid" if p.uid else "", " func" if p.func else ""))
    for p in s.phases:
        f.add("%s%s%s%s" % ("cycle" if p.cycle else "phase", " info" if p.info is not None else "", " uid" if p.uid else "", " gate" if p.gate else ""))
    for x in s.nodesets:
        f.add("nodeset %s%s" % ("long" if x.long or x.attrs else "short", " attributes" if x.attrs else ""))
    return f


def program(s, kind, r, gen_dir):
    """a complete main program: what the user has to supply, the documented names and types, one run"""
    o = ["#include <stdio.h>", "#include <stdlib.h>", "#include <stdbool.h>", "#include <stdint.h>",
         "#include \"ccn/ccn.h\"", "#include \"palm/str.h\"", "#include \"palm/memory.h\"", "#include \"palm/ctinfo.h\""]
    inc = ['#include "ccngen/%s"' % h for h in ("enum.h", "ast.h", "trav_data.h", "trav.h", "actions.h", "gate.h", "ag.h")]
    r.shuffle(inc)
    o += inc
    o.append('#define SAME(a, b, what) _Static_assert(__builtin_types_compatible_p(a, b), "type of " what)')
    o.append('#define IS(a, b, what) _Static_assert((int)(a) == (b), "value of " what)')
    for e in s.enums:
        for i, v in enumerate(["NULL"] + e.values):
            c = "%s_%s" % (e.prefix.upper(), v if i == 0 else v.lower())
            o.append('IS(%s, %d, "%s");' % (c, i, c))
    o.append('static void names(node_st *n) { enum ccn_nodetype t; char *f; (void)t; (void)f;')
    o.append('t = NODE_TYPE(n); NODE_FILENAME(n) = NULL; NODE_BLINE(n) = 1; NODE_ELINE(n) = 2; NODE_BCOL(n) = 3; NODE_ECOL(n) = 4;')
    seen = set()
    for n in s.nodes:
        for c in n.children:
            m = cgen.mac(n, c)
            o.append('SAME(__typeof__(%s(n)), node_st *, "%s"); if (0) { %s(n) = NULL; }' % (m, m, m))
            if c.name.lower() not in seen:
                seen.add(c.name.lower())
                o.append('SAME(__typeof__(&TRAV%s), node_st *(*)(node_st *), "TRAV%s"); if (n == NULL) TRAV%s(n);' % ((c.name.lower(),) * 3))
        for a in n.attrs:
            m = cgen.mac(n, a)
            o.append('SAME(__typeof__(%s(n)), %s, "%s");' % (m, cgen.ctype(s, a), m))
            if a.kind == "classic":
                o.append('if (0) { %s x = %s(n); %s(n) = x; }' % (cgen.ctype(s, a), m, m))
        cs = ["node_st *"] * len([c for c in n.children if c.ctor]) + [cgen.ctype(s, a) for a in n.attrs if a.ctor]
        o.append('SAME(__typeof__(&AST%s), node_st *(*)(%s), "AST%s");' % (n.name.lower(), ", ".join(cs) or "void", n.name.lower()))
    for t in s.travs:
        u = t.uid.upper()
        o.append("{ enum ccn_traversal_type k = TRAV_%s; (void)k; }" % u)
        for n in s.nodes:
            if n.name.lower() in s.targets(t):
                o.append('SAME(__typeof__(&%s%s), node_st *(*)(node_st *), "%s%s");' % ((u, n.name.lower()) * 2))
        if t.data is not None:
            o.append('SAME(__typeof__(DATA_%s_GET()), struct data_%s *, "DATA_%s_GET");' % (u, u.lower(), u))
            for d in t.data:
                o.append('SAME(__typeof__(DATA_%s_GET()->%s), %s, "%s");' % (u, d.name, cgen.ctype(s, d), d.name))
    for p in s.passes:
        o.append('SAME(__typeof__(&%s), node_st *(*)(node_st *), "%s");' % (p.cfunc, p.cfunc))
    for g in cgen.gates(s):
        o.append('{ bool (*g)() = %s; (void)g; }' % g)
    nts = ["NT_%s" % n.name.upper() for n in s.nodes]
    o.append("switch (t) { %s default: break; } }" % " ".join("case %s: break;" % x for x in nts))
    o.append("void BreakpointHandler(node_st *n) { (void)n; }")
    for g in cgen.gates(s):
        o.append("bool %s() { return %s; }" % (g, r.choice(["true", "true", "false"])))
    # one tree with every child the program needs, and some others
    h = ag.heights(s)
    body = []
    count = [0]

    def tree(t, depth):
        n = s.node(t)
        count[0] += 1
        me = "n%d" % count[0]
        kids = {}
        for c in n.children:
            ms = sorted(x for x in s.members(c.type) if x in h)
            low = [x for x in ms if h[x] == min(h[y] for y in ms)] if ms else []
            if c.mandatory and finite:
                kids[c.name] = tree(r.choice(ms if depth > 0 and count[0] < 15 else low), depth - 1)
            elif ms and depth > 0 and count[0] < 15 and r.random() < 0.7:
                kids[c.name] = tree(r.choice(ms), depth - 1)

        def val(a):
            if a.type == "string":
                return r.choice(["NULL", 'STRcpy("text")', 'STRcpy("")'])
            if a.type == "enum":
                e = s.enum(a.ref)
                return "%s_%s" % (e.prefix.upper(), r.choice(["NULL"] + [v.lower() for v in e.values]))
            if a.type == "link":
                return r.choice(["NULL", "NULL"] + list(kids.values()))
            if a.type == "bool":
                return r.choice(["true", "false"])
            if a.type == "user":
                return "(%s)0" % a.ref
            return str(r.randint(0, 100))
        args = [kids.get(c.name, "NULL") for c in n.children if c.ctor] + [val(a) for a in n.attrs if a.ctor]
        body.append("node_st *%s = AST%s(%s);" % (me, n.name.lower(), ", ".join(args)))
        for c in n.children:
            if not c.ctor and c.name in kids:
                body.append("%s(%s) = %s;" % (cgen.mac(n, c), me, kids[c.name]))
        for a in n.attrs:
            if a.kind == "classic" and not a.ctor and (a.type != "string" or True) and r.random() < 0.5:
                body.append("%s(%s) = %s;" % (cgen.mac(n, a), me, val(a)))
        body.append("if (NODE_TYPE(%s) != NT_%s) return 3;" % (me, n.name.upper()))
        return me
    finite = s.root.name.lower() in h
    if not finite:
        body.append("CCNsetTreeCheck(false);")
        h = {n.name.lower(): 0 for n in s.nodes}
    root = tree(s.root.name.lower(), 3)
    if [l for n in s.nodes for x in [n] + n.children + n.attrs for l in x.lifetimes if not (isinstance(x, S.Child) and l.kind == "mandatory" and l.begin is None and l.end is None)]:
        body.append("CCNsetTreeCheck(false);")
    if finite and kind in ("grammar", "everything") and ag.evaluable(s, s.root.name):
        body.append("CCNevaluateAttributes(%s);" % root)
    body.append("if (%s == NULL) names(%s);" % (root, root))
    o.append("int main(void) {\n%s\nCCNrun(%s);\nif (CTIgetErrors() != 0) return 4;\nputs(\"completed\");\nreturn 0; }" % ("\n".join(body), root))
    return "\n".join(o) + "\n"


def job(a):
    b, seed = a
    s, kind, r = make(seed)
    d = os.path.join(common.scratch(), "s%d" % seed)
    os.makedirs(d)
    text = S.to_dsl(s, r)
    if r.random() < 0.2:
        text = text.rstrip().rstrip(";") + r.choice(["", "\n", " "])
    files = {"spec.ccn": text}
    viol = []
    cc, std = r.choice(CC)
    done = {"seed": seed, "feat": sorted(features(s, kind)), "cc": " ".join([cc] + std), "text": text}
    with open(d + "/spec.ccn", "w") as f:
        f.write(text)
    o = d + "/o"
    opts = [x.replace("%s", s.start.name) for x in r.choice(OPTS)]
    x = b.gen(d + "/spec.ccn", o, opts)
    files["stderr.txt"] = x.err

    def step():
        if x.timeout or x.sanitizer or x.rc != 0:
            return "generator", "the generator ends with %s: %s" % ("no end" if x.timeout else x.sanitizer or "status %s" % x.rc, x.err[-1200:])
        if re.search(r"\berror\b", x.err, re.I):
            return "generator reports an error", x.err[-800:]
        with open(d + "/user_types.h", "w") as f:
            f.write(cgen.user_types_h(s))
        files["main.c"] = program(s, kind, r, o)
        with open(d + "/main.c", "w") as f:
            f.write(files["main.c"])
        srcs = []
        for top, _, fs in sorted(os.walk(o)):
            srcs += [os.path.join(top, f) for f in sorted(fs) if f.endswith(".c")]
        inc = ["-I", o, "-I", d] + common.INC
        cmd = [cc] + std + STRICT + (["-fno-sanitize=function"] if cc == "clang" else []) + inc + srcs + [d + "/main.c"] + common.copra_sources() + [b.palm, "-lm", "-o", d + "/prog"]
        y = common.run(cmd, timeout=300)
        if y.timeout:
            raise common.HarnessError("compiler timed out")
        if y.rc != 0:
            m = re.search(r"(undefined reference|multiple definition|static assertion|error:)[^\n]*", y.err)
            return "does not compile or link", (m.group(0) if m else "") + "\n" + y.err[:2500]
        hs = []
        for top, _, fs in sorted(os.walk(o)):
            hs += [os.path.join(top, f) for f in sorted(fs) if f.endswith(".h")]
        done["files"] = len(srcs) + len(hs)
        z = common.run([d + "/prog"], timeout=60)
        if z.timeout:
            return "does not terminate", "the program does not terminate"
        if z.rc != 0 or "completed" not in z.out:
            return "run", "the program ends with status %s: %s%s" % (z.rc, z.out[-300:], z.err[-2000:])
    v = step()
    if v:
        viol.append((v[0], v[1], files))
    if common.REPLAY is None:
        shutil.rmtree(d, ignore_errors=True)
    done["viol"] = viol
    return done


def bare_gate(b):
    """the documented syntax allows a gate without a function name"""
    d = os.path.join(common.scratch(), "gate")
    os.makedirs(d)
    with open(d + "/spec.ccn", "w") as f:
        f.write("start phase all { actions { one; two; } };\nphase one { gate, actions { p; } };\npass two;\npass p;\nroot node n { };\n")
    x = b.gen(d + "/spec.ccn", d + "/o")
    return None if x.rc == 0 else ("bare-gate" if x.rc == 1 and "syntax error" in x.err and not x.sanitizer else "gate", "gate without a function name: status %s: %s" % (x.rc, x.err[:500]))


def large(b):
    """more generated files than a process may have open (the usual limit is 1024)"""
    import resource
    n = 1100
    t = ["start phase main { actions { pass doit; } };", "root node top { children { every one { constructor } } };",
         "nodeset every { nodes = { %s } };" % ", ".join("leaf%d" % i for i in range(n)),
         "traversal all { uid = al, nodes = every };"]
    t += ["node leaf%d { attributes { int val { synthesized } }, equations { this.val = { args = {} } } };" % i for i in range(n)]
    d = common.scratch()
    f = os.path.join(d, "large.ccn")
    open(f, "w").write("\n".join(t) + "\n")
    o = os.path.join(d, "large")
    x = common.run([b.cocogen, "--gen-dir", o, f], timeout=300, preexec=lambda: resource.setrlimit(resource.RLIMIT_NOFILE, (1024, 1024)))
    what = None
    if x.timeout or x.sanitizer or x.rc:
        what = "exit %s %s: %s" % (x.rc, x.sanitizer, x.err[-600:])
    else:
        miss = [p for i in range(n) for p in ("ccngen/equations/leaf%d.h" % i, "user/eq_leaf%d.c" % i) if not os.path.isfile(os.path.join(o, p))]
        if miss:
            what = "%d files missing, first %s" % (len(miss), miss[0])
    files = sum(len(z) for _, _, z in os.walk(o))
    shutil.rmtree(o, ignore_errors=True)
    return files, ("large specification", "specification of %d nodes with equations, 1024 open files allowed: %s" % (n, what), {"large.ccn": "\n".join(t)}) if what else None


def main():
    ck = common.Check("C04", "one evaluation = one well-formed specification: generated with the sanitized cocogen, everything it wrote compiled with its skeletons, static assertions on the documented "
                      "names and types and a minimal main program, linked and run under ASan+UBSan; distinct = different specification text")
    b = common.Build()
    n = ck.n(160, 4000)
    for x in common.pmap(job, [(b, common.SEED * 1000003 + 40000000 + i) for i in range(n)]):
        for f in x["feat"]:
            ck.count("with " + f)
        ck.count("compiled by " + x["cc"])
        ck.count("generated files", x.get("files", 0))
        ck.observe(x["text"], {"seed": x["seed"], "features": x["feat"][:8]})
        for key, msg, files in x["viol"]:
            ck.violation(key, "seed %d: %s" % (x["seed"], msg), files)
    x = bare_gate(b)
    ck.observe("bare gate", {"features": ["gate without function name"]})
    if x:
        ck.violation(*x)
    files, x = large(b)
    ck.observe("large specification", {"features": ["1100 nodes with equations"], "files": files})
    ck.count("files of the large specification", files)
    if x:
        ck.violation(*x)
    return ck.finish(n // 2)


if __name__ == "__main__":
    common.main(main)
