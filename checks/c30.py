#!/usr/bin/env python3
"""C30: the command line of the generator does what its help says"""
import os, random, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import ag, c05, common, jail, spec as S

# options which must not change what is generated
NEUTRAL = [["-v"], ["--verbose"], ["--verb"], ["--debug"], ["--consistency-checks"], ["--consist"], ["--profiling"], ["--serialise"], ["--inspectpoints"],
           ["--breakpoints"], ["--backend", "dynamic"], ["--backend=dynamic"], ["--backend", "Dynamic"], ["--ag-scheduler-max-iter", "5000"],
           ["--ag-scheduler-max-iter=100000"], ["--dot", "x"], ["--show-ast"], ["--show-a"], ["-b", "zzNoSuchAction"], ["--breakpoint", "nothing.at.all"], ["-bzzNothing"]]
LOUD = ("-v", "--verbose", "--verb")
INFO = [["--help"], ["--hel"], ["--version"], ["--vers"], ["--show-structure"], ["--show-s"]]
WRONG = [["--nonsense"], ["-q"], ["--gen-dir"], ["--backend"], ["-b"], ["--ag-scheduler-max-iter"], ["--breakpoint"], ["--backend", "stratego"], ["--backend=typed2"],
         ["--backend", ""], ["--ag-scheduler-max-iter", "many"], ["--ag-scheduler-max-iter", ""], ["--ag-scheduler-max-iter", "12x"], ["--help=yes"], ["--show", ]]
NEEDS_ARG_LAST = {"--gen-dir", "--backend", "-b", "--ag-scheduler-max-iter", "--breakpoint"}


def tree(d):
    t = {}
    for p, ds, fs in os.walk(d):
        for n in ds:
            t[os.path.relpath(os.path.join(p, n), d) + "/"] = None
        for n in fs:
            q = os.path.join(p, n)
            t[os.path.relpath(q, d)] = open(q, "rb").read()
    return t


def opened(out):
    return [os.path.basename(l[9:]) for l in out.split("\n") if l.startswith("Opening: ")]


def actions(err):
    return re.findall(r"^\s*\*\*\* (\w+)$", err, re.M)


def events(err):
    return re.findall(r"^[ \t]*(\*\*\*|>>|<<|skip)[ \t]+(\w+)[ \t]*$", err, re.M)


def within(quiet, loud):
    """the lines of the quiet run, in order"""
    it = iter(loud.split("\n"))
    return all(any(x == l for x in it) for l in quiet.split("\n") if l.strip())


def text_of(seed):
    r = random.Random(seed)
    k = seed % 8
    if k < 3:
        return S.to_dsl(S.gen_spec(seed, S.Cfg(nodes=(1, 7), sets=(0, 4), travs=(0, 4), phases=(0, 4), lifetimes=r.random() < 0.5)), r), True
    if k < 6:
        return S.to_dsl(ag.gen(seed, ag.AgCfg(mode="L", nodes=(1, 6), user=r.random() < 0.3)), r), True
    for _ in range(20):
        try:
            return c05.dsl_of(r.choice(c05.OPS)(c05.bases(seed), r)), False
        except (c05.NA, LookupError, AttributeError, StopIteration):
            continue
    return "root node A { children { Missing m } };\n", False


def job(a):
    j, exe, seed, structure, nvar = a
    r = random.Random(seed)
    text, valid = text_of(seed)
    out = []
    top = j.dir("s%d" % seed)

    def world(name):
        d = os.path.join(top, name)
        os.mkdir(d)
        j.own(d)
        j.write(os.path.join(d, "in.ccn"), text)
        return d

    def run(d, args):
        return j.run([exe, *args], cwd=d, timeout=60)

    d0 = world("base")
    r0 = run(d0, ["in.ccn"])
    base = tree(os.path.join(d0, "ccngen"))
    if r0.timeout or r0.sanitizer or r0.rc not in (0, 1) or (valid and r0.rc != 0):
        return seed, text, [("base", "the specification alone: exit %s %s" % (r0.rc, r0.err[-500:]), None, [])]
    dv = world("basev")
    rv = run(dv, ["-v", "in.ccn"])
    seq = actions(rv.err)
    names = [n for _, n in structure]

    def fail(key, args, why):
        out.append((key, "cocogen %s: %s" % (" ".join(args), why), None, []))

    def ok(kind, args):
        out.append((None, None, (kind, tuple(args)), [kind]))

    def order(args, err, rc):
        """progress lines: actions in the order of the printed structure, phases properly nested"""
        it = iter(names)
        ev = events(err)
        if not ev:
            return fail("verbose: no progress", args, "no progress lines on stderr")
        if not all(any(x == n for n in it) for k, x in ev if k != "<<" and x in set(names)):
            return fail("verbose: order", args, "actions %s do not follow the order of --show-structure" % [x for _, x in ev][:60])
        if not all(x in set(names) for k, x in ev if k == "***"):
            return fail("verbose: unknown action", args, "actions %s are not in --show-structure" % [x for k, x in ev if k == "***" and x not in set(names)])
        st = []
        for k, x in ev:
            if k == ">>":
                st.append(x)
            elif k == "<<" and (not st or st.pop() != x):
                return fail("verbose: nesting", args, "the end of phase %s does not match" % x)
        if rc == 0 and st:
            return fail("verbose: nesting", args, "phases %s do not end" % st)
        if rc == 0 and len([1 for k, x in ev if k == "***"]) < 30:
            return fail("verbose: actions missing", args, "only %s" % ev)

    for k in range(nvar):
        d = world("v%d" % k)
        kind = r.choices(["neutral", "info", "wrong", "count", "breakpoint"], [6, 1, 2, 1, 4 if valid else 0])[0]
        opts = [r.choice(NEUTRAL) for _ in range(r.choice([0, 1, 1, 2, 4]))]
        gd = None
        if r.random() < 0.5:
            gd = r.choice(["o", "out dir", "./x", "o/", os.path.join(d, "abs"), "é", "-o"])
            opts.append(["--gen-dir=" + gd] if gd.startswith("-") or r.random() < 0.4 else r.choice([["--gen-dir", gd], ["--gen", gd]]))
        dest = os.path.join(d, gd or "ccngen")
        if kind == "neutral":
            r.shuffle(opts)
            n = r.randint(0, len(opts))
            args = sum(opts[:n], []) + (["in.ccn"] if n < len(opts) or r.random() < 0.7 else ["--", "in.ccn"]) + sum(opts[n:], [])
            x = run(d, args)
            loud = any(o[0] in LOUD for o in opts)
            got = tree(dest) if os.path.isdir(dest) else {}
            if x.timeout or x.sanitizer:
                fail("neutral: " + (x.sanitizer[0][:50] if x.sanitizer else "timeout"), args, x.err[-800:])
            elif x.rc != r0.rc:
                fail("neutral: exit status", args, "exit status %s, without the options %s; stderr %s" % (x.rc, r0.rc, x.err[-400:]))
            elif got != base:
                fail("neutral: files", args, "generated files differ: %s" % sorted(f for f in set(got) | set(base) if got.get(f, 0) != base.get(f, 0))[:8])
            elif not within(r0.err, x.err) if loud else x.err != r0.err:
                fail("neutral: diagnostics", args, "stderr %r, without the options %r" % (x.err[-500:], r0.err[-500:]))
            elif opened(x.out) != opened(r0.out):
                fail("neutral: order of files", args, "opens %s" % opened(x.out)[:50])
            elif valid and ("--show-ast" in args or "--show-a" in args) and len(x.out) < len(r0.out) + 20:
                fail("show-ast: nothing printed", args, x.out[-300:])
            else:
                ok(kind, args)
                if loud:
                    order(args, x.err, x.rc)
        elif kind == "info":
            info = r.choice(INFO)
            pre = sum([o for o in opts], [])
            args = pre + info + (["in.ccn"] if r.random() < 0.5 else [])
            x = run(d, args)
            want = {"--h": "COCONUT_FILE", "--v": "cocogen", "--s": names[-1]}[info[0][:3]]
            left = sorted(tree(d))
            if x.timeout or x.sanitizer or x.rc != 0:
                fail("information: exit status", args, "exit status %s %s" % (x.rc, x.err[-400:]))
            elif want not in x.out:
                fail("information: text", args, "prints %r" % x.out[-400:])
            elif left != ["in.ccn"]:
                fail("information: files", args, "leaves %s" % left)
            elif info[0].startswith("--h") and any(o not in x.out for o in ("--help", "--verbose", "-v", "--breakpoint", "-b", "--consistency-checks", "--backend", "--show-ast", "--show-structure", "--ag-scheduler-max-iter")):
                fail("information: help", args, "an option is missing: %r" % x.out)
            else:
                ok(kind, args)
        elif kind in ("wrong", "count"):
            pre = sum([o for o in opts], [])
            if kind == "wrong":
                w = r.choice(WRONG)
                args = pre + (["in.ccn"] + w if len(w) == 1 and w[0] in NEEDS_ARG_LAST else w + ["in.ccn"] if r.random() < 0.5 else ["in.ccn"] + w)
            else:
                args = pre + r.choice([[], ["in.ccn", "in.ccn"], ["--", "in.ccn", "-v"], ["in.ccn", "other", "third"]])
            x = run(d, args)
            left = sorted(tree(d))
            if x.timeout or x.sanitizer or x.rc != 1:
                fail("usage: exit status", args, "exit status %s, expected 1; stdout %s stderr %s" % (x.rc, x.out[-300:], x.err[-300:]))
            elif not (x.out + x.err).strip():
                fail("usage: no message", args, "prints nothing")
            elif left != ["in.ccn"]:
                fail("usage: files", args, "leaves %s" % left)
            else:
                ok(kind, args)
        else:
            b = r.choice([n for n in names if n in seq or ("<<", n) in events(rv.err)])
            sp = r.choice([b, b, b.upper(), b.lower()])
            args = r.choice([["-b", sp], ["--breakpoint", sp], ["--breakpoint=" + sp], ["-b" + sp]]) + sum(opts, []) + ["in.ccn"]
            if any(o[0].startswith("-b") or o[0].startswith("--breakpoint") and o[0] != "--breakpoints" for o in opts):
                args = [a for o in opts if not o[0].startswith("-b") and not o[0] == "--breakpoint" for a in o] + ["in.ccn", "-b", sp]
            x = run(d, args)
            got = tree(dest) if os.path.isdir(dest) else {}
            full, part = opened(r0.out), opened(x.out)
            loud = any(a in LOUD for a in args)
            bf = {f: c for f, c in got.items() if c is not None}
            if x.timeout or x.sanitizer or x.rc != 0:
                fail("breakpoint: exit status", args, "exit status %s %s" % (x.rc, x.err[-400:]))
            elif part != full[:len(part)]:
                fail("breakpoint: files", args, "opens %s, a full run %s" % (part, full))
            elif any(f not in base or not base[f].startswith(c) for f, c in bf.items()):
                fail("breakpoint: content", args, "files %s are not prefixes of those of a full run" % [f for f, c in bf.items() if f not in base or not base[f].startswith(c)][:6])
            elif any(base[f] != c for f, c in bf.items() if os.path.basename(f) != (part or [""])[-1]) :
                fail("breakpoint: content", args, "files %s are incomplete" % [f for f, c in bf.items() if base[f] != c][:6])
            elif loud:
                got = actions(x.err)
                i = names.index(b)
                lev = structure[i][0]
                last = i
                while last + 1 < len(names) and structure[last + 1][0] > lev:
                    last += 1
                want = [n for n in seq if names.index(n) <= last]
                if got != want:
                    fail("breakpoint: actions", args, "runs %s, expected %s" % (got[-5:], want[-5:]))
                else:
                    ok(kind, args)
            else:
                # what a quiet run leaves is what the actions up to the breakpoint leave
                d2 = world("w%d" % k)
                y = run(d2, ["-v", "-b", b, "in.ccn"])
                g2 = tree(os.path.join(d2, "ccngen"))
                if g2 != got:
                    fail("breakpoint: quiet", args, "leaves other files than the verbose run: %s" % sorted(f for f in set(got) | set(g2) if got.get(f, 0) != g2.get(f, 0))[:6])
                else:
                    ok(kind, args)
    return seed, text, out


def main():
    ck = common.Check("C30", "one evaluation = one run of the generator with a random command line (options that change nothing, information, wrong usage, breakpoints) on a random "
                      "specification, compared with the run without options and with the printed structure; distinct = distinct kind and command line")
    b = common.Build()
    j = jail.Jail()
    exe = j.add(b.cocogen)
    x = j.run([exe, "--show-structure"], cwd=j.dir("structure"))
    structure = [(len(m.group(1)), m.group(2)) for m in re.finditer(r"^(\t*)\d+: (\w+)$", x.out, re.M)]
    if x.rc != 0 or len(structure) < 30:
        ck.violation("structure", "--show-structure: exit %s, %s" % (x.rc, x.out[-500:]), {})
        return ck.finish(0)
    if len({n for _, n in structure}) != len(structure):
        raise common.HarnessError("names of actions are not unique")
    base = common.SEED * 1000003
    seeds = [common.REPLAY] if common.REPLAY is not None else [base + i for i in range(ck.n(130, 2500))]
    for seed, text, rs in common.pmap(job, [(j, exe, s, structure, ck.n(14, 30)) for s in seeds]):
        for bad, what, key, counts in rs:
            if key:
                ck.observe(key)
            for c in counts:
                ck.count("command lines: " + c)
            if bad:
                ck.violation(bad, "specification seed %d: %s" % (seed, what), {"in.ccn": text})
        if len(ck.samples) < 4:
            ck.samples.append({"seed": seed, "commands": [list(r[2]) for r in rs if r[2]][:4]})
    return ck.finish(100)


if __name__ == "__main__":
    common.main(main)
