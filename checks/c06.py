#!/usr/bin/env python3
"""C06: the generator is memory-safe and terminates on every input"""
import copy, os, random, re, shutil, subprocess, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import ag, c05, common, jail, spec as S

WORDS = ("args attributes children constructor cycle enum equations inherited mandatory node nodeset nodes pass phase actions prefix synthesized this "
         "traversal travdata values info func root start double float int uint int8 int16 int32 int64 uint8 uint16 uint32 uint64 string bool lifetime "
         "disallowed optional allowed false true gate user uid null NULL").split()
MARKS = ["{", "}", "(", ")", "[", "]", "=", ",", ";", "|", "&", "-", ".", "->", "/*", "*/", "//", "_", '"', "<", ">", ":", "\\", "'", "0", "-1", "1.5", "18446744073709551616",
         "%s%n", "\n", "\t", "\r\n", " ", "this.", "_x", "x1"]
TOK = re.compile(rb'"(?:\\.|[^"\\])*"|//[^\n]*|/\*.*?\*/|[A-Za-z_][A-Za-z0-9_]*|-?[0-9.]+|->|\s+|.', re.S)


def base(r, seeds):
    k = r.random()
    try:
        if k < 0.35 and seeds:
            return r.choice(seeds)
        s = c05.bases(r.randrange(1 << 40))
        if k < 0.75:
            return c05.dsl_of(s).encode()
        return c05.dsl_of(r.choice(c05.OPS)(copy.deepcopy(s), r)).encode()
    except c05.NA:
        return base(r, seeds)


def mutate(r, data, seeds):
    """a few random edits of bytes, tokens, lines and whole parts"""
    t = TOK.findall(data)
    what = []
    for _ in range(r.choice([1, 1, 1, 2, 2, 3, 5, 9])):
        k = r.choice(["tok", "tok", "tok", "del", "del", "dup", "swap", "copy", "copy", "name", "name", "name", "num", "byte", "bytes", "cut", "head", "splice", "join", "rep", "ws"])
        what.append(k)
        n = len(t)
        if n < 2:
            t = TOK.findall(base(r, seeds))
            continue
        i, j = sorted((r.randrange(n), r.randrange(n)))
        names = [x for x in t if re.match(rb"[A-Za-z_]", x)]
        if k == "tok":
            w = r.choice(WORDS + MARKS).encode()
            if r.random() < 0.5:
                t[i] = w
            else:
                t[i:i] = [w, b" "]
        elif k == "del":
            del t[i:min(j, i + r.choice([1, 1, 2, 5, 30])) or i + 1]
        elif k == "dup":
            t[i:i] = t[i:min(j, i + 60)] * r.choice([1, 1, 2, 40])
        elif k == "swap":
            t[i], t[j] = t[j], t[i]
        elif k == "copy":
            m = r.randrange(n)
            t[m:m] = t[i:min(j, i + 30)]
        elif k == "name" and names:
            # one name for another: references to wrong things, cycles, duplicates
            l = [x for x in range(n) if re.match(rb"[A-Za-z_]", t[x])]
            x = r.choice(names)
            t[r.choice(l)] = r.choice([x, x, x, x.swapcase(), x + b"x", x * 300])
        elif k == "num":
            t[i] = str(r.choice([0, 1, -1, 2**31, 2**32, 2**63, 2**64, -2**63, 10**30, 10**400, 1e308, 0.1])).encode()
        elif k in ("byte", "bytes"):
            b = bytearray(b"".join(t))
            for _ in range(1 if k == "byte" else r.randint(2, 30)):
                if b:
                    b[r.randrange(len(b))] = r.choice([r.randrange(256), 0, 10, 34, 255, r.choice(b"{};=,|&-.()")])
            t = TOK.findall(bytes(b))
        elif k == "cut":
            t = t[:j]
        elif k == "head":
            t = t[i:]
        elif k == "splice":
            o = TOK.findall(base(r, seeds))
            t = t[:i] + o[r.randrange(len(o) + 1):]
        elif k == "join":
            t = t + [b"\n"] + TOK.findall(base(r, seeds))
        elif k == "rep":
            t[i] = t[i] * r.choice([2, 3, 100, 20000])
        elif k == "ws":
            t[i:i] = [r.choice([b"\n", b" ", b"\t", b"\r", b"\x0b", b"\x0c", b"\xc2\xa0", b"\xef\xbb\xbf", b"\0"]) * r.choice([1, 1, 5000])]
        t = t[:60000]
    return b"".join(t)[:400000], "+".join(what)


N = "root node a { };\n"
P = "start phase st { actions { pass pp; } };\n"


def extreme(r, i):
    """inputs that are long, deep or odd in one way; i chooses the way, the size is random"""
    n = r.choice([3, 100, 400, 1000, 2500])
    huge = r.choice([10, 20000, 100000])
    L = [
        lambda: "", lambda: " " * huge, lambda: "\n" * huge, lambda: (N + P).strip(), lambda: N + "\0" + P, lambda: "\ufeff" + N + P, lambda: (N + P).replace("\n", "\r\n"),
        lambda: (N + P).replace("a", "a" * huge), lambda: N + P + "node " + "b" * huge + " { };",
        lambda: N + P + "nodeset q = " + "(" * n + "{a}" + " | {a})" * n + ";",
        lambda: N + P + "nodeset q = " + "(" * n + "{a}" + " | {a})" * (n - 1) + ";",
        lambda: N + P + "nodeset q = {a}" + " - {a}" * n + ";",
        lambda: N + P + "nodeset q = " + "{a | " * n + "}" * n + ";",
        lambda: N + P + "".join("nodeset q%d = q%d;\n" % (k, k + 1) for k in range(min(n, 400))) + "nodeset q%d = {a};" % min(n, 400),
        lambda: N + P + "".join("nodeset q%d = q%d;\n" % (k, (k + 1) % n) for k in range(n)),
        lambda: N + P + "".join("node n%d { };\n" % k for k in range(n)),
        lambda: N + P + "".join("node n%d { };\n" % k for k in range(20000)),
        lambda: "root node a { children { %s } };" % ", ".join("a c%d" % k for k in range(n)) + P,
        lambda: "root node a { attributes { %s } };" % ", ".join("int c%d" % k for k in range(n)) + P,
        lambda: "root node a { attributes { synthesized { %s } }, equations { %s } };" % (
            ", ".join("int c%d" % k for k in range(min(n, 60))), ", ".join("this.c%d = { %s }" % (k, ", ".join("this.c%d" % m for m in range(k))) for k in range(min(n, 60)))) + P,
        lambda: N + P + "enum e { prefix = E, values { %s } };" % ", ".join("v%d" % k for k in range(n)),
        lambda: N + "start phase st { actions { %s } };" % "".join("pass p%d;" % k for k in range(n)),
        lambda: N + "start " + "".join("phase p%d { actions { " % k for k in range(min(n, 300))) + "pass q;" + " } }; " * min(n, 300),
        lambda: N + "start " + "".join("phase p%d { actions { " % k for k in range(n)),
        lambda: N + P + "/*" + " " * huge + "*/ node b { };", lambda: N + P + "/* x */" * (huge // 7), lambda: N + P + "//" + "x" * huge,
        lambda: N + P + "/*" + "*" * huge, lambda: N + P + "/* /* " * 300, lambda: N + P + "//", lambda: N + P + "/", lambda: N + P + "/*", lambda: N + P + '"', lambda: N + P + "\\",
        lambda: N + P + 'pass q { info = "%s", func = z };' % ("%n%s\\\"" * (huge // 6)),
        lambda: N + P + 'pass q { info = "%s", func = z };' % ("a\n" * (huge // 2)), lambda: N + P + 'pass q { info = "\0", func = z };', lambda: N + P + 'pass q { info = "' + "x" * huge,
        lambda: N + P + 'pass q { info = "", func = z };', lambda: N + P + "traversal t { uid = %s };" % ("U" * huge),
        lambda: "root node a { lifetime { disallowed %s } };" % ("[%s -> %s)" % (".".join(["st"] * n), ".".join(["pp"] * n))) + P,
        lambda: "root node a { lifetime { disallowed [st.pp -> st.nope.%s) } };" % ".".join(["x"] * n) + P,
        lambda: "root node a { attributes { user \"%s\" u } };" % ("x" * huge) + P,
        lambda: bytes(r.randrange(256) for _ in range(r.choice([1, 10, 1000, 20000]))).decode("latin-1"),
        lambda: " ".join(r.choice(WORDS + MARKS + ["a", "b", "c"]) for _ in range(r.choice([1, 5, 50, 2000]))),
        lambda: r.choice(WORDS + MARKS), lambda: "\0" * r.choice([1, 2, 20000]), lambda: "\x80\xff\xfe" * r.choice([1, 7000]),
    ]
    return L[i % len(L)]().encode("utf-8", "replace"), len(L)


OPTS = [["--verbose"], ["-v"], ["--help"], ["--version"], ["--show-ast"], ["--show-structure"], ["--consistency-checks"], ["--breakpoints"], ["--inspectpoints"], ["--serialise"],
        ["--profiling"], ["--debug"], ["--backend", "dynamic"], ["--backend", "typed"], ["--backend", "nope"], ["--backend", ""], ["--dot", "x.dot"],
        ["--breakpoint", "startphase"], ["--breakpoint", ""], ["--breakpoint", "."], ["--breakpoint", "a.b.c"], ["--breakpoint", "x" * 3000], ["-b", "startphase"],
        ["--ag-scheduler-max-iter", "0"], ["--ag-scheduler-max-iter", "1"], ["--ag-scheduler-max-iter", "-1"], ["--ag-scheduler-max-iter", "99999999999999999999"],
        ["--ag-scheduler-max-iter", "x"], ["--ag-scheduler-max-iter", ""], ["--ag-scheduler-max-iter", "5x"], ["--nope"], ["-z"], ["--verb"], ["--gen"], ["--backend"], ["--gen-dir"],
        ["--gen-dir", ""], ["--gen-dir", "o"], ["--gen-dir", "o/"], ["--gen-dir", "./"], ["--gen-dir", "o//"], ["--gen-dir", "no/such/dir"], ["--gen-dir", "i.ccn"], ["--gen-dir", "x" * 300],
        ["--gen-dir", "x" * 5000], ["--"], ["i.ccn"], ["nope.ccn"], [""], ["-"]]
BREAKS = ["startphase", "loaddsl", "startphase.loaddsl", "loaddsl.sanitycheck", "Semantic", "checks", "USR", "a.b", "..", "loaddsl.", ".loaddsl", "%s%n"]


def verdict(r):
    """None if the run is as promised, else (short key, why)"""
    if r.timeout:
        return "does not terminate", "no end within the time limit"
    if r.sanitizer:
        return "crash: " + re.sub(r"0x[0-9a-f]+|\d{4,}", "N", r.sanitizer[0])[:90], r.sanitizer[1]
    if r.rc not in (0, 1):
        return "status %s" % r.rc, "exit status %s" % r.rc
    if r.rc == 1 and not r.err.strip() and not re.search(r"Usage|Error", r.out):
        return "rejected without a message", "status 1 and nothing on stderr"
    if r.rc == 0 and re.search(r"^(error|abort): ", r.err, re.M | re.I):
        return "error reported but status 0", "status 0"
    return None


_j = None


def the_jail(b, plain=None):
    global _j
    if _j is None:
        _j = jail.Jail(b.cocogen)
    return _j


def mutants(a):
    b, seed, k, seeds = a
    j = the_jail(b)
    out = []
    d = j.dir("m%d" % seed)
    r = random.Random(seed)
    for i in range(k):
        x, what = mutate(r, base(r, seeds), seeds)
        j.write(d + "/i.ccn", x)
        opts = []
        for _ in range(r.choice([0, 0, 0, 0, 1, 2])):
            opts += r.choice(OPTS[4:13])
        if r.random() < 0.1:
            opts += ["--breakpoint", r.choice(BREAKS)]
        res = j.run([j.bin + "/cocogen", *opts, "--gen-dir", "o", "i.ccn"], d)
        out.append((what, opts, verdict(res), res.rc, x, first(res), res.err[:1500]))
    subprocess.run(["chmod", "-R", "u+rwx", d])
    shutil.rmtree(d, ignore_errors=True)
    return out


def first(r):
    """the first message, without names and places: which diagnosis this was"""
    m = re.search(r"^(?:error|abort|warning)[^\n]*", r.err, re.M | re.I)
    return re.sub(r"['\"].*?['\"]|[A-Za-z]*\d+\w*|0x\w+", "~", m.group(0))[:60] if m else "ok" if r.rc == 0 else "other"


def odd(a):
    b, seed, i = a
    j = the_jail(b)
    r = random.Random(seed)
    d = j.dir("e%d" % seed)
    x, _ = extreme(r, i)
    j.write(d + "/i.ccn", x)
    res = j.run([j.bin + "/cocogen", "--gen-dir", "o", "i.ccn"], d, timeout=60)
    shutil.rmtree(d, ignore_errors=True)
    return [("extreme %d" % i, [], verdict(res), res.rc, x, first(res), res.err[:1500])]


def grammars(a):
    """attribute grammars that need several visits, at random or circular, in several declaration orders"""
    b, seed, k = a
    j = the_jail(b)
    out = []
    d = j.dir("g%d" % seed)
    r = random.Random(seed)
    for i in range(k):
        mode = r.choice("MMMRRL")
        if mode == "M":
            c = ag.AgCfg(mode="M", stages=r.randint(2, 5), force=r.random() < 0.5, inh=(1, 4), syn=(1, 4), deps=(0, r.randint(1, 3)), overlap=r.choice([0, 0.3]))
        else:
            c = ag.AgCfg(mode=mode, deps=(0, r.randint(1, 3)), nodes=(1, 8))
        s = ag.gen(r.randrange(1 << 40), c)
        if r.random() < 0.2:
            ag.close_cycle(s, r)
        if r.random() < 0.7:
            s = ag.reorder(s, r)
        x = S.to_dsl(s, random.Random(i)).encode()
        j.write(d + "/i.ccn", x)
        opts = r.choice([[], [], ["--ag-scheduler-max-iter", str(r.choice([0, 1, 2, 7, 100]))], ["-v"]])
        res = j.run([j.bin + "/cocogen", *opts, "--gen-dir", "o", "i.ccn"], d, timeout=60)
        out.append(("grammar " + mode, opts[:1], verdict(res), res.rc, x, first(res), res.err[:1500]))
    subprocess.run(["chmod", "-R", "u+rwx", d])
    shutil.rmtree(d, ignore_errors=True)
    return out


def options(a):
    """random option lists, mostly with a usable input"""
    b, seed, k = a
    j = the_jail(b)
    r = random.Random(seed)
    out = []
    for i in range(k):
        d = j.dir("p%d.%d" % (seed, i))
        x = (N + P).encode() if r.random() < 0.5 else c05.dsl_of(c05.bases(r.randrange(1 << 30))).encode()
        j.write(d + "/i.ccn", x)
        opts = []
        for _ in range(r.choice([0, 1, 1, 2, 3, 6])):
            opts += r.choice(OPTS)
        if r.random() < 0.85:
            opts.insert(r.randint(0, len(opts)) if r.random() < 0.2 else len(opts), "i.ccn")
        res = j.run([j.bin + "/cocogen", *opts], d)
        out.append(("options", opts, verdict(res), res.rc, x, " ".join(o for o in opts)[:200], res.err[:1500]))
        shutil.rmtree(d, ignore_errors=True)
    return out


def files(a):
    """inputs that cannot be read, outputs that cannot be created; these have to be reported with status 1"""
    b, seed = a
    j = the_jail(b)
    r = random.Random(seed)
    d = j.dir("f%d" % seed)
    good = (N + P).encode()
    j.write(d + "/i.ccn", good)
    out = []

    def t(what, args, fails=True):
        res = j.run([j.bin + "/cocogen", *args], d)
        v = verdict(res)
        if v is None and fails and res.rc != 1:
            v = "not reported: " + what, "status %s" % res.rc
        if v is None and not fails and res.rc != 0:
            v = "refused: " + what, "status %s: %s" % (res.rc, res.err[-500:])
        if v is None and fails and not res.err.strip():
            v = "no message: " + what, "nothing on stderr"
        out.append((what, args, v, res.rc, good, what, res.err[:800]))
    t("plain run", ["--gen-dir", "ok", "i.ccn"], False)
    t("missing input", ["--gen-dir", "o1", "nope.ccn"])
    t("input in a missing directory", ["--gen-dir", "o1", "no/such/i.ccn"])
    t("input is a directory", ["--gen-dir", "o1", "."])
    j.write(d + "/secret.ccn", good, 0)
    t("input without permission", ["--gen-dir", "o1", "secret.ccn"])
    t("input name too long", ["--gen-dir", "o1", "y" * 400])
    os.symlink("loop", d + "/loop")
    t("input is a symbolic link to itself", ["--gen-dir", "o1", "loop"])
    t("output below a missing directory", ["--gen-dir", "a/b/c", "i.ccn"])
    t("output directory is a file", ["--gen-dir", "i.ccn", "i.ccn"])
    t("output name too long", ["--gen-dir", "y" * 400, "i.ccn"])
    t("output name empty", ["--gen-dir", "", "i.ccn"])
    t("output directory is a symbolic link to itself", ["--gen-dir", "loop", "i.ccn"])
    os.mkdir(d + "/ro")
    os.chmod(d + "/ro", 0o555)         # owned by root
    t("output below a directory without permission", ["--gen-dir", "ro/o", "i.ccn"])
    t("output directory without permission", ["--gen-dir", "ro", "i.ccn"])
    # what a complete run leaves, with one part made unusable at a time
    tree = sorted(os.path.relpath(os.path.join(p, x), d + "/ok") for p, ds, fs in os.walk(d + "/ok") for x in ds + fs)
    for x in tree:
        o = "u%d" % len(out)
        shutil.copytree(d + "/ok", d + "/" + o)
        for p, ds, fs in os.walk(d + "/" + o):
            j.own(p)
            for f in fs:
                j.own(os.path.join(p, f))
        full = os.path.join(d, o, x)
        isdir = os.path.isdir(full)
        if isdir:
            shutil.rmtree(full)
            if r.random() < 0.5:
                j.write(full, b"in the way")
                t("file in the way of directory " + x, ["--gen-dir", o, "i.ccn"])
            else:
                os.mkdir(full, 0o555)
                wants = any(y.startswith(x + "/") and os.path.isfile(d + "/ok/" + y) and y.count("/") == x.count("/") + 1 for y in tree) or any(
                    os.path.isdir(d + "/ok/" + y) and y.startswith(x + "/") for y in tree)
                t("directory %s without permission" % x, ["--gen-dir", o, "i.ccn"], wants)
        else:
            os.remove(full)
            k = r.random()
            if k < 0.4:
                os.mkdir(full)
                t("directory in the way of file " + x, ["--gen-dir", o, "i.ccn"])
            elif k < 0.7:
                os.symlink("/no/such/place", full)
                t("dangling link in the way of file " + x, ["--gen-dir", o, "i.ccn"])
            else:
                j.write(full, b"", 0o400)
                os.chown(full, 0, 0) if os.getuid() == 0 else None
                t("file %s without permission" % x, ["--gen-dir", o, "i.ccn"])
        shutil.rmtree(d + "/" + o, ignore_errors=True)
    shutil.rmtree(d, ignore_errors=True)
    return out


def grind(a):
    """the same kind of inputs under valgrind, which sees reads of uninitialised memory"""
    binary, seed, seeds, k = a
    j = the_jail(binary)
    r = random.Random(seed)
    d = j.dir("v%d" % seed)
    out = []
    for i in range(k):
        x, what = (base(r, seeds), "as is") if r.random() < 0.5 else mutate(r, base(r, seeds), seeds)
        x = x[:30000]
        j.write(d + "/i.ccn", x)
        opts = r.choice([[], [], ["--show-ast"], ["--consistency-checks"], ["--breakpoint", "loaddsl"], ["-v"]])
        res = j.run(["valgrind", "-q", "--error-exitcode=99", "--leak-check=no", j.bin + "/plain", *opts, "--gen-dir", "o", "i.ccn"], d, timeout=120)
        v = verdict(res)
        m = re.search(r"==\d+== (Conditional|Use of uninit|Invalid|Syscall|Source and dest|Mismatched|Process terminating|Jump to)[^\n]*", res.err)
        if m:
            f = re.findall(r"(?:at|by) 0x\w+: (\w+)", res.err)
            v = "valgrind: %s in %s" % (m.group(1), f[0] if f else "?"), res.err[:2500]
        out.append(("valgrind " + what, opts, v, res.rc, x, "valgrind " + first(res), res.err[:800]))
    shutil.rmtree(d, ignore_errors=True)
    return out


class Plain:
    pass


def main():
    ck = common.Check("C06", "one evaluation = one run of cocogen, built with ASan+UBSan or run under valgrind, as an unprivileged user on one input and option list: it must end by "
                      "itself with status 0 or 1, without a sanitizer report, and with a message if the status is 1; distinct = different input kind, options and first diagnosis")
    b = common.Build()
    bp = common.Build("plain")
    j = the_jail(b)
    j.add(bp.cocogen, "plain")
    cd = os.path.join(common.VERIF, "harness", "corpus")
    seeds = [open(os.path.join(cd, f), "rb").read() for f in sorted(os.listdir(cd))] if os.path.isdir(cd) else []
    td = os.path.join(common.REPO, "cocogen", "tests")
    for p, ds, fs in sorted(os.walk(td)):
        seeds += [open(os.path.join(p, f), "rb").read() for f in sorted(fs) if f.endswith(".ccn")]
    s0 = common.SEED * 1000003 + 60000000
    nx = extreme(random.Random(1), 0)[1]
    jobs = []
    jobs += [(odd, (b, s0 + 10**7 + i, i)) for i in range(nx * ck.n(1, 12))]
    jobs += [(files, (b, s0 + 2 * 10**7 + i)) for i in range(ck.n(3, 40))]
    jobs += [(grind, (b, s0 + 3 * 10**7 + i, seeds, 6)) for i in range(ck.n(16, 400))]
    jobs += [(options, (b, s0 + 4 * 10**7 + i, 12)) for i in range(ck.n(24, 1200))]
    jobs += [(grammars, (b, s0 + 5 * 10**7 + i, 12)) for i in range(ck.n(40, 2000))]
    jobs += [(mutants, (b, s0 + i, 25, seeds)) for i in range(ck.n(100, 12000))]
    if seeds:
        jobs += [(asis, (b, seeds[i::16], i)) for i in range(16)]
    for out in common.pmap(call, jobs):
        for what, opts, v, rc, x, msg, err in out:
            kind = what.split()[0].split("+")[0]
            ck.count("status %s" % rc)
            ck.count("kind: " + ("mutant" if "+" in what or len(kind) <= 6 and kind not in ("plain",) else kind))
            ck.observe((kind, tuple(opts), msg), {"kind": what[:60], "options": opts, "status": rc, "message": msg})
            if v:
                ck.violation(v[0], "%s, options %s: %s\n%s" % (what, opts, v[1][:2500], err), {"input.ccn": x, "options.txt": " ".join(opts)})
    return ck.finish(200)


def asis(a):
    b, seeds, n = a
    j = the_jail(b)
    d = j.dir("s%d" % n)
    out = []
    for i, x in enumerate(seeds):
        j.write(d + "/i.ccn", x)
        res = j.run([j.bin + "/cocogen", "--gen-dir", "o", "i.ccn"], d)
        out.append(("corpus", [], verdict(res), res.rc, x, "%d %s" % (i, first(res)), res.err[:1500]))
    return out


def call(a):
    return a[0](a[1])


if __name__ == "__main__":
    common.main(main)
