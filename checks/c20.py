#!/usr/bin/env python3
"""C20: generation is reproducible and the generator reproduces itself"""
import copy, hashlib, os, random, shutil, subprocess, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import ag, c05, common, spec as S


def preload(name):
    """compile one of the preloaded monitors into the scratch directory"""
    so = os.path.join(common.scratch(), name + ".so")
    r = common.run(["gcc", "-shared", "-fPIC", "-O1", "-w", "-o", so, os.path.join(common.VERIF, "harness", name + ".c"), "-ldl"])
    if r.rc != 0:
        raise common.HarnessError(r.err)
    return so


def second_generation(b):
    """the generator built from what the generator makes of its own specification"""
    d = os.path.join(common.scratch(), "self")
    shutil.copytree(common.REPO, d, ignore=lambda p, ns: [n for n in ns if p == common.REPO and (n == ".git" or n.startswith(("_build", "build")))], symlinks=True)
    top = os.path.join(d, "cocogen", "ccngen")
    shutil.rmtree(top)
    r = common.run([b.cocogen, "--gen-dir", top, os.path.join(d, "cocogen", "main.ccn")], cwd=common.scratch())
    if r.rc != 0:
        return None, "cocogen refuses its own specification: " + r.err[-800:]
    for x in ("user", "log", "ag_dot"):
        shutil.rmtree(os.path.join(top, x), ignore_errors=True)
    o = os.path.join(common.scratch(), "selfb")
    r = common.run(["cmake", "-S", d, "-B", o, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=None", "-DCMAKE_C_COMPILER=/usr/bin/gcc", "-DCMAKE_C_FLAGS=-O1 -g -w"], timeout=200)
    if r.rc == 0:
        r = common.run(["ninja", "-C", o, "cocogen"], timeout=400)
    if r.rc != 0:
        return None, "the generated generator does not build: " + r.out[-1500:] + r.err[-500:]
    return os.path.join(o, "cocogen", "cocogen"), None


def tree(d):
    out = {}
    for p, ds, fs in os.walk(d):
        for f in fs:
            out[os.path.relpath(os.path.join(p, f), d)] = open(os.path.join(p, f), "rb").read()
        for x in ds:
            out[os.path.relpath(os.path.join(p, x), d) + "/"] = b""
    return out


def text(seed):
    """a specification; a third of them is refused"""
    r = random.Random(seed)
    k = seed % 6
    if k in (0, 1):
        return c05.dsl_of(c05.bases(seed * 4 + 3)), "attribute grammar"
    if k == 2:
        return c05.dsl_of(ag.gen(seed, ag.AgCfg(mode="any", nodes=(3, 8), families=(1, 3)))), "attribute grammar, any"
    if k == 3:
        return c05.dsl_of(S.gen_spec(seed, S.Cfg(nodes=(5, 14), sets=(1, 6), enums=(1, 4), travs=(1, 7), passes=(1, 5), phases=(1, 6), lifetimes=True, info=0.5))), "general"
    for _ in range(20):
        try:
            return c05.dsl_of(r.choice(c05.OPS)(copy.deepcopy(c05.bases(seed)), r)), "ill-formed"
        except c05.NA:
            pass
    return c05.dsl_of(c05.bases(seed)), "general"


def garbage(d, r, t):
    """what earlier runs may have left"""
    for n in t:
        if n.endswith("/"):
            os.makedirs(os.path.join(d, n), exist_ok=True)
    for n, c in t.items():
        if not n.endswith("/") and r.random() < 0.9:
            os.makedirs(os.path.dirname(os.path.join(d, n)), exist_ok=True)
            with open(os.path.join(d, n), "wb") as f:
                f.write(r.choice([c, c[:len(c) // 2], c + b"\n/* old */\n" * 50, b"", os.urandom(1) * 5000]))


def job(a):
    plain, gen2, so, seed, nvar = a
    t, kind = text(seed)
    r = random.Random(seed)
    top = os.path.join(common.scratch(), "r%d" % seed)
    out, viol = [], []

    def go(name, binary=plain, extra=None, cwd="ref", prior=None, opts=(), stdin=None, preexec=None):
        d = os.path.join(top, cwd)
        os.makedirs(d, exist_ok=True)
        o = os.path.join(d, "out")
        shutil.rmtree(o, ignore_errors=True)
        if prior:
            os.makedirs(o)
            prior(o)
        open(os.path.join(d, "spec.ccn"), "w").write(t)
        x = common.run([binary, *opts, "--gen-dir", "out", "spec.ccn"], cwd=d, extra=extra, timeout=40, stdin=stdin, preexec=preexec)
        return (x.rc if not x.timeout else "timeout"), tree(o) if os.path.isdir(o) else {}, x.err

    ref = go("ref")

    def cmp(name, got, other={}):
        out.append((name, kind, ref[0], len(ref[1])))
        if got[0] != ref[0]:
            viol.append(("%s: status" % name, "status %s, first run %s\n%s" % (got[0], ref[0], got[2][-1500:])))
            return
        if ref[0] != 0:
            return
        keys = set(ref[1]) | (set(got[1]) - set(other))
        bad = sorted(k for k in keys if ref[1].get(k) != got[1].get(k))
        if bad:
            f = bad[0]
            p, q = ref[1].get(f), got[1].get(f)
            if p is None or q is None:
                viol.append(("%s: %s" % (name, "missing file" if q is None else "additional file"), f))
            else:
                m = next((i for i in range(min(len(p), len(q))) if p[i] != q[i]), min(len(p), len(q)))
                viol.append(("%s: %s" % (name, (os.path.basename(f) if os.path.dirname(f) in ("", "ccngen") else os.path.dirname(f))), "%d files differ, first %s:\n%s\n--- instead of\n%s" % (
                    len(bad), f, q[max(0, m - 200):m + 200].decode("utf-8", "replace"), p[max(0, m - 200):m + 200].decode("utf-8", "replace"))))

    cmp("same again", go("same"))
    for i in range(nvar):
        k = r.randrange(1, 1 << 31)
        cmp("other memory layout", go("mem", extra={"LD_PRELOAD": so, "PERTURB": str(k)}))
    cmp("other directory", go("dir", cwd="a much/deeper/one with spaces/%s" % ("d" * r.randint(1, 60))))
    e = {"V%d" % i: "x" * r.randint(0, 3000) for i in range(r.randint(1, 20))}
    e.update({"LC_ALL": r.choice(["tr_TR.UTF-8", "de_DE.UTF-8", "C.UTF-8", "POSIX", "nonsense"]), "LANG": "de_DE", "TZ": r.choice(["UTC", "Asia/Tokyo", ""]), "HOME": "/nonexistent", "PATH": "/nonexistent",
              "TMPDIR": "/nonexistent", "COLUMNS": "20", "TERM": "dumb", "USER": "nobody", "MALLOC_PERTURB_": str(r.randrange(256)), "MALLOC_ARENA_MAX": "1", "MALLOC_MMAP_THRESHOLD_": "64"})
    cmp("other environment", go("env", extra=e, stdin=b"y\n" * 100))
    left = {}

    def prior(o):
        garbage(o, r, ref[1])
        left.update(tree(o))
    cmp("output of an earlier run", go("stale", prior=prior), left)
    t2 = text(seed + 600 * r.randint(1, 5))[0]

    def prior2(o):
        p = os.path.join(top, "other.ccn")
        open(p, "w").write(t2)
        common.run([plain, "--gen-dir", o, p], timeout=40)
        left.clear()
        left.update(tree(o))
    cmp("output for another specification", go("stale2", prior=prior2), left)
    if gen2:
        cmp("generator made by itself", go("gen2", binary=gen2))
        k = r.randrange(1, 1 << 31)
        cmp("generator made by itself, other memory layout", go("gen2", binary=gen2, extra={"LD_PRELOAD": so, "PERTURB": str(k)}))
    shutil.rmtree(top, ignore_errors=True)
    return seed, t, out, viol


def main():
    ck = common.Check("C20", "one evaluation = one run of cocogen on one specification in a changed setting (memory layout and garbage by a preloaded allocator, directory, environment, leftovers of "
                      "other runs, or the generator built from its own output), compared byte by byte and in verdict with the first run; distinct = different setting and output")
    b = common.Build("plain")
    so = preload("perturb")
    gen2, why = second_generation(b)
    ck.count("second generation built", 1 if gen2 else 0)
    if why:
        ck.violation("the generator does not reproduce itself", why)
    n = ck.n(420, 12000)
    jobs = [(b.cocogen, gen2, so, common.SEED * 1000003 + 20000000 + i, ck.n(2, 4)) for i in range(n)]
    if common.REPLAY is not None:
        jobs = [(b.cocogen, gen2, so, common.REPLAY, 8)]
    for seed, t, out, viol in common.pmap(job, jobs):
        for name, kind, st, nf in out:
            ck.count(name)
            ck.count("%s, status %s" % (kind, st))
            ck.observe((name, hashlib.sha1(t.encode()).hexdigest()), {"seed": seed, "setting": name, "specification": kind, "status": st, "files": nf})
        for key, what in viol:
            ck.violation(key, "specification seed %d: %s" % (seed, what), {"spec.ccn": t})
    # the generator's own specification
    t = open(os.path.join(common.REPO, "cocogen", "main.ccn")).read()
    if common.REPLAY is None:
        trees = []
        for i, (g, e) in enumerate([(b.cocogen, {}), (b.cocogen, {"LD_PRELOAD": so, "PERTURB": "5"}), (gen2, {}), (gen2, {"LD_PRELOAD": so, "PERTURB": "9"})]):
            if g is None:
                continue
            o = os.path.join(common.scratch(), "own%d" % i)
            r = common.run([g, "--gen-dir", o, os.path.join(common.REPO, "cocogen", "main.ccn")], extra=e, timeout=60)
            trees.append((r.rc, tree(o)))
            ck.observe(("own specification", i), {"setting": "own specification", "files": len(trees[-1][1])})
            if trees[-1] != trees[0]:
                bad = sorted(k for k in set(trees[0][1]) | set(trees[-1][1]) if trees[0][1].get(k) != trees[-1][1].get(k))
                ck.violation("own specification, run %d" % i, "status %s and %s, differing files %s" % (trees[0][0], r.rc, bad[:5]))
    return ck.finish(100)


if __name__ == "__main__":
    common.main(main)
