#!/usr/bin/env python3
"""C23: allocation helpers never return unusable memory."""
import os, random, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import common, palmh, engine, rtc, spec as S
from workload import WL

NSC = 12
OPS = dict(nt=1, tS=2, id=1, tc=2, ts=1, wr=2, ld=1, rp=1, cp=2)


def judge(r, what, ck, files, exact=None):
    """a run in which one allocation failed"""
    m = re.search(r"^FAILED (\d+)$", r.out, re.M)
    if not m:
        return False
    size = int(m.group(1))
    if r.sanitizer:
        ck.violation("out of memory: " + re.sub(r"0x[0-9a-f]+", "", r.sanitizer[0])[:60], what + "\n" + r.sanitizer[1], files)
    elif r.timeout:
        ck.violation("out of memory: hangs", what, files)
    elif r.rc != 1:
        ck.violation("out of memory: exit status", "%s: exit status %s, expected 1; stderr %s" % (what, r.rc, r.err[-800:]), files)
    elif "ut of memory" not in r.err:
        ck.violation("out of memory: message", "%s: no out-of-memory message: %s" % (what, r.err[-800:]), files)
    else:
        own = "\n".join(l for l in r.err.split("\n") if "Sanitizer" not in l)
        nums = re.findall(r"\d+", own[own.rindex("ut of memory"):])
        if size and str(size) not in nums[:-2]:
            ck.violation("out of memory: size", "%s: message shows %s, requested %d" % (what, nums, size), files)
        m = re.search(r"(\d+) Error\(s\), (\d+) Warning\(s\)", r.err)
        if not m or int(m.group(1)) < 1 or (exact is not None and (int(m.group(1)), int(m.group(2))) != exact):
            ck.violation("out of memory: totals", "%s: totals %s, expected %s" % (what, m and m.groups(), exact), files)
    return True


def program(a):
    """a generated compiler in which allocations fail"""
    b, seed, d, tries = a
    s = S.gen_spec(seed, S.Cfg(nodes=(2, 4), sets=(0, 1), travs=(1, 3), passes=(1, 2), phases=(1, 2), enums=(0, 1)))
    dd = os.path.join(d, "p%d" % seed)
    c = engine.build_spec(b, s, dd, extra_defs=("-Wl," + ",".join("--wrap=" + w for w in palmh.WRAP),), extra_src=(os.path.join(palmh.H, "fault.c"),))
    if c.problem:
        return seed, None, c.problem, []
    out = []
    r = random.Random(seed)
    for k in range(2):
        w = WL(r, s, OPS, depth=2, maxnodes=10)
        reg = w.tree()
        w.main.append("run %d" % reg)
        w.plans()
        script = w.text()
        sf, lf = os.path.join(dd, "x.scr"), os.path.join(dd, "x.log")
        open(sf, "w").write(script)
        r0 = common.run([c.exe, sf, lf], timeout=60, extra={"FAULT_AT": "-1"})
        m = re.search(r"^ALLOCS (\d+)$", r0.out, re.M)
        n = int(m.group(1)) if m else 0
        at = list(range(1, n + 1))
        r.shuffle(at)
        for i in sorted(at[:tries]):
            out.append((i, n, common.run([c.exe, sf, lf], timeout=60, extra={"FAULT_AT": str(i)}), script))
    return seed, c.files, None, out


def main():
    ck = common.Check("C23", "one evaluation = one random history of malloc/realloc/copy/free on up to 24 blocks whose contents are verified after every operation, "
                      "or one run of a library scenario or a generated compiler in which exactly one allocation fails; distinct = different history or failing allocation")
    b = common.Build()
    d = common.scratch()
    exe, e = palmh.build(d, b, "mem", palmh.WRAP)
    if not exe:
        ck.violation("does-not-compile", e)
        return ck.finish()
    palmh.explore(ck, exe, ["rand"], ck.n(3000, 100000), 100)
    for s in range(NSC):
        n = None
        k = 0
        while n is None or k <= n:
            k += 1
            r = common.run([exe, "fault", str(s), str(k)], timeout=30)
            if not judge(r, "scenario %d, allocation %d fails" % (s, k), ck, {"stderr.txt": r.err}, (1, 0) if s not in (9, 11) else None):
                n = k
                if s == 10:            # 5 GB: the allocator of the sanitizer refuses
                    judge(common.Res(r.rc, "FAILED 5368709120", r.err, r.timeout), "a request of 5 GB", ck, {"stderr.txt": r.err}, (1, 0))
                elif r.rc != 0 or "DONE" not in r.out:
                    ck.violation("scenario", "scenario %d without a fault: exit %s %s" % (s, r.rc, r.err[-600:]), {"stderr.txt": r.err})
                break
            ck.observe("scenario %d fault %d" % (s, k))
            ck.count("failed allocations in the library")
            if k > 200:
                break
    seeds = [common.SEED * 1000003 + i for i in range(ck.n(12, 150))]
    for seed, files, prob, runs in common.pmap(program, [(b, x, d, ck.n(20, 60)) for x in seeds]):
        if prob:
            ck.violation("spec-" + prob[0], "specification seed %d: %s" % (seed, prob[1]))
            continue
        ck.count("generated compilers")
        for i, n, r, script in runs:
            if judge(r, "generated compiler of seed %d: allocation %d of %d fails" % (seed, i, n), ck, {**files, "script.scr": script, "stderr.txt": r.err}):
                ck.observe("program %d %d %d" % (seed, i, n))
                ck.count("failed allocations in generated compilers")
            else:
                ck.count("runs that ended before the failing allocation")
    return ck.finish(1000)


if __name__ == "__main__":
    common.main(main)
