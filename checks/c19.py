#!/usr/bin/env python3
"""C19: circular attribute grammars are refused, single-pass ones are accepted, whatever the order of the declarations"""
import os, random, shutil, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import ag, common, spec as S

NORD = 3


def verdict(b, text, d, name):
    os.makedirs(d, exist_ok=True)
    f = os.path.join(d, name + ".ccn")
    open(f, "w").write(text)
    o = os.path.join(d, name + ".o")
    r = b.gen(f, o)
    shutil.rmtree(o, ignore_errors=True)
    if r.timeout:
        return "does not terminate", r
    if r.sanitizer:
        return "crash: " + r.sanitizer[0], r
    if r.rc == 0:
        return "accepted", r
    if r.rc == 1 and "error" in r.err.lower():
        return "refused", r
    return "exit %s" % r.rc, r


def job(a):
    b, seed, kind = a
    rng = random.Random(seed * 11 + 5)
    if kind == "random":
        s = ag.gen(seed, ag.AgCfg(mode="R", deps=(0, 2), overlap=0.0, nodes=(1, 6), extra_syn=rng.choice([0, 0.5])))
    elif kind == "multi":
        k = rng.randint(2, 4)
        s = ag.gen(seed, ag.AgCfg(mode="M", stages=k, force=rng.random() < 0.5, inh=(1, 4), syn=(1, 4), deps=(0, rng.randint(1, 3)),
                                  overlap=rng.choice([0, 0.3])))
    else:
        s = ag.gen(seed, ag.AgCfg(mode="L"))
    want = ag.circular(s)
    if kind == "cycle":
        if want is not False or not ag.close_cycle(s, rng):
            return None
        want = True
    if kind in ("single", "multi"):
        assert want is not True
        want = False
    if kind == "multi" and rng.random() < 0.3:
        if not ag.close_cycle(s, rng):
            return None
        want = True
    d = os.path.join(common.scratch(), "%s%d" % (kind, seed))
    out = []
    for k in range(NORD):
        t = s if k == 0 else ag.reorder(s, rng)
        text = S.to_dsl(t, random.Random(k))
        v, r = verdict(b, text, d, "o%d" % k)
        out.append((v, text, r.err[-1500:]))
        if r.timeout:
            break
    shutil.rmtree(d, ignore_errors=True)
    n = sum(len(x.eqs) for x in s.nodes)
    deps = sum(len(e.deps or []) for x in s.nodes for e in x.eqs)
    return seed, kind, want, out, n, deps, bool(s.nodesets)


def main():
    ck = common.Check("C19", "one evaluation = one verdict of cocogen on one attribute grammar in one declaration order; distinct = different "
                      "text with at least one dependency between attributes")
    b = common.Build()
    n = ck.n(400, 9000)
    seeds = [common.SEED * 1000003 + 500000 + i for i in range(n)]
    if common.REPLAY is not None:
        seeds = [common.REPLAY]
    jobs = [(b, x, k) for x in seeds for k in ("single", "cycle", "random", "multi")]
    for res in common.pmap(job, jobs):
        if res is None:
            ck.count("no cycle found")
            continue
        seed, kind, want, out, n, deps, sets = res
        ck.count("grammars: " + kind)
        ck.count("equations", n)
        ck.count("dependencies", deps)
        ck.count("with node sets", int(sets))
        truth = {True: "circular", False: "not circular", None: "undecided"}[want]
        for k, (v, text, err) in enumerate(out):
            ck.count("%s (%s): %s" % (kind, truth, v))
            ck.observe(text if deps else None, {"seed": seed, "kind": kind, "truth": truth, "order": k, "verdict": v})
            what = "%s grammar, seed %d, order %d (%s): %s\n%s" % (kind, seed, k, truth, v, err[-800:])
            if v not in ("accepted", "refused"):
                ck.violation("no-verdict:" + v.split(":")[0], what, {"spec.ccn": text})
            elif want is True and v != "refused":
                ck.violation("circular-accepted", what, {"spec.ccn": text})
            elif kind == "single" and v != "accepted":
                ck.violation("single-pass-refused", what, {"spec.ccn": text})
            elif v != out[0][0]:
                ck.violation("order-dependent", what + "\nother order: " + out[0][0], {"spec.ccn": text, "other.ccn": out[0][1]})
    return ck.finish(100)


if __name__ == "__main__":
    common.main(main)
