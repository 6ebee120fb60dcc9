"""Exploration of generated compilers: specifications x workload scripts, compared with the reference model."""
import os, random, shutil, sys
import common, engine, spec as S
from workload import WL


def files_of(c, d, name):
    out = dict(c.files)
    for f in (name + ".scr", name + ".log", "drv.c"):
        p = os.path.join(d, f)
        if os.path.exists(p):
            out[f] = open(p, "rb").read()
    return out


def job(a):
    """one specification and its scripts; runs in a worker process"""
    b, seed, cfg, nscr, make, gen_args, ev, tweak = a
    s = cfg(seed) if callable(cfg) else S.gen_spec(seed, cfg)
    rng = random.Random(seed ^ 0x5eed)
    text = None
    if tweak:
        text = tweak(s, rng)
    d = os.path.join(common.scratch(), "s%d" % seed)
    out = {"seed": seed, "viol": [], "runs": [], "spec": None}
    eqs = evaluator = None
    if ev:
        eqs, evaluator = ev(s)
    c = engine.build_spec(b, s, d, text=text, gen_args=gen_args, eqs=eqs)
    if c.problem and c.problem[0] == "generator-rejects" and getattr(cfg, "may_refuse", False):
        out["refused"] = True
        shutil.rmtree(d, ignore_errors=True)
        return out
    if c.problem:
        out["viol"].append(("spec-" + c.problem[0], "specification seed %d: %s" % (seed, c.problem[1]), c.files))
        shutil.rmtree(d, ignore_errors=True)
        return out
    for k in range(nscr):
        r = random.Random(seed * 1000 + k)
        script = make(r, s, k)
        if script is None:
            continue
        p, sim = engine.run_script(c, s, script, d, "t%d" % k, evaluator)
        fp = [l for l in sim.log]
        out["runs"].append((hash(tuple(fp)) & 0xffffffffffff, len(sim.log), sim.end, dict(sim.stats), sim.log[:12] if k == 0 else None))
        if p:
            fs = files_of(c, d, "t%d" % k)
            fs["expected.log"] = "\n".join(sim.log) + "\n"
            fs["stderr.txt"] = sim.res.err
            out["viol"].append((p[0], "specification seed %d script %d: %s" % (seed, k, p[1]), fs))
            if len(out["viol"]) > 3 or p[0] == "timeout":
                break
    if common.REPLAY is None:
        shutil.rmtree(d, ignore_errors=True)
    return out


class Mixed:
    """a configuration in which a share of the specifications also has lifetimes"""
    may_refuse = False

    def __init__(self, cfg, share):
        self.cfg, self.share = cfg, share

    def __call__(self, seed):
        c = self.cfg
        if random.Random(seed).random() < self.share:
            c = S.Cfg(**c.__dict__)
            c.lifetimes = True
        return S.gen_spec(seed, c)


class AttributeGrammars:
    """specifications with an attribute grammar: inherited and synthesized attributes next to plain ones"""
    may_refuse = False
    KW = dict(mode="L", types=None, set_classic=0.9, nclassic=(1, 4), inner_classic=0.7, overlaps=(0, 3), overlap=0.9,
              overlap_classic=0.7, extra_syn=0.5, chain=0.85, nest=(1, 2, 2, 3, 3), bare=0.3, families=(1, 2), famsize=6, nodes=(4, 9), repeat=0.4)

    def __call__(self, seed):
        import ag
        return ag.gen(seed, ag.AgCfg(**self.KW))


def explore(ck, b, cfg, make, nspec, nscr, nontrivial=None, gen_args=(), ev=None, tweak=None, base=0, jobfn=job):
    """nontrivial(stats, end, loglen) -> bool decides what counts as a distinct case"""
    seeds = [common.SEED * 1000003 + base + i for i in range(nspec)]
    if common.REPLAY is not None:
        seeds = [s for s in seeds if s == common.REPLAY] or [common.REPLAY]
    for out in common.pmap(jobfn, [(b, x, cfg, nscr, make, tuple(gen_args), ev, tweak) for x in seeds]):
        ck.count("specifications")
        if out.get("refused"):
            ck.count("refused specifications")
        for key, what, fs in out["viol"]:
            ck.violation(key, what, fs)
        for fp, n, end, st, sample in out["runs"]:
            ck.count("runs")
            ck.count("events", n)
            ck.count("ended: " + str(end[1][0]))
            for k, v in st.items():
                ck.count(k, v)
            ok = nontrivial is None or nontrivial(st, end, n)
            ck.observe(fp if ok else None, {"spec_seed": out["seed"], "log": sample, "exit": end[0]} if sample else None)
            if not ok:
                ck.count("trivial runs")
