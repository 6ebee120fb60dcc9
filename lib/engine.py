"""Generate, compile and run generated compilers; compare with the reference model."""
import os, random, re, shutil, sys, tempfile
import common
from common import GENCC, INC, copra_sources, run
import ag, cgen, spec as S, model
from workload import WL

RT = os.path.join(common.VERIF, "rt")


class Compiled:
    def __init__(self):
        self.exe = None
        self.problem = None      # (key, text): generation or compilation failed
        self.files = {}


def build_spec(b, s, d, text=None, gen_args=(), eqs=None, extra_defs=(), extra_src=()):
    """generate and compile the driver of specification s in directory d"""
    c = Compiled()
    os.makedirs(d, exist_ok=True)
    text = text if text is not None else S.to_dsl(s, random.Random(1))
    c.text = text
    c.files["spec.ccn"] = text
    sf = os.path.join(d, "spec.ccn")
    with open(sf, "w") as f:
        f.write(text)
    o = os.path.join(d, "o")
    r = b.gen(sf, o, gen_args)
    if r.timeout:
        c.problem = ("generator-timeout", "cocogen does not terminate")
        return c
    if r.sanitizer:
        c.problem = ("generator-crash", r.sanitizer[1])
        return c
    if r.rc != 0:
        c.problem = ("generator-rejects", "exit %s on a well-formed specification:\n%s" % (r.rc, r.err[-1500:]))
        return c
    with open(os.path.join(d, "drv.c"), "w") as f:
        try:
            f.write(cgen.drv(s, eqs(s, o) if callable(eqs) else eqs))
        except ag.Missing as e:
            c.problem = ("missing-function", str(e))
            return c
    with open(os.path.join(d, "user_types.h"), "w") as f:
        f.write(cgen.user_types_h(s))
    srcs = sorted(os.path.join(o, f) for f in os.listdir(o) if f.endswith(".c"))
    exe = os.path.join(d, "drv")
    cmd = GENCC + list(extra_defs) + ["-I", os.path.join(o), "-I", d, "-I", RT] + INC + srcs + copra_sources() + [
        os.path.join(RT, "rt.c"), os.path.join(d, "drv.c"), *extra_src, b.palm, "-lm", "-o", exe]
    r = run(cmd, timeout=180)
    if r.timeout:
        raise common.HarnessError("compiler timed out")
    if r.rc != 0:
        c.problem = ("does-not-compile", r.err[-3000:])
        return c
    c.exe = exe
    return c


ABORT = re.compile(r"\*\*\*|abort|rror", re.I)


def norm_show(out):
    """printed phase tree -> depth|id|name lines"""
    o = []
    for l in out.split("\n"):
        if not l.strip():
            continue
        m = re.match(r"^(\s*)(\d+)\s*:\s*(\S+)\s*$", l)
        if not m:
            return "unparsable: " + l
        o.append("%d|%s|%s" % (len(m.group(1).replace("    ", "\t")), m.group(2), m.group(3)))
    return "\n".join(o) + ("\n" if o else "")


def match_eval(exp, log):
    """inside an evaluation the order of the calls is free, and calls marked ? may be missing"""
    def blocks(l):
        out, cur = [], None
        for x in l:
            if cur is not None:
                if x == "evald":
                    out += [cur, x]
                    cur = None
                else:
                    cur.append(x)
            else:
                out.append(x)
                if x.startswith("eval "):
                    cur = []
        if cur is not None:
            out.append(cur)
        return out
    be, bl = blocks(exp), blocks(log)
    e2, l2 = [], []
    for i in range(max(len(be), len(bl))):
        x = be[i] if i < len(be) else None
        y = bl[i] if i < len(bl) else None
        if isinstance(x, list) and isinstance(y, list):
            opt = [q[1:] for q in x if q.startswith("?")]
            x = sorted(q for q in x if not q.startswith("?"))
            need = {}
            for q in x:
                need[q] = need.get(q, 0) + 1
            y2 = []
            for q in y:
                if need.get(q, 0) > 0:
                    need[q] -= 1
                    y2.append(q)
                elif q in opt:
                    opt.remove(q)
                else:
                    y2.append(q)
            e2 += x
            l2 += sorted(y2)
        else:
            for src, dst in ((x, e2), (y, l2)):
                if isinstance(src, list):
                    dst += [q for q in src if not q.startswith("?")]
                elif src is not None:
                    dst.append(src)
    return e2, l2


def progress(err):
    """the progress lines on standard error: phases entered and left, actions started, phases skipped"""
    out = []
    for l in err.split("\n"):
        m = re.match(r"(>>|<<) (\S+)$", l) or re.match(r" *(\*\*\*) (\S+)$", l)
        if m:
            out.append(m.group(1) + " " + m.group(2))
        elif re.match(r"\[coconut\] skip", l, re.I):
            out.append("skip " + re.search(r"phase (\S+)", l).group(1))
    return out


def run_script(c, s, script, d, name="t", evaluator=None, timeout=30):
    """-> (problem or None, sim)"""
    sf, lf = os.path.join(d, name + ".scr"), os.path.join(d, name + ".log")
    with open(sf, "w") as f:
        f.write(script)
    sim = model.Sim(s, script)
    sim.evaluator = evaluator
    code, why = sim.main()
    r = run([c.exe, sf, lf], timeout=timeout)
    try:
        # of a log much longer than it should be the beginning is enough
        log = open(lf, "rb").read(8 * sum(len(l) + 1 for l in sim.log) + (1 << 22)).decode("latin-1").split("\n")
    except OSError:
        log = []
    log = [l.rstrip() for l in log if l.strip()]
    exp = [l for l in sim.log if l.strip()]
    if evaluator:
        exp, log = match_eval(exp, log)
    sim.res = r
    sim.end = (code, why)
    sim.actual_log = log
    prob = None
    if sim.unspecified and not (r.timeout or r.sanitizer):
        sim.stat("not judged: target in an ill-typed place")
    elif r.timeout:
        prob = ("timeout", "the program does not terminate; last events: %s" % log[-3:])
    elif r.sanitizer:
        prob = ("sanitizer", r.sanitizer[1] + "\nlast events:\n" + "\n".join(log[-5:]))
    elif log != exp:
        i = next((i for i, (x, y) in enumerate(zip(log, exp)) if x != y), min(len(log), len(exp)))
        prob = ("trace", "event %d: expected %r, observed %r (before: %r); expected exit %d %s, exit %s; stderr %s" % (
            i, exp[i] if i < len(exp) else "(end)", log[i] if i < len(log) else "(end)", exp[max(0, i - 3):i], code, why, r.rc, r.err[-600:]))
    elif r.rc in (97, 98, 99) and r.rc != code:
        raise common.HarnessError("driver exit %d: %s" % (r.rc, r.err[-500:]))
    elif r.rc != code:
        prob = ("exit status", "expected exit %d %s, observed %s; stderr: %s" % (code, why, r.rc, r.err[-1500:]))
    else:
        if code == 1 and why[0] in ("action error", "phase error", "abort", "abort on error", "tree"):
            nerr = sim.errors
            m = [int(x) for x in re.findall(r"(\d+)\s+[Ee]rror", r.err)]
            if not r.err.strip():
                prob = ("message", "no message on standard error")
            elif why[0] == "tree":
                said = [set(re.findall(r"\w+", l.lower())) for l in r.err.split("\n")]
                for bad in sim.bad:
                    words = {x.lower() for x in bad[1:] if x}
                    if not any(words <= x for x in said):
                        prob = ("message", "%s at %s is not named: %s" % (bad[0], " ".join(x for x in bad[1:] if x), r.err[-800:]))
                        break
                if not m or max(m) <= nerr - 1:
                    prob = ("totals", "expected at least %d errors in the totals: %s" % (nerr, r.err[-600:]))
            elif nerr not in m:
                prob = ("totals", "expected %d errors in the totals: %s" % (nerr, r.err[-600:]))
        if not prob:
            got = progress(r.err)
            if got != sim.progress:
                i = next((i for i, (x, y) in enumerate(zip(got, sim.progress)) if x != y), min(len(got), len(sim.progress)))
                prob = ("progress", "line %d: expected %r, printed %r (before: %r)" % (i, sim.progress[i:i + 1], got[i:i + 1], got[max(0, i - 3):i]))
        if sim.out and not prob:
            got = norm_show(r.out)
            want = "".join(sim.out)
            if got != want:
                prob = ("phase tree", "expected\n%s\nprinted\n%s" % (want, r.out))
    return prob, sim
