"""Harness programs over the palm library."""
import os, re, shutil
import common

H = os.path.join(common.VERIF, "harness")


def build(ck_dir, b, name, wrap=()):
    exe = os.path.join(ck_dir, name)
    cmd = ["gcc", "-w", *common.SAN, *common.INC, "-I", H, os.path.join(H, name + ".c"), b.palm, "-o", exe]
    if wrap:
        cmd.append("-Wl," + ",".join("--wrap=" + w for w in wrap))
    r = common.run(cmd, timeout=120)
    if r.rc != 0:
        return None, r.err
    return exe, None


WRAP = ("malloc", "calloc", "realloc", "strdup", "strndup", "vasprintf")


def explore(ck, exe, args, total, chunk):
    """run `exe args SEED N` over seeds, collect CASE/STAT/SAMPLE lines and mismatches"""
    base = common.SEED * 10000019
    if common.REPLAY is not None:
        jobs = [(common.REPLAY, 1)]
    else:
        jobs = [(base + i, min(chunk, total - i)) for i in range(0, total, chunk)]

    def job(a):
        return a, common.run([exe, *args, str(a[0]), str(a[1])], timeout=120)

    for (seed, n), r in common.tmap(job, jobs):
        lines = r.out.split("\n")
        for l in lines:
            if l.startswith("CASE "):
                ck.observe(l[5:])
            elif l.startswith("STAT "):
                k, name = l[5:].split(" ", 1)
                ck.count(name, int(k))
            elif l.startswith("SAMPLE ") and len(ck.samples) < 12:
                ck.samples.append(l[7:])
        cmd = "%s %s %d %d" % (os.path.basename(exe), " ".join(args), seed, n)
        if r.timeout:
            ck.violation("timeout", "%s does not terminate" % cmd, {"stdout.txt": r.out[-5000:], "stderr.txt": r.err})
        elif r.sanitizer:
            ck.violation("sanitizer " + re.sub(r"0x[0-9a-f]+", "", r.sanitizer[0]), cmd + "\n" + r.sanitizer[1], {"stderr.txt": r.err})
        elif "MISMATCH " in r.out:
            m = r.out[r.out.index("MISMATCH ") + 9:]
            ck.violation(m.split("\n")[0], cmd + "\n" + m[:3500], {"stdout.txt": m})
        elif r.rc != 0:
            ck.violation("exit %s" % r.rc, "%s\n%s\n%s" % (cmd, r.out[-500:], r.err[-1500:]), {"stderr.txt": r.err})
