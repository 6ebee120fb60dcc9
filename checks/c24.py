#!/usr/bin/env python3
"""C24: generation touches nothing outside its output directory"""
import hashlib, os, random, resource, shutil, signal, stat, subprocess, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import c05, c06, c20, common, jail

_j = None


def the_jail(a):
    global _j
    if _j is None:
        _j = jail.Jail(a[0])
        _j.add(a[1], "iolog.so")
        _j.add(a[2], "san")
        c06._j = jail.Jail(a[2])
    return _j


def snap(top):
    """everything below top: type, mode, owner, content, and for what is no directory also the modification time"""
    out = {}
    for p, ds, fs in os.walk(top):
        for n in ds + fs:
            f = os.path.join(p, n)
            s = os.lstat(f)
            k = os.path.relpath(f, top)
            if stat.S_ISLNK(s.st_mode):
                out[k] = ("link", os.readlink(f))
            elif stat.S_ISDIR(s.st_mode):
                out[k] = ("dir", s.st_mode, s.st_uid, s.st_ino)
            else:
                out[k] = ("file", s.st_mode, s.st_uid, s.st_ino, s.st_mtime_ns, hashlib.sha1(open(f, "rb").read()).hexdigest())
    return out


NAMES = ["out", "a b", "x'y\"z", "per%cent%s%n", "\u00e9t\u00e9", "back\\slash", "semi;colon", "do$HOME", "*", "a.b.c", "-out", "...", "out.ccn", "ccngen", "user", "log", "o" * 200, "new\nline", "~", "o=1", "#x", "(p)"]


def spellings(r, w):
    """(what, value of --gen-dir or None, working directory, resulting directory), all relative to the world w"""
    n = r.choice(NAMES)
    d = "w/" + n
    A = os.path.join(w, d)
    return [
        ("relative", n, "w", d), ("relative with slash", n + "/", "w", d), ("relative with two slashes", n + "//", "w", d),
        ("dot slash", "./" + n, "w", d), ("absolute", A, "w", d), ("absolute with slash", A + "/", "w", d),
        ("absolute with detours", os.path.join(w, "w", "..", ".", "w", n), "w", d), ("through the parent", "../w/" + n, "w", d),
        ("through a subdirectory", "sub/../" + n, "w", d), ("below a subdirectory", "sub/" + n, "w", "w/sub/" + n),
        ("from another directory", "../w/" + n, "in", d), ("double slashes inside", "..//w//" + n, "w", d),
        ("the working directory", ".", "w", "w"), ("the working directory with slash", "./", "w", "w"), ("the parent", "..", "w/sub", "w"),
        ("through a link to a directory", "ln", "w", "w/target"), ("below a link to a directory", "ln/" + n, "w", "w/target/" + n), ("absolute link with slash", os.path.join(w, "w/ln/"), "w", "w/target"),
        ("deep", "/".join(["sub", "deep", "er", n]), "w", "w/sub/deep/er/" + n), ("default", None, "w", "w/ccngen"),
        ("long absolute", os.path.join(w, "w", *["x" * 100] * 4, "o"), "w", "w/" + "/".join(["x" * 100] * 4) + "/o"),
    ]


def job(a):
    plain, so, san, seed, refs = a
    j = the_jail(a)
    r = random.Random(seed)
    t, kind = c20.text(seed)
    out, viol = [], []
    w = j.dir("w%d" % seed)
    # reference: a plain absolute output directory
    ref = None
    for k, (what, arg, cwd, dest) in enumerate([("reference", os.path.join(w, "ref/out"), "ref", "ref/out")] + spellings(r, w)):
        if k and r.random() > 0.6 and not a[4]:
            continue
        for x in os.listdir(w):
            shutil.rmtree(os.path.join(w, x))
        for x in ("in", "w", "w/sub", "w/sub/deep", "w/sub/deep/er", "w/target", "ref", "w/" + "x" * 100, "w/" + "/".join(["x" * 100] * 2), "w/" + "/".join(["x" * 100] * 3), "w/" + "/".join(["x" * 100] * 4)):
            os.mkdir(os.path.join(w, x))
            j.own(os.path.join(w, x))
        os.symlink("target", os.path.join(w, "w/ln"))
        for x in ("in/other.txt", "w/keep.c", "w/sub/keep.h", "in/spec2.ccn", "w/ast.h", "w/main.ccn", "w/sub/ast.c"):
            j.write(os.path.join(w, x), "keep me: %s\n" % x)
        ispec = r.choice(["in/spec.ccn", "w/spec.ccn", "w/sub/spec.ccn"])
        full = os.path.join(w, ispec)
        j.write(full, t, r.choice([0o644, 0o444, 0o400]))
        inp = r.choice([full, os.path.relpath(full, os.path.join(w, cwd))])
        state = r.choice(["missing", "missing", "empty", "used", "with files"])
        dd = os.path.join(w, dest)
        if not os.path.isdir(dd) and state != "missing":
            os.makedirs(dd)
            j.own(dd)
            if state == "used" and ref and ref[0] == 0:
                for n, c in sorted(ref[1].items()):
                    if n.endswith("/"):
                        os.makedirs(os.path.join(dd, n), exist_ok=True)
                for n, c in sorted(ref[1].items()):
                    if not n.endswith("/"):
                        j.write(os.path.join(dd, n), c + b"x" * r.randint(0, 50))
                for p, ds, fs in os.walk(dd):
                    j.own(p)
        before = snap(w)
        log = os.path.join(j.base, "log%d" % seed)
        j.write(log, b"")
        opts = r.choice([[], [], ["--show-ast"], ["-v"], ["--consistency-checks"], ["--dot", "x"], ["--breakpoint", "loaddsl"]]) if k else []
        # the library that records calls, or the sanitized generator
        inst = r.random() < 0.7
        g = [] if arg is None else (["--gen-dir=" + arg] if arg.startswith("-") or r.random() < 0.3 else ["--gen-dir", arg])
        res = j.run([j.bin + ("/cocogen" if inst else "/san"), *opts, *g, "--", inp], os.path.join(w, cwd),
                    extra={"LD_PRELOAD": j.bin + "/iolog.so", "IOLOG": log} if inst else None)
        after = snap(w)
        rc = res.rc if not res.timeout else "timeout"
        out.append((what, kind, state, rc, inst, os.path.basename(arg or "")[:30]))

        def bad(key, why):
            viol.append(("%s: %s" % (what, key), "--gen-dir %r in %s (%s), input %s: %s\n%s" % (arg, cwd, state, inp, why, res.err[-800:]), t))
        if res.sanitizer:
            bad("crash", res.sanitizer[1])
            continue
        changed = [x for x in sorted(set(before) | set(after)) if before.get(x) != after.get(x)]
        inside = dest + "/"
        foreign = [x for x in changed if x != dest and not x.startswith(inside)]
        if foreign:
            bad("changes outside", "changed or created: %s" % foreign[:5])
        if before.get(ispec) != after.get(ispec):
            bad("changes the input", "%s -> %s" % (before.get(ispec), after.get(ispec)))
        gone = [x for x in before if x not in after]
        if gone:
            bad("removes files", str(gone[:5]))
        if ref is not None and ref[0] == 0:
            # files in the output directory that are not its own stay as they are
            other = [x for x in changed if x.startswith(inside) and x in before and x[len(inside):] not in ref[1] and x[len(inside):] + "/" not in ref[1]]
            if other:
                bad("changes other files", "changed: %s" % other[:5])
        if inst:
            real = os.path.realpath(dd)
            for l in open(log, errors="replace").read().split("\n"):
                # names with line breaks are left to the snapshots
                op, _, path = l.partition(" ")
                if not path.startswith("/") or "\n" in (arg or ""):
                    continue
                rp = os.path.realpath(path)
                if rp != real and not rp.startswith(real + "/") and not (op == "fopen" and rp == os.path.realpath(log)):
                    bad("%s outside" % op, path)
                    break
                if op in ("unlink", "rename", "remove", "rmdir", "chmod", "truncate", "symlink", "link", "system", "popen", "tmpfile", "mkstemp"):
                    out.append(("call " + op, "", "", 0, True, ""))
            out.append(("recorded calls", "", "", 0, True, str(len(open(log, errors="replace").read().split("\n")) // 10)))
        tr = c20.tree(dd) if os.path.isdir(dd) else {}
        if k == 0:
            ref = (rc, tr, res.err)
            if rc not in (0, 1):
                bad("status", str(rc))
        else:
            if rc != ref[0]:
                bad("status", "status %s, with a plain directory %s" % (rc, ref[0]))
            elif rc == 0:
                diff = sorted(f for f in ref[1] if tr.get(f) != ref[1][f])
                if diff:
                    bad("other content" if diff[0] in tr else "missing files", "%s (%d files)" % (diff[0], len(diff)))
                more = sorted(f for f in tr if f not in ref[1] and not (inside + f).rstrip("/") in before)
                if more and dest not in ("w",):
                    bad("more files", str(more[:5]))
    shutil.rmtree(w, ignore_errors=True)
    return seed, out, viol


def unfinished(a):
    """the output cannot be written completely: the size of files is limited"""
    plain, so, san, seed, _ = a
    j = the_jail(a)
    r = random.Random(seed)
    t, kind = c20.text(seed - seed % 6 + r.choice([0, 1, 3]))
    d = j.dir("l%d" % seed)
    j.write(d + "/i.ccn", t)
    full = j.run([j.bin + "/cocogen", "--gen-dir", "ok", "i.ccn"], d)
    out, viol = [], []
    if full.rc != 0:
        return seed, [("limit: refused anyway", kind, "", full.rc, False, "")], []
    sizes = sorted(len(c) for c in c20.tree(d + "/ok").values())
    for lim in [r.choice([0, 1, 100, 1000, sizes[-1] // 2, sizes[-1] - 1, sizes[len(sizes) // 2]]) for _ in range(3)] + [sizes[-1], sizes[-1] + 1]:
        if lim < 0:
            continue

        def pre():
            jail.Jail.drop()
            signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
            resource.setrlimit(resource.RLIMIT_FSIZE, (lim, lim))
        shutil.rmtree(d + "/o", ignore_errors=True)
        p = subprocess.run([j.bin + "/cocogen", "--gen-dir", "o", "i.ccn"], cwd=d, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, preexec_fn=pre, env=common.env())
        fits = lim >= sizes[-1]
        out.append(("limit: %s" % ("everything fits" if fits else "too small"), kind, "", p.returncode, False, str(lim)))
        if fits and p.returncode != 0:
            viol.append(("limit: refused", "file size limit %d, largest file %d: status %s: %s" % (lim, sizes[-1], p.returncode, p.stderr.decode("utf-8", "replace")[-500:]), t))
        if not fits and (p.returncode != 1 or not p.stderr.strip()):
            viol.append(("limit: incomplete output not reported", "file size limit %d, largest file %d: status %s, stderr %r" % (lim, sizes[-1], p.returncode, p.stderr[-300:]), t))
    shutil.rmtree(d, ignore_errors=True)
    return seed, out, viol


def refused(a):
    """directories and files that cannot be created"""
    the_jail(a)
    out, viol = [], []
    for what, opts, v, rc, x, msg, err in c06.files((None, a[3])):
        out.append(("refused: " + " ".join(what.split()[:6]), what, "", rc, False, what))
        if v:
            viol.append((v[0], "%s, options %s: %s\n%s" % (what, opts, v[1], err), ""))
    return a[3], out, viol


def call(a):
    return a[0](a[1])


def main():
    ck = common.Check("C24", "one evaluation = one run of cocogen as an unprivileged user for one spelling and state of the output directory, judged by snapshots of the surrounding directories before and "
                      "after, by the recorded file-changing calls and by the files made for a plain spelling; or one run with something uncreatable; distinct = different spelling, state, name and kind")
    b = common.Build("plain")
    bs = common.Build()
    so = c20.preload("iolog")
    s0 = common.SEED * 1000003 + 24000000
    big = not ck.quick
    jobs = [(unfinished, (b.cocogen, so, bs.cocogen, s0 + 10**6 + i, big)) for i in range(ck.n(24, 600))]
    jobs += [(refused, (b.cocogen, so, bs.cocogen, s0 + 2 * 10**6 + i, big)) for i in range(ck.n(6, 100))]
    jobs += [(job, (b.cocogen, so, bs.cocogen, s0 + i, big)) for i in range(ck.n(120, 3000))]
    if common.REPLAY is not None:
        jobs = [(job, (b.cocogen, so, bs.cocogen, common.REPLAY, True))]
    for seed, out, viol in common.pmap(call, jobs):
        for o in out:
            if o[0].startswith(("recorded", "call")):
                ck.count(o[0])
                continue
            ck.count(o[0])
            ck.count("status %s" % o[3])
            ck.observe(o, {"seed": seed, "what": o[0], "specification": o[1], "state": o[2], "status": o[3], "calls recorded": o[4]})
        for key, what, t in viol:
            ck.violation(key, "seed %d: %s" % (seed, what), {"spec.ccn": t})
    return ck.finish(100)


if __name__ == "__main__":
    common.main(main)
