#!/usr/bin/env python3
"""C29: assertions, debug messages, interrupt handlers and directories of the support library"""
import os, random, re, stat, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import common, jail, palmh

SIGS = {"segv": 11, "bus": 7, "int": 2, "fault": 0, "truncated": 0}
HEAD = r'''
#include <signal.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/types.h>
#include <stdio.h>
#include "palm/dbug.h"
#include "palm/ctinfo.h"
#include "palm/memory.h"
static int ticks, fail_at, points, point_at; static char *how;
static int tick(void) { return ++ticks; }
static const char *name(int i) { ticks++; return i & 1 ? "odd" : "even"; }
static void point(void)
{
    if (++points != point_at) return;
    if (!strcmp(how, "segv")) raise(SIGSEGV);
    else if (!strcmp(how, "bus")) raise(SIGBUS);
    else if (!strcmp(how, "int")) raise(SIGINT);
    else if (!strcmp(how, "fault")) { volatile char *p = mmap(NULL, 4096, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); p[7] = 1; }
    else { FILE *f = tmpfile(); volatile char *p; if (ftruncate(fileno(f), 4096)) exit(99); p = mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fileno(f), 0); if (ftruncate(fileno(f), 0)) exit(99); p[7] = 1; }
    puts("survived");
}
'''


class End(Exception):
    pass


class Prog:
    """a random C program using the debug library, and a simulation of what it must print"""
    def __init__(self, seed):
        r = self.r = random.Random(seed)
        self.module = r.choice([None, None, "mod", "Opt Fold", "a%db"])
        self.lines = HEAD.split("\n")
        if self.module:
            self.lines.insert(0, '#define MODULE "%s"' % self.module)
        self.file, self.off = "prog%d.c" % seed, 0
        self.funcs = []
        self.depth = 0
        for k in range(r.randint(1, 3)):
            self.emit("static %s f%d(int a)" % ("void", k))
            self.emit("{")
            body = self.block("f%d" % k, r.randint(2, 6), k)
            self.emit("}")
            self.funcs.append(body)
        self.emit("int main(int argc, char **argv)")
        self.emit("{")
        self.emit("int a = 3; setvbuf(stdout, NULL, _IONBF, 0); fail_at = atoi(argv[1]); point_at = atoi(argv[2]); how = argv[3]; (void)a;")
        self.main = self.block("main", r.randint(4, 10), len(self.funcs), top=True)
        self.emit('printf("ticks %d\\n", ticks);')
        self.emit("return 7;")
        self.emit("}")

    def emit(self, text):
        self.lines.append(text)
        if text.startswith("#line"):
            n, f = re.match(r'#line (\d+) "(.*)"', text).groups()
            self.file, self.off = f, int(n) - len(self.lines) - 1
        return self.file, len(self.lines) + self.off

    def fmt(self):
        """format, C arguments, evaluator of the formatted text (None: the arguments are not constants)"""
        r = self.r
        f, args, ev = "", [], []
        for _ in range(r.choice([0, 0, 1, 1, 2, 3, 5, 9])):
            k = r.choice("dsxcFltnd%")
            w = r.choice(["lorem", "x", "", "at: ", "50 ", "(", "=", "é"])
            if k == "d":
                v = r.choice([0, -1, 2147483647, -2147483648, r.randint(-999, 999)])
                p = r.choice(["%d", "%5d", "%-6d|", "%04d", "%+d"])
                args.append("(int)%dLL" % v)
                ev.append(lambda m, p=p, v=v, w=w: w + p % v)
            elif k == "s":
                v = r.choice(["", "word", "two words", "100%", "%s", "%n", "a" * 300])
                p = r.choice(["%s", "%8s", "%-9s|", "%.3s"])
                args.append('"%s"' % v)
                ev.append(lambda m, p=p, v=v, w=w: w + p % v)
            elif k == "x":
                v = r.getrandbits(32)
                p = "%x"
                args.append("%uU".replace("%u", str(v)))
                ev.append(lambda m, p=p, v=v, w=w: w + p % v)
            elif k == "l":
                v = r.getrandbits(62)
                p = "%ld"
                args.append("%dL" % v)
                ev.append(lambda m, v=v, w=w: w + "%d" % v)
            elif k == "c":
                v = r.choice("az_%")
                p = "%c"
                args.append("'%s'" % v)
                ev.append(lambda m, v=v, w=w: w + v)
            elif k == "F":
                v = r.choice([0.5, -3.25, 1e6, 0.0])
                p = r.choice(["%f", "%.2f", "%8.1f"])
                args.append(repr(v))
                ev.append(lambda m, p=p, v=v, w=w: w + p % v)
            elif k == "t" and not any(a == "tick()" or a.startswith("name(") for a in args):
                p = "%d"
                args.append("tick()")

                def f1(m, w=w):
                    m.ticks += 1
                    return w + str(m.ticks)
                ev.append(f1)
            elif k == "n" and not any(a == "tick()" or a.startswith("name(") for a in args):
                p = "%s"
                args.append("name(a)")

                def f2(m, w=w):
                    m.ticks += 1
                    return w + ("odd" if m.a & 1 else "even")
                ev.append(f2)
            else:
                p = "%%"
                ev.append(lambda m, w=w: w + "%")
            f += w + p
        tail = r.choice(["", "\\n", " end\\n", "end"])
        ev.append(lambda m, t=tail.replace("\\n", "\n"): t)
        return f + tail, args, lambda m: "".join([e(m) for e in ev])

    def block(self, fn, n, nfun, top=False):
        r = self.r
        out = []
        if top and r.random() < 0.5:
            self.emit("CTIinstallInterruptHandlers();")
            out.append(("install",))
            self.emit("point();")
            out.append(("point",))
        self.depth += 1
        for k in range(n):
            q = r.random()
            if q < 0.04:
                self.emit('#line %d "%s"' % (r.randint(1, 9000), r.choice(["gen/other.h", "parser.y", "x y.c"])))
            if q < 0.14:
                i = r.randint(0, 99)
                self.emit('printf("plain %d\\n");' % i)
                out.append(("plain", "plain %d\n" % i))
            elif q < 0.4:
                f, args, ev = self.fmt()
                c = ", ".join(['"%s"' % f] + args)
                if r.random() < 0.4:
                    par = r.choice([0, 1])
                    self.emit('if (a %% 2 == %d) DBUG(%s); else printf("other\\n");' % (par, c))
                    out.append(("ifdbug", par, ev))
                else:
                    self.emit("DBUG(%s);" % c)
                    out.append(("dbug", ev))
            elif q < 0.7:
                f, args, ev = self.fmt()
                cond = r.choice(["tick() != fail_at", "tick() - fail_at", "tick() < fail_at || fail_at <= 0 || ticks > fail_at", "(tick() == fail_at) ? 0 : 1"])
                old = r.random() < 0.3
                if old and not args:
                    f, args, ev = f + "%d", ["4"], (lambda e: lambda m: e(m) + "4")(ev)
                text = "%s(%s, %s);" % ("DBUG_ASSERTF" if old else "DBUG_ASSERT", cond, ", ".join(['"%s"' % f] + args))
                if r.random() < 0.3:
                    at = self.emit('if (a > 1) %s else printf("small\\n");' % text.replace(");", ");"))
                    out.append(("ifassert", at, fn, ev))
                else:
                    at = self.emit(text)
                    out.append(("assert", at, fn, ev))
            elif q < 0.75:
                f, args, ev = self.fmt()
                if not args:
                    f, args, ev = f + "%d", ["4"], (lambda e: lambda m: e(m) + "4")(ev)
                h = r.choice(["hdr", "A B", "x-1"])
                self.emit('DBUGF("%s", "%s", %s);' % (h, f, ", ".join(args)))
                out.append(("dbugf", h, ev))
            elif q < 0.79 and top:
                self.emit("DBUGoff();")
                out.append(("off",))
            elif q < 0.83 and top:
                self.emit("CTIinstallInterruptHandlers();")
                out.append(("install",))
            elif q < 0.88:
                self.emit("point();")
                out.append(("point",))
            elif q < 0.94 and nfun:
                i = r.randrange(nfun)
                v = r.randint(0, 5)
                self.emit("f%d(%d);" % (i, v))
                out.append(("call", i, v))
            elif self.depth < 3:
                times = r.randint(1, 3)
                self.emit("for (int i = 0; i < %d; i++) {" % times)
                b = self.block(fn, r.randint(1, 3), nfun)
                self.emit("}")
                out.append(("loop", times, b))
        self.depth -= 1
        return out


class Sim:
    def __init__(self, p, ndebug, fail, point, how):
        self.p, self.nd, self.fail, self.at, self.how = p, ndebug, fail, point, how
        self.ticks = self.points = 0
        self.a = 3
        self.on = True
        self.installed = False
        self.out = self.err = ""
        self.rc = 7
        self.failed = None
        self.safe = []          # points at which the handlers are installed
        self.asserts = 0
        self.msgs = 0
        self.offed = False
        self.ambiguous = False

    def run(self):
        try:
            self.block(self.p.main)
            self.out += "ticks %d\n" % self.ticks
        except End:
            pass
        return self

    def dbug(self, ev):
        if self.nd:
            return
        t = ev(self)
        self.msgs += 1
        if self.on:
            self.out += ("[%s] " % self.p.module if self.p.module else "") + t

    def check(self, at, fn, ev):
        if self.nd:
            return
        self.ticks += 1
        self.asserts += 1
        if self.ticks == self.fail:
            self.failed = (at[0], at[1], fn, ev(self))
            self.rc = -6
            raise End()

    def block(self, b):
        for s in b:
            k = s[0]
            if k == "plain":
                self.out += s[1]
            elif k == "dbug":
                self.dbug(s[1])
            elif k == "ifdbug":
                if self.a % 2 == s[1]:
                    self.dbug(s[2])
                else:
                    self.out += "other\n"
            elif k == "assert":
                self.check(*s[1:])
            elif k == "ifassert":
                if self.a > 1:
                    self.check(*s[1:])
                else:
                    self.out += "small\n"
            elif k == "dbugf":
                if not self.nd:
                    if self.offed:
                        self.ambiguous = True       # whether DBUGoff silences the deprecated macro is not documented
                    self.err += "[%s] " % s[1] + s[2](self)
                    self.msgs += 1
            elif k == "off":
                self.on = False
                self.offed = True
            elif k == "install":
                self.installed = True
            elif k == "point":
                self.points += 1
                if self.installed:
                    self.safe.append(self.points)
                if self.points == self.at:
                    self.rc = 0 if self.how == "int" else 1
                    raise End()
            elif k == "call":
                a, self.a = self.a, s[2]
                self.block(self.p.funcs[s[1]])
                self.a = a
            else:
                for _ in range(s[1]):
                    self.block(s[2])


def program(a):
    b, d, seed = a
    p = Prog(seed)
    src = os.path.join(d, "prog%d.c" % seed)
    open(src, "w").write("\n".join(p.lines) + "\n")
    out = []
    r = random.Random(seed + 1)
    for nd in (False, True):
        exe = os.path.join(d, "p%d%s" % (seed, "n" if nd else ""))
        c = common.run(["gcc", "-w", *common.SAN, *common.INC, *(["-DNDEBUG"] if nd else []), os.path.basename(src), b.palm, "-o", exe], cwd=d, timeout=120)
        if c.rc != 0:
            out.append(("compile", "does not compile%s: %s" % (" with NDEBUG" if nd else "", c.err[:1500]), None, None))
            continue
        base = Sim(p, nd, 0, 0, "-").run()
        jobs = [(0, 0, "-")]
        if nd:
            jobs += [(1, 0, "-")]
        else:
            ks = list(range(1, base.ticks + 1))
            r.shuffle(ks)
            jobs += [(k, 0, "-") for k in ks[:6]]
        if base.safe:
            jobs += [(0, r.choice(base.safe), how) for how in sorted(SIGS) if r.random() < 0.6]
        for fail, pt, how in jobs:
            m = Sim(p, nd, fail, pt, how).run()
            x = common.run([exe, str(fail), str(pt), how], cwd=d, timeout=30)
            what = "program %d%s, arguments %d %d %s" % (seed, " (NDEBUG)" if nd else "", fail, pt, how)
            bad = None
            if x.timeout:
                bad = ("timeout", "does not terminate")
            elif x.sanitizer and x.sanitizer[0] != "signal %d" % -m.rc:
                bad = ("sanitizer " + x.sanitizer[0][:60], x.sanitizer[1])
            elif x.rc != m.rc:
                bad = ("exit status" if how == "-" else "exit status after " + how, "exit status %s, expected %s; stderr %s" % (x.rc, m.rc, x.err[-400:]))
            elif x.out != m.out:
                bad = ("debug output", "stdout %r, expected %r" % (x.out[-700:], m.out[-700:]))
            elif not m.ambiguous:
                rest = x.err[len(m.err):]
                if not x.err.startswith(m.err):
                    bad = ("debug output to stderr", "stderr %r, expected %r" % (x.err[-700:], m.err[-700:]))
                elif m.failed:
                    f, l, fn, msg = m.failed
                    for word in (f, str(l), fn, msg):
                        if word not in rest:
                            bad = ("assertion message", "message %r does not show %r" % (rest[-700:], word))
                elif how in ("segv", "bus", "fault", "truncated"):
                    if "crashed" not in rest:
                        bad = ("crash message", "no message about the crash: %r" % rest[-300:])
                elif rest:
                    bad = ("unexpected message", "stderr %r" % rest[-500:])
            out.append((bad and bad[0], bad and what + ": " + bad[1], (seed, nd, fail, pt, how),
                        dict(asserts=m.asserts, messages=m.msgs, failed=int(bool(m.failed)), silenced=int(m.offed), signals=int(how != "-"))))
        os.remove(exe)
    return seed, "\n".join(p.lines), out


DIRS = r'''
#include <stdio.h>
#include <stdlib.h>
#include <sys/stat.h>
#include "palm/filesystem.h"
int main(int argc, char **argv)
{
    setvbuf(stdout, NULL, _IONBF, 0);
    umask(strtol(argv[1], NULL, 8));
    for (int i = 2; i + 1 < argc; i += 2) { FSensureDirExists(argv[i], strtol(argv[i + 1], NULL, 8)); printf("ok %d\n", i / 2); }
    return 0;
}
'''


def snapshot(d):
    t = {}
    for p, ds, fs in os.walk(d):
        for n in ds + fs:
            q = os.path.join(p, n)
            st = os.lstat(q)
            t[os.path.relpath(q, d)] = (stat.S_IFMT(st.st_mode), stat.S_IMODE(st.st_mode), os.readlink(q) if stat.S_ISLNK(st.st_mode) else open(q, "rb").read() if stat.S_ISREG(st.st_mode) else None)
    return t


def directories(a):
    j, seed = a
    r = random.Random(seed)
    d = j.dir("d%d" % seed)
    names = ["a", "b", "out dir", "c.d", "-x", "%s", "é"]
    dirs, files = {"": 0o755}, {}
    links = {}

    def res(p):
        """model path of a directory, or None"""
        p = p.rstrip("/")
        parts, cur = p.split("/"), ""
        for c in parts:
            if c in (".", ""):
                continue
            nxt = cur + "/" + c if cur else c
            if nxt in links:
                nxt = links[nxt]
            cur = nxt
            if cur not in dirs:
                return None
        return cur

    for _ in range(r.randint(0, 5)):
        par = r.choice([x for x in dirs if dirs[x] & 0o300 == 0o300])
        n = r.choice(names)
        p = (par + "/" if par else "") + n
        if p in dirs or p in files or p in links:
            continue
        q = os.path.join(d, p)
        k = r.random()
        if k < 0.5:
            os.mkdir(q)
            j.own(q)
            dirs[p] = r.choice([0o755, 0o700, 0o777, 0o555, 0o750])
        elif k < 0.75:
            j.write(q, "content of %s" % p)
            files[p] = 1
        else:
            t = r.choice([x for x in dirs if x] or ["nowhere"]) if r.random() < 0.7 else "nowhere"
            os.symlink(os.path.join(d, t), q)
            links[p] = t
    for p in dirs:
        if p:
            os.chmod(os.path.join(d, p), dirs[p])
    mask = r.choice([0o022, 0, 0o077, 0o027])
    before = snapshot(d)
    args, ok, fails = [], 0, None
    made = {}
    n = r.randint(1, 5)
    while len(args) < 2 * n and fails is None:
        q = r.random()
        par = r.choice(sorted(dirs)) if q < 0.85 else "missing"
        p = (par + "/" if par else "") + r.choice(names)
        if r.random() < 0.2 and (dirs or links):
            p = r.choice(sorted(x for x in list(dirs) + list(links) + list(files) if x) or [p])
        mode = r.choice([0o755, 0o777, 0o700, 0o750, 0o711])
        if r.random() < 0.05:
            p += "/" + "n" * 300
        arg = p
        if r.random() < 0.2:
            arg = "./" + p
        elif r.random() < 0.15:
            arg = os.path.join(d, p)
        parent, base = p.rsplit("/", 1) if "/" in p else ("", p)
        rp = res(parent)
        full = None if rp is None else (rp + "/" if rp else "") + base
        anc = []
        if rp is not None:
            c = rp
            while c:
                anc.append(c)
                c = c.rsplit("/", 1)[0] if "/" in c else ""
        if rp is None or any(not dirs[c] & 0o100 for c in anc):
            fails = arg
        elif full in links:
            t = links[full]
            if t in dirs and not dirs[t] & 0o400:
                continue
            if t not in dirs:
                fails = arg
        elif full in dirs:
            if not dirs[full] & 0o400:
                continue
            if r.random() < 0.1:
                arg += "/"
        elif full in files:
            fails = arg
        elif len(base) > 255 or not dirs[rp] & 0o200:
            fails = arg
        else:
            dirs[full] = made[full] = mode & ~mask
        args += [arg, oct(mode)[2:]]
        if fails is None:
            ok += 1
    x = j.run([os.path.join(j.bin, "dirs"), oct(mask)[2:], *args], cwd=d)
    after = snapshot(d)
    want = dict(before)
    for p, m in made.items():
        want[p] = (stat.S_IFDIR, m, None)
    bad = None
    what = "umask %o, calls %s, before %s" % (mask, args, {k: (oct(v[0]), oct(v[1])) for k, v in before.items()})
    if x.timeout:
        bad = ("directory: timeout", "does not terminate")
    elif x.sanitizer:
        bad = ("directory: sanitizer " + x.sanitizer[0][:60], x.sanitizer[1])
    elif x.rc != (1 if fails is not None else 0):
        bad = ("directory: exit status", "exit status %s, expected %d; stdout %s stderr %s" % (x.rc, fails is not None, x.out, x.err[-300:]))
    elif x.out != "".join("ok %d\n" % (i + 1) for i in range(ok)):
        bad = ("directory: which call fails", "stdout %r, expected %d successful calls" % (x.out, ok))
    elif fails is not None and fails not in x.err:
        bad = ("directory: message", "the message does not name %r: %r" % (fails, x.err[-400:]))
    elif fails is None and x.err:
        bad = ("directory: unexpected message", "%r" % x.err[-400:])
    elif after != want:
        bad = ("directory: result", "differs: %s" % {k: (before.get(k), after.get(k), want.get(k)) for k in set(after) | set(want) if after.get(k) != want.get(k)})
    return seed, bad, what, (tuple(args), fails is not None), ok, len(made), fails is not None


def main():
    ck = common.Check("C29", "one evaluation = one process: a random program over the assertions, debug messages and interrupt handlers of the support library (with and without NDEBUG, one assertion or signal point "
                      "chosen to fire), or a sequence of requests for directories; stdout, stderr, exit status and the directory tree are compared with a simulation; "
                      "distinct = distinct program, variant and firing point, or distinct sequence of requests")
    b = common.Build()
    d = common.scratch()
    base = common.SEED * 100003
    if common.REPLAY is not None and common.REPLAY >= 0:
        seeds, dseeds = [common.REPLAY], []
    elif common.REPLAY is not None:
        seeds, dseeds = [], [-common.REPLAY]
    else:
        seeds, dseeds = [base + i for i in range(ck.n(160, 2500))], [base + 1 + i for i in range(ck.n(500, 8000))]
    for seed, text, rs in common.tmap(program, [(b, d, s) for s in seeds]):
        for bad, what, key, st in rs:
            if key:
                ck.observe(key)
                for k, v in st.items():
                    ck.count(k, v)
            if bad:
                ck.violation(bad, what, {"seed.txt": str(seed), "prog.c": text})
        if len(ck.samples) < 3:
            ck.samples.append({"seed": seed, "runs": [r[2] for r in rs][:6]})
    src = os.path.join(d, "dirs.c")
    open(src, "w").write(DIRS)
    j = jail.Jail()
    c = common.run(["gcc", "-w", *common.SAN, *common.INC, src, b.palm, "-o", os.path.join(d, "dirs")], timeout=120)
    if c.rc != 0:
        ck.violation("directory: compile", c.err[:1500], {})
    else:
        j.add(os.path.join(d, "dirs"))
        for seed, bad, what, key, ok, made, failed in common.tmap(directories, [(j, s) for s in dseeds]):
            ck.observe(("dirs", key))
            ck.count("directories ensured", ok)
            ck.count("directories created", made)
            ck.count("requests refused", int(failed))
            if bad:
                ck.violation(bad[0], "directory seed -%d: %s: %s" % (seed, what, bad[1]), {"seed.txt": str(-seed)})
    return ck.finish(50)


if __name__ == "__main__":
    common.main(main)
