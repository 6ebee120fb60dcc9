"""Shared machinery of the checks: building /repo, running processes, verdicts, evidence."""
import atexit, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time, resource, threading, concurrent.futures, fcntl, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
HUNG = [False]                  # a program has not ended in the long time either: later ones get the short time only
VIOLATED, STARTED = [False], time.time()
REPLAY = int(os.environ["VERIF_REPLAY"]) if os.environ.get("VERIF_REPLAY") else None   # one specification seed
JOBS = int(os.environ.get("VERIF_JOBS", "8"))
SAN = ["-O1", "-g", "-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"]
GENCC = ["gcc", "-O0", "-g1", "-w", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"]
ASAN_ENV = {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=77:detect_stack_use_after_return=0:allocator_may_return_null=1:max_allocation_size_mb=2048:hard_rss_limit_mb=3500",
            "UBSAN_OPTIONS": "print_stacktrace=1:exitcode=77", "LC_ALL": "C"}


class HarnessError(Exception):
    pass


_scratch = None


def scratch():
    """a directory for this process, removed at exit"""
    global _scratch
    if _scratch is None:
        base = os.path.join(VERIF, ".scratch")
        os.makedirs(base, exist_ok=True)
        _scratch = tempfile.mkdtemp(prefix="run", dir=base)
        me = os.getpid()
        if not os.environ.get("VERIF_KEEP"):
            atexit.register(lambda: os.getpid() == me and shutil.rmtree(_scratch, ignore_errors=True))
    return _scratch


def env(extra=None):
    e = {k: v for k, v in os.environ.items() if not k.startswith(("ASAN", "UBSAN"))}
    e.update(ASAN_ENV)
    if extra:
        e.update(extra)
    return e


class Res:
    def __init__(self, rc, out, err, timeout):
        self.rc, self.out, self.err, self.timeout = rc, out, err, timeout

    @property
    def sanitizer(self):
        """a sanitizer report or death by a signal: (short key, excerpt) or None"""
        m = re.search(r"(ERROR: AddressSanitizer: \S+|runtime error: [^\n]*|AddressSanitizer:DEADLYSIGNAL|ERROR: LeakSanitizer[^\n]*)", self.err)
        if m:
            i = max(0, m.start() - 200)
            return m.group(1), self.err[i:i + 3000]
        if self.rc is not None and self.rc < 0:
            return "signal %d" % -self.rc, self.err[-2000:]
        if self.rc == 77:
            return "sanitizer exit", self.err[-2000:]
        return None


# No program under test may fill the disk or, through its output, the memory: a file ends at FILE_MAX
# (the program is then ended by SIGXFSZ), standard output and error at OUT_MAX.
FILE_MAX = 96 << 20
OUT_MAX = 96 << 20
_hard = resource.getrlimit(resource.RLIMIT_FSIZE)[1]
if _hard == resource.RLIM_INFINITY or _hard > FILE_MAX:
    resource.setrlimit(resource.RLIMIT_FSIZE, (FILE_MAX, _hard))


def _drain(f, into, p):
    n = 0
    while True:
        b = f.read1(1 << 20)
        if not b:
            break
        n += len(b)
        if n <= OUT_MAX:
            into.append(b)
        else:
            kill(p)
    f.close()


def kill(p):
    try:
        os.killpg(p.pid, 9)
    except ProcessLookupError:
        pass


def _feed(f, data):
    try:
        f.write(data)
        f.close()
    except OSError:
        pass


def run(cmd, cwd=None, timeout=60, extra=None, stdin=None, text=True, preexec=None):
    """Run a program; a timeout is tried once more with a much larger limit before it is believed."""
    for t in (timeout, timeout * 4):
        if t > timeout and HUNG[0]:
            break
        p = subprocess.Popen(cmd, cwd=cwd, env=env(extra), stdin=subprocess.PIPE if stdin is not None else subprocess.DEVNULL,
                             stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True, preexec_fn=preexec)
        o, e = [], []
        ts = [threading.Thread(target=_drain, args=(p.stdout, o, p), daemon=True), threading.Thread(target=_drain, args=(p.stderr, e, p), daemon=True)]
        if stdin is not None:
            ts.append(threading.Thread(target=_feed, args=(p.stdin, stdin), daemon=True))
        end = time.monotonic() + t
        for x in ts:
            x.start()
        for x in ts:
            x.join(max(0, end - time.monotonic()))
        late = any(x.is_alive() for x in ts)
        if not late:
            try:
                p.wait(max(0.01, end - time.monotonic()))
            except subprocess.TimeoutExpired:
                late = True
        if late:
            kill(p)
            p.wait()
            for x in ts:
                x.join(10)
        o, e = b"".join(o), b"".join(e)
        if not late:
            return Res(p.returncode, o.decode("utf-8", "replace"), e.decode("utf-8", "replace"), False)
    HUNG[0] = True
    return Res(None, o.decode("utf-8", "replace")[-100000:], e.decode("utf-8", "replace")[-100000:], True)


def repo_key():
    h = hashlib.sha256()
    for sub in ("CMakeLists.txt", "cocogen", "copra", "palm", "idoc", "coconut.cmake", "cunit"):
        top = os.path.join(REPO, sub)
        if os.path.isfile(top):
            fs = [top]
        else:
            fs = sorted(os.path.join(d, f) for d, ds, ff in os.walk(top) for f in ff)
        for f in fs:
            if os.path.islink(f) and not os.path.exists(f):
                continue
            h.update(f.encode() + b"\0")
            with open(f, "rb") as fd:
                h.update(fd.read())
            h.update(b"\1")
    return h.hexdigest()[:24]


class Build:
    """a build of cocogen and palm from REPO's working tree, kept under .build by content"""
    def __init__(self, flavour="san"):
        key = repo_key()
        flags = {"san": SAN, "plain": ["-O1", "-g"]}[flavour]
        base = os.path.join(VERIF, ".build")
        os.makedirs(base, exist_ok=True)
        self.key = key
        self.dir = os.path.join(base, "%s-%s" % (key, flavour))
        lock = open(os.path.join(base, ".lock-" + flavour), "w")
        fcntl.flock(lock, fcntl.LOCK_EX)
        try:
            if not os.path.exists(os.path.join(self.dir, "done")):
                # keep at most two older builds of this flavour
                old = sorted((d for d in os.listdir(base) if d.endswith("-" + flavour) and not d.startswith(".")),
                             key=lambda d: os.path.getmtime(os.path.join(base, d)))
                for d in old[:-2]:
                    shutil.rmtree(os.path.join(base, d), ignore_errors=True)
                shutil.rmtree(self.dir, ignore_errors=True)
                r = run(["cmake", "-S", REPO, "-B", self.dir, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=None",
                         "-DCMAKE_C_COMPILER=/usr/bin/gcc", "-DCMAKE_C_FLAGS=" + " ".join(flags + ["-w"])], timeout=200)
                if r.rc != 0:
                    raise HarnessError("cmake failed: " + r.err[-2000:] + r.out[-500:])
                r = run(["ninja", "-C", self.dir, "cocogen", "palm"], timeout=400)
                if r.rc != 0:
                    raise HarnessError("build failed: " + r.out[-3000:] + r.err[-1000:])
                open(os.path.join(self.dir, "done"), "w").close()
        finally:
            fcntl.flock(lock, fcntl.LOCK_UN)
            lock.close()
        self.cocogen = os.path.join(self.dir, "cocogen", "cocogen")
        self.palm = os.path.join(self.dir, "palm", "libpalm.a")
        for f in (self.cocogen, self.palm):
            if not os.path.exists(f):
                raise HarnessError("missing " + f)

    def gen(self, spec_file, outdir, args=(), cwd=None, timeout=30):
        return run([self.cocogen, *args, "--gen-dir", outdir, spec_file], cwd=cwd, timeout=timeout)


COPRA = [os.path.join(REPO, "copra/src", f) for f in ("dynamic_core.c", "phase_driver.c")]
INC = ["-I", os.path.join(REPO, "copra"), "-I", os.path.join(REPO, "palm/include")]


def copra_sources():
    d = os.path.join(REPO, "copra/src")
    return sorted(os.path.join(d, f) for f in os.listdir(d) if f.endswith(".c"))


def known_findings():
    """{property: [(key regex, text)]} from known_findings.txt; 'fixed:' lines suppress nothing"""
    out = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", l.strip())
            if m:
                out.setdefault(m.group(1), []).append((m.group(2), m.group(3)))
    return out


class Check:
    def __init__(self, pid, rule):
        self.pid, self.rule = pid, rule
        self.t0 = time.time()
        self.evals = 0
        self.distinct = set()
        self.samples = []
        self.viol = []
        self.stats = {}
        self.incon = []
        self.assumptions = []
        self.quick = TIER != "thorough"
        self.seen_known = set()

    def n(self, quick, thorough):
        return quick if self.quick else thorough

    def count(self, name, k=1):
        self.stats[name] = self.stats.get(name, 0) + k

    def observe(self, key, sample=None):
        """one evaluation of the property; key identifies what was distinct about it"""
        self.evals += 1
        if key is not None:
            h = hash(key) if not isinstance(key, (int, str)) else key
            if h not in self.distinct:
                self.distinct.add(h)
                if sample is not None and len(self.samples) < 12:
                    self.samples.append(sample)

    def violation(self, key, what, files=None, once=True):
        """key: a stable identification of the failing input or site"""
        for pat, text in known_findings().get(self.pid, []):
            if re.fullmatch(pat, key):
                self.seen_known.add((pat, text))
                return
        if once and any(v[0] == key for v in self.viol):
            return
        self.viol.append((key, what, files or {}))
        VIOLATED[0] = True

    def inconclusive(self, what):
        self.incon.append(what)

    def finish(self, min_evals=1):
        for text in sorted(t for _, t in self.seen_known):
            print("KNOWN-FINDING: property=%s %s" % (self.pid, text))
        if self.viol:
            shown = 0
            for key, what, files in self.viol[:int(os.environ.get("VERIF_SHOW", "5"))]:
                d = os.path.join(VERIF, "replays", "%s-%s" % (self.pid, hashlib.sha1((key + what).encode()).hexdigest()[:10]))
                os.makedirs(d, exist_ok=True)
                with open(os.path.join(d, "README.txt"), "w") as f:
                    f.write("property %s\nkey %s\nre-run: cd /verif && VERIF_SEED=%d VERIF_TIER=%s python3 checks/%s.py\n"
                            "(VERIF_REPLAY=<specification seed> restricts a run-time check to one specification)\n\n%s\n"
                            % (self.pid, key, SEED, TIER, self.pid.lower(), what))
                for name, data in files.items():
                    if isinstance(data, bytes):
                        open(os.path.join(d, name), "wb").write(data)
                    else:
                        open(os.path.join(d, name), "w").write(data)
                print("VIOLATION property=%s replay=%s" % (self.pid, d))
                print("  " + key + ": " + what[:600].replace("\n", "\n  "))
                shown += 1
            if len(self.viol) > shown:
                print("  ... and %d more" % (len(self.viol) - shown))
        ev = {"property": self.pid, "tier": "thorough" if not self.quick else "quick", "seed": SEED, "level": "exploration",
              "coverage": {"evaluations": self.evals, "distinct_nontrivial": len(self.distinct), "rule": self.rule,
                           "samples": self.samples or ["none"], "observed": self.stats,
                           "inconclusive": self.incon[:20], "inconclusive_count": len(self.incon)},
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.viol),
              "assumptions": self.assumptions}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, sort_keys=True)
        print("%s: %d evaluations, %d distinct, %d violations, %d inconclusive, %.1f s %s" % (
            self.pid, self.evals, len(self.distinct), len(self.viol), len(self.incon), time.time() - self.t0, self.stats))
        if self.viol:
            return 1
        if self.evals < min_evals or len(self.incon) > max(3, self.evals // 4):
            print("%s: too little was observed (%d evaluations, %d inconclusive): %s" % (self.pid, self.evals, len(self.incon), self.incon[:3]))
            return 2
        return 0


def pmap(fn, items, jobs=None):
    """run fn over items in worker processes; exceptions become HarnessError"""
    items = list(items)
    if not items:
        return
    with concurrent.futures.ProcessPoolExecutor(max_workers=min(jobs or JOBS, len(items))) as ex:
        futs = [ex.submit(fn, i) for i in items]
        for f in futs:
            yield f.result()
            if enough():
                ex.shutdown(wait=False, cancel_futures=True)
                for p in list((ex._processes or {}).values()):
                    p.terminate()
                return


def enough():
    """a violation is known and the check has run for long: what is left (often all of it running into the same time limit) adds nothing"""
    return VIOLATED[0] and time.time() - STARTED > (150 if TIER == "quick" else 1200)


def tmap(fn, items, jobs=None):
    items = list(items)
    with concurrent.futures.ThreadPoolExecutor(max_workers=jobs or JOBS) as ex:
        futs = [ex.submit(fn, i) for i in items]
        for f in futs:
            yield f.result()
            if enough():
                ex.shutdown(wait=False, cancel_futures=True)
                return


def main(fn):
    """entry point of a check script"""
    try:
        rc = fn()
    except Exception:
        print(traceback.format_exc()[-3000:])
        print("harness error")
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
