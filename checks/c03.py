#!/usr/bin/env python3
"""C03: every diagnostic is counted, labelled and printed in full."""
import os, random, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import common, palmh

LABEL = [b"", b"note", b"warning", b"error"]
WS = rb"[ \t\n]+"


def word(r):
    k = r.random()
    if k < 0.6:
        n = r.randint(1, 9)
    elif k < 0.9:
        n = r.randint(10, 40)
    else:
        n = r.choice([60, 105, 109, 110, 111, 115, 116, 117, 118, 150, 260, 500])
    if r.random() < 0.5:
        return bytes(r.choice(b"abcxyzABC0189") for _ in range(n))
    w = bytes(r.choice([c for c in range(33, 127) if c != 37] + list(range(0x80, 0x100))) for _ in range(n))
    return w.replace(b"-->", b"--+").replace(b"|>", b"|.")


def text(r):
    n = r.choice([1, 1, 2, 3, 5, 8, 13, 21, 40, 120])
    out = b""
    if r.random() < 0.1:
        out += r.choice([b" ", b"\n", b"\t", b"  "])
    seps = r.choice([[b" "], [b" ", b"  "], [b" ", b"\n"], [b" ", b"\t", b"\n", b" \n", b"   "], [b"\n", b"\n\n"]])
    for i in range(n):
        if i:
            out += r.choice(seps)
        out += word(r)
    if r.random() < 0.1:
        out += r.choice([b" ", b"\n"])
    if r.random() < 0.3:
        # an exact line length near the limits
        want = r.choice([106, 107, 108, 109, 110, 111, 114, 115, 116, 117, 118, 232])
        out = out[:want]
    return out if out.strip(b" \t\n") else b"x"


def hx(s):
    return "-" if s is None else "x" + s.hex()


def make(r, n):
    """-> (script lines, expectations)"""
    sc, ex = [], []
    for i in range(n):
        k = r.random()
        if k < 0.9:
            ty = r.randrange(4)
            nl = r.random() < 0.6
            how = r.randrange(3)
            t = text(r)
            full = t + (b"q18446744073709551615 %" if how == 2 else b"")
            if r.random() < 0.5:
                sc.append("M %d %d %d %s" % (ty, nl, how, hx(t)))
                ex.append(("M", ty, nl, full, None))
            else:
                fl = r.choice([1, 2, 9, 10, 12345])
                fc = r.choice([0, 1, 2, 3, 5, 17, 80, 130])
                ll = r.choice([0, fl, fl + 1, fl + 7])
                lc = r.choice([0, fc, fc + 1, fc + 4, fc + 33])
                f = r.choice([b"a.ccn", b"dir/some file.c", b"x", None])
                src = r.choice([None, b"", b"node A { };", b"  indented = 1,", bytes(r.choice(b"abc (){}") for _ in range(150))])
                if r.random() < 0.05:
                    fl = ll = 0
                sc.append("O %d %d %d %s %d %d %d %d %s %s" % (ty, nl, how, hx(t), fl, fc, ll, lc, hx(f), hx(src)))
                ex.append(("O", ty, nl, full, (fl, fc, ll, lc, f, src)))
        elif k < 0.93:
            sc.append("A")
            ex.append(("A",))
        elif k < 0.97:
            sc.append("E")
            ex.append(("E",))
        else:
            s = r.choice([0, 1, 4096, 2**31 - 1, 2**31, 2**32 + 5, 2**63 + 1])
            sc.append("B %d" % s)
            ex.append(("B", s))
    return sc, ex


def location(lines, info):
    """problem with the location part or None"""
    fl, fc, ll, lc, f, src = info
    same = ll <= 0 or ll == fl
    body = b"\n".join(lines)
    if b"(null)" in body:
        return "an absent value is displayed as (null)"
    i = 0
    if f is not None or fl > 0:
        if not lines:
            return "no location printed"
        head = lines[0]
        i = 1
        if f is not None:
            if f not in head:
                return "the file name is missing: %r" % head
            head = head.replace(f, b"", 1)
        nums = [int(x) for x in re.findall(rb"\d+", head)]
        want = []
        if fl > 0:
            want.append(fl)
            if fc > 0:
                want.append(fc)
                if lc > 0 and not (same and lc == fc):
                    if not same:
                        want.append(ll)
                    want.append(lc)
        if nums != want:
            return "location shows %s, expected %s (%r)" % (nums, want, lines[0])
    rest = lines[i:]
    if src is None or fc <= 0:
        if any(x.strip() for x in rest):
            return "unexpected output after the location: %r" % rest
        return None
    if len(rest) < 2 or not rest[0].endswith(src):
        return "the source line is missing: %r" % rest
    start = len(rest[0]) - len(src)
    m = re.fullmatch(rb"( *)\^(~*)", rest[1])
    if not m:
        return "no marker: %r" % rest[1]
    if len(m.group(1)) - start != fc - 1:
        return "the marker starts at column %d, reported %d" % (len(m.group(1)) - start + 1, fc)
    if same:
        n = max(0, lc - fc) if lc > 0 else 0
        if len(m.group(2)) != n:
            return "the marker covers %d columns, reported %d" % (len(m.group(2)) + 1, n + 1)
    if any(x.strip() for x in rest[2:]):
        return "unexpected output after the marker: %r" % rest[2:]
    return None


def judge(e, err):
    """problem with what a message printed or None"""
    _, ty, nl, full, info = e
    if not err.endswith(b"\n\n" if nl else b"\n"):
        return "the output does not end its line: %r" % err[-60:]
    if not err.startswith(LABEL[ty]):
        return "label %r expected: %r" % (LABEL[ty], err[:60])
    body = err[len(LABEL[ty]):]
    if ty:
        if not body.startswith(b": "):
            return "label %r expected: %r" % (LABEL[ty], err[:60])
        body = body[2:]
    lines = body.split(b"\n")
    loc = []
    if info:
        for i, l in enumerate(lines):
            if l.startswith((b" -->", b" |>")):
                loc = lines[i:]
                lines = lines[:i]
                break
    want = [w for w in re.split(WS, full) if w]
    got = [w for w in re.split(WS, b"\n".join(lines)) if w]
    if got != want:
        i = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
        return "word %d is %r, expected %r" % (i, got[i:i + 2], want[i:i + 2])
    # lines are broken to the documented length, unless a single word is longer
    room = WIDTH - (len(LABEL[ty]) + 2 if ty else 0)
    if WIDTH and all(len(w) <= room - 2 for w in want):
        for l in lines:
            if len(l) > room:
                return "a line of %d columns, the useful length is %d: %r" % (len(l), room, l)
    if info:
        return location(loc, info)
    return None


WIDTH = 0


def job(a):
    exe, seed, d = a
    r = random.Random(seed)
    sc, ex = make(r, 60)
    f = os.path.join(d, "m%d" % seed)
    open(f, "w").write("\n".join(sc) + "\n")
    res = common.run([exe, f], timeout=60)
    os.unlink(f)
    out, n, st = [], 0, {}
    err = warn = 0
    if res.sanitizer:
        out.append(("sanitizer", res.sanitizer[1]))
    elif res.timeout or res.rc != 0:
        out.append(("driver", "exit %s: %s" % (res.rc, res.err[-1000:])))
    lines = res.out.split("\n")[:-1]
    seen = []
    for e, l in zip(ex, lines):
        p = l.split(" ")
        rc, ne, nw = int(p[1]), int(p[2]), int(p[3])
        data = bytes.fromhex(p[4]) if len(p) > 4 else b""
        n += 1
        st[e[0]] = st.get(e[0], 0) + 1
        prob = None
        if e[0] in "MO":
            if e[1] == 3:
                err += 1
            elif e[1] == 2:
                warn += 1
            prob = judge(e, data)
            seen.append(hash((e[1], e[2], e[3], e[4])) & 0xffffffffffffff)
            if data.count(b"\n") > 3:
                st["wrapped"] = st.get("wrapped", 0) + 1
        else:
            te = err + (1 if e[0] == "B" else 0)
            seen.append(hash((e, err, warn)) & 0xffffffffffffff)
            if e[0] == "E" and err == 0:
                if rc != 100:
                    prob = "CTIabortOnError ended the program with status %d without an error" % rc
                elif data.strip():
                    prob = "CTIabortOnError printed %r without an error" % data
            else:
                nums = [int(x) for x in re.findall(rb"\d+", data)]
                if rc != 1:
                    prob = "abort ended with status %d" % rc
                elif nums[-2:] != [te, warn]:
                    prob = "totals %s, expected %d errors and %d warnings: %r" % (nums[-2:], te, warn, data)
                elif e[0] == "B" and (e[1] not in nums[:-2] or b"emory" not in data):
                    prob = "the out-of-memory message does not show %d: %r" % (e[1], data)
        if not prob and (ne, nw) != (err, warn):
            prob = "counters are %d errors and %d warnings, expected %d and %d" % (ne, nw, err, warn)
        if prob:
            out.append((("message " if e[0] in "MO" else "abort ") + prob.split(" ")[0], "call %d of seed %d %r: %s\nprinted %r" % (n - 1, seed, e, prob, data)))
            break
    else:
        if len(lines) < len(ex) and not out:
            out.append(("driver", "stopped after %d of %d calls" % (len(lines), len(ex))))
    return seed, out, n, st, seen, "\n".join(sc)


def main():
    ck = common.Check("C03", "one evaluation = one call of a message or abort function with the bytes it wrote to standard error, both counters and the exit "
                      "status; distinct = different severity, text, location")
    b = common.Build()
    d = common.scratch()
    exe, e = palmh.build(d, b, "cti")
    if not exe:
        ck.violation("does-not-compile", e)
        return ck.finish()
    global WIDTH
    f = os.path.join(d, "width")
    open(f, "w").write("L\n")
    m = re.search(r"^L (\d+) (\d+)", common.run([exe, f], timeout=30).out, re.M)
    if m:
        WIDTH = int(m.group(1)) + len("error: ")
    n = ck.n(500, 20000)
    seeds = [common.SEED * 1000003 + i for i in range(n)] if common.REPLAY is None else [common.REPLAY]
    for seed, out, k, st, seen, sc in common.pmap(job, [(exe, s, d) for s in seeds]):
        for key, what in out:
            ck.violation(key, what, {"script.txt": sc})
        for s in seen:
            ck.observe(s)
        for a, c in st.items():
            ck.count({"M": "plain messages", "O": "messages with a location", "A": "aborts", "E": "conditional aborts", "B": "out-of-memory aborts",
                      "wrapped": "messages of several lines"}[a], c)
        if len(ck.samples) < 4:
            ck.samples.append(sc[:300])
    return ck.finish(1000)


if __name__ == "__main__":
    common.main(main)
