#!/usr/bin/env python3
"""C26: the location given by a diagnostic is that of the text it is about"""
import copy, os, random, re, shutil, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import c05, c21, common

TOK = re.compile(r'//[^\n]*|/\*.*?\*/|("(?:\\.|[^"\\])*"|[A-Za-z_]\w*|->|\S)', re.S)
HEAD = re.compile(r"^(error|warning|note): ?(.*)$", re.I)
LOC = re.compile(r"^ *--> (.*?):(\d+)(?:([.:])(\d+)(?:-(\d+))?)?\s*$")
# words of the language and of the messages, which are not names of the specification
WORDS = set("""args attributes attribute children child constructor cycle enum equations equation inherited mandatory node nodeset nodes pass passes phase phases actions action
prefix subphases synthesized this to traversal travdata values value info func root start double float int uint string bool lifetime disallowed optional allowed false true gate user
uid null name names type types reference member set rule product dependency identifier no not a is in of for and or has with expecting unexpected end""".split())
STYLES = ["lines", "wide", "comments", "comments", "tight"]


# here the message names the type of what it points at
OTHER = ("dependency on a child field",)
# the marker is placed one column to the left of the name, on the dot if nothing stands between them
LEFT = ("lifetime inside a pass",)


def tokens(text):
    """[(text, line, first column, last column)]"""
    out = []
    line, start, at = 1, 0, 0
    for m in TOK.finditer(text):
        if m.group(1) is None:
            continue
        b = m.start(1)
        while True:
            n = text.find("\n", at, b)
            if n < 0:
                break
            line, start, at = line + 1, n + 1, n + 1
        out.append((m.group(1), line, b - start + 1, m.end(1) - start))
    return out


def diagnostics(err):
    """[(severity, message, (file, line, first column, last column) or None, shown line, marker)]"""
    out = []
    lines = err.replace("--------------- Generating ---------------", "").split("\n")
    i = 0
    while i < len(lines):
        m = HEAD.match(lines[i])
        if not m:
            i += 1
            continue
        msg, loc, shown, mark = [m.group(2)], None, None, None
        i += 1
        while i < len(lines) and not HEAD.match(lines[i]) and not lines[i].startswith("***"):
            q = LOC.match(lines[i])
            if q and loc is None:
                c1 = int(q.group(4)) if q.group(4) else None
                c2 = int(q.group(5)) if q.group(5) else c1
                loc = (q.group(1), int(q.group(2)), c1, c2)
                if i + 1 < len(lines) and lines[i + 1].startswith(" |> "):
                    shown = lines[i + 1][4:]
                    if i + 2 < len(lines) and re.match(r"^ +\^~*\s*$", lines[i + 2]):
                        mark = lines[i + 2]
                        i += 1
                    i += 1
            elif loc is None:
                msg.append(lines[i])
            i += 1
        out.append((m.group(1).lower(), " ".join(" ".join(msg).split()), loc, shown, mark))
    return out


def place(text, toks, path, d, names):
    """index of the token that a diagnostic points at -> (index or None, problem or None)"""
    sev, msg, loc, shown, mark = d
    if loc is None:
        return None, None
    f, line, c1, c2 = loc
    src = text.split("\n")
    if f != path:
        return None, "file %r instead of %r" % (f, path)
    if not 1 <= line <= len(src):
        return None, "line %d of %d" % (line, len(src))
    if line == len(src) and src[-1] == "" and shown is None:
        return len(toks), None              # end of the file
    if shown is not None and shown.rstrip("\r") != src[line - 1].rstrip("\r"):
        return None, "shows %r as line %d, which is %r" % (shown, line, src[line - 1])
    if c1 is None:
        return None, None
    if shown is None and "end-of-file" in msg.lower():
        return len(toks), None
    if shown is None:
        return None, "does not show line %d" % line
    if mark is not None and (mark.index("^") - 3 != c1 or len(mark.rstrip()) - 4 != c2):
        return None, "marker below columns %d-%d instead of %d-%d" % (mark.index("^") - 3, len(mark.rstrip()) - 4, c1, c2)
    at = [i for i, t in enumerate(toks) if t[1] == line and t[2] == c1]
    if not at:
        if line == len(src) or not any(t[1] >= line and (t[1] > line or t[3] >= c1) for t in toks):
            return len(toks), None          # behind the last token
        return None, "column %d of line %d (%r) is not the start of a token" % (c1, line, src[line - 1][:200])
    t = toks[at[0]]
    if c2 != c1 and c2 != t[3]:
        return None, "columns %d-%d of line %d, where %r ends in column %d" % (c1, c2, line, t[0], t[3])
    words = {w.lower() for w in re.findall(r"\w+", msg)}
    named = words & names
    # a message that names something of the specification points at one of those names
    if c2 != c1 and named and t[0].lower() not in words and not t[0].startswith("zz"):
        return None, "points at %r, but names %s" % (t[0], sorted(named))
    return at[0], None


def syntax(r, text):
    """one token too many, too few, doubled, swapped or changed"""
    t = [x[0] for x in tokens(text)]
    i = r.randrange(len(t))
    k = r.randrange(5)
    if k == 0:
        del t[i]
    elif k == 1:
        t.insert(i, r.choice([",", ";", "{", "}", "=", "node", "root", "zz", "enum", "(", "!", "->", "\"x\""]))
    elif k == 2:
        t.insert(i, t[i])
    elif k == 3:
        j = r.randrange(len(t))
        t[i], t[j] = t[j], t[i]
    else:
        t[i] = r.choice(["zz", "{", "}", ",", "phase", "int", "while", "?", "$", "3"])
    return " ".join(t)


def job(a):
    b, seed = a
    r = random.Random(seed)
    base = c05.bases(seed)
    d = os.path.join(common.scratch(), "c26-%d" % seed)
    os.makedirs(d)
    out = []
    todo = [(f.__name__.replace("_", " "), f) for f in c05.OPS] + [("token", None)] * 40
    for k, (name, f) in enumerate(todo):
        r = random.Random(seed * 131 + k)
        try:
            if f:
                text = c05.dsl_of(f(copy.deepcopy(base), r))
            else:
                text = syntax(r, c05.dsl_of(copy.deepcopy(base)))
        except c05.NA:
            continue
        if re.search(r"/\*|//", text) or text.count('"') % 2:
            continue
        # info texts and other strings may span several lines
        if r.random() < 0.5:
            text = re.sub(r'"[^"\\\n]*"', lambda m: m.group(0)[:-1] + r.choice(["", "\n", "\n  more", "\r\n\n\ttext", " "]) + '"', text)
        ref = None
        for q, st in enumerate(["as printed"] + (["tight"] if name in LEFT else r.sample(STYLES, 2))):
            v = text if q == 0 else c21.layout(r, text.rstrip().rstrip(";") + ";", st)
            v = v.encode("utf-8").decode("latin-1")
            p = os.path.join(d, "v.ccn")
            with open(p, "wb") as g:
                g.write(v.encode("latin-1"))
            x = b.gen(p, os.path.join(d, "o"), timeout=20)
            if x.timeout or x.sanitizer or x.rc != 1:
                out.append((name, st, "status", None, None, v, ""))       # judged by C05 and C06
                continue
            toks = tokens(v)
            names = {t[0].lower() for t in toks if re.match(r"[A-Za-z]\w*$", t[0])}
            names -= WORDS
            got, bad = [], None
            err = x.err.encode("utf-8", "surrogateescape").decode("latin-1")
            for g in diagnostics(err):
                i, why = place(v, toks, p, g, set() if name in OTHER or "does not contain referenced" in g[1] else names)
                if i is not None and "end-of-file" in g[1].lower() and i >= len(toks) - 1:
                    i = len(toks)
                if why and not bad:
                    bad = ("place", "%s: %s: %s" % (g[0], g[1][:120], why))
                got.append((g[0], g[1], i))
            if not got:
                bad = bad or ("no diagnostic", "no diagnostic recognized")
            if q == 0:
                ref = got, len(toks)
            elif not bad and ref and ref[1] == len(toks) and got != ref[0]:
                j = next((j for j, (y, z) in enumerate(zip(got, ref[0])) if y != z), min(len(got), len(ref[0])))
                bad = ("layout", "diagnostic %d is %r (token %s), as printed %r" % (j, got[j:j + 1], [toks[w[2]][0] if w[2] is not None and w[2] < len(toks) else None for w in got[j:j + 1]], ref[0][j:j + 1]))
            out.append((name, st, "located" if any(g[2] is not None for g in got) else "not located", len(got), bad, v, err))
    shutil.rmtree(d, ignore_errors=True)
    return seed, out


def main():
    ck = common.Check("C26", "one evaluation = the diagnostics of cocogen for one ill-formed specification (broken rule or broken token sequence) in one layout; each location must "
                      "be that of a token, show its line, mark its columns, fit the names in the message, and designate the same token in every layout; distinct = different text with a located diagnostic")
    b = common.Build()
    seeds = [common.SEED * 1000003 + 2600000 + i for i in range(ck.n(20, 600))]
    if common.REPLAY is not None:
        seeds = [common.REPLAY]
    for seed, out in common.pmap(job, [(b, x) for x in seeds]):
        for name, st, kind, n, bad, v, err in out:
            ck.count(kind)
            ck.count("layout: " + st)
            ck.count("broken " + ("token sequence" if name == "token" else "rule"))
            if n:
                ck.count("diagnostics", n)
            ck.observe(v if kind == "located" else None, {"seed": seed, "rule": name, "layout": st, "diagnostics": err[:300]})
            if bad:
                ck.violation("%s: %s: %s" % (bad[0], name, st), "specification seed %d, %s, %s: %s\n%s" % (seed, name, st, bad[1], err[-1500:]), {"spec.ccn": v.encode("latin-1")})
    return ck.finish(100)


if __name__ == "__main__":
    common.main(main)
