#!/usr/bin/env python3
"""C05: every ill-formed specification is refused with a diagnostic"""
import copy, os, random, re, shutil, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import ag, common, spec as S

OPS = []
DSL_WORDS = ["args", "attributes", "children", "constructor", "cycle", "enum", "equations", "inherited", "mandatory", "node", "nodeset", "nodes", "pass",
             "phase", "actions", "prefix", "synthesized", "this", "traversal", "travdata", "values", "func", "root", "start", "double", "float", "int",
             "uint", "int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "string", "bool", "lifetime", "disallowed", "optional",
             "allowed", "gate", "user", "uid"]
C_WORDS = ["auto", "break", "case", "char", "const", "continue", "default", "do", "else", "extern", "for", "goto", "if", "long", "register",
           "return", "short", "signed", "sizeof", "static", "struct", "switch", "typedef", "union", "unsigned", "void", "volatile", "while"]


def op(f):
    OPS.append(f)
    return f


class NA(Exception):
    """the operator does not apply to this specification"""


def pick(r, l):
    l = list(l)
    if not l:
        raise NA()
    return r.choice(l)


def case(r, n):
    return r.choice([n, n.upper(), n.lower(), n.swapcase(), n.capitalize()])


def kinds(s):
    return {"node": [x.name for x in s.nodes], "nodeset": [x.name for x in s.nodesets], "enum": [x.name for x in s.enums],
            "traversal": [x.name for x in s.travs], "pass": [x.name for x in s.passes], "phase": [x.name for x in s.phases]}


def decl(kind, name, s, r):
    """a declaration of an otherwise harmless thing of that name"""
    n = s.nodes[0].name
    return {"node": "node %s { };", "nodeset": "nodeset %%s = {%s};" % n, "enum": "enum %s { prefix = ZZQ, values { zzqa, zzqb } };",
            "traversal": "traversal %s { uid = zzqu };", "pass": "pass %s;", "phase": "phase %s { actions { pass zzqp; } };"}[kind] % name


def add(s, text, r, base=None):
    if base is None:
        s.__dict__.setdefault("added", []).append((text, r.random() < 0.5))
        return s
    t = base
    return text + "\n\n" + t if r.random() < 0.5 else t.rstrip() + "\n" + text + "\n"


# ---------------------------------------------------------------- names

for _k in ("node", "nodeset", "enum", "traversal", "pass", "phase"):
    def _dup(s, r, k=_k):
        return add(s, decl(k, case(r, pick(r, kinds(s)[k])), s, r), r)
    _dup.__name__ = "duplicate " + _k
    op(_dup)

    def _dup2(s, r, k=_k):
        o = pick(r, [x for x in kinds(s) if x != k and kinds(s)[x]])
        return add(s, decl(k, case(r, pick(r, kinds(s)[o])), s, r), r)
    _dup2.__name__ = "%s with the name of something else" % _k
    op(_dup2)

    def _kw(s, r, k=_k):
        return add(s, decl(k, r.choice(DSL_WORDS), s, r), r)
    _kw.__name__ = "keyword as name of a " + _k
    op(_kw)

    def _ckw(s, r, k=_k):
        return add(s, decl(k, r.choice(C_WORDS), s, r), r)
    _ckw.__name__ = "C keyword as name of a " + _k
    op(_ckw)


@op
def child_with_c_keyword(s, r):
    pick(r, s.nodes).children.append(S.Child(r.choice(C_WORDS), s.nodes[0].name))
    return s


@op
def attribute_with_c_keyword(s, r):
    pick(r, s.nodes).attrs.append(S.Attr(r.choice(C_WORDS), "int"))
    return s


@op
def travdata_with_c_keyword(s, r):
    return add(s, "traversal zzt { uid = zzqu, travdata { int %s } };" % r.choice(C_WORDS), r)


@op
def pass_function_with_c_keyword(s, r):
    return add(s, "pass zzt { func = %s };" % r.choice(C_WORDS), r)


@op
def node_called_node(s, r):
    return add(s, "node %s { };" % r.choice(["Node", "NODE", "nODE"]), r)


@op
def duplicate_uid(s, r):
    u = [t.uid for t in s.travs] + [p.uid for p in s.passes + s.phases if p.uid]
    k = r.choice(["traversal zzt { uid = %s };", "pass zzt { uid = %s };", "phase zzt { uid = %s, actions { pass zzp; } };"])
    return add(s, k % case(r, pick(r, u)), r)


@op
def uid_is_a_name(s, r):
    k = r.choice(["traversal zzt { uid = %s };", "pass zzt { uid = %s };", "phase zzt { uid = %s, actions { pass zzp; } };"])
    return add(s, k % case(r, pick(r, [x for v in kinds(s).values() for x in v])), r)


@op
def duplicate_pass_function(s, r):
    p = pick(r, [p for p in s.passes if p.func])
    return add(s, "pass zzt { func = %s };" % p.func, r)


@op
def duplicate_enum_prefix(s, r):
    return add(s, "enum zze { prefix = %s, values { zzqa } };" % case(r, pick(r, s.enums).prefix), r)


@op
def reserved_enum_prefix(s, r):
    return add(s, "enum zze { prefix = %s, values { zzqa } };" % case(r, r.choice(["NT", "TRAV", "PASS", "CCN"])), r)


@op
def reserved_uid(s, r):
    return add(s, "traversal zzt { uid = %s };" % case(r, r.choice(["CCN", "PASS", "EVAL"])), r)


@op
def duplicate_field(s, r):
    n = pick(r, [n for n in s.nodes if n.children or [a for a in n.attrs if not a.prop]])
    f = pick(r, [c.name for c in n.children] + [a.name for a in n.attrs if not a.prop])
    if r.random() < 0.5:
        n.children.append(S.Child(case(r, f), n.name))
    else:
        n.attrs.append(S.Attr(case(r, f), "int"))
    return s


@op
def child_named_like_a_set_attribute(s, r):
    c = [(n, a) for x in s.nodesets for m in s.eval(x.expr) for n in [s.node(m)] for a in x.attrs]
    n, a = pick(r, c)
    n.attrs = [b for b in n.attrs if b.name.lower() != a.name.lower() or b.prop]
    n.children.append(S.Child(case(r, a.name), n.name))
    return s


@op
def duplicate_set_attribute(s, r):
    x = pick(r, [x for x in s.nodesets if x.attrs])
    x.attrs.append(S.Attr(case(r, r.choice(x.attrs).name), "int"))
    return s


@op
def duplicate_travdata(s, r):
    return add(s, "traversal zzt { uid = zzqu, travdata { int zzd, %s %s } };" % (r.choice(["int", "string"]), case(r, "zzd")), r)


@op
def duplicate_enum_value(s, r):
    e = pick(r, s.enums)
    e.values.append(case(r, r.choice(e.values)))
    return s


@op
def enum_value_null(s, r):
    e = pick(r, s.enums)
    e.values.insert(r.randint(0, len(e.values)), "NULL")
    return s


# ---------------------------------------------------------------- references

def wrong(s, r, ok):
    """a name that exists but is not of one of the given kinds, or does not exist"""
    l = [x for k, v in kinds(s).items() if k not in ok for x in v]
    return r.choice(l) if l and r.random() < 0.6 else "zzundefined"


@op
def child_of_no_type(s, r):
    n = pick(r, s.nodes)
    n.children.insert(r.randint(0, len(n.children)), S.Child("zzf", wrong(s, r, ("node", "nodeset"))))
    return s


@op
def attribute_of_no_type(s, r):
    n = pick(r, s.nodes)
    n.attrs.insert(r.randint(0, len(n.attrs)), S.Attr("zzf", "link", wrong(s, r, ("node", "nodeset", "enum"))))
    return s


@op
def set_attribute_of_no_type(s, r):
    return add(s, "nodeset zzs { nodes = {%s}, attributes { %s zzf } };" % (s.nodes[0].name, wrong(s, r, ("node", "nodeset", "enum"))), r)


@op
def travdata_of_no_type(s, r):
    return add(s, "traversal zzt { uid = zzqu, travdata { int zzg, %s zzf } };" % wrong(s, r, ("node", "nodeset", "enum")), r)


@op
def set_of_no_nodes(s, r):
    return add(s, "nodeset zzs = {%s, %s};" % (s.nodes[0].name, wrong(s, r, ("node",))), r)


@op
def reference_to_no_set(s, r):
    return add(s, "nodeset zzs = {%s} | %s;" % (s.nodes[0].name, wrong(s, r, ("nodeset",))), r)


@op
def traversal_of_no_nodes(s, r):
    return add(s, "traversal zzt { uid = zzqu, nodes = {%s} };" % wrong(s, r, ("node",)), r)


@op
def traversal_of_no_set(s, r):
    return add(s, "traversal zzt { uid = zzqu, nodes = {%s} - %s };" % (s.nodes[0].name, wrong(s, r, ("nodeset",))), r)


@op
def action_of_no_kind(s, r):
    p = pick(r, s.phases)
    p.actions.insert(r.randint(0, len(p.actions)), "\0" + wrong(s, r, ("pass", "traversal", "phase")))
    return s


@op
def unused_phase_with_no_action(s, r):
    return add(s, "phase zzp { actions { %s; } };" % wrong(s, r, ("pass", "traversal", "phase")), r)


@op
def phase_contains_itself(s, r):
    ps = [p for p in s.phases]
    p = pick(r, ps)
    p.actions.insert(r.randint(0, len(p.actions)), "\0" + p.name)
    return s


@op
def phases_contain_each_other(s, r):
    return add(s, "phase zzp { actions { zzr; } }; phase zzr { actions { pass zzx; zzq; } }; cycle zzq { actions { pass zzy; zzp; } };", r)


# ---------------------------------------------------------------- root, start, uid

@op
def no_root(s, r):
    s.root.root = False
    return s


@op
def two_roots(s, r):
    pick(r, [n for n in s.nodes if not n.root]).root = True
    return s


@op
def no_start(s, r):
    return re.sub(r"\bstart\s+(phase|cycle)\b", r"\1", S.to_dsl(s, None))


@op
def two_starts(s, r):
    return add(s, "start phase zzp { actions { pass zzq; } };", r)


@op
def no_nodes(s, r):
    return "start phase zzp { actions { pass zzq; } };\n"


@op
def nothing(s, r):
    return r.choice(["", "\n", "// only a comment\n", "/* c */", ";"])


@op
def traversal_without_uid(s, r):
    return add(s, r.choice(["traversal zzt { };", "traversal zzt { nodes = {%s} };" % s.nodes[0].name, "traversal zzt;", "traversal zzt { travdata { int zzd } };"]), r)


# ---------------------------------------------------------------- node set attributes

@op
def attribute_of_an_intersection(s, r):
    full = "{%s}" % ", ".join(n.name for n in s.nodes)
    e = r.choice(["%s & %s" % (full, full), "{%s} | %s & %s" % (s.nodes[0].name, full, full), "(%s & %s) | {%s}" % (full, full, s.nodes[0].name)])
    return add(s, "nodeset zzs { nodes = %s, attributes { int zzf } };" % e, r)


@op
def attribute_of_a_difference(s, r):
    if len(s.nodes) < 2:
        raise NA()
    a, b = r.sample([n.name for n in s.nodes], 2)
    e = r.choice(["{%s, %s} - {%s}" % (a, b, b), "{%s} | ({%s, %s} - {%s})" % (a, a, b, b)])
    return add(s, "nodeset zzs { nodes = %s, attributes { int zzf } };" % e, r)


@op
def constructor_in_a_set(s, r):
    return add(s, "nodeset zzs { nodes = {%s}, attributes { int zzg, string zzf { constructor } } };" % s.nodes[0].name, r)


@op
def constructor_and_synthesized(s, r):
    n = pick(r, s.nodes)
    a = S.Attr("zzf", "int", None, True, "syn")
    n.attrs.append(a)
    n.eqs.append(S.Eq((None, "zzf"), None))
    return s


# ---------------------------------------------------------------- lifetimes

def lt(r, kind, target=None):
    """a lifetime whose range is (or is not) given"""
    if target is None:
        return S.Lt(kind)
    if r.random() < 0.5:
        return S.Lt(kind, (r.random() < 0.5, target), None, False)
    return S.Lt(kind, None, (r.random() < 0.5, target), False)


@op
def lifetime_of_a_number(s, r):
    n = pick(r, s.nodes)
    t = r.choice(["int", "uint8", "bool", "double", "float", "int64"])
    a = S.Attr("zzf", t)
    a.lifetimes.append(lt(r, r.choice(["disallowed", "mandatory", "optional", "allowed"])))
    n.attrs.insert(r.randint(0, len(n.attrs)), a)
    return s


@op
def mandatory_node(s, r):
    pick(r, s.nodes).lifetimes.append(lt(r, r.choice(["mandatory", "optional"])))
    return s


@op
def lifetime_of_an_undefined_action(s, r):
    n = pick(r, s.nodes)
    l = lt(r, r.choice(["disallowed", "allowed"]), [wrong(s, r, ("pass", "traversal", "phase"))])
    if n.children and r.random() < 0.5:
        r.choice(n.children).lifetimes.append(l)
    else:
        n.lifetimes.append(l)
    return s


@op
def lifetime_of_an_action_outside_its_phase(s, r):
    # the named action does not occur in the phase that is named before it
    ph = pick(r, [p for p in s.phases if not p.start])
    inside = set()

    def go(p):
        for a in p.actions:
            o = s.phase(a) or s.trav(a) or s.pas(a)
            inside.add(o.name.lower())
            if isinstance(o, S.Phase):
                go(o)
    go(ph)
    out = pick(r, [x for x in [o[3].name for o in s.actions()] if x.lower() not in inside])
    pick(r, s.nodes).lifetimes.append(lt(r, "disallowed", [ph.name, out]))
    return s


@op
def lifetime_inside_a_pass(s, r):
    acts = [o[3] for o in s.actions() if not isinstance(o[3], S.Phase)]
    pick(r, s.nodes).lifetimes.append(lt(r, "allowed", [pick(r, acts).name, pick(r, acts).name]))
    return s


@op
def lifetime_of_a_grammar_attribute(s, r):
    n = pick(r, s.nodes)
    a = S.Attr("zzf", "string", None, False, "syn")
    a.lifetimes.append(lt(r, "disallowed"))
    n.attrs.append(a)
    n.eqs.append(S.Eq((None, "zzf"), None))
    return s


# ---------------------------------------------------------------- attribute grammars

def eqs(s):
    return [(n, e) for n in s.nodes for e in n.eqs]


def recase(x, r):
    return (x[0] and case(r, x[0]), case(r, x[1])) if r.random() < 0.7 else x


@op
def missing_equation(s, r):
    n, e = pick(r, eqs(s))
    n.eqs.remove(e)
    return s


@op
def missing_equation_of_a_new_child(s, r):
    inh = [n for n in s.nodes if any(a.kind == "inh" for a in n.attrs)]
    pick(r, s.nodes).children.append(S.Child("zzf", pick(r, inh).name))
    return s


@op
def repeated_equation(s, r):
    n, e = pick(r, eqs(s))
    e = copy.deepcopy(e)
    e.target = recase(e.target, r)
    n.eqs.insert(r.randint(0, len(n.eqs)), e)
    return s


@op
def repeated_dependency(s, r):
    n, e = pick(r, [x for x in eqs(s) if x[1].deps])
    e.deps.append(recase(r.choice(e.deps), r))
    return s


@op
def equation_of_an_inherited_attribute(s, r):
    n = pick(r, [n for n in s.nodes if any(a.kind == "inh" for a in n.attrs)])
    n.eqs.append(S.Eq((None, r.choice([a.name for a in n.attrs if a.kind == "inh"])), []))
    return s


@op
def equation_of_a_plain_attribute(s, r):
    n = pick(r, [n for n in s.nodes if any(a.kind == "classic" for a in n.attrs)])
    n.eqs.append(S.Eq((None, r.choice([a.name for a in n.attrs if a.kind == "classic"])), []))
    return s


@op
def equation_of_a_synthesized_attribute_of_a_child(s, r):
    l = [(n, c, a) for n in s.nodes for c in n.children for a in ag.type_attrs(s, c.type) if a.kind != "inh"]
    n, c, a = pick(r, l)
    n.eqs.append(S.Eq((c.name, a.name), []))
    return s


@op
def equation_of_nothing(s, r):
    n = pick(r, s.nodes)
    n.eqs.append(S.Eq(r.choice([(None, "zzundefined"), ("zzundefined", "zzf")] + [(c.name, "zzundefined") for c in n.children]), []))
    return s


@op
def dependency_on_nothing(s, r):
    n, e = pick(r, eqs(s))
    e.deps = list(e.deps or [])
    e.deps.insert(r.randint(0, len(e.deps)), r.choice([(None, "zzundefined"), ("zzundefined", "zzf")] + [(c.name, "zzundefined") for c in n.children]))
    return s


@op
def dependency_on_a_child_field(s, r):
    n, e = pick(r, [x for x in eqs(s) if x[0].children])
    e.deps = list(e.deps or []) + [(None, r.choice(n.children).name)]
    return s


@op
def root_with_inherited_attribute(s, r):
    s.root.attrs.append(S.Attr("zzf", "int", None, False, "inh"))
    return s


@op
def root_in_a_set_with_inherited_attributes(s, r):
    if any(c.type.lower() in ("zzs",) for n in s.nodes for c in n.children):
        raise NA()
    return add(s, "nodeset zzs { nodes = {%s}, attributes { int zzf { inherited } } };" % s.root.name, r)


@op
def additional_inherited_attribute(s, r):
    l = [(x, m) for x in s.nodesets if any(a.kind == "inh" for a in x.attrs) for m in s.eval(x.expr)]
    x, m = pick(r, l)
    s.node(m).attrs.append(S.Attr("zzf", "int", None, False, "inh"))
    for n in s.nodes:       # leave no other fault
        for c in n.children:
            if s.node(c.type) and c.type.lower() == m:
                n.eqs.append(S.Eq((c.name, "zzf"), []))
    return s


@op
def redeclared_with_another_type(s, r):
    """a member repeats an attribute of its set with a type that is not the same"""
    e = "enum zzen { prefix = ZZQ, values { zzqa } };\nenum zzenum { prefix = ZZR, values { zzra } };\n"
    names = ["zzma", "zzmb", "zzmab"]
    pairs = [("user zzt", "user zztx"), ("user zztx", "user zzt"), ("user zzt", "user Zzt"), ("int", "uint32"), ("int8", "int16"), ("int", "int32"), ("float", "double"),
             ("string", "user string2"), ("zzen", "zzenum"), ("zzenum", "zzen"), ("zzma", "zzmab"), ("zzmab", "zzma"), ("zzs", "zzma"), ("zzen", "zzma"), ("bool", "int"), ("user zzen", "zzen")]
    x, y = r.choice(pairs)
    bad = r.choice(names)
    d = [e + "nodeset zzs { nodes = {%s}, attributes { %s zzf } };" % (", ".join(names), x)]
    for n in names:
        a = y if n == bad else x if r.random() < 0.5 else None
        d.append("node %s {%s };" % (n, " attributes { %s zzf { constructor } }" % a if a else ""))
    r.shuffle(d)
    return add(s, "\n".join(d), r)


@op
def additional_inherited_attribute_of_one_of_many(s, r):
    k = r.randint(2, 9)
    bad = r.randrange(k)
    used = r.random() < 0.5
    l = ["zzn%d" % i for i in range(k)]
    r.shuffle(l)
    have = not used or r.random() < 0.5
    g = lambda *x: ", attributes { %s }" % ", ".join("int %s { inherited }" % y for y in x if y) if any(x) else ""
    d = []
    for i, x in enumerate(l):
        a = g("zzf" if i == bad else "")      # zzg comes from the set
        d.append("node %s {%s };" % (x, a[1:]))
    d.append("nodeset zzs { nodes = {%s}%s };" % (", ".join(l), g("zzg") if have else ""))
    if used:
        d.append("node zzu { children { zzs zzc }%s };" % (", equations { zzc.zzg = { args = {} } }" if have else ""))
    r.shuffle(d)
    return add(s, " ".join(d), r)


@op
def self_dependency(s, r):
    n, e = pick(r, eqs(s))
    e.deps = list(e.deps or [])
    if e.target in e.deps:
        raise NA()
    e.deps.append(e.target)
    return s


@op
def both_synthesized_and_inherited(s, r):
    m = ["synthesized", "inherited"]
    r.shuffle(m)
    a = "attributes { int zzf { %s } }" % ", ".join(m)
    eq = "equations { this.zzf = { args = {} } }"
    x = r.randrange(3)
    if x == 0:
        d = ["node zzn { %s, %s };" % (a, eq)]
    elif x == 1:
        d = ["node zzn { %s, %s };" % (a, eq), "node zzu { children { zzn zzc }, equations { zzc.zzf = { args = {} } } };"]
    else:
        d = ["node zzn { %s };" % eq, "nodeset zzs { nodes = {zzn}, %s };" % a, "node zzu { children { zzs zzc }, equations { zzc.zzf = { args = {} } } };"]
    r.shuffle(d)
    return add(s, " ".join(d), r)


# ---------------------------------------------------------------- syntax

def tokens(t):
    return re.findall(r'"[^"]*"|[A-Za-z_]\w*|->|\S', t)


@op
def missing_bracket(s, r):
    t = tokens(S.to_dsl(s, None))
    i = pick(r, [i for i, x in enumerate(t) if x in "{}"])
    return " ".join(t[:i] + t[i + 1:])


@op
def extra_bracket(s, r):
    t = tokens(S.to_dsl(s, None))
    t.insert(r.randint(0, len(t)), r.choice("{})("))
    return " ".join(t)


@op
def truncated(s, r):
    t = tokens(S.to_dsl(s, None))
    depth, ok = 0, []
    for i, x in enumerate(t):
        depth += (x == "{") - (x == "}")
        if depth > 0:
            ok.append(i + 1)
    return " ".join(t[:pick(r, ok)])


@op
def missing_name(s, r):
    t = tokens(S.to_dsl(s, None))
    i = pick(r, [i for i, x in enumerate(t[:-1]) if x in ("node", "nodeset", "enum") and t[i + 2] == "{"])
    return " ".join(t[:i + 1] + t[i + 2:])


@op
def missing_semicolon(s, r):
    t = tokens(S.to_dsl(s, None))
    l = [i for i, x in enumerate(t[:-1]) if x == ";" and t[i - 1] == "}" and t[i + 1] in ("node", "root", "nodeset", "enum", "phase", "start", "cycle", "traversal", "pass")]
    i = pick(r, l)
    return " ".join(t[:i] + t[i + 1:])


@op
def misspelt_keyword(s, r):
    t = tokens(S.to_dsl(s, None))
    # only where it is a keyword: a value of an enum may have such a name
    i = pick(r, [i for i, x in enumerate(t) if i + 2 < len(t) and t[i + 1] not in (",", "}") and (x != "node" or t[i + 2] == "{") and x in ("children", "attributes", "actions", "uid", "prefix", "values", "nodeset", "node", "traversal", "equations", "travdata")])
    t[i] = r.choice([t[i] + "s", t[i][:-1], "zz" + t[i], t[i].upper()])
    if t[i] == "nodes":
        raise NA()
    return " ".join(t)


@op
def illegal_character(s, r):
    t = tokens(S.to_dsl(s, None))
    t.insert(r.randint(0, len(t)), r.choice(["#", "$", "@", "!", "?", "`", "~", "\\", "\x01", "\xe9", "%"]))
    return " ".join(t)


@op
def number_as_name(s, r):
    return add(s, r.choice(["node 5x { };", "enum 7 { prefix = ZZ, values { a } };", "nodeset 3 = {%s};" % s.nodes[0].name]), r)


@op
def open_comment(s, r):
    t = S.to_dsl(s, None)
    return t + r.choice(["/* open", "/*", "/* * /", "/* open\n", "/*\n\n", "/* a\n b\n", "\n/* a\n b"]) if r.random() < 0.6 else "/* open\n" + t


@op
def open_string(s, r):
    return add(s, 'pass zzp { info = "open, func = zzf };', r)


def bases(seed):
    """well-formed specifications to start from"""
    k = seed % 4
    if k == 0:
        return S.gen_spec(seed, S.Cfg(sets=(1, 4), enums=(1, 2), travs=(1, 4), phases=(1, 4), lifetimes=True, inline=0.0))
    if k == 1:
        return S.gen_spec(seed, S.Cfg(nodes=(2, 9), sets=(1, 3), enums=(1, 3), travs=(1, 3), phases=(0, 3), inline=0.4))
    return ag.gen(seed, ag.AgCfg(mode="L", nodes=(2, 6), families=(1, 2), extra_syn=0.3))


def printable(s):
    return S.to_dsl(s, random.Random(1))


def dsl_of(x):
    if isinstance(x, str):
        return x
    # actions that name nothing are printed by name only
    for p in x.phases:
        p.actions = [a for a in p.actions]
    marks = {}
    for p in x.phases:
        for i, a in enumerate(p.actions):
            if a.startswith("\0"):
                m = "zzmark%d" % len(marks)
                marks[m] = a[1:]
                q = S.Pass(m)
                x.passes.append(q)
                x.inline.add(m)
                p.actions[i] = m
    t = printable(x)
    for m, a in marks.items():
        t, n = re.subn(r"pass\s+%s\b\s*(\{[^{}]*\})?" % m, a, t)
        if n != 1:
            raise NA()
    for a, first in x.__dict__.get("added", []):
        t = a + "\n\n" + t if first else t.rstrip() + "\n" + a + "\n"
    return t


PAIRS = 40


def pair(seed, k):
    """two faults in one specification: a check that runs on after the first one must cope with it"""
    def f(s, r):
        for _ in range(20):
            f, g = r.sample(OPS, 2)
            try:
                x = f(copy.deepcopy(s), r)
                if not isinstance(x, str):
                    return g(x, r)
            except (NA, LookupError, AttributeError, StopIteration):
                continue
        raise NA()
    return f


def job(a):
    b, seed = a
    d = os.path.join(common.scratch(), "m%d" % seed)
    os.makedirs(d)
    out = []
    base = bases(seed)
    todo = [("(the specification itself)", lambda s, r: s)] + [(f.__name__.replace("_", " "), f) for f in OPS]
    todo += [("two faults", pair(seed, i)) for i in range(PAIRS)]
    for k, (name, f) in enumerate(todo):
        r = random.Random(seed * 131 + k)
        s = copy.deepcopy(base)
        try:
            t = dsl_of(f(s, r))
        except NA:
            out.append((name, "not applicable", None, ""))
            continue
        p = os.path.join(d, "v%d.ccn" % k)
        open(p, "w").write(t)
        x = b.gen(p, os.path.join(d, "o"), timeout=20)
        if x.timeout:
            v = "does not terminate"
        elif x.sanitizer:
            v = "crash " + x.sanitizer[0]
        elif x.rc == 0:
            v = "accepted"
        elif x.rc == 1:
            v = "refused" if re.search(r"error", x.err, re.I) else "refused without a message"
        else:
            v = "exit %s" % x.rc
        out.append((name, v, t, x.err[-1200:]))
    shutil.rmtree(d, ignore_errors=True)
    return seed, out


def main():
    ck = common.Check("C05", "one evaluation = one verdict of cocogen (exit status, messages, sanitizer reports) on one specification that was made ill-formed by one of "
                      "%d operators, each breaking one documented rule; distinct = different text" % len(OPS))
    b = common.Build()
    seeds = [common.SEED * 1000003 + 900000 + i for i in range(ck.n(64, 2000))]
    if common.REPLAY is not None:
        seeds = [common.REPLAY]
    for seed, out in common.pmap(job, [(b, x) for x in seeds]):
        for name, v, t, err in out:
            if t is None:
                ck.count("not applicable")
                continue
            ck.count("verdict: " + v.split(":")[0])
            ck.count(name)
            if name.startswith("("):
                if v != "accepted":
                    ck.violation("base: " + v, "well-formed specification seed %d: %s\n%s" % (seed, v, err), {"spec.ccn": t})
                continue
            ck.observe(t, {"seed": seed, "rule": name, "verdict": v, "message": err[:200]})
            if v == "accepted" and name == "two faults":        # one can mend the other (no root, two roots)
                ck.count("two faults that cancel out")
                continue
            if v != "refused":
                ck.violation("%s: %s" % (name, v), "specification seed %d: %s: %s\n%s" % (seed, name, v, err), {"spec.ccn": t})
    few = [f.__name__ for f in OPS if ck.stats.get(f.__name__.replace("_", " "), 0) < 3]
    if few and common.REPLAY is None:
        print("operators hardly applied:", few)
    return ck.finish(100)


if __name__ == "__main__":
    common.main(main)
