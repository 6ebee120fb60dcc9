"""Generate the per-specification part of the workload driver (see rt/rt.h)."""
from spec import INT_TYPES, Spec

CTYPE_KIND = {"long": ("%ld", "long"), "void *": ("%lx", "unsigned long"), "double": None,
              "unsigned char": ("%d", "int"), "const char *": None}


def kind(a, plain=False):
    if a.kind != "classic" and not plain:
        return "K_AG"
    if a.type in INT_TYPES:
        return "K_INT" if INT_TYPES[a.type][1] else "K_UINT"
    return {"float": "K_FLOAT", "double": "K_DOUBLE", "bool": "K_BOOL", "string": "K_STRING", "enum": "K_ENUM",
            "link": "K_LINK", "user": "K_USER"}[a.type]


def ctype(s, a):
    if a.type in INT_TYPES:
        return "int" if a.type == "int" else "unsigned int" if a.type == "uint" else a.type + "_t"
    if a.type == "string":
        return "char *"
    if a.type == "enum":
        return "enum " + s.enum(a.ref).name
    if a.type == "link":
        return "node_st *"
    if a.type == "user":
        return a.ref
    return a.type


def utype(s, a):
    return next(t for n, t in s.user_types if n == a.ref)


def to_c(s, a, v, link):
    """C expression of the value v (int64_t expression) for attribute a"""
    k = kind(a, True)
    if k in ("K_INT", "K_UINT"):
        return "(%s)(%s)" % (ctype(s, a), v)
    if k == "K_FLOAT":
        return "rt_mkfloat(%s)" % v
    if k == "K_DOUBLE":
        return "rt_mkdouble(%s)" % v
    if k == "K_BOOL":
        return "((%s) & 1)" % v
    if k == "K_STRING":
        return "rt_mkstr(%s)" % v
    if k == "K_ENUM":
        return "(enum %s)((uint64_t)(%s) %% %d)" % (s.enum(a.ref).name, v, len(s.enum(a.ref).values) + 1)
    if k == "K_LINK":
        return link
    t = utype(s, a)
    if t == "double":
        return "rt_mkdouble(%s)" % v
    if t == "const char *":
        return "rt_cstr(%s)" % v
    if t == "void *":
        return "(void *)(uintptr_t)(%s)" % v
    return "(%s)(%s)" % (t, v)


def log_c(s, a, e):
    k = kind(a, True)
    if k == "K_INT":
        return 'rt_put("%%lld", (long long)(%s));' % e
    if k == "K_UINT":
        return 'rt_put("%%llu", (unsigned long long)(%s));' % e
    if k == "K_FLOAT":
        return "rt_putf(%s);" % e
    if k == "K_DOUBLE":
        return "rt_putd(%s);" % e
    if k == "K_BOOL":
        return 'rt_put("%%d", (int)(%s));' % e
    if k == "K_STRING":
        return "rt_putstr(%s);" % e
    if k == "K_ENUM":
        return 'rt_put("%%d", (int)(%s));' % e
    if k == "K_LINK":
        return 'rt_put("#%%d", rt_id(%s));' % e
    t = utype(s, a)
    if t == "double":
        return "rt_putd(%s);" % e
    if t == "const char *":
        return "rt_putstr(%s);" % e
    if t == "void *":
        return 'rt_put("%%lx", (unsigned long)(uintptr_t)(%s));' % e
    return 'rt_put("%%ld", (long)(%s));' % e


def user_types_h(s):
    return "#pragma once\n#define CCN_USES_UNSAFE_ACKNOWLEDGE\n" + "".join("typedef %s %s;\n" % (t, n) for n, t in s.user_types)


def mac(n, f):
    return "%s_%s" % (n.name.upper(), f.name.upper())


def drv(s: Spec, eqs=None):
    o = ['#include "rt.h"', '#include "ccngen/gate.h"', '#include "ccngen/ag.h"\n#include "palm/memory.h"']
    o.append("const int rt_ntypes = %d;" % len(s.nodes))
    o.append("const char *const rt_typename[] = {%s};" % ", ".join('"%s"' % n.name for n in s.nodes))
    o.append("const int rt_nchildren[] = {%s};" % ", ".join(str(len(n.children)) for n in s.nodes))
    o.append("const int rt_nattrs[] = {%s};" % ", ".join(str(len(n.attrs)) for n in s.nodes))
    o.append("int rt_typeof(node_st *n) { switch (NODE_TYPE(n)) {")
    for i, n in enumerate(s.nodes):
        o.append("case NT_%s: return %d;" % (n.name.upper(), i))
    o.append("default: return -1; } }")

    def sw(sig, field, body, dflt, expr="i"):
        o.append(sig + " { switch (rt_typeof(n)) {")
        for k, n in enumerate(s.nodes):
            fs = getattr(n, field)
            if fs:
                o.append("case %d: switch (%s) {" % (k, expr))
                for i, f in enumerate(fs):
                    b = body(n, f)
                    if b:
                        o.append("case %d: %s" % (i, b))
                o.append("default: break; } break;")
        o.append("default: break; } %s }" % dflt)
    sw("node_st **rt_child(node_st *n, int i)", "children", lambda n, c: "return &%s(n);" % mac(n, c), "return NULL;")
    sw("node_st *rt_travchild(node_st *n, int i)", "children", lambda n, c: "return TRAV%s(n);" % c.name.lower(), "return NULL;")
    sw("void rt_attr_set(node_st *n, int i, int64_t v, node_st *link)", "attrs",
       lambda n, a: "%s(n) = %s; return;" % (mac(n, a), to_c(s, a, "v", "link")) if a.kind == "classic" else None, "(void)v; (void)link;")
    sw("int rt_attr_kind(node_st *n, int i)", "attrs", lambda n, a: "return %s;" % kind(a), "return -1;")
    sw("void rt_attr_log(node_st *n, int i)", "attrs", lambda n, a: "%s return;" % log_c(s, a, mac(n, a) + "(n)") if a.kind == "classic" else 'rt_put("-"); return;', "")
    sw("char *rt_attr_str(node_st *n, int i)", "attrs",
       lambda n, a: "return %s(n);" % mac(n, a) if a.type == "string" and a.kind == "classic" else None, "return NULL;")
    sw("node_st *rt_attr_link(node_st *n, int i)", "attrs",
       lambda n, a: "return %s(n);" % mac(n, a) if a.type == "link" and a.kind == "classic" else None, "return NULL;")
    o.append("node_st *rt_construct(int type, node_st **kids, const int64_t *v, node_st **links) { (void)kids; (void)v; (void)links; switch (type) {")
    for k, n in enumerate(s.nodes):
        cs = ["kids[%d]" % i for i, _ in enumerate([c for c in n.children if c.ctor])]
        at = [to_c(s, a, "v[%d]" % i, "links[%d]" % i) for i, a in enumerate([a for a in n.attrs if a.ctor])]
        o.append("case %d: return AST%s(%s);" % (k, n.name.lower(), ", ".join(cs + at)))
    o.append("default: return NULL; } }")
    o.append("int rt_cur_trav(void) { ccn_trav_st *t = TRAVgetCurrent(); if (!t) return -1; switch (t->trav_type) {")
    for i, t in enumerate(s.travs):
        o.append("case TRAV_%s: return %d;" % (t.uid.upper(), i))
    o.append("default: return -2; } }")
    o.append("enum ccn_traversal_type rt_trav_type(int t) { switch (t) {")
    for i, t in enumerate(s.travs):
        o.append("case %d: return TRAV_%s;" % (i, t.uid.upper()))
    o.append("default: return TRAV_NULL; } }")

    o.append("int rt_td_count(int t) { switch (t) {")
    for i, t in enumerate(s.travs):
        if t.data is not None:
            o.append("case %d: return %d;" % (i, len(t.data)))
    o.append("default: return 0; } }")
    o.append("void rt_td_write(int t, int f, int64_t v, node_st *link) { (void)v; (void)link; switch (t * 64 + f) {")
    for i, t in enumerate(s.travs):
        for j, d in enumerate(t.data or []):
            if d.type == "string":
                # strings in traversal data are borrowed from a static pool
                e = "(char *)rt_cstr(v)"
            else:
                e = to_c(s, d, "v", "link")
            o.append("case %d: DATA_%s_GET()->%s = %s; return;" % (i * 64 + j, t.uid.upper(), d.name, e))
    o.append("default: return; } }")
    o.append("void rt_td_log(int t) { switch (t) {")
    for i, t in enumerate(s.travs):
        if t.data is not None:
            o.append("case %d: %s break;" % (i, ' rt_put(","); '.join(
                log_c(s, d, "DATA_%s_GET()->%s" % (t.uid.upper(), d.name)) for d in t.data)))
    o.append("default: break; } }")
    for i, t in enumerate(s.travs):
        tg = s.targets(t)
        for k, n in enumerate(s.nodes):
            if n.name.lower() in tg:
                o.append("node_st *%s%s(node_st *n) { return rt_handler(%d, %d, n); }" % (t.uid.upper(), n.name.lower(), i, k))
        if t.data is not None:
            o.append("void %sinit(void) { rt_init(%d); }" % (t.uid.upper(), i))
            o.append("void %sfini(void) { rt_fini(%d); }" % (t.uid.upper(), i))
    seen = set()
    for i, p in enumerate(s.passes):
        if p.cfunc in seen:
            continue
        seen.add(p.cfunc)
        o.append("node_st *%s(node_st *n) { return rt_pass(%d, n); }" % (p.cfunc, i))
    for i, g in enumerate(gates(s)):
        o.append("bool %s(void) { return rt_gate(%d); }" % (g, i))
    o.append("void rt_evaluate(node_st *n) { CCNevaluateAttributes(n); }")
    o.append("void rt_sa_log(node_st *n) { switch (rt_typeof(n)) {")
    for k, n in enumerate(s.nodes):
        cl = [a for a in n.attrs if a.kind == "classic" and set_accessors(s, n, a)]
        if cl:
            o.append("case %d:" % k)
            for i, a in enumerate(cl):
                o.append(('rt_put(","); ' if i else "") + log_c(s, a, "%s_%s(n)" % (n.name.upper(), a.name.upper())))
                for x in set_accessors(s, n, a):
                    o.append('rt_put("|"); ' + log_c(s, a, "%s_%s(n)" % (x.name.upper(), a.name.upper())))
            o.append("break;")
    o.append("default: break; } }")
    o.append("void rt_sa_set(node_st *n, int i, int64_t v, node_st *l, unsigned k) { (void)v; (void)l; (void)k; switch (rt_typeof(n) * 1000 + i) {")
    for k, n in enumerate(s.nodes):
        for i, a in enumerate(n.attrs):
            xs = set_accessors(s, n, a)
            if a.kind == "classic" and xs:
                o.append("case %d: switch (k %% %d) {" % (k * 1000 + i, len(xs)))
                for j, x in enumerate(xs):
                    m = "%s_%s(n)" % (x.name.upper(), a.name.upper())
                    o.append("case %d: %s%s = %s; break;" % (j, "MEMfree(%s); " % m if a.type == "string" else "", m, to_c(s, a, "v", "l")))
                o.append("} break;")
    o.append("default: break; } }")
    o.append("void rt_ag_log(node_st *n) { switch (rt_typeof(n)) {")
    for k, n in enumerate(s.nodes):
        ags = [a for a in n.attrs if a.kind != "classic"]
        if ags:
            o.append("case %d:" % k)
            for i, a in enumerate(ags):
                o.append(('rt_put(","); ' if i else "") + log_c(s, a, "%s_%s(n)" % (n.name.upper(), a.name.upper())))
                for x in set_accessors(s, n, a):
                    o.append('rt_put("|"); ' + log_c(s, a, "%s_%s(n)" % (x.name.upper(), a.name.upper())))
            o.append("break;")
    o.append("default: break; } }")
    if eqs:
        o += eqs
    return "\n".join(o) + "\n"


def set_accessors(s, n, a):
    """the node sets through which attribute a of node n can be read"""
    import ag
    out = []
    for x in s.nodesets:
        if n.name.lower() in s.eval(x.expr) and any(b.name.lower() == a.name.lower() for b in ag.set_attrs(s, x)):
            out.append(x)
    return out


def gates(s):
    out = []
    for p in s.phases:
        if p.gate and p.gate not in out:
            out.append(p.gate)
    return out
