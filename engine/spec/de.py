"""What is read when parsing (P17-P20, P22)."""
import re
from models import uncow
from spec.ser import *

# members that have a value when they are absent: key -> how the value is recognised
DEFAULTS = {
    ("thing", "@context"): "context", ("actionaffordance", "safe"): "false", ("actionaffordance", "idempotent"): "false",
    ("dsx", "readOnly"): "false", ("dsx", "writeOnly"): "false", ("propertyaffordance", "readOnly"): "false",
    ("propertyaffordance", "writeOnly"): "false",
    ("basicsecurityscheme", "in"): "Header", ("digestsecurityscheme", "in"): "Header", ("digestsecurityscheme", "qop"): "Auth",
    ("bearersecurityscheme", "in"): "Header", ("bearersecurityscheme", "alg"): "'ES256", ("bearersecurityscheme", "format"): "'jwt",
    ("apikeysecurityscheme", "in"): "Query", ("form", "op"): "Default", ("additionalexpectedresponse", "success"): "false",
    ("mqtt_form", "mqv:retain"): "false", ("mqtt_form", "mqv:filter"): "empty", ("http_response", "htv:headers"): "empty",
}
REQ = ("v", "mm")


def leafname(k):
    return "l_" + re.sub("[^A-Za-z0-9]", "_", k)


def kinds(t):
    """The documents of a type: [(suffix, path of the variant or "", tag rows, rows)]"""
    rows = members(t)
    if t in TAGS:
        key, base, tags = TAGS[t]
        out = []
        if "?" in base:
            out.append(("none", None, [], [r for r in rows if not r[1].startswith(base + ".")]))
        for p, name in tags:
            full = (base + "." + p).strip(".")
            rs = []
            for r in rows:
                if r[1].startswith(full + ".") or not r[1].startswith((base + ".!").lstrip(".")):
                    rs.append(r)
            rs = [r for r in rs if not r[1].startswith("!Unknown") and ".!Unknown" not in r[1]]
            out.append((p[1:].lower(), full, [(key, name)], rs))
        return out
    return [("", "", [], rows)]



def split(t):
    """The documents of a type, with combinations in one form each."""
    out = []
    for suf, vp, tags, rows in kinds(t):
        two = [r for r in rows if r[1].split(".")[-1] in ("!OneOf", "!AllOf")]
        if len(two) < 2:
            out.append((suf, vp, tags, rows))
            continue
        for r in two:
            out.append((suf + "_" + r[0].lower() if suf else r[0].lower(), vp, tags, [x for x in rows if x not in two or x is r]))
    return out


def uniq(rows, ex=False):
    """Each name once, bounds in one nature only."""
    out, seen = [], set()
    for r in rows:
        if r[0] is None or r[0] in seen:
            continue
        if r[2] == "b" and r[0].startswith("exclusive") != ex:
            continue
        seen.add(r[0])
        out.append(r)
    return out


def needed(t, r):
    return r[2] in REQ and default(t, r) is None


def default(t, r):
    m = {"!Basic": "basicsecurityscheme", "!Digest": "digestsecurityscheme", "!Bearer": "bearersecurityscheme", "!ApiKey": "apikeysecurityscheme"}
    d = DEFAULTS.get((t, r[0]))
    for c in r[1].split("."):
        if c in m:
            d = DEFAULTS.get((m[c], r[0]), d)
    return d


def ent(name, t, rows, tags, extra=()):
    ps, es = [], []
    for k, v in tags:
        es.append('("%s", V::Text("%s"))' % (k, v))
    for r in rows:
        ps.append("%s: Leaf" % leafname(r[0]))
        es.append('("%s", V::Leaf(%s))' % (r[0], leafname(r[0])))
    for p, e in extra:
        ps.append(p)
        es.append(e)
    es = [e for e in es if e]
    ES(name, ", ".join(ps), "Result<%s, Er>" % ALLT[t], "de(vec![%s])" % ", ".join(es))
    return name


def leafterm(r):
    return mk("sym", leafname(r[0]))


def parse_atoms(b):
    """leaf -> [(variable, type)] of the parsing results a condition depends on."""
    out = {}
    for v in bdd.support(b):
        t = bdd.ATOMS[v]
        t = t.a[0] if t.op == "var" else t
        if t.op == "call" and t.a[0] == "parses":
            out.setdefault(t.a[2], []).append(t)
    return out


def someparse(bs):
    """Every value of the document parses as some type it is read as."""
    d = {}
    for b in bs:
        for l, ts in parse_atoms(b).items():
            d.setdefault(l, set()).update(ts)
    return bdd.alln(bdd.anyn(tobdd(t) for t in sorted(ts, key=repr)) for l, ts in d.items())


def uniqlist(xs):
    out = []
    for x in xs:
        if x not in out:
            out.append(x)
    return out


def same_leaf(x, leaf):
    return x.op == "call" and x.a[0] == "de" and x.a[2] is leaf


def member_ok(where, v, r, care, out, forms=False):
    """The member holds the value of its own name."""
    g, x = walk(v, r[1])
    guard_diff(AND(care, NOT(g)), out, "the member is not set although it is in the document", where)
    care = AND(care, g)
    kind = r[2]
    leaf = leafterm(r)
    if kind == "x":
        x = get(x, "v")
    if kind in ("o", "d", "om", "x"):
        guard_diff(AND(care, NOT(is_variant(x, OPTION, 1))), out, "the member is not set although it is in the document", where)
        care = AND(care, is_variant(x, OPTION, 1))
        x = payload(x, 1, OPTION)
    if kind == "t":
        x = x if x.op != "bool" else x
    if kind == "c" and same_leaf(x, leaf):
        return out      # see the rules on operations alone
    if kind == "c":
        p = tpath(x)
        k = variants(p).index("Custom")
        guard_diff(AND(care, NOT(is_variant(x, p, k))), out, "the operations of the document are not kept", where)
        care = AND(care, is_variant(x, p, k))
        x = payload(x, k, p)
    many = kind in ("om", "mm", "e", "c")
    seen = []
    for g, y in cases(x):
        c = AND(care, g)
        if unsat(c):
            continue
        if same_leaf(y, leaf):
            seen.append((c, "all", y.a[1]))
            continue
        if many and y.op == "seq":
            fine, cov = True, 0
            for q in y.a:
                gq = AND(q.a[0], c)
                if unsat(gq):
                    continue
                z0 = q.a[1]
                form = "one" if q.op == "pi" else "all"
                if not same_leaf(z0, leaf) or not unsat(AND(gq, cov)) or q.op not in ("pi", "ps", "pc"):
                    fine = False
                    break
                cov = OR(cov, gq)
                seen.append((gq, form, z0.a[1]))
            if fine and unsat(AND(c, NOT(cov))):
                continue
        gate(y, ("B", c))
        out.append((where, "found %s, required the value named %s" % (show(y, 3)[:200], r[0])))
    if many and forms:
        for form in ("one", "all"):
            if not any(s[1] == form for s in seen):
                out.append((where, "a document with %s is not accepted" % ("one value" if form == "one" else "a list of values")))
    return out


def guards(x, out, seen):
    """Every condition in a value."""
    if isinstance(x, (tuple, list)):
        for y in x:
            guards(y, out, seen)
        return
    if not hasattr(x, "op") or x in seen:
        return
    seen.add(x)
    if x.op == "ite":
        out.update(g for g, _ in x.a[0])
    elif x.op in ("pi", "ps", "pc", "bool"):
        out.add(x.a[0])
    guards(x.a, out, seen)


def good(env, name, t, vp):
    """(value, guard under which it was parsed, guard that every leaf parses)"""
    v = env.val(name)
    ok = okg(v)
    gs = {ok}
    guards(v, gs, set())
    sp = someparse(sorted(gs))
    return v, ok, sp


def de_row(name, t, vp, r, forms=False):
    def f(env):
        v, ok, sp = good(env, name, t, vp)
        out = []
        care = AND(ok, sp)
        return member_ok("%s.%s" % (t, r[0]), payload(v), r, care, out, forms)
    return f


def de_accept(name, t, vp):
    """A document whose values all parse is parsed."""
    def f(env):
        v, ok, sp = good(env, name, t, vp)
        out = []
        guard_diff(AND(sp, NOT(ok)), out, "the document is rejected", t)
        if vp:
            g, _ = walk(payload(v), vp)
            guard_diff(AND(AND(sp, ok), NOT(g)), out, "the document is not parsed as %s" % vp, t)
        return out
    return f


def de_absent(name, t, vp, r):
    """A member that is absent is not set."""
    def f(env):
        v, ok, sp = good(env, name, t, vp)
        out = []
        care = AND(ok, sp)
        w = "%s.%s" % (t, r[0])
        path = r[1].split(".")
        g, x = walk(payload(v), r[1] if r[2] != "b" else ".".join(path[:-1]))
        if r[2] == "b":
            return guard_diff(AND(care, g), out, "a bound is set although it is not in the document", w)
        guard_diff(AND(care, NOT(g)), out, "the member is missing", w)
        care = AND(care, g)
        if r[2] == "x":
            x = get(x, "v")
        if r[2] in ("o", "d", "om", "x"):
            guard_diff(AND(care, NOT(is_variant(x, OPTION, 0))), out, "the member is set although it is not in the document", w)
        elif r[2] in ("e", "f"):
            guard_diff(AND(care, seq_nonempty(x)), out, "the member is set although it is not in the document", w)
        return out
    return f


def de_default(name, t, vp, r, d):
    def f(env):
        v, ok, sp = good(env, name, t, vp)
        out = []
        g, x = walk(payload(v), r[1])
        w = "%s.%s" % (t, r[0])
        care = AND(ok, sp)
        guard_diff(AND(care, NOT(g)), out, "the member is missing", w)
        return is_default(w, x, d, AND(care, g), out)
    return f


def is_default(w, x, d, care, out):
    if d == "false":
        guard_diff(AND(care, tobdd(x)), out, "the default is not false", w)
    elif d == "empty":
        guard_diff(AND(care, seq_nonempty(x)), out, "the default is not an empty list", w)
    elif d == "context":
        p = tpath(x)
        k = variants(p).index("String")
        guard_diff(AND(care, NOT(is_variant(x, p, k))), out, "the default is not a text", w)
        diff(w, payload(x, k, p), strlit("https://www.w3.org/2022/wot/td/v1.1"), AND(care, is_variant(x, p, k)), out)
    elif d.startswith("'"):
        diff(w, uncow(x), strlit(d[1:]), care, out)
    else:
        p = tpath(x)
        k = variants(p).index(d)
        guard_diff(AND(care, NOT(is_variant(x, p, k))), out, "the default is not %s" % d, w)
    return out


def de_reject(name, t, key, vp):
    def f(env):
        v = env.val(name)
        g = okg(v)
        if "!Known" in vp:
            # such a scheme is kept as one of unknown kind
            g = AND(g, walk(payload(v), vp)[0])
        return guard_diff(g, [], "a document without %s is accepted" % key, "%s.%s" % (t, key))
    return f


for t in list(TD) + list(PR):
    if t in ("maximum", "maximumi", "minimum", "minimumi", "unknownsecurityschemesubtype", "combosecurityscheme"):
        continue
    in23 = () if t in TD else ("P23",)
    pid = ("P17",) + in23
    for suf, vp, tags, rows in split(t):
        n = t + ("_" + suf if suf else "")
        tn = ALLT[t] + (" (%s)" % suf if suf else "")
        u, ux = uniq(rows), uniq(rows, True)
        mn = [r for r in u if needed(t, r)]
        full = ent("d_%s_full" % n, t, u, tags)
        mini = ent("d_%s_min" % n, t, mn, tags)
        more = ent("d_%s_more" % n, t, mn, tags, [("l_any: Leaf", '("zz:other", V::Leaf(l_any))')])
        each(pid, "a full document of %s is parsed" % tn, [full], de_accept(full, t, vp), "a document with every member the vocabulary has is accepted")
        each(("P18",) + in23, "a document of %s without optional members is parsed" % tn, [mini], de_accept(mini, t, vp),
             "a document with only the required members is accepted")
        each(("P22",) + in23, "members outside the vocabulary do not disturb a %s" % tn, [more], de_accept(more, t, vp),
             "a document with a further member is accepted")
        docs = [(r, full) for r in u]
        if ux != u:
            fx = ent("d_%s_fullx" % n, t, ux, tags)
            each(pid, "a full document of %s with exclusive bounds is parsed" % tn, [fx], de_accept(fx, t, vp), "a document with exclusive bounds is accepted")
            docs += [(r, fx) for r in ux if r not in u]
        for r, e in docs:
            rp = pid if r[2] != "x" else ("P22",)
            each(rp, "%s.%s of %s is read" % (t, r[0], tn), [e], de_row(e, t, vp, r), "the value under the name of a member is stored to that member")
            if r[2] in ("om", "mm", "e"):
                rule("P20", "%s.%s of %s is read from one value or a list" % (t, r[0], tn), [e], de_row(e, t, vp, r, True),
                     "one value gives a list of it, a list gives all its values")
        for r in u + [r for r in ux if r not in u]:
            if r in mn:
                e = ent("d_%s_no_%s" % (n, leafname(r[0])), t, [x for x in mn if x is not r], tags)
                each(("P18",) + in23, "a document of %s without %s is rejected" % (tn, r[0]), [e], de_reject(e, t, r[0], vp or ""),
                     "a required member must be present")
                continue
            d = default(t, r)
            if d is not None:
                rule("P19", "%s.%s of %s defaults to %s" % (t, r[0], tn, d), [mini], de_default(mini, t, vp, r, d), "an absent member has its default")
            else:
                each(("P18",) + in23, "%s.%s of %s may be absent" % (t, r[0], tn), [mini], de_absent(mini, t, vp, r),
                     "a member that is absent is not set")

ES("d1_ops_leaf", "l_root: Leaf", "Result<DefaultedFormOperations, Er>", "root(RV::Leaf(l_root))")
ES("d1_ops_null", "", "Result<DefaultedFormOperations, Er>", "root(RV::Null)")
ES("d1_items_leaf", "l_root: Leaf", "Result<BoxedElemOrVec<DSX>, Er>", "root(RV::Leaf(l_root))")


def ops_leaf(env):
    v = env.val("d1_ops_leaf")
    gs = {okg(v)}
    guards(v, gs, set())
    sp = someparse(sorted(gs))
    out = []
    guard_diff(AND(sp, NOT(okg(v))), out, "the operations are rejected", "op")
    return member_ok("op", payload(v), ("root", "", "c"), AND(sp, okg(v)), out, True)


def ops_null(env):
    v = env.val("d1_ops_null")
    out = []
    guard_diff(NOT(okg(v)), out, "a null operation is rejected", "op")
    x = payload(v)
    return guard_diff(AND(okg(v), NOT(is_variant(x, tpath(x), variants(tpath(x)).index("Default")))), out, "no operation is not the default", "op")


def items_leaf(env):
    v = env.val("d1_items_leaf")
    leaf = env.sym("l_root")
    out, forms = [], {}
    gs = {okg(v)}
    guards(v, gs, set())
    sp = someparse(sorted(gs))
    guard_diff(AND(sp, NOT(okg(v))), out, "items is rejected", "items")
    x = payload(v)
    for g, y in cases(x):
        c = AND(g, AND(okg(v), sp))
        if unsat(c):
            continue
        p = tpath(y)
        if y.op != "adt" or not same_leaf(y.a[2], leaf):
            gate(y)
            out.append(("items", "found %s, required the value of items" % show(y, 3)))
            continue
        forms[variants(p)[y.a[1]]] = c
    for n in ("Elem", "Vec"):
        if n not in forms and not out:
            out.append(("items", "a document with %s is not accepted" % ("one schema" if n == "Elem" else "a list of schemas")))
    return out


rule("P20", "op is read from one value or a list", ["d1_ops_leaf"], ops_leaf, "one operation gives a list of it, a list gives all")
rule("P19", "op defaults to the default operations", ["d1_ops_null"], ops_null, "no operations means the default of the form's context")
rule("P20", "items is read from one schema or a list", ["d1_items_leaf"], items_leaf, "one schema gives a single one, a list gives all")


def enum_read(t, e, var, cond):
    def f(env):
        v = env.val(e)
        c = cond(env)
        out = []
        w = "%s::%s" % (t, var)
        guard_diff(AND(c, NOT(okg(v))), out, "its name is rejected", w)
        x = payload(v)
        p = tpath(x)
        k = [i for i, n in enumerate(variants(p)) if n == var or n.lower() == var]
        if not k:
            raise Fail("%s has no variant for %s" % (p, var))
        return guard_diff(AND(c, AND(okg(v), NOT(is_variant(x, p, k[0])))), out, "its name gives another value", w)
    return f


for t, tab in ENUMS.items():
    tab = tab if isinstance(tab, dict) else {n: n for n in tab}
    pid = ("P21",) if "_" not in t else ("P21", "P23")
    if t != "coap_blocksize":
        ES("d1_" + t, "k_key: String", "Result<%s, Er>" % ALLT[t], "root(RV::Text(&k_key))")
    for var, val in tab.items():
        e = "d1_" + t
        cond = (lambda lit: lambda env: liteq(env.sym("k_key"), strlit(lit)))(val)
        if isinstance(val, int):
            e = "d1_%s_%d" % (t, val)
            ES(e, "", "Result<%s, Er>" % ALLT[t], "root(RV::Num(%d))" % val)
            cond = lambda env: 1
        each(pid, "%s %s is read from %s" % (ALLT[t], var, val), [e], enum_read(t, e, var, cond), "the name of each value gives that value back")
SHOWN = {"FormOperation": {n: n for n in ENUMS["formoperation"]},
         "wot_td::builder::AffordanceType": {"Property": "property", "Action": "action", "Event": "event"}}


def show_rule(e, t, var, text):
    def f(env):
        v = env.val(e)
        x = env.sym("z_" + e)
        p = tpath(x)
        k = [i for i, n in enumerate(variants(p)) if n == var or n.lower() == var]
        if not k:
            raise Fail("%s has no variant for %s" % (p, var))
        out = []
        return diff("%s::%s" % (t, variants(p)[k[0]]), get(v, 1), mk("call", "put", env.sym("z_f"), strlit(text)), is_variant(x, p, k[0]), out)
    return f


for t, tab in SHOWN.items():
    e = "show_" + t.split("::")[-1].lower()
    ES(e, "z_%s: %s, z_f: std::fmt::Formatter<'a>" % (e, t), "(std::fmt::Result, std::fmt::Formatter<'a>)",
       "let mut f = z_f; let r = std::fmt::Display::fmt(&z_%s, &mut f); (r, f)" % e, gen="'a")
    for var, text in tab.items():
        rule("P21", "%s %s is displayed as %s" % (t, var, text), [e], show_rule(e, t, var, text), "the text shown is the vocabulary name")
