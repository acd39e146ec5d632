"""Language tags wherever texts in several languages are accepted (P14, with their errors for P15)."""
from core import *
from .thing import *
from .gates import gate_rule, use, err, eq
from .nums import POS, WRAP, D_, MAINW

LP = lambda env, i=0: okg(env.val("lang_parse" + ("2" if i else "")))
bad = lambda env: [(NOT(LP(env)), err("InvalidLanguageTag", S("l")))]
bad2 = lambda env: bad(env) + [(NOT(LP(env, 1)), err("InvalidLanguageTag", S("m")))]
both = lambda env: AND(LP(env), LP(env, 1))
SIG1, SIG2 = "t: String, n: String, l: String, v: String", "t: String, n: String, l: String, v: String, m: String, w: String"
NE = lambda env: NOT(eq("l", "m"))
KIND = {"number": ".number()", "string": ".string()", "bool": ".bool()", "null": ".null()", "object": ".object()", "tuple": ".tuple()", "array": ".vec()",
        "integer": ".integer()", "enumeration": ".enumeration(1)", "constant": ".constant(1)", "alternatives": ".one_of(" + D_ + ".bool())",
        "read-only": ".bool().read_only()", "write-only": ".number().write_only()"}


def fix(x):
    return x.replace(" ", "_").replace("-", "_").replace(",", "")


def one(nm, chain, sig=SIG1, tier="quick"):
    e = use("g14_" + fix(nm), sig, chain, tier)
    gate_rule("P14", nm, e, LP, bad, what="accepted exactly when the language tag is well formed", tier=tier)


def two(nm, chain, tier="quick", ne=True):
    e = use("g14_" + fix(nm), SIG2, chain, tier)
    gate_rule("P14", nm, e, both, bad2, assume=NE if ne else None, what="accepted exactly when every language tag is well formed", tier=tier)


ADD1, ADD2 = "(move |z| z.add(l, v))", "(move |z| z.add(l, v).add(m, w))"
ADD3 = "(move |z| z.add(\"en\", \"x\").add(l, v))"
for m in ("titles", "descriptions"):
    one("thing %s" % m, ".%s%s" % (m, ADD1))
    two("thing %s, two languages" % m, ".%s%s" % (m, ADD2))
    for kind, mk1 in (("property", ".property(%s, move |p| p.finish_extend_data_schema()%s)"), ("action", ".action(%s, move |a| a%s)"), ("event", ".event(%s, move |a| a%s)")):
        tail = ".bool()" if kind == "property" else ""
        one("%s %s" % (kind, m), mk1 % ("n", ".%s%s" % (m, ADD1) + tail))
        two("%s %s, two languages" % (kind, m), mk1 % ("n", ".%s%s" % (m, ADD2) + tail))
        two("%s %s, two objects" % (kind, m), (mk1 % ('"a"', ".%s(move |z| z.add(l, v))" % m + tail)) + (mk1 % ('"b"', ".%s(move |z| z.add(m, w))" % m + tail)), ne=False)
        if kind == "property":
            one("%s %s, set after the kind" % (kind, m), mk1 % ("n", tail + ".%s%s" % (m, ADD1)))
    one("security %s" % m, ".security(move |z| z.basic().%s%s)" % (m, ADD1)) if m == "descriptions" else None
    for pos in POS:
        for k in (KIND if pos == "action input" else ("number", "bool")):
            chain = KIND[k]
            if pos == "property" or "second property" == pos:
                continue
            one("%s of a %s schema, %s" % (m, k, pos), POS[pos] % (".%s%s" % (m, ADD1) + chain))
        for w in WRAP:
            if "uri variable" in pos and "alternative" not in w:
                continue
            q = w in MAINW
            one("%s of a schema, %s, %s" % (m, w, pos), POS[pos] % (WRAP[w] % (".number().%s%s" % (m, ADD1))), tier="quick" if q else "thorough")
    for k in KIND:
        one("%s of a property, %s" % (m, k), POS["property"] % (".%s%s" % (m, ADD1) + KIND[k]))
        if k not in ("read-only", "write-only", "alternatives"):
            one("%s of a property set after its kind, %s" % (m, k), POS["property"] % (KIND[k] + ".%s%s" % (m, ADD1)))
    for w in MAINW:
        for w2 in MAINW:
            one("%s of a schema, %s, %s" % (m, w, w2), POS["event data"] % (WRAP[w] % (WRAP[w2] % (".bool().%s%s" % (m, ADD1)))))
            for w3 in MAINW:
                one("%s of a schema, %s, %s, %s" % (m, w, w2, w3), POS["schema definition"] % (WRAP[w] % (WRAP[w2] % (WRAP[w3] % (".bool().%s%s" % (m, ADD1))))), tier="thorough")
two("titles and descriptions of the thing", ".titles(move |z| z.add(l, v)).descriptions(move |z| z.add(m, w))", ne=False)
two("titles and descriptions of an action", ".action(n, move |a| a.titles(move |z| z.add(l, v)).descriptions(move |z| z.add(m, w)))", ne=False)
two("titles and descriptions of a schema", ".action(n, move |a| a.output(move |d| d.finish_extend().titles(move |z| z.add(l, v)).descriptions(move |z| z.add(m, w)).bool()))", ne=False)
LK = ".link_with(move |k| k.href(\"h\")%s)"
one("language of a link", LK % ".hreflang(l)")
two("two languages of a link", LK % ".hreflang(l).hreflang(m)", ne=False)
two("languages of two links", LK % ".hreflang(l)" + LK % ".hreflang(m)", ne=False)
one("language of the second link", ".link(\"x\")" + LK % ".hreflang(l)")
one("language of a link with other members", LK % ".ty(\"x\").rel(\"icon\").sizes(v).hreflang(l)")
two("languages of a security scheme", ".security(move |z| z.bearer().descriptions%s)" % ADD2)
two("languages of two security schemes", ".security(move |z| z.basic().descriptions(move |z| z.add(l, v))).security(move |z| z.digest().descriptions(move |z| z.add(m, w)))", ne=False)
for k in ("no_sec()", "auto()", "basic()", "digest()", "bearer()", "psk()", "oauth2(\"x\")", "apikey()", "custom(\"x\")"):
    one("language of a security scheme %s" % k.split("(")[0], ".security(move |z| z.%s.descriptions%s)" % (k, ADD1))

# icon sizes: the error
SZ = lambda *x: [(1, err("SizesWithRelNotIcon"))]
for nm, chain, ok in (("one link", LK % ".sizes(v).rel(l)", lambda env: veq(S("l"), strlit("icon"))),
                      ("second link", ".link(\"x\")" + LK % ".sizes(v).rel(l)", lambda env: veq(S("l"), strlit("icon"))),
                      ("first of two links", LK % ".rel(l).sizes(v)" + ".link(\"x\")", lambda env: veq(S("l"), strlit("icon"))),
                      ("two links with sizes", LK % ".rel(l).sizes(v)" + LK % ".rel(n).sizes(\"1\")", lambda env: AND(veq(S("l"), strlit("icon")), veq(S("n"), strlit("icon")))),
                      ("sizes without relation", LK % ".sizes(v)", lambda env: 0)):
    e = use("g7_" + fix(nm), SIG1, chain)
    gate_rule("P07", "sizes: " + nm, e, ok, SZ, what="a link with sizes is accepted exactly when its relation is icon")
