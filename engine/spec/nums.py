"""Numeric constraints and the kinds of URI variables, everywhere a schema may appear (P10, P11)."""
from core import *
from terms import order, nan
from .thing import *
from .link_form import NEW, FRESH
from .gates import gate_rule, use, err, eq

f64 = lambda a, b: order(S(a), S(b), True)
num = lambda a, b: order(S(a), S(b))


def nanerr(*xs):
    return lambda env: [(bdd.anyn(nan(S(x)) for x in xs), err("NanMinMax"))] + ([(f64(*xs)[2], err("InvalidMinMax"))] if len(xs) == 2 else [])


# bounds of which one is exclusive and that are equal admit no value: either verdict is fine
EXCL = set()


def admits(leaf):
    if leaf not in EXCL:
        return None
    return lambda env: NOT((f64("f", "f2") if leaf.startswith("number") else num("i", "i2"))[1])


# name: (parameters, chain, accepted, errors)
LEAF = {}
for a, b in (("minimum", "maximum"), ("exclusive_minimum", "maximum"), ("minimum", "exclusive_maximum"), ("exclusive_minimum", "exclusive_maximum")):
    EXCL |= {"number %s %s" % (a, b), "integer %s %s" % (a, b)} if "exclusive" in a + b else set()
    LEAF["number %s %s" % (a, b)] = ("f: f64, f2: f64", ".number().%s(f).%s(f2)" % (a, b),
                                     lambda env: OR(f64("f", "f2")[0], f64("f", "f2")[1]), nanerr("f", "f2"))
    LEAF["integer %s %s" % (a, b)] = ("i: i64, i2: i64", ".integer().%s(i).%s(i2)" % (a, b),
                                      lambda env: NOT(num("i", "i2")[2]), lambda env: [(1, err("InvalidMinMax"))])
for a in ("minimum", "maximum", "exclusive_minimum", "exclusive_maximum"):
    LEAF["number " + a] = ("f: f64", ".number().%s(f)" % a, lambda env: NOT(nan(S("f"))), lambda env: [(nan(S("f")), err("NanMinMax"))])
    LEAF["integer " + a] = ("i: i64", ".integer().%s(i)" % a, lambda env: 1, None)
ZERO = lambda: mk("float", "0.0")
LEAF["number multiple_of"] = ("f: f64", ".number().multiple_of(f)", lambda env: order(S("f"), ZERO(), True)[2], lambda env: [(1, err("InvalidMultipleOf"))])
LEAF["number all"] = ("f: f64, f2: f64, f3: f64", ".number().multiple_of(f3).minimum(f).maximum(f2)",
                      lambda env: AND(order(S("f3"), ZERO(), True)[2], OR(f64("f", "f2")[0], f64("f", "f2")[1])),
                      lambda env: nanerr("f", "f2")(env) + [(NOT(order(S("f3"), ZERO(), True)[2]), err("InvalidMultipleOf"))])
LEAF["integer multiple_of"] = ("nz: std::num::NonZeroU64", ".integer().multiple_of(nz)", lambda env: 1, None)
LEAF["array counts"] = ("u: u32, u2: u32", ".vec().min_items(u).max_items(u2)", lambda env: NOT(num("u", "u2")[2]), lambda env: [(1, err("InvalidMinMax"))])
LEAF["string lengths"] = ("u: u32, u2: u32", ".string().min_length(u).max_length(u2)", lambda env: NOT(num("u", "u2")[2]), lambda env: [(1, err("InvalidMinMax"))])
for n, c in (("min_items", ".vec().min_items(u)"), ("max_items", ".vec().max_items(u)"), ("min_length", ".string().min_length(u)"), ("max_length", ".string().max_length(u)")):
    LEAF["only " + n] = ("u: u32", c, lambda env: 1, None)
OKLEAF = ".null()"
BIG = ["number minimum maximum", "number exclusive_minimum maximum", "number minimum exclusive_maximum", "number exclusive_minimum exclusive_maximum", "number multiple_of",
       "integer minimum maximum", "integer exclusive_minimum exclusive_maximum", "array counts", "string lengths", "number minimum", "number exclusive_maximum", "number all"]

D_ = "move |d| d.finish_extend()"
WRAP = {
    "object property": ".object().property(\"a\", false, " + D_ + "%s)",
    "required property": ".object().property(\"a\", true, " + D_ + "%s)",
    "second property": ".object().property(\"b\", false, " + D_ + ".bool()).property(\"a\", false, " + D_ + "%s)",
    "property before another": ".object().property(\"a\", false, " + D_ + "%s).property(\"b\", true, " + D_ + ".bool())",
    "tuple item": ".tuple().append(" + D_ + "%s)",
    "second tuple item": ".tuple().append(" + D_ + ".bool()).append(" + D_ + "%s)",
    "tuple item before another": ".tuple().append(" + D_ + "%s).append(" + D_ + ".bool())",
    "array item": ".vec().set_item(" + D_ + "%s)",
    "array item with counts": ".vec().min_items(1).max_items(4).set_item(" + D_ + "%s)",
    "third tuple item": ".tuple().append(" + D_ + ".bool()).append(" + D_ + ".null()).append(" + D_ + "%s)",
    "third alternative": ".one_of(" + D_ + ".bool()).one_of(" + D_ + ".null()).one_of(" + D_ + "%s)",
    "third property": ".object().property(\"b\", false, " + D_ + ".bool()).property(\"c\", true, " + D_ + ".null()).property(\"a\", false, " + D_ + "%s)",
    "read-only array item": ".vec().set_item(" + D_ + "%s).read_only()",
    "write-only object property": ".object().property(\"a\", false, " + D_ + "%s).write_only()",
    "alternative": ".one_of(" + D_ + "%s)",
    "second alternative": ".one_of(" + D_ + ".bool()).one_of(" + D_ + "%s)",
    "alternative before another": ".one_of(" + D_ + "%s).one_of(" + D_ + ".bool())",
}
MAINW = ["object property", "tuple item", "array item", "alternative"]

POS = {
    "property": ".property(n, move |p| p.finish_extend_data_schema()%s)",
    "second property": ".property(\"other\", move |p| p.finish_extend_data_schema().bool()).property(\"n\", move |p| p.finish_extend_data_schema()%s)",
    "schema definition": ".schema_definition(n, " + D_ + "%s)",
    "second schema definition": ".schema_definition(\"other\", " + D_ + ".bool()).schema_definition(\"n\", " + D_ + "%s)",
    "uri variable of the thing": ".uri_variable(n, " + D_ + "%s)",
    "second uri variable of the thing": ".uri_variable(\"other\", " + D_ + ".bool()).uri_variable(\"n\", " + D_ + "%s)",
    "uri variable of a property": ".property(n, move |p| p.finish_extend_data_schema().bool().uri_variable(\"v\", " + D_ + "%s))",
    "uri variable of an action": ".action(n, move |a| a.uri_variable(\"v\", " + D_ + "%s))",
    "uri variable of an event": ".event(n, move |a| a.uri_variable(\"v\", " + D_ + "%s))",
    "second uri variable of an action": ".action(n, move |a| a.uri_variable(\"w\", " + D_ + ".bool()).uri_variable(\"v\", " + D_ + "%s))",
    "action input": ".action(n, move |a| a.input(" + D_ + "%s))",
    "action output": ".action(n, move |a| a.output(" + D_ + "%s))",
    "action output besides input": ".action(n, move |a| a.input(" + D_ + ".bool()).output(" + D_ + "%s))",
    "action input besides output": ".action(n, move |a| a.output(" + D_ + ".bool()).input(" + D_ + "%s))",
    "second action": ".action(\"other\", move |a| a.input(" + D_ + ".bool())).action(\"n\", move |a| a.input(" + D_ + "%s))",
    "event subscription": ".event(n, move |a| a.subscription(" + D_ + "%s))",
    "event data": ".event(n, move |a| a.data(" + D_ + "%s))",
    "event data response": ".event(n, move |a| a.data_response(" + D_ + "%s))",
    "event cancellation": ".event(n, move |a| a.cancellation(" + D_ + "%s))",
    "event cancellation besides others": ".event(n, move |a| a.data(" + D_ + ".bool()).subscription(" + D_ + ".bool()).cancellation(" + D_ + "%s))",
    "event data response besides others": ".event(n, move |a| a.data(" + D_ + ".bool()).subscription(" + D_ + ".bool()).data_response(" + D_ + "%s))",
    "second event": ".event(\"other\", move |a| a.data(" + D_ + ".bool())).event(\"n\", move |a| a.data(" + D_ + "%s))",
}
CNT = [0]
NAMES = {}


def leafrule(pos, wraps, leaf, tier="quick"):
    sig, chain, ok, errs = LEAF[leaf]
    inner = chain
    for w in reversed(wraps):
        inner = WRAP[w] % inner
    if "uri variable" in pos and (not wraps and "array" in leaf or not wraps and "items" in leaf or wraps and "alternative" not in wraps[0]):
        return
    if pos in ("property", "second property") and not wraps and "string lengths" in leaf:
        return           # the builders offer no text constraints there
    if pos in ("property", "second property") and not wraps and "_length" in leaf:
        return
    nm = ", in ".join([leaf] + list(reversed(wraps)) + [pos])
    if nm in NAMES:
        return
    e = use("g10_%d" % len(NAMES), "t: String, n: String, " + sig, POS[pos] % inner, tier)
    NAMES[nm] = e
    gate_rule("P10", nm, e, ok, errs, what="accepted exactly when the bounds are consistent, not NaN, and multipleOf is positive", tier=tier,
              assume=admits(leaf))


for pos in POS:
    for leaf in (LEAF if pos in ("property", "schema definition") else BIG):
        leafrule(pos, (), leaf)
    for w in WRAP:
        leafrule(pos, (w,), "number exclusive_minimum maximum")
for leaf in LEAF:
    for w in MAINW:
        leafrule("action input", (w,), leaf)
for w in WRAP:
    for w2 in WRAP:
        main = w in MAINW and w2 in MAINW
        leafrule("action output", (w, w2), "number minimum exclusive_maximum")
        for pos in POS:
            if pos not in ("action output", "action input"):
                leafrule(pos, (w, w2), "integer minimum maximum", "quick" if main and pos in ("property", "event data", "schema definition", "uri variable of the thing") else "thorough")
for w in MAINW:
    for w2 in MAINW:
        for w3 in MAINW:
            leafrule("event data", (w, w2, w3), "number minimum maximum")
            leafrule("property", (w, w2, w3), "number minimum maximum", "thorough")
            for w4 in MAINW:
                leafrule("schema definition", (w, w2, w3, w4), "integer minimum exclusive_maximum", "thorough")

# setters used more than once: the last value counts
for nm, sig, chain, ok in (
        ("number minimum twice", "f: f64, f2: f64, f3: f64", ".number().minimum(f3).maximum(f2).minimum(f)", lambda env: OR(f64("f", "f2")[0], f64("f", "f2")[1])),
        ("number exclusive then inclusive", "f: f64, f2: f64, f3: f64", ".number().exclusive_minimum(f3).maximum(f2).minimum(f)", lambda env: OR(f64("f", "f2")[0], f64("f", "f2")[1])),
        ("number maximum first", "f: f64, f2: f64", ".number().maximum(f2).minimum(f)", lambda env: OR(f64("f", "f2")[0], f64("f", "f2")[1])),
        ("integer maximum first", "i: i64, i2: i64", ".integer().maximum(i2).minimum(i)", lambda env: NOT(num("i", "i2")[2]))):
    e = use("g10x_" + nm.replace(" ", "_"), "t: String, n: String, " + sig, POS["action input"] % chain)
    gate_rule("P10", nm, e, ok)

# two offenders
e = use("g10_two", "t: String, n: String, i: i64, i2: i64, f: f64", ".action(n, move |a| a.input(%s.integer().minimum(i).maximum(i2)).output(%s.number().multiple_of(f)))" % (D_, D_))
gate_rule("P10", "two constraints", e, lambda env: AND(NOT(num("i", "i2")[2]), order(S("f"), ZERO(), True)[2]),
          lambda env: [(num("i", "i2")[2], err("InvalidMinMax")), (NOT(order(S("f"), ZERO(), True)[2]), err("InvalidMultipleOf"))])

# ---------------------------------------------------------------- P11
UV = {
    "uri variable of the thing": ".uri_variable(%s, " + D_ + "%s)", "uri variable of a property": None, "uri variable of an action": None, "uri variable of an event": None}
KIND = {"bool": (".bool()", True), "null": (".null()", True), "number": (".number()", True), "integer": (".integer()", True), "string": (".string()", True),
        "enumeration": (".enumeration(1)", True), "constant": (".constant(1)", True), "oneOf": (".one_of(" + D_ + ".bool())", True),
        "object": (".object()", False), "empty tuple": (".tuple()", False), "tuple": (".tuple().append(" + D_ + ".bool())", False),
        "array": (".vec()", False), "array with items": (".vec().set_item(" + D_ + ".bool())", False),
        "object with members": (".object().property(\"a\", true, " + D_ + ".bool())", False),
        "read-only object": (".object().read_only()", False), "write-only array": (".vec().write_only()", False), "read-only number": (".number().read_only()", True),
        "enumeration of objects": (".enumeration(serde_json::json!({\"a\": 1}))", True)}
UVP = [p for p in POS if "uri variable" in p]
OPEN = {"uri variable of a property": ".property(n, move |p| p.finish_extend_data_schema().bool()%s)", "uri variable of an action": ".action(n, move |a| a%s)",
        "uri variable of an event": ".event(n, move |a| a%s)", "uri variable of the thing": "%s"}
for pos in UVP:
    for k, (chain, ok) in KIND.items():
        e = use("g11_%s_%s" % (pos.replace(" ", "_"), k.replace(" ", "_").replace("-", "_")), "t: String, n: String", POS[pos] % chain)
        gate_rule("P11", "%s as %s" % (k, pos), e, lambda env, ok=ok: 1 if ok else 0, (lambda env: [(1, err("InvalidUriVariables"))]) if not ok else None,
                  what="accepted exactly when it is neither an object nor an array")
for pos, o in OPEN.items():
    for nm, cs in (("object before another", (".object()", ".bool()")), ("object after another", (".bool()", ".object()")), ("array between others", (".bool()", ".vec()", ".null()"))):
        e = use("g11m_%s_%s" % (pos.replace(" ", "_"), nm.replace(" ", "_")), "t: String, n: String",
                o % "".join(".uri_variable(\"v%d\", %s%s)" % (i, D_, c) for i, c in enumerate(cs)))
        gate_rule("P11", "%s (%s)" % (nm, pos), e, lambda env: 0, lambda env: [(1, err("InvalidUriVariables"))])
        if pos != "uri variable of the thing":
            k = pos.split()[-1]
            two = o % (".uri_variable(\"v\", %s.bool())" % D_) + (o % (".uri_variable(\"v\", %s%s)" % (D_, cs[-1] if "after" in nm else cs[0]))).replace("(n,", "(\"m\",")
            if "after" in nm or "before" in nm:
                e = use("g11t_%s_%s" % (k, nm.replace(" ", "_")), "t: String, n: String", two)
                gate_rule("P11", "second %s with an object variable (%s)" % (k, nm), e, lambda env: 0, lambda env: [(1, err("InvalidUriVariables"))],
                          assume=lambda env: NOT(veq(S("n"), strlit("m"))))
