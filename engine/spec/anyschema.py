"""Numeric constraints of a schema whose members are all arbitrary (P10): the parameter is a schema of arbitrary
members, of any kind, of which only the nesting (which schemas are within which) is fixed."""
from core import *
from terms import order, nan
import core
from .thing import *
from .gates import gate_rule, err, SUB, vix, opt_items, bad_langs, bad_form, bad_schema, part
from .nums import D_

US = "wot_td::builder::data_schema::UncheckedDataSchema"
PS = "wot_td::builder::data_schema::PartialDataSchema"
UST = "wot_td::thing::UncheckedDataSchemaSubtype"
UA = "wot_td::thing::UncheckedArraySchema"
UO = "wot_td::thing::UncheckedObjectSchema"
BEV = "wot_td::thing::BoxedElemOrVec"
PAB = "wot_td::builder::affordance::PropertyAffordanceBuilder"


def known(path):
    if path not in ADTS:
        raise Undecided("the type %s is not in the program" % path)
    return ADTS[path]["variants"]


def record(path, v, **new):
    """The value v of a struct with the named members replaced."""
    fs = known(path)[0]["fields"]
    names = list(fs)
    if not set(new) <= set(names):
        raise Undecided("%s has no member %s" % (path, ", ".join(sorted(set(new) - set(names)))))
    return mk("adt", path, 0, *[new[n] if n in new else proj(v, i, 0, path) for i, n in enumerate(names)])


def kind(name, payload_):
    return some(mk("adt", UST, vix(UST, name), payload_))


def member(path, v, name):
    names = list(known(path)[0]["fields"])
    if name not in names:
        raise Undecided("%s has no member %s" % (path, name))
    return proj(v, names.index(name), 0, path)


def subtype_of(st):
    """An arbitrary subtype that holds no further schemas."""
    p = proj(st, 0, 1, OPTION)
    names = [x["name"] for x in known(UST)]
    out = [(is_variant(st, OPTION, 0), none())]
    g = is_variant(st, OPTION, 1)
    for i, n in enumerate(names):
        c = proj(p, 0, i, UST)
        h = AND(g, is_variant(p, UST, i))
        if n == "Array":
            out.append((h, kind(n, record(UA, c, items=none()))))
        elif n == "Object":
            out.append((h, kind(n, record(UO, c, properties=none()))))
        elif known(UST)[i]["fields"]:
            out.append((h, kind(n, c)))
        else:
            out.append((h, some(mk("adt", UST, i))))
    return mk_ite(out)


ROUTES = {
    "elem": "the items", "vec": "the tuple", "properties": "the properties", "one_of": "the alternatives"}
for _r in ("elem", "vec", "properties"):
    ROUTES[_r + "+one_of"] = ROUTES[_r] + " and an alternative"


def shaped(v, path=US, route=None, kids=()):
    """The schema v, arbitrary but for the schemas within it: `kids`, by the route."""
    st = member(path, v, "subtype")
    p = proj(st, 0, 1, OPTION)
    one = none()
    sub = None
    if route and route.endswith("+one_of"):
        route, one, kids = route[:-7], some(seq([item(kids[-1])])), kids[:-1]
    if route == "elem":
        sub = kind("Array", record(UA, proj(p, 0, vix(UST, "Array"), UST), items=some(mk("adt", BEV, vix(BEV, "Elem"), kids[0]))))
    elif route == "vec":
        sub = kind("Array", record(UA, proj(p, 0, vix(UST, "Array"), UST), items=some(mk("adt", BEV, vix(BEV, "Vec"), seq([item(k) for k in kids])))))
    elif route == "properties":
        sub = kind("Object", record(UO, proj(p, 0, vix(UST, "Object"), UST), properties=some(
            mkmap(None, [(1, strlit("k%d" % i), k) for i, k in enumerate(kids)]))))
    else:
        sub = subtype_of(st)
        if route == "one_of":
            one = some(seq([item(k) for k in kids]))
    return record(path, v, one_of=one, subtype=sub)


def opt(o, f):
    """(is set, f(value))"""
    out = 0
    for h, x in cases(o):
        if x is not UNDEF:
            g = is_variant(x, OPTION, 1)
            if g != 0:
                out = OR(out, AND(AND(h, g), f(proj(x, 0, 1, OPTION))))
    return out


def bound(o, ty, f):
    """Guard: the bound (an option of a Minimum or Maximum) is set and f(value, is exclusive)."""
    def g(b):
        out = 0
        for i, v in enumerate(known(ty)):
            out = OR(out, AND(is_variant(b, ty, i), f(proj(b, 0, i, ty), v["name"] == "Exclusive")))
        return out
    return opt(o, g)


MIN, MAX = "wot_td::thing::Minimum", "wot_td::thing::Maximum"


def nans(o, ty):
    return bound(o, ty, lambda x, _: nan(x))


def pair(lo, hi, fl, which):
    """Guard: both bounds are set and in the relation `which` (0 less, 1 equal, 2 greater)."""
    return bound(lo, MIN, lambda x, e: bound(hi, MAX, lambda y, e2: order(x, y, fl)[which]))


def equal_exclusive(lo, hi, fl):
    return bound(lo, MIN, lambda x, e: bound(hi, MAX, lambda y, e2: order(x, y, fl)[1] if e or e2 else 0))


def plain(lo, hi, which):
    return opt(lo, lambda x: opt(hi, lambda y: order(x, y)[which]))


OF = {"Array": UA, "Number": "wot_td::thing::NumberSchema", "Integer": "wot_td::thing::IntegerSchema", "String": "wot_td::thing::StringSchema"}


def violations(sub):
    """(NanMinMax, InvalidMinMax, InvalidMultipleOf, undetermined) guards of the subtype option `sub`."""
    def of(s):
        nn = mm = mo = free = 0
        for i, v in enumerate(known(UST)):
            g = is_variant(s, UST, i)
            if g == 0 or not v["fields"]:
                continue
            c = proj(s, 0, i, UST)
            ty = OF.get(v["name"])
            if ty is None:
                continue
            m = lambda n: member(ty, c, n)
            if v["name"] in ("Number", "Integer"):
                fl = v["name"] == "Number"
                lo, hi = m("minimum"), m("maximum")
                mm = OR(mm, AND(g, pair(lo, hi, fl, 2)))
                free = OR(free, AND(g, equal_exclusive(lo, hi, fl)))
                if fl:
                    nn = OR(nn, AND(g, OR(nans(lo, MIN), nans(hi, MAX))))
                    mo = OR(mo, AND(g, opt(m("multiple_of"), lambda x: NOT(order(x, mk("float", "0.0"), True)[2]))))
            elif v["name"] == "Array":
                mm = OR(mm, AND(g, plain(m("min_items"), m("max_items"), 2)))
            elif v["name"] == "String":
                mm = OR(mm, AND(g, plain(m("min_length"), m("max_length"), 2)))
        return nn, mm, mo, free
    out = [0, 0, 0, 0]
    for h, x in cases(sub):
        g = is_variant(x, OPTION, 1)
        if g == 0:
            continue
        for i, k in enumerate(of(proj(x, 0, 1, OPTION))):
            out[i] = OR(out[i], AND(AND(h, g), k))
    return out


# nested schemas: further arbitrary parameters of the entry point
POSN = {
    "property": None,
    "schema definition": ".schema_definition(n, move |_| s)",
    "second schema definition": ".schema_definition(\"other\", " + D_ + ".bool()).schema_definition(\"n\", move |_| s)",
    "uri variable of the thing": ".uri_variable(n, move |_| s)",
    "uri variable of a property": ".property(n, move |p| p.finish_extend_data_schema().bool().uri_variable(\"v\", move |_| s))",
    "uri variable of an action": ".action(n, move |a| a.uri_variable(\"v\", move |_| s))",
    "uri variable of an event": ".event(n, move |a| a.uri_variable(\"v\", move |_| s))",
    "action input": ".action(n, move |a| a.input(move |_| s))",
    "action output": ".action(n, move |a| a.output(move |_| s))",
    "event subscription": ".event(n, move |a| a.subscription(move |_| s))",
    "event data": ".event(n, move |a| a.data(move |_| s))",
    "event data response": ".event(n, move |a| a.data_response(move |_| s))",
    "event cancellation": ".event(n, move |a| a.cancellation(move |_| s))",
    "second item of an enclosing tuple": ".action(n, move |a| a.input(" + D_ + ".tuple().append(" + D_ + ".bool()).append(move |_| s)))",
    "property of an enclosing object": ".event(n, move |a| a.data(" + D_ + ".object().property(\"a\", true, move |_| s)))",
    "item of an enclosing array": ".event(n, move |a| a.data(" + D_ + ".vec().set_item(move |_| s)))",
    "second alternative of an enclosing schema": ".action(n, move |a| a.output(" + D_ + ".one_of(" + D_ + ".bool()).one_of(move |_| s)))",
}
USO = "UncheckedDataSchema<O::DataSchema, O::ArraySchema, O::ObjectSchema>"
PSO = "PartialDataSchema<O::DataSchema, O::ArraySchema, O::ObjectSchema>"
N = [0]


def params_of(tree):
    """Number of nested schemas of a tree (route, subtrees...)."""
    return 0 if tree is None else sum(1 + params_of(t) for t in tree[1:])


def assemble(tree, v, it, path, acc):
    acc.append(v)
    if tree is None:
        r = shaped(v, path)
    else:
        r = shaped(v, path, tree[0], [assemble(t, next(it), it, US, acc) for t in tree[1:]])
    acc[acc.index(v)] = (path, r)
    return r


def text(tree):
    return "no further schemas" if tree is None else ROUTES[tree[0]] + " (" + ", ".join("leaf" if t is None else text(t) for t in tree[1:]) + ")"


def anyschema(pos, tree, tier="quick"):
    N[0] += 1
    e = "g10any_%d" % N[0]
    kids = ["s%d" % i for i in range(params_of(tree))]
    sig = "t: String, n: String"
    path = PS if pos == "property" else US
    if pos == "property":
        sig += ", pp: PropertyAffordanceBuilder<O, %s, O::InteractionAffordance, O::PropertyAffordance>" % PSO
        body = ".property(n, move |_| pp)"
    else:
        sig += ", s: " + USO
        body = POSN[pos]
    # the nested schemas are given as arguments of the analysis only
    E(e, sig, "R<O>", "ThingBuilder::<O, _>::new(t).finish_extend()" + body + ".build()", gen="O: Ext + Default", tier=tier)

    def tree_of(root):
        acc = []
        r = assemble(tree, root, iter([S(k) for k in kids]), path, acc)
        return r, acc

    def shape_s(s):
        for k in kids:
            core.OPAQUE_TY.setdefault(S(k), US)
        return tree_of(s)[0]

    def shape_p(p):
        return record(PAB, p, data_schema=shape_s(member(PAB, p, "data_schema")))

    core.SHAPE[e] = {"pp": shape_p} if pos == "property" else {"s": shape_s}

    def all_(env):
        env.val(e)
        return tree_of(member(PAB, S("pp"), "data_schema") if pos == "property" else S("s"))[1]

    def verdicts(env):
        vs = [violations(member(p, r, "subtype")) for p, r in all_(env)]
        return [bdd.anyn(v[i] for v in vs) for i in range(4)]

    def other(env):
        """What else the description may be refused for."""
        out = [bad_schema(env, r) for p, r in all_(env) if p == US]
        if pos == "property":
            i = member(PAB, S("pp"), "interaction")
            info = part(S("pp"), "info")
            out += [bad_langs(env, part(info, "titles")), bad_langs(env, part(info, "descriptions"))]
        elif "uri variable" in pos:
            st = member(path, all_(env)[0][1], "subtype")
            out.append(opt(st, lambda x: OR(is_variant(x, UST, vix(UST, "Array")), is_variant(x, UST, vix(UST, "Object")))))
        return bdd.anyn(out)

    def assume(env):
        a = [NOT(verdicts(env)[3]), NOT(other(env))]
        if pos == "property":
            i = member(PAB, S("pp"), "interaction")
            a += [NOT(nonempty(part(i, "forms"))), NOT(nonempty(part(i, "uri_variables")))]
        return bdd.alln(a)

    def ok(env):
        return NOT(bdd.anyn(verdicts(env)[:3]))

    def errs(env):
        v = verdicts(env)
        return [(v[0], err("NanMinMax")), (v[1], err("InvalidMinMax")), (v[2], err("InvalidMultipleOf"))]

    gate_rule("P10", "arbitrary schema with %s, as %s" % (text(tree), pos), e, ok, errs, assume=assume, tier=tier,
              what="a schema of arbitrary members is accepted exactly when its bounds and those of the schemas within it are consistent")


for pos in POSN:
    anyschema(pos, None)
R = ["elem", "vec", "properties", "one_of"]
for pos in ("action input", "property", "event data", "schema definition"):
    for r in ROUTES:
        anyschema(pos, (r, None, None) if "+" in r else (r, None))
        if r in R[1:]:
            anyschema(pos, (r, None, None, None))
for pos in POSN:
    if pos not in ("action input", "property", "event data", "schema definition"):
        for r in R if "uri variable" not in pos else ["one_of"]:
            anyschema(pos, (r, None))
for r in R:
    for r2 in R:
        anyschema("property", (r, (r2, None)))
        anyschema("action output", (r, (r2, None)))
        for pos in ("event cancellation", "schema definition", "event data response", "event subscription"):
            anyschema(pos, (r, (r2, None)), "thorough")
        if r != "elem":
            anyschema("action input", (r, None, (r2, None)))
            anyschema("property", (r, (r2, None), None))
        for r3 in R:
            anyschema("action input", (r, (r2, (r3, None))))
            anyschema("property", (r, (r2, (r3, None))), "thorough")
            for r4 in R:
                anyschema("schema definition", (r, (r2, (r3, (r4, None)))), "thorough")
anyschema("action input", ("vec", None, ("properties", None, None), ("one_of", None, ("elem", None))))
anyschema("property", ("one_of", ("vec", None, ("properties", None, None)), None))
