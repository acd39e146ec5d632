"""Data schema builders (P04) and their stage transitions (P02)."""
from core import *
from .thing import *

PRELUDE.append("""
use wot_td::builder::data_schema::*;
use wot_td::builder::affordance::*;
use serde_json::Value;
pub type DS<O> = <O as ExtendableThing>::DataSchema;
pub type AS<O> = <O as ExtendableThing>::ArraySchema;
pub type OS<O> = <O as ExtendableThing>::ObjectSchema;
pub type DB<O> = DataSchemaBuilder<DS<O>, AS<O>, OS<O>, Extended>;
pub type PDB<O> = PartialDataSchemaBuilder<DS<O>, AS<O>, OS<O>, Extended>;
pub type US<O> = UncheckedDataSchema<DS<O>, AS<O>, OS<O>>;
pub type SC<O> = DataSchema<DS<O>, AS<O>, OS<O>>;
pub type Tu<O, I> = TupleDataSchemaBuilder<I, DS<O>, AS<O>, OS<O>>;
pub type Ve<O, I> = VecDataSchemaBuilder<I, DS<O>, AS<O>, OS<O>>;
pub type Ob<O, I> = ObjectDataSchemaBuilder<I, DS<O>, AS<O>, OS<O>>;
""")

SCH = "wot_td::thing::DataSchema"
DST = "wot_td::thing::DataSchemaSubtype"
TH = "wot_td::thing::"

# kind: (type over inner, parameter name, constructor call on a plain builder, variant of the subtype)
KINDS = {
    "bool": ("StatelessDataSchemaBuilder<%s>", "st", ".bool()", "Boolean"),
    "null": (None, None, ".null()", "Null"),
    "tuple": ("Tu<O, %s>", "tu", ".tuple()", "Array"),
    "vec": ("Ve<O, %s>", "ve", ".vec()", "Array"),
    "number": ("NumberDataSchemaBuilder<%s>", "nu", ".number()", "Number"),
    "integer": ("IntegerDataSchemaBuilder<%s>", "in_", ".integer()", "Integer"),
    "object": ("Ob<O, %s>", "ob", ".object()", "Object"),
    "string": ("StringDataSchemaBuilder<%s>", "str_", ".string()", "String"),
    "enum": ("EnumDataSchemaBuilder<%s>", "en", ".enumeration(jv)", None),
    "oneof": ("OneOfDataSchemaBuilder<%s>", "oo", ".one_of(move |_| us)", None),
}
RET = "Result<SC<O>, Error>"


def leaves(v, subs, prefix=()):
    """Leaf member paths of an object, going into the members listed in subs."""
    path = tpath(v)
    for f in fields_of(path):
        p = prefix + (f,)
        if p in subs:
            yield from leaves(get(v, f), subs, p)
        else:
            yield p


def gp(v, p):
    for f in p:
        v = get1(v, f)
    return v


def frame2(pid, name, base, new, rootfn, subs, changes, accept=None, what=""):
    """Like frame(): members (paths) in `changes` become changes[p](old, env)."""
    def fn(env):
        out = []
        vb, vn = env.val(base), env.val(new)
        gb, gn = okg(vb), okg(vn)
        if accept == "any":
            d = 0
        elif accept == "weaker":
            d = AND(gb, NOT(gn))
        elif accept == "stronger":
            d = AND(gn, NOT(gb))
        else:
            d = NOT(bdd.IFF(gn, accept(env, gb) if accept else gb))
        guard_diff(d, out, "the call changes which inputs are accepted: ")
        care = AND(gb, gn)
        if care == 0:
            raise Fail("no input of the rule is accepted")
        pb, pn = rootfn(env, vb), rootfn(env, vn)
        seen = set()
        for p in leaves(pn, subs):
            x, y = gp(pn, p), gp(pb, p)
            c = [k for k in changes if k == p]
            seen |= set(c)
            diff(".".join(p), x, changes[p](y, env) if c else y, care, out)
        for k in changes:
            if k not in seen:
                raise Fail("there is no member " + ".".join(k))
        return out
    rule(pid, name, [base, new], fn, what or "%s: %s receives the value, all other members are unchanged" % (
        name, ", ".join(".".join(k) for k in changes) or "nothing"))


def plain(env, v):
    return payload(v)


HR = {
    # member: (extra parameters, call, expectation)
    "title": (", x: String", "title(x)", {("title",): lambda old, env: some(S("x"))}),
    "description": (", x: String", "description(x)", {("description",): lambda old, env: some(S("x"))}),
    "attype": (", x: String", "attype(x)", {("attype",): lambda old, env: optpush(old, S("x"))}),
}
DSM = {
    "unit": (", x: String", "unit(x)", {("unit",): lambda old, env: some(S("x"))}),
    "format": (", x: String", "format(x)", {("format",): lambda old, env: some(S("x"))}),
    "default_value": (", jv: Value", "default_value(jv)", {("default",): lambda old, env: some(S("jv"))}),
}


def lit(path, name, *xs):
    r = ADTS.get(path)
    if not r:
        raise Fail("type %s is not in the compiled program" % path)
    for i, v in enumerate(r["variants"]):
        if v["name"] == name:
            return adt(path, i, *xs)
    raise Fail("type %s has no variant %s" % (path, name))


def bound(kind, incl):
    return lambda old, env: some(lit(TH + kind, "Inclusive" if incl else "Exclusive", S("_")))


def sub(old, env, variant_, member, exp):
    """The subtype with one member of its payload replaced."""
    i = [v["name"] for v in ADTS[DST]["variants"]].index(variant_)
    p = payload(payload(old, 1, OPTION), i, DST)
    path = tpath(p)
    if member not in fields_of(path):
        raise Fail("type %s has no member %s" % (path, member))
    return some(adt(DST, i, adt(path, 0, *[exp(get(p, f), env) if f == member else get(p, f) for f in fields_of(path)])))


def SUB(variant_, member, exp):
    return {("subtype",): lambda old, env: sub(old, env, variant_, member, exp)}


def x_(name, wrap=some):
    return lambda old, env: wrap(S(name))


def bd(ty, incl, n):
    return lambda old, env: some(lit(TH + ty, "Inclusive" if incl else "Exclusive", S(n)))


def vecpush(old, x):
    """Some(list) ++ [x] where an empty list is stored as no list at all."""
    return optpush(old, x)


SPEC = {
    "number": {
        "minimum": (", f: f64", "minimum(f)", SUB("Number", "minimum", bd("Minimum", True, "f"))),
        "maximum": (", f: f64", "maximum(f)", SUB("Number", "maximum", bd("Maximum", True, "f"))),
        "exclusive_minimum": (", f: f64", "exclusive_minimum(f)", SUB("Number", "minimum", bd("Minimum", False, "f"))),
        "exclusive_maximum": (", f: f64", "exclusive_maximum(f)", SUB("Number", "maximum", bd("Maximum", False, "f"))),
        "multiple_of": (", f: f64", "multiple_of(f)", SUB("Number", "multiple_of", x_("f"))),
    },
    "integer": {
        "minimum": (", i: i64", "minimum(i)", SUB("Integer", "minimum", bd("Minimum", True, "i"))),
        "maximum": (", i: i64", "maximum(i)", SUB("Integer", "maximum", bd("Maximum", True, "i"))),
        "exclusive_minimum": (", i: i64", "exclusive_minimum(i)", SUB("Integer", "minimum", bd("Minimum", False, "i"))),
        "exclusive_maximum": (", i: i64", "exclusive_maximum(i)", SUB("Integer", "maximum", bd("Maximum", False, "i"))),
        "multiple_of": (", nz: std::num::NonZeroU64", "multiple_of(nz)", SUB("Integer", "multiple_of", x_("nz"))),
    },
    "string": {
        "min_length": (", u: u32", "min_length(u)", SUB("String", "min_length", x_("u"))),
        "max_length": (", u: u32", "max_length(u)", SUB("String", "max_length", x_("u"))),
        "pattern": (", x: String", "pattern(x)", SUB("String", "pattern", x_("x"))),
        "content_encoding": (", x: String", "content_encoding(x)", SUB("String", "content_encoding", x_("x"))),
        "content_media_type": (", x: String", "content_media_type(x)", SUB("String", "content_media_type", x_("x"))),
    },
    "vec": {
        "min_items": (", u: u32", "min_items(u)", SUB("Array", "min_items", x_("u"))),
        "max_items": (", u: u32", "max_items(u)", SUB("Array", "max_items", x_("u"))),
    },
    "enum": {"enumeration": (", jv: Value", "enumeration(jv)", {("enumeration",): lambda old, env: some(app(payload(old, 1, OPTION), S("jv")))})},
}

ROOTS = {}
# base entries for each wrapper, plain and read-only / write-only
for k, (ty, pn, cons, var) in KINDS.items():
    if ty is None:
        continue
    t = ty % "DB<O>"
    E("ds_" + k, "%s: %s" % (pn, t), RET, "DataSchema::try_from(%s)" % pn)
    ro = {"w": ("", t, pn)}
    if k != "oneof":
        ro["r"] = ("ReadOnly", "ReadOnly<%s>" % t, pn + "_r")
        ro["o"] = ("WriteOnly", "WriteOnly<%s>" % t, pn + "_o")
        E("dr_" + k, "%s_r: ReadOnly<%s>" % (pn, t), RET, "DataSchema::try_from(US::<O>::from(%s_r))" % pn)
        E("do_" + k, "%s_o: WriteOnly<%s>" % (pn, t), RET, "DataSchema::try_from(US::<O>::from(%s_o))" % pn)
    for w, (wn, wt, wp) in ro.items():
        base = {"w": "ds_", "r": "dr_", "o": "do_"}[w] + k
        mk_ = "DataSchema::try_from(%s)" if w == "w" else "DataSchema::try_from(US::<O>::from(%s))"
        ms = dict(HR)
        ms.update(DSM)
        if not (w != "w" and k in ("string",)):
            ms.update(SPEC.get(k, {}))
        for m, (sig, call, ch) in ms.items():
            n = "d%s_%s_%s" % (w, k, m)
            E(n, "%s: %s%s" % (wp, wt, sig), RET, mk_ % ("%s.%s" % (wp, call)))
            frame2("P04", "%s%s::%s" % (wn and wn + " ", k, m), base, n, plain, (), ch)
        for m in ("titles", "descriptions"):
            n = "d%s_%s_%s" % (w, k, m)
            E(n + "0", "%s: %s" % (wp, wt), RET, mk_ % ("%s.%s(|z| z)" % (wp, m)))
            E(n + "1", "%s: %s, l: String, v: String" % (wp, wt), RET, mk_ % ("%s.%s(move |z| z.add(l, v))" % (wp, m)))
            frame2("P04", "%s%s::%s (none)" % (wn and wn + " ", k, m), base, n + "0", plain, (), {(m,): lambda old, env: some(mkmap(None, []))}, "weaker")
            frame2("P04", "%s%s::%s" % (wn and wn + " ", k, m), n + "0", n + "1", plain, (),
                   {(m,): lambda old, env: some(mkmap(None, [(1, payload(env.val("lang_parse")), S("v"))]))},
                   lambda env, gb: AND(gb, okg(env.val("lang_parse"))))
    # the kinds themselves
E("ds_us", "us: US<O>", RET, "DataSchema::try_from(us)")
SYMS = {"jv": "Value", "us": "US<O>"}
DFLT = ", AS<O>: Default, OS<O>: Default"
for k, (ty, pn, cons, var) in KINDS.items():
    sig = "".join(", %s: %s" % (a, SYMS[a]) for a in SYMS if "(" + a + ")" in cons or "| " + a in cons)
    E("dk_" + k, "db: DB<O>" + sig, RET, "DataSchema::try_from(db%s)" % cons, gen="O: Ext")
E("dflt_as", "", "AS<O>", "Default::default()")
E("dflt_os", "", "OS<O>", "Default::default()")


def kind(env, k, var):
    """A freshly chosen kind has no members yet."""
    v = env.val("dk_" + k)
    out = []
    p = payload(v)
    if var is None:
        w = none()
    else:
        i = [x["name"] for x in ADTS[DST]["variants"]].index(var)
        if ADTS[DST]["variants"][i]["fields"]:
            q = payload(payload(get(p, "subtype"), 1, OPTION), i, DST)
            fs = {f: none() for f in fields_of(tpath(q))}
            if "other" in fs:
                fs["other"] = env.val("dflt_as" if var == "Array" else "dflt_os")
            if k == "tuple":
                fs.pop("items")
                fs["items"] = get(q, "items")
            w = some(adt(DST, i, adt(tpath(q), 0, *[fs[f] for f in fields_of(tpath(q))])))
        else:
            w = some(adt(DST, i))
    diff("subtype", get(p, "subtype"), w, okg(v), out)
    return out


for k, (ty, pn, cons, var) in KINDS.items():
    rule("P04", "kind " + k, ["dk_" + k], lambda env, k=k, var=var: kind(env, k, var),
         "the built schema has the chosen kind and no further constraints")

# setters before and after choosing the kind
SETS = {"title": ("x: String", "title(x)"), "description": ("x: String", "description(x)"), "attype": ("x: String", "attype(x)"),
        "unit": ("x: String", "unit(x)"), "format": ("x: String", "format(x)"), "default_value": ("kv: Value", "default_value(kv)"),
        "titles": ("l: String, v: String", "titles(move |z| z.add(l, v))"),
        "descriptions": ("l: String, v: String", "descriptions(move |z| z.add(l, v))")}
for k, (ty, pn, cons, var) in KINDS.items():
    sig = "".join(", %s: %s" % (a, SYMS[a]) for a in SYMS if "(" + a + ")" in cons or "| " + a in cons)
    for m, (ms, call) in SETS.items():
        E("da_%s_%s" % (k, m), "db: DB<O>%s, %s" % (sig, ms), RET, "DataSchema::try_from(db.%s%s)" % (call, cons))
        E("dz_%s_%s" % (k, m), "db: DB<O>%s, %s" % (sig, ms), RET, "DataSchema::try_from(db%s.%s)" % (cons, call))
        rule("P02", "%s schema keeps %s" % (k, m), ["da_%s_%s" % (k, m), "dz_%s_%s" % (k, m)],
             lambda env, k=k, m=m: diff("", env.val("da_%s_%s" % (k, m)), env.val("dz_%s_%s" % (k, m)), 1, []),
             "setting %s before or after choosing the kind gives the same schema" % m)

# read-only and write-only
for k, (ty, pn, cons, var) in KINDS.items():
    if ty is None or k == "oneof":
        continue
    t = ty % "DB<O>"
    for m in ("read_only", "write_only"):
        n = "drw_%s_%s" % (k, m)
        E(n, "%s: %s" % (pn, t), RET, "DataSchema::try_from(US::<O>::from(%s.%s()))" % (pn, m))

        def acc(env, gb):
            return gb
        # a schema builder that is already read-only cannot be made write-only (see the typestate rules)
        ch = {(m,): lambda old, env: TRUE}
        if m == "write_only":
            ch[("read_only",)] = lambda old, env: FALSE
        frame2("P04", "%s::%s" % (k, m), "ds_" + k, n, plain, (), ch)
E("dk_constant", "db: DB<O>, jv: Value", RET, "DataSchema::try_from(US::<O>::from(db.constant(jv)))")
frame2("P04", "constant", "dk_bool", "dk_constant", plain, (),
       {("constant",): x_("jv"), ("read_only",): lambda old, env: TRUE, ("subtype",): lambda old, env: none()})

# ---- nesting: an inner schema is built exactly as it would be on its own

BEV = TH + "BoxedElemOrVec"
alln_ = bdd.alln


def vix(path, name):
    r = ADTS.get(path)
    if not r:
        raise Fail("type %s is not in the compiled program" % path)
    for i, v in enumerate(r["variants"]):
        if v["name"] == name:
            return i
    raise Fail("type %s has no variant %s" % (path, name))


def inner(k):
    ty, pn, cons, var = KINDS[k]
    return "%s: %s" % (pn, ty % "DB<O>"), pn


def nested(pid, name, entry, base, where, change, inners, what):
    """`where` of the result becomes change(old, inner results, env)."""
    def fn(env):
        out = []
        vn, vb = env.val(entry), env.val(base)
        vi = [env.val("ds_" + k) for k in inners]
        want = alln_([okg(vb)] + [okg(v) for v in vi])
        gn = okg(vn)
        guard_diff(NOT(bdd.IFF(gn, want)), out, "not accepted exactly when the enclosing and the inner schemas are: ")
        care = AND(gn, want)
        pn, pb = payload(vn), payload(vb)
        for f in fields_of(SCH):
            y = get(pb, f)
            if f == where:
                y = change(y, [payload(v) for v in vi], env)
            diff(f, get(pn, f), y, care, out)
        return out
    rule(pid, name, [entry, base] + ["ds_" + k for k in inners], fn, what)


def sub_(var, env, **kw):
    """Some(subtype) with the given members and None for the others."""
    path = TH + var + "Schema"
    fs = fields_of(path)
    for m in kw:
        if m not in fs:
            raise Fail("type %s has no member %s" % (path, m))
    return some(adt(DST, vix(DST, var), adt(path, 0, *[kw.get(f, none()) for f in fs])))


INN = [k for k in KINDS if KINDS[k][0]]
for k in INN:
    sig, pn = inner(k)
    E("dn_ob_" + k, "db: DB<O>, x: String, fg: bool, " + sig, RET, "DataSchema::try_from(db.object().property(x, fg, move |_| %s))" % pn)
    nested("P04", "object property of kind " + k, "dn_ob_" + k, "dk_object", "subtype",
           lambda old, vs, env: sub_("Object", env, properties=some(mkmap(None, [(1, S("x"), vs[0])])),
                                     required=mk_ite([(tobdd(S("fg")), some(seqof(S("x")))), (NOT(tobdd(S("fg"))), none())]),
                                     other=env.val("dflt_os")), [k],
           "the property is stored under its name with exactly the schema it has on its own, and is required when asked for")
    E("dn_tu_" + k, "db: DB<O>, " + sig, RET, "DataSchema::try_from(db.tuple().append(move |_| %s))" % pn)
    nested("P04", "tuple item of kind " + k, "dn_tu_" + k, "dk_tuple", "subtype",
           lambda old, vs, env: sub_("Array", env, items=some(lit(BEV, "Vec", seqof(vs[0]))), other=env.val("dflt_as")), [k],
           "the item is stored with exactly the schema it has on its own")
    E("dn_ve_" + k, "db: DB<O>, " + sig, RET, "DataSchema::try_from(db.vec().set_item(move |_| %s))" % pn)
    nested("P04", "array item of kind " + k, "dn_ve_" + k, "dk_vec", "subtype",
           lambda old, vs, env: sub_("Array", env, items=some(lit(BEV, "Elem", vs[0])), other=env.val("dflt_as")), [k],
           "the item is stored with exactly the schema it has on its own")
    E("dn_oo_" + k, "db: DB<O>, " + sig, RET, "DataSchema::try_from(db.one_of(move |_| %s))" % pn)
    E("dn_oo_base", "db: DB<O>", RET, "DataSchema::try_from(db.one_of(|d| d.finish_extend().null()))")
    nested("P04", "oneOf alternative of kind " + k, "dn_oo_" + k, "dn_oo_base", "one_of",
           lambda old, vs, env: some(mk("seq", *(tuple(parts_of(payload(old, 1, OPTION))[:-1]) + (mk("pi", 1, vs[0]),)))), [k], "the alternative is stored with exactly the schema it has on its own")

E("dm_tu", "tu: Tu<O, DB<O>>, nu: NumberDataSchemaBuilder<DB<O>>", RET, "DataSchema::try_from(tu.append(move |_| nu))")


def tup2(old, vs, env):
    q = payload(payload(old, 1, OPTION), vix(DST, "Array"), DST)
    items = payload(payload(get(q, "items"), 1, OPTION), vix(BEV, "Vec"), BEV)
    return some(lit(DST, "Array", adt(TH + "ArraySchema", 0, *[
        some(lit(BEV, "Vec", app(items, vs[0]))) if f == "items" else get(q, f) for f in fields_of(TH + "ArraySchema")])))


nested("P04", "tuple: items accumulate in order", "dm_tu", "ds_tuple", "subtype", tup2, ["number"], "the item is appended after the earlier ones")
E("dm_oo", "oo: OneOfDataSchemaBuilder<DB<O>>, nu: NumberDataSchemaBuilder<DB<O>>", RET, "DataSchema::try_from(oo.one_of(move |_| nu))")
nested("P04", "oneOf: alternatives accumulate in order", "dm_oo", "ds_oneof", "one_of", lambda old, vs, env: some(app(payload(old, 1, OPTION), vs[0])),
       ["number"], "the alternative is appended after the earlier ones")
E("dm_ve", "ve: Ve<O, DB<O>>, nu: NumberDataSchemaBuilder<DB<O>>", RET, "DataSchema::try_from(ve.set_item(move |_| nu))")


def vec2(old, vs, env):
    return sub(old, env, "Array", "items", lambda o, e: some(lit(BEV, "Elem", vs[0])))


def weaker_vec(env):
    out = []
    vn, vb, vi = env.val("dm_ve"), env.val("ds_vec"), env.val("ds_number")
    guard_diff(AND(okg(vn), NOT(okg(vi))), out, "accepted although the item is not")
    guard_diff(AND(AND(okg(vb), okg(vi)), NOT(okg(vn))), out, "refused although the item and the array are fine")
    care = AND(AND(okg(vn), okg(vb)), okg(vi))
    for f in fields_of(SCH):
        y = get(payload(vb), f)
        diff(f, get(payload(vn), f), vec2(y, [payload(vi)], env) if f == "subtype" else y, care, out)
    return out


rule("P04", "array: the item replaces the earlier one", ["dm_ve", "ds_vec", "ds_number"], weaker_vec, "the item schema is set, everything else is unchanged")
E("dm_ob", "db: DB<O>, x: String, fg: bool, y: String, hg: bool, nu: NumberDataSchemaBuilder<DB<O>>, st: StatelessDataSchemaBuilder<DB<O>>", RET,
  "DataSchema::try_from(db.object().property(x, fg, move |_| nu).property(y, hg, move |_| st))")


def ob2(env):
    out = []
    v, a, b, o = env.val("dm_ob"), env.val("ds_number"), env.val("ds_bool"), env.val("dk_object")
    g = okg(v)
    ne = NOT(veq(S("x"), S("y")))
    want = alln_([okg(a), okg(b), okg(o)])
    guard_diff(AND(ne, NOT(bdd.IFF(g, want))), out, "not accepted exactly when each schema is")
    fg, hg = tobdd(S("fg")), tobdd(S("hg"))
    req = mk_ite([(AND(fg, hg), some(seqof(S("x"), S("y")))), (AND(fg, NOT(hg)), some(seqof(S("x")))), (AND(NOT(fg), hg), some(seqof(S("y")))),
                  (AND(NOT(fg), NOT(hg)), none())])
    w = sub_("Object", env, properties=some(mkmap(None, [(1, S("x"), payload(a)), (1, S("y"), payload(b))])), required=req, other=env.val("dflt_os"))
    diff("subtype", get(payload(v), "subtype"), w, AND(g, ne), out)
    return out


rule("P04", "object: properties accumulate", ["dm_ob", "ds_number", "ds_bool", "dk_object"], ob2,
     "each property keeps its own schema, and the required names are in call order")
