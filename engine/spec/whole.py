"""Members of the thing that hold other objects, and the context (P01)."""
from core import *
from .thing import *
from .link_form import NEW, FRESH, accepts, only, one_in
from .schema import KINDS, INN
from .affordance import PROPS, onlyentry, TN, FIELD

JV = "serde_json::value::Value"


def others(pid, name, base, new, skip, what):
    """The call leaves every member but `skip` as it is."""
    def fn(env):
        out = []
        vb, vn = env.val(base), env.val(new)
        gb, gn = okg(vb), okg(vn)
        care = AND(gb, gn)
        if care == 0:
            raise Fail("no input of the rule is accepted")
        pb, pn = payload(vb), payload(vn)
        for f in fields_of(THING):
            if f not in skip:
                diff(f, get(pn, f), get(pb, f), care, out)
        return out
    rule(pid, name, [base, new], fn, what)


OBJ = {
    "property": (", n: String, p_nu: PB<O, NumberDataSchemaBuilder<PDB<O>>>", "property(n, move |_| p_nu)", ("properties",)),
    "action": (", n: String, ab: AB<O>", "action(n, move |_| ab)", ("actions",)),
    "event": (", n: String, eb: EB<O>", "event(n, move |_| eb)", ("events",)),
    "schema_definition": (", n: String, nu: NumberDataSchemaBuilder<DB<O>>", "schema_definition(n, move |_| nu)", ("schema_definitions", "properties", "actions", "events", "forms")),
    "uri_variable": (", n: String, nu: NumberDataSchemaBuilder<DB<O>>", "uri_variable(n, move |_| nu)", ("uri_variables",)),
    "form": (", fb: FormBuilder<O, String, O::Form>", "form(move |_| fb)", ("forms",)),
}
for m, (sig, call, skip) in OBJ.items():
    E("t_" + m, TB + sig, "R<O>", "b.%s.build()" % call)
    others("P01", "ThingBuilder::%s (other members)" % m, "thing0", "t_" + m, skip, "all other members are unchanged")
    E("n_" + m, "t: String" + sig, "R<O>", NEW + ".%s.build()" % call, gen=FRESH)
    others("P01", "%s on a new description" % m, "t_new", "n_" + m, skip[:1], "all other members are those of a new description")

for k in INN:
    ty, pn = KINDS[k][0] % "DB<O>", KINDS[k][1]
    for m, field in (("schema_definition", "schema_definitions"), ("uri_variable", "uri_variables")):
        e = "n_%s_%s" % (m, k)
        E(e, TN + "%s: %s" % (pn, ty), "R<O>", NEW + ".%s(n, move |_| %s).build()" % (m, pn), gen=FRESH)
        if m == "uri_variable" and k in ("tuple", "vec", "object"):
            continue

        def fn(env, e=e, field=field, k=k):
            v = env.val(e)
            return diff(field, onlyentry(field)(env, v), payload(env.val("ds_" + k)), AND(okg(v), okg(env.val("ds_" + k))), [])
        rule("P01", "%s of kind %s" % (m, k), [e, "ds_" + k], fn, "stored under its name with exactly the schema it has on its own")


def nform(env):
    v = env.val("n_form")
    return diff("forms", one_in("forms")(env, v), env.val("fm0"), okg(v), [])


rule("P01", "form of a new description", ["n_form", "fm0"], nform, "the form is the one described by its builder")


# ---- the JSON-LD context

def jval(var, *xs):
    for i, v in enumerate(ADTS.get(JV, {"variants": []})["variants"]):
        if v["name"] == var:
            return adt(JV, i, *xs)
    raise Fail("JSON values have no variant " + var)


def jnorm(v):
    """Arrays and objects built by collecting are the array or object of their items."""
    if v.op == "ite":
        return mk_ite([(g, jnorm(x)) for g, x in v.a[0]])
    if v.op == "call" and v.a and v.a[0] == "collect":
        return jnorm_seq(v.a[2], str(v.a[1]) == JV)
    if v.op == "adt" and v.a[0] == JV:
        names = [x["name"] for x in ADTS[JV]["variants"]]
        n = names[v.a[1]]
        if n == "Array":
            return mk("tuple", strlit("array"), jseq(v.a[2]))
        if n == "Object":
            return mk("tuple", strlit("object"), jseq(v.a[2]))
        return v
    return v


def jseq(v):
    out = []
    for g, x in cases(v):
        if x is UNDEF:
            continue
        out.append((g, mk("seq", *[mk(p.op, p.a[0], *[jnorm(y) for y in p.a[1:]]) if p.op == "pi" else p for p in parts_of(x)])))
    return mk_ite(out)


def jnorm_seq(v, arr):
    return mk("tuple", strlit("array"), jseq(v)) if arr else jseq(v)


def want_ctx(env, items):
    """items: [(guard, value)] besides the TD context."""
    td = jval("String", env.val("td11"))
    none_ = bdd.alln([NOT(g) for g, _ in items])
    lst = mk("tuple", strlit("array"), mk("seq", mk("pi", 1, td), *[mk("pi", g, x) for g, x in items if g != 0]))
    return mk_ite([(none_, td), (NOT(none_), lst)])


def notd(env, x):
    return NOT(veq(S(x), env.val("td11")))


def ctx(entry, items, what, care=lambda env: 1):
    def fn(env):
        v = env.val(entry)
        guard_diff(NOT(okg(v)), [], "")
        return diff("context", jnorm(get(payload(v), "context")), want_ctx(env, items(env)), AND(okg(v), care(env)), [])
    rule("P01", "context: " + what, [entry, "td11"], fn, what)


ctx("t_new", lambda env: [], "a description without further contexts has the TD context alone")
for k in range(1, 4):
    ctx("t_ctx%d" % k, lambda env, k=k: [(notd(env, "x%d" % i), jval("String", S("x%d" % i))) for i in range(k)],
        "%d further context(s) follow the TD context in call order" % k)
ctx("t_ctxm", lambda env: [(notd(env, "x0"), jval("String", S("x0"))),
                           (1, mk("tuple", strlit("object"), seqof(mk("tuple", S("n"), jval("String", S("v"))), mk("tuple", S("n2"), jval("String", S("v2")))))),
                           (notd(env, "x1"), jval("String", S("x1")))],
    "a context map is kept with its entries between its neighbours", lambda env: NOT(veq(S("n"), S("n2"))))


def td11(env):
    return diff("the TD 1.1 context", env.val("td11"), strlit("https://www.w3.org/2022/wot/td/v1.1"), 1, [])


rule("P01", "context: TD 1.1", ["td11"], td11, "the TD 1.1 context is the one of the recommendation")


def newthing(env):
    """A new description has its title and nothing else."""
    v = env.val("t_new")
    out = guard_diff(NOT(okg(v)), [], "refused")
    p = payload(v)
    for f in fields_of(THING):
        if f == "title":
            diff(f, get(p, f), S("t"), okg(v), out)
        elif f not in ("context", "other", "security", "security_definitions"):
            diff(f, get(p, f), none(), okg(v), out)
    diff("security", get(p, "security"), mk("seq"), okg(v), out)
    diff("security_definitions", get(p, "security_definitions"), mkmap(None, []), okg(v), out)
    return out


rule("P01", "new description", ["t_new"], newthing, "a new description has the given title and no other member")
