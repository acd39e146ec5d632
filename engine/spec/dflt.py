"""Defaults the builders assign (P19); the parsed defaults are in de.py."""
from core import *
from .link_form import NEW, FRESH, only, one_in
from .security import KINDS, default_scheme, uncow_all, onedef
from .affordance import onlyentry

for cons, (key, var, ty) in KINDS.items():
    if var is None:
        continue
    n = "sr_%s_0" % cons.split("(")[0]

    def f(env, n=n, cons=cons):
        v = env.val(n)
        return diff("subtype", uncow_all(get(onedef(env, v), "subtype")), default_scheme(cons, env), okg(v), [])
    rule("P19", "builder default of %s" % cons, [n], f, "the members of the scheme have the defaults of the vocabulary")


def opt(x):
    return payload(x, 1, OPTION)


E("df_form", "t: String, h: String", "R<O>", NEW + ".form(move |f| f.op(FormOperation::ReadAllProperties).href(h).additional_response(|r| r)).build()", gen=FRESH)
E("df_act", "t: String, n: String, h: String", "R<O>", NEW + ".action(n, move |a| a.form(move |f| f.href(h))).build()", gen=FRESH)
E("df_evt", "t: String, n: String, h: String", "R<O>", NEW + ".event(n, move |a| a.form(move |f| f.href(h))).build()", gen=FRESH)
E("df_prop", "t: String, n: String, h: String", "R<O>",
  NEW + ".property(n, move |a| a.finish_extend_data_schema().null().form(move |f| f.href(h))).build()", gen=FRESH)


def thing_form(env):
    v = env.val("df_form")
    return one_in("forms")(env, v), okg(v)


def aff_form(e, field):
    def f(env):
        v = env.val(e)
        return only(simp(get(onlyentry(field)(env, v), "interaction", "forms"), okg(v))), okg(v)
    return f


def op_rule(root):
    def f(env):
        x, care = root(env)
        o = simp(get(x, "op"), care)
        return guard_diff(AND(care, NOT(is_variant(o, tpath(o), 0))), [], "the operations of a new form are not the default ones", "op")
    return f


for e, field in (("df_act", "actions"), ("df_evt", "events"), ("df_prop", "properties")):
    rule("P19", "builder default of op (%s)" % field, [e], op_rule(aff_form(e, field)), "a form without operations has the default ones")


def success(env):
    x, care = thing_form(env)
    r = only(simp(opt(get(x, "additional_responses")), care))
    return guard_diff(AND(care, tobdd(get(r, "success"))), [], "a new additional response is a success", "success")


rule("P19", "builder default of success", ["df_form"], success, "an additional response is not a success unless asked")


def flag(e, field, *path):
    def f(env):
        v = env.val(e)
        x = get(onlyentry(field)(env, v), *path)
        return guard_diff(AND(okg(v), tobdd(x)), [], "the default is not false", ".".join(path))
    return f


for m in ("safe", "idempotent"):
    rule("P19", "builder default of %s" % m, ["df_act"], flag("df_act", "actions", m), "an action is not %s unless asked" % m)
for m in ("read_only", "write_only"):
    rule("P19", "builder default of %s" % m, ["df_prop"], flag("df_prop", "properties", "data_schema", m), "a schema is not %s unless asked" % m)
E("df_ctx", "t: String", "R<O>", NEW + ".build()", gen=FRESH)


def context(env):
    v = env.val("df_ctx")
    c = get(payload(v), "context")
    out = []
    k = [i for i, x in enumerate(ADTS[tpath(c)]["variants"]) if x["name"] == "String"][0]
    guard_diff(AND(okg(v), NOT(is_variant(c, tpath(c), k))), out, "the default is not a text", "@context")
    return diff("@context", payload(c, k, tpath(c)), strlit("https://www.w3.org/2022/wot/td/v1.1"), okg(v), out)


rule("P19", "builder default of @context", ["df_ctx"], context, "the context of the Thing Description 1.1 vocabulary")
