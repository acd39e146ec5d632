from core import *
from .thing import *

NEW = "ThingBuilder::<O, _>::new(t).finish_extend()"
FRESH = "O: Ext + Default"


def only(v):
    """The only item of a list that has exactly one."""
    out = []
    for g, x in cases(v):
        if x is UNDEF:
            continue
        ps = parts_of(x)
        if len(ps) != 1 or ps[0].op != "pi" or ps[0].a[0] != 1:
            gate(x)
            raise Fail("the list does not hold exactly one item: " + show(x, 3)[:200])
        out.append((g, ps[0].a[1]))
    return mk_ite(out)


def one_in(field, optional=True):
    def root(env, v):
        x = get(payload(v), field)
        g = AND(okg(v), NOT(is_variant(x, OPTION, 1))) if optional else 0
        if not unsat(g):
            gate(x, ("B", g))
            raise Fail("the %s added by the call is not in the result" % field)
        return only(simp(payload(x, 1, OPTION), okg(v)))
    return root


def frame_in(pid, name, base, new, rootfn, target, expected, accept=None, what=""):
    """frame() on the object found by rootfn in the result of a builder."""
    def fn(env):
        out = []
        vb, vn = env.val(base), env.val(new)
        gb, gn = okg(vb), okg(vn)
        if accept == "any":
            d = 0
        elif accept == "weaker":
            d = AND(gb, NOT(gn))
        else:
            d = NOT(bdd.IFF(gn, accept(env, gb) if accept else gb))
        guard_diff(d, out, "the call changes which inputs are accepted: ")
        care = AND(gb, gn)
        if care == 0:
            raise Fail("no input of the rule is accepted")
        pb, pn = rootfn(env, vb), rootfn(env, vn)
        for f in fields_of(tpath(pn)):
            if f == target:
                diff(f, get(pn, f), expected(get(pb, f), env), care, out)
            else:
                diff(f, get(pn, f), get(pb, f), care, out)
        return out
    rule(pid, name, [base, new], fn, what or "%s: member %s receives the value, all others are unchanged" % (name, target))


def accepts(pid, name, entry, cond, what):
    """The entry point succeeds exactly under cond(env)."""
    def fn(env):
        g = okg(env.val(entry))
        w = cond(env)
        out = guard_diff(AND(g, NOT(w)), [], "accepted although it must be rejected")
        return guard_diff(AND(w, NOT(g)), out, "rejected although it must be accepted")
    rule(pid, name, [entry], fn, what)


# ---------------------------------------------------------------- links

K = "t: String, kb: LinkBuilder<String>"
E("lk0", K, "R<O>", NEW + ".link_with(move |_| kb).build()", gen=FRESH)
for m, f in (("ty", "ty"), ("rel", "rel"), ("anchor", "anchor"), ("sizes", "sizes")):
    E("lk_" + m, K + ", x: String", "R<O>", NEW + ".link_with(move |_| kb.%s(x)).build()" % m, gen=FRESH)
    frame_in("P07", "LinkBuilder::" + m, "lk0", "lk_" + m, one_in("links"), f, lambda old, env: some(S("x")),
             accept=None if m in ("ty", "anchor") else "any")
E("lk_hreflang", K + ", l: String", "R<O>", NEW + ".link_with(move |_| kb.hreflang(l)).build()", gen=FRESH)
frame_in("P07", "LinkBuilder::hreflang", "lk0", "lk_hreflang", one_in("links"), "hreflang",
         lambda old, env: optpush(old, payload(env.val("lang_parse"))),
         accept=lambda env, gb: AND(gb, okg(env.val("lang_parse"))))
E("lk_lang1", "t: String, h: String, l: String", "R<O>", NEW + ".link_with(move |k| k.href(h).hreflang(l)).build()", gen=FRESH)
accepts("P14", "link language", "lk_lang1", lambda env: okg(env.val("lang_parse")),
        "a link language is refused exactly when it is malformed")
E("lk_href", "t: String, h: String, ku: LinkBuilder<()>", "R<O>", NEW + ".link_with(move |_| ku.href(h)).build()", gen=FRESH)
E("lk_href2", "t: String, h: String, x: String, ku: LinkBuilder<()>", "R<O>", NEW + ".link_with(move |_| ku.%s(x).href(h)).build()" % "ty", gen=FRESH)
for m in ("ty", "rel", "anchor", "sizes", "hreflang"):
    E("lk_a_" + m, "t: String, h: String, x: String, ku: LinkBuilder<()>", "R<O>", NEW + ".link_with(move |_| ku.%s(x).href(h)).build()" % m, gen=FRESH)
    E("lk_b_" + m, "t: String, h: String, x: String, ku: LinkBuilder<()>", "R<O>", NEW + ".link_with(move |_| ku.href(h).%s(x)).build()" % m, gen=FRESH)

    def fn(env, m=m):
        a, b = env.val("lk_a_" + m), env.val("lk_b_" + m)
        out = []
        d = NOT(bdd.IFF(okg(a), okg(b)))
        guard_diff(d, out, "depends on the order of href and " + m)
        return diff("", payload(a), payload(b), AND(okg(a), okg(b)), out)
    rule("P02", "LinkBuilder::href keeps " + m, ["lk_a_" + m, "lk_b_" + m], fn,
         "setting %s before or after href gives the same link" % m)


def href_is(env):
    v = env.val("lk_href")
    return diff("links[0].href", get(one_in("links")(env, v), "href"), S("h"), okg(v), [])


rule("P07", "LinkBuilder::href", ["lk_href"], href_is, "the link points to the given target")


def icon(x):
    return veq(x, strlit("icon"))


for nm, chain, sig, cond in (
        ("rel, sizes", "href(h).rel(r).sizes(s)", ", r: String, s: String", lambda env: icon(S("r"))),
        ("sizes, rel", "href(h).sizes(s).rel(r)", ", r: String, s: String", lambda env: icon(S("r"))),
        ("rel changed", "href(h).rel(q).sizes(s).rel(r)", ", q: String, r: String, s: String", lambda env: icon(S("r"))),
        ("sizes only", "href(h).sizes(s)", ", s: String", lambda env: 0),
        ("sizes and others", "href(h).ty(r).anchor(q).sizes(s)", ", q: String, r: String, s: String", lambda env: 0),
        ("rel only", "href(h).rel(r)", ", r: String", lambda env: 1),
        ("neither", "href(h).ty(r).anchor(s)", ", r: String, s: String", lambda env: 1)):
    n = "lk_s_" + nm.replace(", ", "_").replace(" ", "_")
    E(n, "t: String, h: String" + sig, "R<O>", NEW + ".link_with(move |k| k.%s).build()" % chain, gen=FRESH)
    accepts("P07", "sizes need rel=icon (%s)" % nm, n, cond, "a link with sizes is accepted exactly when its relation is icon")


def thing_append(pid, name, new, fresh, field, what, accept=None):
    """On any builder state the call appends exactly what it produces on a new one."""
    def fn(env):
        out = []
        vb, vn, vf = env.val("thing0"), env.val(new), env.val(fresh)
        gb, gn = okg(vb), okg(vn)
        care = AND(gb, gn)
        if not unsat(AND(gn, NOT(gb))):
            out.append(("acceptance", "the call makes a refused description accepted"))
        pb, pn = payload(vb), payload(vn)
        x = one_in(field)(env, vf)
        for f in fields_of(THING):
            if f == field:
                diff(f, get(pn, f), optpush(get(pb, f), x), AND(care, okg(vf)), out)
            else:
                diff(f, get(pn, f), get(pb, f), care, out)
        return out
    rule(pid, name, ["thing0", new, fresh], fn, what)


E("t_link_with", TB + ", kb: LinkBuilder<String>", "R<O>", "b.link_with(move |_| kb).build()")
thing_append("P01", "ThingBuilder::link_with", "t_link_with", "lk0", "links", "the link is appended, all other members are unchanged")

# ---------------------------------------------------------------- forms

FB = "fb: FormBuilder<O, String, O::Form>"
RF = "Form<O>"
E("fm0", FB, RF, "Form::from(fb)")


def fset(m, field, sig, call, expected):
    n = "fm_" + m
    E(n, FB + sig, RF, "Form::from(fb.%s)" % call)
    frame("P05", "FormBuilder::" + m, "fm0", n, field, expected, root=lambda env, v: v)


for m in ("content_type", "content_coding", "subprotocol"):
    fset(m, m, ", x: String", m + "(x)", lambda old, env: some(S("x")))
fset("security", "security", ", x: String", "security(x)", lambda old, env: optpush(old, S("x")))
fset("scope", "scopes", ", x: String", "scope(x)", lambda old, env: optpush(old, S("x")))

DFO = "wot_td::thing::DefaultedFormOperations"
AER = "wot_td::thing::AdditionalExpectedResponse"
ER = "wot_td::thing::ExpectedResponse"


def op_push(old, env):
    ci = [v["name"] for v in ADTS[DFO]["variants"]].index("Custom")
    di = [v["name"] for v in ADTS[DFO]["variants"]].index("Default")
    return mk_ite([(is_variant(old, DFO, di), adt(DFO, ci, seqof(S("fo")))),
                   (is_variant(old, DFO, ci), adt(DFO, ci, app(payload(old, ci, DFO), S("fo"))))])


fset("op", "op", ", fo: FormOperation", "op(fo)", op_push)


def build(path, env, **kw):
    fs = fields_of(path)
    for k in kw:
        if k not in fs:
            raise Fail("type %s has no member %s" % (path, k))
    return adt(path, 0, *[kw.get(f, none()) for f in fs])


for nm, chain, kw in (
        ("empty", "r", {}),
        ("success", "r.success()", {"success": TRUE}),
        ("content_type", "r.content_type(c)", {"content_type": some(S("c"))}),
        ("schema", "r.schema(s)", {"schema": some(S("s"))}),
        ("all", "r.content_type(c).success().schema(s)", {"success": TRUE, "content_type": some(S("c")), "schema": some(S("s"))})):
    fset("additional_response_" + nm, "additional_responses", ", c: String, s: String", "additional_response(move |r| %s)" % chain,
         lambda old, env, kw=kw: optpush(old, build(AER, env, **dict({"success": FALSE}, **kw))))

E("fm_response", FB + ", x: String, er: O::ExpectedResponse", RF, "Form::from(fb.response(x, move |_| er))")
frame("P05", "FormBuilder::response", "fm0", "fm_response", "response",
      lambda old, env: some(build(ER, env, content_type=S("x"), other=S("er"))), root=lambda env, v: v)
E("fm_response_id", "x: String", "<O as ExtendableThing>::ExpectedResponse", "<O as ExtendableThing>::ExpectedResponse::empty()")
E("fm_response_same", FB + ", x: String", RF, "Form::from(fb.response(x, |r| r))")
frame("P05", "FormBuilder::response (empty extension)", "fm0", "fm_response_same", "response",
      lambda old, env: some(build(ER, env, content_type=S("x"), other=env.val("fm_response_id"))), root=lambda env, v: v)

E("fm_href", "fu: FormBuilder<O, (), O::Form>, x: String", RF, "Form::from(fu.href(x))")


def fhref(env):
    return diff("href", get(env.val("fm_href"), "href"), S("x"), 1, [])


rule("P05", "FormBuilder::href", ["fm_href"], fhref, "the form points to the given target")

FORM_SETS = {"op": ("fo: FormOperation", "op(fo)"), "content_type": ("x: String", "content_type(x)"),
             "content_coding": ("x: String", "content_coding(x)"), "subprotocol": ("x: String", "subprotocol(x)"),
             "security": ("x: String", "security(x)"), "scope": ("x: String", "scope(x)"),
             "additional_response": ("x: String", "additional_response(move |r| r.schema(x))"),
             "response": ("x: String, er: O::ExpectedResponse", "response(x, move |_| er)")}
for m, (sig, call) in FORM_SETS.items():
    E("fm_a_" + m, "fu: FormBuilder<O, (), O::Form>, h: String, " + sig, RF, "Form::from(fu.%s.href(h))" % call)
    E("fm_b_" + m, "fu: FormBuilder<O, (), O::Form>, h: String, " + sig, RF, "Form::from(fu.href(h).%s)" % call)

    def fn(env, m=m):
        return diff("", env.val("fm_a_" + m), env.val("fm_b_" + m), 1, [])
    rule("P02", "FormBuilder::href keeps " + m, ["fm_a_" + m, "fm_b_" + m], fn,
         "setting %s before or after href gives the same form" % m)

# extension transitions of a form builder
E("fm_ext", "fb: FormBuilder<O, String, Nil>, u: U", "Form<X<U>>", "let _ = fb; todo!()", gen="O: Ext, U") if False else None
