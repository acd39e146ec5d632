"""The extension stages of the builders (P02)."""
from core import *
from .thing import *
from .link_form import NEW, FRESH, FORM_SETS, RF, only
from .schema import KINDS, RET, SETS, SCH
from .affordance import FIELD

PRELUDE.append("""
pub type Y<U> = Cons<U, Nil>;
pub trait XT: ExtendableThing {}
pub type PN<U> = PropertyAffordanceBuilder<Y<U>, PartialDataSchemaBuilder<Nil, AS<Y<U>>, OS<Y<U>>, ToExtend>, Nil, Nil>;
pub type AN<U> = ActionAffordanceBuilder<Y<U>, Nil, Nil>;
pub type EN<U> = EventAffordanceBuilder<Y<U>, Nil, Nil>;
""")
U = "U: ExtendableThing"


def same(pid, name, a, b, what):
    def fn(env):
        x, y = env.val(a), env.val(b)
        return diff("", x, y, 1, [])
    rule(pid, name, [a, b], fn, what)


def isok(name, entry, fn_, what):
    def fn(env):
        v = env.val(entry)
        return fn_(env, v)
    rule("P02", name, [entry], fn, what)


# ---- thing
TSETS = {"id": ("x: String", "id(x)"), "description": ("x: String", "description(x)"), "support": ("x: String", "support(x)"), "base": ("x: String", "base(x)"),
         "version": ("vi: VersionInfo", "version(vi)"), "created": ("dt: time::OffsetDateTime", "created(dt)"), "modified": ("dt: time::OffsetDateTime", "modified(dt)"),
         "attype": ("x: String", "attype(x)"), "profile": ("x: String", "profile(x)"), "link": ("x: String", "link(x)"), "context": ("x: String", "context(x)"),
         "context_map": ("x: String, w: String", "context_map(move |m| m.context(x, w))"),
         "titles": ("l: String, v: String", "titles(move |z| z.add(l, v))"), "descriptions": ("l: String, v: String", "descriptions(move |z| z.add(l, v))"),
         "security": ("k: String", "security(move |z| z.basic().with_key(k).required())"), "link_with": ("kb: LinkBuilder<String>", "link_with(move |_| kb)")}
BASES = {"first extension": ("tn: ThingBuilder<Nil, ToExtend>, u: U", "tn", ".ext(u)", "R<Y<U>>", U),
         "further extension": ("tm: ThingBuilder<Y<A>, ToExtend>, u: U", "tm", ".ext(u)", "R<Cons<U, Y<A>>>", U + ", A: ExtendableThing"),
         "extension from a function": ("tn: ThingBuilder<Nil, ToExtend>, u: U", "tn", ".ext_with(move || u)", "R<Y<U>>", U)}
for bn, (sig, b, step, ret, gen) in BASES.items():
    p = {"first extension": "x1", "further extension": "x2", "extension from a function": "x3"}[bn]
    for m, (ms, call) in TSETS.items():
        E("%s_a_%s" % (p, m), sig + ", " + ms, ret, "%s.%s%s.finish_extend().build()" % (b, call, step), gen=gen)
        E("%s_b_%s" % (p, m), sig + ", " + ms, ret, "%s%s.%s.finish_extend().build()" % (b, step, call), gen=gen)
        E("%s_c_%s" % (p, m), sig + ", " + ms, ret, "%s%s.finish_extend().%s.build()" % (b, step, call), gen=gen)
        same("P02", "thing, %s keeps %s" % (bn, m), "%s_a_%s" % (p, m), "%s_b_%s" % (p, m), "setting %s before or after the extension gives the same description" % m)
        same("P02", "thing, finishing the extension stage after %s keeps %s" % (bn, m), "%s_b_%s" % (p, m), "%s_c_%s" % (p, m),
             "setting %s before or after finishing the extension stage gives the same description" % m)
    E(p + "_0", sig, ret, "%s%s.finish_extend().build()" % (b, step), gen=gen)
    E(p + "_u", sig, ret, "%s%s.build()" % (b, step), gen=gen)
    same("P02", "thing, %s, built with and without finishing the stage" % bn, p + "_0", p + "_u", "finishing the extension stage changes nothing in the built description")


E("x1_base", "tn: ThingBuilder<Nil, ToExtend>", "R<Nil>", "tn.finish_extend().build()", gen="")
E("x2_base", "tm: ThingBuilder<Y<A>, ToExtend>", "R<Y<A>>", "tm.finish_extend().build()", gen="A: ExtendableThing")
LATER = ("properties", "actions", "events", "forms", "uri_variables", "schema_definitions")
for p, q in (("x1", "x1_base"), ("x2", "x2_base"), ("x3", "x1_base")):
    def kept(env, p=p, q=q):
        out = []
        v, b = env.val(p + "_0"), env.val(q)
        # the members of the later stage cannot have been set yet: they are out of the picture on both sides
        care = AND(okg(v), okg(b))
        guard_diff(AND(okg(b), NOT(okg(v))), out, "the extension makes the description refused")
        for f in fields_of(THING):
            if f in LATER:
                continue
            x, y = get(payload(v), f), get(payload(b), f)
            if f == "other":
                y = adt("wot_td::hlist::Cons", 0, S("u"), y)
            diff(f, x, y, care, out)
        return out
    rule("P02", "thing extension %s" % p, [p + "_0", q], kept, "the extension is put in front of the earlier ones and every member is kept")

# ---- form
FN = "fn_: FormBuilder<Y<U>, (), Nil>, h: String"
for m, (ms, call) in FORM_SETS.items():
    ms, call = ms.replace("O::", "<Y<U> as ExtendableThing>::"), call
    e = "x_f%s_" + m
    sg = FN + ", uf: U::Form, " + ms
    E(e % "a", sg, "Form<Y<U>>", "Form::from(fn_.%s.ext(uf).href(h))" % call, gen=U)
    E(e % "b", sg, "Form<Y<U>>", "Form::from(fn_.ext(uf).%s.href(h))" % call, gen=U)
    E(e % "c", sg, "Form<Y<U>>", "Form::from(fn_.ext_with(move || uf).href(h).%s)" % call, gen=U)
    E(e % "d", sg, "Form<Y<U>>", "Form::from(fn_.href(h).%s.ext(uf))" % call, gen=U)
    same("P02", "form extension keeps " + m, e % "a", e % "b", "setting %s before or after the extension gives the same form" % m)
    same("P02", "form extension from a function keeps " + m, e % "a", e % "c", "setting %s before or after the extension gives the same form" % m)
    same("P02", "form extension after target keeps " + m, e % "d", e % "b", "setting %s before or after the extension gives the same form" % m)
E("x_f0", FN + ", uf: U::Form", "Form<Y<U>>", "Form::from(fn_.ext(uf).href(h))", gen=U)


def formext(env):
    out = []
    v = env.val("x_f0")
    d = diff("other", get(v, "other", "head"), S("uf"), 1, out)
    return diff("href", get(v, "href"), S("h"), 1, d)


rule("P05", "form extension", ["x_f0"], formext, "the extension of the form is the one given")
E("fm_response_default", "fb: FormBuilder<O, String, O::Form>, x: String", RF, "Form::from(fb.response_default_ext(x))", gen="O: Ext", where="where O::ExpectedResponse: Default ")
E("dflt_er", "", "O::ExpectedResponse", "Default::default()", where="where O::ExpectedResponse: Default ")


def rdef(env):
    out = []
    a, b = env.val("fm0"), env.val("fm_response_default")
    from .link_form import ER, build
    for f in fields_of("wot_td::thing::Form"):
        if f == "response":
            diff(f, get(b, f), some(build(ER, env, content_type=S("x"), other=env.val("dflt_er"))), 1, out)
        else:
            diff(f, get(b, f), get(a, f), 1, out)
    return out


rule("P05", "FormBuilder::response_default_ext", ["fm0", "fm_response_default"], rdef, "the response has the content type and a default extension")

# ---- data schemas
DN = "dn: DataSchemaBuilder<Nil, A, B, ToExtend>, ud: D"
DR = "Result<DataSchema<Y<D>, A, B>, Error>"
for m, (ms, call) in SETS.items():
    for i, chain in enumerate(("dn.%s.ext(ud).finish_extend().bool()", "dn.ext(ud).%s.finish_extend().bool()", "dn.ext_with(move || ud).finish_extend().%s.bool()",
                               "dn.ext(ud).finish_extend().bool().%s")):
        E("x_d%d_%s" % (i, m), DN + ", " + ms, DR, "DataSchema::try_from(%s)" % (chain % call), gen="A, B, D")
    for i, w in ((1, "extension"), (2, "extension from a function and finishing the stage"), (3, "choosing the kind")):
        same("P02", "schema %s keeps %s" % (w, m), "x_d0_" + m, "x_d%d_%s" % (i, m), "setting %s before or after the stage gives the same schema" % m)
E("x_d0", DN, DR, "DataSchema::try_from(dn.ext(ud).finish_extend().bool())", gen="A, B, D")


def dext(env):
    return diff("other", get(payload(env.val("x_d0")), "other", "head"), S("ud"), okg(env.val("x_d0")), [])


rule("P04", "schema extension", ["x_d0"], dext, "the extension of the schema is the one given")

# ---- affordances
AFF = {"property": ("an_p: PN<U>", "an_p", ".finish_extend_data_schema().bool()"), "action": ("an_a: AN<U>", "an_a", ""), "event": ("an_e: EN<U>", "an_e", "")}
EXTS = {"ext": ("ux", {"property": "U::PropertyAffordance", "action": "U::ActionAffordance", "event": "U::EventAffordance"}, ("other",)),
        "ext_interaction": ("ui", "U::InteractionAffordance", ("interaction", "other")),
        "ext_data_schema": ("ud2", "U::DataSchema", ("data_schema", "other"))}
HRS = {"title": ("x: String", "title(x)"), "description": ("x: String", "description(x)"), "attype": ("x: String", "attype(x)"),
       "titles": ("l: String, v: String", "titles(move |z| z.add(l, v))"), "descriptions": ("l: String, v: String", "descriptions(move |z| z.add(l, v))"),
       "form": ("fy: FormBuilder<Y<U>, String, Cons<U::Form, Nil>>", "form(move |_| fy)"),
       "uri_variable": ("n2: String", "uri_variable(n2, move |d| d.ext(ud3).finish_extend().bool())")}
MORE = {"property": {"observable": ("fg: bool", "observable(fg)"), "unit": ("x: String", "unit(x)"), "format": ("x: String", "format(x)"),
                     "default_value": ("jv: Value", "default_value(jv)")},
        "action": {"safe": ("", "safe()"), "idempotent": ("", "idempotent()"), "synchronous": ("fg: bool", "synchronous(fg)"),
                   "input": ("ud3: U::DataSchema", "input(move |d| d.ext(ud3).finish_extend().number())"),
                   "output": ("ud3: U::DataSchema", "output(move |d| d.ext(ud3).finish_extend().number())")},
        "event": {m: ("ud3: U::DataSchema", m + "(move |d| d.ext(ud3).finish_extend().number())") for m in ("subscription", "data", "data_response", "cancellation")}}
YG = "U: ExtendableThing + Default"
for kind, (sig, b, tail) in AFF.items():
    exts = {k: (v[0] + ("_" + kind if k == "ext" else ""),) + v[1:] for k, v in EXTS.items() if kind == "property" or k != "ext_data_schema"}
    esig = "".join(", %s: %s" % (n, t[kind] if isinstance(t, dict) else t) for n, t, _ in exts.values())
    steps = {k: ".%s(%s)" % (k, n) for k, (n, t, _) in exts.items()}
    full = "".join(steps.values())
    start = "ThingBuilder::<Y<U>, _>::new(t).finish_extend().%s(n, move |_| %s).build()"
    base = "x_%s_0" % kind
    E(base, "t: String, n: String, " + sig + esig, "R<Y<U>>", start % (kind, b + full + tail), gen=YG)

    def there(env, base=base, kind=kind, exts=exts):
        from .affordance import onlyentry
        out = []
        v = env.val(base)
        o = onlyentry(FIELD[kind])(env, v)
        for k, (n, t, path) in exts.items():
            x = o
            for f in path:
                x = get(x, f)
            diff(".".join(path), get(x, "head"), S(n), okg(v), out)
        return out
    rule("P03", "%s extensions" % kind, [base], there, "each extension of the %s is the one given" % kind)
    for m, (ms, call) in {**HRS, **MORE[kind]}.items():
        if m == "uri_variable":
            ms += ", ud3: U::DataSchema"
        s_ = "t: String, n: String, " + sig + esig + (", " + ms if ms else "")
        last = "x_%s_last_%s" % (kind, m)
        E(last, s_, "R<Y<U>>", start % (kind, b + full + ".%s" % call + tail), gen=YG)
        for k, st in steps.items():
            pre = ""
            if m in ("unit", "format", "default_value"):       # these need the finished schema extension
                if k == "ext_data_schema":
                    continue
                pre = steps["ext_data_schema"]
            others = "".join(x for y, x in steps.items() if y != k and x != pre)
            e1, e2 = "x_%s_%s_%s_a" % (kind, k, m), "x_%s_%s_%s_b" % (kind, k, m)
            E(e1, s_, "R<Y<U>>", start % (kind, b + pre + ".%s" % call + st + others + tail), gen=YG)
            same("P02", "%s %s keeps %s" % (kind, k, m), e1, last, "setting %s before or after the extension gives the same %s" % (m, kind))
            E(e2, s_, "R<Y<U>>", start % (kind, b + pre + ".%s" % call + others + st.replace("(", "_with(move || ") + tail), gen=YG)
            same("P02", "%s %s from a function keeps %s" % (kind, k, m), e2, last, "setting %s before or after the extension gives the same %s" % (m, kind))
        if kind == "property":
            e3 = "x_%s_kind_%s" % (kind, m)
            E(e3, s_, "R<Y<U>>", start % (kind, b + full + tail + ".%s" % call), gen=YG)
            same("P02", "property kind keeps " + m, e3, last, "setting %s before or after choosing the kind gives the same property" % m)
