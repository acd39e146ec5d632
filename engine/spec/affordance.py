"""Properties, actions and events (P03)."""
from core import *
from .thing import *
from .link_form import NEW, FRESH, accepts, build, AER
from .schema import HR, DSM, SPEC, KINDS, SCH, frame2, leaves, gp, INN, lit, vix, DST

PRELUDE.append("""
pub type IA<O> = <O as ExtendableThing>::InteractionAffordance;
pub type PA<O> = <O as ExtendableThing>::PropertyAffordance;
pub type AA<O> = <O as ExtendableThing>::ActionAffordance;
pub type EA<O> = <O as ExtendableThing>::EventAffordance;
pub type PB<O, S> = PropertyAffordanceBuilder<O, S, IA<O>, PA<O>>;
pub type AB<O> = ActionAffordanceBuilder<O, IA<O>, AA<O>>;
pub type EB<O> = EventAffordanceBuilder<O, IA<O>, EA<O>>;
""")

FIELD = {"property": "properties", "action": "actions", "event": "events"}
PATH = {"property": "PropertyAffordance", "action": "ActionAffordance", "event": "EventAffordance"}
PARTIAL = {k: (ty % "PDB<O>") if ty else None for k, (ty, pn, cons, var) in KINDS.items()}


def onlyentry(field, key="n"):
    """The only affordance of the thing, stored under the given name."""
    def root(env, v):
        x = get(payload(v), field)
        g = okg(v)
        if not unsat(AND(g, NOT(is_variant(x, OPTION, 1)))):
            gate(x, ("B", g))
            raise Fail("the %s are missing although one was added" % field)
        m = simp(payload(x, 1, OPTION), g)
        if m.op != "map" or m.a[0] is not None or len(m.a[1]) != 1:
            gate(m)
            raise Fail("the %s do not hold exactly the added one: %s" % (field, show(m, 3)[:200]))
        c, k, val = m.a[1][0]
        if not unsat(AND(g, NOT(c))):
            gate(("B", AND(g, NOT(c))))
            raise Fail("the added one is not always in the %s" % field)
        if not unsat(AND(g, NOT(veq(k, S(key))))):
            gate(k)
            raise Fail("the %s are not stored under the given name but under %s" % (field, show(k, 3)[:100]))
        return val
    return root


SUBS = {"property": (("interaction",), ("data_schema",)), "action": (("interaction",),), "event": (("interaction",),)}
ARG = {"action": ("ab", "AB<O>"), "event": ("eb", "EB<O>")}
PROPS = {}
for k, ty in PARTIAL.items():
    if ty:
        PROPS[k] = ("p_" + KINDS[k][1], "PB<O, %s>" % ty)


def aff(kind, a, call=""):
    return NEW + ".%s(n, move |_| %s%s).build()" % (kind, a, call)


TN = "t: String, n: String, "


def member(what, entry, kind, a, aty, m, sig, call, ch, accept=None):
    base = "%s_0" % what
    E(base, TN + "%s: %s" % (a, aty), "R<O>", aff(kind, a), gen=FRESH)
    n = "%s_%s" % (what, m)
    E(n, TN + "%s: %s%s" % (a, aty, sig), "R<O>", aff(kind, a, "." + call), gen=FRESH)
    frame2("P03", "%s::%s" % (entry, m), base, n, onlyentry(FIELD[kind]), SUBS[kind], ch, accept)


def under(prefixes, ch):
    """The change at each of the given sub-objects."""
    return {pre + p: f for pre in prefixes for p, f in ch.items()}


FORMV = "fm0"
ALLK = [("action", "af_a") + ARG["action"] + ("action",), ("event", "af_e") + ARG["event"] + ("event",)]
for k, (a, aty) in PROPS.items():
    ALLK.append(("property", "af_p_" + k, a, aty, "%s property" % k))
for kind, what, a, aty, entry in ALLK:
    pre = [("interaction",)] + ([("data_schema",)] if kind == "property" else [])
    for m, (sig, call, ch) in HR.items():
        member(what, entry, kind, a, aty, m, sig, call, under(pre, ch))
    for m in ("titles", "descriptions"):
        E("%s_%s0" % (what, m), TN + "%s: %s" % (a, aty), "R<O>", aff(kind, a, ".%s(|z| z)" % m), gen=FRESH)
        E("%s_%s1" % (what, m), TN + "%s: %s, l: String, v: String" % (a, aty), "R<O>", aff(kind, a, ".%s(move |z| z.add(l, v))" % m), gen=FRESH)
        frame2("P03", "%s::%s (none)" % (entry, m), what + "_0", "%s_%s0" % (what, m), onlyentry(FIELD[kind]), SUBS[kind],
               under(pre, {(m,): lambda old, env: some(mkmap(None, []))}), "weaker")
        frame2("P03", "%s::%s" % (entry, m), "%s_%s0" % (what, m), "%s_%s1" % (what, m), onlyentry(FIELD[kind]), SUBS[kind],
               under(pre, {(m,): lambda old, env: some(mkmap(None, [(1, payload(env.val("lang_parse")), S("v"))]))}),
               lambda env, gb: AND(gb, okg(env.val("lang_parse"))))
    # forms and URI variables
    member(what, entry, kind, a, aty, "form", ", fb: FormBuilder<O, String, O::Form>", "form(move |_| fb)",
           {("interaction", "forms"): lambda old, env: app(old, env.val("fm0"))}, "stronger")
    if kind == "property":
        for m, (sig, call, ch) in DSM.items():
            member(what, entry, kind, a, aty, m, sig, call, under([("data_schema",)], ch))
        k = entry.split()[0]
        if k != "string":
            for m, (sig, call, ch) in SPEC.get(k, {}).items():
                member(what, entry, kind, a, aty, m, sig, call, under([("data_schema",)], ch), "any" if k != "enum" else None)
        member(what, entry, kind, a, aty, "observable", ", fg: bool", "observable(fg)", {("observable",): lambda old, env: some(S("fg"))})
for m in ("safe", "idempotent"):
    member("af_a", "action", "action", "ab", "AB<O>", m, "", m + "()", {(m,): lambda old, env: TRUE})
member("af_a", "action", "action", "ab", "AB<O>", "synchronous", ", fg: bool", "synchronous(fg)", {("synchronous",): lambda old, env: some(S("fg"))})
SCHEMAS = {"action": ("input", "output"), "event": ("subscription", "data", "cancellation", "data_response")}
for kind, ms in SCHEMAS.items():
    a, aty = ARG[kind]
    for m in ms:
        for k in INN:
            ty, pn = KINDS[k][0] % "DB<O>", KINDS[k][1]
            what = "af_" + kind[0]
            n = "%s_%s_%s" % (what, m, k)
            E(n, TN + "%s: %s, %s: %s" % (a, aty, pn, ty), "R<O>", aff(kind, a, ".%s(move |_| %s)" % (m, pn)), gen=FRESH)
            frame2("P03", "%s::%s of kind %s" % (kind, m, k), what + "_0", n, onlyentry(FIELD[kind]), SUBS[kind],
                   {(m,): lambda old, env, k=k: some(payload(env.val("ds_" + k)))}, "any")
