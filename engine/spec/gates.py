"""What a description is refused for: names, operations, duplicates (P08, P09, P12, P13) and the errors (P15)."""
import models
from core import *
from .thing import *
from .link_form import NEW, FRESH, accepts, build
from .schema import lit, vix
from .security import TH

ERR = "wot_td::builder::Error"
FO = "wot_td::thing::FormOperation"
FC = "wot_td::builder::FormContext"
AT = "wot_td::builder::AffordanceType"


def eq(a, b):
    return veq(S(a), S(b))


def inn(x, *ks):
    return bdd.anyn(eq(x, k) for k in ks)


def err(name, *xs):
    return lit(ERR, name, *xs)


def uncow(v):
    return v


def gate_rule(pid, name, entry, ok, errors=None, assume=None, what="", tier="quick"):
    """The entry point succeeds exactly under ok(env) (within assume); where it fails,
    its error is one of errors(env): [(condition, error)] (P15)."""
    def fn(env):
        v = env.val(entry)
        g, w = okg(v), ok(env)
        a = assume(env) if assume else 1
        out = guard_diff(AND(a, AND(g, NOT(w))), [], "accepted although it must be rejected")
        guard_diff(AND(a, AND(w, NOT(g))), out, "rejected although it must be accepted")
        return out
    rule(pid, name, [entry], fn, what or "the description is accepted exactly when it respects the constraint", tier)
    if errors:
        def fe(env):
            v = env.val(entry)
            a = assume(env) if assume else 1
            es = errors(env)
            e = payload(v, 1)
            g = AND(a, NOT(okg(v)))
            # every error value found must be one of the allowed ones under its condition
            out = []
            guard_diff(AND(g, NOT(bdd.anyn(c for c, _ in es))), out, "refused without a violated constraint", "errors")
            for h, x in cases(e):
                c = AND(g, h)
                if x is UNDEF or unsat(c):
                    continue
                good = bdd.anyn(AND(cc, veq(x, y)) for cc, y in es)
                bad = AND(c, NOT(good))
                if not unsat(bad):
                    gate(x, ("B", bad))
                    out.append(("error", "found %s where none of the violated constraints gives it: %s" % (show(x, 3)[:200], showb(bad, 3)[:200])))
            return out
        rule("P15", pid + " " + name, [entry], fe, "the error names the violated constraint and the offender", tier)


SEC = ".security(move |z| z.basic().with_key(%s))"
T0 = "t: String, h: String, n: String"
# contexts of a form: chain -> source
OPS = {"thing": ".op(FormOperation::ReadAllProperties)", "property": "", "action": "", "event": ""}


def aff(ctx, inner, n="n"):
    """A call adding an object of the context with the given calls on it."""
    if ctx == "property":
        return ".property(%s, move |p| p.finish_extend_data_schema().bool()%s)" % (n, inner)
    return ".%s(%s, move |a| a%s)" % (ctx, n, inner)


def forms(ctx, *chains, n="n"):
    if ctx == "thing":
        return "".join(".form(move |f| f.href(\"h%s\")%s)" % (i, OPS[ctx] + c) for i, c in zip(HS, chains))
    return aff(ctx, "".join(".form(move |f| f.href(\"h%s\")%s)" % (i, c) for i, c in zip(HS, chains)), n)


HS = ("", "2", "3")
CTX = ("thing", "property", "action", "event")
T1 = T0 + ", h2: String"


def use(name, sig, chain, tier="quick"):
    E(name, sig, "R<O>", NEW + chain + ".build()", gen=FRESH, tier=tier)
    return name


# ---------------------------------------------------------------- P08: security names
undef = lambda *xs: (lambda env: [(1, err("UndefinedSecurity", S(x))) for x in xs])
for ctx in CTX:
    e = use("g8_%s_1" % ctx, T0 + ", k: String, s: String", SEC % "k" + forms(ctx, ".security(s)"))
    gate_rule("P08", "%s form, one name" % ctx, e, lambda env: eq("s", "k"), undef("s"))
    e = use("g8_%s_none" % ctx, T0 + ", s: String", forms(ctx, ".security(s)"))
    gate_rule("P08", "%s form, nothing declared" % ctx, e, lambda env: 0, undef("s"))
    # the declaration comes later
    e = use("g8_%s_late" % ctx, T0 + ", k: String, s: String", forms(ctx, ".security(s)") + SEC % "k")
    gate_rule("P08", "%s form, declared afterwards" % ctx, e, lambda env: eq("s", "k"), undef("s"))
    e = use("g8_%s_2" % ctx, T0 + ", k: String, k2: String, s: String, s2: String",
            SEC % "k" + SEC % "k2" + forms(ctx, ".security(s).security(s2)"))
    gate_rule("P08", "%s form, two names of two declared" % ctx, e, lambda env: AND(inn("s", "k", "k2"), inn("s2", "k", "k2")),
              lambda env: [(NOT(inn("s", "k", "k2")), err("UndefinedSecurity", S("s"))), (NOT(inn("s2", "k", "k2")), err("UndefinedSecurity", S("s2")))],
              assume=lambda env: NOT(eq("k", "k2")))
    e = use("g8_%s_f2" % ctx, T1 + ", k: String, s: String, s2: String", SEC % "k" + forms(ctx, ".security(s)", ".security(s2)"))
    gate_rule("P08", "%s, two forms" % ctx, e, lambda env: AND(eq("s", "k"), eq("s2", "k")),
              lambda env: [(NOT(eq("s", "k")), err("UndefinedSecurity", S("s"))), (NOT(eq("s2", "k")), err("UndefinedSecurity", S("s2")))])
    e = use("g8_%s_f3" % ctx, T1 + ", k: String, s: String", SEC % "k" + forms(ctx, "", ".security(s)"))
    gate_rule("P08", "%s, a form without names before one with a name" % ctx, e, lambda env: eq("s", "k"), undef("s"))
    if ctx != "thing":
        e = use("g8_%s_a2" % ctx, T1 + ", n2: String, k: String, s: String, s2: String",
                SEC % "k" + forms(ctx, ".security(s)") + forms(ctx, ".security(s2)", n="n2"))
        gate_rule("P08", "two objects of kind %s" % ctx, e, lambda env: AND(eq("s", "k"), eq("s2", "k")), undef("s", "s2"),
                  assume=lambda env: NOT(eq("n", "n2")))
    # anything accepted by a form of any state uses declared names only: see the per-form rules above
    e = use("g8_%s_sym" % ctx, T0 + ", k: String, s: String, fb: FormBuilder<O, String, O::Form>",
            SEC % "k" + (".form(move |_| fb.security(s))" if ctx == "thing" else aff(ctx, ".form(move |_| fb.security(s))")))

    def symf(env, e=e):
        return guard_diff(AND(okg(env.val(e)), NOT(eq("s", "k"))), [], "accepted although it must be rejected")
    rule("P08", "%s form, one more name on any form" % ctx, [e], symf, "a name added to any form must be declared")

for op in ("one_of", "all_of"):
    e = use("g8_combo_" + op, "t: String, k: String, x: String, y: String, c: String",
            SEC % "k" + ".security(move |z| z.combo().%s([x, y]).with_key(c))" % op)
    # a combination may name itself as far as the declarations are concerned
    gate_rule("P08", "combination %s" % op, e, lambda env: AND(inn("x", "k", "c"), inn("y", "k", "c")),
              lambda env: [(NOT(inn("x", "k", "c")), err("MissingSchemaDefinition", S("x"))), (NOT(inn("y", "k", "c")), err("MissingSchemaDefinition", S("y"))),
                           (NOT(inn("x", "k", "c")), err("UndefinedSecurity", S("x"))), (NOT(inn("y", "k", "c")), err("UndefinedSecurity", S("y")))],
              assume=lambda env: NOT(eq("k", "c")))
    e = use("g8_combo2_" + op, "t: String, k: String, k2: String, x: String, c: String",
            ".security(move |z| z.combo().%s([x]).with_key(c))" % op + SEC % "k" + SEC % "k2")
    gate_rule("P08", "combination %s declared before its members" % op, e, lambda env: inn("x", "k", "c", "k2"),
              assume=lambda env: bdd.alln([NOT(eq("k", "c")), NOT(eq("k2", "c")), NOT(eq("k", "k2"))]))
    for m, call in (("push", "push(y)"), ("extend", "extend([y])")):
        e = use("g8_combo_%s_%s" % (op, m), "t: String, k: String, x: String, y: String, c: String",
                SEC % "k" + ".security(move |z| z.combo().%s([x]).%s.with_key(c))" % (op, call))
        gate_rule("P08", "combination %s, %s" % (op, m), e, lambda env: AND(inn("x", "k", "c"), inn("y", "k", "c")),
                  assume=lambda env: NOT(eq("k", "c")))
e = use("g8_combo_two", "t: String, k: String, x: String, y: String, c: String, c2: String",
        SEC % "k" + ".security(move |z| z.combo().one_of([x]).with_key(c)).security(move |z| z.combo().all_of([y]).with_key(c2))")
gate_rule("P08", "two combinations", e, lambda env: AND(inn("x", "k", "c", "c2"), inn("y", "k", "c", "c2")),
          assume=lambda env: bdd.alln([NOT(eq("k", "c")), NOT(eq("k", "c2")), NOT(eq("c", "c2"))]))


def required_declared(env):
    """The names required by the thing itself are names of definitions."""
    out = []
    v = env.val("g8_required")
    g = okg(v)
    guard_diff(AND(g, eq("k", "k2")), out, "accepted although the two definitions share a name")
    diff("security", get(payload(v), "security"), seqof(S("k"), S("k2")), AND(g, NOT(eq("k", "k2"))), out)
    guard_diff(AND(NOT(g), NOT(eq("k", "k2"))), out, "refused although it is fine")
    return out


use("g8_required", "t: String, k: String, k2: String", ".security(move |z| z.basic().with_key(k).required()).security(move |z| z.digest().with_key(k2).required())")
rule("P08", "names required by the thing", ["g8_required"], required_declared, "exactly the names of the definitions marked as required")

# ---------------------------------------------------------------- P09: operations
ALLOWED = {
    "property": ["ReadProperty", "WriteProperty", "ObserveProperty", "UnobserveProperty"],
    "action": ["InvokeAction", "QueryAction", "CancelAction"],
    "event": ["SubscribeEvent", "UnsubscribeEvent"],
    "thing": ["ReadAllProperties", "WriteAllProperties", "ReadMultipleProperties", "WriteMultipleProperties", "ObserveAllProperties",
              "UnobserveAllProperties", "SubscribeAllEvents", "UnsubscribeAllEvents", "QueryAllActions"],
}
CTXN = {"property": "Property", "action": "Action", "event": "Event", "thing": "Thing"}


def allowed(ctx, x):
    names = [v["name"] for v in ADTS.get(FO, {"variants": []})["variants"]]
    known = set(sum(ALLOWED.values(), []))
    if set(names) != known:
        raise Undecided("the operations are not those of the vocabulary the rule knows: " + ", ".join(sorted(set(names) ^ known)))
    return bdd.anyn(is_variant(S(x), FO, names.index(n)) for n in ALLOWED[ctx])


def opform(ctx, *chains, n="n"):
    return aff(ctx, "".join(".form(move |f| f.href(\"h%s\")%s)" % (i, c) for i, c in zip(HS, chains)), n) if ctx != "thing" else \
        "".join(".form(move |f| f.href(\"h%s\")%s)" % (i, c) for i, c in zip(HS, chains))


def badop(ctx, x):
    return lambda env: (NOT(allowed(ctx, x)), err("InvalidOpInForm", lit(FC, CTXN[ctx]), S(x)))


def named(fields, *xs):
    return xs


for ctx in CTX:
    ok1 = lambda env, ctx=ctx: allowed(ctx, "fo")
    ok2 = lambda env, ctx=ctx: AND(allowed(ctx, "fo"), allowed(ctx, "fo2"))
    er1 = lambda env, ctx=ctx: [badop(ctx, "fo")(env)]
    er2 = lambda env, ctx=ctx: [badop(ctx, "fo")(env), badop(ctx, "fo2")(env)]
    e = use("g9_%s_1" % ctx, T0 + ", fo: FormOperation", opform(ctx, ".op(fo)"))
    gate_rule("P09", "%s form, one operation" % ctx, e, ok1, er1)
    e = use("g9_%s_2" % ctx, T0 + ", fo: FormOperation, fo2: FormOperation", opform(ctx, ".op(fo).op(fo2)"))
    gate_rule("P09", "%s form, two operations" % ctx, e, ok2, er2)
    e = use("g9_%s_3" % ctx, T0 + ", fo: FormOperation, fo2: FormOperation, fo3: FormOperation", opform(ctx, ".op(fo).op(fo2).op(fo3)"))
    gate_rule("P09", "%s form, three operations" % ctx, e, lambda env, ctx=ctx: bdd.alln(allowed(ctx, x) for x in ("fo", "fo2", "fo3")))
    e = use("g9_%s_f2" % ctx, T1 + ", fo: FormOperation, fo2: FormOperation", opform(ctx, ".op(fo)", ".op(fo2)"))
    gate_rule("P09", "%s, two forms" % ctx, e, ok2, er2)
    e = use("g9_%s_before" % ctx, "t: String, h: String, n: String, fo: FormOperation",
            ".form(move |f| f.op(fo).href(h))" if ctx == "thing" else aff(ctx, ".form(move |f| f.op(fo).href(h))"))
    gate_rule("P09", "%s form, operation before target" % ctx, e, ok1)
    e = use("g9_%s_none" % ctx, T0, opform(ctx, ""))
    gate_rule("P09", "%s form, no operation" % ctx, e, lambda env, ctx=ctx: 0 if ctx == "thing" else 1,
              (lambda env: [(1, err("MissingOpInForm"))]) if ctx == "thing" else None)
    e = use("g9_%s_sym" % ctx, T0 + ", fo: FormOperation, fb: FormBuilder<O, String, O::Form>",
            ".form(move |_| fb.op(fo))" if ctx == "thing" else aff(ctx, ".form(move |_| fb.op(fo))"))

    def symo(env, e=e, ctx=ctx):
        return guard_diff(AND(okg(env.val(e)), NOT(allowed(ctx, "fo"))), [], "accepted although it must be rejected")
    rule("P09", "%s form, one more operation on any form" % ctx, [e], symo, "an operation added to any form must be allowed in its context")
    if ctx == "thing":
        e = use("g9_thing_some_none", T1 + ", fo: FormOperation", opform(ctx, ".op(fo)", ""))
        gate_rule("P09", "thing, a form with and one without operations", e, lambda env: 0,
                  lambda env: [(1, err("MissingOpInForm")), badop("thing", "fo")(env)])
        e = use("g9_thing_none_some", T1 + ", fo: FormOperation", opform(ctx, "", ".op(fo)"))
        gate_rule("P09", "thing, a form without and one with operations", e, lambda env: 0)
    else:
        e = use("g9_%s_f3" % ctx, T1 + ", fo: FormOperation", opform(ctx, "", ".op(fo)"))
        gate_rule("P09", "%s, a form without operations before one with" % ctx, e, ok1)
        e = use("g9_%s_a2" % ctx, T1 + ", n2: String, fo: FormOperation, fo2: FormOperation", opform(ctx, ".op(fo)") + opform(ctx, ".op(fo2)", n="n2"))
        gate_rule("P09", "two objects of kind %s" % ctx, e, ok2, er2, assume=lambda env: NOT(eq("n", "n2")))

# ---------------------------------------------------------------- P12: additional responses
SD = ".schema_definition(%s, move |d| d.finish_extend().bool())"
AR = ".additional_response(move |r| r.schema(%s))"
missing = lambda *xs: (lambda env: [(1, err("MissingSchemaDefinition", S(x))) for x in xs])
for ctx in CTX:
    e = use("g12_%s_1" % ctx, T0 + ", k: String, s: String", SD % "k" + forms(ctx, AR % "s"))
    gate_rule("P12", "%s form, one response" % ctx, e, lambda env: eq("s", "k"), missing("s"))
    e = use("g12_%s_none" % ctx, T0 + ", s: String", forms(ctx, AR % "s"))
    gate_rule("P12", "%s form, nothing declared" % ctx, e, lambda env: 0, missing("s"))
    e = use("g12_%s_late" % ctx, T0 + ", k: String, s: String", forms(ctx, AR % "s") + SD % "k")
    gate_rule("P12", "%s form, declared afterwards" % ctx, e, lambda env: eq("s", "k"), missing("s"))
    e = use("g12_%s_2" % ctx, T0 + ", k: String, k2: String, s: String, s2: String", SD % "k" + SD % "k2" + forms(ctx, AR % "s" + AR % "s2"))
    gate_rule("P12", "%s form, two responses" % ctx, e, lambda env: AND(inn("s", "k", "k2"), inn("s2", "k", "k2")), missing("s", "s2"))
    e = use("g12_%s_mix" % ctx, T0 + ", k: String, s: String, c: String", SD % "k" + forms(ctx, ".additional_response(move |r| r.content_type(c).success())" + AR % "s"))
    gate_rule("P12", "%s form, a response without schema first" % ctx, e, lambda env: eq("s", "k"), missing("s"))
    e = use("g12_%s_f2" % ctx, T1 + ", k: String, s: String, s2: String", SD % "k" + forms(ctx, AR % "s", AR % "s2"))
    gate_rule("P12", "%s, two forms" % ctx, e, lambda env: AND(eq("s", "k"), eq("s2", "k")), missing("s", "s2"))
    e = use("g12_%s_no" % ctx, T0 + ", k: String, c: String", SD % "k" + forms(ctx, ".additional_response(move |r| r.content_type(c))"))
    gate_rule("P12", "%s form, a response without schema" % ctx, e, lambda env: 1)
    if ctx != "thing":
        e = use("g12_%s_a2" % ctx, T1 + ", n2: String, k: String, s: String, s2: String",
                SD % "k" + forms(ctx, AR % "s") + forms(ctx, AR % "s2", n="n2"))
        gate_rule("P12", "two objects of kind %s" % ctx, e, lambda env: AND(eq("s", "k"), eq("s2", "k")), missing("s", "s2"),
                  assume=lambda env: NOT(eq("n", "n2")))
    e = use("g12_%s_sym" % ctx, T0 + ", k: String, s: String, fb: FormBuilder<O, String, O::Form>",
            SD % "k" + (".form(move |_| fb%s)" % (AR % "s") if ctx == "thing" else aff(ctx, ".form(move |_| fb%s)" % (AR % "s"))))

    def symr(env, e=e):
        return guard_diff(AND(okg(env.val(e)), NOT(eq("s", "k"))), [], "accepted although it must be rejected")
    rule("P12", "%s form, one more response on any form" % ctx, [e], symr, "the schema of a response added to any form must be declared")

# ---------------------------------------------------------------- P13: duplicates
one = {"property": lambda n: ".property(%s, move |p| p.finish_extend_data_schema().bool())" % n,
       "action": lambda n: ".action(%s, move |a| a)" % n, "event": lambda n: ".event(%s, move |a| a)" % n,
       "security": lambda n: ".security({ let q = %s; move |z| z.basic().with_key(q) })" % n}


def dup(kind, x):
    return err("DuplicatedSecurityDefinition", S(x)) if kind == "security" else err("DuplicatedAffordance", lit(AT, CTXN[kind]), S(x))


N3 = "t: String, n: String, n2: String, n3: String"
for kind, mk1 in one.items():
    d2 = lambda env: NOT(eq("n", "n2"))
    d3 = lambda env: bdd.alln([NOT(eq("n", "n2")), NOT(eq("n", "n3")), NOT(eq("n2", "n3"))])
    e = use("g13_%s_2" % kind, N3, mk1("n") + mk1("n2"))
    gate_rule("P13", "two of kind %s" % kind, e, d2, lambda env, kind=kind: [(1, dup(kind, "n"))])
    e = use("g13_%s_3" % kind, N3, mk1("n") + mk1("n2") + mk1("n3"))
    gate_rule("P13", "three of kind %s" % kind, e, d3)
    e = use("g13_%s_mix" % kind, N3, mk1("n") + "".join(f("n3.clone()") for k, f in one.items() if k != kind) + mk1("n2"))
    gate_rule("P13", "two of kind %s with the other kinds between them" % kind, e, d2, lambda env, kind=kind: [(1, dup(kind, "n"))])
    e = use("g13_%s_same" % kind, N3, "".join(f("n.clone()") for f in one.values()) + mk1("n2"))
    gate_rule("P13", "one name in all kinds, then another %s" % kind, e, d2)
# contents do not matter: the same and different contents, and objects of any state
SCH = {"nosec": "no_sec()", "auto": "auto()", "basic": "basic()", "digest": "digest()", "bearer": "bearer()", "psk": "psk()",
       "oauth2": "oauth2(d2.clone())", "apikey": "apikey()", "custom": "custom(d2.clone())"}
RICH = ".description(d.clone()).attype(d2.clone()).proxy(d2.clone())"
ND = "t: String, n: String, n2: String, d: String, d2: String"
for s, c in SCH.items():
    one_ = lambda n, c=c: ".security({ let (q, d, d2) = (%s, d.clone(), d2.clone()); move |z| z.%s%s.with_key(q) })" % (n, c, RICH)
    e = use("g13_rich_%s" % s, ND, one_("n") + one_("n2"))
    gate_rule("P13", "two %s schemes of the same contents" % s, e, lambda env: NOT(eq("n", "n2")), lambda env: [(1, dup("security", "n"))])
    one_ = lambda c=c: ".security({ let (d, d2) = (d.clone(), d2.clone()); move |z| z.%s%s })" % (c, RICH)
    if s != "custom":
        e = use("g13_dn_%s" % s, ND, one_() + one_())
        gate_rule("P13", "two %s schemes under the default name" % s, e, lambda env: 0)
for kind in ("property", "action", "event"):
    o = {"property": lambda n: ".property({ %s }, { let (d, d2) = (d.clone(), d2.clone()); move |p| p.finish_extend_data_schema().bool().title(d.clone()).description(d2).uri_variable(d, |u| u.finish_extend().bool()) })" % n,
         "action": lambda n: ".action({ %s }, { let (d, d2) = (d.clone(), d2.clone()); move |p| p.title(d.clone()).description(d2).uri_variable(d, |u| u.finish_extend().bool()) })" % n,
         "event": lambda n: ".event({ %s }, { let (d, d2) = (d.clone(), d2.clone()); move |p| p.title(d.clone()).description(d2).uri_variable(d, |u| u.finish_extend().bool()) })" % n}[kind]
    e = use("g13_rich_%s" % kind, ND, o("n") + o("n2"))
    gate_rule("P13", "two of kind %s with the same contents" % kind, e, lambda env: NOT(eq("n", "n2")), lambda env, kind=kind: [(1, dup(kind, "n"))])
SYMD = {"security": ("sb: SecuritySchemeBuilder<BasicSecurityScheme>, sb2: SecuritySchemeBuilder<BasicSecurityScheme>", ".security(move |_| sb.with_key(n))", ".security(move |_| sb2.with_key(n2))"),
        "action": ("ab: ActionAffordanceBuilder<O, O::InteractionAffordance, O::ActionAffordance>, ab2: ActionAffordanceBuilder<O, O::InteractionAffordance, O::ActionAffordance>",
                   ".action(n, move |_| ab)", ".action(n2, move |_| ab2)")}
for kind, (sig, a, b) in SYMD.items():
    e = use("g13_sym_%s" % kind, "t: String, n: String, n2: String, " + sig, a + b)

    def symd(env, e=e):
        return guard_diff(AND(okg(env.val(e)), eq("n", "n2")), [], "accepted although it must be rejected")
    rule("P13", "two of kind %s of any state" % kind, [e], symd, "a repeated name is refused whatever the two objects contain")


# ---------------------------------------------------------------- any description at all, of any size
E("any_build", "b: ThingBuilder<O, Extended>", "R<O>", "b.build()")
DFO = "wot_td::thing::DefaultedFormOperations"
SST = "wot_td::thing::SecuritySchemeSubtype"
KST = "wot_td::thing::KnownSecuritySchemeSubtype"
CST = "wot_td::thing::ComboSecurityScheme"
SUB = "wot_td::thing::DataSchemaSubtype"


def some_item(v, cond):
    """Guard: some item of the sequence v satisfies cond."""
    out = 0
    for h, x in cases(v):
        for p in [] if x is UNDEF else x.a[0].a if x.op == "mapof" else parts_of(x):
            if p.op == "pi":
                c = AND(p.a[0], cond(p.a[1]))
            elif p.op == "ps":
                c = AND(p.a[0], exists(p.a[1], cond(mk("elem", p.a[1]))))
            elif p.op == "pc":
                c = AND(p.a[0], exists(p.a[1], some_item(mk("seq", *p.a[2]), cond)))
            else:
                raise Undecided("a list the rule cannot range over")
            out = OR(out, AND(h, c))
    return out


def in_option(v, cond):
    """Guard: the option is set and its value satisfies cond."""
    out = 0
    for h, x in cases(v):
        if x is not UNDEF:
            g = is_variant(x, OPTION, 1)
            if g != 0:
                out = OR(out, AND(AND(h, g), cond(payload(x, 1, OPTION))))
    return out


def opt_items(v, cond):
    return in_option(v, lambda s: some_item(s, cond))


def has_key(m, k):
    return models.map_contains(m, k)


def has_key_opt(v, k):
    """Guard: the map of the option, where the option is set, has the key (an empty map may be left out)."""
    return bdd.anyn(has_key(payload(x, 1, OPTION), k) for _, x in cases(v) if x is not UNDEF and is_variant(x, OPTION, 1) != 0)


def objects_of(td, ctx, cond):
    """Guard: some form of the context satisfies cond."""
    if ctx == "thing":
        return opt_items(get(td, "forms"), cond)
    f = {"property": "properties", "action": "actions", "event": "events"}[ctx]
    return opt_items(get(td, f), lambda kv: some_item(get(proj(kv, 1), "interaction", "forms"), cond))


def anyrule(pid, name, cond, what):
    def fn(env):
        v = env.val("any_build")
        d = AND(okg(v), cond(payload(v)))
        if unsat(d):
            return []
        l = terms.limits(("B", d)) - SHARED_LIMITS - terms.REC        # the outcome of the recursion into schemas is free
        if l:
            raise Undecided("the analysis does not open " + ", ".join(sorted(l)))
        return [("acceptance", "accepted although it must be rejected: " + showb(d, 4)[:300])]
    rule(pid, name + ", any description", ["any_build"], fn, what)


def variant_case(v, path, name, cond):
    """Guard: the value is of the variant and its contents satisfy cond."""
    n = vix(path, name)
    out = 0
    for h, x in cases(v):
        if x is not UNDEF:
            g = AND(h, is_variant(x, path, n))
            if g != 0:
                out = OR(out, AND(g, cond(payload(x, n, path))))
    return out


def op_in(ctx, x):
    names = [v["name"] for v in ADTS.get(FO, {"variants": []})["variants"]]
    if set(names) != set(sum(ALLOWED.values(), [])):
        raise Undecided("the operations are not those of the vocabulary the rule knows")
    return bdd.anyn(is_variant(x, FO, names.index(n)) for n in ALLOWED[ctx])


for ctx in CTX:
    anyrule("P08", "names of %s forms" % ctx,
            lambda td, ctx=ctx: objects_of(td, ctx, lambda f: opt_items(get(f, "security"), lambda s: NOT(has_key(get(td, "security_definitions"), s)))),
            "every security name of every form is a definition, however many objects, forms, names and definitions there are")
    anyrule("P09", "operations of %s forms" % ctx,
            lambda td, ctx=ctx: objects_of(td, ctx, lambda f: variant_case(get(f, "op"), DFO, "Custom",
                                                                          lambda l: some_item(l, lambda o: NOT(op_in(ctx, o))))),
            "every operation of every form is allowed in its context, however many there are")
    anyrule("P12", "schemas of the additional responses of %s forms" % ctx,
            lambda td, ctx=ctx: objects_of(td, ctx, lambda f: opt_items(get(f, "additional_responses"), lambda r: in_option(
                get(r, "schema"), lambda s: NOT(has_key_opt(get(td, "schema_definitions"), s))))),
            "every schema of every additional response is a definition, however many there are")
anyrule("P09", "thing forms name an operation",
        lambda td: objects_of(td, "thing", lambda f: is_variant(get(f, "op"), DFO, vix(DFO, "Default"))),
        "no form of the thing is without an operation")
for cv in ("OneOf", "AllOf"):
    anyrule("P08", "members of %s combinations" % cv,
            lambda td, cv=cv: some_item(get(td, "security_definitions"), lambda kv: variant_case(
                get(proj(kv, 1), "subtype"), SST, "Known", lambda k: variant_case(k, KST, "Combo", lambda c: variant_case(
                    c, CST, cv, lambda l: some_item(l, lambda s: NOT(has_key(get(td, "security_definitions"), s))))))),
            "every member of every combination is a definition, however many there are")


def novar(v):
    return in_option(get(v, "subtype"), lambda s: OR(is_variant(s, SUB, vix(SUB, "Object")), is_variant(s, SUB, vix(SUB, "Array"))))


anyrule("P11", "uri variables of the thing", lambda td: opt_items(get(td, "uri_variables"), lambda kv: novar(proj(kv, 1))),
        "no uri variable is an object or an array, however many there are")
for ctx in CTX[1:]:
    f = {"property": "properties", "action": "actions", "event": "events"}[ctx]
    anyrule("P11", "uri variables of %s objects" % ctx, lambda td, f=f: opt_items(get(td, f), lambda kv: opt_items(
        get(proj(kv, 1), "interaction", "uri_variables"), lambda u: novar(proj(u, 1)))),
        "no uri variable is an object or an array, however many there are")


def repeated(m):
    """Guard: two of the entries the map is made of have one key."""
    out = 0
    for h, x in cases(m):
        if x is UNDEF or x.op != "mapof" or len(x.a[0].a) != 1:
            raise Undecided("the rule does not see what the map is made of")
        p = x.a[0].a[0]
        if p.op == "pc" and len(p.a[2]) == 1 and p.a[2][0].op == "pi":
            out = OR(out, AND(h, exists(p.a[1], bdd.atom(mk("earlier", proj(p.a[2][0].a[1], 0))))))
        else:
            raise Undecided("the rule does not see what the map is made of")
    return out


anyrule("P13", "security definitions", lambda td: repeated(get(td, "security_definitions")), "no two security definitions have one name, however many there are")
for f in ("properties", "actions", "events"):
    anyrule("P13", f, lambda td, f=f: in_option(get(td, f), repeated), "no two of them have one name, however many there are")
anyrule("P07", "sizes of links", lambda td: opt_items(get(td, "links"), lambda l: AND(
    is_variant(get(l, "sizes"), OPTION, 1), NOT(in_option(get(l, "rel"), lambda r: veq(r, mk("str", "icon")))))),
    "every link with sizes is an icon, however many there are")


# ---- and what is refused: a description of any size is refused only for one of the constraints
def builder(env, name):
    """Member of the builder under construction."""
    try:
        return get(S("b"), name)
    except Fail as e:
        raise Undecided("the builder is not the one the rule knows: %s" % e)


def part(v, *names):
    try:
        return get(v, *names)
    except Fail as e:
        raise Undecided("the builder is not the one the rule knows: %s" % e)


def bad_lang(env):
    v = env.val("lang_parse")
    return lambda kv: NOT(okg(terms.subst(v, S("l"), proj(kv, 0), {})))


def bad_langs(env, opt):
    return in_option(opt, lambda ml: some_item(part(ml, "values"), bad_lang(env)))


def bad_form(env, ctx, f, secs):
    known = lambda s: some_item(secs, lambda d: veq(proj(d, 0), s))
    sec = opt_items(part(f, "security"), lambda s: NOT(known(s)))
    op = part(f, "op")
    ops = variant_case(op, DFO, "Custom", lambda l: some_item(l, lambda o: NOT(op_in(ctx, o))))
    if ctx == "thing":
        ops = OR(ops, is_variant(op, DFO, vix(DFO, "Default")))
    resp = some_item(part(f, "additional_responses"), lambda r: in_option(part(r, "schema"), lambda s: NOT(some_item(
        builder(env, "schema_definitions"), lambda d: veq(proj(d, 0), s)))))
    return bdd.anyn([sec, ops, resp])



def bad_schema(env, s):
    return OR(bad_langs(env, part(s, "titles")), bad_langs(env, part(s, "descriptions")))


def bad_numbers(s):
    """Guard: a numeric constraint of the schema is, or may be, violated (P10)."""
    from . import anyschema
    return bdd.anyn(anyschema.violations(part(s, "subtype")))


def bad_deep(env, s):
    """Guard: something is wrong with the schema or with one directly within it."""
    return bdd.anyn([bad_schema(env, s), bad_numbers(s), deeper(env, s)])


def deeper(env, s):
    """Guard: a schema directly within the schema s has a bad language tag."""
    def bad(x):
        from . import anyschema
        try:
            if tpath(x) != anyschema.US:
                return 0
        except Undecided:
            return 0            # a schema the analysis of build() has not looked into
        return OR(bad_schema(env, x), bad_numbers(x))
    n = lambda f: lambda x: opt_items(part(x, f), lambda kv: bad(proj(kv, 1)))
    sub = lambda x: OR(variant_case(x, tpath(x), "Object", n("properties")), variant_case(x, tpath(x), "Array", lambda y: in_option(
        part(y, "items"), lambda i: OR(variant_case(i, tpath(i), "Elem", bad), variant_case(i, tpath(i), "Vec", lambda l: some_item(l, bad))))))
    return OR(opt_items(part(s, "one_of"), bad), in_option(part(s, "subtype"), sub))


def no_variable(s):
    def bad(x):
        t = tpath(x)
        return OR(is_variant(x, t, vix(t, "Object")), is_variant(x, t, vix(t, "Array")))
    return in_option(part(s, "subtype"), bad)


def nested_ok(b):
    """The guard, where the recursion into nested schemas reports nothing (what it reports is the subject of P10)."""
    def hook(t):
        if t.op == "is" and t.a[1] == 0 and isinstance(t.a[0], T) and t.a[0].op == "call" \
                and t.a[0].a[0] in SHARED_LIMITS | terms.REC and OPAQUE_TY.get(t.a[0]) == RESULT:
            return 1
        return None
    return terms.subst_bdd(b, None, None, {"hook": hook})


def refused(env):
    try:
        return refusal(env)
    except Fail as e:
        raise Undecided("the builder is not the one the rule knows: %s" % e)


def refusal(env):
    v = env.val("any_build")
    secs = builder(env, "security_definitions")
    unset = lambda o: is_variant(o, OPTION, 0)
    member = lambda l: some_item(l, lambda s: NOT(some_item(secs, lambda d2: veq(proj(d2, 0), s))))
    combo = lambda d: variant_case(part(proj(d, 1), "subtype"), SST, "Known", lambda k: variant_case(k, KST, "Combo", lambda c: OR(
        variant_case(c, CST, "OneOf", member), variant_case(c, CST, "AllOf", member))))
    icon = lambda l: AND(NOT(unset(part(l, "sizes"))), NOT(in_option(part(l, "rel"), lambda r: veq(r, mk("str", "icon")))))
    bad = [
        bad_langs(env, builder(env, "titles")), bad_langs(env, builder(env, "descriptions")),
        some_item(secs, lambda d: bdd.anyn([bdd.atom(mk("earlier", proj(d, 0))), bad_langs(env, part(proj(d, 1), "descriptions")), combo(d)])),
        opt_items(builder(env, "forms"), lambda f: bad_form(env, "thing", f, secs)),
        opt_items(builder(env, "links"), lambda l: OR(icon(l), some_item(part(l, "hreflang"), lambda h: bad_lang(env)(mk("tuple", h))))),
        some_item(builder(env, "schema_definitions"), lambda kv: bad_deep(env, proj(kv, 1))),
        opt_items(builder(env, "uri_variables"), lambda kv: OR(bad_deep(env, proj(kv, 1)), no_variable(proj(kv, 1))))]
    for ctx, f, schemas in (("action", "actions", ("input", "output")), ("event", "events", ("subscription", "data", "cancellation", "data_response")),
                            ("property", "properties", ())):
        def obj(e, ctx=ctx, schemas=schemas):
            a = part(e, "affordance")
            i = part(a, "interaction")
            info = part(a if ctx == "property" else i, "info")
            p = i if ctx == "property" else part(i, "partial")
            return bdd.anyn([bdd.atom(mk("earlier", part(e, "name"))), bad_langs(env, part(info, "titles")), bad_langs(env, part(info, "descriptions")),
                             some_item(part(p, "forms"), lambda x: bad_form(env, ctx, x, secs)),
                             some_item(part(p, "uri_variables"), lambda kv: OR(bad_deep(env, proj(kv, 1)), no_variable(proj(kv, 1))))]
                            + [in_option(part(a, s), lambda x: bad_deep(env, x)) for s in schemas]
                            + ([deeper(env, part(a, "data_schema")), bad_numbers(part(a, "data_schema"))] if ctx == "property" else []))
        bad.append(some_item(builder(env, f), obj))
    d = bdd.alln([nested_ok(NOT(okg(v)))] + [NOT(x) for x in bad])
    if unsat(d):
        return []
    l = terms.limits(("B", d)) - SHARED_LIMITS - terms.REC
    if l:
        raise Undecided("the analysis does not open " + ", ".join(sorted(l)))
    return [("acceptance", "refused although no constraint is violated: " + showb(d, 4)[:300])]


rule("P15", "any description", ["any_build"], refused,
     "a description is refused only for a violated constraint, whatever its members are and however many objects it has")
