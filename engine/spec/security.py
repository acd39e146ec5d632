from core import *
from .thing import *
from .link_form import NEW, FRESH, frame_in, accepts

SS = "wot_td::thing::SecurityScheme"
SST = "wot_td::thing::SecuritySchemeSubtype"
KST = "wot_td::thing::KnownSecuritySchemeSubtype"
CSS = "wot_td::thing::ComboSecurityScheme"
TH = "wot_td::thing::"


def variant(path, name):
    r = ADTS.get(path)
    if not r:
        raise Fail("type %s is not in the compiled program" % path)
    for i, v in enumerate(r["variants"]):
        if v["name"] == name:
            return i
    raise Fail("type %s has no variant %s" % (path, name))


def defs(env, v):
    """[(cond, name, scheme)] of the security definitions, names certain."""
    m = get(payload(v), "security_definitions")
    m = simp(m, okg(v))
    if m.op != "map" or m.a[0] is not None:
        gate(m)
        raise Fail("the security definitions of a new description are not a plain set of entries: " + show(m, 3)[:200])
    return m.a[1]


def onedef(env, v):
    es = defs(env, v)
    if len(es) != 1 or not unsat(AND(okg(v), NOT(es[0][0]))):
        gate(*[e[2] for e in es], *[("B", e[0]) for e in es])
        raise Fail("not exactly one security definition: " + show(get(payload(v), "security_definitions"), 3)[:200])
    return es[0][2]


def known(sub, name):
    """Payload of the known subtype."""
    k = payload(sub, variant(SST, "Known"), SST)
    return payload(k, variant(KST, name), KST)


def sub_with(name, old, member, x):
    """The scheme `name` with one member replaced."""
    p = known(old, name)
    path = tpath(p)
    fs = [x if f == member else get(p, f) for f in fields_of(path)]
    return adt(SST, variant(SST, "Known"), adt(KST, variant(KST, name), adt(path, 0, *fs)))


SB = "t: String, sb: SecuritySchemeBuilder<T>"
G = FRESH + ", T: BuildableSecuritySchemeSubtype"
E("sc0", SB, "R<O>", NEW + ".security(move |_| sb).build()", gen=G)
for m, sig, call, field, exp in (
        ("description", ", x: String", "description(x)", "description", lambda old, env: some(S("x"))),
        ("proxy", ", x: String", "proxy(x)", "proxy", lambda old, env: some(S("x"))),
        ("attype", ", x: String", "attype(x)", "attype", lambda old, env: optpush(old, S("x")))):
    E("sc_" + m, SB + sig, "R<O>", NEW + ".security(move |_| sb.%s).build()" % call, gen=G)
    frame_in("P06", "SecuritySchemeBuilder::" + m, "sc0", "sc_" + m, onedef, field, exp)
E("sc_desc0", SB, "R<O>", NEW + ".security(move |_| sb.descriptions(|m| m)).build()", gen=G)
E("sc_desc1", SB + ", l: String, v: String", "R<O>", NEW + ".security(move |_| sb.descriptions(move |m| m.add(l, v))).build()", gen=G)
frame_in("P06", "SecuritySchemeBuilder::descriptions", "sc_desc0", "sc_desc1", onedef, "descriptions",
         lambda old, env: some(mkmap(None, [(1, payload(env.val("lang_parse")), S("v"))])),
         accept=lambda env, gb: AND(gb, okg(env.val("lang_parse"))))
frame_in("P06", "SecuritySchemeBuilder::descriptions (none)", "sc0", "sc_desc0", onedef, "descriptions",
         lambda old, env: some(mkmap(None, [])), accept="weaker")
E("sc_desc2", "t: String, l: String, v: String", "R<O>", NEW + ".security(move |s| s.no_sec().descriptions(move |m| m.add(l, v))).build()", gen=FRESH)
accepts("P14", "security scheme descriptions language", "sc_desc2", lambda env: okg(env.val("lang_parse")),
        "a malformed language is refused")

# ---- registration

KINDS = {
    # constructor: (default key, variant, type)
    "no_sec()": ("nosec", "NoSec", None), "auto()": ("auto", "Auto", None), "basic()": ("basic", "Basic", "BasicSecurityScheme"),
    "digest()": ("digest", "Digest", "DigestSecurityScheme"), "bearer()": ("bearer", "Bearer", "BearerSecurityScheme"),
    "psk()": ("psk", "Psk", "PskSecurityScheme"), "oauth2(fl)": ("oauth2", "OAuth2", "OAuth2SecurityScheme"),
    "apikey()": ("apikey", "ApiKey", "ApiKeySecurityScheme"), "custom(fl)": (None, None, "UnknownSecuritySchemeSubtype"),
}
SAL = TH + "SecurityAuthenticationLocation"


def default_scheme(cons, env):
    """The scheme each constructor stands for, with the defaults of the TD vocabulary."""
    key, var, ty = KINDS[cons]
    lit = lambda n: adt(SAL, variant(SAL, n))
    if ty is None:
        return adt(SST, variant(SST, "Known"), adt(KST, variant(KST, var)))
    path = TH + ty
    vals = {f: none() for f in fields_of(path)}
    if ty in ("BasicSecurityScheme", "DigestSecurityScheme", "BearerSecurityScheme"):
        vals["location"] = lit("Header")
    if ty == "ApiKeySecurityScheme":
        vals["location"] = lit("Query")
    if ty == "DigestSecurityScheme":
        vals["qop"] = adt(TH + "QualityOfProtection", variant(TH + "QualityOfProtection", "Auth"))
    if ty == "BearerSecurityScheme":
        vals["alg"], vals["format"] = strlit("ES256"), strlit("jwt")
    if ty == "OAuth2SecurityScheme":
        vals["flow"] = S("fl")
    if ty == "UnknownSecuritySchemeSubtype":
        vals["scheme"] = S("fl")
        vals["data"] = adt("serde_json::value::Value", variant("serde_json::value::Value", "Null"))
        return adt(SST, variant(SST, "Unknown"), adt(path, 0, *[vals[f] for f in fields_of(path)]))
    return adt(SST, variant(SST, "Known"), adt(KST, variant(KST, var), adt(path, 0, *[vals[f] for f in fields_of(path)])))


def uncow_all(v):
    """Cow::Borrowed(x) / Cow::Owned(x) both stand for the text x."""
    if v.op == "adt" and v.a[0] == "alloc::borrow::Cow":
        return uncow_all(v.a[2])
    if v.op == "adt":
        return mk("adt", v.a[0], v.a[1], *[uncow_all(x) for x in v.a[2:]])
    if v.op == "ite":
        return mk_ite([(g, uncow_all(x)) for g, x in v.a[0]])
    return v


def registered(pid, name, entry, key, required, scheme, what):
    """Exactly one definition, under `key`, listed as required or not."""
    def fn(env):
        out = []
        v = env.val(entry)
        g = okg(v)
        if not unsat(NOT(g)):
            out.append(("acceptance", "refused when " + showb(NOT(g), 3)[:200]))
        es = defs(env, v)
        if len(es) != 1:
            return out + [("security_definitions", "found %d entries, required 1" % len(es))]
        diff("security_definitions{key}", es[0][1], key(env), g, out)
        diff("security", get(payload(v), "security"), seqof(key(env)) if required else mk("seq"), g, out)
        sch = es[0][2]
        diff("subtype", uncow_all(get(sch, "subtype")), scheme(env), g, out)
        return out
    rule(pid, name, [entry], fn, what)


SIG = "t: String, fl: String, k: String"
for cons, (lit, var, ty) in KINDS.items():
    nm = cons.split("(")[0]
    key = (lambda env, lit=lit: strlit(lit) if lit else S("fl"))
    sch = (lambda env, cons=cons: default_scheme(cons, env))
    for i, (chain, kk, req) in enumerate((
            ("s.%s", key, False), ("s.%s.required()", key, True), ("s.%s.with_key(k)", lambda env: S("k"), False),
            ("s.%s.with_key(k).required()", lambda env: S("k"), True), ("s.%s.required().with_key(k)", lambda env: S("k"), True),
            ("s.with_key(k).required().%s", lambda env: S("k"), True), ("s.required().%s", key, True), ("s.with_key(k).%s", lambda env: S("k"), False))):
        n = "sr_%s_%d" % (nm, i)
        E(n, SIG, "R<O>", NEW + ".security(move |s| %s).build()" % (chain % cons), gen=FRESH)
        registered("P06", (chain % cons), n, kk, req, sch,
                   "one definition with the vocabulary defaults, under the given or default key, required exactly when asked")
    # members set before the kind is chosen survive
    for m, call in (("description", "description(x)"), ("proxy", "proxy(x)"), ("attype", "attype(x)"),
                    ("descriptions", "descriptions(move |m| m.add(x, w))")):
        for o, chain in (("a", "s.%s.%s" % (call, cons)), ("b", "s.%s.%s" % (cons, call))):
            E("st_%s_%s_%s" % (nm, m, o), SIG + ", x: String, w: String", "R<O>", NEW + ".security(move |s| %s).build()" % chain, gen=FRESH)

        def fn(env, nm=nm, m=m):
            a, b = env.val("st_%s_%s_a" % (nm, m)), env.val("st_%s_%s_b" % (nm, m))
            return diff("", a, b, 1, [])
        rule("P02", "security %s keeps %s" % (nm, m), ["st_%s_%s_a" % (nm, m), "st_%s_%s_b" % (nm, m)], fn,
             "setting %s before or after choosing the kind of scheme gives the same result" % m)

# combos: references to two declared schemes
for op, var in (("all_of", "AllOf"), ("one_of", "OneOf")):
    for i, (chain, want, req) in enumerate((
            ("s.combo().%s([x, y])", ("x", "y"), False), ("s.combo().%s([x]).push(y).required()", ("x", "y"), True),
            ("s.combo().%s([x]).extend([y])", ("x", "y"), False), ("s.with_key(k).required().combo().%s([x, y])", ("x", "y"), True),
            ("s.combo().with_key(k).required().%s([x, y])", ("x", "y"), True), ("s.combo().%s([x, y]).with_key(k)", ("x", "y"), False))):
        n = "sr_%s_%d" % (op, i)
        E(n, "t: String, k: String, x: String, y: String", "R<O>",
          NEW + ".security(move |s| %s).build()" % (chain % op), gen=FRESH)

        def fn(env, n=n, var=var, want=want, req=req, chain=chain):
            # the combination itself is examined through the unchecked result of its own definition
            out = []
            v = env.val(n)
            g = okg(v)
            key = S("k") if "with_key" in chain else strlit("combo")
            if unsat(g):
                # both names must be declared; nothing else is declared here
                out.append(("acceptance", "never accepted"))
                return out
            es = defs(env, v)
            if len(es) != 1:
                return [("security_definitions", "found %d entries, required 1" % len(es))]
            diff("security_definitions{key}", es[0][1], key, g, out)
            diff("security", get(payload(v), "security"), seqof(key) if req else mk("seq"), g, out)
            c = adt(SST, variant(SST, "Known"), adt(KST, variant(KST, "Combo"), adt(CSS, variant(CSS, var), seqof(*[S(w) for w in want]))))
            diff("subtype", get(es[0][2], "subtype"), c, g, out)
            return out
        rule("P06", (chain % op), [n], fn, "the combination lists exactly the given names, in order")

# members of the known schemes
MEM = {
    "BasicSecurityScheme": ["name", "location"], "DigestSecurityScheme": ["name", "location", "qop"],
    "BearerSecurityScheme": ["name", "location", "authorization", "alg", "format"], "ApiKeySecurityScheme": ["name", "location"],
    "OAuth2SecurityScheme": ["authorization", "token", "refresh", "scope"],
}
for ty, ms in MEM.items():
    var = ty.replace("SecurityScheme", "")
    sv = "sb_" + var
    sb = "t: String, %s: SecuritySchemeBuilder<%s>" % (sv, ty)
    E("sk0_" + var, sb, "R<O>", NEW + ".security(move |_| %s).build()" % sv, gen=FRESH)
    for m in ms:
        argty = {"location": "SecurityAuthenticationLocation", "qop": "QualityOfProtection"}.get(m, "String")
        n = "sk_%s_%s" % (var, m)
        xn = {"location": "loc", "qop": "qop"}.get(m, "x")
        E(n, sb + ", %s: %s" % (xn, argty), "R<O>", NEW + ".security(move |_| %s.%s(%s)).build()" % (sv, m, xn), gen=FRESH)

        def fn(env, n=n, m=m, var=var):
            out = []
            vb, vn = env.val("sk0_" + var), env.val(n)
            gb, gn = okg(vb), okg(vn)
            if not unsat(NOT(bdd.IFF(gb, gn))):
                out.append(("acceptance", "changed by the call"))
            sbn, snn = onedef(env, vb), onedef(env, vn)
            for f in fields_of(SS):
                if f == "subtype":
                    f2 = {"scope": "scopes"}.get(m, m)
                    old = get(known(get(sbn, f), var), f2)
                    x = {"location": S("loc"), "qop": S("qop"), "alg": S("x"), "format": S("x")}.get(m) or (
                        optpush(old, S("x")) if m == "scope" else some(S("x")))
                    diff(f, uncow_all(get(snn, f)), sub_with(var, get(sbn, f), f2, x), AND(gb, gn), out)
                else:
                    diff(f, get(snn, f), get(sbn, f), AND(gb, gn), out)
            return out
        rule("P06", "%s::%s" % (ty, m), ["sk0_" + var, n], fn, "the member receives the value, everything else is unchanged")
E("sk_custom_data", "t: String, sb_u: SecuritySchemeBuilder<UnknownSecuritySchemeSubtype>, jv: serde_json::Value", "R<O>",
  NEW + ".security(move |_| sb_u.data(jv)).build()", gen=FRESH)
E("sk0_custom", "t: String, sb_u: SecuritySchemeBuilder<UnknownSecuritySchemeSubtype>", "R<O>", NEW + ".security(move |_| sb_u).build()", gen=FRESH)


def custom_data(env):
    out = []
    vb, vn = env.val("sk0_custom"), env.val("sk_custom_data")
    a, b = onedef(env, vb), onedef(env, vn)
    g = AND(okg(vb), okg(vn))
    for f in fields_of(SS):
        if f == "subtype":
            ui = variant(SST, "Unknown")
            diff("subtype.data", get(payload(get(b, f), ui, SST), "data"), S("jv"), g, out)
            diff("subtype.scheme", get(payload(get(b, f), ui, SST), "scheme"), get(payload(get(a, f), ui, SST), "scheme"), g, out)
        else:
            diff(f, get(b, f), get(a, f), g, out)
    return out


rule("P06", "custom scheme data", ["sk0_custom", "sk_custom_data"], custom_data, "the custom data is kept as given")

# ---- on any thing
E("t_security", TB + ", k: String", "R<O>", "b.security(move |s| s.basic().with_key(k).required()).build()")


def t_security(env):
    out = []
    vb, vn = env.val("thing0"), env.val("t_security")
    pb, pn = payload(vb), payload(vn)
    care = AND(okg(vb), okg(vn))
    for f in fields_of(THING):
        if f == "security":
            diff(f, get(pn, f), app(get(pb, f), S("k")), care, out)
        elif f not in ("security_definitions", "properties", "actions", "events", "forms"):
            diff(f, get(pn, f), get(pb, f), care, out)
    return out


rule("P06", "ThingBuilder::security on any description", ["thing0", "t_security"], t_security,
     "the name is appended to the required ones, all other members are unchanged")
