"""The stage protocol of the builders (P27)."""
from core import *

T0 = 'Thing::builder("t")'
T = T0 + ".finish_extend()"
X = T0 + ".ext(xt()).finish_extend()"
SNIPS = {}
M, B, D, A, P = "E0599", "E0277", "E0308", "E0282", "E0271"
ANY = (M, B, D, P)


def pair(name, good, bad, codes=ANY):
    n = "c_%03d" % len(SNIPS)
    SNIPS[n] = (good, bad, codes)
    ENTRIES[n] = bad
    ENTRY_UNIT[n] = "c"
    rule("P27", name, [n], None, "the program is rejected by the compiler, its complete twin is accepted: " + bad)


# ---- extension stage of the thing
LATER = {"form": '.form(|f| f.href("h").op(FormOperation::ReadAllProperties))', "property": '.property("p", |b| b.finish_extend_data_schema().null())',
         "action": '.action("a", |b| b)', "event": '.event("e", |b| b)', "uri_variable": '.uri_variable("u", |d| d.finish_extend().null())',
         "schema_definition": '.schema_definition("s", |d| d.finish_extend().null())'}
for k, c in LATER.items():
    pair("%s before the extension stage is finished" % k, T + c + ".build()", T0 + c + ".build()")
pair("extending after the extension stage", T0 + ".ext(xt()).finish_extend()", T + ".ext(xt())")
pair("extending from a function after the extension stage", T0 + ".ext_with(xt).finish_extend()", T + ".ext_with(xt)")
pair("finishing the extension stage twice", T, T + ".finish_extend()")
# ---- targets of forms and links
pair("thing form without target", T + '.form(|f| f.op(FormOperation::ReadAllProperties).href("h"))', T + ".form(|f| f.op(FormOperation::ReadAllProperties))")
pair("thing form with two targets", T + '.form(|f| f.href("h"))', T + '.form(|f| f.href("h").href("i"))')
for k, b in (("property", "b.finish_extend_data_schema().null()"), ("action", "b"), ("event", "b")):
    pair("%s form without target" % k, T + '.%s("x", |b| %s.form(|f| f.security("s").href("h")))' % (k, b), T + '.%s("x", |b| %s.form(|f| f.security("s")))' % (k, b))
    pair("%s form with two targets" % k, T + '.%s("x", |b| %s.form(|f| f.href("h")))' % (k, b), T + '.%s("x", |b| %s.form(|f| f.href("h").href("i")))' % (k, b))
pair("link without target", T + '.link_with(|l| l.rel("r").href("h"))', T + '.link_with(|l| l.rel("r"))')
pair("link with two targets", T + '.link_with(|l| l.href("h"))', T + '.link_with(|l| l.href("h").href("i"))')
# ---- security schemes
KINDS = {"no_sec": "no_sec()", "auto": "auto()", "combo": 'combo().one_of(["a", "b"])', "basic": "basic()", "digest": "digest()", "bearer": "bearer()", "psk": "psk()",
         "oauth2": 'oauth2("f")', "apikey": "apikey()", "custom": 'custom("c")'}
pair("security scheme without kind", T + '.security(|s| s.attype("x").basic())', T + '.security(|s| s.attype("x"))')
for k, c in KINDS.items():
    for k2, c2 in KINDS.items():
        pair("security scheme of kind %s made %s" % (k, k2), T + ".security(|s| s.%s)" % c, T + ".security(|s| s.%s.%s)" % (c, c2))
pair("combination without members", T + '.security(|s| s.combo().all_of(["a", "b"]))', T + ".security(|s| s.combo())")
pair("combination with members, none given", T + '.security(|s| s.combo().one_of(["a", "b"]).push("c"))', T + '.security(|s| s.combo().push("c"))')
pair("combination of both natures", T + '.security(|s| s.combo().one_of(["a", "b"]))', T + '.security(|s| s.combo().one_of(["a", "b"]).all_of(["c", "d"]))')
pair("combination of both natures, reversed", T + '.security(|s| s.combo().all_of(["a", "b"]))', T + '.security(|s| s.combo().all_of(["a", "b"]).one_of(["c", "d"]))')
SEC = {'name("n")': ("basic", "digest", "bearer", "apikey"), 'location(SecurityAuthenticationLocation::Header)': ("basic", "digest", "bearer", "apikey"),
       "qop(QualityOfProtection::Auth)": ("digest",), 'authorization("a")': ("bearer", "oauth2"), 'alg("a")': ("bearer",), 'format("f")': ("bearer",),
       'identity("i")': ("psk",), 'token("t")': ("oauth2",), 'refresh("r")': ("oauth2",), 'scope("s")': ("oauth2",), "data(serde_json::json!({}))": ("custom",)}
for m, ks in SEC.items():
    for k, c in KINDS.items():
        if k not in ks and "identity" not in m and not (k == "combo" and m.startswith("name")):
            pair("%s on security scheme of kind %s" % (m.split("(")[0], k), T + ".security(|s| s.%s.%s)" % (KINDS[ks[0]], m), T + ".security(|s| s.%s.%s)" % (c, m))

# ---- data schemas
SCH = {"null": "null()", "bool": "bool()", "number": "number()", "integer": "integer()", "string": "string()", "tuple": "tuple()", "vec": "vec()", "object": "object()",
       "constant": 'constant("c")'}
PLACES = {"uri variable": ('.uri_variable("u", |d| d.finish_extend().%s)', '.uri_variable("u", |d| d.%s)'),
          "schema definition": ('.schema_definition("u", |d| d.finish_extend().%s)', '.schema_definition("u", |d| d.%s)'),
          "property": ('.property("p", |d| d.finish_extend_data_schema().%s)', '.property("p", |d| d.%s)'),
          "action input": ('.action("a", |b| b.input(|d| d.finish_extend().%s))', '.action("a", |b| b.input(|d| d.%s))'),
          "action output": ('.action("a", |b| b.output(|d| d.finish_extend().%s))', '.action("a", |b| b.output(|d| d.%s))'),
          "event data": ('.event("a", |b| b.data(|d| d.finish_extend().%s))', '.event("a", |b| b.data(|d| d.%s))'),
          "event subscription": ('.event("a", |b| b.subscription(|d| d.finish_extend().%s))', '.event("a", |b| b.subscription(|d| d.%s))'),
          "event cancellation": ('.event("a", |b| b.cancellation(|d| d.finish_extend().%s))', '.event("a", |b| b.cancellation(|d| d.%s))'),
          "event data response": ('.event("a", |b| b.data_response(|d| d.finish_extend().%s))', '.event("a", |b| b.data_response(|d| d.%s))')}
for p, (done, open_) in PLACES.items():
    for k, c in SCH.items():
        pair("%s: kind %s before the extension stage of the schema is finished" % (p, k), T + done % c, T + open_ % c)
    if p != "property":
        pair("%s: schema without kind" % p, T + done % 'unit("m").null()', T + done % 'unit("m")')
        pair("%s: schema whose extension stage is not finished" % p, T + done % "null()", T + (open_ % 'unit("m")'))
    for k, c in SCH.items():
        for k2, c2 in SCH.items():
            pair("%s: schema of kind %s made %s" % (p, k, k2), T + done % c, T + done % (c + "." + c2))
OWN = {"minimum(1.)": ("number",), "exclusive_minimum(1.)": ("number",), "maximum(1.)": ("number",), "exclusive_maximum(1.)": ("number",), "multiple_of(1.)": ("number",),
       "minimum(1)": ("integer",), "exclusive_minimum(1)": ("integer",), "maximum(1)": ("integer",), "exclusive_maximum(1)": ("integer",),
       "max_length(1)": ("string",), "min_length(1)": ("string",), 'pattern("p")': ("string",), 'content_encoding("p")': ("string",), 'content_media_type("p")': ("string",),
       "append(|d| d.finish_extend().null())": ("tuple",), "set_item(|d| d.finish_extend().null())": ("vec",), 'property("n", true, |d| d.finish_extend().null())': ("object",)}
for m, ks in OWN.items():
    for k, c in SCH.items():
        if k not in ks:
            pair("%s on a schema of kind %s" % (m.split("|")[0], k), T + PLACES["schema definition"][0] % (SCH[ks[0]] + "." + m), T + PLACES["schema definition"][0] % (c + "." + m))
for p in ("schema definition", "property"):
    d = PLACES[p][0]
    for a, b in (("read_only()", "write_only()"), ("write_only()", "read_only()"), ("read_only()", "read_only()"), ("write_only()", "write_only()")):
        pair("%s: %s and %s" % (p, a, b), T + d % ("null()." + a), T + d % ("null().%s.%s" % (a, b)))
    for k, c in SCH.items():
        pair("%s: kind %s after an enumeration" % (p, k), T + d % 'enumeration("x").enumeration("y")', T + d % ('enumeration("x").' + c))
        pair("%s: kind %s after a union" % (p, k), T + d % "one_of(|d| d.finish_extend().null())", T + d % ("one_of(|d| d.finish_extend().null())." + c))
    pair("%s: union after an enumeration" % p, T + d % "one_of(|d| d.finish_extend().null())", T + d % 'enumeration("x").one_of(|d| d.finish_extend().null())')
    pair("%s: enumeration after a union" % p, T + d % 'enumeration("x")', T + d % 'one_of(|d| d.finish_extend().null()).enumeration("x")')

# ---- members of the wrong affordance
AFF = {"property": ('.property("p", |b| b.finish_extend_data_schema().null()%s)', (".observable(true)",)),
       "action": ('.action("p", |b| b%s)', (".safe()", ".idempotent()", ".synchronous(true)", ".input(|d| d.finish_extend().null())", ".output(|d| d.finish_extend().null())")),
       "event": ('.event("p", |b| b%s)', (".subscription(|d| d.finish_extend().null())", ".data(|d| d.finish_extend().null())", ".cancellation(|d| d.finish_extend().null())",
                                         ".data_response(|d| d.finish_extend().null())"))}
for k, (t, ms) in AFF.items():
    for k2, (t2, _) in AFF.items():
        if k2 != k:
            for m in ms:
                pair("%s on %s" % (m.split("(")[0], k2), T + t % m, T + t2 % m)
pair("property without data schema", T + '.property("p", |b| b.finish_extend_data_schema().null().observable(true))', T + '.property("p", |b| b.observable(true))')
pair("property whose data schema has no kind", T + '.property("p", |b| b.finish_extend_data_schema().null())', T + '.property("p", |b| b.finish_extend_data_schema())')

# ---- extensions that are not complete
FULL = {"form": ('.form(|f| f.ext(XF { v: 0 }).href("h"))', '.form(|f| f.href("h"))'),
        "response": ('.form(|f| f.ext(XF { v: 0 }).href("h").response("c", |r| r.ext(XR { v: 0 })))', '.form(|f| f.ext(XF { v: 0 }).href("h").response("c", |r| r))'),
        "action": ('.action("a", |b| b.ext_interaction(XI { v: 0 }).ext(XA { v: 0 }))', '.action("a", |b| b.ext_interaction(XI { v: 0 }))'),
        "action interaction": ('.action("a", |b| b.ext(XA { v: 0 }).ext_interaction(XI { v: 0 }))', '.action("a", |b| b.ext(XA { v: 0 }))'),
        "event": ('.event("a", |b| b.ext_interaction(XI { v: 0 }).ext(XE { v: 0 }))', '.event("a", |b| b.ext_interaction(XI { v: 0 }))'),
        "event interaction": ('.event("a", |b| b.ext(XE { v: 0 }).ext_interaction(XI { v: 0 }))', '.event("a", |b| b.ext(XE { v: 0 }))'),
        "schema": ('.schema_definition("s", |d| d.ext(XD { v: 0 }).finish_extend().null())', '.schema_definition("s", |d| d.finish_extend().null())'),
        "uri variable": ('.uri_variable("s", |d| d.ext(XD { v: 0 }).finish_extend().null())', '.uri_variable("s", |d| d.finish_extend().null())'),
        "object": ('.schema_definition("s", |d| d.ext(XD { v: 0 }).finish_extend().object_ext(|o| o.ext(XO { v: 0 })))',
                   '.schema_definition("s", |d| d.ext(XD { v: 0 }).finish_extend().object_ext(|o| o))'),
        "vec": ('.schema_definition("s", |d| d.ext(XD { v: 0 }).finish_extend().vec_ext(|o| o.ext(XY { v: 0 })))',
                '.schema_definition("s", |d| d.ext(XD { v: 0 }).finish_extend().vec_ext(|o| o))'),
        "tuple": ('.schema_definition("s", |d| d.ext(XD { v: 0 }).finish_extend().tuple_ext(|o| o.ext(XY { v: 0 })))',
                  '.schema_definition("s", |d| d.ext(XD { v: 0 }).finish_extend().tuple_ext(|o| o))')}
PR = '.property("p", |b| b%s)'
PS = {"i": ".ext_interaction(XI { v: 0 })", "p": ".ext(XP { v: 0 })", "d": ".ext_data_schema(XD { v: 0 })"}
END = ".finish_extend_data_schema().null()"
FULL["property"] = (PR % (PS["i"] + PS["p"] + PS["d"] + END), PR % (PS["i"] + PS["d"] + END))
FULL["property interaction"] = (PR % (PS["i"] + PS["p"] + PS["d"] + END), PR % (PS["p"] + PS["d"] + END))
FULL["property schema"] = (PR % (PS["i"] + PS["p"] + PS["d"] + END), PR % (PS["i"] + PS["p"] + END))
for k, (g, b) in FULL.items():
    pair("%s without its extension" % k, X + g, X + b)
    pair("%s extended although nothing extends the thing" % k, X + g, T + g)
pair("extending the schema of a property after its extension stage", X + FULL["property"][0],
     X + PR % (PS["i"] + PS["p"] + ".finish_extend_data_schema().null()" + PS["d"]))
pair("finishing the extension stage of a schema twice", T + '.schema_definition("s", |d| d.finish_extend().null())', T + '.schema_definition("s", |d| d.finish_extend().finish_extend().null())')
pair("extending a schema after its extension stage", X + FULL["schema"][0], X + '.schema_definition("s", |d| d.finish_extend().ext(XD { v: 0 }).null())')
