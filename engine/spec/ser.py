"""What is written when serialising (P16, P18, P20-P23)."""
from core import *


def ES(name, sig, ret, body, gen="", where=""):
    return E(name, sig, ret, body, gen=gen, where=where, unit="s")


def each(pids, *a):
    """The same obligation belongs to several properties."""
    for p in pids:
        rule(p, *a)


TYPES = ["Thing<XT>", "InteractionAffordance<XT>", "PropertyAffordance<XT>", "ActionAffordance<XT>", "EventAffordance<XT>", "VersionInfo", "DSX",
         "DataSchemaSubtype<XD, XY, XO>", "ArraySchema<XD, XY, XO>", "BoxedElemOrVec<DSX>", "Maximum<f64>", "Minimum<f64>", "Maximum<i64>", "Minimum<i64>",
         "NumberSchema", "IntegerSchema", "ObjectSchema<XD, XY, XO>", "StringSchema", "SecurityScheme", "KnownSecuritySchemeSubtype",
         "UnknownSecuritySchemeSubtype", "SecuritySchemeSubtype", "ComboSecurityScheme", "BasicSecurityScheme", "SecurityAuthenticationLocation",
         "DigestSecurityScheme", "QualityOfProtection", "ApiKeySecurityScheme", "BearerSecurityScheme", "PskSecurityScheme", "OAuth2SecurityScheme",
         "Link", "Form<XT>", "FormOperation", "DefaultedFormOperations", "ExpectedResponse<XR>", "AdditionalExpectedResponse",
         "http::Method", "http::MessageHeader", "http::Response", "http::Form", "coap::Method", "coap::BlockSize", "coap::BlockWiseTransferParameters",
         "coap::Form", "coap::ExpectedResponse", "mqtt::ControlPacket", "mqtt::QoS", "mqtt::Form", "http::HttpProtocol", "coap::CoapProtocol", "mqtt::MqttProtocol",
         "Exts", "ProtoForms"]


def nm(t):
    return t.split("<")[0].replace("::", "_").lower() + ("i" if t.endswith("<i64>") else "")


for t in TYPES:
    ES("s_" + nm(t), "z_%s: %s" % (nm(t), t), "Result<J, Er>", "ser(&z_%s)" % nm(t))

# ---------------------------------------------------------------- the vocabulary
# kinds: v always; o when set; om/mm one value or a list (when set / always); e list, when not empty, one or many;
# f list, when not empty; t when true; c operations, when given; d date, when set; b always, bound of its nature
INTER = [("@type", "attype", "om"), ("title", "title", "o"), ("titles", "titles", "o"), ("description", "description", "o"),
         ("descriptions", "descriptions", "o"), ("forms", "forms", "v"), ("uriVariables", "uri_variables", "o")]
NUM = [("maximum", "maximum.?.!Inclusive", "b"), ("exclusiveMaximum", "maximum.?.!Exclusive", "b"), ("minimum", "minimum.?.!Inclusive", "b"),
       ("exclusiveMinimum", "minimum.?.!Exclusive", "b"), ("multipleOf", "multiple_of", "o")]
STR = [("minLength", "min_length", "o"), ("maxLength", "max_length", "o"), ("pattern", "pattern", "o"), ("contentEncoding", "content_encoding", "o"),
       ("contentMediaType", "content_media_type", "o")]
ARR = [("items", "items", "o"), ("minItems", "min_items", "o"), ("maxItems", "max_items", "o"), ("x:array", "other", "x")]
OBJ = [("properties", "properties", "o"), ("required", "required", "o"), ("x:object", "other", "x")]


def pre(p, rows):
    return [(k, p + "." + m, kind) for k, m, kind in rows]


SUB = pre("!Array", ARR) + pre("!Number", NUM) + pre("!Integer", NUM) + pre("!Object", OBJ) + pre("!String", STR)
SUBTAG = [("!Array", "array"), ("!Boolean", "boolean"), ("!Number", "number"), ("!Integer", "integer"), ("!Object", "object"), ("!String", "string"),
          ("!Null", "null")]
DS = [("@type", "attype", "om"), ("title", "title", "o"), ("titles", "titles", "o"), ("description", "description", "o"),
      ("descriptions", "descriptions", "o"), ("const", "constant", "o"), ("default", "default", "o"), ("unit", "unit", "o"),
      ("oneOf", "one_of", "o"), ("enum", "enumeration", "o"), ("readOnly", "read_only", "v"), ("writeOnly", "write_only", "v"),
      ("format", "format", "o")] + pre("subtype.?", SUB) + [("x:schema", "other", "x")]
BASIC = [("in", "location", "v"), ("name", "name", "o")]
DIGEST = [("qop", "qop", "v"), ("in", "location", "v"), ("name", "name", "o")]
BEARER = [("authorization", "authorization", "o"), ("alg", "alg", "v"), ("format", "format", "v"), ("in", "location", "v"), ("name", "name", "o")]
OAUTH = [("authorization", "authorization", "o"), ("token", "token", "o"), ("refresh", "refresh", "o"), ("scopes", "scopes", "om"), ("flow", "flow", "v")]
PSK = [("identity", "identity", "o")]
COMBO = [("oneOf", "!OneOf", "mm"), ("allOf", "!AllOf", "mm")]
KNOWN = pre("!Combo", COMBO) + pre("!Basic", BASIC) + pre("!Digest", DIGEST) + pre("!Bearer", BEARER) + pre("!Psk", PSK) + pre("!OAuth2", OAUTH) \
    + pre("!ApiKey", BASIC)
KNOWNTAG = [("!NoSec", "nosec"), ("!Auto", "auto"), ("!Combo", "combo"), ("!Basic", "basic"), ("!Digest", "digest"), ("!Bearer", "bearer"),
            ("!Psk", "psk"), ("!OAuth2", "oauth2"), ("!ApiKey", "apikey")]
UNKNOWN = [("scheme", "scheme", "v"), (None, "data", "v")]
TD = {
    "thing": [("@context", "context", "v"), ("id", "id", "o"), ("@type", "attype", "om"), ("title", "title", "v"), ("titles", "titles", "o"),
              ("description", "description", "o"), ("descriptions", "descriptions", "o"), ("version", "version", "o"), ("created", "created", "d"),
              ("modified", "modified", "d"), ("support", "support", "o"), ("base", "base", "o"), ("properties", "properties", "o"),
              ("actions", "actions", "o"), ("events", "events", "o"), ("links", "links", "o"), ("forms", "forms", "o"), ("security", "security", "mm"),
              ("securityDefinitions", "security_definitions", "v"), ("uriVariables", "uri_variables", "o"), ("profile", "profile", "om"),
              ("schemaDefinitions", "schema_definitions", "o"), ("x:thing", "other", "x")],
    "interactionaffordance": INTER + [("x:interaction", "other", "x")],
    "propertyaffordance": pre("interaction", INTER + [("x:interaction", "other", "x")]) + pre("data_schema", DS)
    + [("observable", "observable", "o"), ("x:property", "other", "x")],
    "actionaffordance": pre("interaction", INTER + [("x:interaction", "other", "x")])
    + [("input", "input", "o"), ("output", "output", "o"), ("safe", "safe", "v"), ("idempotent", "idempotent", "v"),
       ("synchronous", "synchronous", "o"), ("x:action", "other", "x")],
    "eventaffordance": pre("interaction", INTER + [("x:interaction", "other", "x")])
    + [("subscription", "subscription", "o"), ("data", "data", "o"), ("dataResponse", "data_response", "o"), ("cancellation", "cancellation", "o"),
       ("x:event", "other", "x")],
    "versioninfo": [("instance", "instance", "v"), ("model", "model", "o")],
    "dsx": DS, "dataschemasubtype": SUB, "arrayschema": ARR, "numberschema": NUM, "integerschema": NUM, "objectschema": OBJ, "stringschema": STR,
    "securityscheme": [("@type", "attype", "om"), ("description", "description", "o"), ("descriptions", "descriptions", "o"), ("proxy", "proxy", "o")]
    + pre("subtype.!Known", KNOWN) + pre("subtype.!Unknown", UNKNOWN),
    "knownsecurityschemesubtype": KNOWN, "unknownsecurityschemesubtype": UNKNOWN,
    "securityschemesubtype": pre("!Known", KNOWN) + pre("!Unknown", UNKNOWN), "combosecurityscheme": COMBO,
    "basicsecurityscheme": BASIC, "digestsecurityscheme": DIGEST, "apikeysecurityscheme": BASIC, "bearersecurityscheme": BEARER,
    "psksecurityscheme": PSK, "oauth2securityscheme": OAUTH,
    "link": [("href", "href", "v"), ("type", "ty", "o"), ("rel", "rel", "o"), ("anchor", "anchor", "o"), ("sizes", "sizes", "o"),
             ("hreflang", "hreflang", "om")],
    "form": [("op", "op", "c"), ("href", "href", "v"), ("contentType", "content_type", "o"), ("contentCoding", "content_coding", "o"),
             ("subprotocol", "subprotocol", "o"), ("security", "security", "om"), ("scopes", "scopes", "om"), ("response", "response", "o"),
             ("additionalResponses", "additional_responses", "om"), ("x:form", "other", "x")],
    "expectedresponse": [("contentType", "content_type", "v"), ("x:response", "other", "x")],
    "additionalexpectedresponse": [("success", "success", "t"), ("contentType", "content_type", "o"), ("schema", "schema", "o")],
}
PR = {
    "http_messageheader": [("htv:fieldName", "field_name", "o"), ("htv:fieldValue", "field_value", "o")],
    "http_response": [("htv:headers", "headers", "f"), ("htv:statusCodeValue", "status_code_value", "o")],
    "http_form": [("htv:methodName", "method_name", "o")],
    "coap_blockwisetransferparameters": [("cov:block2Size", "block2_size", "o"), ("cov:block1Size", "block1_size", "o")],
    "coap_form": [("cov:method", "method", "o"), ("cov:blockwise", "blockwise", "o"), ("cov:qblockwise", "qblockwise", "o"),
                  ("cov:hopLimit", "hop_limit", "o"), ("cov:accept", "accept", "o"), ("cov:contentFormat", "content_format", "o")],
    "coap_expectedresponse": [("cov:contentFormat", "content_format", "o")],
    "mqtt_form": [("mqv:retain", "retain", "t"), ("mqv:controlPacket", "control_packet", "o"), ("mqv:qos", "qos", "o"), ("mqv:topic", "topic", "o"),
                  ("mqv:filter", "filter", "e")],
    "http_httpprotocol": [], "coap_coapprotocol": [], "mqtt_mqttprotocol": [],
}
# several extensions in one object
PR["protoforms"] = pre("head", PR["http_form"]) + pre("tail.head", PR["coap_form"]) + pre("tail.tail.head", PR["mqtt_form"])
TD["exts"] = [("x:action", "head", "x"), ("x:event", "tail.head", "x"), ("x:schema", "tail.tail.head", "x")]
TAGS = {"dataschemasubtype": ("type", "", SUBTAG), "dsx": ("type", "subtype.?", SUBTAG), "propertyaffordance": ("type", "data_schema.subtype.?", SUBTAG),
        "knownsecurityschemesubtype": ("scheme", "", KNOWNTAG), "securityschemesubtype": ("scheme", "!Known", KNOWNTAG),
        "securityscheme": ("scheme", "subtype.!Known", KNOWNTAG)}
ENUMS = {
    "formoperation": ["readproperty", "writeproperty", "observeproperty", "unobserveproperty", "invokeaction", "queryaction", "cancelaction",
                      "subscribeevent", "unsubscribeevent", "readallproperties", "writeallproperties", "readmultipleproperties",
                      "writemultipleproperties", "observeallproperties", "unobserveallproperties", "subscribeallevents", "unsubscribeallevents",
                      "queryallactions"],
    "securityauthenticationlocation": ["header", "query", "body", "cookie", "uri"],
    "qualityofprotection": {"Auth": "auth", "AuthInt": "auth-int"},
    "http_method": {"Get": "GET", "Put": "PUT", "Post": "POST", "Delete": "DELETE", "Patch": "PATCH"},
    "coap_method": {"Get": "GET", "Put": "PUT", "Post": "POST", "Delete": "DELETE", "Patch": "PATCH", "Fetch": "FETCH", "Ipatch": "iPATCH"},
    "coap_blocksize": {"Size%d" % n: n for n in (16, 32, 64, 128, 256, 512, 1024)},
    "mqtt_controlpacket": {"Publish": "mqv:publish", "Subscribe": "mqv:subscribe", "Unsubscribe": "mqv:unsubscribe"},
    "mqtt_qos": {"AtMostOnce": "quality:0", "AtLeastOnce": "quality:1", "ExactlyOnce": "quality:2"},
}


def variants(path):
    r = ADTS.get(path)
    if not r:
        raise Fail("type %s is not in the compiled program" % path)
    return [v["name"] for v in r["variants"]]


def walk(v, path):
    """(guard, value) of a member path: `?` opens an Option, `!V` a variant."""
    g = 1
    for c in path.split("."):
        if not c:
            continue
        if g == 0 or v is UNDEF:
            return 0, UNDEF
        if c == "?":
            g, v = AND(g, is_variant(v, OPTION, 1)), payload(v, 1, OPTION)
        elif c[0] == "!":
            p = tpath(v)
            vs = variants(p)
            if c[1:] not in vs:
                raise Fail("%s has no variant %s" % (p, c[1:]))
            k = vs.index(c[1:])
            g = AND(g, is_variant(v, p, k))
            v = payload(v, k, p) if ADTS[p]["variants"][k]["fields"] else UNDEF
        else:
            v = get(v, c)
    return g, v


def expected(v, row):
    """(guard under which the member is written, its value or None, list written as one or many or None)"""
    key, path, kind = row
    g, x = walk(v, path)
    if kind in ("v", "b"):
        return g, mk("call", "ser", x), None
    if kind == "x":
        # an extension of the analysis itself: one optional string
        w = get(x, "v")
        return AND(g, is_variant(w, OPTION, 1)), mk("call", "ser", payload(w, 1, OPTION)), None
    if kind in ("o", "d", "om"):
        g = AND(g, is_variant(x, OPTION, 1))
        x = payload(x, 1, OPTION)
        if kind == "om":
            return g, None, x
        return g, mk("call", "ser" if kind == "o" else "rfc3339", x), None
    if kind == "mm":
        return g, None, x
    if kind in ("e", "f"):
        g = AND(g, seq_nonempty(x))
        return (g, None, x) if kind == "e" else (g, mk("call", "ser", x), None)
    if kind == "t":
        return AND(g, tobdd(x)), mk("call", "ser", x), None
    if kind == "c":
        return AND(g, NOT(is_variant(x, tpath(x), 0))), mk("call", "ser", x), None
    raise AssertionError(kind)


def jpayload(v, name, j="J"):
    """The payload of variant `name` of a written value."""
    jp = [p for p in ADTS if p.split("::")[-1] == j][0]
    return payload(v, variants(jp).index(name), jp), is_variant(v, jp, variants(jp).index(name))


def keytext(k):
    """(guard, text) of a written key; text None for a merged object."""
    for g, x in cases(k):
        if x.op == "call" and x.a[0] == "merged":
            yield g, None
            continue
        s, isstr = jpayload(x, "Str")
        for g2, y in cases(s):
            if y.op == "str":
                yield AND(g, AND(isstr, g2)), y.a[0]
            elif unsat(AND(g, g2)):
                pass
            else:
                raise Undecided("a member name is not a literal: %s" % show(y, 3))


def written(env, name):
    """(guard that writing fails, [(guard, key, value)])"""
    v = env.val(name)
    bad = NOT(okg(v))
    j = payload(v)
    m, ismap = jpayload(j, "Map")
    bad = OR(bad, NOT(ismap))
    out = []
    for p in parts_of(m):
        if p.op != "pi":
            if unsat(part_nonempty(p)):
                continue
            raise Undecided("members are written in a loop")
        for g, kv in cases(p.a[1]):
            for g2, k in keytext(get(kv, 0)):
                gg = AND(p.a[0], AND(g, g2))
                if not unsat(gg):
                    out.append((gg, k, get(kv, 1)))
    return bad, out


def z(env, t):
    return env.sym("z_" + t)


def shape(x, lst, care, where, out):
    """A list written as one value or as a list."""
    for g, y in cases(x):
        c = AND(care, g)
        if unsat(c):
            continue
        gs = 0
        if y.op == "adt" and y.a[0].split("::")[-1] == "J":
            s, isseq = jpayload(y, "Seq")
            if isseq == 0:
                out.append((where, "a list is written as %s" % show(y, 3)))
                continue
            want = mk("seq", mk("pc", 1, lst, (mk("pi", 1, mk("call", "ser", mk("elem", lst, 0))),)))
            continue_diff(where, s, lst, c, out)
            continue
        if y.op == "call" and y.a[0] == "ser":
            z0 = y.a[1]
            if z0.op == "first" and z0.a[0] is lst:
                pass
            one = bdd.atom(mk("equal", mk("int", 1), mk("call", "len", lst)))
            if z0.op == "first" and z0.a[0] is lst:
                d = AND(c, NOT(one))
                if not unsat(d):
                    out.append((where, "only the first item is written when %s" % showb(d, 2)))
                continue
            if z0 is lst:
                continue
        gate(y, ("B", c))
        out.append((where, "found %s, required the items of %s" % (show(y, 3), show(lst, 3))))


def continue_diff(where, s, lst, care, out):
    """The written list holds every item of lst, in order."""
    ps = [p for p in parts_of(s) if not unsat(AND(p.a[0], care))]
    if not ps and unsat(AND(care, nonempty(lst))):
        return
    if len(ps) == 1 and ps[0].op == "pc" and ps[0].a[1] is lst:
        d = AND(care, NOT(ps[0].a[0]))
        inner = ps[0].a[2]
        if len(inner) == 1 and inner[0].op == "pi" and inner[0].a[0] == 1:
            y = inner[0].a[1]
            if y.op == "call" and y.a[0] == "ser" and y.a[1].op == "elem" and y.a[1].a[0] is lst and unsat(AND(d, nonempty(lst))):
                return
    gate(s, ("B", care))
    out.append((where, "the written list is %s, not the items of %s" % (show(s, 5), show(lst, 3))))


def members(t):
    return TD.get(t, PR.get(t))




for b in ("maximum", "minimum"):
    for i in ("", "i"):
        TD[b + i] = [(b, "!Inclusive", "b"), ("exclusive" + b.capitalize(), "!Exclusive", "b")]
ALLT = {nm(x): x for x in TYPES}


def prob(t):
    return ["s_" + t]


def present_rule(t, row):
    """When the member is set, a member of its name is written."""
    def f(env):
        bad, ws = written(env, "s_" + t)
        g = expected(z(env, t), row)[0]
        cov = bdd.anyn(ge for ge, k, x in ws if k in (row[0], row[1].split(".")[-1]))
        return guard_diff(AND(g, AND(NOT(cov), NOT(bad))), [], "the member is set and not written", "%s.%s" % (t, row[1]))
    return f


def row_rule(t, row, names=None):
    """When the member is set, its value is written under its name."""
    names = names or (row[0],)

    def f(env):
        bad, ws = written(env, "s_" + t)
        g, want, lst = expected(z(env, t), row)
        out, cov = [], 0
        for ge, k, x in ws:
            if k not in names:
                continue
            care = AND(ge, g)
            if unsat(care):
                continue
            o = []
            if lst is not None:
                shape(x, lst, care, "%s.%s" % (t, row[0]), o)
            else:
                diff("%s.%s" % (t, row[0]), x, want, care, o)
            if o:
                out += o
            else:
                cov = OR(cov, ge)
        miss = AND(g, AND(NOT(cov), NOT(bad)))
        if unsat(miss):
            return []
        gate(("B", miss))
        return out or [("%s.%s" % (t, row[1]), "is not written under the name %s when %s" % (row[0], showb(miss, 3)[:300]))]
    return f


def names_rule(t):
    def f(env):
        bad, ws = written(env, "s_" + t)
        keys = {r[0] for r in members(t)}
        if t in TAGS:
            keys.add(TAGS[t][0])
        out = []
        for ge, k, x in ws:
            if k not in keys:
                gate(("B", ge))
                out.append((t, "writes a member named %s" % k))
        return out
    return f


def total_rule(t):
    def f(env):
        bad, ws = written(env, "s_" + t)
        return guard_diff(bad, [], "writing a %s fails or does not give an object" % ALLT[t], t)
    return f


def unset_rule(t):
    """A member that is not set is not written."""
    def f(env):
        bad, ws = written(env, "s_" + t)
        out = []
        for key in sorted({r[0] for r in members(t) if r[0]}):
            rows = [r for r in members(t) if r[0] == key]
            if any(r[2] == "x" for r in rows):
                continue
            g = bdd.anyn(expected(z(env, t), r)[0] for r in rows)
            if t in TAGS and TAGS[t][0] == key:
                g = OR(g, walk(z(env, t), TAGS[t][1])[0])
            for ge, k, x in ws:
                if k == key:
                    guard_diff(AND(ge, NOT(g)), out, "the member %s is written although it is not set" % key, "%s.%s" % (t, key))
        return out
    return f


def null_rule(t):
    """No unset member is written as null."""
    def f(env):
        bad, ws = written(env, "s_" + t)
        xs = {r[0] for r in members(t) if r[2] == "x"}
        out = []
        for ge, k, x in ws:
            if k is None or k in xs:
                continue
            for g, y in cases(x):
                if y.op == "adt" and y.a[0].split("::")[-1] == "J" and variants(y.a[0])[y.a[1]] == "Null":
                    guard_diff(AND(ge, g), out, "the member %s is written as null" % k, "%s.%s" % (t, k))
        return out
    return f


def collide_rule(t):
    def f(env):
        bad, ws = written(env, "s_" + t)
        out, seen = [], set()
        for i, (ge, k, x) in enumerate(ws):
            for g2, k2, x2 in ws[i + 1:]:
                if k is not None and k == k2 and k not in seen:
                    c = AND(ge, g2)
                    if not unsat(c):
                        gate(("B", c))
                        seen.add(k)
                        out.append(("%s.%s" % (t, k), "two members are written under the name %s when %s" % (k, showb(c, 3)[:200])))
        return out
    return f


def disjoint_rule(a, b):
    """Two layers that are written in the same object, each from its own type."""
    def f(env):
        na, nb = ({k for ge, k, x in written(env, "s_" + t)[1] if k is not None and not unsat(ge)} for t in (a, b))
        xs = {r[0] for t in (a, b) for r in members(t) if r[2] == "x"}
        return [("%s and %s" % (ALLT[a], ALLT[b]), "both write a member named %s" % k) for k in sorted((na & nb) - xs)]
    return f


def tag_rule(t, path, name):
    key, base, _ = TAGS[t]

    def f(env):
        bad, ws = written(env, "s_" + t)
        v = z(env, t)
        g, _x = walk(v, (base + "." + path).strip("."))
        cov, out = 0, []
        for ge, k, x in ws:
            if k != key:
                continue
            care = AND(ge, g)
            if unsat(care):
                continue
            o = []
            diff("%s.%s" % (t, key), x, mk("call", "ser", strlit(name)), care, o)
            out += o
            if not o:
                cov = OR(cov, ge)
        miss = AND(g, AND(NOT(cov), NOT(bad)))
        if unsat(miss):
            return []
        gate(("B", miss))
        return out or [("%s.%s" % (t, key), "the name %s is not written" % name)]
    return f


for t in TD:
    ent = ["s_" + t]
    rule("P16", "writing a %s succeeds" % ALLT[t], ent, total_rule(t), "serialising gives an object for every value")
    rule("P16", "%s writes no other member" % ALLT[t], ent, names_rule(t), "every name written is a name of the vocabulary")
    for r in TD[t]:
        if r[2] == "x" or r[0] is None:
            continue
        rule("P16", "%s.%s is written as %s" % (t, r[1], r[0]), ent, row_rule(t, r), "the member, when set, is written under its name with its value")
        # the name a member is written under is judged by P16; here, that what was parsed into it is written again
        rule("P17", "%s.%s is written with its value" % (t, r[1]), ent, row_rule(t, r, (r[0], r[1].split(".")[-1])),
             "what is parsed into the member is written from it")
        if r[2] not in ("v", "b", "mm"):
            rule("P18", "%s.%s is written when set" % (t, r[1]), ent, present_rule(t, r), "an optional member is written whenever it is set")
    if any(r[2] not in ("v", "x", "b", "mm") for r in TD[t]):
        rule("P18", "%s omits unset members" % ALLT[t], ent, unset_rule(t), "a member is written only when it is set")
        rule("P18", "%s writes no null" % ALLT[t], ent, null_rule(t), "no unset member is written as null")
    if any(r[2] == "x" or "." in r[1] for r in TD[t]):
        rule("P22", "layers of %s write distinct names" % ALLT[t], ent, collide_rule(t), "no name is written by two layers of the object")
    for r in TD[t]:
        if r[2] == "x":
            rule("P22", "%s.%s is written" % (t, r[1]), ent, row_rule(t, r), "the members of the extension are written in the object")
for group in (("form", "http_form", "coap_form", "mqtt_form"), ("expectedresponse", "http_response", "coap_expectedresponse")):
    for i, a in enumerate(group):
        for b in group[i + 1:]:
            rule("P22", "%s and %s write distinct names" % (ALLT[a], ALLT[b]), ["s_" + a, "s_" + b], disjoint_rule(a, b),
                 "members of the vocabulary and of the protocols meet in one object")
for t in PR:
    ent = ["s_" + t]
    rule("P23", "writing a %s succeeds" % ALLT[t], ent, total_rule(t), "serialising gives an object for every value")
    rule("P23", "%s writes no other member" % ALLT[t], ent, names_rule(t), "every name written is a name of the vocabulary")
    each(("P18", "P23"), "%s omits unset members" % ALLT[t], ent, unset_rule(t), "a member is written only when it is set")
    each(("P18", "P23"), "%s writes no null" % ALLT[t], ent, null_rule(t), "no unset member is written as null")
    for r in PR[t]:
        rule("P23", "%s.%s is written as %s" % (t, r[1], r[0]), ent, row_rule(t, r), "the member, when set, is written under its name with its value")
        rule("P17", "%s.%s is written with its value" % (t, r[1]), ent, row_rule(t, r, (r[0], r[1].split(".")[-1])),
             "what is parsed into the member is written from it")
        if r[2] != "v":
            rule("P18", "%s.%s is written when set" % (t, r[1]), ent, present_rule(t, r), "an optional member is written whenever it is set")
for t, (key, base, tags) in TAGS.items():
    for path, name in tags:
        rule("P21", "%s %s is written as %s" % (t, path[1:], name), ["s_" + t], tag_rule(t, path, name), "each kind is written as its own name")


def enum_rule(t, var, val):
    def f(env):
        v = env.val("s_" + t)
        x = z(env, t)
        p = tpath(x)
        vs = variants(p)
        hit = [i for i, n in enumerate(vs) if n == var or n.lower() == var]
        if not hit:
            raise Fail("%s has no variant for %s" % (p, var))
        care = is_variant(x, p, hit[0])
        out = []
        guard_diff(AND(care, NOT(okg(v))), out, "writing fails", t)
        s, isk = jpayload(payload(v), "Int" if isinstance(val, int) else "Str")
        guard_diff(AND(care, NOT(isk)), out, "is not written as a %s" % ("number" if isinstance(val, int) else "text"), t)
        if not out:
            diff("%s::%s" % (t, vs[hit[0]]), s, mk("int", val) if isinstance(val, int) else strlit(val), care, out)
        return out
    return f


def enum_all(t):
    def f(env):
        env.val("s_" + t)
        vs = variants(tpath(z(env, t)))
        known = ENUMS[t] if isinstance(ENUMS[t], dict) else {n: n for n in ENUMS[t]}
        return [("%s::%s" % (t, n), "is not a value of the vocabulary") for n in vs if n not in known and n.lower() not in known]
    return f


for t, tab in ENUMS.items():
    tab = tab if isinstance(tab, dict) else {n: n for n in tab}
    pid = ("P21",) if "_" not in t else ("P21", "P23")
    each(pid, "values of %s" % ALLT[t], ["s_" + t], enum_all(t), "every value has a name in the vocabulary")
    for var, val in tab.items():
        each(pid, "%s %s is written as %s" % (ALLT[t], var, val), ["s_" + t], enum_rule(t, var, val), "each value is written as its own name")


def many_rule(t, row):
    """One value or a list."""
    return row_rule(t, row)


for t, rows in list(TD.items()) + list(PR.items()):
    for r in rows:
        if r[2] in ("om", "mm", "e"):
            rule("P20", "%s.%s is written as one value or a list" % (t, r[1]), ["s_" + t], row_rule(t, r), "the written form holds every item in order")


def items_rule(env):
    v = env.val("s_boxedelemorvec")
    x = z(env, "boxedelemorvec")
    out = []
    guard_diff(NOT(okg(v)), out, "writing fails", "items")
    g, one = walk(x, "!Elem")
    j = payload(v)
    # a single schema is written as its own members, exactly as the schema itself is
    sub = env.val("s_dsx")
    g2, lst = walk(x, "!Vec")
    shape(simp(j, g2), lst, AND(g2, okg(v)), "items", out)
    m, ismap = jpayload(j, "Map")
    guard_diff(AND(g, NOT(ismap)), out, "a single schema is not written as an object", "items")
    return out


rule("P20", "items is written as one schema or a list", ["s_boxedelemorvec", "s_dsx"], items_rule, "one schema as an object, several as a list of them")


def ops_rule(env):
    v = env.val("s_defaultedformoperations")
    x = z(env, "defaultedformoperations")
    g, lst = walk(x, "!Custom")
    care = AND(g, AND(okg(v), nonempty(lst)))
    out = []
    guard_diff(NOT(okg(v)), out, "writing fails", "op")
    shape(payload(v), lst, care, "op", out)
    return out


rule("P20", "op is written as one value or a list", ["s_defaultedformoperations"], ops_rule, "the written form holds every operation in order")
