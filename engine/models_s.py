"""Models of the serialisation side: nested values are kept as they are, wrappers are opened."""
from models import *
from models import M
from core import get

LEAF_STR = {"alloc::string::String", "str", "bool", "u8", "u16", "u32", "u64", "usize", "i8", "i16", "i32", "i64", "f32", "f64",
            "core::num::nonzero::NonZero<u64>", "core::num::NonZero<u64>"}


def base(ctx, i):
    t = ctx.eng.types[i]
    while t["k"] == "ref":
        t = ctx.eng.types[t["t"]]
    return t


def transparent(t):
    s = t["s"]
    return s.startswith("serde_with::") or "__SerializeWith" in s or "__DeserializeWith" in s


def leafval(v):
    return uncow(v)


@model(("serde_core::ser::Serialize", "serialize"), ("serde::ser::Serialize", "serialize"))
def m_serialize(ctx, a):
    """Writing a value nested in the analysed one: kept as the value itself."""
    ts = [ctx.eng.types[i]["s"] for i in ctx.c["a"]]
    if len(ts) < 2 or "Rec<1>" not in ts[1]:
        return None
    t = base(ctx, ctx.c["a"][0])
    d = t.get("d", "")
    if transparent(t) or d == "core::option::Option":
        return None
    if d == "alloc::boxed::Box":
        pass
    v = ctx.eng.deep(a[0], ctx.store)
    return ok(mk("call", "ser", leafval(v)))


def find_rmap(ctx, p):
    """The map under construction behind a chain of flattening serializers."""
    for _ in range(12):
        v = ctx.eng.load(ctx.store, p) if p.op == "ptr" else p
        if v.op == "adt" and v.a[0] == "RMap":
            return p
        if v.op != "adt" or len(v.a) < 3:
            return None
        p = v.a[2]
    return None


@model("serde_json::value::ser::<impl serde_core::ser::Serialize for serde_json::value::Value>::serialize")
def m_value_ser(ctx, a):
    """A JSON value merged into the object under construction."""
    v = ctx.eng.deep(a[0], ctx.store)
    if a[1].op == "adt" and "FlatMapSerializer" in a[1].a[0] or a[1].op == "adt" and "TaggedSerializer" in a[1].a[0]:
        p = find_rmap(ctx, a[1])
        if p is None or p.op != "ptr":
            return None
        old = ctx.eng.load(ctx.store, p)
        new = mk("seq", *(tuple(parts_of(old.a[2])) + (mk("pi", 1, mk("tuple", mk("call", "merged"), mk("call", "ser", v))),)))
        ctx.eng.write_ptr(ctx.store, p, mk("adt", old.a[0], old.a[1], new, *old.a[3:]))
        return ok(mk("tuple"))
    return m_serialize(ctx, a)


def date(v):
    return mk("call", "rfc3339", v)


@model("time::serde::rfc3339::option::serialize")
def m_date_o(ctx, a):
    v = ctx.eng.deep(a[0], ctx.store)
    return ok(mk_ite([(is_variant(v, OPTION, 0), adt("J", 0)), (is_variant(v, OPTION, 1), date(somep(v)))]))


@model("time::serde::rfc3339::serialize")
def m_date(ctx, a):
    return ok(date(ctx.eng.deep(a[0], ctx.store)))


def somep(v):
    if v.op == "adt":
        return v.a[2] if v.a[1] == 1 else UNDEF
    if v.op == "ite":
        return mk_ite([(g, somep(x)) for g, x in v.a[0]])
    return fld(v, 1, 0, OPTION)


def content(t, leaf):
    """An unread value kept for later: shown as an object, so that wrappers look no further."""
    k = [i for i, v in enumerate(ADTS[t]["variants"]) if v["name"] == "Map"][0]
    return adt(t, k, mk("call", "de", "Content", leaf))


def leaf_of(ctx, d, root=False):
    """The unread value behind a deserializer, or None."""
    d = simp(ctx.eng.deep(d, ctx.store), ctx.pc)
    for _ in range(3):
        if d.op != "adt":
            break
        n = d.a[0].split("::")[-1]
        if n == "VDe":
            v = d.a[2]
            if v.op == "adt" and v.a[1] == 0:
                return v.a[2]
            return None
        if n == "RDe" and root:
            v = d.a[2]
            return v.a[2] if v.op == "adt" and v.a[1] == 0 else None
        if n in ("ContentDeserializer", "ContentRefDeserializer"):
            d = get(d, "content")
            continue
        if n == "Content" and len(d.a) == 3 and d.a[2].op == "call" and d.a[2].a[0] == "de":
            return d.a[2].a[2]
        return None
    if d.op == "call" and d.a[0] == "de":
        return d.a[2]
    return None


def parsed(t, leaf):
    """Result of parsing an unread value as t."""
    g = tobdd(mk("call", "parses", t, leaf))
    return mk_ite([(g, ok(mk("call", "de", t, leaf))), (NOT(g), err(adt("Er", 4)))])


@model(("serde_core::de::Deserialize", "deserialize"), ("serde::de::Deserialize", "deserialize"))
def m_deserialize(ctx, a):
    """Parsing a value that is not looked at: any value of the type, or a failure."""
    t = ctx.eng.types[ctx.c["a"][0]]
    leaf = leaf_of(ctx, a[0], t.get("d", "").endswith("::Content"))
    if leaf is None:
        return None
    if t.get("d", "").endswith("::Content"):
        return ok(content(t["d"], leaf))
    if t.get("d", "").endswith("::IgnoredAny"):
        return ok(adt(t["d"], 0))
    if transparent(t):
        return None
    if t.get("d") == OPTION:
        x = parsed(ctx.eng.types[t["a"][0]]["s"], leaf)
        return mk_ite([(g, ok(some(y.a[2])) if y.a[1] == 0 else y) for g, y in cases(x)])
    return parsed(t["s"], leaf)


@model(("serde_with::de::DeserializeAs", "deserialize_as"))
def m_deserialize_as(ctx, a):
    """A list of unread values."""
    leaf = leaf_of(ctx, a[0])
    ts = [ctx.eng.types[i] for i in ctx.c["a"]]
    if leaf is None or not ts[0]["s"].startswith("alloc::vec::Vec<") or not ts[0]["s"].endswith("<serde_with::Same>"):
        return None
    return parsed(ts[1]["s"], leaf)


@model(("serde_core::de::Deserializer", "__deserialize_content_v1"))
def m_content(ctx, a):
    leaf = leaf_of(ctx, a[0], True)
    return None if leaf is None else ok(content("serde_core::private::content::Content", leaf))


@model("time::serde::rfc3339::option::deserialize")
def m_date_de(ctx, a):
    leaf = leaf_of(ctx, a[0])
    if leaf is None:
        return None
    x = parsed("date", leaf)
    return mk_ite([(g, ok(some(y.a[2])) if y.a[1] == 0 else y) for g, y in cases(x)])


@model("serde::private::de::content::content_clone")
def m_content_clone(ctx, a):
    return ctx.eng.deep(a[0], ctx.store)


def put(ctx, f, s):
    old = ctx.eng.load(ctx.store, f)
    ctx.eng.write_ptr(ctx.store, f, mk("call", "put", old, ctx.eng.deep(s, ctx.store)))
    return ok(mk("tuple"))


@model("core::fmt::Formatter::<'a>::write_str", "core::fmt::Formatter::<'a>::pad", "<core::fmt::Formatter<'_> as core::fmt::Write>::write_str")
def m_put(ctx, a):
    return put(ctx, a[0], a[1]) if a[0].op == "ptr" else None


@model("<str as core::fmt::Display>::fmt", "<alloc::string::String as core::fmt::Display>::fmt")
def m_put2(ctx, a):
    return put(ctx, a[1], a[0]) if a[1].op == "ptr" else None


FORCE = {("serde_core::de::Deserializer", "__deserialize_content_v1"), ("serde_with::de::DeserializeAs", "deserialize_as"), ("serde_core::de::Deserialize", "deserialize"), ("serde::de::Deserialize", "deserialize"),
("serde_core::ser::Serialize", "serialize"), ("serde::ser::Serialize", "serialize")}


def install_s(e):
    install(e)
    e.force = e.force | FORCE
    return e
