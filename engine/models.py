"""Abstract semantics of the standard-library functions the analysed crate uses."""
import bdd
from bdd import AND, OR, NOT
from terms import *  # noqa
from interp import Engine, Opaque, Ctx

M = {}


def model(*keys):
    def deco(f):
        for k in keys:
            M[k] = f
        return f
    return deco


def ident(ctx, a):
    return ctx.eng.load(ctx.store, a[0]) if a[0].op == "ptr" and not is_mutref(ctx, 0, ret=True) else a[0]


def is_mutref(ctx, i, ret=False):
    t = ctx.eng.types[ctx.desty] if ret else ctx.eng.types[ctx.argtys[i]]
    return t["k"] == "ref" and t["m"]


def val(ctx, a):
    """The value behind a possible mutable reference."""
    n = 0
    while n < 4:
        if a.op == "ptr" or (a.op == "ite" and any(x.op == "ptr" for _, x in a.a[0])):
            a = ctx.eng.load(ctx.store, a)
            n += 1
        else:
            break
    return a


ITER = "core::iter::traits::iterator::Iterator"
V = "alloc::vec::Vec::<T, A>::"
LISTS = ("alloc::vec::Vec", "alloc::collections::vec_deque::VecDeque")
HM = "std::collections::hash::map::HashMap::"
SL = "core::slice::<impl [T]>::"

IDENT = [
    ("core::clone::Clone", "clone"),
    ("alloc::borrow::ToOwned", "to_owned"),
    ("alloc::string::SpecToString", "spec_to_string"),
    ("core::ops::deref::Deref", "deref"),
    ("core::ops::deref::DerefMut", "deref_mut"),
    ("core::borrow::Borrow", "borrow"),
    ("core::convert::AsRef", "as_ref"),
    ("core::convert::AsMut", "as_mut"),
    "alloc::string::String::as_str", "alloc::string::String::into_boxed_str", V + "as_slice", V + "as_mut_slice",
    "alloc::slice::<impl [T]>::to_vec", "alloc::slice::<impl [T]>::into_vec", V + "into_boxed_slice",
    "alloc::boxed::Box::<T>::new", "alloc::boxed::Box::<T, A>::into_inner",
    "alloc::str::<impl alloc::borrow::ToOwned for str>::to_owned",
    "alloc::str::<impl str>::to_owned", "alloc::str::<impl str>::into_string",
    SL + "iter", SL + "as_ref", "alloc::collections::vec_deque::VecDeque::<T, A>::iter",
    "core::hint::black_box",
    (ITER, "copied"), (ITER, "cloned"), (ITER, "by_ref"), (ITER, "fuse"), (ITER, "peekable"),
    "alloc::borrow::Cow::<'_, B>::into_owned",
    "core::str::<impl str>::as_ref", "core::str::<impl str>::as_str",
    "core::array::<impl [T; N]>::as_slice", "core::array::<impl [T; N]>::each_ref",
]


def m_ident(ctx, a):
    v = a[0]
    t = ctx.eng.types[ctx.desty]
    if t["k"] == "ref" and t["m"]:
        return v
    if ctx.c.get("m") == "by_ref":
        return v
    v = val(ctx, v)
    if ctx.c.get("m") == "deref":
        v = uncow(v)
    if ctx.c.get("m") == "as_ref" and ctx.c.get("unres"):
        return mk("call", "as_ref", ctx.eng.types[ctx.c["a"][1]]["s"] if len(ctx.c["a"]) > 1 else "", v)
    return v


def uncow(v):
    if v.op == "adt" and v.a[0] == "alloc::borrow::Cow":
        return v.a[2]
    if v.op == "ite":
        return mk_ite([(g, uncow(x)) for g, x in v.a[0]])
    return v


for k in IDENT:
    M[k] = m_ident


@model("alloc::string::String::from", ("core::convert::From", "from"), ("core::convert::Into", "into"))
def m_from(ctx, a):
    c = ctx.c
    s = [ctx.eng.types[i]["s"] for i in c["a"]]
    if c.get("b") is not None:
        return None
    if len(s) >= 2:
        strs = ("alloc::string::String", "&str", "str", "&alloc::string::String", "alloc::boxed::Box<str>",
                "alloc::borrow::Cow<'_, str>", "&mut str")
        if s[0] in strs and s[1] in strs:
            return val(ctx, a[0])
        if s[0] == s[1]:
            return a[0]
        if ctx.name.startswith("<alloc::boxed::Box<T> as core::convert::From<T>>"):
            return a[0]
        if "alloc::vec::Vec" in s[0] and ("alloc::vec::Vec" in s[1] or s[1].startswith("[") or s[1].startswith("&")):
            return val(ctx, a[0])
        if c.get("unres"):
            src, dst = (s[0], s[1]) if c["m"] == "into" else (s[1], s[0])
            v = ctx.eng.deep(a[0], ctx.store)
            return mk("call", "into", dst, v)
    return None


@model(("alloc::string::ToString", "to_string"))
def m_to_string(ctx, a):
    s = ctx.eng.types[ctx.argtys[0]]["s"].lstrip("&")
    if s in ("alloc::string::String", "str") or "Cow<" in s:
        return uncow(val(ctx, a[0]))
    return mk("call", "to_string", ctx.eng.deep(a[0], ctx.store))


@model(("core::default::Default", "default"))
def m_default(ctx, a):
    c = ctx.c
    if c.get("b") is not None:
        return None
    t = ctx.eng.types[ctx.desty]
    d = t.get("d", "")
    if t["k"] == "ref":
        t2 = ctx.eng.types[t["t"]]
        if t2["k"] == "slice":
            return seq([])
        if t2["k"] == "str":
            return mk("str", "")
    if d in LISTS:
        return seq([])
    if d == "alloc::string::String" or t["k"] == "str":
        return mk("str", "")
    if is_map(d) or is_set(d):
        return mkmap(None, [])
    if t["k"] == "bool":
        return FALSE
    if t["k"] in ("int", "uint"):
        return mk("int", 0)
    if t["k"] == "float":
        return mk("float", "0.0")
    if t["k"] == "tuple" and not t["a"]:
        return UNIT
    if d == "alloc::boxed::Box":
        it = ctx.eng.types[t["a"][0]]
        return mk("new", "Default", it["s"])
    return mk("new", "Default", t["s"])


def is_map(d):
    return d in ("std::collections::hash::map::HashMap", "alloc::collections::btree::map::BTreeMap", "serde_json::map::Map")


def is_set(d):
    return d in ("std::collections::hash::set::HashSet", "alloc::collections::btree::set::BTreeSet")


@model(("core::cmp::PartialEq", "eq"), ("core::cmp::PartialEq", "ne"))
def m_eq(ctx, a):
    if ctx.c.get("b") is not None:
        return None
    t0 = ctx.eng.types[ctx.argtys[0]]
    while t0["k"] == "ref":
        t0 = ctx.eng.types[t0["t"]]
    x, y = uncow(ctx.eng.deep(a[0], ctx.store)), uncow(ctx.eng.deep(a[1], ctx.store))
    d = t0.get("d", "")
    if d in LISTS + ("alloc::boxed::Box",) or t0["k"] in ("slice", "array") or is_map(d) or is_set(d):
        g = veq(x, y)
    elif ctx.name.startswith("core::cmp::impls") and t0["k"] == "float":
        g = order(x, y, True)[1]
    else:
        g = veq(x, y)
    return mkb(NOT(g) if ctx.c.get("m") == "ne" else g)


@model("core::str::traits::<impl core::cmp::PartialEq for str>::eq")
def m_streq(ctx, a):
    return mkb(veq(uncow(val(ctx, a[0])), uncow(val(ctx, a[1]))))


@model(("core::cmp::PartialOrd", "partial_cmp"), ("core::cmp::Ord", "cmp"))
def m_pcmp(ctx, a):
    if ctx.c.get("b") is not None:
        return None
    x, y = ctx.eng.deep(a[0], ctx.store), ctx.eng.deep(a[1], ctx.store)
    t0 = ctx.eng.types[ctx.argtys[0]]
    while t0["k"] == "ref":
        t0 = ctx.eng.types[t0["t"]]
    part = t0["k"] not in ("int", "uint", "char", "bool") and ctx.c["m"] == "partial_cmp"
    L, E, G, U = order(x, y, part)
    r = mk_ite([(L, adt(ORDERING, 0)), (E, adt(ORDERING, 1)), (G, adt(ORDERING, 2))])
    if ctx.c["m"] == "cmp":
        return r
    return mk_ite([(U, none()), (NOT(U), some(r))])


def _rel(name):
    def f(ctx, a):
        if ctx.c.get("b") is not None:
            return None
        x, y = ctx.eng.deep(a[0], ctx.store), ctx.eng.deep(a[1], ctx.store)
        t0 = ctx.eng.types[ctx.argtys[0]]
        while t0["k"] == "ref":
            t0 = ctx.eng.types[t0["t"]]
        L, E, G, U = order(x, y, t0["k"] not in ("int", "uint", "char", "bool"))
        return mkb({"lt": L, "le": OR(L, E), "gt": G, "ge": OR(G, E)}[name])
    return f


for n in ("lt", "le", "gt", "ge"):
    M[("core::cmp::PartialOrd", n)] = _rel(n)


@model("core::mem::take")
def m_take(ctx, a):
    old = ctx.eng.load(ctx.store, a[0])
    t = ctx.eng.types[ctx.desty]
    d = t.get("d", "")
    if d in LISTS:
        new = seq([])
    elif is_map(d) or is_set(d):
        new = mkmap(None, [])
    elif d == "alloc::string::String":
        new = mk("str", "")
    elif d == OPTION:
        new = none()
    elif t["k"] == "bool":
        new = FALSE
    else:
        new = mk("new", "Default", t["s"])
    ctx.eng.write_ptr(ctx.store, a[0], new)
    return old


@model("core::mem::replace")
def m_replace(ctx, a):
    old = ctx.eng.load(ctx.store, a[0])
    ctx.eng.write_ptr(ctx.store, a[0], a[1])
    return old


@model("core::mem::swap")
def m_swap(ctx, a):
    x, y = ctx.eng.load(ctx.store, a[0]), ctx.eng.load(ctx.store, a[1])
    ctx.eng.write_ptr(ctx.store, a[0], y)
    ctx.eng.write_ptr(ctx.store, a[1], x)
    return UNIT


@model("core::mem::drop", "core::mem::forget", "core::hint::assert_unchecked")
def m_unit(ctx, a):
    return UNIT


# ---------------------------------------------------------------- Option helpers with unsafe bodies

def _opt_fill(ctx, p, mkval):
    """Make *p Some(..) if it is None; pointer to the payload."""
    e = ctx.eng
    old = e.load(ctx.store, p)
    isn = is_variant(old, OPTION, 0)
    if isn != 0:
        new = mkval()
        old2 = e.load(ctx.store, p)
        v = mk_ite([(isn, some(new)), (NOT(isn), some(proj(old2, 0, 1, OPTION)))])
        e.write_ptr(ctx.store, p, v)
    out = []
    for g, f, l, pr in e.ptr_locs(p):
        out.append((g, mk("ptr", f, l, pr + (("f", 0, 1, OPTION),))))
    return out[0][1] if len(out) == 1 else mk_ite(out)


@model("core::option::Option::<T>::get_or_insert_with")
def m_goiw(ctx, a):
    def f():
        v, okg = ctx.eng.call_value(ctx, a[1], [])
        return v
    return _opt_fill(ctx, a[0], f)


@model("core::option::Option::<T>::get_or_insert")
def m_goi(ctx, a):
    return _opt_fill(ctx, a[0], lambda: a[1])


@model("core::option::Option::<T>::get_or_insert_default")
def m_goid(ctx, a):
    t = ctx.eng.types[ctx.eng.types[ctx.desty]["t"]]

    def f():
        d = t.get("d", "")
        if d in LISTS:
            return seq([])
        if is_map(d) or is_set(d):
            return mkmap(None, [])
        return mk("new", "Default", t["s"])
    return _opt_fill(ctx, a[0], f)


@model("core::option::Option::<T>::insert")
def m_oins(ctx, a):
    ctx.eng.write_ptr(ctx.store, a[0], some(a[1]))
    return _opt_fill(ctx, a[0], lambda: a[1])


@model("core::option::Option::<T>::iter", "core::option::Option::<T>::into_iter", "core::option::Option::<T>::as_slice")
def m_optiter(ctx, a):
    return opt_seq(val(ctx, a[0]))


def opt_seq(v):
    g = is_variant(v, OPTION, 1)
    if g == 0:
        return seq([])
    return mk("seq", item(proj(v, 0, 1, OPTION), g))


def res_seq(v):
    g = is_variant(v, RESULT, 0)
    if g == 0:
        return seq([])
    return mk("seq", item(proj(v, 0, 0, RESULT), g))


RANGE = "core::ops::range::Range"


def range_parts(v):
    """The numbers of `0..n`, where n is a literal or the length of a sequence."""
    lo, hi = v.a[2], v.a[3]
    if lo.op == "int" and all(x.op == "int" for _, x in cases(hi)):
        top = max(x.a[0] for _, x in cases(hi))
        if top - lo.a[0] <= 64:
            return [item(mk("int", i), OR_all(g for g, x in cases(hi) if x.a[0] > i)) for i in range(lo.a[0], top)]
    if lo.op == "int" and lo.a[0] == 0 and hi.op == "call" and hi.a[0] == "len":
        out = []
        for p in parts_of(hi.a[1]):
            if p.op == "pi":
                out.append(item(mk("call", "pos", hi.a[1], p.a[1]), p.a[0]))
            elif p.op == "ps":
                out.append(mkpc(p.a[0], p.a[1], [item(mk("call", "pos", hi.a[1], mk("elem", p.a[1])))]))
            elif p.op == "pc":
                if any(q.op != "pi" for q in p.a[2]):
                    raise Opaque("a range over the length of a nested sequence")
                out.append(mkpc(p.a[0], p.a[1], [item(mk("call", "pos", hi.a[1], q.a[1]), q.a[0]) for q in p.a[2]]))
            else:
                raise Opaque("a range over the length of an unknown sequence")
        return out
    raise Opaque("a range with unknown bounds")


def OR_all(gs):
    return bdd.anyn(list(gs))


def is_range(v):
    return v.op == "adt" and v.a[0].startswith(RANGE) and "RangeFull" not in v.a[0] or \
        v.op == "ite" and any(is_range(x) for _, x in v.a[0])


def range_seq(v):
    if v.op == "ite":
        return parts_of(mk_ite([(g, mkseq(range_seq(x))) for g, x in v.a[0]]))
    if v.op != "adt" or v.a[0] != RANGE or len(v.a) != 4:
        raise Opaque("a range with unknown bounds")
    return range_parts(v)


def as_seq(ctx, v, ty):
    """Parts of an iterable value of type ty."""
    e = ctx.eng
    v = val(ctx, v)
    if is_range(v):
        return range_seq(v)
    t = e.types[ty] if ty is not None else None
    while t and t["k"] == "ref":
        t = e.types[t["t"]]
    d = t.get("d", "") if t else ""
    if d == OPTION or (v.op == "adt" and v.a[0] == OPTION):
        return parts_of(opt_seq(v))
    if v.op == "ite" and any(x.op == "adt" and x.a[0] == OPTION for _, x in v.a[0]):
        return parts_of(opt_seq(v))
    if d == RESULT or (v.op == "adt" and v.a[0] == RESULT):
        return parts_of(res_seq(v))
    if v.op == "map" and is_set(d):
        return [p if p.op != "pi" else item(p.a[1].a[0], p.a[0]) for p in parts_of(v)]
    return parts_of(v)


@model(("core::iter::traits::collect::IntoIterator", "into_iter"))
def m_into_iter(ctx, a):
    t = ctx.eng.types[ctx.argtys[0]]
    if t["k"] == "ref" and t["m"]:
        tt = ctx.eng.types[t["t"]]
        if tt["k"] == "adt" and tt["d"] in LISTS + (OPTION,) or tt["k"] in ("slice", "array"):
            return m_iter_mut(ctx, a)
        if tt["k"] == "adt" and is_map(tt["d"]):
            return m_values_mut_pairs(ctx, a)
        return a[0]       # an iterator by mutable reference
    if t["k"] == "adt" and t["d"] == OPTION:
        return opt_seq(val(ctx, a[0]))
    if t["k"] == "ref" and ctx.eng.types[t["t"]].get("d") == OPTION:
        return opt_seq(val(ctx, a[0]))
    v = val(ctx, a[0])
    d = t.get("d") or (ctx.eng.types[t["t"]].get("d", "") if t["k"] == "ref" else "")
    if v.op == "map" and is_set(d or ""):
        return seq(as_seq(ctx, v, ctx.argtys[0]))
    return v


@model(SL + "iter_mut", "alloc::collections::vec_deque::VecDeque::<T, A>::iter_mut")
def m_iter_mut(ctx, a):
    e = ctx.eng
    p = a[0]
    locs = e.ptr_locs(p)
    if len(locs) != 1:
        raise Opaque("iter_mut through merged references")
    _, f, l, pr = locs[0]
    v = e.load(ctx.store, p)
    t = e.types[ctx.argtys[0]]
    if e.types[t["t"]].get("d") == OPTION:
        g = is_variant(v, OPTION, 1)
        if g == 0:
            return seq([])
        return mk("seq", item(mk("ptr", f, l, pr + (("f", 0, 1, OPTION),)), g))
    ps = parts_of(v)
    out = []
    for i, q in enumerate(ps):
        if q.op == "pi":
            out.append(item(mk("ptr", f, l, pr + (("pt", i),)), q.a[0]))
        else:
            out.append(mk("pm", 1, mk("ptr", f, l, pr), i))
    return mk("seq", *out)


def m_values_mut_pairs(ctx, a):
    raise Opaque("mutable map iteration")


# ---------------------------------------------------------------- iterator adaptors

def sub_ctx(ctx, store, pc=None):
    c = Ctx(ctx.eng, store, ctx.pc if pc is None else pc, ctx.env, ctx.span, ctx.c, ctx.argtys, ctx.desty)
    c.name = ctx.name
    return c


def map_parts(ctx, f, parts, wrap, byref=False):
    out = []
    e = ctx.eng
    for p in parts:
        if p.op == "pi":
            if AND(p.a[0], ctx.pc) == 0:
                continue
            v, okg = e.call_value(ctx, f, [p.a[1]])
            ctx.ok = AND(ctx.ok, OR(okg, NOT(p.a[0])))
            for q in wrap(p.a[1], v):
                c = AND(p.a[0], q.a[0])
                if c:
                    out.append(mk(q.op, c, *q.a[1:]))
        elif p.op == "ps":
            el = mk("elem", p.a[1])
            v, okg = e.call_value(ctx, f, [el])
            if okg != 1:
                ctx.ok = AND(ctx.ok, NOT(AND(p.a[0], exists(p.a[1], NOT(okg)))))
            body = wrap(el, v)
            out.append(mkpc(p.a[0], p.a[1], body))
        elif p.op == "pc":
            save, ctx.ok = ctx.ok, 1
            body = map_parts(ctx, f, p.a[2], wrap)
            ib, ctx.ok = ctx.ok, save
            if ib != 1:
                ctx.ok = AND(ctx.ok, NOT(AND(p.a[0], exists(p.a[1], NOT(ib)))))
            out.append(mkpc(p.a[0], p.a[1], body))
        else:
            raise Opaque("adaptor over mutable iteration")
    return [p for p in out if p is not None]


def mkpc(c, coll, body):
    body = [q for q in body if q is not None and q.a[0] != 0]
    if not body:
        return None
    if len(body) == 1 and body[0].op == "pi" and body[0].a[0] == 1 and body[0].a[1] is mk("elem", coll):
        return mk("ps", c, coll)
    return mk("pc", c, coll, tuple(body))


@model((ITER, "map"))
def m_map(ctx, a):
    ps = as_seq(ctx, a[0], None)
    if any(p.op == "pm" for p in ps):
        raise Opaque("map over iter_mut")
    return mkseq(map_parts(ctx, a[1], ps, lambda x, v: [item(v)]))


def mkseq(ps):
    return mk("seq", *[p for p in ps if p is not None and p.a[0] != 0])


@model((ITER, "filter"))
def m_filter(ctx, a):
    return mkseq(map_parts(ctx, a[1], as_seq(ctx, a[0], None), lambda x, v: [item(x, tobdd(v))]))


def optparts(v):
    g = is_variant(v, OPTION, 1)
    return [item(proj(v, 0, 1, OPTION), g)] if g else []


@model((ITER, "filter_map"))
def m_filter_map(ctx, a):
    return mkseq(map_parts(ctx, a[1], as_seq(ctx, a[0], None), lambda x, v: optparts(v)))


def flat(v):
    if v.op == "adt" and v.a[0] == OPTION or v.op == "ite" and any(x.op == "adt" and x.a[0] == OPTION for _, x in v.a[0]) \
            or OPAQUE_TY.get(v) == OPTION:
        return optparts(v)
    if v.op == "adt" and v.a[0] == RESULT or v.op == "ite" and any(x.op == "adt" and x.a[0] == RESULT for _, x in v.a[0]):
        return parts_of(res_seq(v))
    return parts_of(v)


def item_ty(ctx, c):
    return None


@model((ITER, "flat_map"))
def m_flat_map(ctx, a):
    d = ctx.eng.types[ctx.desty]
    # FlatMap<I, U, F>: U tells whether the closure returns an Option
    isopt = False
    if d["k"] == "adt" and len(d.get("a", [])) >= 2:
        u = ctx.eng.types[d["a"][1]]
        isopt = u.get("d") == OPTION
    w = (lambda x, v: optparts(v)) if isopt else (lambda x, v: flat(v))
    return mkseq(map_parts(ctx, a[1], as_seq(ctx, a[0], None), w))


def flatten_parts(ps, isopt=False):
    out = []
    for p in ps:
        if p.op == "pi":
            for q in (optparts(p.a[1]) if isopt else flat(p.a[1])):
                c = AND(p.a[0], q.a[0])
                if c:
                    out.append(mk(q.op, c, *q.a[1:]))
        elif p.op == "ps":
            el = mk("elem", p.a[1])
            out.append(mkpc(p.a[0], p.a[1], optparts(el) if isopt else flat(el)))
        else:
            out.append(mkpc(p.a[0], p.a[1], flatten_parts(p.a[2], isopt)))
    return [x for x in out if x is not None]


@model((ITER, "flatten"))
def m_flatten(ctx, a):
    # is the item an Option?
    isopt = False
    t = ctx.eng.types[ctx.argtys[0]]
    s = t["s"]
    ps = as_seq(ctx, a[0], None)
    if "Option" in s and not any(p.op == "pi" and p.a[1].op not in ("adt", "ite", "fld", "sym") for p in ps):
        isopt = opt_item(s)
    return mkseq(flatten_parts(ps, isopt))


def opt_item(s):
    """Does the printed iterator type yield Options (or references to them)?"""
    for pre in ("core::option::IntoIter<", "core::option::Iter<", "core::slice::iter::Iter<", "alloc::vec::into_iter::IntoIter<",
                "core::array::iter::IntoIter<"):
        if s.startswith(pre):
            r = s[len(pre):].lstrip("'_, &")
            return r.startswith("core::option::Option<")
    return "core::option::Option<" in s.split("{")[0]


@model("core::iter::sources::once::once")
def m_once(ctx, a):
    return mkseq([item(a[0])])


@model("core::iter::sources::empty::empty")
def m_empty_iter(ctx, a):
    return mkseq([])


@model((ITER, "chain"))
def m_chain(ctx, a):
    t = ctx.argtys[1] if len(ctx.argtys) > 1 else None
    return mkseq(as_seq(ctx, a[0], None) + as_seq(ctx, a[1], t))


@model((ITER, "rev"), "alloc::slice::<impl [T]>::reverse_")
def m_rev(ctx, a):
    ps = as_seq(ctx, a[0], None)
    if all(p.op == "pi" for p in ps):
        return mkseq(list(reversed(ps)))
    return mk("call", "rev", mkseq(ps))


@model((ITER, "enumerate"))
def m_enum(ctx, a):
    ps = as_seq(ctx, a[0], None)
    out = []
    n = 0
    for p in ps:
        if p.op == "pi" and p.a[0] == 1 and n is not None:
            out.append(item(mk("tuple", mk("int", n), p.a[1])))
            n += 1
        elif p.op == "pi":
            n = None
            out.append(item(mk("tuple", mk("call", "pos", mkseq(ps), p.a[1]), p.a[1]), p.a[0]))
        elif p.op == "ps":
            n = None
            el = mk("elem", p.a[1])
            out.append(mkpc(p.a[0], p.a[1], [item(mk("tuple", mk("call", "pos", mkseq(ps), el), el))]))
        elif p.op == "pc" and all(q.op == "pi" for q in p.a[2]):
            n = None
            out.append(mkpc(p.a[0], p.a[1], [item(mk("tuple", mk("call", "pos", mkseq(ps), q.a[1]), q.a[1]), q.a[0]) for q in p.a[2]]))
        else:
            raise Opaque("positions in a nested sequence")
    return mkseq(out)


@model((ITER, "zip"))
def m_zip(ctx, a):
    ps = as_seq(ctx, a[0], None)
    qs = as_seq(ctx, a[1], None)
    if all(p.op == "pi" and p.a[0] == 1 for p in ps + qs):
        return mkseq([item(mk("tuple", p.a[1], q.a[1])) for p, q in zip(ps, qs)])
    return mk("call", "zip", mkseq(ps), mkseq(qs))


def _takeskip(kind):
    def f(ctx, a):
        ps = as_seq(ctx, a[0], None)
        n = a[1]
        if n.op == "int":
            k = n.a[0]
            if all(p.op == "pi" and p.a[0] == 1 for p in ps[:k]):
                if kind == "take" and len(ps) >= k or kind == "take" and all(p.op == "pi" for p in ps):
                    return mkseq(ps[:k])
                if kind == "skip" and (len(ps) >= k):
                    return mkseq(ps[k:])
        return mk("call", kind, mkseq(ps), n)
    return f


M[(ITER, "take")] = _takeskip("take")
M[(ITER, "skip")] = _takeskip("skip")


def _while(kind):
    def f(ctx, a):
        ps = as_seq(ctx, a[0], None)
        if kind == "skip" and len(ps) == 1 and ps[0].op == "ps" and ps[0].a[0] == 1:
            el = mk("elem", ps[0].a[1])
            r = tobdd(ctx.eng.call_value(sub_ctx(ctx, dict(ctx.store)), a[1], [el])[0])
            return mk("call", "skip_while", ps[0].a[1], mkb(r))
        if not all(p.op == "pi" for p in ps):
            raise Opaque(kind + "_while on an unknown sequence")
        out = []
        on = 1 if kind == "take" else 0        # the elements are taken
        for p in ps:
            r = tobdd(ctx.eng.call_value(ctx, a[1], [p.a[1]])[0])
            if kind == "take":
                on = AND(on, OR(NOT(p.a[0]), r))
            else:
                on = OR(on, AND(p.a[0], NOT(r)))
            out.append(item(p.a[1], AND(p.a[0], on)))
        return mkseq(out)
    return f


M[(ITER, "take_while")] = _while("take")
M[(ITER, "skip_while")] = _while("skip")


@model(V + "dedup", V + "dedup_by_key", V + "dedup_by", V + "sort", V + "sort_by", V + "sort_unstable", V + "truncate", V + "rotate_left")
def m_reshape(ctx, a):
    """Reorders or drops items: the outcome is another list unless there is nothing to reshape."""
    nm = ctx.name.rsplit("::", 1)[-1]
    v = val(ctx, a[0])
    ps = parts_of(v)
    if nm != "truncate" and len(ps) <= 1 and all(p.op == "pi" for p in ps):
        return UNIT
    if nm == "truncate" and a[1].op == "int" and all(p.op == "pi" and p.a[0] == 1 for p in ps):
        ctx.eng.write_ptr(ctx.store, a[0], seq(ps[:a[1].a[0]]))
        return UNIT
    if nm == "dedup" and all(p.op == "pi" for p in ps):
        out = [ps[0]]
        for i in range(1, len(ps)):
            p = ps[i]
            # dropped when it equals the item present before it
            same, none_between = 0, 1
            for q in reversed(ps[:i]):
                same = OR(same, AND(none_between, AND(q.a[0], veq(q.a[1], p.a[1]))))
                none_between = AND(none_between, NOT(q.a[0]))
            out.append(item(p.a[1], AND(p.a[0], NOT(same))))
        ctx.eng.write_ptr(ctx.store, a[0], mkseq(out))
        return UNIT
    ctx.eng.write_ptr(ctx.store, a[0], mk("seq", mk("ps", 1, mk("call", "reshaped " + nm, mkseq(ps)))))
    return UNIT


def _valproj(i):
    def f(ctx, a):
        v = val(ctx, a[0])
        out = []
        for p in parts_of(v):
            if p.op == "pi":
                out.append(item(proj(p.a[1], i), p.a[0]))
            elif p.op == "ps":
                out.append(mkpc(p.a[0], p.a[1], [item(proj(mk("elem", p.a[1]), i))]))
            else:
                out.append(mkpc(p.a[0], p.a[1], [item(proj(q.a[1], i), q.a[0]) for q in p.a[2]]))
        return mkseq(out)
    return f


for pre in (HM + "<K, V, S, A>::", HM + "<K, V, S>::", "alloc::collections::btree::map::BTreeMap::<K, V, A>::",
            "serde_json::map::Map::<alloc::string::String, serde_json::value::Value>::"):
    M[pre + "values"] = M[pre + "into_values"] = _valproj(1)
    M[pre + "keys"] = M[pre + "into_keys"] = _valproj(0)
    M[pre + "iter"] = lambda ctx, a: mkseq(parts_of(val(ctx, a[0])))
for pre in ("std::collections::hash::set::HashSet::<T, S, A>::", "std::collections::hash::set::HashSet::<T, S>::",
            "alloc::collections::btree::set::BTreeSet::<T, A>::"):
    M[pre + "iter"] = lambda ctx, a: mkseq(as_seq(ctx, a[0], ctx.argtys[0]))


# ---------------------------------------------------------------- iterator consumers

def consume(ctx, parts, accs, step, fin):
    """step(c, accs, elem) -> ([(guard, value)], (guard, accs)); fin(accs) -> value."""
    e = ctx.eng

    def run(store, acc, ev):
        st = dict(store)
        c = sub_ctx(ctx, st, 1)
        ex, (cg, ac) = step(c, acc, ev)
        return [(g, st, v) for g, v in ex if g], (cg, st, ac)

    ex, (cg, cst, cac) = e.iterate(parts, dict(ctx.store), list(accs), run, 1)
    sts = [(g, s) for g, s, v in ex]
    vals = [(g, v) for g, s, v in ex]
    if cg:
        sts.append((cg, cst))
        vals.append((cg, fin(cac)))
    tot, st = e.join(sts, None, -1)
    for k in list(ctx.store):
        if k in st:
            ctx.store[k] = st[k]
    ctx.ok = AND(ctx.ok, tot)
    return mk_ite(vals)


@model((ITER, "any"))
def m_any(ctx, a):
    def step(c, acc, ev):
        v, okg = c.eng.call_value(c, a[1], [ev])
        b = tobdd(v)
        return [(AND(okg, b), TRUE)], (AND(okg, NOT(b)), acc)
    return mvconsume(ctx, a, [], step, lambda ac: FALSE)


@model((ITER, "all"))
def m_all(ctx, a):
    def step(c, acc, ev):
        v, okg = c.eng.call_value(c, a[1], [ev])
        b = tobdd(v)
        return [(AND(okg, NOT(b)), FALSE)], (AND(okg, b), acc)
    return mvconsume(ctx, a, [], step, lambda ac: TRUE)


def mvconsume(ctx, a, accs, step, fin):
    ps = as_seq(ctx, a[0], None)
    r = consume(ctx, ps, accs, step, fin)
    if a[0].op == "ptr" and not any(p.op == "pm" for p in ps):
        ctx.eng.write_ptr(ctx.store, a[0], seq([]) if all(p.op == "pi" for p in ps) else mk("call", "rest", r))
    return r


@model((ITER, "find"))
def m_find(ctx, a):
    def step(c, acc, ev):
        v, okg = c.eng.call_value(c, a[1], [ev])
        b = tobdd(v)
        return [(AND(okg, b), some(ev))], (AND(okg, NOT(b)), acc)
    return mvconsume(ctx, a, [], step, lambda ac: none())


@model((ITER, "find_map"))
def m_find_map(ctx, a):
    def step(c, acc, ev):
        v, okg = c.eng.call_value(c, a[1], [ev])
        b = is_variant(v, OPTION, 1)
        return [(AND(okg, b), some(proj(v, 0, 1, OPTION)))], (AND(okg, NOT(b)), acc)
    return mvconsume(ctx, a, [], step, lambda ac: none())


@model((ITER, "position"))
def m_position(ctx, a):
    e = ctx.eng

    def step(c, acc, ev):
        v, okg = c.eng.call_value(c, a[1], [ev])
        b = tobdd(v)
        return [(AND(okg, b), some(acc[0]))], (AND(okg, NOT(b)), [e.binop("Add", acc[0], mk("int", 1), None)])
    return mvconsume(ctx, a, [mk("int", 0)], step, lambda ac: none())


@model((ITER, "for_each"))
def m_for_each(ctx, a):
    def step(c, acc, ev):
        v, okg = c.eng.call_value(c, a[1], [ev])
        return [], (okg, acc)
    return mvconsume(ctx, a, [], step, lambda ac: UNIT)


TRY = {RESULT: (0, 1), OPTION: (1, 0), CF: (0, 1)}


def try_split(ctx, v, path):
    """(continue guard, continue payload, break value) of a Try value."""
    cont, brk = TRY[path]
    g = is_variant(v, path, cont)
    pay = proj(v, 0, cont, path) if g else UNDEF
    if path == OPTION:
        bv = none()
    else:
        bv = mk("adt", path, brk, proj(v, 0, brk, path))
    return g, pay, bv


def ret_path(ctx):
    d = ctx.eng.types[ctx.desty].get("d")
    if d not in TRY:
        raise Opaque("try over " + str(d))
    return d


@model((ITER, "try_for_each"))
def m_try_for_each(ctx, a):
    path = ret_path(ctx)
    cont, _ = TRY[path]

    def step(c, acc, ev):
        v, okg = c.eng.call_value(c, a[1], [ev])
        g, pay, bv = try_split(ctx, v, path)
        return [(AND(okg, NOT(g)), bv)], (AND(okg, g), acc)
    return mvconsume(ctx, a, [], step, lambda ac: mk("adt", path, cont, UNIT))


@model((ITER, "try_fold"))
def m_try_fold(ctx, a):
    path = ret_path(ctx)
    cont, _ = TRY[path]

    def step(c, acc, ev):
        v, okg = c.eng.call_value(c, a[2], [acc[0], ev])
        g, pay, bv = try_split(ctx, v, path)
        return [(AND(okg, NOT(g)), bv)], (AND(okg, g), [pay])
    return mvconsume(ctx, a, [a[1]], step, lambda ac: mk("adt", path, cont, ac[0]))


@model((ITER, "fold"))
def m_fold(ctx, a):
    def step(c, acc, ev):
        v, okg = c.eng.call_value(c, a[2], [acc[0], ev])
        return [], (okg, [v])
    return mvconsume(ctx, a, [a[1]], step, lambda ac: ac[0])


@model((ITER, "count"))
def m_count(ctx, a):
    return ctx.eng.length(mkseq(as_seq(ctx, a[0], None)))


@model((ITER, "last"))
def m_last(ctx, a):
    ps = as_seq(ctx, a[0], None)
    if all(p.op == "pi" for p in ps):
        r = none()
        for p in ps:
            r = mk_ite([(p.a[0], some(p.a[1])), (NOT(p.a[0]), r)])
        return r
    return mk("call", "last", mkseq(ps))


@model((ITER, "next"))
def m_next(ctx, a):
    e = ctx.eng
    if ctx.c.get("b") is not None and False:
        return None
    it = val(ctx, a[0])
    ps = as_seq(ctx, it, None)
    r, rest = next_parts(ps)
    p = a[0]
    while p.op == "ptr":
        q = e.load(ctx.store, p)
        if q is UNDEF or q.op not in ("ptr", "ite") or q.op == "ite" and not all(x.op == "ptr" for _, x in q.a[0]):
            break
        p = q
    if p.op in ("ptr", "ite"):
        e.write_ptr(ctx.store, p, rest)
    return r


def next_parts(ps):
    if not ps:
        return none(), seq([])
    p = ps[0]
    if p.op == "pi":
        if p.a[0] == 1:
            return some(p.a[1]), mk("seq", *ps[1:])
        r, rest = next_parts(ps[1:])
        return (mk_ite([(p.a[0], some(p.a[1])), (NOT(p.a[0]), r)]),
                mk_ite([(p.a[0], mk("seq", *ps[1:])), (NOT(p.a[0]), rest)]))
    if p.op == "ps" and len(ps) == 1 and p.a[1].op == "call" and p.a[1].a[0] == "skip_while":
        _, x, r = p.a[1].a
        g = AND(p.a[0], nonempty(p.a[1]))
        return (mk_ite([(g, some(mu(x, NOT(tobdd(r)), mk("elem", x)))), (NOT(g), none())]), mk("seq", mk("ps", 1, mk("call", "tail", p.a[1]))))
    if p.op == "ps" and len(ps) == 1:
        g = AND(p.a[0], nonempty(p.a[1]))
        return (mk_ite([(g, some(mk("first", p.a[1]))), (NOT(g), none())]), mk("seq", mk("ps", 1, mk("call", "tail", p.a[1]))))
    raise Opaque("next on an unknown sequence")


@model((ITER, "unzip"))
def m_unzip(ctx, a):
    ps = as_seq(ctx, a[0], None)
    t = ctx.eng.types[ctx.desty]
    out = []
    for i in (0, 1):
        s = []
        for p in ps:
            if p.op == "pi":
                s.append(item(proj(p.a[1], i), p.a[0]))
            elif p.op == "ps":
                s.append(mkpc(p.a[0], p.a[1], [item(proj(mk("elem", p.a[1]), i))]))
            else:
                s.append(mkpc(p.a[0], p.a[1], [item(proj(q.a[1], i), q.a[0]) for q in p.a[2]]))
        out.append(build_coll(ctx, s, t["a"][i]))
    return mk("tuple", *out)


@model((ITER, "collect"), ("core::iter::traits::collect::FromIterator", "from_iter"))
def m_collect(ctx, a):
    ps = as_seq(ctx, a[0], None)
    return collect_as(ctx, ps, ctx.desty)


def collect_as(ctx, ps, ty):
    e = ctx.eng
    t = e.types[ty]
    d = t.get("d", "")
    if d in (RESULT, OPTION):
        cont, _ = TRY[d]

        def step(c, acc, ev):
            g, pay, bv = try_split(ctx, ev, d)
            return [(NOT(g), bv)], (g, [seq(parts_of(acc[0]) + [item(pay)])] if g else acc)

        return consume(ctx, ps, [seq([])], step,
                       lambda ac: mk("adt", d, cont, build_coll(ctx, parts_of(ac[0]), t["a"][0])))
    return build_coll(ctx, ps, ty)


def build_coll(ctx, ps, ty):
    e = ctx.eng
    t = e.types[ty]
    d = t.get("d", "")
    if d in LISTS or t["k"] in ("slice", "array"):
        return seq(ps)
    if d == "alloc::boxed::Box":
        return seq(ps)
    if is_map(d):
        return map_from(ps)
    if is_set(d):
        return map_from([mk("pi", p.a[0], mk("tuple", p.a[1], UNIT)) if p.op == "pi" else p for p in ps])
    if d in (RESULT, OPTION):
        return collect_as(ctx, ps, ty)
    if t["k"] == "tuple" and not t["a"]:
        return UNIT
    return mk("call", "collect", t["s"], mkseq(ps))


def map_from(ps):
    if not ps:
        return mkmap(None, [])
    n = 0
    for i, p in enumerate(ps):
        if p.op != "pi":
            n = i + 1
    if n == 0:
        m = mkmap(None, [])
    elif n == 1 and ps[0].op == "ps" and ps[0].a[0] == 1:
        m = ps[0].a[1]
    else:
        m = mk("mapof", mk("seq", *ps[:n]))
    for p in ps[n:]:
        kv = p.a[1]
        m = map_insert(m, proj(kv, 0), proj(kv, 1), p.a[0])
    return m


# ---------------------------------------------------------------- maps

def mapsplit(m):
    if m.op == "map":
        return m.a[0], list(m.a[1])
    return m, []


def map_contains(m, k):
    if m.op == "ite":
        return bdd.anyn(AND(g, map_contains(x, k)) for g, x in m.a[0])
    base, es = mapsplit(m)
    g = 0
    for c, kk, v in es:
        g = OR(g, AND(c, veq(kk, k)))
    if base is not None and base is not UNDEF:
        g = OR(g, base_contains(base, k))
    return g


def base_contains(base, k):
    if base.op == "mapof":
        g = 0
        for p in base.a[0].a:
            g = OR(g, part_has_key(p, k))
        return g
    if k.op == "ite":
        return bdd.anyn(AND(g, base_contains(base, x)) for g, x in k.a[0])
    return bdd.atom(mk("contains", base, k))


def part_has_key(p, k):
    if p.op == "pi":
        return AND(p.a[0], veq(proj(p.a[1], 0), k))
    if p.op == "ps":
        return AND(p.a[0], bdd.atom(mk("contains", p.a[1], k)))
    return AND(p.a[0], exists(p.a[1], bdd.anyn(part_has_key(q, k) for q in p.a[2])))


def map_get(m, k):
    """Value at k, assuming k is present."""
    if m.op == "ite":
        return mk_ite([(g, map_get(x, k)) for g, x in m.a[0]])
    base, es = mapsplit(m)
    cs = []
    rest = 1
    for c, kk, v in reversed(es):
        g = AND(rest, AND(c, veq(kk, k)))
        cs.append((g, v))
        rest = AND(rest, NOT(g))
    if base is not None and base is not UNDEF and rest:
        cs.append((rest, mk("mval", base, k)))
    return mk_ite(cs)


def map_insert(m, k, v, cond=1):
    if m.op == "ite":
        return mk_ite([(g, map_insert(x, k, v, cond)) for g, x in m.a[0]])
    base, es = mapsplit(m)
    out = []
    for c, kk, vv in es:
        out.append((AND(c, NOT(AND(cond, veq(kk, k)))), kk, vv))
    if base is not None and base_contains(base, k) != 0:
        # an entry of the base with this key is shadowed
        pass
    out.append((cond, k, v))
    return mkmap(base, out)


def map_remove(m, k):
    if m.op == "ite":
        return mk_ite([(g, map_remove(x, k)) for g, x in m.a[0]])
    base, es = mapsplit(m)
    out = [(AND(c, NOT(veq(kk, k))), kk, v) for c, kk, v in es]
    if base is not None:
        base = mk("mapdel", base, k)
    return mkmap(base, out)


def _optval(g, v):
    return mk_ite([(g, some(v)), (NOT(g), none())])


for pre in (HM + "<K, V, S, A>::", HM + "<K, V, S>::", "alloc::collections::btree::map::BTreeMap::<K, V, A>::",
            "std::collections::hash::set::HashSet::<T, S, A>::", "std::collections::hash::set::HashSet::<T, S>::",
            "alloc::collections::btree::set::BTreeSet::<T, A>::",
            "serde_json::map::Map::<alloc::string::String, serde_json::value::Value>::"):
    isset = "set" in pre

    def _contains(ctx, a):
        return mkb(map_contains(val(ctx, a[0]), uncow(ctx.eng.deep(a[1], ctx.store))))

    def _get(ctx, a):
        m, k = val(ctx, a[0]), ctx.eng.deep(a[1], ctx.store)
        return _optval(map_contains(m, k), map_get(m, k))

    def _insert(ctx, a, isset=isset):
        m, k = val(ctx, a[0]), a[1]
        had = map_contains(m, k)
        old = map_get(m, k) if had else UNDEF
        ctx.eng.write_ptr(ctx.store, a[0], map_insert(m, k, UNIT if isset else a[2]))
        return mkb(NOT(had)) if isset else _optval(had, old)

    def _remove(ctx, a, isset=isset):
        m, k = val(ctx, a[0]), ctx.eng.deep(a[1], ctx.store)
        had = map_contains(m, k)
        old = map_get(m, k) if had else UNDEF
        ctx.eng.write_ptr(ctx.store, a[0], map_remove(m, k))
        return mkb(had) if isset else _optval(had, old)

    def _getmut(ctx, a):
        m, k = val(ctx, a[0]), ctx.eng.deep(a[1], ctx.store)
        had = map_contains(m, k)
        p = keyptr(ctx, a[0], k)
        return _optval(had, p)

    M[pre + "contains_key"] = M[pre + "contains"] = _contains
    M[pre + "get"] = _get
    M[pre + "get_mut"] = _getmut
    M[pre + "insert"] = _insert
    M[pre + "remove"] = _remove
    M[pre + "is_empty"] = lambda ctx, a: mkb(NOT(seq_nonempty(val(ctx, a[0]))))
    M[pre + "len"] = lambda ctx, a: ctx.eng.length(val(ctx, a[0]))
    M[pre + "clear"] = lambda ctx, a: (ctx.eng.write_ptr(ctx.store, a[0], mkmap(None, [])), UNIT)[1]

    def _extend_map(ctx, a):
        pass

for nm in ("serde_json::map::Map::<alloc::string::String, serde_json::value::Value>::new",
           "serde_json::map::Map::<alloc::string::String, serde_json::value::Value>::with_capacity",
           "std::collections::hash::map::HashMap::<K, V>::with_capacity", "std::collections::hash::map::HashMap::<K, V>::new",
           "std::collections::hash::set::HashSet::<T>::new", "std::collections::hash::set::HashSet::<T>::with_capacity",
           "alloc::collections::btree::map::BTreeMap::<K, V>::new", "alloc::collections::btree::set::BTreeSet::<T>::new"):
    M[nm] = lambda ctx, a: mkmap(None, [])


def keyptr(ctx, p, k):
    out = [(g, mk("ptr", f, l, pr + (("mk", k),))) for g, f, l, pr in ctx.eng.ptr_locs(p)]
    return out[0][1] if len(out) == 1 else mk_ite(out)


ENTRY = "std::collections::hash::map::Entry"
BENTRY = "alloc::collections::btree::map::entry::Entry"


def _entry(path, occ, vac):
    # Occupied / Vacant variant order differs between the two maps
    def f(ctx, a):
        m, k = val(ctx, a[0]), a[1]
        had = map_contains(m, k)
        h = mk("ent", a[0], k)
        return mk_ite([(had, mk("adt", path, occ, h)), (NOT(had), mk("adt", path, vac, h))])
    return f


M[HM + "<K, V, S, A>::entry"] = M[HM + "<K, V, S>::entry"] = _entry(ENTRY, 0, 1)
M["alloc::collections::btree::map::BTreeMap::<K, V, A>::entry"] = _entry(BENTRY, 1, 0)


def ent_of(v):
    if v.op == "adt":
        return v.a[2]
    if v.op == "ite":
        vs = {ent_of(x) for _, x in v.a[0]}
        if len(vs) == 1:
            return vs.pop()
        es = [(g, ent_of(x)) for g, x in v.a[0]]
        if len({x.a[0] for _, x in es}) == 1:
            return mk("ent", es[0][1].a[0], mk_ite([(g, x.a[1]) for g, x in es]))
        raise Opaque("merged entries")
    if v.op == "ent":
        return v
    raise Opaque("unknown entry")


for pre in ("std::collections::hash::map::VacantEntry::<'a, K, V, A>::", "std::collections::hash::map::OccupiedEntry::<'a, K, V, A>::",
            "std::collections::hash::map::Entry::<'a, K, V, A>::", "std::collections::hash::map::Entry::<'a, K, V>::",
            "std::collections::hash::map::VacantEntry::<'a, K, V>::", "std::collections::hash::map::OccupiedEntry::<'a, K, V>::",
            "alloc::collections::btree::map::entry::VacantEntry::<'a, K, V, A>::",
            "alloc::collections::btree::map::entry::OccupiedEntry::<'a, K, V, A>::",
            "alloc::collections::btree::map::entry::Entry::<'a, K, V, A>::"):
    occ = "Occupied" in pre
    whole = "::Entry::" in pre

    def _ins(ctx, a, occ=occ):
        h = ent_of(val(ctx, a[0]))
        p, k = h.a
        m = val(ctx, p)
        old = map_get(m, k) if occ else None
        ctx.eng.write_ptr(ctx.store, p, map_insert(m, k, a[1]))
        return old if occ else keyptr(ctx, p, k)

    def _key(ctx, a):
        return ent_of(val(ctx, a[0])).a[1]

    def _rem_entry(ctx, a):
        h = ent_of(val(ctx, a[0]))
        p, k = h.a
        m = val(ctx, p)
        v = map_get(m, k)
        ctx.eng.write_ptr(ctx.store, p, map_remove(m, k))
        return mk("tuple", k, v) if ctx.name.endswith("remove_entry") else v

    def _ent_get(ctx, a):
        h = ent_of(val(ctx, a[0]))
        p, k = h.a
        t = ctx.eng.types[ctx.desty]
        if t["k"] == "ref" and t["m"]:
            return keyptr(ctx, p, k)
        return map_get(val(ctx, p), k)

    def _or_insert(ctx, a):
        h = ent_of(val(ctx, a[0]))
        p, k = h.a
        m = val(ctx, p)
        had = map_contains(m, k)
        if ctx.name.endswith("or_insert"):
            v = a[1]
        elif ctx.name.endswith("or_insert_with"):
            v, _ = ctx.eng.call_value(ctx, a[1], [])
        else:
            t = ctx.eng.types[ctx.eng.types[ctx.desty]["t"]]
            d = t.get("d", "")
            v = seq([]) if d in LISTS else mkmap(None, []) if is_map(d) or is_set(d) else mk("new", "Default", t["s"])
        m = val(ctx, p)
        ctx.eng.write_ptr(ctx.store, p, mk_ite([(had, m), (NOT(had), map_insert(m, k, v))]))
        return keyptr(ctx, p, k)

    M[pre + "insert"] = _ins
    M[pre + "key"] = M[pre + "into_key"] = _key
    M[pre + "remove_entry"] = M[pre + "remove"] = _rem_entry
    M[pre + "get"] = M[pre + "get_mut"] = M[pre + "into_mut"] = _ent_get
    M[pre + "or_insert"] = M[pre + "or_insert_with"] = M[pre + "or_default"] = _or_insert


# ---------------------------------------------------------------- vectors

@model("alloc::vec::Vec::<T>::new", "alloc::vec::Vec::<T>::with_capacity")
def m_vnew(ctx, a):
    return seq([])


@model("alloc::string::String::new", "alloc::string::String::with_capacity")
def m_snew(ctx, a):
    return mk("str", "")


@model(V + "push")
def m_push(ctx, a):
    e = ctx.eng
    v = val(ctx, a[0])
    e.write_ptr(ctx.store, a[0], seq(parts_of(v) + [item(a[1])]))
    return UNIT


@model(V + "pop")
def m_pop(ctx, a):
    e = ctx.eng
    v = val(ctx, a[0])
    ps = parts_of(v)
    r, rest = pop_parts(ps)
    e.write_ptr(ctx.store, a[0], rest)
    return r


def pop_parts(ps):
    if not ps:
        return none(), seq([])
    p = ps[-1]
    if p.op == "pi":
        if p.a[0] == 1:
            return some(p.a[1]), mk("seq", *ps[:-1])
        r, rest = pop_parts(ps[:-1])
        return (mk_ite([(p.a[0], some(p.a[1])), (NOT(p.a[0]), r)]),
                mk_ite([(p.a[0], mk("seq", *ps[:-1])), (NOT(p.a[0]), rest)]))
    raise Opaque("pop from an unknown sequence")


@model(V + "extend_from_slice", V + "append")
def m_extslice(ctx, a):
    e = ctx.eng
    v = val(ctx, a[0])
    w = val(ctx, a[1])
    e.write_ptr(ctx.store, a[0], seq(parts_of(v) + parts_of(w)))
    if ctx.name.endswith("append"):
        e.write_ptr(ctx.store, a[1], seq([]))
    return UNIT


@model(("core::iter::traits::collect::Extend", "extend"))
def m_extend(ctx, a):
    e = ctx.eng
    t = e.types[ctx.argtys[0]]
    d = e.types[t["t"]].get("d", "") if t["k"] == "ref" else ""
    v = val(ctx, a[0])
    ps = as_seq(ctx, a[1], ctx.argtys[1])
    if is_map(d) or is_set(d):
        m = v
        for p in ps:
            if p.op != "pi":
                m = mk("mapof", mk("seq", *(parts_of(m) + [p])))
            elif is_set(d):
                m = map_insert(m, p.a[1], UNIT, p.a[0])
            else:
                m = map_insert(m, proj(p.a[1], 0), proj(p.a[1], 1), p.a[0])
        e.write_ptr(ctx.store, a[0], m)
        return UNIT
    if d == "alloc::string::String":
        return None
    e.write_ptr(ctx.store, a[0], seq(parts_of(v) + ps))
    return UNIT


@model(V + "insert")
def m_vinsert(ctx, a):
    v = val(ctx, a[0])
    ps = parts_of(v)
    if a[1].op == "int" and a[1].a[0] <= len(ps) and all(p.op == "pi" and p.a[0] == 1 for p in ps[:a[1].a[0]]):
        n = a[1].a[0]
        ctx.eng.write_ptr(ctx.store, a[0], seq(ps[:n] + [item(a[2])] + ps[n:]))
        return UNIT
    return None


@model(V + "remove", V + "swap_remove")
def m_vremove(ctx, a):
    v = val(ctx, a[0])
    ps = parts_of(v)
    if a[1].op == "int" and a[1].a[0] < len(ps) and all(p.op == "pi" and p.a[0] == 1 for p in ps):
        n = a[1].a[0]
        x = ps.pop(n)
        if ctx.name.endswith("swap_remove") and n < len(ps):
            ps.insert(n, ps.pop())
        ctx.eng.write_ptr(ctx.store, a[0], seq(ps))
        return x.a[1]
    if a[1].op == "int" and a[1].a[0] < len(ps) and all(p.op == "pi" and p.a[0] == 1 for p in ps[:a[1].a[0] + 1]) and not ctx.name.endswith("swap_remove"):
        # the items up to the one removed are there, whatever follows
        x = ps.pop(a[1].a[0])
        ctx.eng.write_ptr(ctx.store, a[0], seq(ps))
        return x.a[1]
    return None


@model(V + "clear")
def m_vclear(ctx, a):
    ctx.eng.write_ptr(ctx.store, a[0], seq([]))
    return UNIT


@model(V + "reserve", V + "shrink_to_fit", HM + "<K, V, S, A>::reserve")
def m_noop(ctx, a):
    return UNIT


@model(V + "drain")
def m_drain(ctx, a):
    if a[1].op == "adt" and a[1].a[0].endswith("RangeFull") or a[1].op == "zst":
        v = val(ctx, a[0])
        ctx.eng.write_ptr(ctx.store, a[0], seq([]))
        return mkseq(parts_of(v))
    return None


@model(V + "retain")
def m_retain(ctx, a):
    v = val(ctx, a[0])
    r = map_parts(ctx, a[1], parts_of(v), lambda x, b: [item(x, tobdd(b))])
    ctx.eng.write_ptr(ctx.store, a[0], seq(r))
    return UNIT


# ---- a double-ended queue is a list
VD = "alloc::collections::vec_deque::VecDeque::<T, A>::"


@model("alloc::collections::vec_deque::VecDeque::<T>::new", "alloc::collections::vec_deque::VecDeque::<T>::with_capacity")
def m_vdnew(ctx, a):
    return seq([])


@model(VD + "push_front")
def m_push_front(ctx, a):
    ctx.eng.write_ptr(ctx.store, a[0], seq([item(a[1])] + parts_of(val(ctx, a[0]))))
    return UNIT


@model(VD + "pop_front")
def m_pop_front(ctx, a):
    ps = parts_of(val(ctx, a[0]))
    if any(p.op != "pi" for p in ps):
        raise Opaque("pop from an unknown sequence")
    r, rest = next_parts(ps)
    ctx.eng.write_ptr(ctx.store, a[0], rest)
    return r


for _a, _b in (("push_back", "push"), ("pop_back", "pop"), ("append", "append"), ("clear", "clear"), ("retain", "retain"), ("reserve", "reserve"), ("drain", "drain")):
    if V + _b in M:
        M[VD + _a] = M[V + _b]


def m_isempty(ctx, a):
    v = val(ctx, a[0])
    return mkb(NOT(seq_nonempty(v)))


def m_len(ctx, a):
    return ctx.eng.length(val(ctx, a[0]))


for pre in (V, SL, VD, "alloc::vec::Vec::<T>::"):
    M[pre + "is_empty"] = m_isempty
    M[pre + "len"] = m_len


@model("alloc::string::String::is_empty", "core::str::<impl str>::is_empty")
def m_sempty(ctx, a):
    return mkb(veq(uncow(val(ctx, a[0])), mk("str", "")))


@model(SL + "first", SL + "last", SL + "get", SL + "first_mut", SL + "last_mut", SL + "get_mut")
def m_first(ctx, a):
    e = ctx.eng
    v = val(ctx, a[0])
    ps = parts_of(v)
    nm = ctx.name.split("::")[-1]
    mut = nm.endswith("_mut")
    base = nm.replace("_mut", "")
    if all(p.op == "pi" and p.a[0] == 1 for p in ps):
        if base == "get":
            if a[1].op != "int":
                return None
            n = a[1].a[0]
        else:
            n = 0 if base == "first" else len(ps) - 1
        if n < 0 or n >= len(ps):
            return none()
        if mut:
            out = [(g, mk("ptr", f, l, pr + (("ix", mk("int", n)),))) for g, f, l, pr in e.ptr_locs(a[0])]
            return some(out[0][1] if len(out) == 1 else mk_ite(out))
        return some(ps[n].a[1])
    if mut:
        raise Opaque("mutable element of an unknown sequence")
    if base == "get" and a[1].op == "int" and len(ps) > a[1].a[0] and all(p.op == "pi" and p.a[0] == 1 for p in ps[:a[1].a[0] + 1]):
        return some(ps[a[1].a[0]].a[1])
    if base == "get":
        r = e.at_pos(ps, a[1])
        if r is not None:
            return some(r)
    if base == "first":
        r, _ = next_parts(ps)
        return r
    if base == "last":
        r, _ = pop_parts(ps)
        return r
    g = bdd.atom(mk("inbounds", v, a[1]))
    return _optval(g, mk("idx", v, a[1]))


@model(SL + "contains")
def m_scontains(ctx, a):
    v, x = val(ctx, a[0]), ctx.eng.deep(a[1], ctx.store)
    return mkb(bdd.anyn(part_has(p, x) for p in parts_of(v)))


def part_has(p, x):
    if p.op == "pi":
        return AND(p.a[0], veq(p.a[1], x))
    if p.op == "ps":
        return AND(p.a[0], exists(p.a[1], veq(mk("elem", p.a[1]), x)))
    return AND(p.a[0], exists(p.a[1], bdd.anyn(part_has(q, x) for q in p.a[2])))


@model(("core::ops::index::Index", "index"), ("core::ops::index::IndexMut", "index_mut"))
def m_index(ctx, a):
    e = ctx.eng
    t = e.types[ctx.argtys[0]]
    d = e.types[t["t"]].get("d", "") if t["k"] == "ref" else t.get("d", "")
    if is_map(d):
        m, k = val(ctx, a[0]), e.deep(a[1], ctx.store)
        g = map_contains(m, k)
        ctx.ok = AND(ctx.ok, g)
        bad = AND(ctx.pc, NOT(g))
        if bad:
            e.events.append((bad, ("index", ctx.name, "", ctx.span)))
        return map_get(m, k)
    v = val(ctx, a[0])
    if a[1].op == "call" and a[1].a[0] == "pos":
        r = e.index(v, a[1])
        if r.op != "idx" and ctx.c["m"] == "index":
            return r
    if a[1].op != "int":
        if a[1].op == "adt" and "RangeFull" in a[1].a[0]:
            return a[0]
        return None
    n = a[1].a[0]
    ps = parts_of(v)
    lit = len(ps) > n and all(p.op == "pi" and p.a[0] == 1 for p in ps[:n + 1])
    if not lit:
        if all(p.op == "pi" and p.a[0] == 1 for p in ps):
            g = 0
        else:
            g = seq_nonempty(v) if n == 0 else bdd.atom(mk("inbounds", v, a[1]))
        bad = AND(ctx.pc, NOT(g))
        if bad:
            e.events.append((bad, ("index", ctx.name, "", ctx.span)))
        ctx.ok = AND(ctx.ok, g)
        if g == 0:
            return UNDEF
    if ctx.c["m"] == "index_mut":
        out = [(g, mk("ptr", f, l, pr + (("ix", a[1]),))) for g, f, l, pr in e.ptr_locs(a[0])]
        return out[0][1] if len(out) == 1 else mk_ite(out)
    return e.index(v, a[1])


@model("alloc::boxed::Box::<T>::new_uninit")
def m_new_uninit(ctx, a):
    e = ctx.eng
    e.frame += 1
    ctx.store[(e.frame, 0)] = UNDEF
    return mk("ptr", e.frame, 0, ())


@model("alloc::boxed::box_assume_init_into_vec_unsafe", "alloc::boxed::Box::<core::mem::maybe_uninit::MaybeUninit<T>, A>::assume_init",
       "alloc::slice::<impl [T]>::into_vec")
def m_assume(ctx, a):
    v = val(ctx, a[0])

    def dig(v):
        if v.op == "seq":
            return v
        if v.op in ("adt", "tuple"):
            for x in (v.a[2:] if v.op == "adt" else v.a):
                if isinstance(x, T) and x is not UNDEF:
                    r = dig(x)
                    if r is not None:
                        return r
        return None
    return dig(v) or v


@model("core::str::<impl str>::parse", "oxilangtag::LanguageTag::<T>::parse", ("core::str::traits::FromStr", "from_str"))
def m_parse(ctx, a):
    t = ctx.eng.types[ctx.desty]
    return mk("call", "parse", t["s"], uncow(ctx.eng.deep(a[0], ctx.store)))


@model("core::hint::unreachable_unchecked::precondition_check", "core::ub_checks::check_library_ub")
def m_pre(ctx, a):
    return UNIT


def opaque_named(nm):
    def f(ctx, a):
        return ctx.eng.opaque_call(nm, a, ctx.store)
    return f


# fallbacks by prefix: known pure, result opaque
PURE_PREFIX = ("core::fmt::", "alloc::fmt::", "time::", "serde_json::", "core::num::", "core::hash::", "core::str::", "core::char::",
               "<core::fmt", "<alloc::fmt", "thiserror::", "oxilangtag::", "language_tags", "std::io", "<T as core::any")


def install(e):
    e.models = M
    e.iterable = lambda v: mk("seq", *range_seq(v)) if is_range(v) else v
    e.force = {(ITER, "next"), (ITER, "map"), ("core::iter::traits::collect::IntoIterator", "into_iter"), (ITER, "try_fold"),
               (ITER, "fold")}
    osub, oupd = e.sub, e.upd

    def sub(v, projs):
        for n, pr in enumerate(projs):
            if pr[0] == "mk":
                v = map_get(v, pr[1])
            else:
                v = osub(v, (pr,))
        return v

    def upd(v, projs, fn):
        if projs and projs[0][0] == "mk":
            k = projs[0][1]
            old = map_get(v, k)
            new = upd(old, projs[1:], fn)
            return map_insert(v, k, new)
        if not projs:
            return fn(v)
        # peel one projection at a time so that nested map projections are seen
        if any(p[0] == "mk" for p in projs[1:]):
            return oupd(v, projs[:1], lambda x: upd(x, projs[1:], fn))
        return oupd(v, projs, fn)

    e.sub, e.upd = sub, upd
    return e
