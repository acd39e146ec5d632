"""Comparing bounds (P25)."""
from core import *
from terms import order, nan
from spec.ser import ES

MM = ("Minimum", "Maximum")
NUM = ("f64", "i64", "f32")
OPS = {"lt": "<", "le": "<=", "gt": ">", "ge": ">="}
NAT = ("Inclusive", "Exclusive")


def nn(a, b, n):
    return "%s%s_%s" % (a[:3].lower(), b[:3].lower(), n)


for n in NUM:
    for a in MM:
        if n != "i64":
            ES("bnan_%s_%s" % (a[:3].lower(), n), "bn_%s_%s: %s<%s>" % (a[:3].lower(), n, a, n), "bool", "bn_%s_%s.is_nan()" % (a[:3].lower(), n))
        for b in MM:
            s = nn(a, b, n)
            sig = "b1_%s: %s<%s>, b2_%s: %s<%s>" % (s, a, n, s, b, n)
            ES("bcmp_" + s, sig, "Option<std::cmp::Ordering>", "b1_%s.partial_cmp(&b2_%s)" % (s, s))
            ES("beq_" + s, sig, "bool", "b1_%s == b2_%s" % (s, s))
            ES("bne_" + s, sig, "bool", "b1_%s != b2_%s" % (s, s))
            for o, op in OPS.items():
                ES("b%s_%s" % (o, s), sig, "bool", "b1_%s %s b2_%s" % (s, op, s))


def required(a, b, na, nb, n):
    """Guards (less, equal, greater) the result must have for a pair of bounds."""
    l, e, g, u = order(mk("sym", "bx_" + n), mk("sym", "by_" + n), n != "i64")
    if na == nb:
        return l, e, g
    if a == b:
        # the exclusive minimum is the stricter (greater), the exclusive maximum the stricter (smaller) one
        first_less = (a == "Minimum") == (na == "Inclusive")
        return (OR(l, e), 0, 0) if first_less else (0, 0, OR(g, e))
    # a minimum and a maximum of different nature: known only when they leave nothing between them
    return (0, 0, OR(g, e)) if a == "Minimum" else (OR(l, e), 0, 0)


def pairs(env, name, a, b, n):
    root = None
    for r in env.eng.dump["roots"]:
        if r["kind"] == "entry" and r["name"] == name:
            body = env.eng.bodies[r["b"]]
    try:
        body
    except NameError:
        raise Fail("entry point %s is missing from the compiled program" % name)
    env.eng.prep(body)
    pa, pb = (env.eng.types[body.locals[i]]["d"] for i in (1, 2))
    va, vb = ([v["name"] for v in ADTS[p]["variants"]] for p in (pa, pb))
    for na in NAT:
        for nb in NAT:
            if na not in va or nb not in vb:
                raise Fail("the natures of a bound have changed")
            x = adt(pa, va.index(na), mk("sym", "bx_" + n))
            y = adt(pb, vb.index(nb), mk("sym", "by_" + n))
            v, g = env.eng.call_body(body, [x, y], {}, 1)
            yield na, nb, v


def cmp_rule(a, b, n):
    name = "bcmp_" + nn(a, b, n)

    def f(env):
        out = []
        for na, nb, v in pairs(env, name, a, b, n):
            some_ = is_variant(v, OPTION, 1)
            o = simp(payload(v, 1, OPTION), some_)
            for k, (w, req) in enumerate(zip(("Less", "Equal", "Greater"), required(a, b, na, nb, n))):
                got = 0 if some_ == 0 else AND(some_, is_variant(o, "core::cmp::Ordering", k))
                guard_diff(NOT(bdd.IFF(got, req)), out, "%s is the result in other cases than required" % w, "%s %s and %s %s" % (na, a, nb, b))
        return out
    return f


def op_rule(o, a, b, n):
    name = "b%s_%s" % (o, nn(a, b, n))

    def f(env):
        out = []
        for na, nb, v in pairs(env, name, a, b, n):
            l, e, g = required(a, b, na, nb, n)
            if o in ("eq", "ne"):
                e = order(mk("sym", "bx_" + n), mk("sym", "by_" + n), n != "i64")[1] if na == nb else 0
            req = {"eq": e, "ne": NOT(e), "lt": l, "le": OR(l, e), "gt": g, "ge": OR(g, e)}[o]
            guard_diff(NOT(bdd.IFF(tobdd(v), req)), out, "the comparison has another result than required", "%s %s %s %s %s" % (na, a, o, nb, b))
        return out
    return f


def nan_rule(a, n):
    name = "bnan_%s_%s" % (a[:3].lower(), n)

    def f(env):
        v = env.val(name)
        x = mk("sym", "bn_%s_%s" % (a[:3].lower(), n))
        out = []
        p = OPAQUE_TY[x]
        for k, w in enumerate(v_["name"] for v_ in ADTS[p]["variants"]):
            g = is_variant(x, p, k)
            guard_diff(AND(g, NOT(bdd.IFF(tobdd(v), nan(payload(x, k, p))))), out, "is_nan is not about the value", "%s %s" % (w, a))
        return out
    return f


for n in NUM:
    for a in MM:
        if n != "i64":
            rule("P25", "%s<%s>::is_nan" % (a, n), ["bnan_%s_%s" % (a[:3].lower(), n)], nan_rule(a, n), "a bound is NaN exactly when its value is")
        for b in MM:
            s = nn(a, b, n)
            rule("P25", "%s<%s> compared with %s" % (a, n, b), ["bcmp_" + s], cmp_rule(a, b, n), "the result follows the values and the natures of the bounds")
            for o in ("eq", "ne", "lt", "le", "gt", "ge"):
                rule("P25", "%s<%s> %s %s" % (a, n, o, b), ["b%s_%s" % (o, s)], op_rule(o, a, b, n), "the operator agrees with the order of the bounds")
