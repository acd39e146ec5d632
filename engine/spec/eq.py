"""Equality and copies take every member into account (P24)."""
import bdd
from core import *
from interp import Engine
from spec.ser import ES, TYPES, ALLT, nm

EQTYPES = [t for t in TYPES if t not in ("Exts", "ProtoForms")] + ["Cons<XA, XE>"]
ALLT["cons"] = "Cons"
NOCLONE = ("thing", "interactionaffordance", "propertyaffordance", "actionaffordance", "eventaffordance")
for t in EQTYPES:
    n = nm(t)
    ES("eq_" + n, "qa_%s: %s, qb_%s: %s" % (n, t, n, t), "bool", "qa_%s == qb_%s" % (n, n))
    ES("ne_" + n, "qa_%s: %s, qb_%s: %s" % (n, t, n, t), "bool", "qa_%s != qb_%s" % (n, n))
    if n not in NOCLONE:
        ES("cl_" + n, "qa_%s: %s" % (n, t), t, "(&qa_%s).clone()" % n)


def strip(e, t):
    t = e.types[t]
    while t["k"] == "ref":
        t = e.types[t["t"]]
    return t


def m_peq(ctx, a):
    """Comparisons of the members are not opened: only the one of the value itself is."""
    import models
    e = ctx.eng
    t = strip(e, ctx.argtys[0])
    if t["k"] == "tuple" or t.get("d") == e.root and ctx.c.get("b") is not None:
        return None
    x, y = (models.uncow(e.deep(v, ctx.store)) for v in a)
    if x is not y and (x.op in ("int", "str", "adt", "bool", "tuple") or y.op in ("int", "str", "adt", "bool", "tuple")):
        g = veq(x, y)
    else:
        g = 1 if x is y else bdd.atom(mk("call", "eq", *sorted((x, y), key=id)))
    return mkb(NOT(g) if ctx.c.get("m") == "ne" else g)


def m_clone(ctx, a):
    import models
    if strip(ctx.eng, ctx.argtys[0]).get("d") == ctx.eng.root and ctx.c.get("b") is not None:
        return None
    return models.m_ident(ctx, a)


def engine(env, root):
    """An engine that opens the comparison and the copy of one type only."""
    import models_s
    cache = env.__dict__.setdefault("eqengines", {})
    if root not in cache:
        cache.clear()
        e = models_s.install_s(Engine(env.eng.dump))
        e.dump = env.eng.dump
        e.root = root
        e.models = dict(e.models)
        k = [("core::cmp::PartialEq", "eq"), ("core::cmp::PartialEq", "ne"), ("core::clone::Clone", "clone")]
        e.models[k[0]] = e.models[k[1]] = m_peq
        e.models[k[2]] = m_clone
        e.force = e.force | set(k)
        cache[root] = e
    return cache[root]


def call(env, name, args):
    """The value of an entry point on given arguments, and the guard under which it returns."""
    for r in env.eng.dump["roots"]:
        if r["kind"] == "entry" and r["name"] == name:
            b = env.eng.bodies[r["b"]]
            root = env.eng.types[b.locals[1]]["d"]
            e = engine(env, root)
            env.eng.visited[b.id] = 1
            v, g = e.call_body(e.bodies[b.id], args(root), {}, 1)
            for k, n in e.visited.items():
                env.eng.visited[k] = env.eng.visited.get(k, 0) + n
            env.eng.ncalls += e.ncalls
            e.visited.clear()
            e.ncalls = 0
            if e.opaque_calls:
                raise Undecided("the analysis does not open " + ", ".join(sorted(e.opaque_calls)))
            return v, g
    raise Fail("entry point %s is missing from the compiled program" % name)


def root_of(env, name):
    for r in env.eng.dump["roots"]:
        if r["kind"] == "entry" and r["name"] == name:
            return env.eng.types[env.eng.bodies[r["b"]].locals[1]]["d"]
    raise Fail("entry point %s is missing from the compiled program" % name)


def build(root, k, side, other=None):
    """A value of variant k with arbitrary members; member `other` differs from that of the left side."""
    fs = ADTS[root]["variants"][k]["fields"]
    return adt(root, k, *[mk("sym", "%s.%s" % (side if f == other else "x", f)) for f in fs])


def same(a, b):
    return not list(differs(a, b, 1))


def understood(g, x, y, neg):
    """Is g exactly the comparison of x and y?"""
    if neg:
        g = NOT(g)
    if g == veq(x, y):
        return True
    for s in ((x, y), (y, x)):
        if g == bdd.atom(mk("call", "eq", *s)):
            return True
    for at in atoms_of(g):
        if at.op == "call" and at.a[0] == "eq" and g == bdd.atom(at):
            p, q = at.a[1:]
            if same(p, x) and same(q, y) or same(p, y) and same(q, x):
                return True
    return False


def atoms_of(g):
    out, todo, seen = [], [g], set()
    while todo:
        n = todo.pop()
        if n in (0, 1) or n in seen:
            continue
        seen.add(n)
        v = bdd.VAR[n]
        out.append(bdd.ATOMS[v])
        todo += [bdd.LO[n], bdd.HI[n]]
    return out


def eq_rule(n, neg):
    name = ("ne_" if neg else "eq_") + n

    def f(env):
        root = root_of(env, name)
        out = []
        for k, va in enumerate(ADTS[root]["variants"]):
            w = va["name"] if len(ADTS[root]["variants"]) > 1 else ALLT[n]
            v, g = call(env, name, lambda r: [build(root, k, "x"), build(root, k, "x")])
            if tobdd(v) != (0 if neg else 1):
                gate(v)
                out.append((w, "a value differs from itself: %s" % show(v, 3)[:200]))
            for m in va["fields"]:
                v, g = call(env, name, lambda r: [build(root, k, "x"), build(root, k, "y", m)])
                b = tobdd(v)
                x, y = mk("sym", "x." + m), mk("sym", "y." + m)
                if not understood(b, x, y, neg):
                    gate(v)
                    out.append(("%s.%s" % (w, m), "values that differ in %s only compare as %s" % (m, show(v, 4)[:200])))
            for j, vb in enumerate(ADTS[root]["variants"]):
                if j != k:
                    v, g = call(env, name, lambda r: [build(root, k, "x"), build(root, j, "y")])
                    if tobdd(v) != (1 if neg else 0):
                        gate(v)
                        out.append(("%s / %s" % (w, vb["name"]), "different kinds compare as equal: %s" % show(v, 3)[:200]))
        return out
    return f


def clone_rule(n):
    def f(env):
        root = root_of(env, "cl_" + n)
        out = []
        for k, va in enumerate(ADTS[root]["variants"]):
            v, g = call(env, "cl_" + n, lambda r: [build(root, k, "x")])
            diff(va["name"], v, build(root, k, "x"), 1, out)
        return out
    return f


for t in EQTYPES:
    n = nm(t)
    rule("P24", "equality of %s" % t, ["eq_" + n], eq_rule(n, False), "two values are equal exactly when all their members are")
    rule("P24", "inequality of %s" % t, ["ne_" + n], eq_rule(n, True), "two values differ exactly when some member does")
    if n not in NOCLONE:
        rule("P24", "copy of %s" % t, ["cl_" + n], clone_rule(n), "every member of the copy is the one of the original")
