"""Lists of extensions (P26)."""
from core import *
from spec.ser import ES

NAMES = "abcdefgh"
CONS, NIL = "wot_td::hlist::Cons", "wot_td::hlist::Nil"


def gen(n, extra=""):
    return ", ".join(["%s: Copy" % c.upper() for c in NAMES[:n]]) + extra


def ty(cs):
    r = "Nil"
    for c in reversed(cs):
        r = "Cons<%s, %s>" % (c.upper(), r)
    return r


def lit(cs):
    r = "Nil"
    for c in reversed(cs):
        r = "Cons { head: %s, tail: %s }" % (c, r)
    return r


def val(cs):
    r = adt(NIL, 0)
    for c in reversed(cs):
        r = adt(CONS, 0, mk("sym", c), r)
    return r


def args(cs):
    return ", ".join("%s: %s" % (c, c.upper()) for c in cs)


def at(x, i):
    return x + ".tail" * i + ".head"


def tup(xs):
    return "(" + ", ".join(xs) + ("," if len(xs) == 1 else "") + ")"


def want(name, sig, ret, body, g, expect, what):
    n = "h_" + name
    ES(n, sig, ret, body, gen=g)

    def f(env):
        v = env.val(n)
        if not env.info[n]["returns"] == 1:
            raise Fail("the call does not always return")
        return diff("result", v, expect, 1, [])
    rule("P26", what, [n], f, what)


def tupv(xs):
    return mk("tuple", *xs)


def sy(cs):
    return [mk("sym", c) for c in cs]


for n in range(0, 7):
    cs = NAMES[:n]
    # a, b, c ... from front to back
    chain = "Nil"
    for i, c in enumerate(reversed(cs)):
        chain = "Nil::cons(%s)" % c if i == 0 else chain + ".cons(%s)" % c
    ext = "Nil" + "".join(".ext(%s)" % c for c in reversed(cs))
    extw = "Nil" + "".join(".ext_with(move || %s)" % c for c in reversed(cs))
    g = gen(n)
    if n:
        want("cons%d" % n, args(cs), ty(cs), chain, g, val(cs), "prepending %d values keeps all of them in order" % n)
        want("ext%d" % n, args(cs), ty(cs), ext, g, val(cs), "extending %d times keeps all values in order" % n)
        want("extw%d" % n, args(cs), ty(cs), extw, g, val(cs), "extending %d times from functions keeps all values in order" % n)
        want("head%d" % n, args(cs), "(%s, %s)" % (cs[0].upper(), ty(cs[1:])), lit(cs) + ".split_head()", g, tupv([mk("sym", cs[0]), val(cs[1:])]),
             "splitting the head of a list of %d" % n)
        want("last%d" % n, args(cs), "(%s, %s)" % (cs[-1].upper(), ty(cs[:-1])), lit(cs) + ".split_last()", g, tupv([mk("sym", cs[-1]), val(cs[:-1])]),
             "splitting the last of a list of %d" % n)
        want("rev%d" % n, args(cs), ty(cs[::-1]), lit(cs) + ".reverse()", g, val(cs[::-1]), "reversing a list of %d" % n)
        want("ref%d" % n, args(cs), tup([c.upper() for c in cs]), "let l = %s; let r = (&l).to_ref(); %s" % (lit(cs), tup(["*" + at("r", i) for i in range(n)])), g,
             tupv(sy(cs)), "references to a list of %d refer to its values in order" % n)
    want("refl%d" % n, args(cs), "()", "let l = %s; let Nil = (&l).to_ref()%s;" % (lit(cs), ".tail" * n), g, mk("tuple"),
         "the references to a list of %d end where it does" % n)


def mut_rule(n, cs, i, name):
    def f(env):
        v = env.val(name)
        x = adt(NIL, 0)
        for j in reversed(range(n)):
            x = adt(CONS, 0, mk("sym", "z_" + cs[j] if j == i else cs[j]), x)
        return diff("result", v, x, 1, [])
    return f


for n in range(1, 7):
    cs = NAMES[:n]
    for i in range(n):
        name = "h_mut%d_%d" % (n, i)
        ES(name, args(cs) + ", z_%s: %s" % (cs[i], cs[i].upper()), ty(cs),
           "let mut l = %s; { let m = (&mut l).to_mut(); *%s = z_%s; } l" % (lit(cs), at("m", i), cs[i]), gen=gen(n))
        rule("P26", "changing value %d of a list of %d" % (i, n), [name], mut_rule(n, cs, i, name), "the change reaches that value and no other")

ES("h_empty_nil", "", "Nil", "<Nil as Extendable>::empty()")
ES("h_empty_cons", "", "Nil", "<Cons<A, B> as Extendable>::empty()", gen="A, B")
for e in ("h_empty_nil", "h_empty_cons"):
    rule("P26", e, [e], lambda env, e=e: diff("result", env.val(e), adt(NIL, 0), 1, []), "the empty extension list is empty")
ES("h_unit_from", "", "()", "<()>::from(Nil)")
ES("h_unit_into", "", "Nil", "Nil::from(())")
rule("P26", "h_unit_from", ["h_unit_from"], lambda env: diff("result", env.val("h_unit_from"), mk("tuple"), 1, []), "the empty list is convertible to the unit value")
rule("P26", "h_unit_into", ["h_unit_into"], lambda env: diff("result", env.val("h_unit_into"), adt(NIL, 0), 1, []), "the unit value is convertible to the empty list")
