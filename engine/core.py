"""Rules, entry points and the evaluation of both."""
import os
import sys
import time
import traceback

import bdd
from bdd import AND, OR, NOT
from terms import *
import terms

ENTRIES = {}      # name -> rust source
QUICK = set()
PRELUDE = []      # extra rust items
RULES = {}        # property -> [Rule]
SYM_TY = {}


SHAPE = {}         # entry -> {parameter: function giving the argument from the arbitrary value of that name}
PRELUDE_S = []    # the same for the serialisation side
ENTRY_UNIT = {}    # name -> "s" for entry points of the serialisation side
ENTRY_TIER = {}   # name -> "thorough" for entry points only the thorough tier compiles


def E(name, sig, ret, body, gen="O: Ext", where="", tier="quick", unit="b"):
    """Declare an entry point of the analysis (a function over the public API)."""
    src = "pub fn %s<%s>(%s) -> %s %s{ %s }" % (name, gen, sig, ret, where, body)
    if not gen:
        src = "pub fn %s(%s) -> %s %s{ %s }" % (name, sig, ret, where, body)
    assert ENTRIES.get(name, src) == src, name
    ENTRIES[name] = src
    if unit != "b":
        ENTRY_UNIT[name] = unit
    if tier == "quick":
        ENTRY_TIER.pop(name, None)
        QUICK.add(name)
    elif name not in QUICK:
        ENTRY_TIER[name] = tier
    return name


class Rule:
    """One obligation. `entries` are evaluated on symbolic arguments; `fn` gets
    an Env and returns a list of (where, message) failures."""

    def __init__(self, pid, name, entries, fn, what, tier):
        self.pid, self.name, self.entries, self.fn, self.what, self.tier = pid, name, entries, fn, what, tier


def rule(pid, name, entries, fn, what="", tier="quick"):
    rs = RULES.setdefault(pid, [])
    assert all(r.name != name for r in rs), (pid, name)
    rs.append(Rule(pid, name, entries, fn, what, tier))


def unit_of_rule(r):
    us = {ENTRY_UNIT.get(e, "b") for e in r.entries} or {"b"}
    assert len(us) == 1, r.name
    return us.pop()


ABOUT = {"*": "Interprocedural value-flow analysis of the compiled program (MIR of the current tree, including the standard library functions "
              "it calls): the functions of the public API are evaluated over an abstract domain of guarded values whose inputs are "
              "arbitrary, joining at control-flow merges and summarising loops by a generic element; each obligation compares the flow "
              "found with the flow the property requires."}
ABOUT["P27"] = ("Type-level analysis by the compiler's type checker: every listed program that breaks the stage protocol is checked against the public types "
                "of the current tree and must be rejected with a type error at its own line (compile-fail witness), and its completed twin, which differs only "
                "in the missing step, must be accepted.")
FINAL = {}
ASSUMPTIONS = [
    "collections, strings, numbers and Option/Result helpers of the standard library behave as documented (modelled or analysed from their MIR)",
    "functions of other crates (serde_json, time, oxilangtag) are uninterpreted: equal arguments give equal results",
    "an obligation whose comparison depends on a call the analysis cannot open is reported as undecided, not as violated",
]


class Fail(Exception):
    pass


class Undecided(Exception):
    pass


class Env:
    def __init__(self, eng):
        self.eng = eng
        self.cache = {}
        self.args = {}
        self.info = {}
        self.opq, self.unk = {}, {}
        self.tier = "quick"

    def sym(self, n):
        return mk("sym", n)

    def val(self, name):
        if name in self.cache:
            return self.cache[name]
        b = None
        for r in self.eng.dump["roots"]:
            if r["kind"] == "entry" and r["name"] == name:
                b = self.eng.bodies[r["b"]]
        if b is None:
            raise Fail("entry point %s is missing from the compiled program" % name)
        self.eng.prep(b)
        names = params(ENTRIES[name])
        args = []
        for i in range(1, b.argc + 1):
            p = self.eng.typath(b.locals[i])
            s = mk("sym", names[i - 1])
            ts = self.eng.types[b.locals[i]]["s"]
            if SYM_TY.setdefault(names[i - 1], ts) != ts:
                raise AssertionError("parameter %s has two types: %s, %s" % (names[i - 1], ts, SYM_TY[names[i - 1]]))
            if p:
                OPAQUE_TY.setdefault(s, p)
            args.append(SHAPE.get(name, {}).get(names[i - 1], lambda x: x)(s))
        e = self.eng
        e.events, o1 = [], e.opaque_calls
        e.opaque_calls = {}
        u1, e.unknown = e.unknown, {}
        v, okg = e.call_body(b, args, {}, 1)
        self.info[name] = {"returns": okg, "events": e.events, "opaque": e.opaque_calls, "unknown": e.unknown}
        self.opq.update({k: "%s (%s)" % (w, name) for k, w in e.opaque_calls.items()})
        self.unk.update(e.unknown)
        e.opaque_calls, e.unknown = o1, u1
        self.cache[name] = v
        return v


def params(src):
    """Parameter names of an entry point."""
    i = src.index("(")
    # skip generics
    if "<" in src[:i]:
        d, j = 0, src.index("<")
        while True:
            if src[j] == "<":
                d += 1
            elif src[j] == ">" and src[j - 1] != "-":
                d -= 1
                if d == 0:
                    break
            j += 1
        i = src.index("(", j)
    d, j, out, cur = 0, i, [], ""
    while True:
        c = src[j]
        if c in "(<[":
            d += 1
            if d > 1:
                cur += c
        elif c in ")>]" and not (c == ">" and src[j - 1] == "-"):
            d -= 1
            if d == 0:
                break
            cur += c
        elif c == "," and d == 1:
            out.append(cur)
            cur = ""
        else:
            cur += c
        j += 1
    if cur.strip():
        out.append(cur)
    return [p.split(":")[0].replace("mut ", "").strip() for p in out]


# ---------------------------------------------------------------- reading values

def okg(v):
    return is_variant(v, RESULT, 0)


def payload(v, vi=0, path=RESULT):
    out = []
    for g, x in cases(v):
        if x.op == "adt":
            if x.a[1] == vi:
                out.append((g, x.a[2]))
        elif x is not UNDEF:
            out.append((AND(g, isatom(x, path, vi)), fld(x, vi, 0, path)))
    return mk_ite(out)


def fieldix(path, name, variant=None):
    r = ADTS.get(path)
    if not r:
        raise Fail("type %s is not in the compiled program" % path)
    for vi, v in enumerate(r["variants"]):
        if variant is not None and v["name"] != variant:
            continue
        if name in v["fields"]:
            return vi, v["fields"].index(name)
    raise Fail("type %s has no member %s" % (path, name))


def get(v, *names):
    for n in names:
        v = get1(v, n)
    return v


def get1(v, name):
    out = []
    for g, x in cases(v):
        if x is UNDEF:
            continue
        if x.op == "adt":
            path = x.a[0]
            if isinstance(name, int):
                out.append((g, x.a[2 + name]))
                continue
            vi, fi = fieldix(path, name)
            if x.a[1] == vi:
                out.append((g, x.a[2 + fi]))
        elif x.op == "tuple":
            out.append((g, x.a[name]))
        else:
            path = OPAQUE_TY.get(x)
            if path is None:
                raise Undecided("member %s of a value of unknown type: %s" % (name, show(x, 2)))
            vi, fi = fieldix(path, name)
            out.append((g, fld(x, vi, fi, path)))
    return mk_ite(out)


def fields_of(path):
    r = ADTS.get(path)
    if not r:
        raise Fail("type %s is not in the compiled program" % path)
    return r["variants"][0]["fields"]


def tpath(v):
    for g, x in cases(v):
        if x.op == "adt":
            return x.a[0]
        if x in OPAQUE_TY:
            return OPAQUE_TY[x]
    raise Undecided("value of unknown type: %s" % show(v, 2))


# limits of the analysis that are present on both sides of every comparison
SHARED_LIMITS = {"?wot_td::builder::data_schema::check_data_schema_subtype"}


def gate(*xs):
    """A difference that involves a call the analysis could not open decides nothing."""
    l = limits(*xs) - SHARED_LIMITS
    if l:
        raise Undecided("the analysis does not open " + ", ".join(sorted(l)))


def settled(d):
    """The part of guard d that holds whatever the calls report that the analysis could not open."""
    for v in sorted(bdd.support(d)):
        if d < 2:
            break
        t = bdd.ATOMS[v]
        if not (t.fl & UNK) or not limits(t) - SHARED_LIMITS:
            continue
        x = bdd.atom(t)
        if unsat(AND(d, x)):
            d = bdd.cof(d, v, 0)
        elif unsat(AND(d, NOT(x))):
            d = bdd.cof(d, v, 1)
        else:
            d = AND(bdd.cof(d, v, 0), bdd.cof(d, v, 1))
    return d


def diff(where, a, b, care, out):
    for p, x, y, c in differs(a, b, care):
        gate(x, y)
        # a nested part may be accepted or refused: the outcome of the recursion is free
        l = limits(("B", c)) - SHARED_LIMITS - terms.REC
        if l:
            raise Undecided("the analysis does not open " + ", ".join(sorted(l)))
        out.append((where + p, "found %s, required %s%s" % (show(x, 3)[:300], show(y, 3)[:300], "" if c == 1 else " when " + showb(c, 2)[:200])))
    return out


def taint(*vs):
    return any(v.fl & (UNK | LVF) for v in vs)


# expected-value builders

def optpush(old, x):
    """old.unwrap_or([]) ++ [x]"""
    outs = [(is_variant(old, OPTION, 0), some(mk("seq", mk("pi", 1, x))))]
    p = payload(old, 1, OPTION)
    outs.append((is_variant(old, OPTION, 1), some(app(p, x))))
    return mk_ite(outs)


def app(p, x):
    out = []
    for g, q in cases(p):
        if q is UNDEF:
            continue
        out.append((g, mk("seq", *(tuple(parts_of(q)) + (mk("pi", 1, x),)))))
    return mk_ite(out)


def seqof(*xs):
    return mk("seq", *[mk("pi", 1, x) for x in xs])


def strlit(s):
    return mk("str", s)


def guard_diff(d, out, msg, where="acceptance"):
    """Report the inputs under which guard d (which must be impossible) holds."""
    if not unsat(d):
        e = settled(d)
        if unsat(e):
            gate(("B", d))
        else:
            gate(("B", e))
            d = e
        out.append((where, msg + ": " + showb(d, 4)[:300]))
    return out


PENDING = "the static rules for this property are not built yet"
TECH = {"*": ("interprocedural value-flow analysis over MIR (abstract interpretation with guarded values)",
              "Each obligation is decided for all inputs of the analysed public functions, from the MIR of the current tree; joins at merges, loops "
              "summarised by a generic element. Trusts the compiler front end and the models of standard collections; functions of other crates "
              "are uninterpreted. Obligations that meet an analysis limit are reported as undecided in the evidence and raise no alarm.")}
