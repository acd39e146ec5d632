"""What a description of any size keeps: every object of the builder is in the description, once, with its members
(P01, P03 to P07). One analysis of build() on an arbitrary builder; the objects are generic elements."""
from core import *
from .thing import *
from .gates import part, vix, SUB, some_item
from .whole import jnorm, jval
from .anyschema import UST, US, known
import core


class Kept:
    def __init__(self, env, care, out):
        self.env, self.care, self.out = env, care, out

    def same(self, w, x, y):
        diff(w, x, y, self.care, self.out)

    def gate(self, *xs):
        # what the recursion into nested schemas reports is free
        l = terms.limits(*xs) - SHARED_LIMITS - terms.REC
        if l:
            raise Undecided("the analysis does not open " + ", ".join(sorted(l)))

    # ---- collections
    def items(self, w, found, source, check, key=None):
        """found is made of one item for every item of source, in its order."""
        for g, x in cases(found):
            c = AND(self.care, g)
            if x is UNDEF or unsat(c):
                continue
            if x is source:
                continue
            ps = [mk("ps", 1, x)]
            while len(ps) == 1 and ps[0].op == "ps" and ps[0].a[0] == 1 and ps[0].a[1] is not source:
                y = ps[0].a[1]
                ps = y.a[0].a if y.op == "mapof" else parts_of(y)
                if len(ps) == 1 and ps[0].op == "ps" and ps[0].a[1] is y:
                    break
            empty = NOT(nonempty(source))
            if not ps:
                if not unsat(AND(c, NOT(empty))):
                    self.gate(x, ("B", c))
                    self.out.append((w, "nothing of it is kept"))
                continue
            if unsat(AND(c, NOT(empty))):
                continue
            p = ps[0]
            if len(ps) == 1 and p.op == "ps" and p.a[1] is source:
                if p.a[0] != 1 and not unsat(AND(c, NOT(p.a[0]))):
                    self.gate(x, ("B", p.a[0]))
                    self.out.append((w, "not kept when " + showb(NOT(p.a[0]), 2)[:200]))
                check(w, mk("elem", source), mk("elem", source))
                continue
            y = p.a[1] if len(ps) == 1 and p.op in ("pc", "ps") else None
            if y is not None and y.op == "call" and y.a[0] in ("take", "skip", "step_by") and y.a[2].op == "int" and parts_of(y.a[1]) == parts_of(source):
                self.out.append((w, "made of %s(%s) of the items only" % (y.a[0], y.a[2].a[0])))
                continue
            if len(ps) != 1 or p.op != "pc" or p.a[1] is not source:
                raise Undecided("the rule does not see that %s is made of the items of the builder: %s" % (w, show(x, 4)[:300]))
            got = 0
            for q in p.a[2]:
                if q.op != "pi":
                    raise Undecided("the rule does not see how many items of %s an item of the builder gives" % w)
                if not unsat(AND(got, q.a[0])):
                    self.gate(x, ("B", AND(got, q.a[0])))
                    self.out.append((w, "an item is kept twice"))
                got = OR(got, q.a[0])
                check(w, q.a[1], mk("elem", source))
            # the items that are left out, of a description that is accepted
            left = AND(c, exists(source, NOT(AND(p.a[0], got))))
            if not unsat(left):
                self.gate(x, ("B", left))
                self.out.append((w, "an item is left out: " + showb(NOT(AND(p.a[0], got)), 3)[:200]))

    def option(self, w, found, source, check):
        """found is set exactly when source is, and its contents are related by check."""
        self.present(w, found, is_variant(source, OPTION, 1))
        self.contents(w, found, lambda x: check(w, x, payload(source, 1, OPTION)))

    def present(self, w, found, when):
        g = is_variant(found, OPTION, 1)
        bad = AND(self.care, NOT(bdd.IFF(g, when)))
        if not unsat(bad):
            self.gate(found, ("B", bad))
            self.out.append((w, "set and unset in the description where it is not in the builder: " + showb(bad, 3)[:200]))

    def contents(self, w, found, check):
        care = self.care
        for g, x in cases(found):
            if x is UNDEF:
                continue
            self.care = AND(care, AND(g, is_variant(x, OPTION, 1)))
            if not unsat(self.care):
                check(payload(x, 1, OPTION))
        self.care = care

    def maybe(self, w, found, source, check):
        """found is an option that is set exactly when the collection source is not empty."""
        self.present(w, found, nonempty(source))
        self.contents(w, found, lambda x: self.items(w, x, source, check))

    def optitems(self, w, found, source, check):
        self.option(w, found, source, lambda w2, x, y: self.items(w2, x, y, check))

    def within(self, w, x, y):
        """The generic items are compared without regard to the rest of the description."""
        care, self.care = self.care, 1
        try:
            self.same(w, x, y)
        finally:
            self.care = care

    def entry(self, check):
        def f(w, x, y):
            self.within(w + " name", proj(x, 0), proj(y, 0))
            check(w, proj(x, 1), proj(y, 1))
        return f

    # ---- objects
    def langs(self, w, found, source):
        v = self.env.val("lang_parse")

        def one(w2, x, y):
            self.within(w2 + " language", proj(x, 0), payload(terms.subst(v, S("l"), proj(y, 0), {})))
            self.within(w2 + " text", proj(x, 1), proj(y, 1))
        care, self.care = self.care, 1
        self.option(w, found, source, lambda w2, x, y: self.items(w2, x, part(y, "values"), one))
        self.care = care

    def members(self, w, found, source, names):
        for n in names:
            self.within("%s.%s" % (w, n), part(found, n), part(source, n))

    def rest(self, w, found, done):
        left = set(fields_of(tpath(found))) - set(done)
        if left:
            raise Undecided("%s has members the rule does not know: %s" % (w, ", ".join(sorted(left))))

    def human(self, w, found, info):
        self.members(w, found, info, ("attype", "title", "description"))
        for n in ("titles", "descriptions"):
            self.langs("%s.%s" % (w, n), part(found, n), part(info, n))

    HUMAN = ("attype", "title", "description", "titles", "descriptions")
    SCHEMA = ("constant", "default", "unit", "enumeration", "read_only", "write_only", "format", "other")

    def schema(self, w, found, source, info=None):
        self.human(w, found, source if info is None else info)
        self.members(w, found, source, self.SCHEMA)
        care, self.care = self.care, 1
        one = part(found, "one_of")
        self.present(w + ".one_of", one, is_variant(part(source, "one_of"), OPTION, 1))
        sub, st = part(found, "subtype"), part(source, "subtype")
        self.present(w + ".subtype", sub, is_variant(st, OPTION, 1))
        us = known(UST)
        for g, x in cases(sub):
            if x is UNDEF or is_variant(x, OPTION, 1) == 0 or unsat(g):
                continue
            p, q = payload(x, 1, OPTION), payload(st, 1, OPTION)
            for i, v in enumerate(known(SUB)):
                j = vix(UST, v["name"])
                is_ = AND(g, is_variant(q, UST, j))
                bad = AND(is_, NOT(is_variant(p, SUB, i)))
                if not unsat(bad):
                    self.gate(p, ("B", bad))
                    self.out.append((w + ".subtype", "the kind of the schema changes"))
                if not v["fields"] or unsat(is_):
                    continue
                a, b = proj(p, 0, i, SUB), proj(q, 0, j, UST)
                self.care = is_
                for f in fields_of(tpath(b)):
                    n = "%s.%s.%s" % (w, v["name"], f)
                    if f in ("items", "properties"):
                        self.present(n, part(a, f), is_variant(part(b, f), OPTION, 1))
                    else:
                        self.same(n, part(a, f), part(b, f))
                self.care = 1
        self.care = care
        self.rest(w, found, self.HUMAN + self.SCHEMA + ("one_of", "subtype"))

    def form(self, w, f, b):
        self.members(w, f, b, ("op", "href", "content_type", "content_coding", "subprotocol", "scopes", "response", "other"))
        care, self.care = self.care, 1
        self.optitems(w + ".security", part(f, "security"), part(b, "security"), self.string)
        self.maybe(w + ".additional_responses", part(f, "additional_responses"), part(b, "additional_responses"), self.within)
        self.care = care
        self.rest(w, f, ("op", "href", "content_type", "content_coding", "subprotocol", "scopes", "response", "other", "security", "additional_responses"))

    def string(self, w, x, y):
        # a name may be replaced by the name of the definition it was found under
        care, self.care = self.care, some_item(part(S("b"), "security_definitions"), lambda d: veq(proj(d, 0), y))
        try:
            self.same(w, x, y)
        finally:
            self.care = care

    def link(self, w, l, b):
        self.members(w, l, b, ("href", "ty", "rel", "anchor", "sizes"))
        v = self.env.val("lang_parse")
        care, self.care = self.care, 1
        self.maybe(w + ".hreflang", part(l, "hreflang"), part(b, "hreflang"),
                   lambda w2, x, y: self.within(w2, x, payload(terms.subst(v, S("l"), y, {}))))
        self.care = care
        self.rest(w, l, ("href", "ty", "rel", "anchor", "sizes", "hreflang"))

    def scheme(self, w, s, b):
        self.members(w, s, b, ("attype", "description", "proxy", "subtype"))
        self.langs(w + ".descriptions", part(s, "descriptions"), part(b, "descriptions"))
        self.rest(w, s, ("attype", "description", "proxy", "subtype", "descriptions"))

    def interaction(self, w, i, info, p, which):
        if which == "members":
            self.human(w, i, info)
            self.members(w, i, p, ("other",))
            self.rest(w, i, self.HUMAN + ("other", "forms", "uri_variables"))
        care, self.care = self.care, 1
        if which == "forms":
            self.items(w + ".forms", part(i, "forms"), part(p, "forms"), self.form)
        if which == "schemas":
            self.maybe(w + ".uri_variables", part(i, "uri_variables"), part(p, "uri_variables"), self.entry(self.schema))
        self.care = care

    OWN = {"properties": ("observable", "other"), "actions": ("safe", "idempotent", "synchronous", "other"), "events": ("other",)}
    SCHEMAS = {"properties": (), "actions": ("input", "output"), "events": ("subscription", "data", "data_response", "cancellation")}

    def affordance(self, kind, which):
        def f(w, x, y):
            a, b = proj(x, 1), part(y, "affordance")
            bi = part(b, "interaction")
            prop = kind == "properties"
            info, p = (part(b, "info"), bi) if prop else (part(bi, "info"), part(bi, "partial"))
            self.interaction(w, part(a, "interaction"), info, p, which)
            if which == "members":
                self.within(w + " name", proj(x, 0), part(y, "name"))
                self.members(w, a, b, self.OWN[kind])
                self.rest(w, a, self.OWN[kind] + self.SCHEMAS[kind] + ("interaction",) + (("data_schema",) if prop else ()))
            if which == "schemas":
                care, self.care = self.care, 1
                if prop:
                    self.schema(w + ".data_schema", part(a, "data_schema"), part(b, "data_schema"), info)
                for s in self.SCHEMAS[kind]:
                    self.option("%s.%s" % (w, s), part(a, s), part(b, s), self.schema)
                self.care = care
        return f


def keep(pid, name, fn, what):
    def f(env):
        try:
            v = env.val("any_build")
            k = Kept(env, okg(v), [])
            if unsat(k.care):
                raise Fail("no description is accepted")
            fn(k, simp(payload(v), k.care), S("b"))
        except Fail as e:
            raise Undecided("the builder is not the one the rule knows: %s" % e)
        return k.out
    rule(pid, name + ", any description", ["any_build"], f, what)


ONCE = "%s of a description of any size %s"
SCALAR = ("id", "attype", "title", "description", "version", "created", "modified", "support", "base", "security", "other")


def thing_members(k, t, b):
    for n in SCALAR:
        k.same(n, part(t, n), part(b, n))
    for n in ("titles", "descriptions"):
        k.langs(n, part(t, n), part(b, n))
    k.maybe("profile", part(t, "profile"), part(b, "profile"), k.within)


CX = "wot_td::builder::Context"


def context(k, t, b):
    src = part(b, "context")
    known(CX)
    whole = k.care
    for g, x in cases(jnorm(part(t, "context"))):
        k.care = AND(whole, g)
        if x is UNDEF or unsat(k.care):
            continue
        if x.op == "tuple":            # a list
            k.items("context", x.a[1], src, lambda w, y, z: one_context(k, w, y, z))
        elif x.op == "adt":
            k.same("the only context", x, jval("String", payload(mk("first", src), vix(CX, "Simple"), CX)))
        else:
            raise Undecided("the rule does not see what the context is made of")
    k.care = whole


def one_context(k, w, y, z):
    care = k.care
    for i, v in enumerate(known(CX)):
        k.care = is_variant(z, CX, i)
        c = payload(z, i, CX)
        for g, x in cases(y):
            if unsat(AND(k.care, g)):
                continue
            k.care, c0 = AND(k.care, g), k.care
            if v["name"] == "Simple":
                k.same(w, x, jval("String", c))
            else:
                x = jnorm(x)
                if x.op != "tuple" or x.a[0] is not strlit("object"):
                    raise Undecided("the rule does not see what a context map is made of")
                k.items(w + " map", x.a[1], c, k.entry(lambda w2, p, q: k.within(w2, p, jval("String", q))))
            k.care = c0
    k.care = care


keep("P01", "context", context, "every context is kept in its place with all its entries, however many there are")
keep("P01", "members of the thing", thing_members, "every member of the builder is the member of the description")
keep("P05", "forms of the thing", lambda k, t, b: k.optitems("forms", part(t, "forms"), part(b, "forms"), k.form),
     "every form is kept with its members and in its place, however many there are")
keep("P07", "links", lambda k, t, b: k.optitems("links", part(t, "links"), part(b, "links"), k.link),
     "every link is kept with its members and in its place, however many there are")
keep("P06", "security definitions", lambda k, t, b: k.items("security_definitions", part(t, "security_definitions"), part(b, "security_definitions"), k.entry(k.scheme)),
     "every security definition is kept with its members, however many there are")
keep("P04", "schema definitions", lambda k, t, b: k.maybe("schema_definitions", part(t, "schema_definitions"), part(b, "schema_definitions"), k.entry(k.schema)),
     "every schema definition is kept with its members, however many there are")
keep("P04", "uri variables of the thing", lambda k, t, b: k.optitems("uri_variables", part(t, "uri_variables"), part(b, "uri_variables"), k.entry(k.schema)),
     "every uri variable is kept with its members, however many there are")
for _k in Kept.OWN:
    for _pid, _which, _nm in (("P03", "members", "members of "), ("P05", "forms", "forms of "), ("P04", "schemas", "schemas of ")):
        keep(_pid, _nm + _k, lambda k, t, b, _k=_k, _which=_which: k.maybe(_k, part(t, _k), part(b, _k), k.affordance(_k, _which)),
             "all of them are kept with their members, however many there are")
