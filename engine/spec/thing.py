from core import *

TB = "b: ThingBuilder<O, Extended>"
THING = "wot_td::thing::Thing"

E("thing0", TB, "R<O>", "b.build()")


def frame(pid, name, base, new, target, expected, accept=None, root=None, what=""):
    """`new` differs from `base` in the target member only, and there by `expected`."""
    def fn(env):
        out = []
        vb, vn = env.val(base), env.val(new)
        if root:
            pb, pn, gb, gn = root(env, vb), root(env, vn), 1, 1
        else:
            gb, gn = okg(vb), okg(vn)
            pb, pn = payload(vb), payload(vn)
        if accept == "any":
            d = 0
        elif accept == "weaker":      # the call replaces a value that may have been the reason of a rejection
            d = AND(gb, NOT(gn))
        else:
            d = NOT(bdd.IFF(gn, accept(env, gb) if accept else gb))
        guard_diff(d, out, "the call changes which inputs are accepted: ")
        care = AND(gb, gn)
        path = tpath(pn)
        for f in fields_of(path):
            if f == target:
                diff(f, get(pn, f), expected(get(pb, f), env), care, out)
            else:
                diff(f, get(pn, f), get(pb, f), care, out)
        return out
    rule(pid, name, [base, new], fn, what or "%s: member %s receives the value, all others are unchanged" % (name, target))


S = lambda n: mk("sym", n)


def tset(m, field, ty, expected, x="x"):
    n = "t_" + m
    E(n, TB + ", %s: %s" % (x, ty), "R<O>", "b.%s(%s).build()" % (m, x))
    frame("P01", "ThingBuilder::" + m, "thing0", n, field, expected)


for m in ("id", "description", "support", "base"):
    tset(m, m, "String", lambda old, env: some(S("x")))
tset("version", "version", "VersionInfo", lambda old, env: some(S("vi")), "vi")
for m in ("created", "modified"):
    tset(m, m, "time::OffsetDateTime", lambda old, env: some(S("dt")), "dt")
tset("attype", "attype", "String", lambda old, env: optpush(old, S("x")))
tset("profile", "profile", "String", lambda old, env: optpush(old, S("x")))

# ---- multi-language members: add(language, value)

def langs(pid, who, base, e1, e2, field, root=None, parse="lang_parse"):
    """`base` adds no language; e1 adds (l, v); e2 adds (l, v) and (m, w)."""
    E(parse, "l: String", "Result<oxilangtag::LanguageTag<String>, oxilangtag::LanguageTagParseError>", "l.parse()", gen="")
    E(parse + "2", "m: String", "Result<oxilangtag::LanguageTag<String>, oxilangtag::LanguageTagParseError>", "m.parse()", gen="")

    def exp1(old, env):
        return some(mkmap(None, [(1, payload(env.val(parse)), S("v"))]))

    def acc1(env, gb):
        return AND(gb, okg(env.val(parse)))

    def acc2(env, gb):
        return AND(acc1(env, gb), okg(env.val(parse + "2")))

    frame(pid, who + " (one language)", base, e1, field, exp1, acc1)

    def two(env):
        out = []
        vb, vn = env.val(base), env.val(e2)
        gb, gn = okg(vb), okg(vn)
        d = AND(NOT(veq(S("l"), S("m"))), NOT(bdd.IFF(gn, acc2(env, gb))))
        guard_diff(d, out, "languages are not accepted exactly when each is well formed: ")
        return out
    rule("P14", who + " (two languages)", [base, e2], two,
         "the description is refused exactly when one of the given language tags is malformed")

    def one(env):
        out = []
        gb, gn = okg(env.val(base)), okg(env.val(e1))
        d = NOT(bdd.IFF(gn, acc1(env, gb)))
        guard_diff(d, out, "a language is not accepted exactly when it is well formed: ")
        return out
    rule("P14", who + " (one language)", [base, e1], one,
         "the description is refused exactly when the given language tag is malformed")


for m in ("titles", "descriptions"):
    E("t_%s0" % m, TB, "R<O>", "b.%s(|m| m).build()" % m)
    E("t_%s1" % m, TB + ", l: String, v: String", "R<O>", "b.%s(move |z| z.add(l, v)).build()" % m)
    E("t_%s2" % m, TB + ", l: String, v: String, m: String, w: String", "R<O>", "b.%s(move |z| z.add(l, v).add(m, w)).build()" % m)
    frame("P01", "ThingBuilder::%s (no language)" % m, "thing0", "t_%s0" % m, m, lambda old, env: some(mkmap(None, [])),
          accept="weaker")
    langs("P01", "ThingBuilder::" + m, "t_%s0" % m, "t_%s1" % m, "t_%s2" % m, m)


# ---- links

LINK = "wot_td::thing::Link"


def link(env, **kw):
    fs = fields_of(LINK)
    return adt(LINK, 0, *[kw.get(f, none()) for f in fs])


E("t_link", TB + ", x: String", "R<O>", "b.link(x).build()")
frame("P01", "ThingBuilder::link", "thing0", "t_link", "links", lambda old, env: optpush(old, link(env, href=S("x"))))

# ---- context

for k in range(1, 4):
    xs = ["x%d" % i for i in range(k)]
    E("t_ctx%d" % k, "t: String, " + ", ".join(x + ": String" for x in xs), "R<O>",
      "ThingBuilder::<O, _>::new(t)%s.finish_extend().build()" % "".join(".context(%s)" % x for x in xs), gen="O: Ext + Default")
E("t_ctxm", "t: String, x0: String, n: String, v: String, n2: String, v2: String, x1: String", "R<O>",
  "ThingBuilder::<O, _>::new(t).context(x0).context_map(move |m| m.context(n, v).context(n2, v2)).context(x1).finish_extend().build()", gen="O: Ext + Default")
E("t_new", "t: String", "R<O>", "ThingBuilder::<O, _>::new(t).finish_extend().build()", gen="O: Ext + Default")
E("td11", "", "&'static str", "wot_td::thing::TD_CONTEXT_11", gen="")
