"""Hash-consed value terms and guarded values.

A value is a constructor term (adt, tuple, int, str, seq, map, closure, ...),
an opaque term (a parameter, a field of a parameter, the result of a call the
analysis does not open), or `ite`: a finite set of (guard, leaf) cases.
"""
import bdd
from bdd import AND, OR, NOT

PTR, ITE, UNK, LVF = 1, 2, 4, 8

TAB = {}
ADTS = {}          # path -> adt record of the dump
OPAQUE_TY = {}     # opaque term -> adt path
NOFE = frozenset()
_bfe = {}


class T:
    __slots__ = ("op", "a", "id", "fe", "fl", "__weakref__")

    def __repr__(self):
        return show(self)


def bdd_fe(b):
    r = _bfe.get(b)
    if r is None:
        s = set()
        fl = 0
        for v in bdd.support(b):
            t = bdd.ATOMS[v]
            s |= t.fe
            fl |= t.fl & (UNK | LVF)
        r = (frozenset(s), fl)
        _bfe[b] = r
    return r


def _collect(x, fe, fl):
    if isinstance(x, T):
        return fe | x.fe, fl | x.fl
    if isinstance(x, tuple):
        for y in x:
            fe, fl = _collect(y, fe, fl)
    return fe, fl


def mk(op, *a):
    k = (op, a)
    t = TAB.get(k)
    if t is not None:
        return t
    t = T()
    t.op, t.a, t.id = op, a, len(TAB)
    fe, fl = NOFE, 0
    if op == "bool":
        fe, f2 = bdd_fe(a[0])
        fl = f2
        if a[0] > 1:
            fl |= ITE
    elif op == "ite":
        fl = ITE
        for g, v in a[0]:
            f1, f2 = bdd_fe(g)
            fe |= f1 | v.fe
            fl |= f2 | v.fl
    elif op in ("pi", "ps"):
        f1, f2 = bdd_fe(a[0])
        fe, fl = f1 | a[1].fe, f2 | a[1].fl
        if a[0] != 1:
            fl |= ITE
    elif op == "pc":                      # cond, coll, body parts
        f1, f2 = bdd_fe(a[0])
        fe, fl = _collect(a[2], NOFE, 0)
        fe = (fe - {a[1]}) | a[1].fe | f1
        fl |= f2 | a[1].fl
    elif op == "exists":                  # coll, bdd
        f1, f2 = bdd_fe(a[1])
        fe = (f1 - {a[0]}) | a[0].fe
        fl = f2 | a[0].fl
    elif op == "mu":                      # coll, bdd, val
        f1, f2 = bdd_fe(a[1])
        fe = ((f1 | a[2].fe) - {a[0]}) | a[0].fe
        fl = f2 | a[0].fl | a[2].fl
    elif op == "mucond":                  # coll, bdd, bdd
        f1, f2 = bdd_fe(a[1])
        f3, f4 = bdd_fe(a[2])
        fe = ((f1 | f3) - {a[0]}) | a[0].fe
        fl = f2 | f4 | a[0].fl
    elif op == "fold":                    # coll, lvs, inits, bodies, k, contguard
        coll = a[0]
        fe, fl = _collect(a[3], NOFE, 0)
        f1, f2 = bdd_fe(a[5])
        fe = fe | f1
        fl |= f2
        fe = fe - {coll} - set(a[1])
        f3, f4 = _collect(a[2], NOFE, 0)
        fe |= f3 | coll.fe
        fl = (fl | f4 | coll.fl) & ~LVF
    elif op == "foldexit":                # coll, lvs, inits, bodies, guard, contguard
        coll = a[0]
        fe, fl = _collect(a[3], NOFE, 0)
        f1, f2 = bdd_fe(a[4])
        f5, f6 = bdd_fe(a[5])
        fe = (fe | f1 | f5) - {coll} - set(a[1])
        f3, f4 = _collect(a[2], NOFE, 0)
        fe |= f3 | coll.fe
        fl = (fl | f2 | f6 | f4 | coll.fl) & ~LVF
    elif op == "map":                     # base|None, ((cond,k,v)..)
        if a[0] is not None:
            fe, fl = a[0].fe, a[0].fl
        for c, kk, v in a[1]:
            f1, f2 = bdd_fe(c)
            fe |= f1 | kk.fe | v.fe
            fl |= f2 | kk.fl | v.fl
            if c != 1:
                fl |= ITE
    else:
        fe, fl = _collect(a, NOFE, 0)
        if op == "elem":
            fe = fe | {a[0]}
        elif op == "lv":
            fe = fe | {t}
            fl |= LVF
        elif op == "ptr":
            fl |= PTR
        elif op == "unk" or (op == "call" and a[0].startswith("?")):
            fl |= UNK
    t.fe, t.fl = fe, fl
    TAB[k] = t
    return t


def _chain(t):
    """The objects an atom is about, innermost first."""
    out = []
    x = t.a[0] if t.a else None
    if t.op in ("less", "equal", "eq", "is", "eqlit", "nan", "var", "contains"):
        pass
    while isinstance(x, T):
        out.append(x)
        if x.op in ("fld", "elem", "post", "mval", "idx", "first", "mu", "cast"):
            y = x.a[1] if x.op == "post" else x.a[0]
        elif x.op == "call":
            y = next((z for z in x.a[1:] if isinstance(z, T)), None)
        elif x.op == "adt":
            y = next((z for z in x.a[2:] if isinstance(z, T)), None)
        elif x.op in ("fold", "foldexit", "exists", "seq", "pi", "ps", "pc", "map", "ite"):
            y = next((z for z in x.a if isinstance(z, T)), None)
        else:
            y = None
        x = y
        if len(out) > 40:
            break
    return out


bdd.CHAIN[0] = _chain

UNDEF = mk("undef")
UNIT = mk("tuple")
TRUE = mk("bool", 1)
FALSE = mk("bool", 0)

OPTION = "core::option::Option"
RESULT = "core::result::Result"
CF = "core::ops::control_flow::ControlFlow"
ORDERING = "core::cmp::Ordering"


def mkb(b):
    if b == 1:
        return TRUE
    if b == 0:
        return FALSE
    return mk("bool", b)


def adt(path, vi, *fields):
    # structure rebuilt field by field from an opaque value of the same type
    if fields:
        f0 = fields[0]
        if f0.op == "fld" and f0.a[2] == 0 and f0.a[1] == vi:
            x = f0.a[0]
            if OPAQUE_TY.get(x) == path and nvariants(path) == 1:
                if all(f.op == "fld" and f.a[0] is x and f.a[1] == vi and f.a[2] == i for i, f in enumerate(fields)) \
                        and len(ADTS[path]["variants"][vi]["fields"]) == len(fields):
                    return x
    return mk("adt", path, vi, *fields)


def none():
    return mk("adt", OPTION, 0)


def some(x):
    return mk("adt", OPTION, 1, x)


def ok(x):
    return mk("adt", RESULT, 0, x)


def err(x):
    return mk("adt", RESULT, 1, x)


def nvariants(path):
    a = ADTS.get(path)
    return len(a["variants"]) if a else 1


def isatom(x, path, k):
    """Guard: opaque enum value x is variant k."""
    n = nvariants(path)
    if n <= 1:
        return 1
    OPAQUE_TY.setdefault(x, path)
    g = 1
    for j in range(k):
        g = AND(g, NOT(bdd.atom(mk("is", x, j))))
    if k < n - 1:
        g = AND(g, bdd.atom(mk("is", x, k)))
    return g


def is_variant(x, path, k):
    if x.op == "adt":
        return 1 if x.a[1] == k else 0
    if x.op == "ite":
        return bdd.anyn(AND(g, is_variant(v, path, k)) for g, v in x.a[0])
    if x is UNDEF:
        return 0
    if x.op == "bool":
        raise ValueError("variant of bool")
    return isatom(x, path, k)


def cases(v):
    return v.a[0] if v.op == "ite" else ((1, v),)


def _eta(cs):
    """[(is(x,k), variant k rebuilt from x)] is x."""
    x = None
    path = None
    for g, v in cs:
        if v.op != "adt":
            return None
        path = v.a[0]
        if len(v.a) > 2 and v.a[2].op == "fld":
            x = v.a[2].a[0]
    if x is None or OPAQUE_TY.get(x) != path:
        return None
    if nvariants(path) != len(cs):
        return None
    for g, v in cs:
        vi = v.a[1]
        if isatom(x, path, vi) != g:
            return None
        for i, f in enumerate(v.a[2:]):
            if not (f.op == "fld" and f.a[0] is x and f.a[1] == vi and f.a[2] == i):
                return None
    return x


def _key(v):
    op = v.op
    if op == "adt":
        return ("adt", v.a[0], v.a[1])
    if op == "tuple":
        return ("tuple", len(v.a))
    if op == "clo":
        return ("clo", v.a[0], v.a[1], len(v.a))
    if op == "bool":
        return "bool"
    if op == "seq":
        return "seq"
    if op == "map":
        return ("map", v.a[0])
    return v


def mk_ite(cs):
    flat = []
    for g, v in cs:
        if g == 0 or v is UNDEF:
            continue
        if v.op == "ite":
            for g2, v2 in v.a[0]:
                gg = AND(g, g2)
                if gg != 0:
                    flat.append((gg, v2))
        else:
            flat.append((g, v))
    if not flat:
        return UNDEF
    groups = {}
    order = []
    for g, v in flat:
        k = _key(v)
        if k not in groups:
            groups[k] = []
            order.append(k)
        groups[k].append((g, v))
    if len(groups) > 1 and "bool" in groups:
        bs = []
        for k in order:
            for g, v in groups[k]:
                bs.append((g, tobdd(v)))
        return mkb(_boolmerge(bs))
    if len(groups) > 1 and "seq" in groups:
        allv = []
        for k in order:
            for g, v in groups[k]:
                allv.append((g, v if v.op == "seq" else mk("seq", mk("ps", 1, v))))
        groups = {"seq": allv}
        order = ["seq"]
    if len(groups) > 1 and any(isinstance(k, tuple) and k[0] == "map" for k in groups):
        # merge maps over the same base; an opaque map is its own base
        g2 = {}
        o2 = []
        for k in order:
            for g, v in groups[k]:
                if v.op == "map":
                    b = v.a[0]
                else:
                    b = v
                kk = ("map", b)
                if kk not in g2:
                    g2[kk] = []
                    o2.append(kk)
                g2[kk].append((g, v if v.op == "map" else mk("map", v, ())))
        groups, order = g2, o2
    if len(groups) == 1:
        k = order[0]
        return _merge(k, groups[k])
    out = []
    tot = 0
    for g, _ in flat:
        tot = OR(tot, g)
    for k in order:
        vs = groups[k]
        g = bdd.anyn(x for x, _ in vs)
        out.append((restrict(g, tot), _merge(k, vs)))
    out.sort(key=lambda c: c[1].id)
    x = _eta(out)
    if x is not None:
        return x
    return mk("ite", tuple(out))


def _boolmerge(bs):
    r = 0
    tot = 0
    for g, b in bs:
        r = OR(r, AND(g, b))
        tot = OR(tot, g)
    return restrict(r, tot)


_rm = {}


def restrict(f, c):
    """Simplify f given that c holds."""
    if c == 1 or f < 2:
        return f
    if c == 0:
        return f
    k = (f, c)
    r = _rm.get(k)
    if r is not None:
        return r
    vf, vc = bdd.VAR[f], bdd.VAR[c]
    if bdd.POS[vc] < bdd.POS[vf]:
        r = restrict(f, OR(bdd.LO[c], bdd.HI[c]))
    else:
        c0, c1 = (bdd.LO[c], bdd.HI[c]) if vc == vf else (c, c)
        if c0 == 0:
            r = restrict(bdd.HI[f], c1)
        elif c1 == 0:
            r = restrict(bdd.LO[f], c0)
        else:
            r = bdd.node(vf, restrict(bdd.LO[f], c0), restrict(bdd.HI[f], c1))
    _rm[k] = r
    return r


def _merge(k, vs):
    v0 = vs[0][1]
    if len(vs) == 1 or all(v is v0 for _, v in vs):
        return v0
    if k == "bool":
        return mkb(_boolmerge([(g, v.a[0]) for g, v in vs]))
    if v0.op == "adt":
        n = len(v0.a) - 2
        return adt(v0.a[0], v0.a[1], *[mk_ite([(g, v.a[2 + i]) for g, v in vs]) for i in range(n)])
    if v0.op == "tuple":
        return mk("tuple", *[mk_ite([(g, v.a[i]) for g, v in vs]) for i in range(len(v0.a))])
    if v0.op == "clo":
        return mk("clo", v0.a[0], v0.a[1], *[mk_ite([(g, v.a[2 + i]) for g, v in vs]) for i in range(len(v0.a) - 2)])
    if v0.op == "seq":
        return _seqmerge(vs)
    if v0.op == "map":
        return _mapmerge(vs)
    return v0


def _pcond(p, c):
    return mk(p.op, c, *p.a[1:])


def _seqmerge(vs):
    tot = bdd.anyn(g for g, _ in vs)
    # merge equal lists first
    byl = {}
    for g, v in vs:
        byl[v.a] = OR(byl.get(v.a, 0), g)
    lists = [(restrict(g, tot), list(l)) for l, g in byl.items()]
    if len(lists) == 1:
        return mk("seq", *lists[0][1])
    n = min(len(l) for _, l in lists)
    pre = 0
    while pre < n and all(l[pre] is lists[0][1][pre] for _, l in lists):
        pre += 1
    suf = 0
    while suf < n - pre and all(l[-1 - suf] is lists[0][1][-1 - suf] for _, l in lists):
        suf += 1
    out = lists[0][1][:pre]
    mids = [(g, l[pre:len(l) - suf]) for g, l in lists]
    # same-shape middles merge element-wise
    n = len(mids[0][1])
    if n and all(len(m) == n and all(p.op == "pi" and p.a[0] == 1 for p in m) for _, m in mids):
        for i in range(n):
            out.append(mk("pi", 1, mk_ite([(g, m[i].a[1]) for g, m in mids])))
    else:
        for g, m in mids:
            for p in m:
                out.append(_pcond(p, AND(g, p.a[0])))
    if suf:
        out += lists[0][1][-suf:]
    return seq(out)


def _mapmerge(vs):
    tot = bdd.anyn(g for g, _ in vs)
    lists = [(restrict(g, tot), list(v.a[1])) for g, v in vs]
    base = vs[0][1].a[0]
    n = min(len(l) for _, l in lists)
    pre = 0
    while pre < n and all(l[pre] == lists[0][1][pre] for _, l in lists):
        pre += 1
    out = lists[0][1][:pre]
    for g, l in lists:
        for c, k, v in l[pre:]:
            out.append((AND(g, c), k, v))
    return mkmap(base, out)


def seq(parts):
    parts = [p for p in parts if p.a[0] != 0]
    if len(parts) == 1 and parts[0].op == "ps" and parts[0].a[0] == 1:
        return parts[0].a[1]
    return mk("seq", *parts)


def item(v, c=1):
    return mk("pi", c, v)


def parts_of(v):
    """The parts of a sequence-like value."""
    if v.op == "seq":
        return list(v.a)
    if v.op == "ite":
        return list(_seqmerge([(g, x if x.op == "seq" else mk("seq", *parts_of(x))) for g, x in v.a[0]]).a) \
            if True else None
    if v.op == "mapof" and len(v.a) == 2:
        return list(v.a[0].a)         # every key occurs once
    if v.op == "map":
        out = [mk("ps", 1, v.a[0])] if v.a[0] is not None else []
        return out + [mk("pi", c, mk("tuple", k, x)) for c, k, x in v.a[1]]
    if v.op == "adt" and v.a[0] == OPTION:
        return [item(v.a[2])] if v.a[1] == 1 else []
    if v is UNDEF:
        return []
    return [mk("ps", 1, v)]


def mkmap(base, entries):
    es = tuple((c, k, v) for c, k, v in entries if c != 0)
    if not es and base is not None:
        return base
    return mk("map", base, es)


def tobdd(v):
    if v.op == "bool":
        return v.a[0]
    if v.op == "ite":
        return _boolmerge([(g, tobdd(x)) for g, x in v.a[0]])
    if v is UNDEF:
        return 0
    return bdd.atom(mk("var", v))


def fld(x, vi, i, path=None):
    if path is not None and x not in OPAQUE_TY:
        OPAQUE_TY[x] = path
    return mk("fld", x, vi, i)


def proj(v, i, vi=None, path=None):
    """Field i of v (of variant vi for enums)."""
    op = v.op
    if op == "adt":
        if vi is not None and vi != v.a[1]:
            return UNDEF
        if 2 + i >= len(v.a):
            return UNDEF
        return v.a[2 + i]
    if op == "tuple":
        return v.a[i] if i < len(v.a) else UNDEF
    if op == "clo":
        return v.a[2 + i]
    if op == "ite":
        return mk_ite([(g, proj(x, i, vi, path)) for g, x in v.a[0]])
    if op == "undef":
        return v
    return fld(v, vi or 0, i, path)


def expand(x, path, vi=0):
    """An opaque struct as a constructor over its fields."""
    a = ADTS[path]["variants"][vi]
    OPAQUE_TY.setdefault(x, path)
    return mk("adt", path, vi, *[fld(x, vi, i) for i in range(len(a["fields"]))])


def simp(v, pc):
    """Drop the cases of v that cannot happen under pc."""
    if pc == 1 or not (v.fl & ITE):
        return v
    return _simp(v, pc, 6)


_sm = {}


def _simp(v, pc, d):
    if d == 0 or not (v.fl & ITE):
        return v
    k = (v, pc, d)
    r = _sm.get(k)
    if r is not None:
        return r
    op = v.op
    if op == "bool":
        r = mkb(restrict(v.a[0], pc))
    elif op == "ite":
        cs = []
        for g, x in v.a[0]:
            gg = AND(g, pc)
            if gg != 0:
                cs.append((restrict(g, pc), _simp(x, gg, d - 1)))
        if len(cs) == 1:
            r = cs[0][1]
        elif cs:
            # restricted guards may overlap outside pc: make them disjoint
            tot = 0
            c2 = []
            for g, x in cs:
                c2.append((AND(g, NOT(tot)), x))
                tot = OR(tot, g)
            r = mk_ite(c2)
        else:
            r = UNDEF
    elif op == "adt":
        r = adt(v.a[0], v.a[1], *[_simp(x, pc, d - 1) for x in v.a[2:]])
    elif op == "tuple":
        r = mk("tuple", *[_simp(x, pc, d - 1) for x in v.a])
    elif op == "clo":
        r = mk("clo", v.a[0], v.a[1], *[_simp(x, pc, d - 1) for x in v.a[2:]])
    elif op == "seq":
        ps = []
        for p in v.a:
            if AND(p.a[0], pc) == 0:
                continue
            c = restrict(p.a[0], pc)
            if p.op == "pi":
                ps.append(mk("pi", c, _simp(p.a[1], AND(pc, p.a[0]), d - 1)))
            else:
                ps.append(_pcond(p, c))
        r = seq(ps)
    elif op == "map":
        es = []
        for c, kk, x in v.a[1]:
            if AND(c, pc) == 0:
                continue
            es.append((restrict(c, pc), _simp(kk, pc, d - 1), _simp(x, pc, d - 1)))
        r = mkmap(v.a[0], es)
    else:
        r = v
    _sm[k] = r
    return r


# ---------------------------------------------------------------- quantifiers

def subst(x, old, new, memo):
    """x with the term old replaced by new (x: term, tuple of terms, or anything else)."""
    if isinstance(x, tuple):
        return tuple(subst(y, old, new, memo) for y in x)
    if not isinstance(x, T):
        return x
    if x is old:
        return new
    r = memo.get(x)
    if r is not None:
        return r
    o, a = x.op, x.a
    g = lambda b: subst_bdd(b, old, new, memo)
    s = lambda y: subst(y, old, new, memo)
    if o == "bool":
        r = mkb(g(a[0]))
    elif o == "ite":
        r = mk_ite([(g(c), s(v)) for c, v in a[0]])
    elif o in ("pi", "ps"):
        r = mk(o, g(a[0]), *[s(y) for y in a[1:]])
    elif o == "pc":
        r = mk(o, g(a[0]), s(a[1]), s(a[2]))
    elif o == "mu":
        r = mk(o, s(a[0]), g(a[1]), s(a[2]))
    elif o == "map":
        r = mk(o, s(a[0]), tuple((g(c), s(k), s(v)) for c, k, v in a[1]))
    elif o == "fold":
        r = mk(o, *[s(y) for y in a[:5]], g(a[5]))
    elif o == "fld":
        y = s(a[0])
        r = proj(y, a[2], a[1], OPAQUE_TY.get(a[0])) if y.op == "adt" else mk("fld", y, *a[1:])
        if a[0] in OPAQUE_TY:
            OPAQUE_TY.setdefault(y, OPAQUE_TY[a[0]])
    else:
        r = mk(o, *[s(y) for y in a])
    if x in OPAQUE_TY:
        OPAQUE_TY.setdefault(r, OPAQUE_TY[x])
    memo[x] = r
    return r


def subst_bdd(b, old, new, memo=None):
    memo = {} if memo is None else memo
    if b < 2:
        return b
    r = memo.get(("B", b))
    if r is None:
        t = bdd.ATOMS[bdd.VAR[b]]
        hook = memo.get("hook")
        v = hook(t) if hook else None
        if v is not None:
            r = bdd.ite(v, subst_bdd(bdd.HI[b], old, new, memo), subst_bdd(bdd.LO[b], old, new, memo))
            memo[("B", b)] = r
            return r
        s = lambda y: subst(y, old, new, memo)
        g = lambda c: subst_bdd(c, old, new, memo)
        a = t.a
        if t.op == "eq":
            v = veq(s(a[0]), s(a[1]))
        elif t.op == "exists":
            v = exists(s(a[0]), g(a[1]))
        elif t.op == "mucond":
            v = mucond(s(a[0]), g(a[1]), g(a[2]))
        elif t.op == "foldexit":
            v = bdd.atom(mk(t.op, *[s(y) for y in a[:4]], g(a[4]), g(a[5])))
        else:
            v = bdd.atom(mk(t.op, *[s(y) for y in a]))
            for y in a:
                if isinstance(y, T) and y in OPAQUE_TY:
                    OPAQUE_TY.setdefault(s(y), OPAQUE_TY[y])
        r = bdd.ite(v, g(bdd.HI[b]), g(bdd.LO[b]))
        memo[("B", b)] = r
    return r


def exists(coll, b):
    """Guard: some element e = elem(coll) satisfies b."""
    if b == 0:
        return 0
    if coll.op == "call" and coll.a[0] == "rev":
        # the order does not matter
        out = 0
        for p in parts_of(coll.a[1]):
            if p.op == "pi":
                out = OR(out, AND(p.a[0], subst_bdd(b, mk("elem", coll), p.a[1])))
            elif p.op == "ps":
                out = OR(out, AND(p.a[0], exists(p.a[1], subst_bdd(b, mk("elem", coll), mk("elem", p.a[1])))))
            elif p.op == "pc" and all(q.op == "pi" for q in p.a[2]):
                out = OR(out, AND(p.a[0], exists(p.a[1], bdd.anyn(
                    AND(q.a[0], subst_bdd(b, mk("elem", coll), q.a[1])) for q in p.a[2]))))
            else:
                break
        else:
            return out
    dep = [v for v in bdd.support(b) if coll in bdd.ATOMS[v].fe]
    ind = [v for v in bdd.support(b) if coll not in bdd.ATOMS[v].fe]
    if ind:
        v = bdd.first(ind)
        return bdd.ite(bdd.node(v, 0, 1), exists(coll, bdd.cof(b, v, 1)), exists(coll, bdd.cof(b, v, 0)))
    return bdd.atom(mk("exists", coll, b))


def mu(coll, b, v):
    """The value v(e) at the first element e of coll that satisfies b."""
    if coll not in v.fe:
        return v
    op = v.op
    if op == "bool":
        return mkb(mucond(coll, b, v.a[0]))
    if op == "ite":
        cs = []
        rest = 1
        for n, (g, x) in enumerate(v.a[0]):
            if n == len(v.a[0]) - 1:
                m = rest
            else:
                m = AND(rest, mucond(coll, b, g))
            rest = AND(rest, NOT(m))
            cs.append((m, mu(coll, b, x)))
        return mk_ite(cs)
    if op == "adt":
        return adt(v.a[0], v.a[1], *[mu(coll, b, x) for x in v.a[2:]])
    if op == "tuple":
        return mk("tuple", *[mu(coll, b, x) for x in v.a])
    if op == "ptr":
        return v
    if op == "ent":
        return mk("ent", v.a[0], mu(coll, b, v.a[1]))
    if op == "clo":
        return mk("clo", v.a[0], v.a[1], *[mu(coll, b, x) for x in v.a[2:]])
    if op == "seq" and all(p.op == "pi" for p in v.a):
        return mk("seq", *[mk("pi", mucond(coll, b, p.a[0]), mu(coll, b, p.a[1])) for p in v.a])
    return mk("mu", coll, b, v)


def mucond(coll, b, g):
    if g < 2:
        return g
    ind = [v for v in bdd.support(g) if coll not in bdd.ATOMS[v].fe]
    if ind:
        v = bdd.first(ind)
        return bdd.ite(bdd.node(v, 0, 1), mucond(coll, b, bdd.cof(g, v, 1)), mucond(coll, b, bdd.cof(g, v, 0)))
    return bdd.atom(mk("mucond", coll, b, g))


def nonempty(coll):
    if coll.op == "mapof":
        return bdd.anyn(part_nonempty(p) for p in coll.a[0].a)
    if coll.op == "call" and coll.a[0] == "rev":
        return seq_nonempty(coll.a[1])
    if coll.op == "call" and coll.a[0] == "skip_while":
        return exists(coll.a[1], NOT(tobdd(coll.a[2])))
    return bdd.atom(mk("exists", coll, 1))


def part_nonempty(p):
    if p.op == "pi":
        return p.a[0]
    if p.op == "ps":
        return AND(p.a[0], nonempty(p.a[1]))
    return AND(p.a[0], exists(p.a[1], bdd.anyn(part_nonempty(q) for q in p.a[2])))


def seq_nonempty(v):
    return bdd.anyn(part_nonempty(p) for p in parts_of(v))


# ---------------------------------------------------------------- equality

CHAIN = {}


def liteq(x, lit):
    """Guard: opaque x equals the literal; literals of one x are exclusive."""
    ch = CHAIN.setdefault(x, [])
    if lit not in ch:
        ch.append(lit)
    g = 1
    for l in ch:
        a = bdd.atom(mk("eqlit", x, l))
        if l == lit:
            return AND(g, a)
        g = AND(g, NOT(a))


LIT = ("str", "char")


def veq(a, b):
    """Guard: a == b (PartialEq of structural std types, strings, opaque values)."""
    if a is b:
        return 1
    if a is UNDEF or b is UNDEF:
        return 0
    if a.op == "ite":
        return bdd.anyn(AND(g, veq(x, b)) for g, x in a.a[0])
    if b.op == "ite":
        return bdd.anyn(AND(g, veq(a, x)) for g, x in b.a[0])
    if a.op == "bool" or b.op == "bool":
        return bdd.IFF(tobdd(a), tobdd(b))
    if a.op in LIT and b.op in LIT:
        return 1 if a is b else 0
    if a.op == "int" and b.op == "int":
        return 1 if a.a[0] == b.a[0] else 0
    if a.op in LIT:
        return liteq(b, a)
    if b.op in LIT:
        return liteq(a, b)
    if a.op == "int" or b.op == "int":
        return order(a, b)[1]
    if a.op == "adt" and b.op == "adt":
        if a.a[0] != b.a[0] or a.a[1] != b.a[1]:
            return 0
        return bdd.alln(veq(x, y) for x, y in zip(a.a[2:], b.a[2:]))
    if a.op == "tuple" and b.op == "tuple":
        return bdd.alln(veq(x, y) for x, y in zip(a.a, b.a))
    if b.op == "adt":
        a, b = b, a
    if a.op == "adt" and ADTS.get(a.a[0]):
        g = isatom(b, a.a[0], a.a[1])
        return bdd.alln([g] + [veq(x, fld(b, a.a[1], i, a.a[0])) for i, x in enumerate(a.a[2:])])
    if a.op == "seq" or b.op == "seq":
        pa, pb = parts_of(a), parts_of(b)
        if all(p.op == "pi" and p.a[0] == 1 for p in pa + pb):
            if len(pa) != len(pb):
                return 0
            return bdd.alln(veq(p.a[1], q.a[1]) for p, q in zip(pa, pb))
        if not pb:
            a, b, pa, pb = b, a, pb, pa
        if not pa:
            return NOT(bdd.anyn(part_nonempty(p) for p in pb))
    if b.id < a.id:
        a, b = b, a
    return bdd.atom(mk("eq", a, b))


def order(a, b, fl=False):
    """Guards (less, equal, greater, unordered) of a numeric comparison."""
    if a.op == "ite" or b.op == "ite":
        r = [0, 0, 0, 0]
        for g, x in cases(a):
            for h, y in cases(b):
                gh = AND(g, h)
                if gh:
                    for i, o in enumerate(order(x, y, fl)):
                        r[i] = OR(r[i], AND(gh, o))
        return tuple(r)
    if a is UNDEF or b is UNDEF:
        return (0, 0, 0, 0)
    if a.op == "int" and b.op == "int":
        return (int(a.a[0] < b.a[0]), int(a.a[0] == b.a[0]), int(a.a[0] > b.a[0]), 0)
    if a.op == "float" and b.op == "float":
        x, y = float(a.a[0]), float(b.a[0])
        return (int(x < y), int(x == y), int(x > y), int(x != x or y != y))
    u = OR(nan(a), nan(b)) if fl else 0
    if a is b:
        return (0, NOT(u), 0, u)
    if b.id < a.id:
        g, e, l, u = order(b, a, fl)
        return (l, e, g, u)
    al = bdd.atom(mk("less", a, b))
    ae = bdd.atom(mk("equal", a, b))
    n = NOT(u)
    return (AND(n, al), AND(n, AND(NOT(al), ae)), AND(n, AND(NOT(al), NOT(ae))), u)


def nan(a):
    if a.op == "float":
        x = float(a.a[0])
        return 1 if x != x else 0
    if a.op == "ite":
        return bdd.anyn(AND(g, nan(x)) for g, x in a.a[0])
    if a.op == "int":
        return 0
    return bdd.atom(mk("nan", a))


# ---------------------------------------------------------------- satisfiability of guards

def axioms(f):
    """Facts about the quantified atoms in f: if every element satisfying b1
    satisfies one of b2.., then exists(b1) implies exists(b2) or ..."""
    by = {}
    eqs = {}
    lens = {}
    seen = set()
    todo = list(bdd.support(f))
    while todo:
        v = todo.pop()
        if v in seen:
            continue
        seen.add(v)
        t = bdd.ATOMS[v]
        if t.op == "exists":
            by.setdefault(t.a[0], []).append((v, t.a[1]))
        elif t.op in ("eq", "eqlit"):
            eqs[frozenset(t.a)] = v
        elif t.op in ("less", "equal") and t.a[0].op == "int" and t.a[1].op == "call" and t.a[1].a[0] == "len":
            lens.setdefault(t.a[1].a[1], {})[(t.op, t.a[0].a[0])] = v
    ax = 1
    # the length of a collection and its having elements agree
    for coll, ls in lens.items():
        ne = [bdd.node(v, 0, 1) for v, b in by.get(coll, []) if b == 1]
        pos = [bdd.node(v, 0, 1) for (o, n), v in ls.items() if (o == "less" and n >= 0) or (o == "equal" and n > 0)]
        for x in ne:
            for p in pos:
                ax = AND(ax, OR(NOT(p), x))
            l0 = ls.get(("less", 0))
            if l0 is not None:
                ax = AND(ax, OR(NOT(x), bdd.node(l0, 0, 1)))
            l1, e1 = ls.get(("less", 1)), ls.get(("equal", 1))
            if l1 is not None and e1 is not None:
                ax = AND(ax, OR(NOT(x), OR(bdd.node(l1, 0, 1), bdd.node(e1, 0, 1))))
        for (o, n), v in ls.items():
            for (o2, n2), w in ls.items():
                if o == "less" and o2 == "equal" and n >= n2 or o == o2 == "equal" and n < n2:
                    ax = AND(ax, NOT(AND(bdd.node(v, 0, 1), bdd.node(w, 0, 1))))
                if o == "less" and o2 == "equal" and n < n2:
                    ax = AND(ax, OR(NOT(bdd.node(w, 0, 1)), bdd.node(v, 0, 1)))
    # equality is transitive
    if 2 < len(eqs) <= 60:
        nb = {}
        for p in eqs:
            if len(p) == 2:
                x, y = p
                nb.setdefault(x, set()).add(y)
                nb.setdefault(y, set()).add(x)
        for x, ys in nb.items():
            ys = sorted(ys, key=lambda t: t.id)
            for i, y in enumerate(ys):
                for z in ys[i + 1:]:
                    w = eqs.get(frozenset((y, z)))
                    a, b = (bdd.node(eqs[frozenset((x, q))], 0, 1) for q in (y, z))
                    if w is not None:
                        ax = AND(ax, NOT(AND(AND(a, b), NOT(bdd.node(w, 0, 1)))))
    for coll, es in by.items():
        if len(es) < 2:
            continue
        for v, b in es:
            others = [(w, c) for w, c in es if w != v]
            for w, c in others:
                if unsat(AND(b, NOT(c))):
                    ax = AND(ax, OR(NOT(bdd.node(v, 0, 1)), bdd.node(w, 0, 1)))
            if len(others) > 1:
                if unsat(AND(b, NOT(bdd.anyn(c for _, c in others)))):
                    ax = AND(ax, OR(NOT(bdd.node(v, 0, 1)), bdd.anyn(bdd.node(w, 0, 1) for w, _ in others)))
    return ax


def unsat(f):
    if f < 2:
        return f == 0
    return AND(f, axioms(f)) == 0


# ---------------------------------------------------------------- identity of values

def differs(a, b, care, path="", out=None, depth=0):
    """Where a and b differ under the guard `care`: list of (path, a, b, cond)."""
    if out is None:
        out = []
    if a is b or care == 0 or len(out) > 12:
        return out
    if unsat(care):
        return out
    if a is UNDEF or b is UNDEF:
        # a value that is never defined under `care` does not matter
        out.append((path, a, b, care))
        return out
    if a.op == "ite":
        tot = 0
        for g, x in a.a[0]:
            differs(x, b, AND(care, g), path, out, depth)
            tot = OR(tot, g)
        return out
    if b.op == "ite":
        for g, x in b.a[0]:
            differs(a, x, AND(care, g), path, out, depth)
        return out
    if a.op == "bool" or b.op == "bool":
        d = AND(care, NOT(bdd.IFF(tobdd(a), tobdd(b))))
        if not unsat(d):
            out.append((path, a, b, d))
        return out
    if a.op == "adt" and b.op == "adt":
        if a.a[0] != b.a[0] or a.a[1] != b.a[1]:
            out.append((path, a, b, care))
            return out
        names = fieldnames(a)
        for i, (x, y) in enumerate(zip(a.a[2:], b.a[2:])):
            differs(x, y, care, path + "." + names[i], out, depth + 1)
        return out
    if a.op == "tuple" and b.op == "tuple" and len(a.a) == len(b.a):
        for i, (x, y) in enumerate(zip(a.a, b.a)):
            differs(x, y, care, path + "." + str(i), out, depth + 1)
        return out
    if (a.op == "adt") != (b.op == "adt"):
        c, o = (a, b) if a.op == "adt" else (b, a)
        if o.op in OPQ:
            g = isatom(o, c.a[0], c.a[1])
            d = AND(care, NOT(g))
            if not unsat(d):
                out.append((path, a, b, d))
                return out
            names = fieldnames(c)
            for i, x in enumerate(c.a[2:]):
                y = fld(o, c.a[1], i, c.a[0])
                if c is a:
                    differs(x, y, care, path + "." + names[i], out, depth + 1)
                else:
                    differs(y, x, care, path + "." + names[i], out, depth + 1)
            return out
    if a.op == "map" or b.op == "map":
        return _mapdiff(a, b, care, path, out, depth)
    if a.op == "seq" or b.op == "seq":
        return _seqdiff(a, b, care, path, out, depth)
    if a.op == b.op and len(a.a) == len(b.a) and a.op in CONG:
        tmp = []
        for x, y in zip(a.a, b.a):
            if not _argsame(x, y, care, tmp, path, depth):
                out.append((path, a, b, care))
                return out
        return out
    out.append((path, a, b, care))
    return out


OPQ = ("sym", "fld", "call", "elem", "mu", "lv", "fold", "post", "idx", "unk", "bin", "un", "new", "first")
CONG = ("call", "fld", "post", "unk", "bin", "un", "elem", "idx", "clo", "cast", "collect", "mapof", "mval")


def _argsame(x, y, care, tmp, path, depth):
    if x is y or x == y:
        return True
    if isinstance(x, T) and isinstance(y, T):
        t = []
        differs(x, y, care, path, t, depth + 1)
        return not t
    if isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y):
        return all(_argsame(p, q, care, tmp, path, depth) for p, q in zip(x, y))
    return False


def _live(ps, care):
    out = []
    for p in ps:
        if p.op in ("ps", "pc") and p.a[0] != 1:
            # splicing an empty collection is the same as not splicing it
            c = restrict(p.a[0], nonempty(p.a[1]))
            if c != p.a[0]:
                p = mk(p.op, c, *p.a[1:])
        if not unsat(AND(p.a[0], care)):
            out.append(p)
    return out


def _seqdiff(a, b, care, path, out, depth):
    pa, pb = _live(parts_of(a), care), _live(parts_of(b), care)
    # split on uncertain conditions so that parts can be paired
    for p in pa + pb:
        c = p.a[0]
        if not unsat(AND(care, c)) and not unsat(AND(care, NOT(c))):
            # split on the condition itself: each half decides it
            n = c
            if depth > 60:
                out.append((path, a, b, care))
                return out
            _seqdiff(a, b, AND(care, n), path, out, depth + 1)
            if not out:
                _seqdiff(a, b, AND(care, NOT(n)), path, out, depth + 1)
            return out
    if len(pa) != len(pb):
        out.append((path, a, b, care))
        return out
    for i, (p, q) in enumerate(zip(pa, pb)):
        if p.op != q.op:
            out.append((path + "[%d]" % i, p, q, care))
            return out
        if p.op in ("pi", "ps"):
            differs(p.a[1], q.a[1], care, path + "[%d]" % i, out, depth + 1)
        else:
            if p.a[1] is not q.a[1]:
                out.append((path + "[%d]" % i, p, q, care))
                return out
            _seqdiff(mk("seq", *p.a[2]), mk("seq", *q.a[2]), care, path + "[*]", out, depth + 1)
    return out


def _mapdiff(a, b, care, path, out, depth):
    def split(m):
        if m.op == "map":
            return m.a[0], [(c, k, v) for c, k, v in m.a[1] if not unsat(AND(c, care))]
        return m, []

    ba, ea = split(a)
    bb, eb = split(b)
    if ba is not bb:
        if ba is None or bb is None or differs(ba, bb, care, path, [], depth + 1):
            out.append((path, a, b, care))
            return out
    used = set()
    for c, k, v in ea:
        for j, (c2, k2, v2) in enumerate(eb):
            if j not in used and not differs(k, k2, care, path, [], depth + 1):
                used.add(j)
                x = AND(care, NOT(bdd.IFF(c, c2)))
                if not unsat(x):
                    out.append((path + "{key}", k, k2, x))
                differs(v, v2, AND(care, c), path + "{" + show(k) + "}", out, depth + 1)
                break
        else:
            out.append((path + "{" + show(k) + "}", v, UNDEF, AND(care, c)))
    for j, (c2, k2, v2) in enumerate(eb):
        if j not in used:
            out.append((path + "{" + show(k2) + "}", UNDEF, v2, AND(care, c2)))
    return out


def fieldnames(a):
    r = ADTS.get(a.a[0])
    n = len(a.a) - 2
    if r:
        v = r["variants"][a.a[1]]
        pre = v["name"] + "/" if r["kind"] == "enum" else ""
        if len(v["fields"]) == n:
            return [pre + f for f in v["fields"]]
    return [str(i) for i in range(n)]


# ---------------------------------------------------------------- printing

def short(p):
    return p.split("::")[-1]


def show(t, d=4):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return "(" + ",".join(show(x, d) for x in t) + ")"
        return str(t)
    op, a = t.op, t.a
    if op == "sym":
        return str(a[0])
    if op in ("int", "float"):
        return str(a[0])
    if op == "str":
        return '"%s"' % a[0]
    if d <= 0:
        return "…"
    if op == "bool":
        return {0: "false", 1: "true"}.get(a[0]) or "<" + showb(a[0], d - 1) + ">"
    if op == "adt":
        r = ADTS.get(a[0])
        n = short(a[0])
        if r and r["kind"] == "enum":
            n = r["variants"][a[1]]["name"]
        if len(a) == 2:
            return n
        if r and r["kind"] == "struct":
            ns = fieldnames(t)
            return n + "{" + ", ".join("%s:%s" % (f, show(x, d - 1)) for f, x in zip(ns, a[2:])) + "}"
        return n + "(" + ", ".join(show(x, d - 1) for x in a[2:]) + ")"
    if op == "fld":
        r = ADTS.get(OPAQUE_TY.get(a[0]))
        f = None
        if r and a[1] < len(r["variants"]) and a[2] < len(r["variants"][a[1]]["fields"]):
            f = r["variants"][a[1]]["fields"][a[2]]
            if r["kind"] == "enum":
                f = r["variants"][a[1]]["name"] + "/" + f
        return show(a[0], d) + "." + (f or "%d.%d" % (a[1], a[2]))
    if op == "ite":
        return "{" + " | ".join("%s: %s" % (showb(g, d - 1), show(v, d - 1)) for g, v in a[0]) + "}"
    if op == "seq":
        return "[" + ", ".join(show(p, d - 1) for p in a) + "]"
    if op == "pi":
        return ("" if a[0] == 1 else "if %s " % showb(a[0], d - 1)) + show(a[1], d)
    if op == "ps":
        return ("" if a[0] == 1 else "if %s " % showb(a[0], d - 1)) + ".." + show(a[1], d)
    if op == "pc":
        return ("" if a[0] == 1 else "if %s " % showb(a[0], d - 1)) + "for e in %s: %s" % (show(a[1], d - 1), ", ".join(show(p, d - 1) for p in a[2]))
    if op == "map":
        return "map(%s; %s)" % (show(a[0], d - 1) if a[0] is not None else "", ", ".join("%s%s=>%s" % ("" if c == 1 else showb(c, d - 1) + "?", show(k, d - 1), show(v, d - 1)) for c, k, v in a[1]))
    if op == "elem":
        return "e∈" + show(a[0], d - 1)
    if op == "exists":
        return "∃e∈%s: %s" % (show(a[0], d - 1), showb(a[1], d - 1))
    if op == "is":
        p = OPAQUE_TY.get(a[0])
        r = ADTS.get(p)
        return "%s is %s" % (show(a[0], d), r["variants"][a[1]]["name"] if r else a[1])
    if op == "call":
        return short(a[0]) + "(" + ", ".join(show(x, d - 1) for x in a[1:]) + ")"
    return op + "(" + ", ".join(show(x, d - 1) for x in a) + ")"


def showb(b, d=3):
    if b < 2:
        return "tf"[1 - b] if False else ("true" if b else "false")
    c = bdd.cube(b)
    s = " & ".join(("" if v else "!") + show(t, d) for t, v in c)
    if bdd.anyn([0]) == 0:
        # is the cube the whole guard?
        g = 1
        for t, v in c:
            x = bdd.atom(t)
            g = AND(g, x if v else NOT(x))
        if g != b:
            s += " or …"
    return s


REC, NOTREC = set(), set()      # calls left closed only because the function recurses (on a nested part of its argument)


def limits(*xs):
    """Names of the calls the analysis could not open that x depends on."""
    out, seen, todo = set(), set(), list(xs)
    while todo:
        x = todo.pop()
        if isinstance(x, T):
            if x.id in seen or not x.fl & UNK:
                continue
            seen.add(x.id)
            if x.op == "unk" or (x.op == "call" and x.a[0].startswith("?")):
                out.add(x.a[0] if isinstance(x.a[0], str) else "unk")
            if x.op in ("exists", "mu", "mucond", "bool", "pi", "ps", "pc"):
                for y in x.a:
                    todo.append(("B", y) if isinstance(y, int) else y)
            elif x.op == "ite":
                for g, v in x.a[0]:
                    todo += [("B", g), v]
            elif x.op == "map":
                todo.append(x.a[0])
                for c, k, v in x.a[1]:
                    todo += [("B", c), k, v]
            elif x.op in ("fold", "foldexit"):
                for y in x.a:
                    todo.append(("B", y) if isinstance(y, int) and y > 1 else y)
            else:
                todo += list(x.a)
        elif isinstance(x, tuple):
            if len(x) == 2 and x[0] == "B":
                b = x[1]
                if b > 1:
                    for v in bdd.support(b):
                        todo.append(bdd.ATOMS[v])
            else:
                todo += list(x)
    return out
