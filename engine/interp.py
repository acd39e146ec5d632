"""Flow-sensitive interprocedural value-flow analysis over the MIR dump.

Every function is summarised once per abstract argument tuple.  Control-flow
joins merge the incoming values under their guards (no path is enumerated and
no constraint solver is called); a loop over an unknown collection is analysed
once for a generic element, its loop-carried cells being widened first.
"""
import re
import sys
import bdd
from bdd import AND, OR, NOT
import terms
from terms import *  # noqa

sys.setrecursionlimit(200000)
K_PLAIN = 80


INTS = {s + str(n): ((0, (1 << n) - 1) if s == "u" else (-(1 << n - 1), (1 << n - 1) - 1)) for s in "ui" for n in (8, 16, 32, 64)}


def numeral(x):
    """A number of the input (a parameter or a member of one) or a constant."""
    while x.op in ("fld", "payload", "elem", "first") and x.a:
        x = x.a[0]
    return x.op in ("sym", "int")


def plusone(op, a, b):
    """x + 1 <= y is x < y, and x + 1 > y is x >= y; x - y > 0 is x > y."""
    one = lambda t: t.a[1] if t.op == "bin" and t.a[0] == "Add" and t.a[2].op == "int" and t.a[2].a[0] == 1 else \
        t.a[2] if t.op == "bin" and t.a[0] == "Add" and t.a[1].op == "int" and t.a[1].a[0] == 1 else None
    if op in ("Le", "Gt") and one(a) is not None:
        return {"Le": "Lt", "Gt": "Ge"}[op], one(a), b
    if op in ("Ge", "Lt") and one(b) is not None:
        return {"Ge": "Gt", "Lt": "Le"}[op], a, one(b)
    if a.op == "bin" and a.a[0] == "Sub" and b.op == "int" and b.a[0] == 0:
        return op, a.a[1], a.a[2]
    return op, a, b


class Opaque(Exception):
    """The construct has no precise abstraction: treat the enclosing call as opaque."""


class Body:
    def __init__(self, j):
        self.__dict__.update(j)
        self.id = j["id"]
        self.tree = None
        self.live = None


def succs(t):
    k = t[0]
    if k == "goto":
        return [t[1]]
    if k == "switch":
        return [x[1] for x in t[2]] + [t[3]]
    if k == "drop":
        return [t[2]]
    if k == "call":
        return [t[4]] if t[4] is not None else []
    if k == "assert":
        return [t[3]]
    return []


def scctree(nodes, succ, entry):
    """Nested loop structure in topological order."""
    index, low, onst, st, out = {}, {}, set(), [], []
    cnt = [0]

    def go(v):
        index[v] = low[v] = cnt[0]
        cnt[0] += 1
        st.append(v)
        onst.add(v)
        for w in succ[v]:
            if w not in nodes:
                continue
            if w not in index:
                go(w)
                low[v] = min(low[v], low[w])
            elif w in onst:
                low[v] = min(low[v], index[w])
        if low[v] == index[v]:
            c = []
            while True:
                w = st.pop()
                onst.discard(w)
                c.append(w)
                if w == v:
                    break
            out.append(c)

    go(entry)
    out.reverse()
    tree = []
    for c in out:
        if len(c) == 1 and c[0] not in succ[c[0]]:
            tree.append(("b", c[0]))
        else:
            # the loop header is the member met first from outside
            cs = set(c)
            hs = [v for v in c if v == entry or any(v in succ[u] for u in index if u not in cs)]
            h = hs[0]
            s2 = {v: [w for w in succ[v] if w in cs and w != h] for v in cs}
            tree.append(("l", h, cs, scctree(cs, s2, h)))
    return tree


class Ctx:
    __slots__ = ("eng", "store", "pc", "env", "span", "c", "argtys", "desty", "ok", "name")

    def __init__(self, eng, store, pc, env, span, c, argtys, desty):
        self.eng, self.store, self.pc, self.env, self.span = eng, store, pc, env, span
        self.c, self.argtys, self.desty = c, argtys, desty
        self.ok = 1
        self.name = None


# functions of other crates that panic for some arguments, when the analysis does not decide which
MAYPANIC = re.compile(r"::(index|index_mut|expect|expect_err|unwrap|unwrap_err|split_at|split_at_mut|split_off|"
                      r"swap_remove|copy_from_slice|clone_from_slice|insert_str|replace_range|drain|chunks|chunks_exact|windows|step_by|borrow_mut|"
                      r"rotate_left|rotate_right|select_nth_unstable|copy_within|ilog|ilog2|ilog10|from_str_radix|from_digit|exit|abort)$"
                      r"|^alloc::vec::Vec::<.*>::(remove|insert|truncate_front)$|^alloc::string::String::(remove|insert)$|^core::slice::<impl \[T\]>::swap$")


# functions of other crates that have no model, and whose result is known to be another value than their arguments; the result of
# any other function without a model may equal anything, and is a limit of the analysis
DISTINCT = re.compile(r"^(time|serde_json|serde_core|serde|oxilangtag|core::fmt|alloc::fmt|core::intrinsics)::"
                      r"|^core::(f32|f64|num)::.*::(abs|signum|round|floor|ceil|trunc|fract|sqrt|powi|powf|pow|neg|recip|"
                      r"(saturating|wrapping|overflowing|checked)_\w+|rem_euclid|div_euclid|next_power_of_two|count_ones|leading_zeros|trailing_zeros|"
                      r"swap_bytes|reverse_bits|rotate_left|rotate_right|next_up|next_down|to_degrees|to_radians|midpoint)$"
                      r"|^(core::str|alloc::str|alloc::string|core::char)::.*::(trim\w*|to_(ascii_)?(lower|upper)case|make_ascii_\w+|replace|replacen|"
                      r"replace_range|repeat|strip_\w+|escape_\w+|eq_ignore_ascii_case|starts_with|ends_with|contains|find|rfind|matches|split\w*|rsplit\w*|"
                      r"is_\w+|lines|char_indices|truncate|pop|remove|retain)$"
                      r"|^core::mem::(size_of|align_of)|size_hint$|_failed(_inner)?$")


class Engine:
    def __init__(self, dump):
        self.d = dump
        self.types = dump["types"]
        self.bodies = {b["id"]: Body(b) for b in dump["bodies"]}
        for a in dump["adts"]:
            if a["path"] == "core::cmp::Ordering":
                for v in a["variants"]:
                    v["discr"] = "-1" if v["discr"] == "255" else v["discr"]
            ADTS[a["path"]] = a
        self.callables = {}
        for c in dump["callables"]:
            self.callables[(c["env"], c["ty"])] = c
        self.memo = {}
        self.frame = 0
        self.stack = []
        self.events = []
        self.unknown = {}
        self.visited = {}
        self.opaque_calls = {}
        self.models = {}
        self.prefix_models = []
        self.ncalls = 0
        self.site_hook = None
        self.consts = {}

    # ------------------------------------------------------------ types
    def ty(self, i):
        return self.types[i]

    def typath(self, i):
        t = self.types[i]
        while t and t["k"] in ("ref", "ptr"):
            t = self.types[t["t"]]
        return t.get("d") if t and t["k"] == "adt" else None

    def deref_ty(self, i):
        t = self.types[i]
        if t["k"] in ("ref", "ptr"):
            return t["t"], (t["k"] == "ref" and t["m"]) or t["k"] == "ptr"
        if t["k"] == "adt" and t.get("a"):
            return t["a"][0], False
        return i, False

    # ------------------------------------------------------------ memory
    def load(self, store, p):
        if p.op == "ite":
            return mk_ite([(g, self.load(store, x)) for g, x in p.a[0]])
        if p.op != "ptr":
            return p
        v = store.get((p.a[0], p.a[1]), UNDEF)
        return self.sub(v, p.a[2])

    def sub(self, v, projs):
        for pr in projs:
            if pr[0] == "f":
                v = proj(v, pr[1], pr[2], pr[3])
            elif pr[0] == "ix":
                v = self.index(v, pr[1])
            elif pr[0] == "pt":
                ps = parts_of(v)
                v = ps[pr[1]].a[1] if pr[1] < len(ps) else UNDEF
        return v

    def index(self, v, ix):
        if v.op == "ite":
            return mk_ite([(g, self.index(x, ix)) for g, x in v.a[0]])
        if v.op == "adt" and not parts_of(v):
            return UNDEF
        n = ix.a[0] if ix.op == "int" else None
        ps = parts_of(v)
        if n is not None:
            k = 0
            for p in ps:
                if p.op == "pi" and p.a[0] == 1:
                    if k == n:
                        return p.a[1]
                    k += 1
                else:
                    break
            else:
                return UNDEF
        r = self.at_pos(ps, ix)
        return r if r is not None else mk("idx", v, ix)

    @staticmethod
    def at_pos(ps, ix):
        """The element of the sequence ps at position ix, when ix is the position of one of its elements."""
        if ix.op == "call" and ix.a[0] == "pos" and ps == parts_of(ix.a[1]):
            return ix.a[2]
        return None

    def upd(self, v, projs, fn):
        if not projs:
            return fn(v)
        pr = projs[0]
        if v.op == "ite":
            return mk_ite([(g, self.upd(x, projs, fn)) for g, x in v.a[0]])
        if pr[0] == "f":
            _, i, vi, path = pr
            if v is UNDEF:
                if path and path in ADTS:
                    n = len(ADTS[path]["variants"][vi or 0]["fields"])
                    v = mk("adt", path, vi or 0, *([UNDEF] * n))
                else:
                    v = mk("tuple", *([UNDEF] * (i + 1)))
            if v.op == "adt":
                if vi is not None and v.a[1] != vi:
                    return v
                a = list(v.a[2:])
                a[i] = self.upd(a[i], projs[1:], fn)
                return adt(v.a[0], v.a[1], *a)
            if v.op == "tuple":
                a = list(v.a)
                while len(a) <= i:
                    a.append(UNDEF)
                a[i] = self.upd(a[i], projs[1:], fn)
                return mk("tuple", *a)
            if v.op == "clo":
                a = list(v.a)
                a[2 + i] = self.upd(a[2 + i], projs[1:], fn)
                return mk("clo", *a)
            if path and path in ADTS:
                return self.upd(expand(v, path, vi or 0), projs, fn)
            raise Opaque("write to field of opaque value")
        if pr[0] == "ix":
            ix = pr[1]
            if ix.op == "int":
                ps = parts_of(v)
                n = ix.a[0]
                if n < len(ps) and all(p.op == "pi" and p.a[0] == 1 for p in ps[:n + 1]):
                    ps[n] = item(self.upd(ps[n].a[1], projs[1:], fn))
                    return seq(ps)
            old = mk("idx", v, ix)
            new = self.upd(old, projs[1:], fn)
            return mk("call", "with_index", v, ix, new)
        if pr[0] == "pt":
            ps = parts_of(v)
            p = ps[pr[1]]
            ps[pr[1]] = item(self.upd(p.a[1], projs[1:], fn), p.a[0])
            return seq(ps)
        raise Opaque("projection")

    def write(self, store, loc, val, pc=1):
        for g, f, l, projs in loc:
            old = store.get((f, l), UNDEF)
            if g == 1:
                new = self.upd(old, projs, lambda _: val)
            else:
                new = self.upd(old, projs, lambda o: mk_ite([(g, val), (NOT(g), o)]))
            store[(f, l)] = new

    def write_ptr(self, store, p, val):
        self.write(store, self.ptr_locs(p), val)

    def ptr_locs(self, p):
        if p.op == "ptr":
            return [(1, p.a[0], p.a[1], p.a[2])]
        if p.op == "ite":
            return [(AND(g, g2), f, l, pr) for g, x in p.a[0] for g2, f, l, pr in self.ptr_locs(x)]
        if p is UNDEF:
            return []
        raise Opaque("write through opaque reference")

    def read_place(self, store, fr, body, place):
        l, projs = place
        v = store.get((fr, l), UNDEF)
        if not projs:
            return v
        vi = None
        for pr in projs:
            k = pr[0]
            if k == "*":
                if self.is_mutptr(pr[3]):
                    v = self.load(store, v)
                vi = None
            elif k == "f":
                if not pr[3]:
                    bt = self.types[pr[4]]
                    v = proj(v, pr[1], vi, bt["d"] if bt["k"] == "adt" else None)
                vi = None
            elif k == "v":
                vi = pr[1]
            elif k == "i":
                v = self.index(v, store.get((fr, pr[1]), UNDEF))
            elif k == "ci":
                v = self.cindex(v, pr[1], pr[3])
            else:
                v = self.subslice(v, pr)
        return v

    def cindex(self, v, off, fromend):
        if not fromend:
            return self.index(v, mk("int", off))
        if v.op == "ite":
            return mk_ite([(g, self.cindex(x, off, True)) for g, x in v.a[0]])
        ps = parts_of(v)
        if len(ps) >= off and all(p.op == "pi" and p.a[0] == 1 for p in ps[-off:]):
            return ps[-off].a[1]
        return mk("idx", v, mk("int", -off))

    def subslice(self, v, pr):
        _, a, b, fe = (list(pr) + [0, 0, False])[:4]
        ps = parts_of(v)
        if all(p.op == "pi" and p.a[0] == 1 for p in ps):
            return seq(ps[a:len(ps) - b] if fe else ps[a:b])
        return mk("call", "subslice", v, mk("int", a), mk("int", b))

    def lvalue(self, store, fr, body, place):
        l, projs = place
        locs = [(1, fr, l, ())]
        vi = None
        for pr in projs:
            k = pr[0]
            if k == "*":
                if self.is_mutptr(pr[3]):
                    out = []
                    for g, f, ll, ps in locs:
                        v = self.sub(store.get((f, ll), UNDEF), ps)
                        if v.op in ("ptr", "ite"):
                            try:
                                out += [(AND(g, g2), f2, l2, p2) for g2, f2, l2, p2 in self.ptr_locs(v)]
                                continue
                            except Opaque:
                                pass
                        out.append((g, f, ll, ps))
                    locs = out
                vi = None
            elif k == "f":
                if not pr[3]:
                    bt = self.types[pr[4]]
                    path = bt["d"] if bt["k"] == "adt" else None
                    locs = [(g, f, ll, ps + (("f", pr[1], vi, path),)) for g, f, ll, ps in locs]
                vi = None
            elif k == "v":
                vi = pr[1]
            elif k == "i":
                iv = store.get((fr, pr[1]), UNDEF)
                locs = [(g, f, ll, ps + (("ix", iv),)) for g, f, ll, ps in locs]
            elif k == "ci" and not pr[3]:
                locs = [(g, f, ll, ps + (("ix", mk("int", pr[1])),)) for g, f, ll, ps in locs]
            else:
                raise Opaque("lvalue projection " + k)
        return locs

    def is_mutptr(self, i):
        t = self.types[i]
        return t["k"] == "ptr" or (t["k"] == "ref" and t["m"])

    def place_ty(self, body, place):
        l, projs = place
        for pr in reversed(projs):
            k = pr[0]
            if k in ("*", "f", "v", "i"):
                return pr[2]
            if k == "ci":
                return pr[4]
        return body.locals[l]

    # ------------------------------------------------------------ constants and operands
    def const(self, k, body):
        o = k[0]
        if o == "bool":
            return TRUE if k[1] else FALSE
        if o == "int":
            return mk("int", int(k[1]))
        if o == "str":
            return mk("str", k[1])
        if o == "char":
            return mk("char", k[1])
        if o == "float":
            return mk("float", k[1])
        if o == "unit":
            return UNIT
        if o == "adt":
            return adt(k[1], k[2], *[self.const(x, body) for x in k[3]])
        if o == "tuple":
            return mk("tuple", *[self.const(x, body) for x in k[1]])
        if o == "array":
            return seq([item(self.const(x, body)) for x in k[1]])
        if o in ("fn", "zst"):
            t = self.types[k[1]]
            if t["k"] == "closure":
                return mk("clo", k[1], body.env)
            if t["k"] == "fndef":
                return mk("fnv", k[1], body.env)
            if t["k"] == "adt" and t["d"] in ADTS and ADTS[t["d"]]["kind"] == "struct" \
                    and not ADTS[t["d"]]["variants"][0]["fields"]:
                return adt(t["d"], 0)
            if t["k"] == "tuple" and not t["a"]:
                return UNIT
            return mk("zst", k[1])
        if o == "promoted":
            return self.const_body(k[1])
        if o == "constfn":
            return self.const_body(k[1])
        if o == "named":
            return mk("const", k[1])
        return mk("const", str(k))

    def const_body(self, bid):
        v = self.consts.get(bid)
        if v is None:
            if bid not in self.bodies:
                v = mk("const", "body%d" % bid)
            else:
                store = {}
                v, okg = self.call_body(self.bodies[bid], [], store, 1)
            self.consts[bid] = v
        return v

    def operand(self, o, store, fr, body):
        if o[0] == "k":
            return self.const(o[1], body)
        return self.read_place(store, fr, body, o[1])

    # ------------------------------------------------------------ rvalues
    def discr(self, v, path):
        if v.op == "adt":
            r = ADTS.get(v.a[0])
            return mk("int", int(r["variants"][v.a[1]]["discr"])) if r else mk("int", v.a[1])
        if v.op == "ite":
            return mk_ite([(g, self.discr(x, path)) for g, x in v.a[0]])
        if v is UNDEF:
            return v
        if path is None or path not in ADTS:
            raise Opaque("discriminant of unknown type: %s of %s" % (path, show(v, 2)))
        r = ADTS[path]
        return mk_ite([(isatom(v, path, k), mk("int", int(x["discr"]))) for k, x in enumerate(r["variants"])])

    def binop(self, op, a, b, ty):
        k = self.types[ty]["k"] if isinstance(ty, int) else None
        fl = k == "float"
        if op in ("Eq", "Ne"):
            if k in ("int", "uint", "float"):
                g = order(a, b, fl)[1]
            else:
                g = veq(a, b)
            return mkb(g if op == "Eq" else NOT(g))
        if op in ("Lt", "Le", "Gt", "Ge"):
            if k == "bool":
                x, y = tobdd(a), tobdd(b)
                L, E, G = AND(NOT(x), y), bdd.IFF(x, y), AND(x, NOT(y))
            else:
                if a.op == "call" and a.a[0] == "pos" and b.op == "call" and b.a[0] == "len" and self.at_pos(parts_of(b.a[1]), a) is not None:
                    return mkb(1 if op in ("Lt", "Le") else 0)
                if k in ("int", "uint"):
                    op, a, b = plusone(op, a, b)
                L, E, G, U = order(a, b, fl)
                if k in ("int", "uint") and self.types[ty]["s"] in INTS:
                    lo, hi = INTS[self.types[ty]["s"]]
                    for x, y, m in ((a, b, 1), (b, a, 0)):
                        if y.op == "int" and numeral(x) and y.a[0] in (lo, hi):
                            # nothing is beyond the bounds of the type
                            if (y.a[0] == hi) == bool(m):
                                L, G = NOT(E), 0
                            else:
                                L, G = 0, NOT(E)
            return mkb({"Lt": L, "Le": OR(L, E), "Gt": G, "Ge": OR(G, E)}[op])
        if op == "Cmp":
            L, E, G, U = order(a, b, fl)
            return mk_ite([(L, adt(ORDERING, 0)), (E, adt(ORDERING, 1)), (G, adt(ORDERING, 2))])
        if op in ("BitAnd", "BitOr", "BitXor") and k == "bool":
            x, y = tobdd(a), tobdd(b)
            return mkb(AND(x, y) if op == "BitAnd" else OR(x, y) if op == "BitOr" else NOT(bdd.IFF(x, y)))
        if op.endswith("WithOverflow"):
            base = op[:-12]
            r = self.binop(base, a, b, ty)
            return mk("tuple", r, FALSE)
        if a.op == "int" and b.op == "int":
            x, y = a.a[0], b.a[0]
            f = {"Add": lambda: x + y, "Sub": lambda: x - y, "Mul": lambda: x * y}.get(op.replace("Unchecked", ""))
            if f:
                return mk("int", f())
        if a.op == "ite" or b.op == "ite":
            return mk_ite([(AND(g, h), self.binop(op, x, y, ty)) for g, x in cases(a) for h, y in cases(b)])
        if op in ("Add", "Mul", "BitAnd", "BitOr", "BitXor") and b.id < a.id:
            a, b = b, a
        return mk("bin", op, a, b)

    def overflows(self, op, a, b, ty):
        """When an operation on numbers of the input leaves the range of its type; counters and lengths stay within theirs."""
        t = self.types[ty]["s"]
        if t not in INTS or op not in ("Add", "Sub", "Mul"):
            return 0
        out = []
        for g, x in cases(a):
            for h, y in cases(b):
                c = AND(g, h)
                if not c or not (numeral(x) and numeral(y)) or x.op == y.op == "int":
                    continue
                one = y.op == "int" and y.a[0] == 1
                if op == "Sub" and t[0] == "u":
                    c = AND(c, order(x, y)[0] if not one else order(x, mk("int", 0))[1])
                elif one and op == "Add":
                    c = AND(c, order(x, mk("int", INTS[t][1]))[1])
                elif one and op == "Sub":
                    c = AND(c, order(x, mk("int", INTS[t][0]))[1])
                elif y.op == "int" and (y.a[0] == 0 or op == "Mul" and one):
                    c = 0
                else:
                    c = AND(c, tobdd(mk("bin", "Overflows" + op, x, y)))
                out.append(c)
        return bdd.anyn(out)

    def rvalue(self, rv, store, fr, body):
        k = rv[0]
        if k == "use":
            return self.operand(rv[1], store, fr, body)
        if k == "ref":
            if rv[1]:
                locs = self.lvalue(store, fr, body, rv[2])
                ps = []
                for g, f, l, pr in locs:
                    ps.append((g, mk("ptr", f, l, pr)))
                return mk_ite(ps) if len(ps) != 1 else ps[0][1]
            return self.read_place(store, fr, body, rv[2])
        if k == "bin":
            x, y = self.operand(rv[2], store, fr, body), self.operand(rv[3], store, fr, body)
            v = self.binop(rv[1], x, y, rv[4])
            if rv[1].endswith("WithOverflow") and body.krate == "wot_td":
                return mk("tuple", v.a[0], mkb(self.overflows(rv[1][:-12], x, y, rv[4])))
            return v
        if k == "un":
            v = self.operand(rv[2], store, fr, body)
            if rv[1] == "Not" and self.types[rv[3]]["k"] == "bool":
                return mkb(NOT(tobdd(v)))
            if rv[1] == "PtrMetadata":
                for _ in range(4):
                    if v.op == "ptr" or v.op == "ite" and any(x.op == "ptr" for _, x in v.a[0]):
                        v = self.load(store, v)
                return self.length(v)
            if v.op == "int" and rv[1] == "Neg":
                return mk("int", -v.a[0])
            if v.op == "float" and rv[1] == "Neg":
                return mk("float", repr(-float(v.a[0])))
            return mk("un", rv[1], v)
        if k == "discr":
            v = self.read_place(store, fr, body, rv[1])
            p = self.typath(self.place_ty(body, rv[1]))
            return self.discr(v, p)
        if k == "agg":
            vs = [self.operand(o, store, fr, body) for o in rv[4]]
            if rv[1] == "adt":
                return adt(rv[2], rv[3], *vs)
            if rv[1] == "tuple":
                return mk("tuple", *vs)
            if rv[1] == "array":
                return seq([item(v) for v in vs])
            if rv[1] == "closure":
                return mk("clo", rv[2], body.env, *vs)
            return mk("call", "agg:" + str(rv[1]), *vs)
        if k == "cast":
            v = self.operand(rv[2], store, fr, body)
            ck = rv[1]
            if "Pointer" in ck or "Transmute" in ck or "PtrToPtr" in ck or "Reify" in ck or "Unsize" in ck:
                return v
            if v.op == "int" and "Int" in ck:
                tk = self.types[rv[3]]["s"]
                n = v.a[0]
                bits = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "usize": 64, "i8": 8, "i16": 16, "i32": 32,
                        "i64": 64, "isize": 64}.get(tk)
                if bits and ck.startswith("IntToInt"):
                    n &= (1 << bits) - 1
                    if tk[0] == "i" and n >> (bits - 1):
                        n -= 1 << bits
                    return mk("int", n)
            if v.op == "ite" and all(x.op == "int" for _, x in v.a[0]):
                return v
            if self.types[rv[3]]["s"] == self.types[rv[4]]["s"]:
                return v
            return mk("cast", self.types[rv[4]]["s"], self.types[rv[3]]["s"], v)
        if k == "repeat":
            v = self.operand(rv[1], store, fr, body)
            n = rv[2]
            try:
                n = int(n)
            except (TypeError, ValueError):
                return mk("call", "repeat", v)
            if n <= 16:
                return seq([item(v)] * n)
            return mk("call", "repeat", v, mk("int", n))
        if k == "len":
            return self.length(self.read_place(store, fr, body, rv[1]))
        return mk("unk", "rvalue:" + str(k))

    def length(self, v):
        if v.op == "ite":
            return mk_ite([(g, self.length(x)) for g, x in v.a[0]])
        ps = parts_of(v)
        if all(p.op == "pi" for p in ps):
            r = mk("int", 0)
            for p in ps:
                r = mk_ite([(p.a[0], self.binop("Add", r, mk("int", 1), None)), (NOT(p.a[0]), r)]) \
                    if p.a[0] != 1 else self._inc(r)
            return r
        return mk("call", "len", v)

    def _inc(self, r):
        return mk_ite([(g, mk("int", x.a[0] + 1)) for g, x in cases(r)])

    # ------------------------------------------------------------ bodies
    def prep(self, b):
        if b.tree is not None:
            return
        nodes = {i for i, x in enumerate(b.blocks) if x is not None}
        succ = {i: [s for s in succs(b.blocks[i]["t"]) if s in nodes] for i in nodes}
        b.succ = succ
        b.tree = scctree(nodes, succ, 0)
        # liveness of locals; a local whose address is taken mutably stays live
        pinned = set()
        use, dfn = {}, {}

        def rd(pl, u, d):
            if pl[0] not in d:
                u.add(pl[0])
            for pr in pl[1]:
                if pr[0] == "i" and pr[1] not in d:
                    u.add(pr[1])

        def ops(x, u, d):
            if isinstance(x, list):
                if len(x) == 2 and x[0] in ("c", "m") and isinstance(x[1], list) and len(x[1]) == 2 \
                        and isinstance(x[1][0], int):
                    rd(x[1], u, d)
                    return
                if x and x[0] == "ref":
                    if x[1]:
                        pinned.add(x[2][0])
                    rd(x[2], u, d)
                    return
                if x and x[0] in ("discr", "len") and isinstance(x[1], list):
                    rd(x[1], u, d)
                    return
                if x and x[0] == "k":
                    return
                for y in x:
                    ops(y, u, d)

        def wr(pl, u, d):
            if pl[1]:
                rd(pl, u, d)
            else:
                d.add(pl[0])

        for i in nodes:
            u, d = set(), set()
            for s in b.blocks[i]["s"]:
                if s[0] == "=":
                    ops(s[2], u, d)
                    wr(s[1], u, d)
                elif s[0] == "sd":
                    rd(s[1], u, d)
            t = b.blocks[i]["t"]
            if t[0] == "switch":
                ops(t[1], u, d)
            elif t[0] == "call":
                ops(t[2], u, d)
                if t[1].get("f"):
                    ops(t[1]["f"], u, d)
                wr(t[3], u, d)
            elif t[0] == "assert":
                ops(t[1], u, d)
            elif t[0] == "return":
                if 0 not in d:
                    u.add(0)
            use[i], dfn[i] = u, d
        live = {i: set() for i in nodes}
        ch = True
        order_ = sorted(nodes, reverse=True)
        while ch:
            ch = False
            for i in order_:
                o = set()
                for s in succ[i]:
                    o |= live[s]
                n = use[i] | (o - dfn[i])
                if n != live[i]:
                    live[i] = n
                    ch = True
        b.live = {i: live[i] | pinned for i in nodes}

    def reach(self, store, vals):
        """Cells reachable through pointers in vals."""
        out = {}
        todo = list(vals)
        seen = set()
        while todo:
            v = todo.pop()
            if not isinstance(v, T):
                if isinstance(v, tuple):
                    todo.extend(v)
                continue
            if not (v.fl & PTR) or v in seen:
                continue
            seen.add(v)
            if v.op == "ptr":
                k = (v.a[0], v.a[1])
                if k not in out and k in store:
                    out[k] = store[k]
                    todo.append(store[k])
            elif v.op == "ite":
                todo.extend(x for _, x in v.a[0])
            else:
                todo.extend(v.a)
        return out

    def call_body(self, b, args, store, pc):
        """(result, guard under which the call returns); updates cells in store."""
        hasptr = any(a.fl & PTR for a in args)
        key = None
        if not hasptr:
            key = (b.id, tuple(args))
            r = self.memo.get(key)
            if r is not None:
                v, okg, evs = r
                self._emit(evs, pc)
                return v, okg
        depth = self.stack.count(b.id)
        if depth and b.kind != "promoted":
            lit = any(self.literal(self.load(store, a) if a.fl & PTR else a) for a in args)
            if depth > (10 if lit else 3) or (depth >= 1 and not lit and self.symbolic_rec(b, args, store)):
                self.opaque_calls.setdefault(b.path, "recursion")
                if "?" + b.path not in terms.NOTREC:
                    terms.REC.add("?" + b.path)
                return self.opaque_call("?" + b.path, args, store, b), 1
        self.ncalls += 1
        self.visited[b.id] = self.visited.get(b.id, 0) + 1
        self.frame += 1
        fr = self.frame
        self.stack.append(b.id)
        saved = self.events
        self.events = []
        nunk = dict(self.unknown)
        try:
            sub = self.reach(store, args) if hasptr else {}
            if pc != 1:
                sub = {k: simp(v, pc) for k, v in sub.items()}
            base = dict(sub)
            for i, a in enumerate(args):
                sub[(fr, i + 1)] = a
            ret, okg, out = self.run(b, fr, sub)
            for k, v in out.items():
                if k in base and v is not base[k]:
                    store[k] = v
            evs = self.events
            if b.krate == "wot_td" or b.krate.startswith("wot_entry"):
                # name the function of the crate a failing check is in ("" for the caller's own code)
                nm = b.path if b.krate == "wot_td" else ""
                evs = [(g, e if len(e) > 4 else e + (nm,)) for g, e in evs]
        except Opaque as e:
            ret, okg, evs = None, 1, []
            self.opaque_calls[b.path] = str(e)
            terms.REC.discard("?" + b.path)
            terms.NOTREC.add("?" + b.path)
        finally:
            self.events = saved
            self.stack.pop()
        if ret is None:
            ret = self.opaque_call("?" + b.path, args, store, b)
        if key is not None:
            self.memo[key] = (ret, okg, evs)
        self._emit(evs, pc)
        return ret, okg

    def _emit(self, evs, pc):
        if evs:
            for g, e in evs:
                gg = AND(pc, g)
                if gg:
                    self.events.append((gg, e))

    def literal(self, a):
        if a.op == "ite":
            return all(x is UNDEF or self.literal(x) for _, x in a.a[0])
        return a.op in ("adt", "seq", "tuple", "map", "clo")

    def symbolic_rec(self, b, args, store):
        return True

    def deep(self, v, store):
        """v with every pointer replaced by the value it points to."""
        if not isinstance(v, T):
            if isinstance(v, tuple):
                return tuple(self.deep(x, store) for x in v)
            return v
        if not (v.fl & PTR):
            return v
        if v.op == "ptr":
            return self.deep(self.load(store, v), store)
        if v.op == "ite":
            return mk_ite([(g, self.deep(x, store)) for g, x in v.a[0]])
        return mk(v.op, *[self.deep(x, store) for x in v.a])

    def opaque_call(self, name, args, store, b=None, targs=()):
        vals = [self.deep(a, store) for a in args]
        r = mk("call", name, *targs, *vals)
        n = 0
        for i, a in enumerate(args):
            if a.fl & PTR:
                for c in self.ptrs_in(a):
                    old = self.load(store, c)
                    n += 1
                    try:
                        self.write_ptr(store, c, mk("post", n, r, self.deep(old, store)))
                    except Opaque:
                        pass
        return r

    def ptrs_in(self, v, out=None):
        if out is None:
            out = []
        if isinstance(v, tuple):
            for x in v:
                self.ptrs_in(x, out)
        elif isinstance(v, T) and v.fl & PTR:
            if v.op == "ptr":
                if v not in out:
                    out.append(v)
            elif v.op == "ite":
                for _, x in v.a[0]:
                    self.ptrs_in(x, out)
            else:
                for x in v.a:
                    self.ptrs_in(x, out)
        return out

    # ------------------------------------------------------------ control flow
    def run(self, b, fr, store):
        self.prep(b)
        states = {0: [(1, store)]}
        self.cur = b
        rets = []
        self.region(b, fr, b.tree, states, rets)
        if not rets:
            return UNDEF, 0, {}
        g, st = self.join(rets, None, fr)
        return st.get((fr, 0), UNDEF), g, st

    def join(self, sts, live, fr):
        sts = [s for s in sts if s[0] != 0]
        if not sts:
            return 0, {}
        if len(sts) == 1:
            g, st = sts[0]
            if live is not None:
                st = {k: v for k, v in st.items() if k[0] != fr or k[1] in live}
            return g, st
        tot = bdd.anyn(g for g, _ in sts)
        gs = [restrict(g, tot) for g, _ in sts]
        # keep the guards disjoint outside `tot` too
        acc = 0
        for i, g in enumerate(gs):
            gs[i] = AND(g, NOT(acc))
            acc = OR(acc, g)
        keys = {}
        for _, st in sts:
            for k in st:
                keys[k] = 1
        out = {}
        for k in keys:
            if live is not None and k[0] == fr and k[1] not in live:
                continue
            vs = [st.get(k, UNDEF) for _, st in sts]
            v0 = vs[0]
            if all(v is v0 for v in vs):
                out[k] = v0
            else:
                out[k] = mk_ite(list(zip(gs, vs)))
        return tot, out

    def region(self, b, fr, tree, states, rets):
        for n in tree:
            if n[0] == "b":
                sts = states.pop(n[1], None)
                if not sts:
                    continue
                g, st = self.join(sts, b.live[n[1]], fr)
                if g == 0:
                    continue
                self.block(b, fr, n[1], g, dict(st), states, rets)
            else:
                self.loop(b, fr, n, states, rets)

    def loop(self, b, fr, n, states, rets):
        _, h, nodes, sub = n
        count = 0
        while True:
            sts = states.pop(h, None)
            if not sts:
                return
            g, st = self.join(sts, b.live[h], fr)
            if g == 0:
                return
            it = self.find_iter(b, fr, sub, st)
            if it is not None and it[1]:
                self.for_loop(b, fr, n, g, st, it, states, rets)
                continue
            count += 1
            if count > K_PLAIN:
                raise Opaque("loop bound")
            st2 = dict(st)
            inner = {h: [(g, st2)]}
            self.region(b, fr, [("b", h)] + [x for x in sub if x != ("b", h)], inner, rets) \
                if ("b", h) in sub else self.region(b, fr, sub, inner, rets)
            for k, v in inner.items():
                states.setdefault(k, []).extend(v)

    def find_iter(self, b, fr, sub, st):
        """(location, parts) of the iterator advanced by this loop."""
        for x in sub:
            if x[0] != "b":
                continue
            blk = b.blocks[x[1]]
            t = blk["t"]
            if t[0] == "call" and t[1].get("t") == "core::iter::traits::iterator::Iterator" and t[1].get("m") == "next":
                o = t[2][0]
                if o[0] == "k":
                    return None
                pl = o[1]
                for s in reversed(blk["s"]):
                    if s[0] == "=" and s[1] == [pl[0], []] and s[2][0] == "ref" and s[2][1]:
                        pl = s[2][2]
                        if len(pl[1]) == 1 and pl[1][0][0] == "*":
                            continue        # a reborrow: follow it to the borrow
                        break
                    if s[0] == "=" and s[1] == [pl[0], []] and s[2][0] == "use" and s[2][1][0] in ("c", "m"):
                        pl = s[2][1][1]
                try:
                    locs = self.lvalue(st, fr, b, pl)
                except Opaque:
                    return None
                if len(locs) != 1:
                    return None
                _, f, l, pr = locs[0]
                v = self.sub(st.get((f, l), UNDEF), pr)
                if v is not UNDEF and v.op == "ptr":
                    # an iterator taken by reference
                    locs = [(locs[0][0], v.a[0], v.a[1], tuple(v.a[2]))]
                    v = self.load(st, v)
                if v is UNDEF or v.op == "ptr":
                    return None
                return (locs, parts_of(self.iterable(v)))
        return None

    def iterable(self, v):
        return v

    def for_loop(self, b, fr, n, g0, st0, it, states, rets):
        _, h, nodes, sub = n
        locs, parts = it

        def run(store, accs, ev):
            st = dict(store)
            self.write(st, locs, seq([item(ev)]))
            inner = {h: [(1, st)]}
            r2 = []
            self.region(b, fr, sub, inner, r2)
            back = inner.pop(h, [])
            exits = [(g, s, (k, None)) for k, v in inner.items() for g, s in v]
            exits += [(g, s, ("ret", None)) for g, s in r2]
            cg, cst = self.join(back, b.live[h], fr)
            if cg:
                cst = dict(cst)
                self.write(cst, locs, UNDEF)
            return exits, (cg, cst, [])

        st = dict(st0)
        self.write(st, locs, UNDEF)
        def left(i, s):
            """What remains in the iterator when the loop is left at part i."""
            s = dict(s)
            rest = [] if parts[i].op == "pi" else [mk("ps", 1, mk("unk", "rest", parts[i]))]
            self.write(s, locs, seq(rest + list(parts[i + 1:])))
            return s

        exits, cont = self.iterate(parts, st, [], run, g0, left)
        for g, s, v in exits:
            if v[0] == "ret":
                rets.append((g, s))
            else:
                states.setdefault(v[0], []).append((g, s))
        cg, cst, _ = cont
        if cg:
            cst = dict(cst)
            self.write(cst, locs, seq([]))
            states.setdefault(h, []).append((cg, cst))

    # ------------------------------------------------------------ iteration
    def iterate(self, parts, store, accs, run, g0, left=None):
        """Apply run to each element of the sequence.

        run(store, accs, elem) -> ([(guard, store, value)], (guard, store, accs)).
        Returns the same shape for the whole iteration, under g0.
        """
        exits = []
        cur = (g0, store, list(accs))
        done = 0
        for i, p in enumerate(parts):
            if left is not None:
                exits[done:] = [(g, left(i - 1, s), v) for g, s, v in exits[done:]]
                done = len(exits)
            if cur[0] == 0:
                break
            if p.op == "pi":
                c = p.a[0]
                if AND(c, cur[0]) == 0:
                    continue
                ex, (cg, cst, cacc) = run(cur[1], cur[2], simp(p.a[1], AND(c, cur[0])))
                for g, s, v in ex:
                    gg = AND(AND(cur[0], c), g)
                    if gg:
                        exits.append((gg, s, v))
                live = [(AND(AND(cur[0], c), cg), cst, cacc)]
                if c != 1:
                    live.append((AND(cur[0], NOT(c)), cur[1], cur[2]))
                cur = self.join3(live)
            elif p.op == "pm":
                cur = self.generic_mut(p, cur, run, exits)
            else:
                cur = self.generic(p, cur, run, exits)
        if left is not None and parts:
            exits[done:] = [(g, left(len(parts) - 1, s), v) for g, s, v in exits[done:]]
        return exits, cur

    def generic_mut(self, p, cur, run, exits):
        """One step over the mutable elements of an unknown part of a collection."""
        _, ptr, i = p.a
        q = parts_of(self.load(cur[1], ptr))[i]
        if q.op == "pc" and (len(q.a[2]) != 1 or q.a[2][0].op != "pi"):
            raise Opaque("mutable iteration over nested collections")
        self.frame += 1
        tmp = (self.frame, 0)
        old = q.a[2][0].a[1] if q.op == "pc" else mk("elem", q.a[1])
        rec = {}

        def run2(store, accs, ev):
            st = dict(store)
            st[tmp] = old
            ex, (cg, cst, cac) = run(st, accs, mk("ptr", tmp[0], tmp[1], ()))
            rec["new"] = cst.get(tmp, old) if cg else old
            if cg:
                cst = dict(cst)
                cst.pop(tmp, None)
            return [(g, {k: v for k, v in s.items() if k != tmp}, v) for g, s, v in ex], (cg, cst, cac)

        cur2 = self.generic(q, cur, run2, exits)
        if cur2[0] and rec.get("new", old) is not old:
            c = q.a[2][0].a[0] if q.op == "pc" else 1
            ps = parts_of(self.load(cur2[1], ptr))
            ps[i] = mk("pc", q.a[0], q.a[1], (item(rec["new"], c),))
            self.write_ptr(cur2[1], ptr, mk("seq", *ps))
        return cur2

    def join3(self, live):
        live = [x for x in live if x[0] != 0]
        if not live:
            return (0, {}, [])
        if len(live) == 1:
            return live[0]
        g, st = self.join([(x[0], x[1]) for x in live], None, -1)
        tot = bdd.anyn(x[0] for x in live)
        na = max(len(x[2]) for x in live)
        accs = [mk_ite([(restrict(x[0], tot), x[2][i]) for x in live]) for i in range(na)]
        return (g, st, accs)

    def generic(self, p, cur, run, exits):
        g0, store, accs = cur
        c = p.a[0]
        coll = p.a[1]
        if p.op == "ps":
            ev, ec = mk("elem", coll), 1
        else:
            bp = p.a[2]
            if len(bp) != 1 or bp[0].op != "pi":
                # nested collections: iterate the inner parts as one step
                inner_run = run

                def run(st, ac, _ev, bp=bp, inner_run=inner_run):
                    return self.iterate(list(bp), st, ac, inner_run, 1)

                ev, ec = UNIT, 1
            else:
                ev, ec = bp[0].a[1], bp[0].a[0]
        gen = self._gen_depth = getattr(self, "_gen_depth", 0) + 1
        try:
            return self._generic(g0, store, accs, c, coll, ev, ec, run, exits)
        finally:
            self._gen_depth -= 1

    def _generic(self, g0, store, accs, c, coll, ev, ec, run, exits):
        lvs = {}          # path -> (lv, init)
        st, ac = dict(store), list(accs)
        for rnd in range(6):
            evs = self.events
            self.events = []
            ex, (cg, cst, cac) = run(st, ac, ev)
            it_events, self.events = self.events, evs
            # cells changed by the step
            new = dict(lvs)
            changed = False
            if cg and cst is not None:
                for k, old in list(st.items()):
                    if k in cst and cst[k] is not old:
                        v, ch = self.havoc(old, cst[k], ("s",) + k, new, coll)
                        if ch:
                            st[k] = v
                            changed = True
                for i, old in enumerate(ac):
                    if i < len(cac) and cac[i] is not old:
                        v, ch = self.havoc(old, cac[i], ("a", i), new, coll)
                        if ch:
                            ac[i] = v
                            changed = True
            lvs = new
            if not changed:
                break
        else:
            raise Opaque("loop-carried cells do not stabilise")
        keys = list(lvs)
        fresh = self.earlier_keys(coll, ec, [(lvs[k], self.leaf(k, cst, cac)) for k in keys]) if cg else []
        exg = [(AND(ec, self.replace(g, fresh)), s, v) for g, s, v in ex]
        exg = [x for x in exg if x[0] != 0]
        tot = bdd.anyn(g for g, _, _ in exg)
        lvl = tuple(lvs[k][0] for k in keys)
        inits = tuple(lvs[k][1] for k in keys)
        bodies = []
        for k in keys:
            v = self.leaf(k, cst, cac) if cg else lvs[k][0]
            if ec != 1:
                v = mk_ite([(ec, v), (NOT(ec), lvs[k][0])])
            bodies.append(v)
        bodies = tuple(bodies)
        cgd = OR(cg, NOT(ec))
        islv = [v for v in bdd.support(tot) if bdd.ATOMS[v].fl & LVF and bdd.ATOMS[v].fe & set(lvl)]
        if tot == 0:
            exatom = 0
        elif islv:
            exatom = bdd.atom(mk("foldexit", coll, lvl, inits, bodies, tot, cgd))
        else:
            exatom = exists(coll, tot)
        for g, e in it_events:
            eg = AND(self.replace(g, fresh), ec)
            if any(bdd.ATOMS[v].fl & LVF for v in bdd.support(eg)):
                eg2 = bdd.atom(mk("foldexit", coll, lvl, inits, bodies, eg, cgd))
            else:
                eg2 = exists(coll, eg)
            if AND(AND(g0, c), eg2):
                self.events.append((AND(AND(g0, c), eg2), e))
        # exits
        rest = exatom
        for n, (g, s, v) in enumerate(exg):
            if n == len(exg) - 1:
                m = rest
            else:
                m = AND(rest, mucond(coll, tot, self.delv(g, lvl, coll)))
            rest = AND(rest, NOT(m))
            gg = AND(AND(g0, c), m)
            if gg == 0:
                continue
            s2 = {}
            for k, x in s.items():
                s2[k] = x if store.get(k) is x else mu(coll, tot, self.delv_t(x, lvl, coll, tot))
            v2 = v
            if isinstance(v, tuple):
                v2 = tuple(mu(coll, tot, self.delv_t(x, lvl, coll, tot)) if isinstance(x, T) else x for x in v)
            elif isinstance(v, T):
                v2 = mu(coll, tot, self.delv_t(v, lvl, coll, tot))
            exits.append((gg, s2, v2))
        # continuation
        st2, ac2 = dict(store), list(accs)
        finals = {}
        for n, k in enumerate(keys):
            lv, init = lvs[k]
            # the loop is left at a key that an earlier element had: every key occurs once
            dis = bodies[n].op == "map" and len(bodies[n].a[1]) == 1 and any(
                q == mk("contains", lv, bodies[n].a[1][0][1]) and AND(bdd.atom(m), NOT(tot)) == 0 for q, m in
                [(bdd.ATOMS[x], y) for x, y in fresh])
            finals[k] = self.fold_value(coll, lvl, inits, bodies, n, lv, init, bodies[n], cgd, c, dis)
        for k, old in st.items():
            if k in cst if cg else False:
                st2[k] = self.refill(st[k], ("s",) + k, finals, lvs)
        for k in st:
            if k not in st2 or st[k] is not store.get(k):
                st2[k] = self.refill(st[k], ("s",) + k, finals, lvs)
        for i in range(len(ac)):
            ac2[i] = self.refill(ac[i], ("a", i), finals, lvs)
        cguard = AND(g0, NOT(AND(c, exatom)))
        return (cguard, st2, ac2)

    @staticmethod
    def earlier_keys(coll, ec, cells):
        """Cells that collect one key per element: (question whether the cell has the element's own key, its meaning)."""
        out = []
        if ec != 1:
            return out
        for (lv, init), body in cells:
            if body.op == "map" and body.a[0] is lv and init.op == "map" and init.a[0] is None and not init.a[1] \
                    and len(body.a[1]) == 1 and body.a[1][0][0] == 1:
                k = body.a[1][0][1]
                if coll in k.fe and lv not in k.fe:
                    out.append((mk("contains", lv, k), mk("earlier", k)))
        return [(bdd.ATOM_ID[q], m) for q, m in out if q in bdd.ATOM_ID]

    @staticmethod
    def replace(g, fresh):
        for v, m in fresh:
            if v in bdd.support(g):
                g = bdd.ite(bdd.atom(m), bdd.cof(g, v, 1), bdd.cof(g, v, 0))
        return g

    def delv(self, g, lvl, coll):
        return g

    def delv_t(self, x, lvl, coll, tot):
        return x

    def havoc(self, old, new, path, lvs, coll):
        """Widen the parts of a loop-carried cell that change."""
        if old is new:
            return old, False
        if path in lvs:
            return old, False
        if old.op == "adt" and new.op == "adt" and old.a[:2] == new.a[:2] and len(old.a) > 2:
            fs, ch = [], False
            for i, (x, y) in enumerate(zip(old.a[2:], new.a[2:])):
                v, k = self.havoc(x, y, path + (i,), lvs, coll)
                fs.append(v)
                ch |= k
            return mk("adt", old.a[0], old.a[1], *fs), ch
        if old.op == "tuple" and new.op == "tuple" and len(old.a) == len(new.a) and old.a:
            fs, ch = [], False
            for i, (x, y) in enumerate(zip(old.a, new.a)):
                v, k = self.havoc(x, y, path + (i,), lvs, coll)
                fs.append(v)
                ch |= k
            return mk("tuple", *fs), ch
        if old is UNDEF:
            # assigned in the body and dead at the header
            return old, False
        lv = mk("lv", coll, len(lvs))
        lvs[path] = (lv, old)
        if old.op == "ptr" or new.op == "ptr":
            raise Opaque("loop-carried reference")
        return lv, True

    def leaf(self, path, st, ac):
        if path[0] == "s":
            v = st.get((path[1], path[2]), UNDEF)
            rest = path[3:]
        else:
            v = ac[path[1]]
            rest = path[2:]
        for i in rest:
            v = proj(v, i)
        return v

    def refill(self, v, path, finals, lvs):
        if path in finals:
            return finals[path]
        if v.op == "adt" and any(p[:len(path)] == path for p in finals):
            return adt(v.a[0], v.a[1], *[self.refill(x, path + (i,), finals, lvs) for i, x in enumerate(v.a[2:])])
        if v.op == "tuple" and any(p[:len(path)] == path for p in finals):
            return mk("tuple", *[self.refill(x, path + (i,), finals, lvs) for i, x in enumerate(v.a)])
        return v

    def fold_value(self, coll, lvl, inits, bodies, n, lv, init, body, cgd, c, distinct=False):
        lvset = set(lvl)
        if body is lv:
            return init
        # append
        if body.op == "seq" and body.a and body.a[0].op == "ps" and body.a[0].a[0] == 1 and body.a[0].a[1] is lv:
            tail = body.a[1:]
            if not any(p.fe & lvset for p in tail):
                return seq(parts_of(init) + [mk("pc", c, coll, tail)])
        # insert into a map
        if body.op == "map" and body.a[0] is lv and init.op == "map" and init.a[0] is None \
                and not any(x.fe & lvset for e in body.a[1] for x in e[1:]) \
                and not any(bdd.ATOMS[v].fe & lvset for e in body.a[1] for v in bdd.support(e[0])):
            tail = tuple(mk("pi", g, mk("tuple", k, v)) for g, k, v in body.a[1])
            old = tuple(mk("pi", g, mk("tuple", k, v)) for g, k, v in init.a[1])
            src = mk("seq", *old, mk("pc", c, coll, tail))
            return mk("mapof", src, 1) if distinct and not old and c == 1 else mk("mapof", src)
        if body.op in ("bool",):
            x = bdd.ATOM_ID.get(mk("var", lv))
            B = body.a[0]
            if x is not None:
                b1, b0 = bdd.cof(B, x, 1), bdd.cof(B, x, 0)
                if not any(bdd.ATOMS[v].fe & lvset for v in bdd.support(b1) | bdd.support(b0)):
                    i = tobdd(init)
                    if b1 == 1:
                        return mkb(OR(i, AND(c, exists(coll, b0))))
                    if b0 == 0:
                        return mkb(AND(i, NOT(AND(c, exists(coll, NOT(b1))))))
        # last writer, independent of the carried value
        f = mk("fold", coll, lvl, inits, bodies, n, cgd)
        if c == 1:
            return f
        return mk_ite([(c, f), (NOT(c), init)])

    # ------------------------------------------------------------ blocks
    def block(self, b, fr, n, g, st, states, rets):
        blk = b.blocks[n]
        for s in blk["s"]:
            if s[0] == "=":
                v = self.rvalue(s[2], st, fr, b)
                if v.fl & ITE and g != 1:
                    v = simp(v, g)
                pl = s[1]
                if not pl[1]:
                    st[(fr, pl[0])] = v
                else:
                    self.write(st, self.lvalue(st, fr, b, pl), v)
            elif s[0] == "sd":
                locs = self.lvalue(st, fr, b, s[1])
                p = self.typath(self.place_ty(b, s[1]))
                self.write(st, locs, adt(p, s[2]))
        t = blk["t"]
        k = t[0]
        if k == "goto":
            states.setdefault(t[1], []).append((g, st))
        elif k == "drop":
            states.setdefault(t[2], []).append((g, st))
        elif k == "return":
            rets.append((g, st))
        elif k == "switch":
            v = self.operand(t[1], st, fr, b)
            rest = g
            used = set()
            for val, bb in t[2]:
                c = self.switch_guard(v, int(val), t[4])
                gg = AND(rest, c)
                rest = AND(rest, NOT(c))
                if gg:
                    states.setdefault(bb, []).append((gg, st if False else dict(st)))
            if rest:
                states.setdefault(t[3], []).append((rest, dict(st)))
        elif k == "call":
            c, argo, dest, target, span, argtys, desty = t[1:8]
            args = [self.operand(o, st, fr, b) for o in argo]
            if g != 1:
                args = [simp(a, g) for a in args]
            fo = self.operand(c["f"], st, fr, b) if c.get("f") else None
            ctx = Ctx(self, st, g, b.env, span, c, argtys, desty)
            v, okg = self.call(ctx, c, args, fo)
            if target is None or okg == 0:
                if target is None:
                    self.events.append((g, ("diverge", c.get("p") or c["n"], b.path, span)))
                return
            g2 = AND(g, okg)
            if g2 == 0:
                return
            if okg != 1:
                v = simp(v, g2)
            if not dest[1]:
                st[(fr, dest[0])] = v
            else:
                self.write(st, self.lvalue(st, fr, b, dest), v)
            states.setdefault(target, []).append((g2, st))
        elif k == "assert":
            v = tobdd(self.operand(t[1], st, fr, b))
            c = v if t[2] else NOT(v)
            bad = AND(g, NOT(c))
            if bad:
                self.events.append((bad, ("assert", t[4], b.path, t[5])))
            g2 = AND(g, c)
            if g2:
                states.setdefault(t[3], []).append((g2, st))

    def switch_guard(self, v, val, ty):
        t = self.types[ty]
        if t["k"] == "int":
            # targets are given by their bits
            bits = {"i8": 8, "i16": 16, "i32": 32, "i128": 128}.get(t["s"], 64)
            val &= (1 << bits) - 1
            if val >> (bits - 1):
                val -= 1 << bits
        return self.switch_on(v, val, ty)

    def switch_on(self, v, val, ty):
        if v.op == "ite":
            return bdd.anyn(AND(g, self.switch_on(x, val, ty)) for g, x in v.a[0])
        if v.op == "int":
            return 1 if v.a[0] == val else 0
        if v.op == "char":
            return 1 if v.a[0] == val else 0
        if v is UNDEF:
            return 0
        k = self.types[ty]["k"]
        if v.op == "bool" or k == "bool":
            x = tobdd(v)
            return NOT(x) if val == 0 else x
        if k == "char":
            return liteq(v, mk("char", val))
        return order(v, mk("int", val))[1]

    # ------------------------------------------------------------ calls
    def call(self, ctx, c, args, fo=None):
        if "ctor" in c:
            return adt(c["ctor"][0], c["ctor"][1], *args), 1
        if fo is not None:
            return self.call_value(ctx, fo, args)
        name = c.get("p") or c["n"]
        ctx.name = name
        m = self.find_model(c, name)
        if m is not None:
            r = m(ctx, args)
            if r is not None:
                return r, ctx.ok
        if "closure" in c and "b" in c:
            f = args[0]
            return self.call_value(ctx, f, self.untuple(args[1]) if len(args) > 1 else [])
        if c.get("shim") and c.get("t", "").startswith("core::ops::function::Fn"):
            return self.call_value(ctx, args[0], self.untuple(args[1]))
        if "b" in c and c["b"] in self.bodies:
            b = self.bodies[c["b"]]
            if b.kind == "closure":
                return self.call_value(ctx, args[0], args[1:])
            return self.call_body(b, args, ctx.store, ctx.pc)
        if c.get("t", "").startswith("core::ops::function::Fn") and c.get("m", "").startswith("call"):
            return self.call_value(ctx, args[0], self.untuple(args[1]))
        if MAYPANIC.search(name):
            self.events.append((ctx.pc, ("maybe", name, "", ctx.span)))
        return self.external(ctx, c, args), ctx.ok

    def untuple(self, t):
        if t.op == "tuple":
            return list(t.a)
        if t.op == "ite":
            n = max(len(x.a) for _, x in t.a[0] if x.op == "tuple")
            return [proj(t, i) for i in range(n)]
        return [fld(t, 0, 0)]

    def external(self, ctx, c, args):
        name = c.get("p") or c["n"]
        if not c.get("unres"):
            self.unknown[name] = self.unknown.get(name, 0) + 1
            if not DISTINCT.search(name):
                name = "?" + name
        ts = ()
        if c.get("unres"):
            ts = tuple(self.types[x]["s"] for x in c["a"][:1])
            name = c["n"]
            if not args:
                return mk("new", name, *tuple(self.types[x]["s"] for x in c["a"]))
        return self.opaque_call(name, args, ctx.store, None, ())

    def find_model(self, c, name):
        m = self.models.get(name)
        if m is None and c["n"] != name:
            m = self.models.get(c["n"])
        if m is None and "m" in c:
            m = self.models.get((c["t"], c["m"])) if not (c.get("b") is not None and (c["t"], c["m"]) not in self.force) else None
        return m

    force = set()

    def call_value(self, ctx, f, args):
        """Call a closure / function value."""
        fv = self.load(ctx.store, f) if f.op in ("ptr",) else f
        if f.op == "ite" and any(x.op == "ptr" for _, x in f.a[0]):
            fv = self.load(ctx.store, f)
        if fv.op == "clo":
            r = self.callables.get((fv.a[1], fv.a[0]))
            if r is None or r["b"] not in self.bodies:
                return self.opaque_call("apply", [fv] + args, ctx.store), 1
            b = self.bodies[r["b"]]
            t1 = self.types[b.locals[1]]
            if t1["k"] == "ref" and t1["m"]:
                if f.op == "ptr":
                    self_ = f
                else:
                    self.frame += 1
                    ctx.store[(self.frame, 0)] = fv
                    self_ = mk("ptr", self.frame, 0, ())
            else:
                self_ = fv
            return self.call_body(b, [self_] + list(args), ctx.store, ctx.pc)
        if fv.op == "fnv":
            r = self.callables.get((fv.a[1], fv.a[0]))
            if r is not None:
                c2 = Ctx(self, ctx.store, ctx.pc, fv.a[1], ctx.span, r["c"], r["at"], r["dt"])
                v, okg = self.call(c2, r["c"], list(args))
                return v, okg
            return self.opaque_call("apply", [fv] + args, ctx.store), 1
        if fv.op == "ite":
            out, okt = [], 0
            for g, x in fv.a[0]:
                if AND(g, ctx.pc) == 0:
                    continue
                v, okg = self.call_value(ctx, x, args)
                out.append((g, v))
                okt = OR(okt, AND(g, okg))
            return mk_ite(out), okt
        return self.opaque_call("apply", [fv] + list(args), ctx.store), 1
