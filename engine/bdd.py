"""Reduced ordered binary decision diagrams over interned atom terms.

Guards of the value-flow analysis are BDD node numbers: 0 is false, 1 is true.
The variable order groups atoms about the same object: a new atom is placed
right after the atoms about its closest enclosing object.
"""

import bisect

VAR = [0, 0]
LO = [0, 1]
HI = [0, 1]
UNIQ = {}
MEMO = {}
ATOM_ID = {}
ATOMS = [None]
POS = [1 << 200]   # atom -> position in the variable order
GAP = 1 << 60
ORDER = []         # atoms by position
LAST = {}          # object -> the last atom about it or a part of it
CHAIN = [lambda t: ()]
SUPP = {}
NEG = {0: 1, 1: 0}


CAP = [1 << 60]


class Limit(Exception):
    """The guards of a rule have become too large."""


def node(v, lo, hi):
    if lo == hi:
        return lo
    k = (v, lo, hi)
    n = UNIQ.get(k)
    if n is None:
        n = len(VAR)
        if n > CAP[0]:
            raise Limit()
        VAR.append(v)
        LO.append(lo)
        HI.append(hi)
        UNIQ[k] = n
    return n


def atom(t):
    """The BDD of the atom `t` (any hashable)."""
    i = ATOM_ID.get(t)
    if i is None:
        i = len(ATOMS)
        ATOM_ID[t] = i
        ATOMS.append(t)
        place(i, t)
    return node(i, 0, 1)


def place(i, t):
    """Choose the position of the new atom i; the order of the others is kept."""
    ch = CHAIN[0](t)
    a = None
    for x in ch:
        a = LAST.get(x)
        if a is not None:
            break
    if a is None:
        POS.append(POS[ORDER[-1]] + GAP if ORDER else GAP)
        ORDER.append(i)
    else:
        lo = bisect.bisect_left(ORDER, POS[a], key=lambda v: POS[v])
        p = POS[a]
        if lo + 1 == len(ORDER):
            POS.append(p + GAP)
            ORDER.append(i)
        else:
            q = POS[ORDER[lo + 1]]
            if q - p < 2:
                for n, v in enumerate(ORDER):
                    POS[v] = (n + 1) * GAP
                p, q = POS[a], POS[ORDER[lo + 1]]
            POS.append((p + q) // 2)
            ORDER.insert(lo + 1, i)
    for x in ch:
        b = LAST.get(x)
        if b is None or POS[b] < POS[i]:
            LAST[x] = i


def first(vs):
    return min(vs, key=lambda v: POS[v])


def ite(f, g, h):
    if f == 1:
        return g
    if f == 0:
        return h
    if g == h:
        return g
    if g == 1 and h == 0:
        return f
    if f == g:
        g = 1
    if f == h:
        h = 0
    if g == 1 and h == 0:
        return f
    k = (f, g, h)
    r = MEMO.get(k)
    if r is not None:
        return r
    v = vf = VAR[f]
    vg, vh = VAR[g], VAR[h]
    p = POS[v]
    if POS[vg] < p:
        v = vg
        p = POS[v]
    if POS[vh] < p:
        v = vh
    f0, f1 = (LO[f], HI[f]) if vf == v else (f, f)
    g0, g1 = (LO[g], HI[g]) if vg == v else (g, g)
    h0, h1 = (LO[h], HI[h]) if vh == v else (h, h)
    r = node(v, ite(f0, g0, h0), ite(f1, g1, h1))
    MEMO[k] = r
    return r


def AND(a, b):
    if a == 0 or b == 0:
        return 0
    if a == 1:
        return b
    if b == 1 or a == b:
        return a
    if a > b:
        a, b = b, a
    return ite(a, b, 0)


def OR(a, b):
    if a == 1 or b == 1:
        return 1
    if a == 0:
        return b
    if b == 0 or a == b:
        return a
    if a > b:
        a, b = b, a
    return ite(a, 1, b)


def NOT(a):
    r = NEG.get(a)
    if r is None:
        r = ite(a, 0, 1)
        NEG[a] = r
        NEG[r] = a
    return r


def IFF(a, b):
    return ite(a, b, NOT(b))


def IMP(a, b):
    return ite(a, b, 1)


def alln(xs):
    r = 1
    for x in xs:
        r = AND(r, x)
        if r == 0:
            break
    return r


def anyn(xs):
    r = 0
    for x in xs:
        r = OR(r, x)
        if r == 1:
            break
    return r


def cof(f, v, val):
    """Cofactor of f with variable v set to val."""
    memo = {}
    pv = POS[v]

    def go(n):
        if POS[VAR[n]] > pv:
            return n
        if VAR[n] == v:
            return HI[n] if val else LO[n]
        r = memo.get(n)
        if r is None:
            r = node(VAR[n], go(LO[n]), go(HI[n]))
            memo[n] = r
        return r

    return go(f)


def support(f):
    r = SUPP.get(f)
    if r is None:
        if f < 2:
            r = frozenset()
        else:
            r = support(LO[f]) | support(HI[f]) | {VAR[f]}
        SUPP[f] = r
    return r


def cube(f):
    """One satisfying assignment as [(atom, bool)], or None."""
    if f == 0:
        return None
    out = []
    while f != 1:
        if LO[f] != 0:
            out.append((ATOMS[VAR[f]], False))
            f = LO[f]
        else:
            out.append((ATOMS[VAR[f]], True))
            f = HI[f]
    return out
