"""No panics, no effects, no unsafe code (P28)."""
import re
from core import *
import bdd
import terms
from interp import MAYPANIC, Opaque


def undecidable(g):
    for v in bdd.support(g):
        t = bdd.ATOMS[v]
        ts = t if isinstance(t, tuple) else (t,)
        for x in ts:
            if not hasattr(x, "fl"):
                continue
            if x.fl & (terms.UNK | terms.LVF) or mentions(x, ("inbounds", "len")):
                return True
    return False


def mentions(x, ops, seen=None):
    seen = set() if seen is None else seen
    if id(x) in seen:
        return False
    seen.add(id(x))
    if x.op in ops:
        return True
    for a in x.a:
        for y in (a if isinstance(a, tuple) else (a,)):
            if hasattr(y, "op") and mentions(y, ops, seen):
                return True
    return False


def reachable(env, name):
    """What holds for every builder a program can obtain: the list of contexts
    of a ThingBuilder starts with the context of the specification (P01 and P02
    decide that new() puts it there and that nothing takes it away)."""
    for r in env.eng.dump["roots"]:
        if r["kind"] == "entry" and r["name"] == name:
            b = env.eng.bodies[r["b"]]
    g = 1
    for i, n in enumerate(params(ENTRIES[name])):
        p = env.eng.typath(b.locals[i + 1])
        if p and p.endswith("builder::ThingBuilder"):
            c = get1(mk("sym", n), "context")
            g = AND(g, seq_nonempty(c))
            cp = [k for k in ADTS if k.endswith("builder::Context")]
            if not cp:
                raise Undecided("the type of a context entry has changed")
            vs = [v["name"] for v in ADTS[cp[0]]["variants"]]
            g = AND(g, is_variant(mk("first", c), cp[0], vs.index("Simple")))
    return g


def panics(events, care):
    """(decided, undecided) panics in functions of the crate."""
    out, maybe = [], []
    for g, e in events:
        if not g or len(e) < 5 or not e[4] or unsat(AND(g, care)):
            continue
        x = (e[4], "%s of %s at %s, reached when %s" % (e[0], e[1], e[3].replace("/repo/", ""), "always" if g == 1 else showb(g, 3)[:300]))
        gated = False
        try:
            gate(("B", g))
        except Undecided:
            gated = True
        if e[0] == "maybe" or gated or undecidable(g):
            maybe.append(x)
        else:
            out.append(x)
    return out, maybe


def entry_rule(name):
    def f(env):
        terms_ty = dict(SYM_TY)
        SYM_TY.clear()
        try:
            if name in env.cache:
                del env.cache[name]
            env.val(name)
        finally:
            SYM_TY.update(terms_ty)
        out, maybe = panics(env.info[name]["events"], reachable(env, name))
        if not out and maybe:
            raise Undecided("%s: %s" % maybe[0])
        return sorted(set(out))
    return f


for n in sorted(k for k in ENTRIES if ENTRY_UNIT.get(k, "b") == "b"):
    rule("P28", "no panic through %s" % n, [n], entry_rule(n), "no failing check of the crate is reachable for any argument", ENTRY_TIER.get(n, "quick"))

# ---- effects: what the bodies of the crate call
EFFECTS = {
    "reads or writes files": r"^<?std::fs::|^<std::fs::|::File as |^std::path::Path::(exists|is_|metadata|read_|canonicalize)",
    "talks to the network": r"^<?std::net::|^std::os::unix::net",
    "reads the environment or arguments": r"^std::env::",
    "controls processes": r"^<?std::process::",
    "reads or writes the console": r"^std::io::(stdio::)?(_print|_eprint|stdin|stdout|stderr)|^<std::io::",
    "starts threads or synchronises": r"^<?std::thread::|^<?std::sync::(mpsc|poison|mutex|rwlock|once|once_lock|lazy_lock|barrier|condvar|nonpoison)|^core::sync::atomic|^<?std::sync::",
    "reads the clock": r"^<?std::time::(SystemTime|Instant)|::now_utc$|::now_local$|^time::.*::now$|current_local_offset",
    "catches or triggers unwinding": r"^std::panicking::|^std::panic::",
    "uses random numbers": r"^rand|getrandom",
    "leaks or frees memory by hand": r"^alloc::alloc::|::leak$|::from_raw$|::into_raw$|^core::mem::forget|^core::ptr::(read|write)|^core::mem::(transmute|zeroed)",
}


def crate_bodies(env):
    return [b for b in env.dump["bodies"] if b["krate"] == "wot_td"] if hasattr(env, "dump") else [b for b in env.eng.dump["bodies"] if b["krate"] == "wot_td"]


def callees(b):
    for blk in b["blocks"]:
        if blk and blk["t"] and blk["t"][0] == "call":
            c = blk["t"][1]
            yield (c.get("p") or c.get("n") or ""), blk["t"][5], c


def effect_rule(what, rx):
    rx = re.compile(rx)

    def f(env):
        out = set()
        bs = crate_bodies(env)
        if len(bs) < 200:
            raise Fail("only %d functions of the crate are in the compiled program" % len(bs))
        for b in bs:
            for n, sp, c in callees(b):
                if rx.search(n) or rx.search(c.get("n") or ""):
                    out.add((b["path"], "calls %s at %s" % (n, str(sp).replace("/repo/", ""))))
        return sorted(out)[:20]
    return f


for w, rx in EFFECTS.items():
    rule("P28", "no function %s" % w, [], effect_rule(w, rx), "no function of the crate calls into that part of the standard library")


def unsafe_code(env):
    """The compiler's own lint, which nothing in the crate can lower."""
    import os
    from dump import ROOT, sh
    rc, o = sh(["cargo", "rustc", "--lib", "--offline", "--manifest-path", "/repo/Cargo.toml", "--target-dir", os.path.join(ROOT, "entry", "target", "u"),
                "--message-format=short", "--", "-Funsafe_code"], "/repo")
    if rc == 0:
        return []
    ls = [x for x in o.splitlines() if "error" in x]
    if any("unsafe" in x for x in ls):
        return [(x.split(": error")[0], x) for x in ls if "unsafe" in x]
    raise Undecided("the lint could not run: " + o[-300:])


rule("P28", "no unsafe code", [], unsafe_code, "the crate compiles with unsafe_code forbidden")


# ---- the functions outside the builders, on arbitrary arguments
def sites(b):
    for blk in b["blocks"]:
        if not blk or not blk["t"]:
            continue
        t = blk["t"]
        if t[0] == "assert":
            return True
        if t[0] == "call":
            n = t[1].get("p") or t[1].get("n") or ""
            if t[4] is None or MAYPANIC.search(n) and not n.startswith("core::option") or "::index" in n or re.search(r"::(unwrap|expect)$", n):
                return True
    return False


def data_model(env):
    d = env.eng.dump
    by = {b["id"]: b for b in d["bodies"]}
    calls = {}
    for b in d["bodies"]:
        s = set()
        if b["krate"] == "wot_td":
            for n, sp, c in callees(b):
                if "b" in c:
                    s.add(c["b"])
        calls[b["id"]] = s
    risky = {i for i, b in by.items() if b["krate"] == "wot_td" and sites(b)}
    changed = True
    while changed:
        changed = False
        for i, s in calls.items():
            if i not in risky and s & risky:
                risky.add(i)
                changed = True
    out, maybe, n = set(), set(), 0
    for r in d["roots"]:
        b = by[r["b"]]
        if r["kind"] == "entry" or b["id"] not in risky or b["krate"] != "wot_td" or "wot_td::builder::" in b["path"]:
            continue
        body = env.eng.bodies[b["id"]]
        env.eng.prep(body)
        args = []
        for i in range(1, body.argc + 1):
            s = mk("sym", "p28_%d_%d" % (b["id"], i))
            p = env.eng.typath(body.locals[i])
            if p:
                OPAQUE_TY.setdefault(s, p)
            args.append(s)
        env.eng.events = []
        try:
            env.eng.call_body(body, args, {}, 1)
        except Opaque as x:
            maybe.add((b["path"], str(x)))
            continue
        n += 1
        o, m = panics(env.eng.events, 1)
        out |= set(o)
        maybe |= set(m)
    if not out and maybe:
        raise Undecided("%s: %s" % sorted(maybe)[0])
    return sorted(out)


rule("P28", "no panic in the data model", [], data_model, "no failing check is reachable in a function outside the builders, for any argument")
