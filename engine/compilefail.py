"""Programs the compiler must reject, each with a twin it must accept (P27)."""
import fcntl
import json
import os
from dump import ROOT, WORK, sh, BuildError

CRATE = os.path.join(ROOT, "entry_c")
PRELUDE = """#![allow(unused)]
use serde::{Deserialize, Serialize};
use wot_td::builder::*;
use wot_td::extend::*;
use wot_td::hlist::*;
use wot_td::thing::*;
macro_rules! ext { ($($n:ident),*) => { $( #[derive(Debug, PartialEq, Serialize, Deserialize)] pub struct $n { pub v: u8 } )* } }
ext!(XT, XI, XP, XA, XE, XF, XR, XD, XO, XY);
impl ExtendableThing for XT {
    type InteractionAffordance = XI;
    type PropertyAffordance = XP;
    type ActionAffordance = XA;
    type EventAffordance = XE;
    type Form = XF;
    type ExpectedResponse = XR;
    type DataSchema = XD;
    type ObjectSchema = XO;
    type ArraySchema = XY;
}
fn xt() -> XT { XT { v: 0 } }
"""


def compile_(name, fns):
    """Errors of the compiler, by the function they are in: {index: {code}}; None is everything elsewhere."""
    d = os.path.join(CRATE, "src")
    os.makedirs(d, exist_ok=True)
    src, spans = PRELUDE, []
    line = src.count("\n") + 1
    for i, f in enumerate(fns):
        t = "fn f%d() {\n    let _ = %s;\n}\n" % (i, f)
        n = t.count("\n")
        spans.append((line, line + n - 1))
        line += n
        src += t
    with open(os.path.join(d, "lib.rs"), "w") as fh:
        fh.write(src)
    env = {"CARGO_TARGET_DIR": os.path.join(ROOT, "entry", "target", "c")}
    rc, o = sh(["cargo", "check", "--offline", "--message-format=json"], CRATE, env)
    out, other = {}, []
    for ln in o.splitlines():
        if not ln.startswith("{"):
            other.append(ln)
            continue
        m = json.loads(ln)
        if m.get("reason") != "compiler-message" or m["message"]["level"] != "error":
            continue
        e = m["message"]
        if "wot_entry_c" not in m.get("package_id", "") and "entry_c" not in m.get("package_id", ""):
            raise BuildError("the crate does not compile:\n" + (e.get("rendered") or "")[:3000])
        ps = [s["line_start"] for s in e["spans"] if s["is_primary"]]
        code = (e.get("code") or {}).get("code")
        if not ps:
            continue
        ix = [i for i, (a, b) in enumerate(spans) for p in ps[:1] if a <= p <= b]
        out.setdefault(ix[0] if ix else None, []).append((code, (e.get("rendered") or e["message"])[:600]))
    if rc and not out:
        raise BuildError("the crate does not compile:\n" + "\n".join(other)[-3000:])
    return out


def run(snips):
    """snips: [(good, bad, codes)] -> for each (status, detail)."""
    os.makedirs(WORK, exist_ok=True)
    lock = open(os.path.join(WORK, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        good = compile_("good", [s[0] for s in snips])
        bad = compile_("bad", [s[1] for s in snips])
        res = []
        if None in good or None in bad:
            raise BuildError("the programs do not compile: %s" % (good.get(None) or bad.get(None))[0][1])
        alone = {}
        for i, s in enumerate(snips):
            if i not in bad:
                # not rejected together with the others: ask for it alone
                alone[i] = compile_("alone", [s[1]]).get(0)
        for i, (g, b, codes) in enumerate(snips):
            if i in good:
                res.append(("violated", [["program", "the complete program is rejected: %s\n%s" % (g, good[i][0][1])]]))
                continue
            e = bad.get(i) or alone.get(i)
            if not e:
                res.append(("violated", [["program", "accepted by the compiler: " + b]]))
            elif not any(c in codes for c, _ in e):
                res.append(("undecided", [["program", "rejected for another reason than expected: %s" % e[0][1]]]))
            else:
                res.append(("holds", []))
        return res
    finally:
        with open(os.path.join(CRATE, "src", "lib.rs"), "w") as fh:
            fh.write("#![allow(unused)]\n")
        fcntl.flock(lock, fcntl.LOCK_UN)
