#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: decide one property from /repo's current source."""
import json
import multiprocessing
import os
import signal
import sys
import threading
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
ROOT = os.path.dirname(HERE)

import bdd
import compilefail
import core
import dump
import gen
import models
import models_s
import spec
from interp import Engine, Opaque

RULE_TIMEOUT = 150
RULE_NODES = 3000000


def load_known():
    out = []
    p = os.path.join(ROOT, "known_findings")
    for line in open(p):
        line = line.strip()
        if line.startswith("finding:"):
            f = [x.strip() for x in line[len("finding:"):].split("|")]
            out.append({"property": f[0].split("=", 1)[1], "rule": f[1], "where": f[2], "what": f[3]})
    return out


class Timeout(Exception):
    pass


def onalarm(sig, frm):
    raise Timeout()


D = None
UNIT = "b"
WORKER = {}


def worker_env():
    if "env" not in WORKER:
        e = (models_s.install_s if UNIT == "s" else models.install)(Engine(D))
        e.dump = D
        WORKER["env"] = core.Env(e)
    return WORKER["env"]


def run_group(job):
    pid, ixs, tier, end = job
    sys.setrecursionlimit(200000)
    signal.signal(signal.SIGALRM, onalarm)
    env = worker_env()
    env.tier = tier
    rules = [r for r in core.RULES[pid]]
    res = []
    slow, limit = set(), RULE_TIMEOUT
    for i in ixs:
        r = rules[i]
        t = time.time()
        if t > end or slow & set(r.entries):
            res.append((i, "undecided", [["analysis", "time limit"]], 0))
            continue
        status, detail = "holds", []
        signal.alarm(max(1, min(limit, int(end - t) + 1)))
        bdd.CAP[0] = len(bdd.VAR) + RULE_NODES
        try:
            detail = [list(x) for x in (r.fn(env) or [])]
            if detail:
                status = "violated"
        except core.Undecided as x:
            status, detail = "undecided", [["analysis", str(x)]]
        except Opaque as x:
            status, detail = "undecided", [["analysis", str(x)]]
        except core.Fail as x:
            status, detail = "violated", [["construct", str(x)]]
        except bdd.Limit:
            status, detail = "undecided", [["analysis", "size limit of guards"]]
        except Timeout:
            status, detail = "undecided", [["analysis", "time limit"]]
            slow |= set(r.entries) - set(env.cache)
            limit = max(15, limit // 2)
        except RecursionError:
            status, detail = "undecided", [["analysis", "recursion limit"]]
        except MemoryError:
            status, detail = "undecided", [["analysis", "memory limit"]]
        except Exception as x:
            status, detail = "undecided", [["analysis", "internal: " + traceback.format_exc(limit=-4)]]
        finally:
            signal.alarm(0)
        if status == "violated" and UNIT == "s":
            lim = {k for n in r.entries for k in env.info.get(n, {}).get("opaque", ())}
            if lim:
                status, detail = "undecided", [["analysis", "the analysis does not open " + ", ".join(sorted(lim))]] + detail[:2]
        res.append((i, status, detail, time.time() - t))
    e = env.eng
    vis = {}
    for b, n in e.visited.items():
        bd = e.bodies[b]
        vis[bd.path] = vis.get(bd.path, 0) + n
    return res, vis, e.ncalls, sorted(env.cache), dict(env.opq), dict(env.unk)


def groups(rules, tier, unit):
    """Rules that share an entry point are evaluated by one worker."""
    parent = {}

    def find(x):
        while parent.setdefault(x, x) != x:
            x = parent[x]
        return x
    ixs = [i for i, r in enumerate(rules) if (tier == "thorough" or r.tier == "quick") and core.unit_of_rule(r) == unit]
    for i in ixs:
        k = ("r", i)
        find(k)
        for e in rules[i].entries:
            parent[find(e)] = find(k)
    g = {}
    for i in ixs:
        g.setdefault(find(("r", i)), []).append(i)
    # small groups are packed together
    gs = sorted(g.values(), key=lambda x: (len(x), x), reverse=True)
    big = [x for x in gs if len(x) >= 12]
    small = [x for x in gs if len(x) < 12]
    bins = [[] for _ in range(24)]
    for n, x in enumerate(sorted(small)):
        bins[n * len(bins) // max(1, len(small))] += x
    return big + [b for b in bins if b]


def spans(paths):
    """Where the analysed functions of the crate are defined."""
    out = []
    for b in (D or {"bodies": []})["bodies"]:
        if b["krate"] == "wot_td" and b["path"] in paths and b.get("span"):
            out.append("%s (%s)" % (b["path"], b["span"]))
    return sorted(set(out))


def main():
    global D, UNIT
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    t0 = time.time()
    rep = os.path.join(ROOT, "work", "replay")
    os.makedirs(rep, exist_ok=True)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    replay = os.path.join(rep, pid + ".json")
    rules = core.RULES[pid]
    results, vis, ncalls, cached, opq, unk = {}, {}, 0, set(), {}, {}
    builderr = None
    for unit in sorted({core.unit_of_rule(r) for r in rules}):
        UNIT = unit
        if unit == "c":
            ixs = [i for i, r in enumerate(rules) if core.unit_of_rule(r) == "c"]
            try:
                res = compilefail.run([spec.stages.SNIPS[rules[i].entries[0]] for i in ixs])
            except dump.BuildError as x:
                builderr = str(x)
                break
            for i, (st, det) in zip(ixs, res):
                results[i] = (st, det, 0)
            cached |= {rules[i].entries[0] for i in ixs}
            continue
        gen.generate(tier, unit)
        try:
            D = dump.load(unit)
        except dump.BuildError as x:
            builderr = str(x)
            break
        end = t0 + (600 if tier == "quick" else 700)
        jobs = [(pid, g, tier, end) for g in groups(rules, tier, unit)]
        if not jobs:
            continue
        with multiprocessing.get_context("fork").Pool(min(8, len(jobs)), maxtasksperchild=1) as pool:
            for res, v, n, c, o, u in pool.imap_unordered(run_group, jobs):
                for i, st, det, s in res:
                    results[i] = (st, det, s)
                for k, x in v.items():
                    vis[k] = max(vis.get(k, 0), x)
                ncalls = ncalls + n
                cached |= set(c)
                opq.update(o)
                unk.update(u)
    known = [k for k in load_known() if k["property"] == pid]
    viol, kf, und = [], [], []
    if builderr is not None:
        viol.append({"rule": "build", "findings": [["build", builderr]]})
    for i, r in enumerate(rules):
        if i not in results:
            continue
        st, det, s = results[i]
        if st == "violated":
            left = []
            for d in det:
                m = [k for k in known if k["rule"] == r.name and k["where"] == d[0]]
                if m:
                    kf.append(m[0])
                else:
                    left.append(d)
            if left:
                viol.append({"rule": r.name, "requires": r.what, "entry_points": {e: core.ENTRIES.get(e) for e in r.entries}, "findings": left})
        elif st == "undecided":
            und.append({"rule": r.name, "why": det})
    samples = []
    n = max(1, len(results) // 12)
    for i in sorted(results)[::n][:14]:
        samples.append({"rule": rules[i].name, "requires": rules[i].what, "analysed": [core.ENTRIES[e] for e in rules[i].entries[:2] if e in core.ENTRIES],
                        "outcome": results[i][0]})
    crate = sorted(p for p in vis if "wot_td::" in p)
    holds = sum(1 for x in results.values() if x[0] == "holds")
    ev = {
        "property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other",
        "coverage": {
            "explanation": core.ABOUT.get(pid, core.ABOUT["*"]),
            "obligations": len(results), "discharged": holds, "undecided": len(und), "known": len(kf),
            "undecided_list": und[:40],
            "entry_points_evaluated": len(cached),
            "functions_analysed": len(vis), "functions_of_the_crate": len(crate), "crate_functions": crate[:400],
            "call_sites_evaluated": ncalls,
            "analysis_limits": opq, "unmodelled_external_calls": unk,
            "rule": "each obligation is one rule evaluated over the compiled program (MIR) of the current tree; see samples",
            "samples": samples,
        },
        "assumptions": core.ASSUMPTIONS,
        "wall_s": round(time.time() - t0, 2), "violations": len(viol),
    }
    json.dump(ev, open(os.path.join(ROOT, "evidence", pid + ".json"), "w"), indent=1)
    seen = set()
    for k in kf:
        key = (k["rule"], k["where"])
        if key not in seen:
            seen.add(key)
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    print("%s %s: %d obligations, %d hold, %d undecided, %d violated; %d functions, %d calls analysed; %.1f s" % (
        pid, tier, len(results), holds, len(und), len(viol), len(vis), ncalls, time.time() - t0))
    for u in und[:5]:
        print("  undecided: %s: %s" % (u["rule"], str(u["why"])[:300]))
    if viol:
        json.dump({"property": pid, "violations": viol, "crate_functions": spans(set(crate))}, open(replay, "w"), indent=1)
        for v in viol[:10]:
            print("  violated: %s" % v["rule"])
            for f in v["findings"][:4]:
                print("     %s: %s" % (f[0], f[1][-1500:]))
        print("VIOLATION property=%s replay=%s" % (pid, replay))
        return 1
    if builderr is None and len(results) < 1:
        print("no obligation was evaluated")
        print("VIOLATION property=%s replay=%s" % (pid, replay))
        return 1
    return 0


def entry():
    rc = [1]

    def go():
        try:
            rc[0] = main()
        except BaseException:
            traceback.print_exc()
            rc[0] = 2
    sys.setrecursionlimit(200000)
    go()
    sys.stdout.flush()
    os._exit(rc[0])


if __name__ == "__main__":
    entry()
