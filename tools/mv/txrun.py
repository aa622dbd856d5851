"""Checks of the transaction-level properties: scenarios of a family through specification and implementation."""
import json, random
from . import core, findings, probe, txcmp, txfam
from .scen import *

OPFIELDS = ["kind", "why", "gas", "ref", "out", "logs", "acc", "st"]

def fields_for(mode, fields):
    if mode == "fresh": return [f for f in fields if f not in ("seen", "asked", "hashes")]
    if mode == "op": return [f for f in fields if f in OPFIELDS]
    return fields if mode == "trace" else [f for f in fields if f != "tr"]

def short(x, n=160):
    s = json.dumps(x, default=str)
    return s if len(s) <= n else s[:n] + "..."

def judge(rep, fam, S, exp, obs, limit=30):
    """Compares; True when something was found."""
    for s in S:
        e, o = exp[s["id"]], obs[s["id"]]
        for x in e: rep.kinds["%s%s" % (x["res"]["kind"], ":" + x["res"]["why"] if x["res"]["why"] else "")] += 1
        rep.traces += 1
        if len(rep.violations) >= limit: continue
        if not set(s["modes"]) <= set(o):
            rep.violation("scenario %s: %s" % (s["id"], short(o)), {"scenario": s, "expected": e, "observed": o}); continue
        if "op" in s["modes"]:
            # the reference implementation itself must agree with the specification, or the specification is wrong
            d = txcmp.diff(s, e, o["op"], fields_for("op", fam.fields))
            if d:
                if not isinstance(o["plain"], dict) and not txcmp.diff(s, o["op"], o["plain"], OPFIELDS):
                    raise core.ToolError("specification and op-revm disagree on %s: %s" % (s["id"], short(d[:3])))
        for mode in s["modes"]:
            if mode == "op": continue
            if mode == "fresh" and s["sp"] in (MINI, REX) and len(s["txs"]) > 1: continue
            F = fields_for(mode, fam.fields)
            d = txcmp.diff(s, e, o[mode], F)
            rep.events += len(F) * len(e)
            if d:
                j, f, a, b = d[0]
                if isinstance(a, list) and isinstance(b, list): a, b = [x for x in a if x not in b] or a, [x for x in b if x not in a] or b  # (what differs)
                rep.violation("scenario %s (spec id %d, %s run), transaction %d: %s is %s, the specification says %s" %
                              (s["id"], s["sp"], mode, j, f, short(b), short(a)),
                              {"scenario": s, "mode": mode, "differences": d[:10], "expected": e, "observed": o[mode]})
                break
        else:
            for x, y in fam.pairs:
                if x not in s["modes"] or y not in s["modes"]: continue
                F = fields_for("op" if "op" in (x, y) else x, fam.fields)
                if isinstance(o[x], dict) or isinstance(o[y], dict): continue
                d = [(j, f, a, b) for j, (p, q) in enumerate(zip(o[x], o[y])) for f, a, b in txcmp.diff_tx(s["sp"], p, q, F)]
                if d:
                    rep.violation("scenario %s (spec id %d): %s and %s runs differ in %s" % (s["id"], s["sp"], x, y, short(d[0])),
                                  {"scenario": s, "pair": [x, y], "differences": d[:10], "observed": o})

def run_batch(rep, fam, S, exp):
    for i, s in enumerate(S):
        s["names"] = txcmp.names_of(exp[s["id"]])
        if i % 2 and can_widen(s): s["wide"] = True
        s["modes"] = [m for m in fam.modes if m != "op" or s["sp"] == EQ]
    for i in range(0, len(S), 20000):
        part = S[i:i + 20000]
        judge(rep, fam, part, exp, core.run_impl("replay", part))
    if S:
        s = S[len(S) // 2]
        rep.sample({"id": s["id"], "spec": s["sp"], "txs": s["txs"][:2], "code": {k: v for k, v in s["code"].items() if v}, "limits": s["lim"],
                    "outcome": [x["res"] for x in exp[s["id"]]]})

def check(rep):
    fam = txfam.FAMS[rep.prop]
    rng = random.Random("%s/%s/%d" % (rep.prop, rep.tier, rep.seed))
    q = rep.tier == "quick"
    tags, bad = findings.calibrate(rep)
    for p, t, text in findings.listed():
        if p == rep.prop and t in tags: rep.known.append("KNOWN-FINDING: property=%s %s" % (p, text))
    for s, e, o, d in bad:
        d = [x for x in d if x[1] in fam.fields or x[1] == "panic"]
        if d: rep.violation("demonstration %s: %s" % (s["id"], short(d[:3])), {"scenario": s, "expected": e, "observed": o, "differences": d})
    def dev(s):
        s["dev"] = list(tags)
        return fam.dress(rng, s) if fam.dress and "watch" not in s else s
    # 1. directed scenarios
    if fam.directed:
        S = [dev(s) for s in fam.directed(rep.tier)]
        exp = core.run_spec("Replay", S)
        run_batch(rep, fam, S, exp)
        V = []
        for s in S:
            if s["marks"] and fam.kinds: V += probe.variants(rng, s, exp[s["id"]], 1 if q else 4, fam.kinds)
        if V: run_batch(rep, fam, V, core.run_spec("Replay", V))
    # 2. exhaustive small scopes
    if fam.explore:
        for c in fam.explore(rep.tier):
            S, exp = core.explore([dev(c)])
            rep.exhaustive += len(S)
            run_batch(rep, fam, S, exp)
            if rep.violations: break
    # 3. random histories, and boundary histories derived from them
    n = fam.nbase[0 if q else 1]
    total = sum(g[0] for g in fam.gen)
    chunk = 1200 if q else 3000
    done = 0
    while done < n and len(rep.violations) < 20:
        B = []
        for i in range(done, min(n, done + chunk)):
            share, opts, w = rng.choices(fam.gen, [g[0] for g in fam.gen])[0]
            g = Gen(rng, fam.sps[i % len(fam.sps)], **dict(opts, w=dict(w)))
            B.append(dev(g.scenario("r%d" % i, ntx=rng.choice(fam.ntx), marks=bool(fam.kinds))))
        done += len(B)
        exp = core.run_spec("Replay", B)
        run_batch(rep, fam, B, exp)
        if fam.kinds:
            V = []
            for s in B: V += probe.variants(rng, s, exp[s["id"]], fam.nvar[0 if q else 1], fam.kinds)
            del exp
            if V: run_batch(rep, fam, V, core.run_spec("Replay", V))

    # 4. transactions that fail for outside reasons, followed by others
    if fam.faults:
        from . import faultrun
        for i in range(fam.faults[0 if q else 1]):
            if not rep.violations: faultrun.histories(rep, rng, tags, 420, 8 if q else 40, i * 420, (2, 2, 3), faultrun.CALLS if rep.prop == "C35" else faultrun.OPT)

def replay(rep, rec):
    s = rec["scenario"]
    if any(t.get("fault") for t in s["txs"]):
        from . import faultrun
        return faultrun.replay(rep, rec)
    exp = core.run_spec("Replay", [dict(s, marks=False)])
    obs = core.run_impl("replay", [s])
    fam = txfam.FAMS[rep.prop]
    judge(rep, fam, [s], exp, obs)
