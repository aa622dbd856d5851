"""C25: the ordinary transaction checks, and deployments around the largest code (module Size)."""
from . import core, txcmp, txrun
from .scen import *

def scens(tier):
    S = []
    for sp in range(7):
        mc = 24576 if sp == 0 else 524288
        ns = {mc - 1, mc, mc + 1, mc + 31, mc // 2, 2 * mc if sp == 0 else 900_000}
        if sp: ns |= {24576, 24577, 49152, 262144, 400_000, 500_000, 524256}
        if tier == "thorough": ns |= {mc + d for d in range(-33, 34)} | set(range(mc // 16, mc, mc // 16))
        for n in sorted(ns):
            S.append(dict(scenario("z%d.%d" % (sp, n), sp, {"x0": [RETURN(n)]}, [tx(kind="create", b="x0", gas=2_000_000_000, price=0)]), n=n, nested=False))
            S.append(dict(scenario("y%d.%d" % (sp, n), sp, {"x0": [CREATE("x1", s=0)], "x1": [RETURN(n)]}, [tx(b="x0", gas=2_000_000_000, price=0)]), n=n, nested=True))
    return S

def gas_of(p): return 10000 * p[0] + p[1]
def pair(g): return [g // 10000, g % 10000]

def run(rep, S):
    exp = core.run_spec("Size", S)
    real = []
    for s in S:
        r = {k: v for k, v in s.items() if k not in ("n", "nested", "gp")}
        t = s["txs"][0]
        r["txs"] = [dict(t, gas=gas_of(s["gp"]))]
        r["modes"] = ["plain", "inspect"]
        r["names"] = ["A#1", "S0#5"]
        real.append(r)
    obs = core.run_impl("replay", real)
    for s in S:
        e, o = exp[s["id"]], obs[s["id"]]
        rep.traces += 1
        rep.kinds["%s%s" % (e["kind"], ":" + e["why"] if e["why"] else "")] += 1
        for md in ("plain", "inspect"):
            if md not in o or not isinstance(o[md], list):
                rep.violation("deployment %s: %s" % (s["id"], txrun.short(o)), {"size": s, "observed": o}); break
            x = o[md][0]
            new = "A#1" if s["nested"] else "S0#5"
            got = {"kind": x["res"]["kind"], "why": x["res"]["why"], "len": max([a[4] for a in x["world"]["acc"] if a[0] == new] or [0])}
            want = {k: e[k] for k in got}
            if e["gas"][0] != -1: got["gas"] = x["res"]["gas"]; want["gas"] = gas_of(e["gas"])
            rep.events += len(got)
            if got != want:
                rep.violation("deployment of %d bytes %s with gas limit %d (%s, %s run): %s, the specification says %s" % (s["n"], "by a contract" if s["nested"] else "by a transaction", gas_of(s["gp"]), s["id"], md,
                              txrun.short(got), txrun.short(want)), {"size": s, "observed": o, "expected": e}); break
    return exp

def check(rep):
    txrun.check(rep)
    tags = ["unitdep", "coldpre", "floor", "callgas", "latehalt", "depnonce"]
    S = [dict(s, gp=pair(9_900_000_000), dev=tags) for s in scens(rep.tier)]
    rep.exhaustive += len(S)
    exp = run(rep, S)
    # exactly the gas it takes, and one less
    V = []
    for s in S:
        e = exp[s["id"]]
        if s["nested"] or not e["len"]: continue
        for d in (-10000, -1, 0, 1):
            V.append(dict(s, id="%s%+d" % (s["id"], d), gp=pair(gas_of(e["gas"]) + d)))
    run(rep, V)

def replay(rep, rec):
    if "size" in rec: run(rep, [rec["size"]])
    else: txrun.replay(rep, rec)
