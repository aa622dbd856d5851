"""C26: precompiled contracts (spec/MegaPre.tla) called by transactions and by programs, on every spec."""
import random
from . import core, findings, probe, txcmp, txfam, txrun
from .prein import *
from .scen import *

FAM = txfam.Fam(["kind", "why", "limit", "actual", "gas", "ref", "out", "logs", "cg", "ds", "kv", "gr", "acc", "st"], modes=("plain", "inspect", "op"),
                pairs=(("plain", "inspect"), ("plain", "op")))
SPS = [EQ, MINI, REX, REX1, REX2, REX3, REX4]

def top(p, h, sp, over, **kw):
    """a transaction straight to p, with `over' more gas than the call should need"""
    t = tx(to=p, b="-", gas=0, **kw)
    d = h[3]
    raw = bytes.fromhex(d["hex"])
    t["nz"] = sum(1 for x in raw if x); t["z"] = d["n"] - t["nz"]
    t["hint"] = h
    tok = t["z"] + 4 * t["nz"]
    ini = 21000 + 4 * tok + (40 * tok if sp >= MINI else 0) + (39000 if sp >= REX else 0)
    floor = 21000 + 10 * tok + (100 * tok if sp >= MINI else 0)
    t["gas"] = max(ini + price(sp, p, d) + over, floor)
    return t

def PCALL(p, h, **kw): return dict(CALL(p, **kw), hint=h, n=h[3]["n"])

def directed(tier):
    S = []
    q = tier == "quick"
    for sp in SPS:
        for p in ALL + ["DYN"]:
            dyn = {"dyn": True} if p == "DYN" else {}
            hs = inputs(p)
            for j, h in enumerate(hs):
                P_ = price(sp, p, h[3])
                if P_ > 300_000_000: continue
                # straight
                for over in (-1, 0, 50_000):
                    if over != 0 and (j + sp) % 3 and q and p != "P5": continue
                    S.append(scenario("t%d-%s-%d-%d" % (sp, p, j, over), sp, {"x0": [STOP]}, [top(p, h, sp, over, price=0)], **dyn))
                # from a program, at exact amounts of gas
                if h[3]["n"] > 3000: continue
                if q and p == "P5" and (j + sp) % 4: continue
                ks = ["CALL", "STATICCALL", "DELEGATECALL", "CALLCODE"]
                ops = []
                for i, g in enumerate((P_ - 1, P_, P_ + 1, -1)):
                    if g < -1: continue
                    ops += [PCALL(p, h, t=ks[(i + j + sp) % 4], g=g, s=10 + i), PL("RETURNDATASIZE", 0, 20 + i), GASST(30 + i)]
                S.append(scenario("p%d-%s-%d" % (sp, p, j), sp, {"x0": ops}, [tx(to="A", b="x0", gas=2_000_000_000, price=0)], **dyn))
                # with value (the precompile's account comes into being), around the stipend
                if j < 2:
                    for have in (0, 5):
                        ops = [PCALL(p, h, g=max(0, P_ - 2300 + i), v=3, s=10 + i, t=t) for i, t in ((0, "CALL"), (-1, "CALL"), (1, "CALLCODE"))] + [GASST(1), BALST(2, p)]
                        S.append(scenario("v%d-%s-%d-%d" % (sp, p, j, have), sp, {"x0": ops}, [tx(to="A", b="x0", gas=100_000_000, price=0), top(p, h, sp, 30_000_000, price=0, v=2)], accs={p: acc(have)}, **dyn))
                # the compute gas limit is met by the precompile's gas
                if sp >= MINI and not dyn and 0 < P_ < 10_000_000 and (j < 3 or not q):
                    base = scenario("l%d-%s-%d" % (sp, p, j), sp, {"x0": [PCALL(p, h, s=1), SSTORE(2, 7)]}, [tx(to="A", b="x0", gas=50_000_000, price=0)], marks=True)
                    S.append(base)
        # the operator's replacement of P3, next to the others
        for h in inputs("DYN"):
            S.append(scenario("y%d-%d" % (sp, len(S)), sp, {"x0": [PCALL("P3", h, s=1, g=777), PL("RETURNDATASIZE", 0, 2), PCALL("P2", h, s=3, g=777), PCALL("DYN", h, s=4, g=776), ACC("BALANCE", "DYN"), CALL("DYN", v=1, s=5), GASST(6)]},
                              [tx(to="A", b="x0", gas=20_000_000, price=0), top("P3", h, sp, 50_000, price=0), tx(to="A", b="x0", gas=20_000_000, price=0)], dyn=True))
        # inputs too long for the chain
        for p, (mx, unit) in LONG.items():
            if q and (sp not in (EQ, MINI, REX4)): continue
            for n in (mx // unit * unit, mx, mx + 1, (mx // unit + 1) * unit):
                if n // unit * (34000 if p == "P8" else 1) > 1 << 30: continue
                h = pi(b"", n=n)
                ops = [MEM((1024 + n + 31) // 32), PCALL(p, h, s=1), PL("RETURNDATASIZE", 0, 2), GASST(3)]
                S.append(scenario("z%d-%s-%d" % (sp, p, n), sp, {"x0": ops}, [tx(to="A", b="x0", gas=2_000_000_000, price=0)]))
    return S

def randoms(rng, n, tag):
    S = []
    pool = {p: inputs(p) for p in ALL}
    for i in range(n):
        sp = SPS[i % 7]
        p5 = modexps(rng, 4)
        ops = []
        for j in range(rng.randrange(1, 6)):
            p = rng.choice(ALL + ["P5"] * 10)
            h = rng.choice(p5) if p == "P5" else rng.choice(pool[p])
            P_ = price(sp, p, h[3])
            g = rng.choice([-1, P_, P_, P_ - 1, P_ + 1, P_ // 2, BIG])
            ops.append(PCALL(p, h, t=rng.choice(["CALL", "STATICCALL", "DELEGATECALL", "CALLCODE"]), g=max(g, -1), s=10 + j, v=rng.choice([0, 0, 0, 1])))
            if rng.random() < .5: ops.append(PL("RETURNDATASIZE", 0, 30 + j))
        ops.append(GASST(1))
        code = {"x0": ops[:3] + [CALL("B", "x1", t=rng.choice(["CALL", "DELEGATECALL"]), g=rng.choice([-1, 60_000, 700_000]), s=2), PL("RETURNDATASIZE", 0, 3)], "x1": ops[3:] + rng.choice([[], [REVERT(7)], [RETURN(40)], [INVALID]])}
        txs = [tx(to="A", b="x0", gas=rng.choice([300_000, 1_000_000, 30_000_000]), price=0)]
        if rng.random() < .5:
            p = rng.choice(["P5", rng.choice(ALL)])
            h = rng.choice(p5) if p == "P5" else rng.choice(pool[p])
            if price(sp, p, h[3]) < 1_000_000_000: txs.append(top(p, h, sp, rng.choice([-1, 0, 1, 10000]), price=0, v=rng.choice([0, 0, 1])))
        S.append(scenario("%s%d" % (tag, i), sp, code, txs, marks=True))
    return S

def check(rep):
    rng = random.Random("%s/%s/%d" % (rep.prop, rep.tier, rep.seed))
    q = rep.tier == "quick"
    tags, bad = findings.calibrate(rep)
    def go(S):
        S = [dict(s, dev=list(tags)) for s in S]
        exp = core.run_spec("Replay", S)
        for s in S: s["modes0"] = [m for m in FAM.modes if m != "op" or (s["sp"] == EQ and not s.get("dyn"))]
        run(rep, S, exp)
        V = []
        for s in S:
            if s["marks"]: V += probe.variants(rng, s, exp[s["id"]], 2 if q else 6, ("c", "gas"))
        if V: run(rep, V, core.run_spec("Replay", V))
    S = directed(rep.tier)
    rep.exhaustive += len(S)
    go(S)
    n, done = (1400, 0) if q else (20000, 0)
    while done < n and len(rep.violations) < 20:
        go(randoms(rng, min(2000, n - done), "r%d-" % done))
        done += 2000

def run(rep, S, exp):
    for s in S:
        s["names"] = txcmp.names_of(exp[s["id"]])
        s["modes"] = s.get("modes0") or [m for m in FAM.modes if m != "op" or (s["sp"] == EQ and not s.get("dyn"))]
    txrun.judge(rep, FAM, S, exp, core.run_impl("replay", S))
    s = S[len(S) // 2]
    rep.sample({"id": s["id"], "spec": s["sp"], "txs": s["txs"][:2], "outcome": [x["res"] for x in exp[s["id"]]]})

def replay(rep, rec):
    s = rec["scenario"]
    txrun.judge(rep, FAM, [s], core.run_spec("Replay", [dict(s, marks=False)]), core.run_impl("replay", [s]))
