"""C15, C16, C18: histories of block building (spec/Block.tla) on the real block executor."""
import copy, json, os, random, re, shutil
from . import core, findings
from .scen import *
from .txrun import short

SYSLEN = {"orc1": 1278, "orc2": 2503, "tso": 1106, "kld": 515, "hist": 83, "beac": 97}
def SYSC(v): return {"t": "sysc", "len": SYSLEN[v], "to": v}
LIMS = ["txgas", "gas", "txsize", "size", "txda", "da", "txdata", "data", "txkv", "kv", "txcompute", "compute", "txgrowth", "growth", "env", "oracle"]
FORK_OF = {EQ: [[]], MINI: [[1], [1, 2, 3]], REX: [[1, 4]], REX1: [[1, 4, 5]], REX2: [[1, 5, 6]], REX3: [[1, 2, 3, 4, 5, 6, 7]], REX4: [[1, 4, 5, 6, 7, 8]]}

def step(o, t=0, s=0, c=False): return {"o": o, "t": t, "s": s, "c": c}
def blk(ts=10, gl=2_000_000_000, lim=None, bkt=None, root=1, ph=77):
    return {"ts": ts, "gl": gl, "lim": lim or {}, "bkt": bkt or {"-": 256}, "root": root, "ph": ph}
def sched(forks, t=0): return [t if f in forks else -1 for f in range(1, 9)]

def blockscen(base, sch, blocks, steps, free=0, **kw):
    s = dict(base, sch=sch, blocks=blocks, steps=steps, free=free, syslen=SYSLEN, num0=1000, sz=[], how=0, marks=False)
    s.update(kw)
    for t in s["txs"]:
        if t["typ"] == "deposit": t["nonce"] = 0
    return s

def sized(S):
    o = core.run_impl("blocksize", S)
    for s in S:
        s["sz"] = o[s["id"]]["out"]
        if "fee" in s and any(z[2] > 2500 for z in s["sz"]): s["fee"]["l1"] = 0
    return S

def signers(s):
    """authorities get accounts whose keys are known; those without lose their authorization's signature"""
    ren = {"F": "G1", "E": "G2", "S1": "G3", "D": "G4", "AU": "G5", "S0": "G6"}
    def f(x):
        if isinstance(x, str): return re.sub(r"^(%s)(?=$|[#/@])" % "|".join(ren), lambda m: ren[m[1]], x)
        if isinstance(x, list): return [f(y) for y in x]
        if isinstance(x, dict): return {f(k): f(v) for k, v in x.items()}
        return x
    s = f(s)
    for t in s["txs"]:
        for a in t["auth"]:
            if a["a"] not in ren.values(): a["a"] = ""
    return s

# -------------------------------------------------------------- generation
class BGen:
    def __init__(self, rng, sp, **opts):
        self.r, self.sp = rng, sp
        self.g = Gen(rng, sp, **dict(opts, wide=False, reads=["NUMBER", "COINBASE", "EXTCODEHASH", "EXTCODESIZE", "SELFBALANCE", "GASPRICE", "BLOCKHASH", "BLOBHASH"]))

    def scenario(self, id):
        r = self.r
        base = self.g.scenario(id, ntx=r.choice([2, 3, 4, 5]))
        base["nbk"] = [0] * len(base["txs"]); base["bkts"] = []
        if any(t["typ"] == "7702" for t in base["txs"]): base = signers(base)
        base.get("fee", {}).update(none=False, stored=True)
        nb = r.choice([1, 1, 2, 3])
        forks = r.choice(FORK_OF[self.sp])
        pre = r.random() < 0.4
        blocks = []
        ts = r.choice([10, 8191 * 3, 9000])
        for k in range(nb):
            bkt = dict(base["bkt"]) if k == 0 else {a: (c if r.random() < .5 else r.choice([256, 512, 1024])) for a, c in base["bkt"].items()}
            blocks.append(blk(ts, bkt=bkt, root=r.choice([0, 1, 5, 5, 5, -1]) if pre else 1, ph=r.choice([0, 3, 9])))
            ts += r.choice([0, 1, 12])
        steps, n = [], len(base["txs"])
        mode = r.choice(["plain", "plain", "inspect", "ways", "ways", "alloy"])
        order = list(range(1, n + 1))
        if r.random() < 0.3: r.shuffle(order)
        cut = sorted(r.randrange(n + 1) for _ in range(nb - 1)) + [n]
        j = 0
        for k in range(nb):
            steps.append(step("open"))
            if pre and r.random() < .9: steps.append(step("pre"))
            for t in order[j:cut[k]]:
                x = r.uniform(.55, 1) if mode == "alloy" else r.random()
                if x < .45:
                    steps += [step("run", t, t), step("commit", 0, t, True)]
                elif x < .55: steps.append(step("run", t, t))
                elif x < .9: steps.append(step("exec", t, 0, True))
                else: steps.append(step("exec", t, 0, False))
                if r.random() < .15: steps.append(step("exec", r.choice(order), 0, True))
            j = cut[k]
            steps.append(step("done"))
        if pre:
            if r.random() < .8: base["acc"]["HIST"] = acc(0, 1, SYSC("hist"))
            if r.random() < .8: base["acc"]["BEAC"] = acc(0, 1, SYSC("beac"))
        return blockscen(base, sched(forks), blocks, steps, how=r.randrange(4), modes=["plain"] + [m for m in (mode,) if m != "plain"])

def stale(rng, id, sp, **kw):
    """Disjoint transactions whose outcomes can be committed in any order."""
    r = rng
    names = ["A", "B", "C", "G"][:r.choice([2, 3, 4])]
    accs = {"G": acc(0, 1, CODE)}
    code, txs = {}, []
    for j, a in enumerate(names):
        accs["S%d" % j] = acc(50_000_000, j)
        ops = [r.choice([SSTORE(r.randrange(3), r.choice([0, 1, 2])), LOG(r.randrange(3), r.choice([0, 1, 40])), BURN(r.choice([5, 60])), SLOAD(1), REVERT(0)]) for _ in range(r.randrange(1, 4))]
        code["x%d" % j] = ops
        txs.append(tx(frm="S%d" % j, to=a, b="x%d" % j, v=r.choice([0, 3]), price=0, gas=r.choice([3_000_000, 9_000_000]), nz=2, z=r.choice([30, 60])))
        if r.random() < .25: txs[-1].update(typ="deposit", mint=r.choice([0, 4]))
    base = scenario(id, sp, code, txs, accs, [[a, 1, 1] for a in names if r.random() < .5])
    steps = [step("open")]
    pend = []
    for t in r.sample(range(1, len(txs) + 1), len(txs)):
        steps.append(step("run", t, t)); pend.append(t)
        while pend and r.random() < .5:
            steps.append(step("commit", 0, pend.pop(r.randrange(len(pend))), True))
    r.shuffle(pend)
    for t in pend:
        if r.random() < .8: steps.append(step("commit", 0, t, True))
    steps.append(step("done"))
    return blockscen(base, sched(r.choice(FORK_OF[sp])), [blk()], steps, **kw)

def near(r, v): return max(0, v + r.choice([-1, 0, 0, 1, -2]))

def variants(rng, s, out, n):
    """the same history with limits placed on the totals it reaches"""
    res = []
    pts = [x["u"] for x in out]
    for j in range(n):
        t = copy.deepcopy(s); t["id"] = "%s.%d" % (s["id"], j)
        b = rng.choice(t["blocks"])
        for k in rng.sample(["gas", "size", "da", "data", "kv", "compute", "growth", "txgas", "txsize", "txda", "txdata", "txkv", "txcompute"], rng.choice([1, 1, 2, 3])):
            if k == "gas":
                u = rng.choice(pts)["gas"]; g = rng.choice(t["txs"])["gas"]
                b["gl"] = min(BIG - 1, near(rng, rng.choice([u, u + g, g])))
            elif k in ("size", "da"):
                i = 0 if k == "size" else 1
                b["lim"][k] = near(rng, rng.choice([rng.choice(pts)[k], rng.choice(pts)[k] + rng.choice(t["sz"])[i]]))
            elif k == "txgas": b["lim"][k] = near(rng, rng.choice(t["txs"])["gas"])
            elif k == "txsize": b["lim"][k] = near(rng, rng.choice(t["sz"])[0])
            elif k == "txda": b["lim"][k] = near(rng, rng.choice(t["sz"])[1])
            elif k in ("txdata", "txkv", "txcompute"):
                us = [x["d"][0]["use"] for x in out if x["d"] and isinstance(x["d"][0], dict) and "use" in x["d"][0]]
                b["lim"][k] = near(rng, rng.choice(us)[k[2:]]) if us else rng.choice({"txdata": [250, 300, 400, 600, 5000], "txkv": [1, 2, 3, 4, 20], "txcompute": [25_000, 40_000, 200_000]}[k])
            else: b["lim"][k] = near(rng, rng.choice(pts)[k])
        if any(x["o"] == "pre" for x in t["steps"]):
            # system calls run under the transaction limits too; what happens when those are too small even for them is left open
            for k, v in (("txcompute", 200_000), ("txdata", 5000), ("txkv", 20)):
                if b["lim"].get(k, BIG) < v: del b["lim"][k]
        res.append(t)
    return res

# -------------------------------------------------------------- comparing
def norm(x):
    """sets come in any order"""
    x = json.loads(json.dumps(x))
    for o in x:
        o.pop("n", None)
        for d in o["d"]:
            if isinstance(d, dict):
                for k in ("seen", "hashes"):
                    if k in d: d[k] = sorted(d[k] or [])
                if "world" in d: d["world"] = {"acc": sorted(d["world"]["acc"] or []), "st": sorted(d["world"]["st"] or [])}
                for k in ("rec", "hook"):
                    if k in d: d[k] = d[k] or []
                if "rec" in d:
                    for q in d["rec"]: q["logs"] = q["logs"] or []
        if o["d"] and isinstance(o["d"][0], list): o["d"] = [sorted(o["d"][0])]
    return x

def names_of(out):
    s = set()
    for o in out:
        for d in o["d"]:
            if isinstance(d, dict) and "world" in d:
                for a in d["world"]["acc"]: s.add(a[0]); s.add(a[5])
                for a in d["world"]["st"]: s.add(a[0])
                for b in d["seen"]: s.add(b.split("/")[0])
                for q in d["rec"]:
                    for l in q["logs"]: s.add(l[0])
    return sorted(s - {"-"} - set(SYSLEN))

def facts(o, st):
    """single observations of a step by owner"""
    f = {("C15", "r"): o["r"], ("C16", "r"): o["r"], ("C30", "r"): o["r"]}
    if "u" in o: f.update({("C15", "full"): o["full"], ("C16", "u"): o["u"], ("C30", "u"): o["u"]})
    if st["o"] == "pre": f["C18", "r"] = o["r"]; f["C18", "data"] = o["d"]
    elif st["o"] == "done":
        d = o["d"][0]
        for k in ("rec", "gas"): f["C16", k] = d[k]
        f["C15", "rec"] = d["rec"]
        f["C30", "rec"] = d["rec"]; f["C30", "hook"] = d["hook"]
        for p in ("C15", "C16", "C18", "C30"): f[p, "acc"] = d["world"]["acc"]; f[p, "st"] = d["world"]["st"]
        f["C18", "hook"] = d["hook"]; f["C16", "hook"] = [x for x in d["hook"] if x[0] == "tx"]
        if "seen" in d: f["C16", "seen"] = [d["seen"], d["hashes"]]
    else:
        for p in ("C15", "C16", "C30"): f[p, "d"] = o["d"]
    return f

def judge(rep, S, exp, obs, limit=20):
    for s in S:
        e = norm(exp[s["id"]]); o = obs[s["id"]]
        rep.traces += 1
        for x in e: rep.kinds[x["r"][0] if x["r"] else "ok"] += 1
        if len(rep.violations) >= limit: continue
        for mode in s["modes"]:
            if mode not in o or isinstance(o[mode], dict):
                rep.violation("block history %s (%s run): %s" % (s["id"], mode, short(o.get(mode, o))), {"block": s, "expected": e, "observed": o}); break
            y = norm(o[mode])
            bad = None
            if len(y) != len(e): raise core.ToolError("block history %s: %d steps observed, %d expected" % (s["id"], len(y), len(e)))
            for k, (a, b) in enumerate(zip(e, y)):
                fa, fb = facts(a, s["steps"][k]), facts(b, s["steps"][k])
                for q in fa:
                    if q[0] != rep.prop or (mode == "alloy" and q[1] in ("full", "u", "seen")): continue  # (alloy's interface does not show these)
                    rep.events += 1
                    if fa[q] != fb.get(q): bad = (k, q[1], fa[q], fb.get(q)); break
                if bad: break
            if bad:
                k, q, x, z = bad
                if q in ("acc", "st"): x, z = [i for i in x if i not in z], [i for i in z if i not in x]
                rep.violation("block history %s (%s run), step %d (%s): %s is %s, the specification says %s" % (s["id"], mode, k, json.dumps(s["steps"][k]), q, short(z, 300), short(x, 300)),
                              {"block": s, "mode": mode, "expected": e, "observed": y})
                break

def spec(S):
    exp = {}
    d = core.workdir()
    try:
        p = os.path.join(d, "s.ndjson"); core.write_ndjson(p, S)
        rows = core.exp_lines(core.tlc("Block", envs={"SCEN": p}))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    for r in rows: exp[r["id"]] = r["out"]
    miss = [s["id"] for s in S if s["id"] not in exp]
    if miss: raise core.ToolError("TLC gave no outcome for %s" % miss[:5])
    return exp

def run_batch(rep, S, exp):
    for s in S:
        s["names"] = names_of(exp[s["id"]])
    judge(rep, S, exp, core.run_impl("block", S))
    if S:
        s = S[len(S) // 2]
        rep.sample({"id": s["id"], "schedule": s["sch"], "blocks": s["blocks"], "steps": s["steps"], "observed": [x["r"] or "ok" for x in exp[s["id"]]]})

def explore(rep, cfgs):
    """every sequence of steps of the configurations"""
    d = core.workdir()
    try:
        p = os.path.join(d, "s.ndjson"); core.write_ndjson(p, cfgs)
        rows = core.exp_lines(core.tlc("Block", envs={"SCEN": p}))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    by = {c["id"]: c for c in cfgs}
    rows.sort(key=lambda r: (r["id"], json.dumps(r["steps"])))
    S, exp = [], {}
    for n, r in enumerate(rows):
        s = dict(by[r["id"]], id="%s~%d" % (r["id"], n), steps=r["steps"], free=0)
        S.append(s); exp[s["id"]] = r["out"]
    rep.exhaustive += len(S)
    run_batch(rep, S, exp)

# ------------------------------------------------------------ C18: chains
PRE = {
 "ORC": [None, acc(7, 0), acc(0, 1, RAW(3)), acc(5, 1, SYSC("orc1")), acc(0, 0, SYSC("orc2")), acc(0, 0, SYSC("orc1")), acc(3, 2, SYSC("tso"))],
 "TSO": [None, acc(7, 0), acc(0, 0, SYSC("tso")), acc(0, 1, SYSC("orc1")), acc(2, 1, RAW(40))],
 "KLD": [None, acc(1, 0), acc(0, 0, SYSC("kld")), acc(0, 1, RAW(5)), acc(0, 0, SYSC("orc2"))],
}
def chain(id, pre, st, sch, times, rng=None, root=5, num0=1000, how=0):
    accs = {a: x for a, x in pre.items() if x}
    if rng and rng.random() < .5: accs["HIST"] = acc(0, 1, SYSC("hist"))
    if rng and rng.random() < .5: accs["BEAC"] = acc(0, 1, SYSC("beac"))
    txs = [tx(to="F", b="-", v=1, price=0, gas=3_000_000), tx(to="A", b="x0", price=0, gas=3_000_000)]
    base = scenario(id, EQ, {"x0": [SSTORE(0, 1)], "-": []}, txs, accs, st)
    blocks, steps = [], []
    for k, t in enumerate(times):
        blocks.append(blk(t, root=0 if num0 + k == 0 else root, ph=3 + k))
        steps += [step("open"), step("pre")]
        # (op-revm has no fee data for transactions in a block numbered 0)
        if k == 0 and num0: steps += [step("run", 1, 1), step("commit", 0, 1, True)]
        if k == len(times) - 1: steps += [step("exec", 2, 0, True)]
        steps.append(step("done"))
    return blockscen(base, sch, blocks, steps, num0=num0, how=how, modes=["plain"])

def chains(tier, rng):
    S = []
    # every pre-state of each address alone, crossing MiniRex and REX2 in every relative position
    for a, xs in PRE.items():
        for i, x in enumerate(xs):
            for m in (-1, 1, 2):
                for r2 in (-1, 1, 2, 3):
                    st = [[a, 0, 9], [a, 5, 8]] if x and (i + m + r2) % 2 else []
                    S.append(chain("c-%s-%d-%d-%d" % (a, i, m, r2), {a: x}, st, [m, -1, -1, -1, -1, r2, -1, -1], [1, 2, 3, 3], how=i % 4))
    n = 250 if tier == "quick" else 4000
    for j in range(n):
        pre = {a: rng.choice(xs) for a, xs in PRE.items()}
        st = [[a, rng.randrange(4), rng.randrange(1, 9)] for a in PRE if pre[a] and rng.random() < .5]
        sch = [rng.choice([-2, -1, 0, 1, 2, 3, 5]) for _ in range(8)]
        t, times = rng.choice([0, 1]), []
        for _ in range(rng.choice([2, 3, 5])):
            times.append(t); t += rng.choice([0, 1, 1, 2])
        S.append(chain("c%d" % j, pre, st, sch, times, rng, root=rng.choice([0, 5, -1 if rng.random() < .2 else 6]), num0=rng.choice([0, 1, 1000, 8191 * 2]), how=j % 4))
    return S

def free(id, sp, n, lim=None, gl=2_000_000_000):
    """every order of executing and committing three or four disjoint transactions"""
    names = ["A", "B", "C"]
    accs, code, txs = {}, {}, []
    for j, a in enumerate(names):
        accs["S%d" % j] = acc(50_000_000, j)
        code["x%d" % j] = [[SSTORE(0, 1), LOG(1, 8)], [SSTORE(1, 2), SSTORE(2, 2)], [BURN(60), REVERT(0)]][j]
        txs.append(tx(frm="S%d" % j, to=a, b="x%d" % j, price=0, gas=3_000_000, z=30 + 10 * j, typ="deposit" if j == 1 else "legacy"))
    base = scenario(id, sp, code, txs, accs)
    return blockscen(base, sched(FORK_OF[sp][0]), [blk(gl=gl, lim=lim)], [], free=n, modes=["plain"])

def check(rep):
    rng = random.Random("%s/%s/%d" % (rep.prop, rep.tier, rep.seed))
    q = rep.tier == "quick"
    tags, _ = findings.calibrate(rep, blocks=True)
    for p, t, text in findings.listed():
        if p == rep.prop and t in tags: rep.known.append("KNOWN-FINDING: property=%s %s" % (p, text))
    def go(S):
        for s in S: s["dev"] = list(tags)
        sized(S)
        exp = spec(S)
        run_batch(rep, S, exp)
        return exp
    if rep.prop == "C18":
        S = [findings.block_demo(t) for t in findings.BLOCK] + chains(rep.tier, rng)
        for i in range(0, len(S), 1000): go(S[i:i + 1000])
        S = [BGen(rng, i % 7).scenario("g%d" % i) for i in range(60 if q else 2000)]
        go([s for s in S if any(x["o"] == "pre" for x in s["steps"])])
        return
    # every order of offering and committing, with the limits on the totals some orders reach
    F = [free("f%d" % sp, sp, 3) for sp in ((EQ, REX3) if q else range(7))]
    for s in F: s["dev"] = list(tags)
    sized(F)
    explore(rep, F)
    base = F[-1]
    script = dict(base, id="b", free=0, steps=[step("open")] + [step("exec", t, 0, True) for t in (1, 2, 3)] + [step("done")])
    pts = [x["u"] for x in spec([script])["b"]]
    if rep.violations: return
    G = []
    for k in ("size", "da", "data", "kv", "compute", "growth"):
        for d in (0, 1):
            v = pts[2][k] + (base["sz"][2][0 if k == "size" else 1] if k in ("size", "da") else 0) - d
            if v >= 0: G.append(dict(base, id="l-%s%d" % (k, d), blocks=[blk(lim={k: v})]))
    for d in (0, 1): G.append(dict(base, id="l-gas%d" % d, blocks=[blk(gl=pts[2]["gas"] + 3_000_000 - d)]))
    explore(rep, G if not q else rng.sample(G, 5))
    n, chunk, done = (240 if q else 6000), 400, 0
    while done < n and len(rep.violations) < 10:
        S = []
        for i in range(done, min(n, done + chunk)):
            sp = i % 7
            if i % 3 == 0: S.append(stale(rng, "s%d" % i, sp, modes=[rng.choice(["plain", "ways"])]))
            else: S.append(BGen(rng, sp, **rng.choice([dict(deps=True, bad=True), dict(deps=True), dict(delegs=True), dict(orc=True, hints=True, sys=True), dict(auths=True, deps=True), dict(fees=True, deps=True, bad=True), dict(fees=True, auths=True)])).scenario("g%d" % i))
            if any(t["to"] == "ORC" or t["from"] == "SYS" for t in S[-1]["txs"]) or "ORC" in S[-1]["acc"]:
                S[-1]["steps"] = [x for x in S[-1]["steps"] if x["o"] != "pre"]
        done += len(S)
        exp = go(S)
        V = []
        for s in S: V += variants(rng, s, exp[s["id"]], 4 if q else 6)
        go(V)

def faults(rep, rng, tags, n, per):
    """C30: a block step meets a failing database or environment, and is tried again or given up"""
    S = []
    for i in range(n):
        # (before REX1 a detention outlives the transaction that caused it, however it ended)
        s = BGen(rng, rng.choice([EQ, REX1, REX2, REX3, REX3]), **rng.choice([dict(deps=True), dict(delegs=True), dict(auths=True), dict(fees=True, deps=True), dict(orc=True)])).scenario("bf%d" % i)
        s["modes"] = [rng.choice(["plain", "inspect", "ways"] if any(x["o"] in ("run", "commit") for x in s["steps"]) else ["plain", "inspect", "ways", "alloy"])]
        s["dev"] = list(tags)
        if any(t["to"] == "ORC" or t["from"] == "SYS" for t in s["txs"]) or "ORC" in s["acc"]: s["steps"] = [x for x in s["steps"] if x["o"] != "pre"]
        S.append(s)
    sized(S)
    exp = spec(S)
    for s in S: s["names"] = names_of(exp[s["id"]])
    obs = core.run_impl("block", S)
    probe = type(rep)("C16", rep.tier, rep.seed)
    F = []
    for s in S:
        m = s["modes"][0]
        o = obs[s["id"]].get(m)
        if not isinstance(o, list): rep.violation("block history %s (%s run): %s" % (s["id"], m, short(obs[s["id"]])), {"block": s, "expected": exp[s["id"]], "observed": obs[s["id"]]}); continue
        v = len(probe.violations); judge(probe, [s], exp, obs, 10 ** 6)
        if len(probe.violations) > v: continue  # (other properties speak)
        for j, st in enumerate(s["steps"]):
            k = o[j].get("n", 0)
            if st["o"] not in ("pre", "run", "exec") or not k: continue
            for a in (range(1, k + 1) if k <= per or st["o"] == "pre" else rng.sample(range(1, k + 1), per)):
              for again in ((True, False) if st["o"] == "pre" else (rng.random() < .7,)):
                f = dict(s, id="%s.%d%s@%d" % (s["id"], j, "" if again else "-", a), steps=s["steps"][:j] + [dict(st, f=-a if rng.random() < .2 else a)] + s["steps"][j if again else j + 1:])
                F.append(f)
    # the specification's answer to a fault does not depend on its position: once per step
    R = {}
    for f in F: R.setdefault(f["id"].split("@")[0], f)
    fe = {}
    reps = list(R.values())
    for i in range(0, len(reps), 800): fe.update(spec(reps[i:i + 800]))
    ex = {f["id"]: fe[R[f["id"].split("@")[0]]["id"]] for f in F}
    for f in F: f["names"] = names_of(ex[f["id"]])
    judge(rep, F, ex, core.run_impl("block", F))
    rep.notes["block_faults_injected"] = rep.notes.get("block_faults_injected", 0) + len(F)

def replay(rep, rec):
    s = rec["block"]
    exp = spec([s])
    judge(rep, [s], exp, core.run_impl("block", [s]))
