"""C33: the state test runner.  Histories of the transaction specification become state test files, true ones and ones that
state something else; TLC (spec/Suite.tla) says how each must be judged, and (spec/Pool.tla) how a run over many files may end."""
import json, os, random, re, shutil, subprocess
from concurrent.futures import ThreadPoolExecutor
from . import core, findings, txcmp
from .scen import *
from .txrun import short

ETH = ["Frontier", "FrontierToHomesteadAt5", "Homestead", "HomesteadToDaoAt5", "HomesteadToEIP150At5", "EIP150", "EIP158", "EIP158ToByzantiumAt5", "Byzantium",
       "ByzantiumToConstantinopleAt5", "ByzantiumToConstantinopleFixAt5", "Constantinople", "ConstantinopleFix", "Istanbul", "Berlin", "BerlinToLondonAt5", "London", "Paris",
       "Merge", "Shanghai", "Cancun", "Prague", "Osaka", "MiniRex"]
TYPES = {"legacy": 0, "2930": 1, "1559": 2, "7702": 4}
SAME = ["kind", "gas", "ref", "out", "logs", "acc", "st"]
NAME = re.compile(r"(?<![A-Za-z0-9_])(S0|S1|AU|F|E)(?![A-Za-z0-9_])")
KEYED = {"S0": "G1", "S1": "G2", "F": "G3", "AU": "G4", "E": "G5"}

def plan(rng, id, tags):
    """a unit: a history and the variants of its transaction"""
    sp = rng.choice((EQ, EQ, MINI))
    g = Gen(rng, sp, **rng.choice([{}, {}, dict(auths=True), dict(auths=True), dict(bad=True), dict(fees=True), dict(fees=True, auths=True), dict(delegs=True)]))
    s = g.scenario(id, ntx=1, lazy=False, hollow=False)
    s.update(bkt={"-": 256}, orc=[], bkts=[], dev=list(tags))
    if "fee" in s: s["fee"].update(l1=0, ops=0, opc=0, none=False, stored=False)
    t = s["txs"][0]
    if t["from"] == "F" and rng.random() < .5: t["from"] = "S0"
    t["auth"] = [a if a["a"] in ("S0", "S1", "F", "AU", "E", "") else dict(a, a="F") for a in t["auth"]]
    if t["typ"] in ("1559", "7702"): t.setdefault("tip", t["price"])
    s = json.loads(NAME.sub(lambda m: KEYED[m.group()], json.dumps(s)))
    t = s["txs"][0]
    D = [{k: t[k] for k in ("b", "nz", "z", "al")}]
    for _ in range(rng.choice((0, 0, 1, 2))):
        d = dict(D[0])
        if t["kind"] == "create": d["b"] = "x%d" % rng.choice(g.initb)
        elif t["nz"] >= 2 and t["z"] >= 30:
            d["b"] = "x%d" % rng.choice(g.callb)
            if rng.random() < .3: d["nz"] += rng.choice([1, 40]); d["z"] += rng.choice([0, 7])
        if t["typ"] != "legacy" and rng.random() < .5: d["al"] = [[rng.choice(["A", "B", "G5"]), rng.sample(range(4), rng.randrange(3))] for _ in range(rng.randrange(3))]
        D.append(d)
    G = [t["gas"]] + [rng.choice([21000, 60000, 150_000, 700_000, t["gas"] + 1, t["gas"] // 2]) for _ in range(rng.choice((0, 0, 1)))]
    V = [t["v"]] + [rng.choice([0, 1, 77, 1000]) for _ in range(rng.choice((0, 0, 1)))]
    u = {"id": id, "s": s, "D": D, "G": G, "V": V, "chain": rng.choice((None, 6342, 9)), "given": rng.random() < .5,
         "sender": "given" if not t["from"].startswith("G") else rng.choice(("given", "given", "other", "key", "key"))}
    if rng.random() < .04 and t["from"].startswith("G"): u["sender"] = "bad"
    if not u["given"]:
        # the kind of transaction follows from the fields
        u["lists"] = [None if t["typ"] == "legacy" or (t["typ"] == "2930" and not d["al"] and rng.random() < .3) else d["al"] for d in D]
        if t["typ"] == "7702" and not t["auth"]: u["given"] = True
    u["noto"] = t["typ"] == "7702" and not u["given"] and rng.random() < .1
    forks = set(rng.sample(ETH, rng.choice((1, 1, 2)))) | ({"MiniRex"} if rng.random() < .6 else set())
    u["forks"] = []
    for f in sorted(forks, key=ETH.index):
        cases = [(d, x, v) for d in range(len(D)) for x in range(len(G)) for v in range(len(V))]
        rng.shuffle(cases)
        u["forks"].append({"fork": f, "cases": cases[:rng.choice((1, 1, 2, 3))]})
    return u

def typ_of(u, d):
    t = u["s"]["txs"][0]
    if u["given"]: return t["typ"]
    if t["typ"] in ("1559", "7702"): return t["typ"]
    return "2930" if u["lists"][d] is not None else "legacy"

def variants(u):
    """the history of each test"""
    for f in u["forks"]:
        for n, (d, x, v) in enumerate(f["cases"]):
            s = json.loads(json.dumps(u["s"]))
            s["id"] = "%s.%s.%d" % (u["id"], f["fork"], n)
            s["sp"] = MINI if f["fork"] == "MiniRex" else EQ
            t = s["txs"][0]
            t.update(u["D"][d], gas=u["G"][x], v=u["V"][v], typ=typ_of(u, d))
            if t["typ"] == "legacy": t["al"] = []
            yield f, n, (d, x, v), s

def flip(rng, h):
    """another number of the same length"""
    k = rng.randrange(2, len(h))
    return h[:k] + "%x" % (int(h[k], 16) ^ (1 << rng.randrange(4))) + h[k + 1:]

def unit(rng, u, exp, fx):
    """(JSON of the unit, what the specification of the runner needs to know) or None"""
    tests, first, any_ = {}, None, None
    t0 = u["s"]["txs"][0]
    D, G, V = {}, {}, {}
    rows = []
    for f, n, (d, x, v), s in variants(u):
        e, o = exp[s["id"]], fx[s["id"]]
        if "obs" not in o or txcmp.diff_tx(s["sp"], e[0], o["obs"], SAME): return None
        D[d] = o["data"]; G[x] = o["gas"]; V[v] = o["value"]
        first = first or o
        rows.append((f["fork"], n, (d, x, v), s, e[0]["res"], o))
    for k in range(len(u["D"])): D.setdefault(k, "0x00")
    for k in range(len(u["G"])): G.setdefault(k, "0x7a120")
    for k in range(len(u["V"])): V.setdefault(k, "0x0")
    o = first
    env = {"currentCoinbase": o["env"]["coinbase"], "currentDifficulty": rng.choice(["0x0", "0x20000"]), "currentGasLimit": o["env"]["gas"], "currentNumber": o["env"]["number"],
           "currentTimestamp": o["env"]["time"], "currentBaseFee": o["env"]["base"], "currentRandom": o["env"]["random"]}
    if u["chain"]: env["currentChainID"] = hex(u["chain"])
    if o["env"]["base"] == "0x0" and rng.random() < .3: del env["currentBaseFee"]
    tx = {"data": [D[k] for k in sorted(D)], "gasLimit": [G[k] for k in sorted(G)], "value": [V[k] for k in sorted(V)], "nonce": o["nonce"], "to": o["to"],
          "secretKey": {"given": o["key"] or "0x" + "45" * 32, "key": o["key"], "other": rng.choice(["0x" + "45" * 32, "0x" + "00" * 32]), "bad": rng.choice(["0x" + "00" * 32, "0x" + "ff" * 32])}[u["sender"]]}
    if u["sender"] in ("given", "other"): tx["sender"] = o["from"]
    if u["noto"]: tx["to"] = ""
    if not tx["to"] and rng.random() < .5: del tx["to"]
    if t0["typ"] in ("1559", "7702"): tx["maxFeePerGas"] = o["price"]; tx["maxPriorityFeePerGas"] = o["tip"]
    else: tx["gasPrice"] = o["price"]
    als = {c[0]: q["al"] for _, _, c, _, _, q in rows}
    if u["given"]:
        tx["type"] = TYPES[t0["typ"]]
        if t0["typ"] != "legacy": tx["accessLists"] = [als.get(k, []) for k in range(len(u["D"]))]
    elif any(a is not None for a in u["lists"]) or rng.random() < .3:
        tx["accessLists"] = [None if a is None else als.get(k, []) for k, a in enumerate(u["lists"])]
    if t0["auth"]:
        tx["authorizationList"] = [dict(a) for a in o["auth"]]
        for a in tx["authorizationList"]:
            how = rng.randrange(3)
            if how: a["v"] = a["yParity"]
            if how == 1: del a["yParity"]
    elif t0["typ"] == "7702": tx["authorizationList"] = []
    made = "bad" if u["sender"] == "bad" or (u["noto"] and not u["given"]) else "ok"
    J = {"env": env, "pre": o["pre"], "transaction": tx, "post": {}}
    if rng.random() < .3: J["_info"] = {"comment": "made from a history of the specification"}
    out = None
    if rng.random() < .5:
        out = rng.choice(rows)[5]["out"] or "0x"
        if rng.random() < .3: out = rng.choice([out + "00", "0x", "0x01"]) if len(out) < 4 else rng.choice([flip(rng, out), out[:-2], out + "00"])
        J["out"] = out
    spec = []
    for f in u["forks"]:
        P, T = [], []
        for fork, n, (d, x, v), s, res, q in rows:
            if fork != f["fork"]: continue
            err = res["kind"] == "Error"
            t = {"res": "error" if err else {"Success": "ok", "Revert": "revert", "Halt": "halt"}[res["kind"]], "made": made, "typ": s["txs"][0]["typ"], "sp": s["sp"], "exc": err or (made != "ok" and rng.random() < .5), "logs": True, "hash": True,
                 "out": "none" if out is None else "same" if out == (q["out"] or "0x") else "other",
                 "tx": {"type": t0["typ"] if u["given"] else "-", "al": not u["given"] and u["lists"][d] is not None, "fee": "maxFeePerGas" in tx, "auth": "authorizationList" in tx, "to": bool(tx.get("to"))}}
            p = {"indexes": {"data": d, "gas": x, "value": v}, "hash": q["root"], "logs": q["logs"], "txbytes": "0x00"}
            if rng.random() < .3:
                for a in rng.sample(["exc", "logs", "hash", "hash"], rng.choice((1, 1, 2))):
                    if a == "exc": t["exc"] = not t["exc"]
                    elif a == "logs" and t["logs"]: t["logs"] = False; p["logs"] = flip(rng, p["logs"])
                    elif a == "hash" and t["hash"]: t["hash"] = False; p["hash"] = flip(rng, p["hash"])
            if t["exc"]: p["expectException"] = rng.choice(["TransactionException.INTRINSIC_GAS_TOO_LOW", "TR_NoFunds", ""])
            if rng.random() < .2: p["state"] = {}
            if rng.random() < .2: p["postState"] = {}
            P.append(p); T.append(dict(t, gas=res["gas"], root=p["hash"] if t["hash"] else q["root"], idx=[d, x, v]))
        J["post"][f["fork"]] = P
        spec.append({"fork": f["fork"], "tests": T})
    return J, spec

def files(rng, tags, n, tag):
    """n files: [(description for the specification, JSON text)]"""
    U = [plan(rng, "%s%d" % (tag, k), tags) for k in range(int(n * 1.3))]
    S = [s for u in U for _, _, _, s in variants(u)]
    exp = core.run_spec("Replay", S)
    for s in S: s["names"] = txcmp.names_of(exp[s["id"]])
    ch = {s["id"]: u["chain"] or 6342 for u in U for _, _, _, s in variants(u)}
    fx = core.run_impl("fixture", [{"id": s["id"], "sc": s, "chain": ch[s["id"]]} for s in S])
    made = [m for m in (unit(rng, u, exp, fx) for u in U) if m]
    F, k = [], 0
    while k < len(made):
        c = rng.choice((1, 1, 1, 2))
        names = rng.sample(["alpha", "beta", "Gamma", "x1", "x10", "x2"], c)
        part = dict(zip(names, made[k:k + c])); k += c
        text = json.dumps({a: m[0] for a, m in part.items()})
        d = {"id": "%s-%d" % (tag, k), "file": "t%d.json" % k, "parse": True, "units": [{"name": a, "forks": part[a][1]} for a in sorted(part)]}
        r = rng.random()
        if r < .02: text = text[:rng.randrange(1, len(text))]; d["parse"] = False
        elif r < .03: text = text.replace('"hash": ', '"hsah": ', 1); d["parse"] = False
        elif r < .04: text = text.replace('"currentNumber": "0x', '"currentNumber": "0xg', 1); d["parse"] = False
        F.append((d, text))
    return F, len(U) - len(made)

def write(dir, F):
    for d, text in F:
        with open(os.path.join(dir, d["file"]), "w") as f: f.write(text)

def verdicts(rep, F, trace):
    d = core.workdir()
    try:
        write(d, F)
        exp = core.run_spec("Suite", [x for x, _ in F])
        obs = core.run_impl("strun", [{"id": x["id"], "path": os.path.join(d, x["file"]), "trace": trace} for x, _ in F])
    finally:
        shutil.rmtree(d, ignore_errors=True)
    for x, text in F:
        e, o = exp[x["id"]], obs[x["id"]]
        rep.traces += 1; rep.events += 2; rep.kinds[e[0]] += 1
        if len(rep.violations) < 20 and (o.get("kind"), o.get("name")) != tuple(e):
            rep.violation("test file %s: judged %s, the specification says %s" % (x["id"], short([o.get("kind"), o.get("name")] if "kind" in o else o), e), {"suite": x, "text": text, "expected": e, "observed": o})
    return exp

# ------------------------------------------------------------------ whole runs
def st():
    core.build()
    r = subprocess.run(["cargo", "build", "--offline", "--locked", "--bin", "st"], cwd=os.path.join(core.ROOT, "harness"), env=core.env(), capture_output=True, text=True)
    if r.returncode != 0: raise core.ToolError("state test program does not build:\n" + r.stderr[-3000:])
    return os.path.join(core.TARGET, "debug", "st")

def run_pool(exe, c, pool, dir):
    """one run of the real program: (whether it reports success, errors counted or None, stderr)"""
    args, base = [], os.path.join(dir, c["id"])
    os.makedirs(base)
    for k, p in enumerate(c["paths"]):
        q = os.path.join(base, "p%d" % k)
        if p["missing"]: args.append(q); continue
        os.makedirs(q)
        for n, f in enumerate(p["files"]):
            sub = os.path.join(q, *(["a%d" % (n % 3), "b.json.d"][:c.get("deep", 0)])) if n % 2 else q
            os.makedirs(sub, exist_ok=True)
            name = "f%02d.json" % n
            texts = pool[f]
            with open(os.path.join(sub, name), "w") as h: h.write(texts[n % len(texts)])
        if c.get("junk"):
            with open(os.path.join(q, "notes.txt"), "w") as h: h.write("not a test")
            with open(os.path.join(q, "json"), "w") as h: h.write("not a test")
        args.append(os.path.join(q, "f00.json") if c.get("direct") else q)
    try:
        r = subprocess.run([exe, *c.get("flags", []), *(["--keep-going"] if c["keep"] else []), *args], capture_output=True, text=True, timeout=300, cwd=dir)
    except subprocess.TimeoutExpired:
        return None, None, "did not end"
    m = re.findall(r"Encountered (\d+) errors out of (\d+) total", r.stdout)
    return r.returncode == 0, int(m[-1][0]) if m else None, r.stderr

def path(*files, missing=False): return {"files": list(files), "missing": missing}

def pools(rng, tier):
    C = []
    def add(paths, keep, **kw):
        n = max([len(p["files"]) for p in paths] + [1])
        C.append(dict({"id": "p%d" % len(C), "paths": paths, "keep": keep, "workers": 1 if set(kw.get("flags", [])) & {"-s", "-o", "--json"} else min(n, 3 if n > 3 else n)}, **kw))
    import itertools
    for n in (1, 2, 3):
        for fs in itertools.product(["good", "bad", "odd"], repeat=n):
            for keep in (False, True):
                for fl in ([], ["-s"]):
                    if tier == "quick" and n == 3 and rng.random() < .6: continue
                    add([path(*fs)], keep, flags=fl, deep=rng.randrange(3), junk=rng.random() < .3)
    for keep in (False, True):
        add([path(missing=True)], keep); add([path()], keep, junk=True)
        for a, b in itertools.product([path("good"), path("bad", "good"), path(missing=True), path(), path("good", "good")], repeat=2): add([a, b], keep, deep=1)
        add([path("good")], keep, direct=True); add([path("bad")], keep, direct=True)
    return C

def big(rng, tier):
    """runs with many files: what TLC shows for few holds for many (promises Honest and Counted)"""
    C = []
    for k in range(6 if tier == "quick" else 40):
        n = rng.choice((12, 25, 40))
        bad = rng.choice((0, 1, 3, n // 2, n))
        fs = ["bad"] * bad + ["good"] * (n - bad)
        rng.shuffle(fs)
        C.append({"id": "g%d" % k, "paths": [path(*fs)], "keep": k % 3 != 0, "deep": 2, "n": bad})
    return C

def outcome_lines(rep, exe, F, exp, dir):
    """the answers printed for each test"""
    for x, text in F:
        p = os.path.join(dir, x["file"])
        with open(p, "w") as f: f.write(text)
        r = subprocess.run([exe, "-o", p], capture_output=True, text=True, timeout=300)
        L = [json.loads(l) for l in r.stderr.splitlines() if l.startswith("{") and '"pass"' in l]
        want, over = [], not x["parse"]
        for u in x["units"]:
            for f in u["forks"]:
                for t in f["tests"]:
                    if over or f["fork"] == "Constantinople" or t["made"] != "ok": over = over or (t["made"] != "ok" and not t["exc"] and f["fork"] != "Constantinople"); continue
                    bad = t["exc"] != (t["res"] == "error") or (not t["exc"] and (not t["logs"] or not t["hash"] or (t["out"] == "other" and t["res"] != "halt")))
                    want.append({"pass": not bad, "test": u["name"], "d": t["idx"][0], "g": t["idx"][1], "v": t["idx"][2], **({"gasUsed": t["gas"]} if t["res"] != "error" else {}),
                                 **({"stateRoot": t["root"]} if t["hash"] and t["res"] != "error" else {})})
                    over = bad
        got = [{k: l.get(k) for k in w} for l, w in zip(L, want)]
        rep.traces += 1; rep.events += sum(len(w) for w in want)
        if len(L) != len(want) or got != want:
            rep.violation("outcomes printed for test file %s: %s, the specification says %s" % (x["id"], short(got, 300), short(want, 300)), {"suite": x, "text": text, "lines": True, "expected": want, "observed": L})
        if (r.returncode == 0) != (exp[x["id"]][0] == "pass"):
            rep.violation("run of test file %s ends with %d, its verdict is %s" % (x["id"], r.returncode, exp[x["id"]]), {"suite": x, "text": text, "lines": True, "expected": exp[x["id"]], "observed": r.returncode})

def judge_pool(rep, c, r, ends):
    ok, n, err = r
    rep.traces += 1; rep.events += 2
    rep.kinds["run:" + ("ok" if ok else "failed")] += 1
    if "n" in c:
        good = ok == (c["n"] == 0) and (ok or n is None or (n == c["n"] if c["keep"] else 1 <= n <= c["n"]))
        want = "%d of %d files bad" % (c["n"], len(c["paths"][0]["files"]))
    else:
        good = ok is not None and any((e == "ok") == ok and (ok or n is None or n == m) for e, m in ends)
        want = sorted(ends)
    if not good:
        rep.violation("run %s over %s (keep going: %s, %s): success %s, errors %s; the specification says %s" % (c["id"], short([p["files"] if not p["missing"] else "missing" for p in c["paths"]], 300), c["keep"],
                      c.get("flags", []), ok, n, want), {"pool": c, "expected": sorted(ends) if ends else c.get("n"), "observed": [ok, n, (err or "")[-400:]]})

def ends_of(C):
    d = core.workdir()
    try:
        p = os.path.join(d, "s.ndjson"); core.write_ndjson(p, [{k: c[k] for k in ("id", "paths", "keep", "workers")} for c in C])
        E = {}
        for r in core.exp_lines(core.tlc("Pool", envs={"SCEN": p})): E.setdefault(r["id"], set()).add((r["end"], r["n"]))
        return E
    finally:
        shutil.rmtree(d, ignore_errors=True)

def check(rep):
    q = rep.tier == "quick"
    rng = random.Random("C33/%s/%d" % (rep.tier, rep.seed))
    tags, _ = findings.calibrate(rep)
    exe = st()
    pool = {"good": [], "bad": [], "odd": []}
    lost = total = 0
    for i in range(1 if q else 12):
        F, no = files(rng, tags, 700 if q else 1500, "f%d" % i)
        lost += no; total += len(F)
        exp = verdicts(rep, F, False)
        verdicts(rep, F[:60], True)
        if rep.violations: break
        for x, text in F:
            k = "good" if exp[x["id"]][0] == "pass" else "bad"
            if len(pool[k]) < 30: pool[k].append(text)
        d = core.workdir()
        try:
            outcome_lines(rep, exe, F[60:120 if q else 300], exp, d)
            # files known to be beyond the runner are passed over, whatever is in them
            odd = [t for x, t in F if not x["parse"]][:1] or ["{"]
            for n in ("loopMul.json", "InitCollision.json", "CALLBlake2f_MaxRounds.json", "ValueOverflow.json"):
                verdicts(rep, [({"id": "skip-" + n, "file": n, "parse": False, "units": []}, odd[0])], False)
        finally:
            shutil.rmtree(d, ignore_errors=True)
    rep.notes["units_left_out"] = lost
    if rep.violations: return
    if not pool["good"] or not pool["bad"]:
        # the EVM itself does not do as specified: other properties report that
        rep.notes["no_runs"] = True; return
    good = json.loads(pool["good"][0])
    u = next(iter(good.values()))
    u["post"] = {"NoSuchFork": next(iter(u["post"].values()))}
    pool["odd"] = [json.dumps(good)]
    C = pools(rng, rep.tier)
    E = ends_of(C)
    C += big(rng, rep.tier)
    d = core.workdir()
    try:
        with ThreadPoolExecutor(8) as ex:
            for c, r in zip(C, ex.map(lambda c: run_pool(exe, c, pool, d), C)): judge_pool(rep, c, r, E.get(c["id"]))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    rep.exhaustive += len(E)
    rep.sample({"run": C[len(C) // 2], "ends": sorted(E.get(C[len(C) // 2]["id"], []))})

def replay(rep, rec):
    if "pool" in rec: print("recorded run: %s" % json.dumps({k: rec[k] for k in ("pool", "expected", "observed")})[:2000]); rep.violation("see above", rec); return
    if rec.get("lines"):
        d = core.workdir()
        try: outcome_lines(rep, st(), [(rec["suite"], rec["text"])], core.run_spec("Suite", [rec["suite"]]), d)
        finally: shutil.rmtree(d, ignore_errors=True)
    else: verdicts(rep, [(rec["suite"], rec["text"])], False)
