"""C30: no crash, and failing databases and environments.

The specification lets a marked transaction fail at any of its steps and shows that what follows does not depend on which
(the state is the one before it, the retried transaction behaves as if never offered before).  The implementation is first
run without faults to learn how often it asks the database and the environment; then once per access with that one failing."""
import copy, json, random
from . import core, findings, txcmp, txfam
from .scen import *

FIELDS = ["kind", "why", "limit", "actual", "gas", "ref", "out", "cg", "ds", "kv", "gr", "logs", "acc", "st"]
short = lambda x, n=200: (lambda s: s if len(s) <= n else s[:n] + "...")(json.dumps(x, default=str))

def spec_all(S, chunk=1500):
    """{id: the outcome every branch of the specification agrees on, or None}"""
    got = {}
    for i in range(0, len(S), chunk):
        d = core.workdir()
        try:
            p = d + "/s.ndjson"; core.write_ndjson(p, S[i:i + chunk])
            for r in core.exp_lines(core.tlc("Replay", envs={"SCEN": p})): got.setdefault(r["id"], []).append(r["out"])
        finally:
            core.shutil.rmtree(d, ignore_errors=True)
    out = {}
    for s in S:
        if s["id"] not in got: raise core.ToolError("TLC gave no outcome for %s" % s["id"])
        a, *more = got[s["id"]]
        same = all(not txcmp.diff(s, a, b, FIELDS) for b in more)
        if not same and s["sp"] >= REX1: raise core.ToolError("the specification says a fault's position matters in %s" % s["id"])
        out[s["id"]] = a if same else None
    return out

def faulty(s, j):
    """transaction j fails, then is offered again"""
    f = copy.deepcopy(s)
    f["id"] = "%s.f%d" % (s["id"], j)
    f["txs"].insert(j, dict(f["txs"][j], fault=1))
    if "hop" in f: f["hop"] = f["hop"][:j + 1] + [0] + f["hop"][j + 1:]
    f["nbk"] = f["nbk"][:j + 1] + [0] + f["nbk"][j + 1:]
    return f

def at(f, j, k):
    g = dict(f, id="%s@%d" % (f["id"], k), txs=[dict(t) for t in f["txs"]])
    g["txs"][j]["fault"] = k
    return g

def judge(rep, s, e, o, fields):
    rep.traces += 1
    if len(rep.violations) >= 30: return
    for mode in s["modes"]:
        if mode not in o:
            rep.violation("scenario %s: %s" % (s["id"], short(o)), {"scenario": s, "fault": True, "expected": e, "observed": o}); return
        d = txcmp.diff(s, e, o[mode], fields)
        rep.events += len(fields) * len(e)
        if d:
            j, f, a, b = d[0]
            rep.violation("scenario %s (spec id %d, %s run), transaction %d: %s is %s, the specification says %s" % (s["id"], s["sp"], mode, j, f, short(b), short(a)),
                          {"scenario": s, "fault": True, "mode": mode, "differences": d[:10], "expected": e, "observed": o[mode]})
            return

OWN = ["kind", "why", "out", "acc", "st"]

def plain(rep, S, fields=OWN):
    """no faults: ends as specified; returns expectations and observations"""
    exp = core.run_spec("Replay", S)
    for s in S: s["names"] = txcmp.names_of(exp[s["id"]])
    obs = core.run_impl("replay", S)
    for s in S:
        judge(rep, s, exp[s["id"]], obs[s["id"]], fields)
        for x in exp[s["id"]]: rep.kinds["%s%s" % (x["res"]["kind"], ":" + x["res"]["why"] if x["res"]["why"] else "")] += 1
    return exp, obs

def faults(rep, rng, S, per, modes):
    exp, obs = plain(rep, S)
    F = []
    for s in S:
        o = obs[s["id"]].get("plain")
        # (where already the fault-free run is off, other properties speak)
        if not isinstance(o, list) or txcmp.diff(s, exp[s["id"]], o, FIELDS): continue
        for j in range(len(s["txs"])):
            if o[j]["acc_n"]: F.append((faulty(s, j), j, o[j]["acc_n"]))
    fexp = spec_all([f for f, _, _ in F])
    R, ex = [], {}
    for f, j, n in F:
        e = fexp[f["id"]]
        if e is None: rep.notes["skipped_ambiguous"] = rep.notes.get("skipped_ambiguous", 0) + 1; continue
        ks = list(range(1, n + 1))
        if len(ks) > per: ks = sorted(rng.sample(ks, per))
        for k in ks:
            g = at(f, j, -k if rng.random() < .2 else k)
            g["modes"] = modes; g["names"] = txcmp.names_of(e)
            R.append(g); ex[g["id"]] = e
    for i in range(0, len(R), 20000):
        part = R[i:i + 20000]
        ob = core.run_impl("replay", part)
        for g in part: judge(rep, g, ex[g["id"]], ob[g["id"]], FIELDS)
    rep.notes["faults_injected"] = rep.notes.get("faults_injected", 0) + len(R)
    if R: rep.sample({"id": R[-1]["id"], "spec": R[-1]["sp"], "txs": R[-1]["txs"][:2], "code": R[-1]["code"], "outcome": [x["res"] for x in ex[R[-1]["id"]]]})

OPT = [(3, {}, {}), (1, dict(orc=True, hints=True), {}), (1, dict(delegs=True), {}), (1, dict(auths=True), {}), (1, dict(deps=True), {}), (1, dict(bad=True), {}),
       (1, dict(sys=True, orc=True), {}), (1, dict(calls=True, orc=True), dict(PRE=0))]
CALLS = [(1, dict(calls=True, orc=True, hints=True), dict(PRE=0)), (1, dict(calls=True, bad=True, sys=True), dict(PRE=0))]
QUIET = dict(ENV=0, BLOBHASH=0, BLOCKHASH=0, ACC=0, SELFBALANCE=0)

def histories(rep, rng, tags, n, per, lo, ntx=(1, 1, 2), opt=OPT):
    B = []
    for i in range(lo, lo + n):
        sp = i % 7
        share, opts, w = rng.choices(opt, [g[0] for g in opt])[0]
        w = dict(w)
        if sp in (MINI, REX) and rng.random() < .8: w.update(QUIET); opts = dict(opts, env_coin=False)
        g = Gen(rng, sp, **dict(opts, w=w, maxops=4, blocks=5))
        s = g.scenario("z%d" % i, ntx=rng.choice(ntx))
        s.update(dev=list(tags), modes=["plain"], lazy=rng.random() < .4)
        B.append(s)
    faults(rep, rng, B, per, ["plain"] if rng.random() < .5 else ["plain", "inspect"])

def keyless(rep, rng, tags, n, per, ntx=(1, 1, 2)):
    """faults before, in and after embedded deployments"""
    from . import kldrun
    B = []
    for i in range(n):
        g = kldrun.KGen(rng, rng.choice([REX2, REX3, REX4]), maxops=3, blocks=4, **rng.choice([{}, {}, dict(orc=True), dict(deps=True), dict(fees=True)]))
        s = g.scenario("y%d" % i, ntx=rng.choice(ntx))
        s.update(dev=list(tags), modes=["plain"], lazy=rng.random() < .4)
        B.append(s)
    faults(rep, rng, kldrun.sized(B), per, ["plain", "inspect"])

def check(rep):
    rng = random.Random("%s/%s/%d" % (rep.prop, rep.tier, rep.seed))
    q = rep.tier == "quick"
    tags, _ = findings.calibrate(rep, blocks=True)
    from . import odd
    S = [dict(s, dev=list(tags), modes=["plain", "inspect"]) for s in odd.scenarios(rep.tier)]
    for i in range(0, len(S), 4000): plain(rep, S[i:i + 4000])
    n = 1400 if q else 8400
    per = 12 if q else 60
    done = 0
    while done < n and len(rep.violations) < 20:
        histories(rep, rng, tags, 700, per, done)
        done += 700
    if len(rep.violations) < 20:
        from . import blockrun
        for i in range(1 if q else 10): blockrun.faults(rep, rng, tags, 70 if q else 250, 12 if q else 40)
    if len(rep.violations) < 20: keyless(rep, rng, tags, 250 if q else 2000, 12 if q else 60)

def replay(rep, rec):
    s = rec["scenario"]
    e = spec_all([s])[s["id"]]
    judge(rep, s, e, core.run_impl("replay", [s])[s["id"]], FIELDS if any(t.get("fault") for t in s["txs"]) else OWN)
