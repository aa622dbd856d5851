"""C17: hardfork schedules.  Families of schedules and chains, enumerated by TLC (spec/Forks.tla), asked of the real code."""
import json, random, shutil, os
from . import core
from .txrun import short

FIELDS = ["hf", "spec", "act", "first", "lim", "rt", "ok", "given"]

def families(tier, rng):
    F = []
    def fam(id, at, times, ln, gl=30_000_000, bad="-"):
        F.append({"id": id, "at": at, "times": times, "len": ln, "gl": gl, "bad": bad})
    # every subset of forks, active from time 2 on; every chain of times 1..3
    fam("sub", [[-1, 2]] * 8, [1, 2, 3], 2)
    # activation at genesis, at once, or by block number only
    fam("gen", [[0, -2]] * 8, [0, 1], 2 if tier == "thorough" else 1, gl=2_000_000_000)
    # the intended order, one step at a time, and every order of four of them
    fam("order", [[1], [2], [3], [4], [5], [6], [7], [8]], list(range(0, 10)), 2 if tier == "quick" else 4)
    for n in range(3 if tier == "quick" else 12):
        at = [rng.sample([-2, -1, 0, 1, 5, 7, 100], 2) for _ in range(8)]
        fam("rnd%d" % n, at, rng.sample([0, 1, 4, 5, 6, 7, 99, 100], 3), 2, gl=rng.choice([0, 1, 10_000_000, 2_000_000_000]))
    for b in ("spec", "gas", "regolith", "canyon", "isthmus"):
        fam("bad-" + b, [[-1, 2]] + [[-1], [2], [2, 5], [-1], [2, 4], [4], [-1, 5]] , [1, 2, 4, 5], 1, bad=b)
    if tier == "thorough":
        fam("three", [[-1, 2, 4]] * 8, [1, 2, 3, 4], 1)
        fam("long", [[1, 2], [2], [2, 3], [-1, 3], [3, 4], [4], [4, 5], [-1, 5]], [0, 1, 2, 3, 4, 5], 5)
    return F

def judge(rep, s, e, o):
    rep.traces += 1
    if "out" not in o:
        rep.violation("%s: %s" % (s["id"], short(o)), {"forks": s, "expected": e, "observed": o}); return
    for k, (x, y) in enumerate(zip(e, o["out"])):
        rep.kinds["%s/%s" % (x["hf"], "accepted" if x["ok"] else "refused")] += 1
        rep.events += len(FIELDS)
        x = dict(x)
        for f in FIELDS:
            if x[f] != y[f]:
                rep.violation("schedule %s, block %d at time %d (parent %d): %s is %s, the specification says %s" %
                              (s["sch"], k + 1, s["ts"][k + 1], s["ts"][k], f, short(y[f]), short(x[f])), {"forks": s, "expected": e, "observed": o["out"]})
                return
        if x["hf"] != "-" and y["own"] != x["spec"]:
            rep.violation("schedule %s: the rules of fork %s are %s, the specification says %s" % (s["sch"], x["hf"], y["own"], x["spec"]),
                          {"forks": s, "expected": e, "observed": o["out"]}); return

def check(rep):
    rng = random.Random("C17/%s/%d" % (rep.tier, rep.seed))
    fams = families(rep.tier, rng)
    d = core.workdir()
    try:
        p = os.path.join(d, "s.ndjson"); core.write_ndjson(p, fams)
        rows = core.exp_lines(core.tlc("Forks", envs={"SCEN": p}))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    by = {f["id"]: f for f in fams}
    rows.sort(key=lambda r: (r["id"], r["sch"], r["ts"]))
    S = []
    for n, r in enumerate(rows):
        f = by[r["id"]]
        S.append({"id": "%s~%d" % (f["id"], n), "sch": r["sch"], "ts": r["ts"], "gl": f["gl"], "bad": f["bad"],
                  "given": [x["given"] for x in r["out"]], "how": n % 4})
    rep.exhaustive += len(S)
    obs = core.run_impl("forks", S)
    for n, (s, r) in enumerate(zip(S, rows)):
        judge(rep, s, r["out"], obs[s["id"]])
        if n % (len(S) // 5 + 1) == 7:
            rep.sample({"schedule": s["sch"], "times": s["ts"], "expected": [[x["hf"], x["spec"], x["first"]] for x in r["out"]]})
        if len(rep.violations) > 10: break

def replay(rep, rec):
    s = rec["forks"]
    o = core.run_impl("forks", [s])[s["id"]]
    judge(rep, s, rec["expected"], o)
