"""C27: merging execution results.  TLC enumerates histories of executions on an account and every way to merge what they
leave (spec/Merge.tla); the real merge runs on the same entries.  Then whole histories of transactions (spec/Replay.tla):
their real results are merged, committed at once, and compared with the specification's final world."""
import os, random, shutil
from . import core, findings, kldrun, txfam, txrun
from .scen import *
from .txrun import short

WORLDS = [[0, 0, 0, 0, 0], [2, 0, 0, 0, 0], [2, 1, 0, 0, 0], [0, 1, 1, 3, 0], [2, 1, 1, 0, 4]]

def families(tier):
    q = tier == "quick"
    F = [{"id": "pair", "w": WORLDS, "len": 2, "cold": [0, 1], "reads": [[], [1], [1, 2]]},
         {"id": "one", "w": WORLDS, "len": 1, "cold": [0, 1], "reads": [[], [1], [2], [1, 2]]},
         {"id": "three", "w": WORLDS, "len": 3, "cold": [0], "reads": [[]] if q else [[], [1, 2]]}]
    if not q: F.append({"id": "four", "w": WORLDS[:4], "len": 4, "cold": [0], "reads": [[]]})
    return F

def row(e):
    return [e[0], e[1], e[2], sorted(e[3]), sorted(e[4])] if e else []

WAYS = {"zero": "merged one by one into an empty state", "first": "merged one by one into the first", "right": "merged from the last back",
        "nest": "the last one merged as a nested execution"}

def judge(rep, s, r, o):
    rep.traces += 1
    if "zero" not in o:
        rep.violation("%s: %s" % (s["id"], short(o)), {"merge": s, "expected": r, "observed": o}); return
    for way in WAYS:
        if way == "nest" and not r["cn"]: continue
        x = o[way]
        rep.events += 2
        rep.kinds[way] += 1
        e = row(r[way])
        if "panic" in x: what = "panics: %s" % x["panic"]
        elif x["w"] != r["w"]: what = "commits as %s, one after the other they commit as %s" % (x["w"], r["w"])
        elif x["entry"] != e: what = "gives %s, the specification says %s" % (x["entry"], e)
        elif x["other"] not in ([], [[9, 1, 0, 0, 0]]): what = "changes another account to %s" % x["other"]
        else: continue
        rep.violation("executions leaving %s on an account %s, %s, %s" % (short(s["es"], 400), s["w0"], WAYS[way], what), {"merge": s, "expected": r, "observed": o})
        return

def check(rep):
    fams = families(rep.tier)
    d = core.workdir()
    try:
        p = os.path.join(d, "s.ndjson"); core.write_ndjson(p, fams)
        rows = core.exp_lines(core.tlc("Merge", envs={"SCEN": p}))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    rows.sort(key=lambda r: (r["id"], r["w0"], str(r["es"])))
    S = [{"id": "%s~%d" % (r["id"], n), "w0": r["w0"], "es": r["es"], "cn": r["cn"], "pad": n % 3, "lazy": n % 2 == 1} for n, r in enumerate(rows)]
    rep.exhaustive += len(S)
    for i in range(0, len(S), 50000):
        obs = core.run_impl("merge", S[i:i + 50000])
        for n, (s, r) in enumerate(zip(S[i:i + 50000], rows[i:i + 50000])):
            judge(rep, s, r, obs[s["id"]])
            if n % 20001 == 7: rep.sample({"base": s["w0"], "entries": s["es"], "merged": r["first"], "committed": r["w"]})
            if len(rep.violations) > 10: return
    # whole transactions
    tags, _ = findings.calibrate(rep)
    rng = random.Random("C27/%s/%d" % (rep.tier, rep.seed))
    fam = FAM
    def go(S):
        S = kldrun.sized([dict(s, dev=list(tags)) for s in S])
        txrun.run_batch(rep, fam, S, core.run_spec("Replay", S))
    go(directed(rep.tier))
    go([s for n, s in enumerate(kldrun.directed(rep.tier)) if s["id"][0] in "eukf" and (n % 2 or rep.tier != "quick")])
    n = 1500 if rep.tier == "quick" else 20000
    for i in range(0, n, 1500):
        B = []
        for j in range(i, min(n, i + 1500)):
            sp = (EQ, MINI, REX2, REX3, REX1, REX3)[j % 6]
            if j % 3 == 0:
                g = kldrun.KGen(rng, (REX2, REX3)[j // 3 % 2], w=dict(SELFDESTRUCT=4, CREATE=8), **rng.choice([{}, dict(deps=True), dict(delegs=True)]))
            else:
                g = Gen(rng, sp, w=dict(SELFDESTRUCT=6, CREATE=10, SSTORE=14), **rng.choice([{}, dict(deps=True), dict(auths=True), dict(orc=True, sys=True)]))
            B.append(g.scenario("r%d" % j, ntx=rng.choice((2, 3, 4))))
        go(B)
        if rep.violations: return

FAM = txfam.Fam(["acc", "st"], modes=("merge0", "merge1", "merger"))

def directed(tier):
    """contracts created, used, destroyed and created again at the same address across transactions"""
    S = []
    mk = lambda b: [CREATE(b, salt=7, s=0)]
    code = {"m1": mk("i1"), "m2": mk("i2"), "m3": mk("i3"), "m4": [CREATE("i1", salt=7, v=3)], "m5": [CREATE("i1", salt=7), CALL("A@i1:7:1", v=2)], "i1": [SSTORE(0, 4), SELFDESTRUCT("E")], "i2": [SSTORE(0, 4), RETURN(2)],
            "i3": [SLOAD(1), SELFDESTRUCT("F")], "i4": [SSTORE(1, 2), LOG(1, 3), SELFDESTRUCT("E")],
            "p1": [CALL("A@i1:7:1", v=2)], "p2": [CALL("A@i2:7:1", v=2)], "s1": [SSTORE(0, 1)], "s0": [SSTORE(0, 0)], "rd": [ACC("BALANCE", "A@i1:7:1"), ACC("EXTCODEHASH", "A@i2:7:1"), SLOAD(0)],
            "rv": [SSTORE(0, 9), CALL("A@i1:7:1", v=1), REVERT(0)]}
    T = ["m1", "m2", "m3", "m4", "m5", "p1", "p2", "s1", "s0", "rd", "rv"]
    for sp in (EQ, REX2, REX3):
        for a in T:
            for b in T:
                for c in ([""] + (T if tier != "quick" else ["m1", "p1", "rd"])):
                    txs = [tx(b=x, gas=8_000_000) for x in (a, b, c) if x]
                    S.append(scenario("h%d-%s-%s-%s" % (sp, a, b, c), sp, code, txs, st=[["A", 0, 2]]))
    return S

def replay(rep, rec):
    if "merge" in rec:
        s = rec["merge"]
        judge(rep, s, rec["expected"], core.run_impl("merge", [s])[s["id"]]); return
    s = rec["scenario"]
    exp = core.run_spec("Replay", [dict(s, marks=False)])
    txrun.judge(rep, FAM, [s], exp, core.run_impl("replay", [s]))
