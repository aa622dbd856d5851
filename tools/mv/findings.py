"""Known findings: deviations of the implementation from the specification that are on record.

known_findings.txt lists them.  A listed finding has a tag, under which the specification can take the deviating
behaviour as well (`dev' of a scenario).  Every run first executes the finding's own demonstration: if it still behaves
as recorded, the deviation is switched on for this run and reported as KNOWN-FINDING; if it behaves as the property
demands, it is switched off."""
import os, re
from . import core, scen, txcmp
from .scen import *

FILE = os.path.join(core.ROOT, "known_findings.txt")

def listed():
    """[(property, tag, text)]"""
    out = []
    for l in open(FILE):
        m = re.match(r"known: property=(\S+) tag=(\S+) (.*)", l)
        if m: out.append(m.groups())
    return out

def demo(tag, sp):
    if tag == "coldpre":
        return scenario("kf-" + tag, sp, {"x0": [CALL("P4", g=50000)]}, [tx(gas=3_000_000)])
    if tag == "floor":
        return scenario("kf-" + tag, sp, {"x0": [STOP]}, [tx(gas=200_000, z=2030)])
    if tag == "callgas":
        return scenario("kf-" + tag, sp, {"x0": [CALL("E2")]}, [tx(gas=3_000_000)], lim={"c": 22_000})
    if tag == "latehalt":
        return scenario("kf-" + tag, sp, {"x0": [RETURN(32)]}, [tx(gas=3_000_000, kind="create")], lim={"c": 75_000})
    if tag == "depnonce":
        return scenario("kf-" + tag, sp, {"x0": [RETURN(1)]}, [tx(gas=9_000_000, kind="create", typ="deposit", price=0, nonce=0)], bkt={"-": 256, "S0#5": 1024, "S0#0": 512})
    if tag == "kldenv":
        from . import kldrun
        return kldrun.sized([scenario("kf-" + tag, sp, {"i0": [SSTORE(0, 1), RETURN(1)]}, [kldrun.klt(kldrun.kl(b="i0"))], accs={"G1": acc(5_000_000, 0)},
                                      bkt={"-": 256, "G1#0": 512, "G1#0/0": 1024})])[0]
    if tag == "klddyn":
        from . import kldrun
        return kldrun.sized([scenario("kf-" + tag, sp, {"i0": [CALL("DYN", g=5000, s=0), RETURN(1)]}, [kldrun.klt(kldrun.kl(b="i0"))], accs={"G1": acc(5_000_000, 0)}, dyn=True)])[0]
    raise KeyError(tag)

def block_demo(tag):
    """demonstrations that need blocks"""
    from . import blockrun
    if tag == "orcwipe":
        return blockrun.chain("kf-" + tag, {"ORC": acc(5, 1, blockrun.SYSC("orc1"))}, [["ORC", 0, 9]], [1, -1, -1, -1, -1, 2, -1, -1], [1, 2, 3])
BLOCK = ("orcwipe",)

DEMO_SPECS = (REX, REX3)

def calibrate(rep, blocks=False):
    """Which listed deviations the code still shows: (active tags, [(scenario, expected, observed, diff)] that match neither)."""
    tags = [t for _, t, _ in listed()]
    S, runs = [], []
    for t in tags:
        if t in BLOCK: continue
        for sp in DEMO_SPECS:
            on = dict(demo(t, sp), dev=tags, id="kf-%s-%d-on" % (t, sp))
            off = dict(demo(t, sp), dev=[x for x in tags if x != t], id="kf-%s-%d-off" % (t, sp))
            S += [on, off]; runs.append((t, on, off))
    exp = core.run_spec("Replay", S)
    for s in S: s["names"] = txcmp.names_of(exp[s["id"]]); s["modes"] = ["plain"]
    obs = core.run_impl("replay", [on for _, on, _ in runs])
    active, bad = set(), []
    for t, on, off in runs:
        o = obs[on["id"]].get("plain", obs[on["id"]])
        d1, d0 = txcmp.diff(on, exp[on["id"]], o), txcmp.diff(off, exp[off["id"]], o)
        if not d1: active.add(t)
        elif d0: bad.append((on, exp[on["id"]], o, d1)); active.add(t)
        # (neither: judged as any other scenario, by the fields the property owns)
    rep.traces += len(runs)
    if blocks:
        from . import blockrun
        for t in tags:
            if t not in BLOCK: continue
            on = dict(block_demo(t), dev=tags, id="on"); off = dict(block_demo(t), dev=[x for x in tags if x != t], id="off")
            S = blockrun.sized([on, off]); exp = blockrun.spec(S)
            on["names"] = blockrun.names_of(exp["on"])
            o = core.run_impl("block", [on])["on"].get("plain")
            rep.traces += 1
            if isinstance(o, list) and blockrun.norm(o) == blockrun.norm(exp["off"]): continue
            # (a run that matches neither is judged with the deviation switched on, where it differs as well)
            active.add(t)
    return [t for t in tags if t in active], bad
