"""Deciding one property: build, run specification and implementation side by side, report."""
import json, os, random, sys, time
from collections import Counter
from . import core, findings

class Report:
    """What a check covered and found."""
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.traces = 0            # histories run on the real code and compared with the specification
        self.events = 0            # single observations compared
        self.samples = []
        self.kinds = Counter()     # how the expected outcomes are distributed (guards against vacuity)
        self.violations = []       # (description, replay record)
        self.known = []            # lines
        self.notes = {}
        self.exhaustive = 0

    def violation(self, what, record):
        self.violations.append((what, record))

    def sample(self, x, limit=5):
        if len(self.samples) < limit: self.samples.append(x)

    def finish(self):
        os.makedirs(os.path.join(core.ROOT, "evidence"), exist_ok=True)
        path = os.path.join(core.ROOT, "evidence", self.prop + ".json")
        cov = {"states": core.TLC.distinct, "transitions": core.TLC.states - core.TLC.init, "traces_validated_against_impl": self.traces,
               "observations_compared": self.events, "exhaustive_histories": self.exhaustive, "tlc_runs": core.TLC.runs,
               "outcomes": dict(self.kinds.most_common(60)), "samples": self.samples or ["none"]}
        cov.update(self.notes)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking", "coverage": cov,
              "assumptions": ["the harness assembles exactly the instruction sequence the specification prices",
                              "revm, op-revm and alloy dependencies are trusted where the specification restates their rules"],
              "wall_s": round(time.time() - self.t0, 1), "violations": len(self.violations)}
        with open(path, "w") as f: json.dump(ev, f, indent=1)
        for l in self.known: print(l)
        print("%s %s: %d histories compared, %d TLC states, %d violations, %.0f s" %
              (self.prop, self.tier, self.traces, core.TLC.distinct, len(self.violations), time.time() - self.t0))
        if not self.violations: return 0
        rp = os.path.join(core.ROOT, "evidence", "violation-%s.json" % self.prop)
        what, rec = self.violations[0]
        with open(rp, "w") as f: json.dump({"property": self.prop, "what": what, "record": rec, "more": [w for w, _ in self.violations[1:20]]}, f, indent=1)
        for w, _ in self.violations[:5]: print("  " + w)
        print("VIOLATION property=%s replay=%s" % (self.prop, rp), flush=True)
        return 1

def main(prop, tier, seed, replay=None):
    rep = Report(prop, tier, seed)
    core.build()
    if replay:
        from . import blockrun, faultrun, forkrun, kldrun, mergerun, prerun, sizerun, suiterun, txrun
        rec = json.load(open(replay))["record"]
        (suiterun if prop == "C33" else mergerun if prop == "C27" else sizerun if prop == "C25" else prerun if prop == "C26" else kldrun if prop in ("C22", "C23") else blockrun if "block" in rec else faultrun if "fault" in rec else forkrun if "forks" in rec else txrun).replay(rep, rec)
        for w, _ in rep.violations: print(w)
        return 1 if rep.violations else 0
    from . import registry
    registry.CHECKS[prop](rep)
    return rep.finish()
