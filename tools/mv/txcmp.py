"""Comparing expected (specification) and observed (implementation) transaction outcomes."""
FIELDS = ["kind", "why", "limit", "actual", "gas", "ref", "out", "cg", "ds", "kv", "gr", "vol", "access", "logs", "hints", "reads", "asked", "seen", "hashes", "kl", "tr", "acc", "st"]

def flat(o):
    o = {k: ([] if v is None else v) for k, v in o.items()}
    r = o["res"]
    return {"kind": r["kind"], "why": r["why"], "limit": r["limit"], "actual": r["actual"], "gas": r["gas"],
            "ref": r["ref"], "out": r["out"], "access": sorted(o.get("access", o["vol"])) if r["why"] == "VolatileDataAccessOutOfGas" else [],
            "cg": o["cg"], "ds": o["ds"], "kv": o["kv"], "gr": o["gr"], "vol": sorted(o["vol"]),
            "logs": [list(x) for x in o["logs"]], "hints": [list(x) for x in o["hints"]], "seen": sorted(o["seen"]),
            "reads": [list(x) for x in o["reads"]], "asked": sorted(o["asked"]),
            "hashes": sorted(o["hashes"]), "kl": list(o.get("kl", [])), "tr": [list(x) for x in o.get("tr") or []],
            "acc": sorted([list(x) for x in o["world"]["acc"]]),
            "st": sorted([list(x) for x in o["world"]["st"]])}

def names_of(exp):
    s = set()
    for o in exp:
        for a in o["world"]["acc"]: s.add(a[0]); s.add(a[5])
        for a in o["world"]["st"]: s.add(a[0])
        for a in o["logs"]: s.add(a[0])
        for b in o["seen"]: s.add(b.split("/")[0])
        for e in o.get("tr") or []:
            if e[0] != "end": s |= {x for x in e[2 if e[0] != "log" else 1:] if isinstance(x, str)}
        if o.get("kl") and o["kl"][2] != "-": s.add(o["kl"][2])
    s.discard("-")
    return sorted(s)

def diff_tx(sp, e, o, fields=FIELDS):
    e, o = flat(e), flat(o)
    d = []
    for f in fields:
        if e["kind"] == "Error" and f in ("cg", "ds", "kv", "gr", "vol"): continue
        if sp == 0 and f in ("cg", "ds", "kv", "gr"): continue
        if f == "out" and e[f] == -1: continue
        if f == "tr":
            # (-1: size of the output not specified)
            x, y = e[f], [b[:3] + [-1] if len(a) == 4 and a[0] == "end" and a[3] == -1 and len(b) == 4 else b for a, b in zip(e[f], o[f])] + o[f][len(e[f]):]
            if x != y: i = ([k for k, (a, b) in enumerate(zip(x, y)) if a != b] + [min(len(x), len(y))])[0]; d.append((f, x[i:i + 3], y[i:i + 3]))
            continue
        if e[f] != o[f]: d.append((f, e[f], o[f]))
    return d

def diff(scen, exp, obs, fields=FIELDS, only=None):
    if isinstance(obs, dict): return [(0, "panic", "", obs)]
    out = []
    for j, (e, o) in enumerate(zip(exp, obs)):
        for f, a, b in diff_tx(scen["sp"], e, o, fields): out.append((j, f, a, b))
    return out
