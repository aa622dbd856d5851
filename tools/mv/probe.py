"""Boundary probing: the specification says where each counter stands after every step; new scenarios put a limit (or
the transaction's gas) exactly on, just below and just above such a point."""
import copy

FIELDS = {"c": 0, "d": 1, "k": 2, "g": 3}

def near(rng, v, lo=0):
    return max(lo, v + rng.choice([-1, -1, 0, 0, 1, -2, -3]))

def variants(rng, s, out, n, kinds=("c", "d", "k", "g", "be", "or", "gas", "two")):
    """n scenarios derived from s (its expected outcome `out`, computed with marks)."""
    res = []
    for j in range(n):
        t = copy.deepcopy(s); t["marks"] = False; t["id"] = "%s.%d" % (s["id"], j)
        i = rng.randrange(len(s["txs"]))
        marks = out[i].get("marks") or []
        if not marks:
            continue
        k = rng.choice(kinds)
        ks = [k] if k != "two" else rng.sample(["c", "d", "k", "g"], 2)
        ok = False
        for k in ks:
            if k == "gas" and s["txs"][i]["typ"] == "sc": continue
            if k == "gas":
                m = rng.choice(marks)
                # gas of the outermost frame not yet handed out, or the current frame's remaining gas
                left = rng.choice([m[4], m[6]])
                if left > 0:
                    t["txs"][i]["gas"] = max(21000, s["txs"][i]["gas"] - left + rng.choice([-1, 0, 1, 0, 2300, -700, 40000]))
                    ok = True
            elif k in ("be", "or"):
                vals = sorted({m[0] for m in marks})
                t["lim"][k] = near(rng, rng.choice(vals)); ok = True
            else:
                vals = sorted({m[FIELDS[k]] for m in marks} | ({max(m[FIELDS[k]] for m in marks)}))
                v = rng.choice(vals + [vals[-1]] * 2)
                t["lim"][k] = near(rng, v); ok = True
        if ok:
            res.append(t)
    return res
