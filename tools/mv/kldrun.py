"""C22, C23: keyless deployments through specification (MegaKeyless) and implementation."""
import itertools, random
from . import core, findings, probe, txcmp, txfam, txrun
from .scen import *

def kl(frm="G1", b="i0", price=1, gl=2_000_000, ov=None, v=0, nonce=0, bad="", var="", nz=1024, z=1024):
    if b == "-stop" and nz == 1024: nz = z = 0
    return {"bad": bad, "var": var, "from": frm, "nonce": nonce, "price": price, "gl": gl, "ov": gl if ov is None else ov, "v": v, "b": b, "nz": nz, "z": z}
def klt(k, frm="S0", gas=1_000_000, price=1, to="KLD", **kw):
    """a transaction asking for deployment k"""
    return dict(tx(frm=frm, to=to, gas=gas, price=price, b="-", **kw), kl=k)

INIT = {"i0": [RETURN(3)], "i1": [SSTORE(0, 1), LOG(1, 5), RETURN(9)], "i2": [REVERT(7)], "i3": [INVALID], "i4": [], "i5": [LOG(0, 3), SSTORE(1, 2)],
        "x0": [STOP], "x1": [CALL("KLD", hint=[0, 0, "kl"], s=1), SSTORE(2, 5)]}

def sized(S):
    """fills in the sizes of the requests' calldata"""
    rows = core.run_impl("klsize", S)
    for s in S:
        for t, z in zip(s["txs"], rows[s["id"]]["sizes"]):
            if z: t["nz"], t["z"], t["kl"]["fz"] = z
    return S

FIELDS22 = ["kind", "why", "gas", "ref", "kl", "logs", "acc", "st", "cg", "ds", "kv", "gr", "vol"]
FIELDS23 = list(txcmp.FIELDS)
FAMS = {"C22": txfam.Fam(FIELDS22, modes=("plain",)), "C23": txfam.Fam(FIELDS23, modes=("plain", "inspect"), pairs=(("plain", "inspect"),))}

BADS = [("", ""), ("rlp", "cut"), ("rlp", "typed"), ("rlp", "list"), ("rlp", "void"), ("rlp", "long"), ("to", ""), ("to", "0"), ("155", ""), ("155", "1"),
        ("sig", ""), ("sig", "sigz"), ("abi", ""), ("abi", "sel"), ("abi", "cut")]

def validation(tier):
    """every combination of defects of a request"""
    S = []
    cost = 2_000_000
    sps = [REX1, REX2, REX3, REX4] if tier != "quick" else [REX1, REX2, REX3, REX4]
    for n, (sp, (bad, var), v, nonce, gap, sn, dc, poor, b) in enumerate(itertools.product(
            sps, BADS, (0, 1), (0, 1), (-1, 0), (0, 1, 2), ("none", "raw", "nonce", "raw0"), (0, 1), ("i1",))):
        if sp in (REX1, REX4) and (n % 5 or dc == "nonce") and tier == "quick": continue
        if bad and n % 3 and tier == "quick": continue
        val = 7 if n % 2 else 0
        accs = {"G1": acc(cost + val - poor, sn)}
        if dc == "raw": accs["G1#0"] = acc(0, 1, RAW(2))
        if dc == "nonce": accs["G1#0"] = acc(0, 1)
        if dc == "raw0": accs["G1#0"] = acc(0, 0, RAW(2))  # (as put there by a genesis)
        k = kl(b=b, gl=2_000_000 - (gap if gap < 0 else 0), ov=2_000_000, nonce=nonce, bad=bad, var=var, v=val)
        S.append(scenario("v%d" % n, sp, INIT, [klt(k, v=v)], accs=accs))
    # gas of the outer call around the overhead, far too large numbers, empty init code, deployer named by others
    for sp in (REX1, REX2, REX3, REX4):
        for g in (99_999, 100_000, 100_001):
            for b in ("i1", "i2"):
                S.append(scenario("o%d-%d-%s" % (sp, g, b), sp, INIT, [dict(klt(kl(b=b)), _over=g)], accs={"G1": acc(3_000_000, 0)}))
        for gl, ov, price, sn in itertools.product((0, 50_000, BIG), (0, 49_999, 60_000, 120_000, 200_000, BIG), (0, 1), (0, 2)):
            S.append(scenario("n%d-%d-%d-%d-%d" % (sp, gl, ov, price, sn), sp, INIT, [klt(kl(b="i4", gl=gl, ov=ov, price=price))], accs={"G1": acc(3_000_000, sn)}))
            if ov == BIG:
                for big in (1, 2, 3): S.append(scenario("nb%d-%d-%d-%d-%d" % (sp, gl, price, sn, big), sp, INIT, [klt(dict(kl(b="i4", gl=gl, ov=ov, price=price), big=big))], accs={"G1": acc(3_000_000, sn)}))
        for nn in (1, 2, 127, 128, 255, 256, 2_000_000_000):
            S.append(scenario("s%d-%d" % (sp, nn), sp, INIT, [klt(kl()), klt(kl(nonce=nn))], accs={"G1": acc(3_000_000, nn)}))
        # called by a program, by a creation, on another address, with other signers; the deployer holding code or value
        for b in ("x1",):
            for kind in ("call", "create"):
                S.append(scenario("d%d-%s" % (sp, kind), sp, INIT, [tx(to="A", b=b, kind=kind, gas=6_000_000)], accs={"G9": acc(6_000_000, 0)}))
        for to in ("A", "E", "F", "ORC", "TSO", "P4"):
            S.append(scenario("t%d-%s" % (sp, to), sp, INIT, [klt(kl(), to=to)], accs={"G1": acc(3_000_000, 0), "A": acc(3, 0), "ORC": acc(0, 1, RAW(3))}))
        for a in (acc(0, 1, RAW(3)), acc(9, 0), acc(0, 1, DELEG("A"))):
            S.append(scenario("c%d-%s%d" % (sp, a["c"]["t"], a["b"]), sp, INIT, [klt(kl()), klt(kl("G2"), v=3)], accs={"G1": acc(3_000_000, 0), "G2": acc(3_000_000, 0), "KLD": a}))
        # the signer: an account with code, delegated, the relayer, the coinbase; a deposit as relayer
        for a in (acc(3_000_000, 0, RAW(4)), acc(3_000_000, 1, DELEG("A")), acc(3_000_000, 0, DELEG("A"))):
            S.append(scenario("g%d-%s%d" % (sp, a["c"]["t"], a["n"]), sp, INIT, [klt(kl()), klt(kl())], accs={"G1": a}))
        for sn in (0, 1, 2):
            for over in (0, 1):
                S.append(scenario("r%d-%d-%d" % (sp, sn, over), sp, INIT, [klt(kl(), frm="G1")], accs={"G1": acc(3_000_000 - over, sn)}))
        S.append(scenario("e%d" % sp, sp, INIT, [klt(kl(), typ="deposit", price=0, mint=4), klt(kl("G2", nonce=3), typ="deposit", price=0)], accs={"G1": acc(3_000_000, 0), "G2": acc(3_000_000, 0)}))
    S = sized(S)
    for s in S:
        for t in s["txs"]:
            if "_over" in t:  # gas left for the call is exactly the given amount
                tok = t["z"] + 4 * t["nz"]
                t["gas"] = 21000 + 44 * tok + 39000 + t.pop("_over")
    return S

SIGNERS = ["G1", "G2", "G3"]
class KGen(Gen):
    """Random histories in which deployments, ordinary transactions and the signers' accounts meet."""
    def __init__(self, rng, sp, **w):
        super().__init__(rng, sp, **w)

    def addr_any(self):
        r = self.r
        if self.opt.get("dyn") and r.random() < 0.2: return r.choice(["DYN", "P3"])
        if r.random() < 0.35: return r.choice(["G1", "G2", "G1#0", "G2#0", "G1#1", "KLD", "COIN", "S0"])
        return super().addr_any()

    def op(self, i, init):
        if self.r.random() < 0.03: return CALL("KLD", hint=[0, 0, "kl"], s=1 if self.r.random() < .5 else -1)
        return super().op(i, init)

    def tx(self, first):
        r = self.r
        if not first and r.random() < 0.25: return super().tx(first)
        g = r.choice(SIGNERS)
        gl = r.choice([200_000, 600_000, 3_000_000, 8_000_000])
        k = kl(g, "x%d" % r.choice(self.initb) if r.random() < .95 else "-stop", price=r.choice([0, 1, 2]), gl=gl, ov=gl + r.choice([0, 0, 1, 100_000]), v=r.choice([0, 0, 1, 30]))
        if r.random() < 0.1: k["nonce"] = r.choice([1, 2])
        if r.random() < 0.08: k["bad"], k["var"] = r.choice(BADS[1:12])
        t = klt(k, frm=r.choice(["S0", "S0", "S0", "S1", g, "G1"]), gas=r.choice([600_000, 1_000_000, 3_000_000, 3_000_000]), price=r.choice([0, 1]))
        t["al"] = []
        if r.random() < 0.4:
            t["typ"] = r.choice(["2930", "1559"])
            t["al"] = [[r.choice([g, g + "#0", g + "#1", "A", "B", "COIN", "KLD", "E"]), r.sample(range(4), r.randrange(3))] for _ in range(r.randrange(3))]
        if r.random() < 0.15:
            t["typ"] = "7702"
            t["auth"] = [auth(r.choice([g, g, "S1", "F", "", "A", "E"]), r.choice(["A", "B", "E", ""]), r.choice([0, 0, 1, 5]), r.choice(["ok", "ok", "bad", "zero"])) for _ in range(r.randrange(1, 3))]
        if self.opt["deps"] and r.random() < 0.1:
            t["typ"] = "deposit"; t["price"] = 0; t["al"] = []; t["auth"] = []; t["mint"] = r.choice([0, 5])
        if r.random() < 0.03: t["v"] = 1
        return t

    def fees(self, txs, kw):
        r = self.r
        super().fees(txs, kw)
        kw["fee"]["none"] = False  # (rewards of embedded transactions do not follow this switch)
        for t in txs:
            if "kl" in t: t["kl"]["price"] = max(0, kw["fee"]["base"] + r.choice([0, 0, 0, 1, 2, -1 if r.random() < .2 else 0]))

    def scenario(self, id, ntx=1, **kw):
        r = self.r
        if self.opt.get("dyn"): kw["dyn"] = True
        s = super().scenario(id, ntx, **kw)
        for g in SIGNERS:
            b = r.choice([20_000_000, 20_000_000, 9_000_000, 600_000])
            n = r.choice([0, 0, 0, 1, 2])
            c = NONE if r.random() < .85 else DELEG(r.choice(["A", "B", "E"]))
            s["acc"][g] = acc(b, n, c)
            if r.random() < 0.2: s["acc"][g + "#0"] = r.choice([acc(5), acc(0, 1), acc(0, 1, CODE), acc(1, 1, RAW(2)), acc(0, 0, RAW(2))])
            if r.random() < 0.2: s["bkt"][g + "#0"] = r.choice([512, 768])
            if r.random() < 0.2: s["bkt"][g + "#0/0"] = r.choice([512, 1024])
        s["acc"]["G9"] = acc(6_000_000, 0)
        if r.random() < 0.25: s["coin"] = r.choice(["G1", "G1#0", "KLD", "G2", "S0"])
        if r.random() < 0.1: s["acc"]["KLD"] = r.choice([acc(3), acc(0, 1, RAW(2))])
        nonces = {a: x["n"] for a, x in s["acc"].items()}
        for t in s["txs"]:
            if r.random() < .95: t["nonce"] = nonces.get(t["from"], 0)
            nonces[t["from"]] = t["nonce"] + 1
            if "kl" in t and t["typ"] != "deposit": nonces[t["kl"]["from"]] = max(1, nonces.get(t["kl"]["from"], 0))
        return s

def directed(tier):
    """C23: how embedded transactions end, met by every prior use of the accounts involved"""
    S = []
    ends = ["i0", "i1", "i2", "i3", "i4", "i5", "-stop"]
    lists = [[], [["G1", []]], [["G1", [0]]], [["G1#0", [0, 1]]], [["G1#0", []], ["G1", [1]]], [["COIN", [0]]], [["A", [0]]]]
    code = dict(INIT, i6=[CALL("A", "w1", v=3), RETURN(2)], i7=[CALL("A", "w1", v=3), REVERT(1)], i8=[CREATE("i0", v=1), RETURN(1)], i9=[PL("CHAINID", 0, 3), ENV("NUMBER"), RETURN(1)],
                j0=[SELFDESTRUCT("E")], j1=[CALL("B", "w2", t="DELEGATECALL"), RETURN(4)], j2=[GASST(3), BALST(4, "G1"), BALST(5, "S0"), BALST(6, "COIN"), RETURN(1)], j3=[CALL("ORC", "w3"), RETURN(1)],
                j4=[BLOCKHASH(3), RETURN(1)], j5=[BURN(60), RETURN(3, ef=True)], j6=[IS("ORIGIN", "G1", 1), IS("CALLER", "G1", 2), RETURN(1)],
                w1=[SSTORE(0, 4), LOG(2, 3)], w2=[SELFDESTRUCT("E2")], w3=[SLOAD(0)])
    for sp in ((REX2, REX3) if tier == "quick" else (REX2, REX3, REX4)):
        for e in ends + ["i6", "i7", "i8", "i9", "j0", "j1", "j2", "j3", "j4", "j5", "j6"]:
            for n, al in enumerate(lists):
                for v in (0, 5):
                    S.append(scenario("e%d-%s-%d-%d" % (sp, e, n, v), sp, code, [klt(kl(b=e, v=v), al=al), klt(kl(b=e, v=v))], st=[["A", 0, 1]],
                                      accs={"G1": acc(5_000_000, 0), "G1#0": acc(2 if n % 2 else 0, 0), "B": acc(0, 1, CODE), "ORC": acc(0, 1, CODE)}))
            for auths in ([auth("G1", "A", 1)], [auth("G1", "A", 0)], [auth("G1", "", 0)], [auth("A", "B", 1)]):
                S.append(scenario("u%d-%s-%d" % (sp, e, len(S)), sp, code, [klt(kl(b=e), auth=auths)], accs={"G1": acc(5_000_000, 0), "ORC": acc(0, 1, CODE)}))
            # a signer that comes into being by its own authorizations in the same transaction
            for auths in ([auth("G1", "A", 0)], [auth("G1", "A", 0), auth("G1", "", 1)]):
                for a in ({}, {"G1": acc(7, 0)}):
                    S.append(scenario("w%d-%s-%d" % (sp, e, len(S)), sp, code, [klt(kl(b=e, price=0), auth=auths), klt(kl(b=e, price=0))], accs=dict(a, ORC=acc(0, 1, CODE))))
            for coin in ("G1", "G1#0", "S0", "A"):
                S.append(scenario("k%d-%s-%s" % (sp, e, coin), sp, code, [klt(kl(b=e)), klt(kl(b="i2"))], coin=coin, accs={"G1": acc(5_000_000, 0), "ORC": acc(0, 1, CODE)}))
            S.append(scenario("f%d-%s" % (sp, e), sp, code, [klt(kl(b=e), frm="G1"), klt(kl(b=e), frm="G1")], accs={"G1": acc(9_000_000, 0), "ORC": acc(0, 1, CODE)}))
            # limits on the outer transaction
            for lim in ({"c": 30_000}, {"c": 121_000}, {"d": 300}, {"d": 5000}, {"k": 0}, {"k": 1}, {"g": 0}, {"c": 60_000, "be": 25_000}):
                for coin in ("COIN", "S0"):
                    S.append(scenario("l%d-%s-%d" % (sp, e, len(S)), sp, code, [klt(kl(b=e)), klt(kl(b=e))], lim=lim, coin=coin, accs={"G1": acc(5_000_000, 0), "ORC": acc(0, 1, CODE)}))
    return S

def check(rep):
    fam = FAMS[rep.prop]
    rng = random.Random("%s/%s/%d" % (rep.prop, rep.tier, rep.seed))
    q = rep.tier == "quick"
    tags, bad = findings.calibrate(rep)
    for p, t, text in findings.listed():
        if p == rep.prop and t in tags: rep.known.append("KNOWN-FINDING: property=%s %s" % (p, text))
    for s, e, o, d in bad:
        d = [x for x in d if x[1] in fam.fields or x[1] == "panic"]
        if d: rep.violation("demonstration %s: %s" % (s["id"], txrun.short(d[:3])), {"scenario": s, "expected": e, "observed": o, "differences": d})
    def go(S):
        S = sized([dict(s, dev=list(tags)) for s in S])
        exp = core.run_spec("Replay", S)
        for s in S:
            for x in exp[s["id"]]:
                if x["kl"]: rep.kinds["keyless:" + (x["kl"][0] or "deployed")] += 1
        txrun.run_batch(rep, fam, S, exp)
        return S, exp
    if rep.prop == "C22":
        S = validation(rep.tier)
        rep.exhaustive += len(S)
        go(S)
    else:
        go(directed(rep.tier))
    n = {"C22": (1000, 10000), "C23": (3000, 30000)}[rep.prop][0 if q else 1]
    done = 0
    while done < n and len(rep.violations) < 20:
        B = []
        for i in range(done, min(n, done + 2000)):
            opts = rng.choice([{}, dict(orc=True, hints=True), dict(deps=True, bad=True), dict(delegs=True), dict(dyn=True), dict(fees=True), dict(fees=True, cfgs=True, deps=True)])
            g = KGen(rng, (REX1, REX2, REX3, REX4, REX2, REX3)[i % 6], w=dict(SELFDESTRUCT=3), **opts)
            B.append(g.scenario("r%d" % i, ntx=rng.choice((1, 2, 3))))
        done += len(B)
        go(B)

def replay(rep, rec):
    s = rec["scenario"]
    exp = core.run_spec("Replay", [dict(s, marks=False)])
    obs = core.run_impl("replay", [s])
    txrun.judge(rep, FAMS[rep.prop], [s], exp, obs)
