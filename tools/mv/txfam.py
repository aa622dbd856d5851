"""Families of transaction-level scenarios per property, and the fields each property owns."""
import itertools
from .scen import *

ALLSP = [MINI, REX, REX1, REX2, REX3, REX4]
RES = ["kind", "why", "limit", "actual"]
ALL = ["kind", "why", "limit", "actual", "gas", "ref", "out", "cg", "ds", "kv", "gr", "vol", "access", "logs", "hints",
       "reads", "asked", "seen", "hashes", "acc", "st"]

def cfg(id, sp, alpha, mx, depth=3, ends=None, iends=None, txs=None, **kw):
    s = scenario(id, sp, {"y0": [], "y1": [], "y2": [], "-": [], "z": [BURN(9), RETURN(2)]}, txs or [tx(b="y0", gas=20_000_000 if sp == MINI else 6_000_000, price=0)], **kw)
    s.update(alpha=alpha, ends=ends or [STOP, REVERT(0)], iends=iends or [RETURN(1), REVERT(0)], max=mx, depth=depth)
    return s

class Fam:
    """fields owned; gen: list of (share, options, weights); explore(tier) -> configurations; directed(tier) -> scenarios"""
    def __init__(self, fields, gen=None, kinds=None, explore=None, directed=None, sps=None, ntx=(1, 1, 2), modes=("plain",),
                 pairs=(), nbase=(900, 9000), nvar=(3, 6), promises="", dress=None, faults=None):
        self.fields, self.gen, self.kinds = fields, gen or [(1, {}, {})], kinds
        self.explore, self.directed, self.sps, self.ntx = explore, directed, sps or ALLSP, ntx
        self.modes, self.pairs, self.nbase, self.nvar = modes, pairs, nbase, nvar
        self.promises, self.dress, self.faults = promises, dress, faults

def spread(mk, quick, thorough):
    """configurations from mk(sp, n): quick = {sp: ops}, thorough = {sp: ops}"""
    return lambda tier: [mk(sp, n) for sp, n in (quick if tier == "quick" else thorough).items()]

ST0 = [["A", 1, 1], ["B", 1, 1]]
def every(n): return {sp: n for sp in ALLSP}

# -------------------------------------------------------------- alphabets
def a_slots(sp, n):
    return cfg("slots%d" % sp, sp, [SSTORE(0, 1), SSTORE(0, 0), SSTORE(1, 0), SSTORE(1, 1), SSTORE(1, 2), CALL("B", "?"), CALL("A", "?"),
                                    CALL("B", "?", t="DELEGATECALL")], n, st=ST0)
def a_value(sp, n):
    return cfg("value%d" % sp, sp, [CALL("E", v=1), CALL("E2", v=1), CALL("B", "?", v=1), CALL("A", "?"), CALL("E", v=1, t="CALLCODE"), CREATE("?", v=1),
                                    CALL("B", "?", t="DELEGATECALL"), LOG(1, 5)], n, accs={"B": acc(3, 1, CODE)})
def a_create(sp, n):
    return cfg("create%d" % sp, sp, [CREATE("?"), CREATE("?", salt=7), CREATE("?", v=5000), CREATE("z", salt=1), SSTORE(0, 1), LOG(0, 3), CALL("B", "?")], n,
               iends=[RETURN(1), RETURN(40), REVERT(0), INVALID, RETURN(3, ef=True)])
def a_vol(sp, n):
    lim = {"be": 34_000, "or": 30_000}
    return cfg("vol%d" % sp, sp, [ENV("NUMBER"), ACC("BALANCE", "COIN"), CALL("ORC", "?"), SLOAD(0), CALL("COIN"), BURN(4000), CALL("B", "?"),
                                  BLOCKHASH(1), SELFBALANCE()], n, accs={"ORC": acc(0, 1, CODE)}, lim=lim)
def a_gas(sp, n):
    return cfg("gas%d" % sp, sp, [CALL("B", "?"), CALL("B", "?", g=40_000), CALL("B", "?", v=1), CALL("B", "?", t="DELEGATECALL"), CALL("B", "?", t="STATICCALL"),
                                  CALL("B", "?", t="CALLCODE"), CALL("B", "?", t="CALLCODE", v=1), CREATE("?"), GASST(0), GASST(1)], n, ends=[STOP, INVALID])
def a_orc(sp, n):
    return cfg("orc%d" % sp, sp, [SLOAD(0), SCOPY(0, 5), SCOPY(1, 6), SSTORE(0, 9), CALL("ORC", "?"), CALL("ORC", "?", t="DELEGATECALL"), CALL("B", "?"),
                                  CALL("ORC", hint=[3, 4, "ok"])], n, accs={"ORC": acc(0, 1, CODE)}, st=[["ORC", 0, 4], ["ORC", 1, 8]], orc=[[0, 7]])
def a_hint(sp, n):
    return cfg("hint%d" % sp, sp, [CALL("ORC", hint=[3, 4, "ok"]), CALL("ORC", hint=[5, 0, "trail"]), CALL("ORC", hint=[3, 4, "trunc"]), CALL("B", hint=[3, 4, "ok"]),
                                   CALL("ORC", hint=[2, 40, "ok"], t="DELEGATECALL"), CALL("ORC", hint=[2, 33, "ok"], t="STATICCALL"), CALL("B", "?"),
                                   CALL("B", "?", t="DELEGATECALL"), CALL("ORC", hint=[3, 4, "ok"], g=0)], n,
               accs={"ORC": acc(0, 1, CODE)})
def a_sd(sp, n):
    return cfg("sd%d" % sp, sp, [SELFDESTRUCT("E"), SELFDESTRUCT("A"), SELFDESTRUCT("B"), CALL("B", "?"), CALL("B", "?", t="DELEGATECALL"), CALL("B", "?", t="STATICCALL"),
                                 CREATE("?", v=5), SSTORE(0, 1)], n, accs={"B": acc(30, 1, CODE)}, iends=[RETURN(1), SELFDESTRUCT("E2"), REVERT(0)])
def a_deleg(sp, n):
    return cfg("deleg%d" % sp, sp, [CALL("D", "?"), CALL("D", "?", v=1), CALL("DE", v=1), CALL("DS"), SSTORE(0, 1), SSTORE(1, 0), CALL("D", "?", t="DELEGATECALL"),
                                    CALL("B", "?")], n, st=[["B", 0, 5], ["B", 1, 6], ["D", 1, 1]],
               accs={"D": acc(40, 1, DELEG("B")), "DE": acc(0, 1, DELEG("E")), "DS": acc(0, 0, DELEG("DS"))}, bkt={"D/0": 1024, "B/0": 2560})
def a_hist(sp, n):
    return cfg("hist%d" % sp, sp, [SSTORE(0, 1), ENV("NUMBER"), CALL("ORC", "?"), LOG(1, 8), TSTORE(0, 1), TCOPY(0, 3), BURN(2000)], n, ends=[STOP, INVALID],
               accs={"ORC": acc(0, 1, CODE)}, lim={"c": 40_000, "be": 23_000, "d": 400},
               txs=[tx(b="y0", gas=6_000_000, price=0), tx(b="y1", gas=6_000_000, price=0)])

def a_fee(sp, n):
    return cfg("fee%d" % sp, sp, [CALL("COIN", v=1), CALL("L1V", v=2), BALST(0, "COIN"), BALST(1, "S0"), BALST(2, "BASEV"), SELFDESTRUCT("COIN"), CALL("B", "?", v=3), CREATE("?", v=1)], n, ends=[STOP, REVERT(0), INVALID],
               fee={"base": 2, "l1": 100, "ops": 1000, "opc": 7, "none": False}, accs={"B": acc(3, 1, CODE)},
               txs=[dict(tx(b="y0", gas=20_000_000 if sp == MINI else 6_000_000, price=5, typ="1559", v=4), tip=1)])

def fees(tier):
    """every kind of transaction x prices around the base fee x the parts of the fee x endings; requests of keyless deployments"""
    from . import kldrun
    S = []
    code = {"x0": [CALL("B", "x1", v=3), BALST(0, "S0"), BALST(1, "COIN")], "x1": [SSTORE(0, 1)], "x2": [SSTORE(1, 2), REVERT(4)], "x3": [INVALID], "x4": [SSTORE(1, 0)], "x5": [SELFDESTRUCT("S0")], "x6": [RETURN(3)]}
    # (long init code that does not compress well: the L1 fee goes by the compressed size)
    long = [p for k in range(12) for p in (SSTORE(k, k + 1), PL(STORABLE[k % len(STORABLE)], 0, 40 + 3 * k), LOG(k % 5, 7 * k), BALST(90 + k * k, ("A", "B", "COIN", "S0")[k % 4]), CALL("EABCF"[k % 5], "x1", v=0, g=999 * k, n=k, s=200 + k))]
    code.update({k: v for k, v in kldrun.INIT.items() if k[0] == "i"}, ib=long + [RETURN(3)], ic=long + [INVALID])
    fs = [{"base": b, "l1": l, "ops": o, "opc": c, "none": n, "stored": st} for b, l, o, c, n, st in itertools.product((0, 3), (0, 1000), (0, 1999), (0, 11), (False, True), (False, True))]
    for sp in range(7):
        for i, f in enumerate(fs):
            if tier == "quick" and (i + sp) % 4: continue
            if sp == EQ and f["none"]: continue
            for j, (b, kind) in enumerate((("x0", "call"), ("x2", "call"), ("x3", "call"), ("x4", "call"), ("x5", "call"), ("x6", "create"), ("x3", "create"))):
                for typ, price, tip in (("legacy", 3, None), ("legacy", 2, None), ("2930", 5, None), ("1559", 5, 1), ("1559", 3, 3), ("1559", 4, 2), ("1559", 3, 0), ("deposit", 0, None), ("7702", 6, 1)):
                    if tier == "quick" and (i + j + price) % 3: continue
                    if kind == "create" and typ == "7702": continue
                    t = tx(b=b, kind=kind, typ=typ, price=price, gas=1_000_000 if sp != MINI else 9_000_000, mint=9 if typ == "deposit" else 0, v=2)
                    if tip is not None: t["tip"] = tip
                    if typ == "7702": t["auth"] = [auth("F", "B", 0)]
                    t2 = tx(b="x1", price=4, gas=200_000 if sp != MINI else 3_000_000)
                    S.append(scenario("f%d.%d.%d.%s.%d.%s" % (sp, i, j, typ, price, tip), sp, code, [t, t2], st=[["A", 1, 1]], fee=f, coin=("COIN", "A", "S0", "L1V", "BASEV")[(i + j) % 5]))
        if sp >= REX2:
            for i, f in enumerate(fs):
                if f["none"]: continue
                for b in ("i0", "ib", "i2", "ic"):
                    for price in (2, 3, 4):
                        S.append(scenario("fk%d.%d.%s.%d" % (sp, i, b, price), sp, code, [kldrun.klt(kldrun.kl(b=b, price=price), price=5), kldrun.klt(kldrun.kl("G2", b=b, price=price), typ="deposit", price=0)],
                                          accs={"G1": acc(9_000_000, 0), "G2": acc(9_000_000, 0)}, fee=f))
    ks = [s for s in S if s["id"].startswith("fk")]
    kldrun.sized(ks)
    return S

def watched(rng, s):
    """an observer writes down what it is told, and may answer calls and creations itself"""
    s["watch"] = True
    if rng.random() < .5:
        s["icpt"] = {a: {"r": rng.choice(["Return", "Stop", "Revert", "OutOfGas"]), "gas": rng.choice([0, 1, 700, 10**8])}
                     for a in rng.sample(["A", "B", "C", "E", "F", "D", "P4", "ORC", "A+", "B+", "C+", "A+", "B+"], rng.randrange(1, 4))}
    return s

def watched_small(tier):
    n = 2 if tier == "quick" else 3
    S = [f(sp, n) for sp in ((EQ, REX1, REX3) if tier == "quick" else [EQ] + ALLSP) for f in (a_create, a_hint, a_sd, a_value, a_gas)]
    S += [dict(f(sp, n), icpt=i) for sp in ((MINI, REX3) if tier == "quick" else [EQ] + ALLSP) for f in (a_create, a_value, a_gas)
          for i in ({"B": {"r": "Return", "gas": 700}, "A+": {"r": "Revert", "gas": 10}}, {"E": {"r": "OutOfGas", "gas": 0}, "B+": {"r": "Stop", "gas": 10**8}})]
    for k, c in enumerate(S): c["watch"] = True; c["id"] += "w%d" % k
    return S

def sc(b="y0", frm="SYSA", to="A", **kw): return tx(frm=frm, to=to, b=b, gas=30_000_000, price=0, typ="sc", nonce=0, **kw)
def a_call(sp, n):
    return cfg("call%d" % sp, sp, [SSTORE(0, 1), ENV("NUMBER"), CALL("ORC", "?"), CALL("SYSA", v=1), CREATE("?"), ACC("BALANCE", "SYSA"), IS("ORIGIN", "SYSA", 3), SLOAD(1)], n, ends=[STOP, REVERT(0), INVALID],
               accs={"ORC": acc(0, 1, CODE)}, st=ST0, orc=[[1, 7]], txs=[sc()])
def a_callh(sp, n):
    c = a_hist(sp, n)
    c["txs"] = [sc("y0", frm="F"), c["txs"][1]]; c["txs"][1]["nonce"] = 5; c["id"] = "callh%d" % sp
    return c

def syscalls(tier):
    """every caller x callee x spec, under limits met from the start, with the block's producer among them"""
    from . import kldrun
    S = []
    code = {"x0": [SSTORE(0, 1), CALL("B", "x1", v=2), LOG(2, 3), ENV("TIMESTAMP"), BALST(3, "S0"), IS("CALLER", "SYSA", 4), IS("ORIGIN", "SYSA", 5), GASST(6)], "x1": [SSTORE(1, 0), CREATE("x2")], "x2": [RETURN(3)]}
    accs = {"ORC": acc(0, 1, CODE), "KLD": acc(0, 1, RAW(9)), "D": acc(40, 1, DELEG("B")), "SYS": acc(3, 2), "R": acc(0, 1, RAW(2))}
    for sp in range(7):
        for frm in ("SYSA", "SYS", "S0", "F", "E", "A", "ORC"):
            for to in ("A", "B", "ORC", "KLD", "D", "E", "F", "P4", "P2", "COIN", "R"):
                for lim in ({}, {"d": 150}, {"d": 181}, {"k": 0}, {"c": 0}, {"c": 26_000}, {"g": 0}, {"be": 30_000}):
                    if lim and (tier == "quick" and (len(S) % 5) or sp == EQ): S.append(None); continue
                    S.append(scenario("sc%d" % len(S), sp, code, [sc("x0", frm, to, nz=2 + len(S) % 3), tx(b="x0", gas=20_000_000 if sp == MINI else 3_000_000, price=0), sc("x0", frm, to)], accs=accs, lim=lim,
                                      coin=("COIN", "COIN", frm, to, "S1")[len(S) % 5], st=[["B", 1, 1]], orc=[[0, 5]], bkt={"-": 256, "A/0": 1024, "B#1": 768}))
        if sp >= REX1:
            K = [scenario("sk%d.%s.%d" % (sp, frm, k), sp, dict(kldrun.INIT), [dict(sc("-", frm, "KLD"), kl=kldrun.kl(b="i%d" % k, price=k % 2)), kldrun.klt(kldrun.kl("G2", b="i1"))], accs={"G1": acc(3_000_000, 0), "G2": acc(3_000_000, 0)})
                 for frm in ("SYSA", "SYS", "F", "G1") for k in range(6)]
            S += kldrun.sized(K)
    return [s for s in S if s]

VOLW = dict(ENV=6, VAL=6, BLOBHASH=2, BLOCKHASH=4, ACC=8, SELFBALANCE=3, BURN=4, SSTORE=4, LOG=1)

def sizes(tier):
    """C25: code and init code around the limits, at top level and nested."""
    S = []
    for sp in range(7):
        mc, mi = (24576, 49152) if sp == 0 else (524288, 548864)
        big = 2_000_000_000 if sp == MINI else 2_000_000_000
        words = (mc + 31) // 32
        for d in (-1, 0, 1):
            if sp == 0:
                S.append(scenario("cs%d.%d" % (sp, d), sp, {"x0": [RETURN(mc + d)]}, [tx(kind="create", b="x0", gas=30_000_000, price=0)]))
                S.append(scenario("cn%d.%d" % (sp, d), sp, {"x0": [CREATE("x1", s=0)], "x1": [RETURN(mc + d)]}, [tx(b="x0", gas=30_000_000, price=0)]))
            n = mi + d
            S.append(scenario("is%d.%d" % (sp, d), sp, {"x0": [RETURN(1)]}, [tx(kind="create", b="x0", gas=200_000_000 if sp else 30_000_000, price=0, nz=1024, z=n - 1024)]))
        if sp:
            for n in (24576, 24577, 30000) + ((100_000, 180_000) if tier == "thorough" or sp == REX3 else ()):
                # 10,000 storage gas per byte bounds what a transaction can deploy
                S.append(scenario("cm%d.%d" % (sp, n), sp, {"x0": [RETURN(n)]}, [tx(kind="create", b="x0", gas=min(BIG - 1, n * 10_200 + 30_000_000), price=0)]))
                S.append(scenario("cp%d.%d" % (sp, n), sp, {"x0": [RETURN(n)]}, [tx(kind="create", b="x0", gas=min(BIG - 1, n * 10_000 + 2_000_000), price=0)]))
            S.append(scenario("cb%d" % sp, sp, {"x0": [CREATE("x1", s=0)], "x1": [RETURN(30000)]}, [tx(b="x0", gas=400_000_000, price=0)]))
    return S

def kl_limits(tier):
    """keyless deployments under limits of the outer transaction"""
    from . import kldrun
    return kldrun.sized([s for s in kldrun.directed(tier) if s["id"][0] == "l"])

def every_op(sps, around=True):
    """every instruction without operands of its own, at top level, in callees of every kind and in init code"""
    def go(tier):
        S = []
        for sp in sps:
            for e, n in PLAINS:
                op = PL(e, n, 3 if e in STORABLE else -1)
                t = ("CALL", "DELEGATECALL", "STATICCALL", "CALLCODE")[len(S) % 4]
                inner = PL(e, n)
                S.append(scenario("op%d-%s%d" % (sp, e, n), sp, {"x0": [op, CALL("B", "x1", t=t), CREATE("x2"), op], "x1": [inner], "x2": [inner, RETURN(0)]},
                                  [tx(gas=9_000_000)], marks=around))
            for op in [ENV(e) for e in ENVS] + [ACC(e, "B") for e in ACCS] + [BLOBHASH(), BLOCKHASH(1), SELFBALANCE(), TSTORE(0, 1), TCOPY(0, 1), SLOAD(1), SCOPY(1, 2), MEM(200), BURN(3),
                       UNDERFLOW, INVALID, CLZ] + [LOG(k, 7) for k in range(5)] + [UNDEF(b) for b in (0x0c, 0x1f, 0x21, 0x4b, 0x5f + 0x4f, 0xa5, 0xb0, 0xef, 0xf6, 0xfb)]:
                S.append(scenario("oq%d-%d" % (sp, len(S)), sp, {"x0": [op, CALL("B", "x1"), op], "x1": [op]}, [tx(gas=9_000_000)], marks=around))
        return S
    return go

def large(sps, also=None):
    """what small histories never reach: long logs, calldata, code, hints, lists and chains of calls"""
    def go(tier):
        S = also(tier) if also else []
        for sp in sps:
            def add(id, code, txs, **kw):
                S.append(scenario("big%d-%s" % (sp, id), sp, code, txs, **kw))
            m = sp == MINI
            G = 200_000_000 if m else 60_000_000
            add("log", {"x0": [MEM(2400), LOG(2, 9000), CALL("B", "x1"), LOG(4, 70_000)], "x1": [MEM(2400), LOG(1, 70_001), LOG(0, 300)]}, [tx(gas=G, price=0)])
            add("logrevert", {"x0": [CALL("B", "x1", s=1), LOG(0, 1)], "x1": [MEM(2400), LOG(1, 70_001), REVERT(0)]}, [tx(gas=G, price=0)])
            add("data", {"x0": [SSTORE(0, 1)]}, [tx(gas=G, price=0, z=200_000), tx(gas=G, price=0, z=70_000, nz=70_000)])
            if sp: add("code", {"x0": [RETURN(26_000)], "x1": [CREATE("x0", s=1)]}, [tx(kind="create", b="x0", gas=400_000_000, price=0), tx(b="x1", gas=400_000_000, price=0)])
            hs = [CALL("ORC", hint=[k + 1, n, v], t=c) for k, (n, v, c) in enumerate([(257, "ok", "CALL"), (600, "ok", "CALL"), (900, "ok", "STATICCALL"), (513, "trail", "CALL"), (700, "trunc", "CALL")])]
            add("hint", {"x0": hs[:2] + [CALL("B", "x1")], "x1": hs[2:]}, [tx(gas=G, price=0)], accs={"ORC": acc(0, 1, CODE)})
            # a long chain of calls, the lower part of which fails or not
            for bad in (0, 7, 3):
                code = {}
                for k in range(12):
                    t = ("CALL", "CALL", "CALLCODE", "DELEGATECALL")[k % 4]
                    ops = [SSTORE(k % 4, 1 + k % 2), LOG(1, k)]
                    if k % 3 == 1: ops.append(CALL(("E", "E2", "A#9")[k // 3 % 3], v=1))
                    if k < 11: ops.append(CALL("AB"[k % 2], "x%02d" % (k + 1), t=t, v=1 if k in (4, 8) else 0, s=5))
                    if k % 4 == 2: ops.append(SSTORE(k % 4, 0))
                    ops.append(REVERT(0) if bad and k == bad else STOP)
                    code["x%02d" % k] = ops
                add("deep%d" % bad, code, [tx(b="x00", gas=G, price=0), tx(b="x00", gas=G, price=0)], st=ST0, accs={"B": acc(30, 1, CODE)}, marks=bad != 3)
            # every volatile read, in two orders, under limits that are close
            rd = [ENV(e) for e in ENVS] + [BLOBHASH(), BLOCKHASH(1), ACC("BALANCE", "COIN")]
            orc = [CALL("ORC", "x1")]
            for k, ops in enumerate((rd + orc, orc + rd, rd[::-1] + orc)):
                for lim in ({"be": 46_000, "or": 40_000}, {"be": 40_000, "or": 46_000}):
                    add("vol%d%s" % (k, lim["or"]), {"x0": ops + [BURN(1000)] * 24, "x1": [SLOAD(0)]}, [tx(gas=G, price=0)], accs={"ORC": acc(0, 1, CODE)}, lim=lim)
            # long lists
            al = [[n, list(range(k % 5))] for k, n in enumerate(["A", "B", "E", "C", "F", "P4", "COIN", "ORC", "S1", "E2"] * 3)]
            add("list", {"x0": [SLOAD(1), SSTORE(2, 1)]}, [tx(gas=G, price=0, typ="2930", al=al), tx(gas=G, price=0, typ="1559", al=al[:17])])
            au = [auth("" if k % 3 else "S1", "B", k // 3, "ok" if k % 2 else "bad") for k in range(260)]
            add("auths", {"x0": [SLOAD(1), SSTORE(2, 1)]}, [tx(gas=G, price=0, typ="7702", auth=au)])
        return S
    return go

G_ALL = [(3, {}, {}), (1, dict(orc=True, hints=True), {}), (1, dict(delegs=True), {}), (1, dict(auths=True), {}), (1, dict(deps=True), {}),
         (1, dict(bad=True), {})]
G_FEE = [(2, dict(fees=True), {}), (1, dict(fees=True, auths=True), {}), (1, dict(fees=True, deps=True, sys=True, orc=True), {}), (1, dict(fees=True, bad=True, cfgs=True), {})]
FULL = [(1, dict(fees=True, cfgs=True, bad=True, auths=True, delegs=True, deps=True), {})]

FAMS = {
 "C01": Fam(directed=every_op([EQ]), fields=["kind", "why", "gas", "ref", "out", "logs", "acc", "st"], sps=[EQ], modes=("plain", "op"), pairs=[("plain", "op")], ntx=(1, 2, 3), nbase=(1800, 12000), nvar=(1, 3),
            kinds=("gas",), gen=[(3, {}, {}), (1, dict(orc=True, hints=True), {}), (1, dict(delegs=True), {}), (1, dict(auths=True), {}), (1, dict(deps=True), {}),
            (1, dict(bad=True), {}), (2, dict(sys=True, orc=True), {}), (1, dict(calls=True, orc=True), dict(PRE=0))] + G_FEE + FULL,
            explore=lambda t: [f(EQ, 2 if t == "quick" else 3) for f in (a_slots, a_value, a_create, a_vol, a_gas, a_orc, a_sd, a_deleg)]),
 "C02": Fam(RES + ["logs", "st"], directed=kl_limits, kinds=("c", "d", "k", "g", "two", "be"), gen=G_ALL, explore=None),
 "C03": Fam(RES + ["gas", "logs", "acc", "st", "out"], directed=large(ALLSP, kl_limits), kinds=("c", "d", "k", "g", "two", "be", "gas"), gen=G_ALL),
 "C04": Fam(directed=large(ALLSP), fields=["ds"] + RES, kinds=("d", "d", "c", "gas"), gen=G_ALL, explore=spread(a_slots, {REX3: 3, MINI: 2}, every(3)), ),
 "C05": Fam(directed=large(ALLSP), fields=["kv"] + RES, kinds=("k", "k", "c", "gas"), gen=G_ALL, explore=spread(a_value, {REX3: 3, MINI: 2}, every(3))),
 "C06": Fam(directed=large(ALLSP), fields=["gr"] + RES, kinds=("g", "g", "c", "gas"), gen=G_ALL, explore=lambda t: [a_slots(REX2, 3), a_value(REX, 2), a_create(REX3, 2)] if t == "quick" else
            [f(sp, 3) for f in (a_slots, a_value, a_create) for sp in (REX, REX2, REX3)]),
 "C07": Fam(["cg"] + RES, directed=large(ALLSP, every_op(ALLSP)), kinds=("c", "c", "gas"), gen=G_ALL, explore=spread(a_create, {REX3: 3, MINI: 2}, every(3))),
 "C08": Fam(directed=large(ALLSP), fields=RES + ["gas", "access", "cg"], kinds=("be", "or", "be", "c"), gen=[(2, dict(orc=True), VOLW), (1, dict(orc=True, hints=True), {}), (1, dict(orc=True, sys=True), VOLW)],
            explore=spread(a_vol, {MINI: 2, REX: 3, REX2: 2, REX3: 3, REX4: 2}, every(4))),
 "C09": Fam(directed=large([EQ] + ALLSP), fields=["vol", "access", "st"], kinds=("be", "or", "gas", "c"), gen=[(2, dict(orc=True), VOLW), (1, dict(orc=True, sys=True), VOLW)], sps=[EQ] + ALLSP, ntx=(1, 2, 2, 3),
            explore=spread(a_vol, {EQ: 2, MINI: 2, REX: 2, REX2: 2, REX3: 3}, {**every(3), EQ: 3})),
 "C10": Fam(directed=large(ALLSP), fields=["gas", "seen"] + RES, kinds=("gas",), gen=[(3, {}, {}), (1, dict(delegs=True), {}), (1, dict(bad=True), {})],
            explore=lambda t: [f(sp, 2) for f in (a_slots, a_value, a_create) for sp in (MINI, REX, REX3)] if t == "quick" else [f(sp, 3) for f in (a_slots, a_value, a_create) for sp in ALLSP]),
 "C11": Fam(directed=large(ALLSP), fields=["gas", "ref"] + RES, kinds=("gas",), gen=[(2, dict(bad=True), dict(LOG=20)), (1, dict(deps=True), dict(LOG=20)), (1, dict(auths=True, bad=True), {}), (1, dict(fees=True, cfgs=True), dict(LOG=20))]),
 "C12": Fam(directed=large(ALLSP), fields=["gas", "st", "tr"] + RES, modes=("plain", "trace"), dress=lambda rng, s: dict(s, watch=True), kinds=("gas", "gas", "c"), gen=[(2, {}, dict(GASST=8, CALL=16, CREATE=8)), (1, dict(delegs=True), dict(GASST=8, CALL=16))],
            explore=spread(a_gas, {MINI: 2, REX: 3, REX3: 2, EQ: 2}, {**every(3), EQ: 3})),
 "C13": Fam(directed=large([EQ] + ALLSP), fields=ALL, ntx=(2, 3, 4), modes=("plain", "fresh"), sps=[EQ] + ALLSP, nbase=(800, 8000), gen=[(2, dict(bad=True), {}), (1, dict(orc=True, hints=True, bad=True), VOLW), (1, dict(deps=True, auths=True), {}),
            (1, dict(sys=True, orc=True), {}), (1, dict(calls=True, orc=True), dict(PRE=0))] + FULL, faults=(1, 12), explore=spread(a_hist, {MINI: 2, REX: 2, REX1: 2, REX3: 3}, every(3))),
 "C14": Fam(directed=large([EQ] + ALLSP), fields=ALL, modes=("plain", "inspect"), pairs=[("inspect", "plain")], sps=[EQ] + ALLSP, ntx=(1, 2, 3), gen=G_ALL + [(1, dict(sys=True, orc=True), {}), (1, dict(calls=True, orc=True), dict(PRE=0))] + FULL, nbase=(800, 8000),
            explore=lambda t: [f(sp, 2) for f in (a_create, a_vol, a_hint, a_sd) for sp in (REX1, REX3)] if t == "quick" else [f(sp, 3) for f in (a_create, a_vol, a_hint, a_sd, a_value) for sp in (MINI, REX2, REX3)]),
 "C19": Fam(["kind", "why", "gas", "acc", "st", "vol", "logs", "ds", "kv"], sps=[EQ] + ALLSP, ntx=(1, 2, 3), gen=[(3, dict(sys=True, orc=True), {}), (1, dict(sys=True, orc=True, bad=True, auths=True), {}), (1, dict(sys=True, deps=True), {}), (1, dict(sys=True, orc=True, fees=True, cfgs=True), {})], kinds=("gas", "c")),
 "C20": Fam(directed=large([EQ] + ALLSP), fields=["reads", "st", "cg", "gas"] + RES, sps=[EQ] + ALLSP, gen=[(2, dict(orc=True), dict(SLOAD=12, SCOPY=10)), (1, dict(orc=True, delegs=True, sys=True), dict(SLOAD=12, SCOPY=10))], kinds=("gas", "c", "or"),
            explore=spread(a_orc, {EQ: 2, MINI: 2, REX: 2, REX3: 3}, {**every(3), EQ: 3})),
 "C21": Fam(directed=large([EQ] + ALLSP), fields=["hints", "reads"], sps=[EQ] + ALLSP, gen=[(1, dict(orc=True, hints=True), {}), (1, dict(orc=True, hints=True, delegs=True, sys=True), {})], kinds=("gas", "c", "d"),
            explore=spread(a_hint, {REX1: 2, REX2: 3, REX3: 2}, every(3))),
 "C24": Fam(["acc", "st", "gas", "gr"] + RES, sps=[EQ] + ALLSP, gen=[(1, {}, dict(SELFDESTRUCT=12)), (1, dict(delegs=True), dict(SELFDESTRUCT=10, CREATE=10))], kinds=("gas", "c"),
            explore=spread(a_sd, {EQ: 2, MINI: 2, REX1: 2, REX2: 3, REX3: 2}, {**every(3), EQ: 3})),
 "C25": Fam(["acc", "gas", "st", "ds"] + RES, sps=[EQ] + ALLSP, nbase=(300, 3000), gen=[(1, dict(codelens=[0, 1, 32, 33, 100, 1000]), dict(CREATE=20)), (1, dict(cfgs=True), dict(CREATE=20))], kinds=("gas", "d"), directed=sizes),
 "C28": Fam(directed=large([EQ] + ALLSP), fields=["seen", "asked", "hashes"], sps=[EQ] + ALLSP, ntx=(1, 2, 3), gen=[(2, {}, dict(BLOCKHASH=8)), (1, dict(bad=True), {}), (1, dict(delegs=True, deps=True), {})], kinds=("gas", "c", "k"),
            explore=spread(a_value, {MINI: 2, REX3: 2}, every(3))),
 "C29": Fam(directed=large([EQ] + ALLSP), fields=ALL, sps=[EQ] + ALLSP, ntx=(1, 2), gen=[(1, dict(delegs=True), dict(SSTORE=14)), (2, dict(auths=True), dict(SSTORE=14))],
            explore=spread(a_deleg, {MINI: 2, REX: 2, REX3: 3}, every(3))),
 "C31": Fam(["kind", "why", "gas", "acc", "st"], sps=[EQ] + ALLSP, ntx=(1, 2, 3), gen=G_FEE + FULL, directed=fees, kinds=("gas", "c", "d"),
            explore=spread(a_fee, {EQ: 2, MINI: 2, REX3: 2}, {**every(3), EQ: 3})),
 "C32": Fam(ALL + ["tr"], sps=[EQ] + ALLSP, ntx=(1, 2, 3), modes=("trace",), gen=G_ALL + [(1, dict(sys=True, orc=True), {})] + FULL, directed=large([EQ] + ALLSP, every_op([EQ] + ALLSP, False)), kinds=("gas", "c", "d", "k", "g"), nvar=(2, 6),
            explore=watched_small, dress=watched),
 "C35": Fam(ALL, sps=[EQ] + ALLSP, ntx=(1, 2, 3, 4), modes=("plain", "inspect", "api"), gen=[(2, dict(calls=True, orc=True, hints=True), {}), (1, dict(calls=True, orc=True, sys=True), VOLW), (1, dict(calls=True, bad=True, deps=True), {}),
            (1, dict(calls=True, delegs=True, auths=True), {}), (1, dict(calls=True, fees=True, cfgs=True), {})], kinds=("c", "d", "k", "g", "be", "or"), nbase=(800, 8000), nvar=(2, 4), directed=syscalls, faults=(1, 8),
            explore=lambda t: [f(sp, 2 if t == "quick" else 3) for f in (a_call, a_callh) for sp in ((EQ, MINI, REX1, REX3) if t == "quick" else [EQ] + ALLSP)]),
 "C34": Fam(directed=large([EQ] + ALLSP), fields=ALL, sps=[EQ] + ALLSP, ntx=(2, 3, 4), modes=("api",), gen=[(2, dict(bad=True), {})] + G_ALL + [(1, dict(sys=True, orc=True), {}), (1, dict(fees=True), {}), (1, dict(calls=True, orc=True), dict(PRE=0))] + FULL, kinds=("gas", "c", "d"), nbase=(1000, 9000), nvar=(2, 4),
            explore=spread(a_hist, {EQ: 2, MINI: 2, REX1: 2, REX3: 3}, {**every(3), EQ: 3})),
}
