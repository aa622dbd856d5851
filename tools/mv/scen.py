"""Scenarios of spec/Replay.tla: constructors and seeded generators.

A scenario is plain JSON: an initial world, programs (blocks of operations), limits, bucket sizes,
oracle contents and a history of transactions.  Nothing here knows what the outcome should be: the
specification computes it."""
import copy, random

BIG = 2147483647
EQ, MINI, REX, REX1, REX2, REX3, REX4 = range(7)

# ------------------------------------------------------------------ pieces
NONE = {"t": "none", "len": 0, "to": "-"}
CODE = {"t": "code", "len": 1, "to": "-"}
def RAW(n): return {"t": "raw", "len": n, "to": "-"}
def DELEG(x): return {"t": "deleg", "len": 23, "to": x}
def acc(b=0, n=0, c=NONE): return {"b": b, "n": n, "c": c}

def SSTORE(k, v): return {"o": "SSTORE", "k": k, "v": v}
def SLOAD(k): return {"o": "SLOAD", "k": k}
def SCOPY(k, d): return {"o": "SCOPY", "k": k, "d": d}
def TSTORE(k, v): return {"o": "TSTORE", "k": k, "v": v}
def TCOPY(k, d): return {"o": "TCOPY", "k": k, "d": d}
def LOG(n, l): return {"o": "LOG", "n": n, "len": l}
def ENV(e): return {"o": "ENV", "e": e}
def BLOBHASH(): return {"o": "BLOBHASH"}
def BLOCKHASH(d): return {"o": "BLOCKHASH", "d": d}
def ACC(e, to): return {"o": "ACC", "e": e, "to": to}
STORABLE = "ADD MUL SUB DIV SDIV MOD SMOD ADDMOD MULMOD EXP EXP2 EXP0 SIGNEXTEND LT GT SLT SGT EQ ISZERO AND OR XOR BYTE SHL SHR SAR CALLVALUE CHAINID MSIZE PUSH0".split()
UNSTORABLE = ("NOT KECCAK256 ADDRESS ORIGIN CALLER CALLDATALOAD CALLDATASIZE CALLDATACOPY CODESIZE CODECOPY GASPRICE RETURNDATASIZE RETURNDATACOPY MLOAD MSTORE "
              "MSTORE8 MCOPY JUMP JUMPI JUMPN JUMPDEST PC GAS").split()
def PL(e, n=0, s=-1): return {"o": "PL", "e": e, "n": n, "s": s}
PLAINS = [(e, 0) for e in STORABLE + UNSTORABLE] + [("PUSH", n) for n in range(1, 33)] + [(e, n) for e in ("DUP", "SWAP") for n in range(1, 17)]
def IS(e, to, k): return {"o": "IS", "e": e, "to": to, "k": k}
def VAL(e, k, d=0, to="-"): return {"o": "VAL", "e": e, "k": k, "d": d, "to": to}
VALS = ["NUMBER", "TIMESTAMP", "COINBASE", "PREVRANDAO", "GASLIMIT", "BASEFEE", "BLOBBASEFEE", "BLOBHASH", "BLOCKHASH", "GASPRICE", "EXTCODEHASH", "EXTCODESIZE", "SELFBALANCE"]
CLZ = {"o": "CLZ"}
def UNDEF(b): return {"o": "UNDEF", "n": b}
def SELFBALANCE(): return {"o": "SELFBALANCE"}
def BURN(n): return {"o": "BURN", "n": n}
def MEM(w): return {"o": "MEM", "w": w}
def GASST(k): return {"o": "GASST", "k": k}
def BALST(k, to): return {"o": "BALST", "k": k, "to": to}
def CALL(to, b="-", v=0, g=-1, t="CALL", n=32, hint=None, s=-1):
    hint = hint or []
    if hint:
        n = hint_len(hint)
    return {"o": "CALL", "t": t, "to": to, "v": v, "g": g, "b": b, "n": n, "hint": hint, "gasop": 0, "s": s}
def CREATE(b, v=0, salt=-1, s=-1): return {"o": "CREATE", "v": v, "b": b, "salt": salt, "s": s}
def SELFDESTRUCT(to): return {"o": "SELFDESTRUCT", "to": to}
STOP = {"o": "STOP"}
INVALID = {"o": "INVALID"}
UNDERFLOW = {"o": "UNDERFLOW"}
def RETURN(n=0, ef=False): return {"o": "RETURN", "n": n, "ef": ef}
def REVERT(n=0): return {"o": "REVERT", "n": n, "ef": False}

ENVS = ["NUMBER", "TIMESTAMP", "COINBASE", "PREVRANDAO", "GASLIMIT", "BASEFEE", "BLOBBASEFEE"]
ACCS = ["BALANCE", "EXTCODESIZE", "EXTCODECOPY", "EXTCODEHASH"]

KLCALL = 196
def hint_bytes(hint):
    """Same bytes as the harness's hint_calldata (only zero/nonzero counts and length matter)."""
    topic, ln, var = hint
    if var == "kl": return b"\1" * KLCALL  # a request for a keyless deployment
    sel = b"\x01\x02\x03\x04"  # four nonzero bytes stand for the selector
    body = topic.to_bytes(32, "big") + (64).to_bytes(32, "big") + ln.to_bytes(32, "big")
    body += b"\x5a" * ln + b"\0" * ((-ln) % 32)
    v = sel + body
    if var == "trail": v += b"\7" * 32
    elif var == "trunc": v = v[:68]
    elif var == "short": v = v[:3]
    elif var == "offset": v = v[:36] + b"\xff" + v[37:]
    return v
def hint_len(hint): return len(hint_bytes(hint))

def tx(frm="S0", to="A", b="x0", v=0, gas=3_000_000, price=1, nonce=None, nz=2, z=30, al=None, auth=None,
       typ="legacy", kind="call", hint=None, mint=0):
    if kind == "create" and nz == 2 and z == 30:
        nz = z = 1024
    if hint:
        hb = hint_bytes(hint)
        z = hb.count(0); nz = len(hb) - z
    if al and typ == "legacy":
        typ = "2930"
    if auth:
        typ = "7702"
    return {"kind": kind, "typ": typ, "from": frm, "to": to if kind == "call" else "-", "b": b, "v": v, "gas": gas,
            "price": price, "nonce": nonce, "nz": nz, "z": z, "al": al or [], "auth": auth or [],
            "hint": hint or [], "mint": mint}
def auth(a, to, n=0, chain="ok"): return {"a": a, "to": to, "n": n, "chain": chain}

CFG0 = {"code": -1, "init": -1, "cap": BIG, "blk": BIG, "nonce": False, "bal": False, "e3607": False, "ef": False, "nobase": False}
LIM0 = {"d": -1, "k": -1, "c": -1, "g": -1, "be": -1, "or": -1}

# sizes of large buckets (from 2^29 on, the unit is 2^10 slots)
HUGE = [256 * 33 + 255, 256 * 2000, 256 * 16384, 256 * 65536, 2 ** 29 + 256, 2 ** 30]

def scenario(id, sp, code, txs, accs=None, st=None, coin="COIN", lim=None, bkt=None, orc=None, marks=False, dev=None,
             **extra):
    base = {"S0": acc(1_500_000_000, 5), "S1": acc(300_000_000, 0), "A": acc(1000, 1, CODE), "B": acc(0, 1, CODE),
            "C": acc(500, 1, CODE), "F": acc(77, 0)}
    base.update(accs or {})
    nonces = {a: x["n"] for a, x in base.items()}
    txs = copy.deepcopy(txs)
    for t in txs:
        if t["nonce"] is None:
            t["nonce"] = nonces.get(t["from"], 0)
            t["_auto"] = True
        if t["typ"] != "sc": nonces[t["from"]] = t["nonce"] + 1
    for t in txs:
        t.pop("_auto", None)
    l = dict(LIM0); l.update(lim or {})
    return dict({"id": id, "sp": sp, "coin": coin, "acc": base, "st": st or [], "code": code or {"x0": [STOP]}, "lim": l,
            "bkt": bkt or {"-": 256}, "orc": orc or [], "txs": txs, "marks": marks, "dev": dev or [],
            "nbk": [0] * len(txs), "bkts": []}, **extra)

RAWS = ("IS", "GASST")
def raws(sc):
    """operations that store numbers which are not values of the specification (32) or amounts of ether (64)"""
    for ops in sc["code"].values():
        for p in ops:
            if p["o"] == "BALST" or (p["o"] == "VAL" and p["e"] == "SELFBALANCE"): yield p, "k", 64
            elif p["o"] in RAWS or p["o"] == "VAL": yield p, "k", 32
            elif p.get("s", -1) >= 0: yield p, "s", 64 if p["o"] == "PL" and p["e"] == "CALLVALUE" else 32
def can_widen(sc):
    """whether the same history can as well be run with wide numbers"""
    return not ("fee" in sc or any("kl" in t for t in sc["txs"]) or any(a["c"]["t"] == "sysc" for a in sc["acc"].values()) or any(True for _ in raws(sc)))
def widen(sc):
    """The same with slots and values beyond 128 bits and ether beyond 64 bits on the real machine: a renaming, so flags and the like get slots of their own."""
    if "fee" in sc or any(a["c"]["t"] == "sysc" for a in sc["acc"].values()): return sc
    for p, k, d in list(raws(sc)):
        if p[k] < 32: p[k] += d
    for b in [sc["bkt"]] + sc["bkts"]:
        for n, c in list(b.items()):
            if "/" in n and int(n.split("/")[1]) < 32:
                for d in (32, 64): b["%s/%d" % (n.split("/")[0], int(n.split("/")[1]) + d)] = c
    sc["wide"] = True
    return sc

# -------------------------------------------------------------- generators
class Gen:
    """Seeded random scenarios; `w` maps operation kinds to weights."""
    OPW = dict(SSTORE=10, SLOAD=3, SCOPY=2, TSTORE=2, TCOPY=2, LOG=5, ENV=2, BLOBHASH=1, BLOCKHASH=1, ACC=4,
               SELFBALANCE=1, BURN=2, MEM=1, CALL=12, CREATE=5, SELFDESTRUCT=1, PRE=2, END=2, GASST=1, BALST=1, PL=3, IS=1, VAL=2)

    def __init__(self, rng, sp, **w):
        self.r = rng; self.sp = sp
        self.w = dict(self.OPW); self.w.update(w.pop("w", {}))
        self.opt = dict(hints=False, orc=False, delegs=False, maxops=6, blocks=7, vals=[1, 2, 3], slots=4,
                        codelens=[0, 1, 5, 32, 33], bigmem=False, env_coin=True, reverts=0.3, deps=False, sys=False, auths=False, bad=False, calls=False, fees=False, cfgs=False, wide=True, fresh=.12, reads=VALS)
        self.n0 = rng.choice([5, 5, 5, 5, 5, 127, 128, 255, 256, 70000])
        self.nonces = {"S0": self.n0, "A": 1, "B": 1, "C": 1, "D": 1, "DE": 1}
        self.opt.update(w)

    def addr_any(self):
        r = self.r
        if r.random() < self.opt["fresh"]: return self.fresh_addr()
        xs = ["A", "B", "C", "F", "E", "E2", "S0", "S1", "COIN"]
        if self.opt["delegs"]: xs += ["D", "D", "DE", "DA"]
        if self.opt["orc"]: xs += ["ORC"] * 3
        return r.choice(xs)

    def fresh_addr(self):
        """the address of a contract that the history may create, before, while or after it does (an init code cannot name
        the addresses that depend on init codes)"""
        r = self.r
        if self.init or r.random() < .5:
            x = r.choice(["A", "A", "A", "B", "C", "S0"])
            return "%s#%d" % (x, self.nonces[x] + r.choice([0, 0, 0, 1, 1, 2]))
        return "%s@x%d:%d:1" % (r.choice(["A", "A", "A", "B", "C"]), r.choice(self.initb), r.choice([0, 1]))

    def gas_req(self):
        r = self.r
        return r.choice([-1, -1, -1, -1, 0, r.randrange(1, 3000), r.randrange(3000, 60000), r.randrange(60000, 3_000_000)])

    def op(self, i, init):
        r, o = self.r, self.opt
        kinds = list(self.w)
        k = r.choices(kinds, [self.w[x] for x in kinds])[0]
        slot = lambda: r.randrange(o["slots"])
        val = lambda: r.choice([0, 0, 1, 2])
        if k == "GASST": return GASST(slot())
        if k == "BALST": return BALST(slot(), self.addr_any())
        flag = slot() if r.random() < 0.25 else -1
        if k == "SSTORE": return SSTORE(slot(), val())
        if k == "SLOAD": return SLOAD(slot())
        if k == "SCOPY": return SCOPY(slot(), slot())
        if k == "TSTORE": return TSTORE(r.randrange(2), r.randrange(3))
        if k == "TCOPY": return TCOPY(r.randrange(2), slot())
        if k == "LOG": return LOG(r.randrange(5), r.choice([0, 1, 31, 32, 100]))
        if k == "ENV": return ENV(r.choice(ENVS))
        if k == "BLOBHASH": return BLOBHASH()
        if k == "BLOCKHASH": return BLOCKHASH(r.choice([0, 1, 2, 256, 257, 300]))
        if k == "ACC": return ACC(r.choice(ACCS), self.addr_any())
        if k == "SELFBALANCE": return SELFBALANCE()
        if k == "PL":
            e, n = r.choice(PLAINS[:53] if init else PLAINS)
            return PL(e, n, slot() if e in STORABLE + ["DUP", "SWAP"] and r.random() < .5 else -1)
        if k == "VAL":
            e = r.choice(o["reads"])
            return VAL(e, slot(), {"NUMBER": lambda: r.choice([0, 0, 1, 2]), "BLOCKHASH": lambda: r.choice([0, 1, 2, 255, 256, 257]), "BASEFEE": lambda: r.choice([0, 1, 2, 3]), "GASPRICE": lambda: r.choice([0, 1, 2, 3, 4]),
                                   "EXTCODESIZE": lambda: r.choice([0, 0, 1, 3, 5, 23, 32])}.get(e, lambda: 0)(), self.addr_any() if e in ("EXTCODEHASH", "EXTCODESIZE", "COINBASE") else "-")
        if k == "IS": return IS(r.choice(["ADDRESS", "CALLER", "ORIGIN"]), self.addr_any(), slot())
        if k == "BURN": return BURN(r.choice([1, 7, 60]) if init else r.choice([1, 50, 400]))
        if k == "MEM": return MEM(r.choice([1, 129, 140, 200] + ([800, 3000] if o["bigmem"] else [])))
        if k == "SELFDESTRUCT": return SELFDESTRUCT(self.addr_any())
        if k == "PRE":
            return CALL(r.choice(["P1", "P2", "P3", "P4"]), "-", v=r.choice([0, 0, 0, 1]), g=r.choice([-1, 10, 2999, 3000, 5000]),
                        t=r.choice(["CALL", "STATICCALL", "DELEGATECALL", "CALLCODE"]), n=r.choice([0, 1, 32, 33, 128]), s=flag)
        if k == "CALL":
            later = [b for b in self.callb if b > i]
            if self.opt["hints"] and r.random() < 0.3:
                return CALL("ORC", "-", v=r.choice([0, 0, 0, 0, 1, 2_000_000_000]), g=self.gas_req(), t=r.choice(["CALL", "CALL", "CALL", "STATICCALL", "DELEGATECALL", "CALLCODE"]),
                            hint=[r.randrange(1, 9), r.choice([0, 1, 32, 40]), r.choice(["ok", "ok", "ok", "trail", "trunc", "short", "selector", "offset"])])
            to = self.addr_any()
            b = "x%d" % r.choice(later) if later else "xz"
            v = 0
            if r.random() < 0.35: v = r.choice([1, 1, 2, 50, 600, 2_000_000_000 if r.random() < .1 else 3])
            return CALL(to, b, v=v, g=self.gas_req(), t=r.choices(["CALL", "STATICCALL", "DELEGATECALL", "CALLCODE"], [6, 1, 2, 2])[0], s=flag)
        if k == "CREATE":
            later = [b for b in self.initb if b > i]
            if not later or (init and self.created): return SSTORE(slot(), val())
            self.created = True
            return CREATE("x%d" % r.choice(later), v=r.choice([0, 0, 0, 1, 5, 5000]), salt=r.choice([-1, -1, 0, 1]), s=flag)
        if k == "END":
            return self.end(init)
        raise AssertionError(k)

    def end(self, init):
        r, o = self.r, self.opt
        if r.random() < o["reverts"]:
            return r.choice([REVERT(r.choice([0, 32, 4000])), REVERT(0), INVALID, UNDERFLOW, REVERT(0), INVALID, UNDERFLOW, REVERT(4), CLZ, UNDEF(r.choice([0x0c, 0x21, 0x4b, 0xb0, 0xef]))])
        if init:
            return RETURN(r.choice(o["codelens"]), ef=r.random() < 0.08)
        return r.choice([STOP, RETURN(r.choice([0, 32, 64])), RETURN(0)])

    def blocks(self):
        r, o = self.r, self.opt
        n = o["blocks"]
        self.initb = sorted(r.sample(range(1, n), max(1, n // 3)))
        self.callb = [i for i in range(n) if i not in self.initb]
        code = {"xz": [r.choice([STOP, SSTORE(0, 1), REVERT(0), LOG(1, 1)])]}
        for i in range(n):
            init = self.init = i in self.initb
            self.created = False
            ops = []
            for _ in range(r.randrange(1, o["maxops"] + 1) if not init else r.randrange(0, 4)):
                p = self.op(i, init)
                ops.append(p)
                if p["o"] in ("STOP", "RETURN", "REVERT", "INVALID", "UNDERFLOW", "SELFDESTRUCT", "CLZ", "UNDEF"): break
            else:
                if r.random() < (0.9 if init else 0.5): ops.append(self.end(init))
            code["x%d" % i] = ops
        self.init = True
        # an init block nested too deep does not fit: only the first two levels may create
        self.code = code
        def lvl(b, d):
            for p in code[b]:
                if p["o"] == "CREATE":
                    if d >= 3: return False
                    if not lvl(p["b"], d + 1): return False
            return True
        for i in self.initb:
            if not lvl("x%d" % i, 1):
                code["x%d" % i] = [p for p in code["x%d" % i] if p["o"] != "CREATE"]
        for i in self.initb:
            if not lvl("x%d" % i, 1):
                code["x%d" % i] = [p for p in code["x%d" % i] if p["o"] != "CREATE"]
        # distinct init blocks are distinct codes (CREATE2 addresses are told apart by block name)
        seen = []
        for i in self.initb:
            k = 1
            while code["x%d" % i] in seen:
                code["x%d" % i] = [BURN(k)] + code["x%d" % i]; k += 1
            seen.append(code["x%d" % i])
        return code

    def gas(self):
        r = self.r
        if self.sp == MINI: return r.choice([3_000_000, 20_000_000, 60_000_000, 200_000_000])
        return r.choice([200_000, 600_000, 3_000_000, 10_000_000, 30_000_000])

    def tx(self, first):
        r = self.r
        kind = "create" if r.random() < 0.15 else "call"
        to = r.choice(["A", "A", "B", "C", "E", "F", self.addr_any()]) if r.random() < .4 else "A"
        b = "x%d" % (r.choice(self.initb) if kind == "create" else (0 if first else r.choice(self.callb)))
        v = r.choice([0, 0, 0, 1, 30])
        t = tx(frm=r.choice(["S0", "S0", "S0", "S1"]), to=to, b=b, v=v, gas=self.gas(), price=r.choice([0, 1]) if self.sp != MINI else 0,
               kind=kind)
        if kind == "call" and r.random() < 0.2:
            t["nz"] += r.choice([0, 1, 60]); t["z"] += r.choice([0, 3, 100])
        if r.random() < 0.15:
            t["typ"] = r.choice(["2930", "1559"])
            t["al"] = [[r.choice(["A", "B", "E", "ORC"]), r.sample(range(4), r.randrange(3))] for _ in range(r.randrange(3))]
            if r.random() < .1: t["al"] += [[r.choice(["A", "B", "E", "C", "F", "P4", "COIN"]), r.sample(range(4), r.randrange(5))] for _ in range(r.choice([5, 9]))]
        o = self.opt
        if o["deps"] and r.random() < 0.25:
            t["typ"] = "deposit"; t["price"] = 0; t["mint"] = r.choice([0, 5, 1000]); t["al"] = []
            if r.random() < 0.15: t["gas"] = r.choice([21000, 30000, 60200, 100000])
        elif o["sys"] and r.random() < 0.35:
            t["from"] = "SYS"; t["v"] = r.choice([0, 0, 0, 2]); t["price"] = r.choice([0, 1])
            if r.random() < 0.7: t["to"] = "ORC"; t["kind"] = "call"; t["typ"] = "legacy"; t["al"] = []; t["nz"] = 2; t["z"] = 30; t["b"] = "x%d" % r.choice(self.callb)
            if t["to"] == "ORC" and t["kind"] == "call" and r.random() < .12: t["typ"] = r.choice(["2930", "1559"])
            if r.random() < 0.2: t["nonce"] = r.choice([0, 1, 7])
        elif o["auths"] and r.random() < 0.5 and kind == "call":
            t["typ"] = "7702"
            ns = dict(self.nonces)
            ns[t["from"]] = ns.get(t["from"], 0) + 1
            for _ in range(r.randrange(1, 4)):
                a = r.choice(["F", "F", "E", "S1", "D", "A", t["from"], "AU", ""])
                n = ns.get(a, 0) + (r.choice([-1, 1]) if r.random() < .1 else 0)
                c = r.choice(["ok", "ok", "ok", "zero", "bad"])
                t["auth"].append(auth(a, r.choice(["A", "B", "C", "E", "F", "", "P4", a]), max(0, n), c))
                if c != "bad": ns[a] = ns.get(a, 0) + 1
            if r.random() < .6: t["to"] = r.choice(["F", "S1", "AU", "E"])
        if o["calls"] and t["kind"] == "call" and t["typ"] not in ("deposit", "7702") and r.random() < .6:
            t.update(typ="sc", gas=30_000_000, price=0, v=0, al=[], nonce=0)
            t["from"] = r.choice(["SYSA", "SYSA", "SYS", "S0", "F", "E", "A", "COIN"])
        if o["hints"] and t["kind"] == "call" and r.random() < .12:
            h = [r.randrange(1, 9), r.choice([0, 1, 32, 40]), r.choice(["ok", "ok", "ok", "trail", "trunc", "short", "selector", "offset"])]
            hb = hint_bytes(h)
            t.update(to="ORC", hint=h, z=hb.count(0), nz=len(hb) - hb.count(0))
        if o["bad"] and r.random() < 0.3 and t["typ"] != "sc":
            k = r.choice(["nonce", "gas", "value", "gas", "from"])
            if k == "nonce": t["nonce"] = r.choice([0, self.n0 - 1, self.n0, self.n0 + 1, self.n0 + 4])
            elif k == "gas": t["gas"] = r.choice([0, 20999, 21000, 21300, 60000, 60128, 61000, 62000, 85000])
            elif k == "value": t["v"] = r.choice([300_000_001, 1_500_000_001, 299_999_999])
            elif k == "from": t["from"] = r.choice(["A", "F", "E"])
        return t

    def fees(self, txs, kw):
        """fees of the block and prices around them"""
        r = self.r
        kw["fee"] = f = {"base": r.choice([0, 1, 2, 3, 5]), "l1": r.choice([0, 1, 10, 100, 1000]), "ops": r.choice([0, 1, 7, 1000, 2000]), "opc": r.choice([0, 0, 3, 500]),
                         "none": self.sp != EQ and r.random() < .1, "stored": r.random() < .25}
        if r.random() < .1: kw["fee"] = f = dict(f, base=0, l1=0, ops=0, opc=0)
        for t in txs:
            if t["typ"] == "sc": continue
            t["price"] = f["base"] + r.choice([0, 0, 0, 1, 2, 3, -1 if f["base"] and r.random() < .3 else 1])
            if t["typ"] in ("1559", "7702") or (t["typ"] == "legacy" and t["from"] != "SYS" and r.random() < .4):
                if t["typ"] == "legacy": t["typ"] = "1559"
                t["tip"] = r.choice([0, 0, 1, 2, t["price"], t["price"] + (1 if r.random() < .1 else 0)])
            if t["typ"] == "deposit": t["price"] = 0
            if r.random() < .05 and t["typ"] != "deposit" and "nonce" in t:
                # a sender that can barely pay, or not quite
                t["v"] = max(0, {"S0": 1_500_000_000, "S1": 300_000_000}.get(t["from"], 0) - t["price"] * t["gas"] - f["l1"] - f["opc"] - r.choice([0, 1, 2, 300]))

    def cfgs(self, txs, kw):
        """a configuration of the EVM that differs from the usual one"""
        r = self.r
        c = dict(CFG0)
        for k in r.sample(list(c), r.choice([1, 1, 2, 3])):
            c[k] = {"code": lambda: r.choice([0, 1, 4, 5, 32]), "init": lambda: r.choice([511, 512, 1023, 1024, 2047, 2048, 2049]), "cap": lambda: r.choice([0, 600_000, 3_000_000, 20_000_000]),
                    "blk": lambda: r.choice([0, 599_999, 3_000_000, 20_000_000])}.get(k, lambda: True)()
        if c["nonce"]:
            for t in txs:
                if t["kind"] == "call" and t["typ"] not in ("deposit", "7702") and t["from"] != "SYS": t["nonce"] = r.choice([0, 4, 6, 99])
        if c["e3607"] or r.random() < .15:
            for t in txs:
                if t["kind"] == "call" and r.random() < .5 and t["from"] != "SYS": t["from"] = r.choice(["A", "B"]); t["price"] = 0; t.pop("tip", None)
        if c["bal"] or r.random() < .1:
            for t in txs:
                if r.random() < .4 and t["from"] != "SYS": t["from"] = r.choice(["F", "E"])
        if c["nobase"]:
            for t in txs:
                if r.random() < .5: t["price"] = 0; t.pop("tip", None)
        for t in txs:
            if t["typ"] == "7702" and r.random() < .1: t["auth"] = []
        kw["cfg"] = c

    def scenario(self, id, ntx=1, **kw):
        r = self.r
        code = self.blocks()
        st = [[a, k, r.choice([1, 2])] for a in ("A", "B", "C") for k in range(self.opt["slots"]) if r.random() < 0.3]
        accs = {"COIN": r.choice([acc(0, 0), acc(9, 0)]), "S0": acc(1_500_000_000, self.n0)}
        if self.opt["orc"]:
            accs["ORC"] = acc(0, 1, r.choice([CODE, CODE, RAW(3)]))
            st += [["ORC", k, 3] for k in range(self.opt["slots"]) if r.random() < 0.4]
            kw.setdefault("orc", [[k, r.choice([0, 5, 6])] for k in range(self.opt["slots"]) if r.random() < 0.5])
        if self.opt["sys"]:
            accs["SYS"] = r.choice([acc(0, 0), acc(100, 3), acc(5_000_000, 0)])
            accs.setdefault("ORC", acc(0, 1, CODE))
        if self.opt["delegs"] or self.opt["auths"]:
            accs["D"] = acc(40, 1, DELEG("B")); accs["DE"] = acc(0, 1, DELEG("E")); accs["DA"] = acc(0, 0, DELEG("P4"))
        def caps():
            bkt = {"-": 256}
            for a in ("E", "E2", "A", "B", "A#1", "B#1", "C#1", "S0#%d" % self.n0, "S0#%d" % (self.n0 + 1), "S1#0"):
                if r.random() < 0.3: bkt[a] = r.choice([256, 300, 512, 768, 1024]) if r.random() < .95 else r.choice(HUGE)
            for a in ("A", "B", "C", "D"):
                for k in range(self.opt["slots"]):
                    if r.random() < 0.3: bkt["%s/%d" % (a, k)] = r.choice([256, 511, 512, 1280]) if r.random() < .97 else r.choice(HUGE)
            return bkt
        bkt = caps()
        # how the database answers must not matter: code only by its hash, unknown accounts as empty ones
        kw.setdefault("lazy", r.random() < .2); kw.setdefault("hollow", r.random() < .2)
        coin = r.choice(["COIN", "COIN", "COIN", "A", "B", "S0", "F"]) if self.opt["env_coin"] else "COIN"
        txs = [self.tx(j == 0) for j in range(ntx)]
        if self.opt["fees"] and r.random() < .9: self.fees(txs, kw)
        if self.opt["cfgs"] and r.random() < .8: self.cfgs(txs, kw)
        if ntx > 1 and r.random() < 0.4:
            kw["bkts"] = [caps(), caps()]
            kw["nbk"] = [0] + [r.choice([0, 1, 2]) for _ in range(ntx - 1)]
            at, hop = 0, [0]
            for n in kw["nbk"][1:]:
                hop.append(r.choice([1, 1, 0, 2] + [-1] * (at > 0)) if n else 0)
                at += hop[-1]
            kw["hop"] = hop
        # (revm refunds authorizations by whether the database knows the account)
        if any(t["auth"] for t in txs): kw["hollow"] = False
        sc = scenario(id, self.sp, code, txs, accs, st, coin=coin, bkt=bkt, **kw)
        return widen(sc) if self.opt["wide"] and r.random() < .3 else sc
