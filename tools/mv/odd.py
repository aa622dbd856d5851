"""Unusual operands: every instruction with too few operands, absurd offsets and lengths, dirty address words."""
import random
from .scen import *

# instruction -> operands it needs
NEED = {0x20: 2, 0x31: 1, 0x35: 1, 0x37: 3, 0x39: 3, 0x3b: 1, 0x3c: 4, 0x3e: 3, 0x3f: 1, 0x40: 1, 0x49: 1, 0x50: 1, 0x51: 1, 0x52: 2, 0x53: 2,
        0x54: 1, 0x55: 2, 0x56: 1, 0x57: 2, 0x5c: 1, 0x5d: 2, 0x5e: 3, 0xf0: 3, 0xf1: 7, 0xf2: 7, 0xf3: 2, 0xf4: 6, 0xf5: 4, 0xfa: 6, 0xfd: 2}
NEED.update({0x01 + i: 2 for i in range(11)}); NEED.update({0x08: 3, 0x09: 3})
NEED.update({0x10 + i: 2 for i in range(14)}); NEED.update({0x15: 1, 0x19: 1})
NEED.update({0x80 + i: i + 1 for i in range(16)}); NEED.update({0x90 + i: i + 2 for i in range(16)})
NEED.update({0xa0 + i: i + 2 for i in range(5)})

HALT = ("LOGLEN64 LOGLEN40 LOGOFF40 LOGOFF64 LOGOFFMAX MSTORE40 MSTORE64 MLOAD64 KECLEN40 KECOFF40 RETOFF40 RETLEN64 REVLEN64 REVOFF40 CALLIN40 CALLIN64 CALLOUT40 CALLOUT64 "
        "SCALLIN40 DCALLIN64 CCALLOUT40 CREATELEN40 CREATELEN64 CREATEOFF40 CREATEOFF64 CREATE2LEN40 CREATE2LEN64 CREATE2OFF40 CREATE2OFF64 CREATE2MAX CREATE2OFFMAX "
        "CDCOPY40 CDCOPYLEN40 RDCOPY1 JUMPBIG ECCOPYLEN40 ECCOPYOFF40 ECCOPYLEN64 MCOPY40").split()
FINE = "EXPBIG CDLOADBIG SHLBIG BYTEBIG CDCOPYSRC".split()
ARGS = {"LOGLEN64": 2, "LOGLEN40": 3, "LOGOFF40": 4, "LOGOFF64": 2, "LOGOFFMAX": 2, "MSTORE40": 2, "MSTORE64": 2, "MLOAD64": 1, "KECLEN40": 2, "KECOFF40": 2, "RETOFF40": 2, "RETLEN64": 2, "REVLEN64": 2, "REVOFF40": 2, "CALLIN40": 7, "CALLIN64": 7, "CALLOUT40": 7, "CALLOUT64": 7, "SCALLIN40": 6, "DCALLIN64": 6, "CCALLOUT40": 7, "CREATELEN40": 3, "CREATELEN64": 3, "CREATEOFF40": 3, "CREATEOFF64": 3, "CREATE2LEN40": 4, "CREATE2LEN64": 4, "CREATE2OFF40": 4, "CREATE2OFF64": 4, "CREATE2MAX": 4, "CREATE2OFFMAX": 4, "CDCOPY40": 3, "CDCOPYLEN40": 3, "RDCOPY1": 3, "JUMPBIG": 1, "ECCOPYLEN40": 4, "ECCOPYOFF40": 4, "ECCOPYLEN64": 4, "MCOPY40": 3}
def HUGE(e): return {"o": "HUGE", "e": e, "k": ARGS[e]}
def FEW(n, k): return {"o": "FEW", "n": n, "k": k}
def X(o): return dict(o, x=1)

def scenarios(tier):
    S = []
    def add(id, sp, code, **kw):
        S.append(scenario("odd%d.%s" % (sp, id), sp, code, [tx(b="x0", gas=300_000_000, price=0), tx(b="x0", gas=300_000_000, price=0, to="B")], **kw))
    for sp in range(7):
        for e in HALT:
            add(e, sp, {"x0": [SSTORE(0, 1), CALL("B", "x1", s=2), SSTORE(3, 1), HUGE(e)], "x1": [SSTORE(1, 1), HUGE(e)]})
        add("fine", sp, {"x0": [PL(e, 0, i if e != "CDCOPYSRC" else -1) for i, e in enumerate(FINE)]})
        for n in sorted(NEED):
            if sp in (REX1, REX4) and tier == "quick": continue
            ks = range(NEED[n]) if tier == "thorough" or n >= 0xa0 else {0, NEED[n] - 1}
            for k in ks:
                add("few%x.%d" % (n, k), sp, {"x0": [SSTORE(0, 1), CALL("B", "x1", s=2), FEW(n, k)], "x1": [SSTORE(1, 1), FEW(n, k)]})
        for t in ("CALL", "CALLCODE", "DELEGATECALL", "STATICCALL"):
            add("dirty" + t, sp, {"x0": [X(CALL("B", "x1", t=t, s=0)), X(CALL("E", v=1, t=t, n=0)), X(CALL("C", "x1", t=t, g=BIG, s=2)), X(CALL("P4", t=t, g=BIG))],
                                  "x1": [X(LOG(2, 0)), X(RETURN(0))] if t != "STATICCALL" else [X(ACC("BALANCE", "B")), X(REVERT(0))]})
        add("dirtyacc", sp, {"x0": [X(ACC(e, a)) for e in ACCS for a in ("B", "E", "COIN")] + [X(BALST(1, "B")), X(LOG(0, 0)), X(LOG(4, 0)), X(REVERT(0))]})
        add("dirtysd", sp, {"x0": [CALL("B", "x1"), SSTORE(0, 1), X(SELFDESTRUCT("E"))], "x1": [X(SELFDESTRUCT("A"))]})
        add("dirtycoin", sp, {"x0": [X(CALL("COIN")), BURN(50), X(CALL("ORC", "x1")), BURN(5)], "x1": [SLOAD(0)]}, accs={"ORC": acc(0, 1, CODE)}, lim={"be": 34_000, "or": 34_000})
    return S
