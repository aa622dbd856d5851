"""Inputs of the precompiled contracts: real points, proofs and signatures, good and bad, with the description spec/MegaPre.tla reads."""
import hashlib, random
from .scen import BIG

def pi(b, q="ok", n=None, **kw):
    """an input of the bytes b, filled up with zeros to n bytes"""
    d = {"hex": b.hex(), "n": len(b) if n is None else n, "q": q, "bl": 0, "el": 0, "ml": 0, "eb": 0, "r": 0}
    d.update(kw)
    return [0, 0, "pi", d]

def w32(x): return (x % (1 << 256)).to_bytes(32, "big")

# ------------------------------------------------------------- modular exponentiation
def modexp(base, exp, mod, bl=None, el=None, ml=None, cut=None, extra=b""):
    """lengths bl, el, ml may be stated other than they are; cut: only so many bytes of the whole are sent"""
    bl = len(base) if bl is None else bl
    el = len(exp) if el is None else el
    ml = len(mod) if ml is None else ml
    b = w32(bl) + w32(el) + w32(ml) + base + exp + mod + extra
    if cut is not None: b = b[:cut]
    # as the contract reads it
    h = b.ljust(96, b"\0")
    L = [int.from_bytes(h[i:i + 32], "big") for i in (0, 32, 64)]
    rest = b[96:]
    head = rest[L[0]:L[0] + 32] if L[0] < 1 << 20 else b""
    head = head.ljust(32, b"\0")[:min(L[1], 32)]
    c = [BIG if x >= BIG else x for x in L]
    return pi(b, bl=c[0], el=c[1], ml=c[2], eb=int.from_bytes(head, "big").bit_length())

def modexps(r, n):
    """a mixture of shapes"""
    S = []
    lens = [0, 1, 2, 7, 8, 9, 31, 32, 33, 63, 64, 65, 96, 200]
    for _ in range(n):
        bl, el, ml = (r.choice(lens) for _ in range(3))
        bit = r.choice([0, 1, 2, 8, 9, 200, 255, 256])
        e = ((1 << bit) - 1 if bit else 0) if r.random() < .5 else (1 << bit >> 1)
        ex = e.to_bytes(32, "big")
        ex = ex[32 - el:] if el <= 32 else ex + bytes(r.randrange(256) for _ in range(el - 32))
        mk = lambda k: bytes(r.randrange(256) for _ in range(k))
        mod = r.choice([mk(ml), mk(ml), bytes(ml), (bytes(ml) + b"\1")[-ml:] if ml else b""])
        kw = {}
        if r.random() < .15: kw["cut"] = r.randrange(0, 96 + bl + el + ml + 1)
        if r.random() < .1: kw["extra"] = mk(5)
        S.append(modexp(mk(bl), ex, mod, **kw))
    return S

def modexp_edges():
    o = b"\1"
    S = [modexp(b"", b"", b""), modexp(b"", b"\2" * 40, b""), modexp(b"\3", b"\5", b"\7"), pi(b"", n=0), pi(b"\0" * 31, n=31)]
    for ln in (1023, 1024, 1025):
        S += [modexp(o, o, o, bl=ln), modexp(o, o, o, el=ln), modexp(o, o, o, ml=ln), modexp(b"\3" * ln, b"\3", b"\7" * ln), modexp(b"", b"\xff" * ln, b""),
              modexp(b"\3", b"\xff" * ln, b"\7" * 8), modexp(b"", b"", b"", bl=0, el=ln, ml=0)]
    for ln in (1 << 20, 1 << 31, 1 << 63, 1 << 64, (1 << 255) + 1):
        S += [modexp(o, o, o, el=ln), modexp(b"", b"", b"", el=ln)]
    for ln in (1 << 64, (1 << 256) - 1):
        S += [modexp(o, o, o, bl=ln), modexp(o, o, o, ml=ln), modexp(b"", b"", b"", bl=ln, el=ln, ml=ln)]
    for x in (1, 31, 32, 33, 39, 40, 41, 64):  # at the edges of the price formulas
        for y in (1, 32, 33, 34, 64):
            S += [modexp(b"\2" * x, b"\x80" + b"\0" * (y - 1), b"\x9d" * x), modexp(b"\2" * x, b"\0" * (y - 1) + b"\1", b"\x9d"), modexp(b"\2", b"\0" * y, b"\x9d" * x)]
    return S

# ---------------------------------------------------------------------- curves
BN = 21888242871839275222246405745257275088696311157297823662689037894645226208583
BNR = 21888242871839275222246405745257275088548364400416034343698204186575808495617
BNG2 = (11559732032986387107991004021392285783925812861821192530917403151452391805634, 10857046999023057135944570762232829481370756359578518086990519993285655852781,
        4082367875863433681332203403145435568316851327593401208105741076214120093531, 8495653923123431417604973247489272438418190587263600148770280649306958101930)
def bn1(y=2): return w32(1) + w32(y)
def bn2(): return b"".join(w32(x) for x in BNG2)
BL = 0x1a0111ea397fe69a4b1ba7b6434bacd764774b84f38512bf6730d2a0f6b0f6241eabfffeb153ffffb9feffffffffaaab
G1X = 0x17f1d3a73197d7942695638c4fa9ac0fc3688c4f9774b905a14e3a3f171bac586c55e83ff97a1aeffb3af00adb22c6bb
G1Y = 0x08b3f481e3aaa0f1a09e30ed741d8ae4fcf5e095d5d00af600db18cb2c04b3edd03cc744a2888ae40caa232946c5e7e1
G2X = (0x024aa2b2f08f0a91260805272dc51051c6e47ad4fa403b02b4510b647ae3d1770bac0326a805bbefd48056c8c121bdb8,
       0x13e02b6052719f607dacd3a088274f65596bd0d09920b61ab5da61bbdc7f5049334cf11213945d57e5ac7d055d042b7e)
G2Y = (0x0ce5d527727d6e118cc9cdc6da2e351aadfd9baa8cbdd3a76d429a695160d12c923ac9cc3baca289e193548608b82801,
       0x0606c4a02ea734cc32acd2b02bc28b99cb3e287e85a763af267492ab572e99ab3f370d275cec1da1aaa9075ff05f79be)
def fp(x): return x.to_bytes(64, "big")
def g1(neg=False): return fp(G1X) + fp(BL - G1Y if neg else G1Y)
def g2(): return fp(G2X[0]) + fp(G2X[1]) + fp(G2Y[0]) + fp(G2Y[1])
assert (G1Y * G1Y - G1X ** 3 - 4) % BL == 0

# P-256
P = 2 ** 256 - 2 ** 224 + 2 ** 192 + 2 ** 96 - 1
PN = 0xffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551
PG = (0x6b17d1f2e12c4247f8bce6e563a440f277037d812deb33a0f4a13945d898c296, 0x4fe342e2fe1a7f9b8ee7eb4a7c0f9e162bce33576b315ececbb6406837bf51f5)
def padd(a, b):
    if a is None: return b
    if b is None: return a
    if a[0] == b[0]:
        if (a[1] + b[1]) % P == 0: return None
        l = (3 * a[0] * a[0] - 3) * pow(2 * a[1], -1, P) % P
    else: l = (b[1] - a[1]) * pow(b[0] - a[0], -1, P) % P
    x = (l * l - a[0] - b[0]) % P
    return (x, (l * (a[0] - x) - a[1]) % P)
def pmul(k, g):
    r = None
    while k:
        if k & 1: r = padd(r, g)
        g = padd(g, g); k >>= 1
    return r
def p256():
    d, k, h = 123456789, 987654321, int.from_bytes(hashlib.sha256(b"x").digest(), "big")
    q, rr = pmul(d, PG), pmul(k, PG)
    r = rr[0] % PN
    s = pow(k, -1, PN) * (h + r * d) % PN
    return w32(h) + w32(r) + w32(s) + w32(q[0]) + w32(q[1])

KZG = bytes.fromhex("8f59a8d2a1a625a17f3fea0fe5eb8c896db3764f3185481bc22f91b4aaffcca25f26936857bc3a7c2539ea8ec3a952b7")
def kzg():
    h = b"\1" + hashlib.sha256(KZG).digest()[1:]
    return (h + bytes.fromhex("73eda753299d7d483339d80809a1d80553bda402fffe5bfeffffffff00000000" "1522a4a7f34e1ea350ae07c29c96c7e79655aa926122e95fe69fcbd932ca49e9") + KZG
            + bytes.fromhex("a62ad71d14c5719385c0686f1871430475bf3a00f0aa3f7b8dd99a9abc2160744faf0070725e00b60ad9a026a15b1a8c"))

def flip(b, i): return b[:i] + bytes([b[i] ^ 1]) + b[i + 1:]

def inputs(p):
    """every kind of input of precompile p"""
    gx = 0x79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798
    if p == "P1":
        ok = w32(77) + w32(27) + w32(gx) + w32(1)
        return [pi(ok), pi(ok + b"\7" * 9), pi(w32(77) + w32(28) + w32(gx) + w32(1)), pi(flip(ok, 63), "bad"), pi(ok[:127], "bad"), pi(w32(77) + w32(29) + w32(gx) + w32(1), "bad"), pi(b"", "bad"), pi(w32(77) + w32(27) + w32(0) + w32(1), "bad")]
    if p in ("P2", "P3", "P4"):
        return [pi(b"\5" * n) for n in (0, 1, 31, 32, 33, 64, 300)]
    if p == "P5":
        return modexp_edges()
    if p == "P6":
        return [pi(bn1() + bn1()), pi(bn1() + bn1(BN - 2)), pi(b""), pi(bn1()), pi(bn1() + bn1() + b"\1" * 7), pi(bn1() + bn1(3), "bad"), pi(w32(BN) + w32(2), "bad"), pi(b"\1", "bad")]
    if p == "P7":
        return [pi(bn1() + w32(k)) for k in (0, 1, 7, BNR, BNR + 1, -1)] + [pi(b""), pi(bn1()), pi(bn1(3) + w32(1), "bad"), pi(w32(1) + w32(BN + 2) + w32(1), "bad"), pi(bn1() + w32(9) + b"\1")]
    if p == "P8":
        a, b = bn1() + bn2(), bn1(BN - 2) + bn2()
        return [pi(b""), pi(a), pi(a + b), pi(a + a), pi(a + b + a), pi(b"", n=192), pi(b"", n=192 * 5), pi(a[:-1]), pi(a + b"\0"), pi(flip(a, 63), "bad"), pi(flip(a, 191), "bad"),
                pi(a + flip(b, 100), "bad")]
    if p == "P9":
        def bl(r, f, n=213): return pi((r.to_bytes(4, "big") + bytes(range(208)) + bytes([f]))[:n], "ok" if f < 2 else "bad", n, r=r)
        return [bl(r, f) for r in (0, 1, 12, 500, 3000) for f in (0, 1, 2, 255)] + [bl(12, 1, 212), bl(12, 1, 214), bl(0, 0, 0)]
    if p == "P10":
        k = kzg()
        return [pi(k), pi(k[:191]), pi(k + b"\0"), pi(b""), pi(flip(k, 0), "bad"), pi(flip(k, 31), "bad"), pi(flip(k, 63), "bad"), pi(flip(k, 95), "bad"), pi(flip(k, 191), "bad"), pi(flip(k, 143), "bad"),
                pi(b"", "bad", 192)]
    if p == "P11":
        a = g1() + g1()
        return [pi(a), pi(g1() + g1(True)), pi(b"", n=256), pi(g1(), n=256), pi(a[:-1]), pi(a + b"\0"), pi(b""), pi(flip(a, 0), "bad"), pi(flip(a, 127), "bad"), pi(fp(0) + fp(2) + g1())]
    if p == "P12":
        a = g1() + w32(9)
        return [pi(a), pi(a * 2), pi(a * 3), pi(a * 7), pi(a * 19), pi(b"", n=160), pi(b"", n=160 * 13), pi(a[:-1]), pi(a + b"\0"), pi(b""), pi(flip(a, 127), "bad"), pi(a + flip(a, 1), "bad"),
                pi(fp(0) + fp(2) + w32(3), "bad")]
    if p == "P13":
        a = g2() + g2()
        return [pi(a), pi(b"", n=512), pi(g2(), n=512), pi(a[:-1]), pi(a + b"\0"), pi(b""), pi(flip(a, 0), "bad"), pi(flip(a, 255), "bad")]
    if p == "P14":
        a = g2() + w32(9)
        return [pi(a), pi(a * 2), pi(a * 3), pi(a * 9), pi(b"", n=288), pi(b"", n=288 * 8), pi(a[:-1]), pi(a + b"\0"), pi(b""), pi(flip(a, 255), "bad")]
    if p == "P15":
        a, b = g1() + g2(), g1(True) + g2()
        return [pi(a), pi(a + b), pi(a * 3), pi(b"", n=384), pi(b"", n=384 * 6), pi(a[:-1]), pi(a + b"\0"), pi(b""), pi(flip(a, 127), "bad"), pi(a + flip(b, 383), "bad"), pi(fp(0) + fp(2) + g2(), "bad")]
    if p == "P16":
        return [pi(fp(x)) for x in (0, 1, BL - 1)] + [pi(fp(BL), "bad"), pi(b"\1" + fp(1)[1:], "bad"), pi(b""), pi(fp(1)[1:]), pi(fp(1) + b"\0")]
    if p == "P17":
        return [pi(fp(x) + fp(y)) for x, y in ((0, 0), (1, 2), (BL - 1, 5))] + [pi(fp(1) + fp(BL), "bad"), pi(b"\1" + fp(1)[1:] + fp(1), "bad"), pi(b""), pi(fp(1)), pi(fp(1) + fp(1) + b"\0")]
    if p == "P256":
        k = p256()
        return [pi(k), pi(flip(k, 31), "bad"), pi(flip(k, 95), "bad"), pi(flip(k, 159), "bad"), pi(k[:159]), pi(k + b"\0"), pi(b""), pi(b"", "bad", 160)]
    return [pi(b"\5" * n) for n in (0, 1, 40)] + [pi(b"\xbb\1", "bad")]  # DYN

ALL = ["P%d" % i for i in range(1, 18)] + ["P256"]
# sizes at which inputs become too long for an Optimism chain; zeros are points at infinity
LONG = {"P8": (112687, 192), "P12": (513760, 160), "P14": (488448, 288), "P15": (235008, 384)}

def price(sp, p, d):
    """about what the call costs (only chooses the amounts of gas to try; the specification decides)"""
    n, w = d["n"], (d["n"] + 31) // 32
    if p == "P5":
        if max(d["bl"], d["ml"], d["el"]) > 4096: return 500
        it = max(1, d["eb"] - 1) if d["el"] <= 32 else (8 if sp == 0 else 16) * (d["el"] - 32) + max(1, d["eb"]) - 1
        x = max(d["bl"], d["ml"]); c = (x + 7) // 8
        return max(200, c * c * it // 3) if sp == 0 else max(500, (16 if x <= 32 else 2 * c * c) * it)
    if p == "P8": return 45000 + 34000 * (n // 192)
    if p == "P15": return 37700 + 32600 * (n // 384)
    if p == "P12": k = n // 160; return k * 12 * [1000, 1000, 949, 848, 797, 764, 750, 738][k] if 0 < k < 8 else 12000 * k * 698 // 1000
    if p == "P14": k = n // 288; return k * 22500 * [1000, 1000, 1000, 923][k] // 1000 if 0 < k < 4 else k * 22500 * 796 // 1000
    return {"P1": 3000, "P2": 60 + 12 * w, "P3": 600 + 120 * w, "P4": 15 + 3 * w, "P6": 150, "P7": 6000, "P9": d["r"], "P10": 50000 if sp == 0 else 100000, "P11": 375, "P13": 600,
            "P16": 5500, "P17": 23800, "P256": 3450}.get(p, 777)
