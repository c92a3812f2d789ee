"""AEAD crypters: C10, C11, C04, C25."""
from vlib import *
NAME = "aead"
DRIVER = "aead_driver"
TR = "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n"
TRACE = ("AeadTrace", TR)
KEYLEN = [16, 32, 32]
ASSUMPTIONS = ["the reference is libcrypto's one-shot AEAD on contiguous buffers"]

def variants(tier):
    return ["openssl", "boringssl"]

def mcs(tier, prop):
    n, s = (6, 4) if tier == "quick" else (8, 5)
    return [("AeadMC", "CONSTANTS T = 2\n MaxLen = %d\n MaxSegs = %d\nSPECIFICATION Spec\nINVARIANTS LayoutIndependent InBounds ExactlyWhenLegal FailsClean\nPROPERTY Terminates\nCHECK_DEADLOCK FALSE\n" % (n, s), 3)]

def gens(tier, prop):
    lens = "{0, 1, 5}" if tier == "quick" else "{0, 1, 2, 5, 15, 16, 17, 33}"
    caps = "{0, 1}" if tier == "quick" else "{0, 1, 8}"
    return [("AeadGen", "CONSTANTS Lens = %s\n Caps = %s\nINIT Init\nNEXT Next\nVIEW View\nACTION_CONSTRAINT Edge\nCHECK_DEADLOCK FALSE\n" % (lens, caps), gen_script)]

_c = [0]
def gen_script(walk):
    _c[0] += 1
    su = _c[0] % 3
    r = ["reset %d %d %d -1" % (su, KEYLEN[su], _c[0] % 50)]
    for k, op in enumerate(walk):
        segs = ",".join(map(str, op[1]))
        aad = ["5", "-", "2,3", "0,13"][k % 4]
        if op[0] == "enc":
            r.append("enc 12 %d %s %s %d %d -1" % (k % 7, aad, segs, k % 11, op[2]))
        else:
            mut = "none" if op[3] == "none" else ["tag", "ct", "aad", "nonce"][(k // 4) % 4]
            if mut == "aad" and aad == "-":
                mut = "tag"
            r.append("dec 12 %d %s %s %d %d %s %d -1" % (k % 7, aad, segs, k % 11, op[2], mut, k % 128))
    return r

def split(rng, n, k):
    cuts = sorted(rng.randrange(0, n + 1) for _ in range(k - 1)) if k > 0 else []
    p = 0
    o = []
    for c in cuts + ([n] if k > 0 else []):
        o.append(c - p); p = c
    return o

def seglist(rng, n, nulls=True):
    if n == 0:
        return rng.choice(["-", "0", "0,0", "z", "z,0", "-"])
    o = [str(x) for x in split(rng, n, rng.choice([1, 1, 2, 3, 5, 9]))]
    if rng.random() < 0.2:
        o.insert(rng.randrange(len(o) + 1), rng.choice(["0", "z"]))
    return ",".join(o)

LENS = [0, 1, 2, 3, 7, 15, 16, 17, 31, 32, 33, 47, 48, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 1023, 4096, 16383, 16384, 16385, 20000]

def enc(rng, n, capd=0, nl=12, fault=-1, aad=None, pt=None):
    an = rng.choice([0, 0, 1, 5, 5, 13, 16, 17, 100])
    return "enc %d %d %s %s %d %d %d" % (nl, rng.randrange(1000), aad or seglist(rng, an), pt or seglist(rng, n), rng.randrange(10**6), max(0, n + 16 + capd), fault)

def dec(rng, n, capd=0, nl=12, mut="none", pos=None, fault=-1, total=None, ct=None, aad=None):
    an = rng.choice([1, 5, 5, 13, 16, 17, 100])
    total = n + 16 if total is None else total
    return "dec %d %d %s %s %d %d %s %d %d" % (nl, rng.randrange(1000), aad or seglist(rng, an), ct or seglist(rng, total), rng.randrange(10**6), max(0, n + capd), mut,
                                          rng.randrange(100000) if pos is None else pos, fault)

def scripts(tier, seed, prop):
    rng = random.Random(seed * 104729 + 3)
    q = tier == "quick"
    segs = []
    # construction: every key size
    for su in range(3):
        for kl in range(0, 70):
            if su == 0 and kl == 32: continue
            if su == 1 and kl == 16: continue
            segs.append(["reset %d %d %d -1" % (su, kl, kl)] + (["sizes %d" % x for x in (0, 1, 15, 16, 17, 5000)] if kl in (16, 32) else []))
        for f in range(0, 5):
            segs.append(["reset %d %d 1 %d" % (su, KEYLEN[su], f), enc(rng, 5)])
    for su in range(3):
        R = "reset %d %d %d -1" % (su, KEYLEN[su], rng.randrange(100))
        # lengths, exact and off-by-one capacities, slack
        for n in LENS + [rng.randrange(0, 3000) for _ in range(10 if q else 200)]:
            if q and n > 4096 and rng.random() < 0.6: continue
            s = [R]
            for capd in (0, -1, 1, -16, -17, 40, -n - 16):
                s.append(enc(rng, n, capd))
                s.append(dec(rng, n, capd))
            segs.append(s)
        # large inputs, many components
        for n in (65535, 65536, 65537, 100000) + (() if q else (1 << 20, (1 << 20) + 1)):
            segs.append([R, enc(rng, n), dec(rng, n), enc(rng, n, -1), dec(rng, n, 0, 12, "ct", n - 1), enc(rng, 7, aad=str(n)), dec(rng, 7, aad=str(n)), dec(rng, 7, 0, 12, "aad", n - 1, aad=str(n))])
        for n in ((1 << 20) + 5,) + (() if q else ((1 << 24) + 7,)):
            segs.append([R, enc(rng, n), dec(rng, n)])
        for k in (40, 300, 2500):
            segs.append([R, enc(rng, k, pt=",".join(["1"] * k), aad=",".join(["1"] * k)), dec(rng, k, ct=",".join(["1"] * (k + 16)), aad=",".join(["1"] * k)), enc(rng, 2 * k, pt=",".join(["0", "2"] * k)), dec(rng, 5)])
        # single buffers, every bit of tag; positions in ciphertext, aad, nonce
        for n in (0, 1, 16, 37):
            s = [R]
            for p in range(128 if not q else 0, 128) if False else range(0, 128, 1 if not q else 5):
                s.append(dec(rng, n, 0, 12, "tag", p))
            for p in range(0, 8 * max(n, 1), 1 if not q else 3):
                if n: s.append(dec(rng, n, 0, 12, "ct", p))
            for p in range(0, 96, 1 if not q else 3):
                s.append(dec(rng, n, 0, 12, "nonce", p))
            for p in range(0, 100, 1 if not q else 7):
                s.append(dec(rng, n, 0, 12, "aad", p))
            s += [enc(rng, n), dec(rng, n)]
            segs.append(s)
        # nonce lengths
        segs.append([R] + [x for nl in range(0, 33) if nl != 12 for x in (enc(rng, 9, 0, nl), dec(rng, 9, 0, nl))] + [enc(rng, 9), dec(rng, 9)])
        # truncated ciphertexts
        for tot in range(0, 16):
            segs.append([R, dec(rng, 0, 20, 12, "none", 0, -1, tot), dec(rng, 0, 0, 12, "none", 0, -1, tot), enc(rng, 3), dec(rng, 3)])
        # null components
        for p in ("n", "n,4", "4,n", "2,n,2", "16,n", "n,16"):
            segs.append([R, enc(rng, 30, 0, pt=p), enc(rng, 5, 0, aad=p), dec(rng, 30, 5, ct=p), dec(rng, 6, 0, aad=p), dec(rng, 60, 5, ct="20," + p), enc(rng, 7), dec(rng, 7)])
        # tag straddling: all splits of the last bytes in two / three pieces
        for n in (0, 1, 4):
            t = n + 16
            s = [R]
            for a in range(t + 1):
                for b in ([a, t] if q else range(a, t + 1)):
                    s.append(dec(rng, n, 0, ct="%d,%d,%d" % (a, b - a, t - b)))
            segs.append(s)
            segs.append([R, dec(rng, n, 0, ct=",".join(["1"] * t)), dec(rng, n, 0, ct=",".join(["1", "0"] * t)), dec(rng, n, 0, "12" and 12, "tag", 3, ct=",".join(["1"] * t))])
        # faults at every library call, for some layouts, followed by good calls
        for n in (0, 5, 40):
            for lay in (1, 3):
                pt = ",".join(map(str, split(rng, n, lay))) if n else "-"
                ct = ",".join(map(str, split(rng, n + 16, lay)))
                for f in range(0, 12):
                    segs.append([R, enc(rng, n, 0, 12, f, "5", pt), enc(rng, n), dec(rng, n, 0, 12, "none", 0, f, None, ct), dec(rng, n), enc(rng, n, 3, 12, f, "5,6,0", pt),
                                 dec(rng, n, 3, 12, "tag", 7, f, None, ct), dec(rng, n)])
    # histories
    for _ in range(25 if q else 800):
        su = rng.randrange(3)
        s = ["reset %d %d %d -1" % (su, KEYLEN[su], rng.randrange(10**6))]
        for _ in range(rng.randrange(5, 40)):
            n = rng.choice(LENS[:22]) if rng.random() < 0.5 else rng.randrange(0, 200)
            x = rng.random()
            if x < 0.35: s.append(enc(rng, n))
            elif x < 0.6: s.append(dec(rng, n))
            elif x < 0.75: s.append(dec(rng, n, 0, 12, rng.choice(["tag", "ct", "aad", "nonce"])))
            elif x < 0.8: s.append(enc(rng, n, rng.choice([-1, -3, 5])))
            elif x < 0.85: s.append(dec(rng, n, rng.choice([-1, -3, 5])))
            elif x < 0.9: s.append(enc(rng, n, 0, 12, rng.randrange(8)))
            elif x < 0.95: s.append(dec(rng, n, 0, 12, "none", 0, rng.randrange(8)))
            else: s.append(enc(rng, n, 0, rng.choice([0, 8, 11, 13, 16])))
        segs.append(s)
    return segs
