"""S2AFrameProtector: splitting, joining, buffer ownership."""
from vlib import *
import fam_hs as H
import fam_rec as RC
NAME = "fp"
DRIVER = "fp_driver"
TRACE = ("FrameTrace", RC.BASE + "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n")
HL = [32, 48, 32]
MAX64 = 2**64 - 1

def variants(tier):
    _tier[0] = tier
    return ["openssl", "boringssl"]

_tier = ["quick"]
def runs_on(seg, variant):
    """On BoringSSL the quick tier runs a third of the segments."""
    import zlib
    return variant == "openssl" or _tier[0] != "quick" or zlib.crc32("\n".join(seg).encode()) % 3 == 0

def mcs(tier, prop):
    a = (2, 2, 2, 3, 5) if tier == "quick" else (2, 2, 3, 5, 7)
    return [("FrameMC", "CONSTANTS H = %d\n Max = %d\n MaxRecs = %d\n MaxBufs = %d\n MaxMsg = %d\nSPECIFICATION Spec\nINVARIANTS Exact Aligned Owners Minimal\nPROPERTY Terminates\nCHECK_DEADLOCK FALSE\n" % a, 4)]

def gens(tier, prop):
    return []

def reset(rng, su=None, is_=0, os_=0, fl=0):
    su = rng.randrange(3) if su is None else su
    return "reset %d 3 %d %d %d %d %d %d" % (su, HL[su], HL[su], is_, os_, fl, rng.randrange(10**6))

def rec(rng, n=None, t=23, pad=0, mut="none", pos=0):
    return "%d/p:%d:%d/%d/%s/%d" % (t, rng.randrange(10**6), rng.randrange(0, 60) if n is None else n, pad, mut, pos)

def raw(t, runs, pad=0, mut="none", pos=0):
    return "%d/r:%s/%d/%s/%d" % (t, runs, pad, mut, pos)

KU = raw(22, "24x1,0x2,1x1,0x1") + "+22/r:-/0/ku/0"
TICKET = raw(22, "4x1,0x2,2x1,9x2")

def un(rng, items, trim=0, fault=-1, cut=None):
    return "unprotect %s %d %d %d" % ("+".join(items) if items else "-", rng.randrange(10**6) if cut is None else cut, trim, fault)
def un1(rng, items, trim=0, cap=0, fault=-1, cut=None):
    return "unprotect1 %s %d %d %d %d" % ("+".join(items) if items else "-", rng.randrange(10**6) if cut is None else cut, trim, cap, fault)

SIZES = [0, 1, 2, 100, 1000, 16383, 16384, 16385, 16406, 20000, 32767, 32768, 32769, 49152, 50000]

def scripts(tier, seed, prop):
    rng = random.Random(seed * 271 + 9)
    q = tier == "quick"
    S = []
    R = lambda n=None, **k: rec(rng, n, **k)
    for su in (-1, 0, 1, 2, 3):
        for ver in (2, 3):
            for fl in range(16):
                for il, ol in ((32, 32), (48, 48), (32, 48), (31, 32)):
                    if q and rng.random() < 0.7: continue
                    S.append(["reset %d %d %d %d 0 0 %d 1" % (su, ver, il, ol, fl), "protect 5 0 -1", un(rng, [R(4)])])
    for su in range(3):
        # messages of all sizes
        for n in SIZES + [rng.randrange(70000) for _ in range(2 if q else 30)] + ([163840] if q else [163840, 163841, 500000]):
            S.append([reset(rng, su), "protect %d %d -1" % (n, rng.randrange(10**6)), "protect %d 0 -1" % min(n, 17000), "protect1 %d %d %d -1" % (n, rng.randrange(10**6), rng.choice([0, 0, 5])),
                      "protect1 %d %d -1 -1" % (n, rng.randrange(10**6)), "protect 3 2 -1", "sizes %d" % n])
        S.append([reset(rng, su)] + ["sizes %d" % x for x in (0, 1, 4, 5, 21, 22, 23, 16383, 16384, 16385, 16406, 32768, 65536, 10**6, 10**7,
                      2**24 - 1, 2**24, 2**24 + 1, 2**24 + 16385, 2**25 + 3, 2**26 + 3, 2**28 + 1, 2**30, 2**30 + 1, 2 * 10**9)]
                 + ["sizes %d" % rng.randrange(10**7, 2 * 10**9) for _ in range(8)])
        S.append([reset(rng, su)] + ["protect1 %d %d %d -1" % (n, rng.randrange(100), c) for n in (0, 1, 50, 16384, 16385, 33000) for c in (0, 1, -1, -5, -17, -22, -23, -16500)] + ["protect 4 0 -1"])
        # every cut: byte by byte, empty buffers
        for c in (0, 1, 2, 3, 4, 5):
            S.append([reset(rng, su), "protect 40 %d -1" % c, un(rng, [R(9), R(0), R(7)], cut=c), un(rng, [R(1)], cut=c), un1(rng, [R(6)], cut=c), un1(rng, [R(0)], cut=c)])
        # thousands of buffers for one message, one record
        for n in (3000,) if q else (3000, 16384, 40000):
            S.append([reset(rng, su), "protect %d 2 -1" % n, "protect1 %d 2 0 -1" % n, un(rng, [R(n), R(5)], cut=2), un1(rng, [R(min(n, 16384))], cut=2), un(rng, [R(4)] * 40, cut=2), un(rng, [R(4) for _ in range(300)]), un(rng, [R(900)], cut=3), "protect 900 3 -1", un1(rng, [R(500)], cut=3), un(rng, [R(3)]), "protect 3 0 -1"])
        # many records
        for k in (1, 2, 3, 5, 12):
            S.append([reset(rng, su), un(rng, [R() for _ in range(k)]), un(rng, [R(0) for _ in range(k)]), un(rng, [R(pad=rng.randrange(5)) for _ in range(k)]), un1(rng, [R() for _ in range(k)]), un1(rng, [R()])])
        # a bad record at position b of k
        for k in (1, 2, 3, 4):
            for b in range(k):
                for mut in ("body", "tag", "hdr", "skip", "dup", "rand"):
                    for pos in ([rng.randrange(200)] if q else [rng.randrange(200) for _ in range(4)] + list(range(24, 40))):
                        items = [R() for _ in range(k)]
                        items[b] = rec(rng, None, mut=mut, pos=pos)
                        S.append([reset(rng, su), un(rng, [R()]), un(rng, items), un(rng, [R()])])
                for it in (raw(21, "1x1,0x1"), raw(21, "2x2"), raw(9, "1x1"), raw(-1, "0x3"), raw(-1, "-"), raw(22, "9x4"), raw(22, "4x2"), TICKET, KU):
                    items = [R() for _ in range(k)]
                    items[b] = it
                    S.append([reset(rng, su), un(rng, items), un(rng, [R()]), un(rng, [TICKET, R()]), "protect 9 0 -1"])
                    if k == 1:
                        S.append([reset(rng, su), un1(rng, items), un1(rng, [R()])])
        # header bits for the first and second record
        for pos in range(40):
            S.append([reset(rng, su), un(rng, [R(5), rec(rng, 30, mut="hdr", pos=pos)]), un(rng, [R(3)])])
            S.append([reset(rng, su), un1(rng, [rec(rng, 30, mut="hdr", pos=pos)]), un1(rng, [R(3)])])
        # partial records and trailing bytes
        for k in (1, 2, 3):
            for trim in (1, 2, 5, 15, 16, 17, 20, 21, 22, 23, 24, 25, 26, 30, -1, -2, -3, -4, -5, -6, -20, -21, -22, -30):
                if q and rng.random() < 0.3: continue
                S.append([reset(rng, su), un(rng, [R(5) for _ in range(k)], trim), un(rng, [R(3)])])
                if k == 1:
                    S.append([reset(rng, su), un1(rng, [R(5)], trim), un1(rng, [R(3)])])
        # short raw inputs
        for n in list(range(0, 30)):
            S.append([reset(rng, su), un(rng, [raw(0, "23x1,3x2,0x%d" % (n - 3) if n > 3 else ("23x1,3x2" if n == 3 else "23x1,3x1" if n == 2 else "23x1" if n == 1 else "-"), mut="raw")]),
                      un1(rng, [raw(0, "23x1,3x2,0x%d" % (n - 3) if n > 3 else "-", mut="raw")]), un(rng, [R(3)]), "protect 3 0 -1"])
        # declared length against what follows
        for hi, lo, n in ((0, 0, 17), (0, 1, 20), (0, 16, 16), (0, 16, 30), (0, 17, 17), (0, 15, 34), (64, 0, 30), (255, 255, 40), (64, 17, 16401), (64, 18, 16402), (65, 17, 16657)):
            body = "23x1,3x2,%s,77x%d" % ("%dx1,%dx1" % (hi, lo) if hi != lo else "%dx2" % hi, n)
            S.append([reset(rng, su), un(rng, [raw(0, body, mut="raw")]), un1(rng, [raw(0, body, mut="raw")]), un(rng, [R(9), raw(0, body, mut="raw")]), un(rng, [R(3)])])
        # large records, padding to the limit
        S.append([reset(rng, su), un(rng, [R(16384), R(16384), R(5)]), un(rng, [R(16384), R(16385), R(5)]), un(rng, [R(2)])])
        S.append([reset(rng, su), un(rng, [rec(rng, 16000, pad=384), rec(rng, 100, pad=300)]), un(rng, [rec(rng, 16000, pad=385)]), un(rng, [R(2)])])
        # faults everywhere
        for fa in range(0, 14):
            S.append([reset(rng, su), "protect 40000 %d %d" % (rng.randrange(100), fa), "protect 5 0 -1"])
            S.append([reset(rng, su), "protect 10 0 %d" % fa, "protect 5 0 -1", "protect1 20 0 0 %d" % fa, "protect 3 0 -1"])
            S.append([reset(rng, su), un(rng, [R(), R(), R()], 0, fa)])
            S.append([reset(rng, su), un1(rng, [R()], 0, 0, fa)])
            S.append([reset(rng, su), un(rng, [R(), KU, R()], 0, fa)])
        # exhausted sequence numbers in the middle of a message
        for back in (0, 1, 2):
            S.append([reset(rng, su, MAX64 - back, MAX64 - back), "protect 49152 0 -1", "protect 3 0 -1", un(rng, [R() for _ in range(4)]), un(rng, [R()])])
            S.append([reset(rng, su, MAX64 - back, MAX64 - back), "protect 16385 0 -1", "protect 3 0 -1", "protect1 3 0 0 -1", un(rng, [R() for _ in range(back)] or [R()]), un(rng, [KU, R(), R()])])
        S.append([reset(rng, su), un(rng, [R(), raw(21, "1x1,0x1"), R()]), un(rng, [R()]), un1(rng, [R()]), "protect 5 0 -1"])
        # many records in one call, long connections
        S.append([reset(rng, su), un(rng, [R(rng.randrange(3)) for _ in range(300)]), un(rng, [R(2)]), un(rng, [R(1), KU] * 40 + [R(3)]), un(rng, [R(2)])])
        S.append([reset(rng, su)] + [x for i in range(150) for x in ("protect %d 0 -1" % (i % 5), un(rng, [R(i % 3)], cut=0))])
        if su == 0 or not q: S.append([reset(rng, su), "protect 4250000 0 -1", "protect 3 0 -1"])
        # very long ones
        n = 66000 if not q else 9000 if su == seed % 3 else 1500
        S.append([reset(rng, su), "burst %d protect 3 0 -1" % n, "burst %d protect1 20 0 0 -1" % (n // 8), "protect 40000 0 -1", "protect 5 0 -1"])
        S.append([reset(rng, su), "burst %d " % n + un(rng, [R(3)], cut=0), "burst %d " % (n // 8) + un1(rng, [R(5)]), "burst 300 " + un(rng, [R(3), R(4), R(0)]), un(rng, [R(4)]), "protect 5 0 -1"])
        S.append([reset(rng, su), "burst %d " % (n // 4) + un(rng, [KU]), un(rng, [R(4)]), "burst 300 protect 20000 0 -1", "protect 5 0 -1"])
        S.append([reset(rng, su, 2**32 - 100, 2**32 - 150), "burst 100 protect 17000 0 -1", "burst 300 " + un(rng, [R(3)]), "protect 5 0 -1"])
        S.append([reset(rng, su, MAX64 - 100, MAX64 - 150), "burst 100 protect 17000 0 -1", "burst 300 " + un(rng, [R(3)]), "protect 5 0 -1", un(rng, [R(3)])])
    for _ in range(40 if q else 900):
        s = [reset(rng, None, rng.choice([0, 7, rng.getrandbits(64), MAX64 - 9]), rng.choice([0, 7, rng.getrandbits(64), MAX64 - 9]))]
        for _ in range(rng.randrange(3, 25)):
            x = rng.random()
            n = rng.choice([0, 1, 5, rng.randrange(200), rng.randrange(2000), rng.choice(SIZES) if rng.random() < 0.3 else 3])
            if x < 0.3: s.append("protect %d %d -1" % (n, rng.randrange(10**6)))
            elif x < 0.4: s.append("protect1 %d %d %d -1" % (n, rng.randrange(10**6), rng.choice([0, 0, 0, 3, -1])))
            elif x < 0.6: s.append(un(rng, [rec(rng, rng.choice([0, 1, 20, n]), pad=rng.choice([0, 0, 3])) if n < 16000 else R(n if n <= 16384 else 16384) for _ in range(rng.randrange(1, 6))]))
            elif x < 0.7: s.append(un1(rng, [R(min(n, 16384))], 0, rng.choice([0, 9])))
            elif x < 0.8: s.append(un(rng, [R(), rng.choice([KU, TICKET, R(), raw(22, "4x1") + "+" + raw(22, "0x2,1x1,5x1")]), R()]))
            elif x < 0.86: s.append(un(rng, [R(), rec(rng, mut=rng.choice(["body", "tag", "hdr", "skip", "dup"]), pos=rng.randrange(300)), R()]))
            elif x < 0.92: s.append(un(rng, [R(), R()], rng.choice([1, 3, 20, 25, -1, -7])))
            elif x < 0.95: s.append("protect %d 0 %d" % (n, rng.randrange(6)))
            else: s.append("sizes %d" % n)
        S.append(s)
    return S
