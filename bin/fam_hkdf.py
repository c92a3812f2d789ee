"""HKDF-Expand: C12, C25."""
from vlib import *
NAME = "hkdf"
DRIVER = "hkdf_driver"
TRACE = ("HkdfTrace", "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n")
ASSUMPTIONS = ["the reference is RFC 5869 written over libcrypto's one-shot HMAC"]
def variants(tier):
    return ["openssl", "boringssl"]
def mcs(tier, prop):
    return [("HkdfMC", "CONSTANTS HL = 3\n MaxOut = %d\n MaxBlk = %d\nSPECIFICATION Spec\nINVARIANTS Prefix Chained CounterFits NeverTooLong KeyReadBeforeWrite RefusedExactly\nPROPERTY Terminates\nCHECK_DEADLOCK FALSE\n" % ((20, 5) if tier == "quick" else (200, 60)), 2)]
def gens(tier, prop):
    return []
def scripts(tier, seed, prop):
    rng = random.Random(seed * 31 + 5)
    q = tier == "quick"
    segs = [["reset"] + ["hash %d %d" % (v, n) for v in list(range(-3, 9)) + [255, 256, 257, 258, 4865, 4866, 4867] for n in (0, 1)]]
    if prop == "C13":
        return segs
    ids = lambda: rng.randrange(10**6)
    for h in (0, 1):
        hl = 48 if h else 32
        s = ["reset"]
        for k in range(0, 257):
            if q and 12 < k < 250 and k % 9: continue
            for dd in (-1, 0, 1):
                if k * hl + dd >= 0:
                    s.append("derive %d %d %d %d %d %d 0 -1" % (h, hl + rng.choice([0, 0, 1, 30]), ids(), rng.choice([0, 1, 10, 21, 100]), ids(), k * hl + dd))
        segs.append(s)
        # every key length around the hash size and block size of the hash
        segs.append(["reset"] + ["derive %d %d %d %d %d %d 0 -1" % (h, pl, ids(), 5, ids(), 40) for pl in list(range(0, 140)) + [255, 256, 1000]])
        # every info length
        segs.append(["reset"] + ["derive %d %d %d %d %d %d 0 -1" % (h, hl, ids(), il, ids(), hl * 2 + 3) for il in list(range(0, 140)) + [255, 256, 257, 600, 70000]])
        # output in place of the key
        segs.append(["reset"] + ["derive %d %d %d %d %d 0 1 -1" % (h, pl, ids(), il, ids()) for pl in (hl, hl + 1, 2 * hl, 2 * hl + 5, 5 * hl, 255 * hl) for il in (0, 21, 64)])
        # every output length up to some blocks
        segs.append(["reset"] + ["derive %d %d %d 7 %d %d 0 -1" % (h, hl, ids(), ids(), ol) for ol in range(0, 200 if q else 1000)])
        # all large lengths over the limit
        segs.append(["reset"] + ["derive %d %d %d 7 %d %d 0 -1" % (h, hl, ids(), ids(), ol) for ol in (255 * hl + 1, 256 * hl, 256 * hl + 1, 257 * hl, 300 * hl, 511 * hl, 512 * hl, 65536, 2**20)])
        # faults
        for ol in (0, 1, hl, hl + 1, 3 * hl):
            segs.append(["reset"] + ["derive %d %d %d 9 %d %d 0 %d" % (h, hl, ids(), ids(), ol, f) for f in range(0, 5 + 5 * (ol // hl + 1))])
    segs.append(["reset"] + ["derive %d 64 1 7 2 40 0 -1" % h for h in (2, 3, 7, -1, 255, 1000)])
    s = ["reset"]
    for _ in range(100 if q else 5000):
        h = rng.randrange(2)
        s.append("derive %d %d %d %d %d %d 0 -1" % (h, rng.randrange(30, 200), ids(), rng.randrange(0, 300), ids(), rng.choice([16, 12, 32, 48, rng.randrange(0, 13000)])))
    segs.append(s)
    return segs
