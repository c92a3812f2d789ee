"""HandshakeMessageHandler: C07, C08, C09, C26."""
import random
from vlib import *

NAME = "hs"
DRIVER = "hs_driver"
TRACE = ("HandshakeTrace", "CONSTANTS MaxTickets = 5\n LenBytes = 3\nINIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n")

def variants(tier):
    return ["openssl"]

def mcs(tier, prop):
    n, p = (5, 3) if tier == "quick" else (7, 3)
    return [("HandshakeMC", """CONSTANTS MaxTickets = 2
 LenBytes = 1
 Alphabet = {0, 1, 4, 24}
 MaxStream = %d
 MaxPiece = %d
SPECIFICATION Spec
INVARIANTS FragmentationIndependent FlagsExact RejectsExactly TicketsExact
PROPERTY DeadStays
CHECK_DEADLOCK FALSE
""" % (n, p), 3 if tier == "quick" else 6)]

def gens(tier, prop):
    return [("HandshakeGen", "CONSTANTS MaxTickets = 5\n LenBytes = 3\n Catalogue = 0\nINIT Init\nNEXT Next\nVIEW View\nACTION_CONSTRAINT Edge\nCHECK_DEADLOCK FALSE\n", gen_script)]

def runs(bs):
    if not bs:
        return "-"
    o = []
    for b in bs:
        if o and o[-1][0] == b:
            o[-1][1] += 1
        else:
            o.append([b, 1])
    return ",".join("%dx%d" % (b, n) for b, n in o)

def gen_script(walk):
    r = ["reset"]
    for op in walk:
        r.append("get" if op[0] == "get" else "feed " + runs(op[1]))
    return r

# a stream as runs [(byte,count)], cut at random positions
def cut(rng, stream, maxpieces):
    total = sum(n for _, n in stream)
    k = rng.randrange(0, maxpieces)
    cuts = sorted(rng.randrange(0, total + 1) for _ in range(k)) + [total]
    return cuts

def slices(stream, cuts):
    out = []
    cur = []
    pos = 0
    cuts = list(cuts)
    it = [list(x) for x in stream]
    ci = 0
    while ci < len(cuts):
        if pos == cuts[ci]:
            out.append(cur); cur = []; ci += 1
            continue
        b, n = it[0]
        k = min(n, cuts[ci] - pos)
        cur.append((b, k)); pos += k
        it[0][1] -= k
        if it[0][1] == 0:
            it.pop(0)
    return out

def msg(typ, body):
    n = sum(c for _, c in body)
    return [(typ, 1), (n >> 16, 1), ((n >> 8) & 255, 1), (n & 255, 1)] + body

def body(rng, size_class):
    n = {0: lambda: rng.choice([0, 1, 2, 3]), 1: lambda: rng.randrange(0, 40),
         2: lambda: rng.choice([255, 256, 257, 0x0102, 300, 511, 512]),
         3: lambda: rng.choice([65535, 65536, 65537, 0x010203, 0x7fffff, 0x800000, 0xffffff])}[size_class]()
    if size_class <= 1:
        return [(rng.choice([0, 1, 4, 24, rng.randrange(256)]), 1) for _ in range(n)]
    r = []
    left = n
    while left > 0:
        k = min(left, rng.choice([1, 2, left, max(1, left // 2)]))
        r.append((rng.randrange(256), k)); left -= k
    return r

def fmt(piece):
    m = []
    for b, n in piece:
        if m and m[-1][0] == b:
            m[-1][1] += n
        else:
            m.append([b, n])
    return ",".join("%dx%d" % (b, n) for b, n in m) if m else "-"

def scripts(tier, seed, prop):
    rng = random.Random(seed * 7919 + 1)
    segs = []
    N = 260 if tier == "quick" else 6000
    big = 0
    # every cut of small streams into two or three pieces
    base = [msg(4, [(1, 1), (2, 1)]) + msg(24, [(1, 1)]),
            msg(4, []) + msg(4, [(9, 1)]) + msg(24, [(0, 1)]),
            msg(24, [(1, 1)]), msg(4, [(4, 3)]) + msg(4, [(24, 2)]),
            msg(4, [(0, 3)]) * 5 + msg(4, [(7, 2)]) + msg(24, [(1, 1)])]
    for st in base:
        t = sum(n for _, n in st)
        for i in range(t + 1):
            segs.append(["reset"] + ["feed " + fmt(p) for p in slices(st, [i, t])] + ["get", "get"])
            if t < 14 or tier != "quick":
                for j in range(i, t + 1):
                    segs.append(["reset"] + ["feed " + fmt(p) for p in slices(st, [i, j, t])] + ["get"])
    # byte by byte
    for st in base:
        t = sum(n for _, n in st)
        segs.append(["reset"] + ["feed " + fmt(p) for p in slices(st, range(1, t + 1))] + ["get"])
    # every header length value in each byte position, first body byte
    for v in ([1, 2, 127, 128, 255] if tier == "quick" else range(256)):
        for sh in (0, 8, 16):
            n = v << sh
            st = [(4, 1), (n >> 16, 1), ((n >> 8) & 255, 1), (n & 255, 1), (v ^ 1, n)] if n else msg(4, [])
            if n > 300000 and tier == "quick" and v not in (255, 1):
                continue
            t = sum(c for _, c in st)
            c = rng.randrange(1, t + 1)
            segs.append(["reset", "feed " + fmt(slices(st, [c, t])[0])] + ["feed " + fmt(slices(st, [c, t])[1]), "feed " + fmt(msg(24, [(1, 1)])), "get"])
    # all message types as first byte
    for typ in range(256):
        if typ not in (4, 24):
            pre = rng.choice([[], msg(4, [(1, 2)])])
            segs.append(["reset"] + (["feed " + fmt(pre)] if pre else []) + ["feed %dx1" % typ, "feed 0x1", "get", "feed " + fmt(msg(4, [(1, 1)]))])
            segs.append(["reset", "feed " + fmt(pre + [(typ, 1), (0, 3)])])
    for _ in range(N):
        seg = ["reset"]
        st = []
        for _ in range(rng.randrange(1, 10)):
            x = rng.random()
            if x < 0.62:
                cls = rng.choice([0, 0, 1, 1, 1, 2])
                if rng.random() < (0.02 if tier == "quick" else 0.03) and big < (6 if tier == "quick" else 200):
                    cls = 3; big += 1
                st += msg(4, body(rng, cls))
            elif x < 0.9:
                st += msg(24, [(rng.choice([0, 1]), 1)])
                # a key update has to end its record: cut here mostly
                if rng.random() < 0.9:
                    seg += emit(rng, st); st = []
            elif x < 0.94:
                st += msg(24, body(rng, rng.choice([0, 1])))
                if rng.random() < 0.7:
                    seg += emit(rng, st); st = []
            elif x < 0.96:
                st += [(rng.randrange(256), 1), (0, 2), (rng.randrange(3), 1)]
            elif x < 0.98:
                seg += emit(rng, st); st = []
                seg.append("get")
            else:
                seg += ["feednull"] if not st else []
        seg += emit(rng, st) + ["get"]
        if rng.random() < 0.3:
            seg += ["feed " + fmt(msg(4, [(3, 3)])), "feed " + fmt(msg(24, [(1, 1)])), "get"]
        segs.append(seg)
    # long streams
    segs.append(["reset"] + ["feed " + fmt(msg(24, [(i % 2, 1)])) for i in range(300)] + ["get"])
    segs.append(["reset"] + ["feed " + fmt(p) for p in slices(msg(4, [(5, 150), (6, 150)]), range(1, 305))] + ["feed " + fmt(msg(24, [(1, 1)])), "get"])
    segs.append(["reset"] + ["feed " + fmt(msg(4, [(7, i % 4)])) for i in range(300)] + ["feed " + fmt(msg(24, [(1, 1)])), "get", "feed " + fmt(msg(4, [(3, 3)])), "get"])
    segs.append(["reset"] + [x for i in range(60) for x in ("feed " + fmt(msg(4, [(7, i % 4)])), "get", "feed " + fmt(msg(24, [(0, 1)])))])
    segs.append(["reset", "feed " + fmt(msg(4, [(1, 2)]) * 300), "get"])
    # hostile: arbitrary bytes, also after errors
    for _ in range(N // 2):
        seg = ["reset"]
        for _ in range(rng.randrange(1, 12)):
            n = rng.randrange(0, 12)
            seg.append("feed " + runs([rng.choice([0, 0, 1, 4, 24, rng.randrange(256)]) for _ in range(n)]))
            if rng.random() < 0.1:
                seg.append("get")
        segs.append(seg)
    return segs

def emit(rng, st):
    if not st:
        return []
    r = ["feed " + fmt(p) for p in slices(st, cut(rng, st, 7))]
    if rng.random() < 0.1:
        r.insert(rng.randrange(len(r) + 1), "get")
    return r
