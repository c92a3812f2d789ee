"""S2ACrypter (the record layer) against an independent TLS 1.3 peer."""
from vlib import *
import fam_hs as H
NAME = "rec"
DRIVER = "rec_driver"
BASE = "CONSTANTS MaxTickets = 5\n LenBytes = 3\n LimbBase = 65536\n MaxPlain = 16384\n Overhead = 22\n"
TRACE = ("RecordTrace", BASE + "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n")
ASSUMPTIONS = ["the peer of the record layer is an independent implementation of RFC 8446 sections 5.2, 5.3, 7.1-7.3 on libcrypto's one-shot primitives",
               "cryptography is ideal in the models: a record opens only under its own key, sequence number and header"]
HL = [32, 48, 32]

def variants(tier):
    _tier[0] = tier
    return ["openssl", "boringssl"]

_tier = ["quick"]
def runs_on(seg, variant):
    """On BoringSSL the quick tier runs a third of the segments."""
    import zlib
    return variant == "openssl" or _tier[0] != "quick" or zlib.crc32("\n".join(seg).encode()) % 3 == 0

def mc(sent, out, err, start, pieces):
    return """CONSTANTS MaxTickets = 2
 LenBytes = 1
 LimbBase = 2
 MaxPlain = 10
 Overhead = 22
 MaxSent = %d
 MaxOut = %d
 MaxErr = %d
 Start <- %s
 Pieces <- %s
SPECIFICATION Spec
INVARIANTS InOrderOnce NothingLost NonceUnique Epochs NotInMessage HandedOnce HandedExact NotKept
PROPERTIES CloseFinal BrokenStays OutAlone
CHECK_DEADLOCK FALSE
""" % (sent, out, err, start, pieces)

def mcs(tier, prop):
    if tier == "quick":
        return [("RecordMC", mc(3, 0, 1, "StartZero", "PiecesFull"), 3), ("RecordMC", mc(0, 4, 1, "StartHigh", "PiecesSmall"), 2),
                ("RecordMC", mc(3, 0, 2, "StartHigh", "PiecesSmall"), 2)]
    return [("RecordMC", mc(4, 0, 1, "StartZero", "PiecesFull"), 4), ("RecordMC", mc(0, 5, 1, "StartHigh", "PiecesSmall"), 2),
            ("RecordMC", mc(4, 0, 2, "StartHigh", "PiecesSmall"), 2)]

def gens(tier, prop):
    return [("RecordGen", BASE + " MaxEp = %d\n Side = \"%s\"\nINIT Init\nNEXT Next\nVIEW View\nACTION_CONSTRAINT Edge\nCHECK_DEADLOCK FALSE\n" % x, gen_script)
            for x in ([(0, "in"), (2, "out")] if tier == "quick" else [(1, "in"), (3, "out")])]

def runs(bs):
    return "r:" + H.runs(bs)

_c = [0]
def reset(rng, su=None, is_=0, os_=0, fault=-1, conn=None, idk=None, sid=None):
    su = rng.randrange(3) if su is None else su
    conn = rng.choice([0, 1, 7, 2**32, 2**63, 2**64 - 1, rng.getrandbits(64)]) if conn is None else conn
    idk = rng.randrange(4) if idk is None else idk
    ident = rng.choice(["a", "spiffe://x/y", "host.example", "1000"])
    url = rng.choice(["localhost:1", "s2a.example:443", "u"])
    return "reset %d 3 %d %d %d %d %d %s %d %s 0 %d %d" % (su, HL[su], HL[su], is_, os_, conn, url.encode().hex(), idk, ident.encode().hex() if idk else "-",
                                                       rng.randrange(10**6) if sid is None else sid, fault)

def gen_script(walk):
    _c[0] += 1
    rng = random.Random(_c[0])
    r = [reset(rng)]
    k = 0
    for op in walk:
        k += 1
        o = op[0]
        cut = k % 5
        if o == "recv":
            r.append("recv %d %s %d none 0 %d 99 -1" % (op[1], runs(op[2]), op[3], cut))
        elif o == "hs":
            # faults at the first calls hit decryption, later ones the derivation of the next key
            r.append("recv 22 %s %d none 0 %d 99 %d" % (runs(op[1]), (k % 3) * (k % 2), cut, [0, 1, 2, 3, 4, 5, 6, 7, 8, 9][k % 10] if op[2] else -1))
        elif o == "replay": r += ["deliver -1 none 0 %d 99 -1" % cut, "pskip"]
        elif o == "mutapp": r.append("recv 23 p:%d:9 0 %s %d %d 99 -1" % (k, ["body", "tag", "trunc", "ext", "swap16", "rand"][k % 6], 1 + k % 60, cut))
        elif o == "muths": r.append("recv 22 r:%s 0 %s %d %d 99 -1" % ("4x1,0x3", ["body", "tag"][k % 2], k % 60, cut))
        elif o == "hdr": r.append("forge 0 0 23 p:1:4 0 %s %d %d 99 -1" % (["hdr", "truncraw", "extraw", "hshort", "hlong", "hnull"][k % 6], k % 40, cut))
        elif o == "skip": r += ["hold 23 p:%d:3 0" % k, "recv 23 p:%d:4 0 none 0 0 99 -1" % k]
        elif o == "oldkey": r += ["forge 0 0 23 p:5:5 0 none 0 %d 99 -1" % cut, "pskip"]
        elif o == "newkey": r += ["forge 2 0 23 p:5:5 0 none 0 %d 99 -1" % cut, "pskip"]
        elif o == "small": r.append("recv 23 p:%d:20 0 none 0 %d %d -1" % (k, cut, -1 - k % 3))
        elif o == "send": r.append("send %s p:%d:%d %d %d -1" % (["app", "hs", "alert"][k % 3], k, k % 70, cut, k % 4))
        elif o == "sendbig": r.append("send app p:1:16385 %d 0 -1" % cut)
        elif o == "sendsmall": r.append("send app p:1:9 %d %d -1" % (cut, -1 - k % 31))
        elif o == "sendbad": r.append("send bad p:1:9 %d 0 -1" % cut)
        elif o == "sendfault": r.append("send app p:%d:9 %d 0 %d" % (k, cut, k % 5))
        elif o == "update": r.append("update -1")
        elif o == "updatefault": r.append("update %d" % (k % 6))
    # the peer follows a completed key update
    return follow(r) + ["end"]

def follow(lines):
    """Insert pupdate after each complete KeyUpdate the peer sends (as the peer sees its own stream)."""
    out = []
    hdr = []
    need = 0
    def eat(bs):
        nonlocal hdr, need
        ku = False
        for b, n in bs:
            while n > 0:
                if len(hdr) < 4:
                    hdr.append(b); n -= 1
                    if hdr[0] not in (4, 24):
                        hdr = []; need = 0
                        return ku
                    if len(hdr) == 4:
                        need = (hdr[1] << 16) | (hdr[2] << 8) | hdr[3]
                        if need == 0:
                            ku |= hdr[0] == 24; hdr = []
                else:
                    k = min(n, need); need -= k; n -= k
                    if need == 0:
                        ku |= hdr[0] == 24; hdr = []
        return ku
    for l in lines:
        out.append(l)
        t = l.split(" ")
        if t[0] in ("recv", "hold") and t[1] == "22" and t[2].startswith("r:"):
            bs = [] if t[2] == "r:-" else [tuple(map(int, x.split("x"))) for x in t[2][2:].split(",")]
            if eat(bs):
                out.append("pupdate")
    return out

def hsrecs(rng, stream, maxp=5, pad=None):
    """handshake stream (runs) cut into records"""
    t = sum(n for _, n in stream)
    cuts = H.cut(rng, stream, maxp)
    cuts = sorted(set(c for c in cuts if c > 0))
    return ["recv 22 r:%s %d none 0 %d 99 -1" % (H.fmt(p), rng.choice([0, 0, 0, 1, 17]) if pad is None else pad, rng.randrange(8)) for p in H.slices(stream, cuts)]

KU = lambda f=0: H.msg(24, [(f, 1)])
SIZES = [0, 1, 2, 15, 16, 17, 31, 63, 64, 100, 255, 256, 1000, 4095, 8192, 16383, 16384]
MAX64 = 2**64 - 1

def scripts(tier, seed, prop):
    return [s if s[-1] == "end" else s + ["end"] for s in scripts0(tier, seed, prop)]

def scripts0(tier, seed, prop):
    rng = random.Random(seed * 31337 + 5)
    q = tier == "quick"
    mult = 1 if q else 12
    S = []
    app = lambda n=None, pad=0, mut="none", pos=0, cap=99, f=-1: "recv 23 p:%d:%d %d %s %d %d %d %d" % (rng.randrange(10**6), rng.randrange(0, 60) if n is None else n, pad, mut, pos, rng.randrange(8), cap, f)
    send = lambda n=None, t="app", cap=0, f=-1: "send %s p:%d:%d %d %d %d" % (t, rng.randrange(10**6), rng.randrange(0, 60) if n is None else n, rng.randrange(8), cap, f)
    # parameters
    for su in (-1, 0, 1, 2, 3, 7):
        for ver in (0, 1, 2, 3, 4):
            for il in (0, 31, 32, 33, 48, 64):
                for ol in ((32, 48, 16) if q else (0, 16, 31, 32, 33, 47, 48, 49, 64)):
                    if q and rng.random() < 0.6 and not (su in (0, 1, 2) and ver == 3): continue
                    S.append(["reset %d %d %d %d 0 0 5 75 0 - 0 3 -1" % (su, ver, il, ol), send(3), app(3), "overhead"])
    for su in range(3):
        for fl in (0, 1, 2, 3):
            for url in ("75", "-"):
                S.append(["reset %d 3 %d %d 0 0 5 %s 0 - %d 3 -1" % (su, HL[su], HL[su], url, fl), send(3), app(4)])
        for f in range(0, 34):
            S.append([reset(rng, su, fault=f), send(4), app(5)])
        # equal / different secrets and sequence numbers at every limb boundary
        for base in (0, 1, 255, 65535, 65536, 2**31 - 1, 2**32 - 2, 2**32 - 1, 2**40, 2**48 - 1, 2**53, 2**56 - 1, 2**63 - 1, 2**63, MAX64 - 3):
            S.append([reset(rng, su, base, (base * 3 + 1) & MAX64)] + [x for _ in range(3) for x in (send(), app())])
            S.append([reset(rng, su, (base * 5) & MAX64, base)] + [x for _ in range(3) for x in (send(), app())])
        # exhaustion of the sequence numbers
        for back in (0, 1, 2):
            S.append([reset(rng, su, MAX64 - back, MAX64 - back)] + [x for _ in range(back + 3) for x in (send(), app())] + ["update -1", send(), send(), "forge 1 0 23 p:1:2 0 none 0 0 99 -1", app()])
            S.append([reset(rng, su, MAX64 - back, MAX64 - back)] + [app() for _ in range(back)] + follow(hsrecs(rng, KU(1), 1)) + [app(), app(), send(), "update -1", send()])
            S.append([reset(rng, su, MAX64 - back, MAX64 - back)] + [send(3, cap=-1), send(16385), send(4, "bad")] + [send() for _ in range(back + 3)] + [app(3, 0, "body", 5), app(), app(), app()])
        # sizes
        for n in SIZES + [rng.randrange(16384) for _ in range(2 * mult)]:
            S.append([reset(rng, su), send(n), send(n, "hs"), send(n, cap=7), send(n, cap=-1), send(n, "alert"), send(n), app(n), app(n, rng.choice([0, 1, 300]) if n < 16000 else 0), app(n, cap=0), app(n, cap=-1), app(n), "overhead"])
        for n in (16384, 16385, 16386, 16640, 20000, 65535):
            S.append([reset(rng, su), send(n), send(5), app(min(n, 65518)), app(5)])
        S.append([reset(rng, su), app(16384, 1), app(16383, 1), app(16384, 0), app(16000, 384), app(16000, 385), app(0, 16384), app(0, 16385), app(3)])
        # padding
        S.append([reset(rng, su)] + [app(n, p) for n in (0, 1, 5, 100) for p in (0, 1, 2, 15, 16, 255, 256, 1000)])
        # every content type, without and with content
        for t in (range(256) if not q else list(range(0, 30)) + [255, 128, 54]):
            S.append([reset(rng, su), "recv %d p:1:%d %d none 0 0 99 -1" % (t, rng.choice([0, 2, 5]), rng.choice([0, 3])), app(4), "recv %d r:- 0 none 0 0 99 -1" % t, app(3)])
        for n in (0, 1, 2, 16, 100, 16384):
            S.append([reset(rng, su), app(3), "recv -1 r:%s 0 none 0 0 99 -1" % ("0x%d" % n if n else "-"), app(5), "recv 0 r:- %d none 0 0 99 -1" % n, app(2)])
        # content that ends in zeros (the type byte protects it)
        S.append([reset(rng, su)] + ["recv 23 r:7x2,0x%d %d none 0 0 99 -1" % (n, p) for n in (1, 5, 100) for p in (0, 4)] + ["recv 23 r:0x9 0 none 0 0 99 -1", "send app r:0x9 0 0 -1", "send app r:5x1,0x90 2 0 -1", "send app r:23x4 2 0 -1"])
        # alerts
        for lvl in (0, 1, 2, 255):
            for d in (0, 1, 10, 20, 40, 50, 90, 255):
                if q and rng.random() < 0.5 and d: continue
                S.append([reset(rng, su), app(3), "recv 21 r:%dx1,%dx1 %d none 0 0 99 -1" % (lvl, d, rng.choice([0, 2])) if lvl != d else "recv 21 r:%dx2 0 none 0 0 99 -1" % d, app(4), app(2), send(4),
                          "recv 21 r:1x1,0x1 0 none 0 0 99 -1", app(1), send(2), "recv 22 r:4x1,0x3 0 none 0 0 99 -1", "update -1", send(), "forge 0 0 23 p:3:4 0 hdr 3 0 99 -1", app(0)])
        S.append([reset(rng, su), "recv 21 r:- 0 none 0 0 99 -1", "recv 21 r:1x1 0 none 0 0 99 -1", "recv 21 r:0x1 0 none 0 0 99 -1", app(3), "recv 21 r:1x1,0x1,9x5 0 none 0 0 99 -1", app(3)])
        # a damaged close does not close
        S.append([reset(rng, su), "recv 21 r:1x1,0x1 0 tag 3 0 99 -1", app(3), "recv 21 r:1x1,0x1 0 none 0 0 -1 -1", app(4), "forge 1 0 21 r:1x1,0x1 0 none 0 0 99 -1", "pskip", app(2)])
        # replays, reordering, wrong direction of skipping
        S.append([reset(rng, su), app(5), "deliver -1 none 0 0 99 -1", "pskip", app(3), "deliver 0 none 0 0 99 -1", "pskip", app(2)])
        S.append([reset(rng, su), "hold 23 p:1:4 0", "hold 23 p:2:4 0", "deliver 1 none 0 0 99 -1", "deliver 0 none 0 0 99 -1", "deliver 1 none 0 0 99 -1", app(3)])
        S.append([reset(rng, su), "hold 23 p:1:4 0", "hold 23 p:2:4 0", "deliver 0 none 0 3 99 -1", "deliver 1 none 0 2 99 -1", "deliver 1 none 0 0 99 -1", "deliver 0 none 0 0 99 -1"])
        # every header bit; then an intact record still goes through
        s = [reset(rng, su)]
        for b in range(40):
            s += ["forge 0 0 23 p:9:9 0 hdr %d %d 99 -1" % (b, b % 7)]
        S.append(s + [app(4), app(3)])
        for m in ("truncraw", "extraw", "hshort", "hlong", "hnull"):
            S.append([reset(rng, su)] + ["forge 0 0 23 p:9:20 0 %s %d %d 99 -1" % (m, p, p % 5) for p in (1, 2, 4, 5, 15, 16, 17, 18, 20, 30)] + [app(4), app(3)])
        for p in range(1, 40, 1 if not q else 3):
            S.append([reset(rng, su), app(20, 0, "trunc", p), app(3), "recv 23 p:3:%d 0 ext %d 3 99 -1" % (p, p), app(2)])
        # bit flips in body and tag
        for n in (0, 1, 20):
            s = [reset(rng, su)]
            for b in range(0, 8 * (n + 1), 1 if not q else 5): s.append(app(n, 0, "body", b))
            for b in range(0, 128, 1 if not q else 9): s.append(app(n, 0, "tag", b))
            S.append(s + [app(n), app(n)])
        # key updates in every fragmentation; flags; repeated; both directions
        for fl in (0, 1):
            for cuts in [[5], [1, 5], [2, 5], [3, 5], [4, 5], [1, 2, 3, 4, 5], [2, 4, 5]]:
                rec = ["recv 22 r:%s 0 none 0 0 99 -1" % H.fmt(p) for p in H.slices(KU(fl), cuts)]
                S.append([reset(rng, su), app(3), send(2)] + follow(rec) + [app(4), send(3), app(2)] + follow(rec) + [app(1), "update -1", send(5), app(6), "forge 1 0 23 p:3:3 0 none 0 0 99 -1"])
        S.append([reset(rng, su)] + follow(sum([hsrecs(rng, KU(i % 2), 1) + [app(3)] + (["update -1"] if i % 3 == 0 else []) + [send(2)] for i in range(12)], [])))
        S.append([reset(rng, su)] + ["update -1"] * 5 + [send(3), app(3)] + ["update -1"] * 3 + [send(2), send(2), app(1)])
        # without following: the peer keeps the old key
        S.append([reset(rng, su), app(3)] + hsrecs(rng, KU(), 1) + [app(4), app(3), "pupdate", "pskip", "pskip", app(3)])
        # fragmented key update, peer switches too early
        S.append([reset(rng, su), "recv 22 r:24x1,0x2 0 none 0 0 99 -1", "pupdate", "recv 22 r:1x1,0x1 0 none 0 0 99 -1", app(3)])
        # tickets, numbers 1..8, then data; and data before; across key updates
        for k in range(1, 9):
            for style in range(3):
                st = sum([H.msg(4, H.body(rng, rng.choice([0, 1, 1]))) for _ in range(k)], [])
                rec = hsrecs(rng, st, [1, 6, 20][style])
                S.append([reset(rng, su)] + rec + [app(3), app(2), "recv 22 r:4x1,0x2,1x1,8x1 0 none 0 0 99 -1", app(4), "recv 22 r:4x1,0x2,1x1,8x1 0 none 0 0 99 -1", app(2)])
                S.append([reset(rng, su), app(1)] + rec + [send(3), "update -1"] + follow(hsrecs(rng, KU(), 2)) + [app(3), app(2)])
        # data in the middle of a message, then the rest
        for st in (H.msg(4, [(7, 9)]), KU(1), H.msg(4, []) + H.msg(4, [(3, 3)])):
            t = sum(n for _, n in st)
            for c in range(1, t):
                a, b = H.slices(st, [c, t])
                S.append(follow([reset(rng, su), app(2), "recv 22 r:%s 0 none 0 0 99 -1" % H.fmt(a), app(3), app(0), "recv 22 r:%s 0 none 0 0 99 -1" % H.fmt(b), app(4), app(3)]))
        # violations
        for t in (0, 1, 2, 3, 5, 8, 11, 13, 15, 20, 23, 25, 254, 255):
            S.append([reset(rng, su), "recv 22 r:%dx1,0x3 0 none 0 0 99 -1" % t, app(3)])
        S.append([reset(rng, su), "recv 22 r:24x1,0x2,1x1,0x1,4x1 0 none 0 0 99 -1", app(3)])
        S.append([reset(rng, su), "recv 22 r:24x1,0x2 0 none 0 0 99 -1", "recv 22 r:1x1,0x1,4x1,0x3 0 none 0 0 99 -1", app(3)])
        S.append([reset(rng, su), "recv 22 r:- 0 none 0 0 99 -1", app(3), "recv 22 r:- 5 none 0 0 99 -1", app(3)])
        # faults: protect, unprotect, updates; each call
        for f in range(0, 14):
            S.append([reset(rng, su), send(9, "app", 0, f), send(3), app(9, 0, "none", 0, 99, f), app(3), app(3)])
            S.append([reset(rng, su), send(9), "update %d" % f, send(3), send(3), "update -1", send(2), "update -1", send(2), app(3)])
            S.append(follow([reset(rng, su), app(9), "recv 22 r:24x1,0x2,1x1,0x1 0 none 0 0 99 %d" % f, app(3), app(3), "recv 22 r:24x1,0x2,1x1,0x1 0 none 0 0 99 -1", app(2), send(3)]))
        for f in range(14, 40):
            S.append([reset(rng, su), "update %d" % f, send(3), "update -1", send(2)])
            S.append(follow([reset(rng, su), "recv 22 r:24x1,0x2,1x1,0x1 0 none 0 0 99 %d" % f, app(3), app(3), send(1)]))
            S.append(follow([reset(rng, su), "recv 22 r:4x1,0x2,1x1,0x1,24x1,0x2,1x1,0x1 0 none 0 3 99 %d" % f, app(3), app(3)]))
    # long connections: many records, many key updates, tickets in many pieces
    for su in range(3):
        # thousands of buffers for one record
        for n in (2500,) if q else (2500, 16384):
            S.append([reset(rng, su), "send app p:1:%d 999 0 -1" % n, "send hs p:2:%d 999 3 -1" % n, "recv 23 p:3:%d 0 none 0 999 99 -1" % n, "recv 22 r:4x1,0x3 9 none 0 999 99 -1", "recv 23 p:4:5 %d none 0 999 99 -1" % n, "recv 23 p:4:%d 0 tag 3 999 99 -1" % n, app(3), send(3)])
        S.append([reset(rng, su)] + [x for i in range(300 if q else 3000) for x in (send(), app(rng.randrange(4)))] + ["update -1", send(), app()])
        S.append([reset(rng, su)] + follow(sum([hsrecs(rng, KU(i % 2), 1) + ["update -1"] + ([app(3), send(2)] if i % 7 == 0 else []) for i in range(260 if q else 1000)], [])) + [app(3), send(3)])
        st = H.msg(4, [(5, 150), (6, 150)])
        S.append([reset(rng, su), app(2)] + ["recv 22 r:%s 0 none 0 0 99 -1" % H.fmt(p) for p in H.slices(st, range(1, 305))] + [app(3), app(4)])
        S.append([reset(rng, su)] + ["recv 22 r:4x1,0x2,1x1,%dx1 0 none 0 0 99 -1" % (2 + i % 200) for i in range(40 if q else 300)] + [app(3), app(4)])
    # very long ones
    for su in range(3):
        n = 66000 if not q or su == (seed + 1) % 3 else 4000
        S.append([reset(rng, su, 0, 0), "burst %d send app p:1:3 0 0 -1" % n, send(), app(), "update -1", send()])
        S.append([reset(rng, su, 7, 9), "burst %d recv 23 p:1:3 0 none 0 0 99 -1" % n, app(), send()] + follow(["recv 22 r:24x1,0x2,1x1,0x1 0 none 0 0 99 -1"]) + [app()])
        n = 66000 if not q else 3000
        S.append([reset(rng, su), "burst %d update -1" % n, send(), send(), app(), "burst 300 send app p:2:50 0 0 -1", "update -1", send()])
        S.append([reset(rng, su), "burst %d ku 0" % n, app(), app(), send(), "burst 300 ku 1", app(), send(), "burst 300 recv 23 p:2:40 3 none 0 0 99 -1", app()])
        S.append([reset(rng, su, 2**32 - 100, 2**32 - 150), "burst 300 send app p:2:40 3 0 -1", "burst 300 recv 23 p:2:40 3 none 0 2 99 -1", send(), app()])
        S.append([reset(rng, su, MAX64 - 100, MAX64 - 150), "burst 300 send app p:2:40 3 0 -1", "burst 300 recv 23 p:2:40 3 none 0 2 99 -1", send(), app(), "update -1", send()])
        # tickets before, in between and after; never more than five, handed over once
        tk = "recv 22 r:4x1,0x2,1x1,9x1 0 none 0 0 99 -1"
        S.append([reset(rng, su)] + [tk] * 2 + [app(3), "burst 400 recv 23 p:2:4 0 none 0 0 99 -1", "burst 400 " + tk, app(3), "burst 400 recv 23 p:2:4 0 none 0 0 99 -1", tk, app(2)])
        S.append([reset(rng, su), app(3), "burst 400 " + tk, app(3), app(4)])
        S.append([reset(rng, su), app(3)] + [tk] * 5 + [app(2), "burst 500 recv 22 r:4x1,0x1,1x1,44x1,9x300 0 none 0 0 99 -1", app(3), "ku 0", app(4)])
        # many failures do not matter
        S.append([reset(rng, su), app(3), send(3)] + [x for i in range(200 if q else 3000) for x in ("forge 0 1 23 p:3:4 0 hdr %d 0 99 -1" % (i % 40), "send app p:1:9 0 -1 -1")] + [app(3), send(3)])
        S.append([reset(rng, su), app(3), send(3)] + ["forge 0 %d 23 p:3:4 0 body %d 0 99 -1" % (i % 7, i % 33) for i in range(100)] + ["ku 0", app(3), send(3)])
    # large tickets
    for n in ([3000, 20000] if q else [3000, 16384, 20000, 65535, 65536, 70000, 200000]):
        st = H.msg(4, [(9, n // 2), (8, n - n // 2)])
        t = sum(c for _, c in st)
        cuts = sorted(set(list(range(16000, t, 16000)) + [t]))
        S.append([reset(rng)] + ["recv 22 r:%s 0 none 0 0 99 -1" % H.fmt(p) for p in H.slices(st, cuts)] + [app(3), app(2)])
    # histories
    for _ in range(60 * mult):
        s = [reset(rng, None, rng.choice([0, 0, 5, 65534, MAX64 - 20, rng.getrandbits(64)]), rng.choice([0, 0, 9, 65530, MAX64 - 6, rng.getrandbits(64)]))]
        pending = []
        for _ in range(rng.randrange(5, 40)):
            x = rng.random()
            if pending and x < 0.7:
                s.append(pending.pop(0)); continue
            if x < 0.25: s.append(send(rng.choice([None, None, rng.choice(SIZES)])))
            elif x < 0.5: s.append(app(rng.choice([None, None, rng.choice(SIZES)]), rng.choice([0, 0, 0, 7])))
            elif x < 0.62: pending = hsrecs(rng, H.msg(4, H.body(rng, rng.choice([0, 1, 1]))))
            elif x < 0.72: pending = hsrecs(rng, KU(rng.randrange(2)))
            elif x < 0.75: pending = hsrecs(rng, H.msg(4, H.body(rng, 0)) * rng.randrange(1, 4) + KU(1))
            elif x < 0.80: s.append("update -1")
            elif x < 0.84: s.append(app(None, 0, rng.choice(["body", "tag", "trunc", "ext", "rand", "swap16"]), rng.randrange(1, 200)))
            elif x < 0.86: s += ["deliver -1 none 0 0 99 -1", "pskip"]
            elif x < 0.89: s.append("forge 0 %d 23 p:1:9 0 %s %d 0 99 -1" % (rng.randrange(5), rng.choice(["hdr", "truncraw", "extraw", "hshort", "hlong"]), rng.randrange(1, 40)))
            elif x < 0.91: s.append(send(None, rng.choice(["bad", "app", "hs"]), -1 - rng.randrange(20)))
            elif x < 0.93: s.append(send(None, "app", 0, rng.randrange(6)))
            elif x < 0.95: s.append(app(None, 0, "none", 0, 99, rng.randrange(6)))
            elif x < 0.97: s.append("recv 21 r:1x1,%dx1 0 none 0 0 99 -1" % rng.choice([2, 10, 80]))
            elif x < 0.98: s.append("recv %d r:3x3 0 none 0 0 99 -1" % rng.choice([0, 1, 20, 24, 99]))
            elif x < 0.985: s.append("recv 21 r:1x1,0x1 0 none 0 0 99 -1")
            else: s.append("overhead")
        S.append(follow(s))
    return S
