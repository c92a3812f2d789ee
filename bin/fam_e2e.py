"""Two ends, two S2As and a network between: everything together."""
from vlib import *
import fam_rec as RC
NAME = "e2e"
DRIVER = "e2e_driver"
BASE = RC.BASE + " LCH = 64\n LSF = 90\n LCF = 41\n NoId <- MinusOne\n DefC = 99\n DefS = 98\n"
TRACE = ("EndToEndTrace", BASE + "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n")
ASSUMPTIONS = ["protocol buffer encoding is by /verif/shim/upb (the repository's submodule is not in the sandbox)",
               "the S2As are scripted; their handshake is a toy of three flights"]
L = lambda x: ",".join(map(str, x)) or "-"
ALL = 10**6

def variants(tier):
    return ["openssl", "boringssl"]
_tier = ["quick"]
def runs_on(seg, variant):
    import zlib
    return variant == "openssl" or zlib.crc32("\n".join(seg).encode()) % 3 == 0

SMALL = "CONSTANTS MaxTickets = 5\n LenBytes = 3\n LimbBase = 65536\n MaxPlain = 24\n Overhead = 22\n NoId <- MinusOne\n DefC = 99\n DefS = 98\n"
def mcs(tier, prop):
    def mc(cfgs, budget, sends, sizes, flights, live=False):
        return ("EndToEndMC", SMALL + " LCH = %d\n LSF = %d\n LCF = %d\n" % flights + " Cfgs <- %s\n Budget = %d\n Sends = %d\n Sizes = {%s}\nSPECIFICATION Spec\n" % (cfgs, budget, sends, sizes)
                + "INVARIANTS Delivered ClientFirst Agreed Refused Taken Quiet OwnTickets\nPROPERTIES Alone%s\nCHECK_DEADLOCK FALSE\n" % (" AllFinish AllArrive" if live else ""), 3)
    if tier == "quick":
        return [mc("OneQuick", 0, 1, "0, 1, 25", (1, 2, 1), True), mc("OneEvil", 1, 1, "0, 1, 25", (1, 1, 1)), mc("Two", 1, 1, "1", (1, 1, 1))]
    return [mc("OneGood", 0, 1, "0, 1, 25", (2, 3, 1), True), mc("One", 0, 1, "1, 25", (2, 2, 2), True), mc("OneEvil", 2, 2, "1, 25", (1, 2, 1)),
            mc("Two", 1, 1, "0, 25", (1, 1, 1)), mc("Two", 2, 1, "1", (1, 1, 1))]
def gens(tier, prop):
    def g(cfgs, budget, sizes, pieces, sends=1):
        return ("EndToEndGen", BASE + " Cfgs <- %s\n Budget = %d\n Sends = %d\n Sizes = {%s}\n Pieces = {%s}\nINIT GInit\nNEXT GNext\nVIEW View\nACTION_CONSTRAINT Edge\nCHECK_DEADLOCK FALSE\n"
                % (cfgs, budget, sends, sizes, pieces), gen_script)
    if tier == "quick":
        return [g("GenOne", 1, "3", "")]
    return [g("GenOne", 1, "3", "30"), g("GenMore", 1, "16385", "0, 60"), g("GenTwo", 0, "3", "")]
_c = [0]
def gen_script(walk):
    _c[0] += 1
    rng = random.Random(_c[0])
    r = ["reset"]
    for o in walk:
        if o[0] == "begin":
            for i, c in enumerate(o[1]):
                r.append(new(i, c["cs"], c["ss"], c["cid"], c["sids"], c["tgts"], c["tix"], int(c["lazy"]), _c[0] % 3 * 255, _c[0] % 5 * 65535))
            continue
        h = "%s %d %s" % (o[0], o[1] - 1, o[2])
        if o[0] == "net":
            h += " %s %d" % (o[3], o[4] - 1) + (" %d" % rng.randrange(10**6) if o[3] == "flip" else " %d" % (o[5] - 1) if o[3] == "from" else "")
        elif o[0] in ("hs", "send", "recv"):
            h += " %d" % o[3] + ("" if o[0] == "hs" else " %d" % rng.randrange(10**6))
        r.append(h)
    return r

def new(i=0, cs=(0, 1, 2), ss=(0, 1, 2), cid=0, sids=(1,), tgts=(1,), tix=0, lazy=0, cq=0, sq=0, fl=1):
    return "new %d %s %s %d %s %s %d %d %d %d %d" % (i, L(cs), L(ss), cid, L(sids), L(tgts), tix, lazy, cq, sq, fl)

def shake(i=0, a=ALL, fl=1):
    """a whole handshake, a bytes offered at a time"""
    r = ["hs %d c 0" % i]
    for side, n in (("s", 64), ("c", 90), ("s", 41)):
        r += ["hs %d %s %d" % (i, side, a)] * ((n * fl + a - 1) // a)
    return r

def both(i=0):
    return ["fp %d c" % i, "fp %d s" % i]

def scripts(tier, seed, prop):
    rng = random.Random(seed * 887 + 5)
    q = tier == "quick"
    S = []
    cut = lambda: rng.randrange(10**6)
    # a plain session of every ciphersuite, every pair of lists, with tickets
    lists = ((0,), (1,), (2,), (0, 1, 2), (2, 1, 0), (1, 2), (2, 0), ())
    for cs in lists:
        for ss in lists:
            for tix in ((0, 2) if q else (0, 1, 5, 6, 9)):
                S.append(["reset", new(0, cs, ss, tix=tix), "fp 0 c", "ctx 0 s"] + shake() + ["ctx 0 c", "ctx 0 s"] + both() +
                         ["send 0 c 100 1", "recv 0 s 9 2", "send 0 s 200 3", "recv 0 c 99 4", "send 0 s 5 0", "recv 0 c 9 0"])
    # identities
    for cid in (-1, 0, 4, 8):
        for sids in ((), (1,), (2, 3), (6, 5, 4)):
            for tgts in ((), (1,), (4,), (3, 2, 98), (98,)):
                S.append(["reset", new(0, (0,), (0,), cid, sids, tgts, 1)] + shake() + ["ctx 0 c", "ctx 0 s"] + both() + ["send 0 s 9 1", "recv 0 c 9 1", "ctx 0 c"])
    # every size of piece in the handshake; applications that offer nothing new
    for lazy in (0, 1):
        for a in list(range(1, 70)) if not lazy else [64, 90, 100]:
            if q and a > 20 and a % 7: continue
            S.append(["reset", new(0, (a % 3,), lazy=lazy, tix=a % 7)] + shake(0, a) + both() + ["send 0 c %d 1" % a, "recv 0 s 9 2", "send 0 s 20 3", "recv 0 c 99 4"])
        S.append(["reset", new(0, lazy=lazy), "hs 0 s 0", "hs 0 s 0", "hs 0 c 0", "hs 0 c 0", "hs 0 s 30", "hs 0 s 20", "hs 0 s %d" % ALL, "hs 0 s %d" % ALL, "hs 0 c 5", "hs 0 c 89", "hs 0 c %d" % ALL, "hs 0 c %d" % ALL,
                  "fp 0 c", "send 0 c 50 1", "hs 0 s 40", "hs 0 s %d" % ALL, "fp 0 s", "recv 0 s 1 1", "ctx 0 c", "ctx 0 s"])
        # early data of the client behind its last flight
        for n in (1, 20, 40000):
            S.append(["reset", new(0, lazy=lazy, tix=3), "hs 0 c 0", "hs 0 s 64", "hs 0 c 90", "fp 0 c", "send 0 c %d 1" % n, "hs 0 s 10", "hs 0 s %d" % ALL, "hs 0 s %d" % ALL, "fp 0 s", "recv 0 s 99 1",
                      "send 0 s 5 0", "recv 0 c 2 0", "recv 0 c 99 0"])
        S.append(["reset", new(0, lazy=lazy), "hs 0 c 0", "spoil 0 s", "hs 0 s 99", "ctx 0 s", "fp 0 s"])
        S.append(["reset", new(0, lazy=lazy), "hs 0 c 0", "hs 0 s 99", "spoil 0 c", "hs 0 c 99", "ctx 0 c", "fp 0 c"])
        S.append(["reset", new(0, lazy=lazy), "hs 0 c 0", "hs 0 s 99", "hs 0 c 99", "spoil 0 s", "hs 0 s 99", "ctx 0 s", "fp 0 s", "fp 0 c", "send 0 c 9 0"])
    # data of all sizes both ways; the proxies gone
    for su in range(3):
        for n in (0, 1, 100, 16383, 16384, 16385, 40000) + (() if q else (100000, 300000)):
            S.append(["reset", new(0, (su,), (su,), tix=su)] + shake() + both() + ["drop 0 c", "drop 0 s", "send 0 c %d %d" % (n, cut()), "send 0 s %d %d" % (n, cut()), "send 0 c 3 0", "recv 0 s 1 %d" % cut(),
                      "recv 0 s 99 %d" % cut(), "recv 0 c 99 %d" % cut(), "send 0 s 7 0", "recv 0 c 9 1"])
    for dr in (["drop 0 c"], ["drop 0 s"], ["drop 0 s", "drop 0 c"]):
        S.append(["reset", new(0, tix=4)] + shake() + both() + dr + ["send 0 s 10 0", "send 0 c 10 0", "recv 0 c 3 0", "recv 0 s 3 0", "recv 0 c 3 0", "send 0 s 0 0", "send 0 s 1 0", "recv 0 c 1 0", "recv 0 c 1 0"])
    # the tickets in every split
    for tix in range(0, 9):
        for k in range(1, 10):
            if q and (tix + k) % 2: continue
            S.append(["reset", new(0, (tix % 3,), tix=tix)] + shake() + both() + ["send 0 s 10 0"] + ["recv 0 c %d 1" % k] * (10 // k + 1) + ["send 0 s 11 0", "recv 0 c 1 0", "send 0 c 1 0", "recv 0 s 1 0"])
    # the network interferes with one record
    acts = lambda r: ["flip %d %d" % (r, rng.randrange(10**6)), "flip %d 0" % r, "flip %d %d" % (r, rng.randrange(24)), "dup %d" % r, "del %d" % r, "swap %d" % r, "from %d 1" % r, "reflect %d" % r]
    for su in range(3):
        for side in "cs":
            o = "s" if side == "c" else "c"
            for r in (0, 1, 2):
                for a in acts(r):
                    S.append(["reset", new(0, (su,), (su,), tix=su), new(1, (su,), (su,), tix=su)] + shake(0) + shake(1) + both(0) + both(1) +
                             sum((["send %d %s %d 0" % (i, x, n) for n in (10, 20, 30)] for i in (0, 1) for x in "cs"), []) +
                             ["recv 0 %s %d 0" % (side, 1 + su)] * (r if r < 2 and su == 0 else 0) + ["net 0 %s %s" % (side, a)] + ["recv 0 %s 1 0" % side] * 7 +
                             ["recv 1 %s 99 0" % side, "recv 1 %s 99 0" % o, "recv 0 %s 99 0" % o])
    # undone interference does no harm
    S.append(["reset", new(0)] + shake() + both() + ["send 0 c 5 0", "send 0 c 6 0", "net 0 s swap 0", "net 0 s swap 0", "net 0 s dup 0", "net 0 s del 1", "recv 0 s 2 0"])
    # one session after the other
    for tix in (1, 3, 5):
        for gone in (0, 1):
            S.append(["reset"] + ([new(0, tix=tix)] + shake() + both() + ["drop 0 c"] * gone + ["send 0 s 10 0", "recv 0 c 99 0", "send 0 c 10 0", "recv 0 s 9 0"]) * 4)
    # sessions that are not new to their S2As: any first sequence numbers
    for su in range(3):
        for cq, sq in ((1, 0), (0, 1), (255, 65535), (65530, 250), (2**31 - 2, 2**32 - 2), (2**32 - 3, 2**31 - 5), (2**63 - 4, 2**63), (2**64 - 70000, 2**48 - 3), (rng.randrange(2**63), rng.randrange(2**63))):
            S.append(["reset", new(0, (su,), (su,), tix=2, cq=cq, sq=sq)] + shake() + both() + ["send 0 %s %d 1" % (x, n) for n in (3, 0, 20000) for x in "cs"] + ["recv 0 c 3 1", "recv 0 s 2 1", "recv 0 c 9 1", "recv 0 s 9 1"]
                     + ["send 0 c 9 0", "send 0 s 9 0", "recv 0 s 1 0", "recv 0 c 1 0"] * 3)
    # flights as long as those with chains of certificates
    for fl in (2, 20, 300) if q else (2, 7, 20, 100, 180, 181, 300, 729, 2000):
        for lazy in (0, 1):
            for a in (ALL, 16384, 4096) + ((500,) if fl < 30 else ()):
                if lazy and a < 90 * fl: continue
                S.append(["reset", new(0, (fl % 3,), lazy=lazy, tix=3, fl=fl)] + shake(0, a, fl) + both() + ["ctx 0 c", "send 0 c 40000 1", "recv 0 s 9 2", "send 0 s 20 3", "recv 0 c 99 4"])
    # long sessions
    for su in range(3):
        n = 150 if q else 1500
        S.append(["reset", new(0, (su,), (su,), tix=7)] + shake() + both() + [y for k in range(n) for y in ("send 0 c %d %d" % (k % 50, k % 3), "send 0 s %d 0" % (k % 7), "recv 0 s 99 0") + (("recv 0 c %d 1" % (1 + k % 60),) if k % 11 == 0 else ())] + ["recv 0 c 99 0"] * 20)
    # many sessions at once
    for k in (8, 40) if q else (8, 17, 40, 64):
        s = ["reset"] + [new(i, (i % 3,), (i % 3,), i % 3, (i % 5,), (), i % 7, cq=i * 3, sq=i) for i in range(k)]
        o = list(range(k))
        for st in ("hs %d c 0", "hs %d s 99", "hs %d c 99", "fp %d c", "ctx %d c", "hs %d s 99", "fp %d s", "ctx %d s", "send %d c 20 0", "send %d s 30 0", "drop %d c", "recv %d s 9 1", "recv %d c 9 1"):
            rng.shuffle(o)
            s += [st % i for i in o]
        S.append(s)
    # several sessions, everything mixed
    for _ in range(150 if q else 4000):
        k = rng.randrange(1, 5)
        s = ["reset"]
        todo = []
        for i in range(k):
            n = [new(i, rng.sample(range(3), rng.randrange(1, 4)), rng.sample(range(3), rng.choice([1, 3, 3])), rng.choice([-1, 0, 1, 2]), rng.sample(range(3, 9), rng.randrange(0, 3)), (), rng.choice([0, 0, 1, 2, 6]), int(rng.random() < 0.3))]
            n += ["hs %d c 0" % i]
            for side, m in (("s", 64), ("c", 90), ("s", 41)):
                a = rng.choice([ALL, ALL, 50, 91, 20])
                n += ["hs %d %s %d" % (i, side, a)] * ((m + a - 1) // a)
                if rng.random() < 0.2: n.append(rng.choice(["ctx", "fp"]) + " %d %s" % (i, rng.choice("cs")))
            n += both(i)
            if rng.random() < 0.5: n += ["drop %d %s" % (i, x) for x in rng.sample("cs", rng.randrange(1, 3))]
            evil = rng.random() < 0.3
            for _ in range(rng.randrange(4, 40)):
                x = rng.random()
                y = rng.choice("cs")
                if x < 0.45: n.append("send %d %s %d %d" % (i, y, rng.choice([0, 1, rng.randrange(200), rng.randrange(200), 20000]), cut()))
                elif x < 0.9 or not evil: n.append("recv %d %s %d %d" % (i, y, rng.choice([1, 1, 2, 5, 99]), cut()))
                else: n.append("net %d %s %s" % (i, y, rng.choice(acts(rng.randrange(3)))))
            n += ["recv %d c 99 1" % i, "recv %d s 99 1" % i]
            todo.append(n)
        while any(todo):   # interleave
            x = rng.choice([t for t in todo if t])
            for _ in range(rng.randrange(1, 4)):
                if x: s.append(x.pop(0))
        S.append(s)
    return S
