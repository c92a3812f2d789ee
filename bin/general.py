"""Properties that hold for every part (C27 memory, C28 secrecy): the histories
of the families, repeated (loop, cycle) or with other secrets (twin)."""
import random, zlib
import fam_hs as H, fam_rec as REC, fam_fp as FP, fam_proxy as PX, fam_e2e as E2E

MCS = {
    "C27": lambda tier: [("ResourcesMC", "CONSTANTS MaxTickets = %d\n Steps = %d\nSPECIFICATION Spec\nINVARIANTS Exact Bounded NothingLeft SameLevel NoGrowth\nPROPERTY OpsEnd\nCHECK_DEADLOCK FALSE\n"
                          % ((2, 3) if tier == "quick" else (4, 4)), 3)],
    "C28": lambda tier: [("SecrecyMC", 'CONSTANTS MaxOps = %d\n Lens = {"0", "5"}\nSPECIFICATION Spec\nINVARIANTS SaySame Public Differ\nCHECK_DEADLOCK FALSE\n' % (4 if tier == "quick" else 5), 3)],
}

def cycles(fam, tier, rng):
    """Prefix and body of histories that come back to the same state."""
    n = 36 if tier == "quick" else 120
    S = []
    def add(pre, body):
        S.append(pre + body + body + ["cycle %d %d" % (len(body), n)])
    if fam == "hs":
        for body in (["feed 24x1,0x2,1x1,0x1"], ["feed 24x1,0x2", "feed 1x2"], ["feed 4x1,0x2,1x1,7x1", "get"], ["feed 4x1,0x2,3x1", "feed 7x2", "feed 7x1,4x1,0x3", "get"],
                     ["feed " + ",".join(["4x1,0x2,1x1,7x1"] * 7), "get"], ["feed 4x1,0x1,4x1,0x1,9x600", "feed 9x424", "get"], ["feednull"], ["get"]):
            add(["reset"], body)
            add(["reset", "feed 4x1,0x2,1x1,8x1"], body)
        # past the limit (a handler that has reported an error is not used again)
        add(["reset"], ["feed 4x1,0x2,1x1,7x1"])
        add(["reset"], ["feed 4x1,0x2,2x1,7x1", "feed 7x1"])
    if fam == "rec":
        app = "recv 23 p:3:%d %d %s %d 3 99 %d"
        hs = "recv 22 r:%s 0 none 0 2 99 %d"
        KU, TK = "24x1,0x2,1x1,%dx1", "4x1,0x2,1x1,9x1"
        for su in range(3):
            R = lambda: [REC.reset(rng, su, 0, 0, -1)]
            add(R(), ["send app p:1:20 3 0 -1", app % (20, 0, "none", 0, -1)])
            add(R(), ["send hs p:1:5 3 0 -1", "send alert p:1:2 0 0 -1", "send bad p:1:3 0 0 -1", "send app p:1:9 0 -3 -1"])
            add(R(), ["update -1", "send app p:1:3 0 0 -1"])
            for fl in (0, 1):
                add(R(), [hs % (KU % fl, -1), "pupdate", app % (3, 0, "none", 0, -1), "send app p:1:3 0 0 -1"])
            add(R(), [hs % ("24x1,0x2", -1), hs % ("1x1,0x1", -1), "pupdate", app % (3, 5, "none", 0, -1)])
            add(R(), [hs % (TK, -1), app % (3, 0, "none", 0, -1)])
            add(R(), [hs % (TK, -1)] * 3 + [hs % ("4x1,0x1", -1), hs % ("0x1,1x1,8x1", -1), app % (3, 0, "none", 0, -1)])
            add(R(), [hs % (TK, -1)] * 8 + [app % (3, 0, "none", 0, -1)])
            add(R(), [hs % (TK, -1)])
            for m in ("hdr", "truncraw", "extraw", "hshort", "hlong"):
                add(R(), ["forge 0 0 23 p:9:20 0 %s 5 3 99 -1" % m])
            # authentication failures: the peer sends on as if nothing was
            for m in ("body", "tag", "trunc", "ext", "rand"):
                add(R(), [app % (20, 0, m, 9, -1)])
            add(R(), ["recv 21 r:1x1,80x1 0 none 0 0 99 -1", "recv 99 r:3x3 0 none 0 0 99 -1"])
            for f in range(0, 8):
                add(R(), ["send app p:1:20 0 0 %d" % f])
                add(R(), [app % (20, 0, "none", 0, f)])
            for f in range(0, 40, 1 if tier != "quick" else 2):
                add(R(), ["update %d" % f])
                add(R(), [hs % (KU % 0, f)])
            add(R() + ["recv 21 r:1x1,0x1 0 none 0 0 99 -1"], [app % (3, 0, "none", 0, -1), "send app p:1:3 0 0 -1"])
    if fam == "e2e":   # whole sessions, and what goes on in one
        for su in range(3):
            go = ["reset", E2E.new(0, (su,), (su,), tix=2)] + E2E.shake() + E2E.both()
            for evil in ([], ["net 0 s flip 0 40"], ["net 0 s dup 0"], ["net 0 s del 0"], ["net 0 c reflect 0"]):
                add(["reset"], go[1:] + ["send 0 c 10 0", "send 0 s 20 0", "send 0 s 30 0", "send 0 c 10 0"] + evil + ["recv 0 s 1 0", "recv 0 s 1 0", "recv 0 c 99 0"])
            add(["reset"], go[1:] + ["drop 0 c", "send 0 c 10 0", "recv 0 s 9 3"])
            add(["reset"], go[1:4] + ["spoil 0 c"] + go[4:])
            add(["reset"], go[1:3] + ["spoil 0 s"] + go[3:])
            add(go + ["recv 0 c 99 0"], ["send 0 c 20000 0", "send 0 s 10 0", "recv 0 s 2 0", "recv 0 c 1 0"])
        add(["reset"], [E2E.new(0, (0,), (1,))] + E2E.shake())
        add(["reset"], [E2E.new(0, tgts=(5,))] + E2E.shake())
        add(["reset"], [E2E.new(0)] + E2E.shake(0, 20))
    if fam == "fp":
        rec = lambda n=9, mut="none", pos=0: "23/p:%d:%d/0/%s/%d" % (n, n, mut, pos)
        KU, TK = "22/r:24x1,0x2,1x1,0x1/0/none/0+0/r:-/0/ku/0", "22/r:4x1,0x2,1x1,9x1/0/none/0"
        un = lambda items, trim=0, f=-1: "unprotect %s 5 %d %d" % ("+".join(items), trim, f)
        for su in range(3):
            R = lambda: [FP.reset(rng, su)]
            add(R(), ["protect 20 3 -1", un([rec()])])
            add(R(), ["protect1 20 3 0 -1", "unprotect1 %s 3 0 0 -1" % rec(), "sizes 77"])
            add(R(), ["protect 40000 3 -1"])
            add(R(), [un([rec(), rec(0), rec(300)])])
            add(R(), [un([rec(), KU, rec()])])
            add(R(), [un([rec(), TK, rec()])])
            add(R(), [un([TK, TK, TK]), un([TK, rec()])])
            add(R(), [un([rec(), rec(9, "hdr", 4)])])
            add(R(), [un([rec()], 3)])
            add(R(), [un([rec()], -3)])
            add(R(), [un([rec(), rec(9, "body", 4), rec()])])
            add(R(), [un([rec(), "99/r:3x3/0/none/0", rec()])])
            for f in range(0, 8):
                add(R(), ["protect 40000 3 %d" % f])
                add(R(), ["protect1 20 3 0 %d" % f])
                add(R(), [un([rec(), rec()], 0, f)])
    if fam == "proxy":
        ids = [PX.ident("s", "a"), PX.ident("h", "b"), PX.ident("u", "c")]
        for role in "cs":
            for tm in (0, 1):
                R = lambda: [PX.reset(role, locs=ids[:1] if role == "c" else ids, tgts=ids, tm=tm, avail=ids[:2], d=1)]
                add(R() + ["s2a null"], ["s2a p:3:40", "peer of=p:1:30 bc=3", "peer of=p:1:30 lid=" + ids[1], "peer lid=" + ids[0]])
                add(R() + ["s2a null"], ["s2a null", "s2a empty", "peernull", "peerempty", "fp", "ctx", "peer cut=1 of=p:1:20", "peer st=7 of=p:1:3", "peer st=-"])
                add(R() + ["s2a null"], [PX.peer(**dict(PX.sess(random.Random(1), 0), res=1, of="p:1:20", lid="s:61", rlid="s:61", pid="h:62")), "fp", "ctx", "tickets", "s2a p:1:3"])
                add(R() + ["s2a null"], [PX.peer(**dict(PX.sess(random.Random(1), 0, 31, None), res=1)), "fp", "ctx", "tickets"])
    return S

def secrets(fam, tier, rng):
    """Histories in which secrets are at hand when something goes wrong."""
    S = []
    TK = lambda n=12, tail="": "4x1,0x2,%dx1,s%dx%d%s" % (n, rng.randrange(1000), n, tail)
    part = lambda n=12: "4x1,0x2,%dx1,s%dx%d" % (n + 9, rng.randrange(1000), n)
    KU = "24x1,0x2,1x1,0x1"
    # handshake pieces, whether data may follow
    H = [[TK()], [TK(), TK(), TK(), TK(), TK(), TK(), TK()], [part()], [TK(), part()], [TK() + ",9x1,0x2,12x1,s5x12"], ["9x1,0x2,12x1,s6x12"], [TK() + ",4x1,0x1"], ["4x1,0x2,12x1", "s7x12"],
         [part(), "s8x9,9x1"], [KU + ",s9x12"], [TK() + "," + KU + ",s9x12"], ["24x1,0x2,12x1,s10x12"], ["s11x20"], [TK() + "," + KU], ["4x1,255x3,s12x200"]]
    if fam == "hs":
        for h in H:
            S.append(["reset"] + ["feed " + x for x in h] + ["get", "get"])
            S.append(["reset"] + ["feed " + TK(), "get"] + ["feed " + x for x in h] + ["get"])
    if fam == "rec":
        hs = lambda x, f=-1: "recv 22 r:%s 0 none 0 2 99 %d" % (x, f)
        app = lambda n=20, mut="none", pos=0, cap=99, f=-1: "recv 23 p:%d:%d 0 %s %d 3 %d %d" % (rng.randrange(10**6), n, mut, pos, cap, f)
        send = lambda n=20, ty="app", d=0, f=-1: "send %s p:%d:%d 2 %d %d" % (ty, rng.randrange(10**6), n, d, f)
        for su in range(3):
            R = lambda: [REC.reset(rng, su, 0, 0, -1)]
            for h in H:
                S.append(R() + [hs(x) for x in h] + [app(), app()])
                S.append(R() + [hs(TK()), app()] + [hs(x) for x in h] + [app()])
            for ty in (1, 2, 20, 22 + 2, 99, 128, 255):
                for n in (1, 2, 8, 40):
                    S.append(R() + ["recv %d p:%d:%d %d none 0 3 99 -1" % (ty, rng.randrange(10**6), n, rng.choice([0, 3])), app()])
            S.append(R() + [send(9, "bad"), send(20, "app", -3), send(20, "app", 5), send(20, "alert"), send(20, "hs"), send(16385), send(0)])
            for f in range(0, 8):
                S.append(R() + [send(20, "app", 0, f), send()])
                S.append(R() + [app(f=f), app()])
            for f in range(0, 40, 2):
                S.append(R() + ["update %d" % f, send()])
                S.append(R() + [hs(KU, f), app()])
            for m in ("body", "tag", "trunc", "ext", "rand", "swap16"):
                S.append(R() + [app(20, m, 3), app()])
                S.append(R() + [app(20, m, 30, -1), app()])
    if fam == "fp":
        rec = lambda c="p:1:20", ty=23, mut="none", pos=0: "%d/%s/0/%s/%d" % (ty, c, mut, pos)
        un = lambda items, trim=0, f=-1: "unprotect %s 5 %d %d" % ("+".join(items), trim, f)
        for su in range(3):
            R = lambda: [FP.reset(rng, su)]
            for h in H:
                hs = [rec("r:" + x, 22) for x in h]
                if KU not in h[-1]:
                    S.append(R() + [un([rec()] + hs + [rec()])])
                    S.append(R() + [un([x]) for x in hs] + [un([rec()])])
                    S.append(R() + ["unprotect1 %s 3 0 0 -1" % x for x in hs] + ["unprotect1 %s 3 0 0 -1" % rec()])
            for ty in (1, 20, 99, 255):
                S.append(R() + [un([rec(), rec("p:7:30", ty), rec()])])
                S.append(R() + ["unprotect1 %s 3 0 0 -1" % rec("p:7:30", ty)])
            for m in ("body", "tag", "trunc", "ext", "hdr"):
                S.append(R() + [un([rec(), rec("p:7:30", 23, m, 4), rec()])])
                S.append(R() + ["unprotect1 %s 3 0 0 -1" % rec("p:7:30", 23, m, 4)])
            for f in range(0, 8):
                S.append(R() + ["protect 30 3 %d" % f, "protect1 30 3 0 %d" % f])
                S.append(R() + [un([rec(), rec()], 0, f)])
            S.append(R() + ["protect1 30 3 -3 -1", un([rec()], 3), un([rec()], -3)])
    if fam == "proxy":
        ids = [PX.ident("s", "a"), PX.ident("h", "b"), PX.ident("u", "c")]
        ok = dict(PX.sess(random.Random(1), 0), res=1, of="p:1:20", lid="s:61", rlid="s:61", pid="h:62")
        for role in "cs":
            for locs in ((), ids[:1], ids):
                for avail in ((), ids[:1], ids[1:], ids):
                    for d in (0, 1):
                        R = lambda: [PX.reset(role, locs=locs, tgts=ids if role == "c" else (), tm=1, avail=avail, d=d), "s2a null"]
                        for lid in ("-",) + tuple(ids):
                            S.append(R() + ["peer of=p:1:9 lid=" + lid, "s2a p:3:4", "peer st=7 of=p:1:3", "s2a p:3:5"])
                        S.append(R() + [PX.peer(**ok), "fp", "ctx", "tickets", "s2a p:1:3"])
                        for bad in (dict(su=7), dict(ver=0), dict(ver=5), dict(state=0), dict(rlid="-"), dict(ik="p:1:31"), dict(ok="p:2:49"), dict(ik="p:1:0")):
                            S.append(R() + [PX.peer(**dict(ok, **bad)), "fp", "ctx", "s2a p:1:3"])
    return S

def pick(segs, k, rng, ok=lambda s: True, maxlen=60):
    c = [s for s in segs if len(s) <= maxlen and (maxlen > 1000 or sum(map(len, s)) < 20000) and ok(s) and not any(l.startswith(("loop", "cycle", "twin", "burst")) for l in s)]
    return c if len(c) <= k else rng.sample(c, k)

def twinable(fam):
    if fam == "rec":   # the type of a record without a type byte is its last content byte
        return lambda s: not any(l.split(" ")[0] in ("recv", "hold") and l.split(" ")[1] != "23" and l.split(" ")[2].startswith("p:") for l in s)
    if fam == "proxy":
        return lambda s: not any("flip=" in l and "flip=-1" not in l for l in s)
    return lambda s: True

def transform(prop, fam, segs, tier, seed):
    rng = random.Random(seed * 7919 + zlib.crc32(fam.encode()))
    q = tier == "quick"
    if prop not in MCS:
        return segs
    if fam in ("hkdf", "aead"):   # independent operations
        segs = [s[:1] + s[i:i + 40] for s in segs for i in range(1, max(2, len(s)), 40)]
    big = 10**9 if fam == "val" else 60
    if prop == "C27":
        return [s + ["loop 7"] for s in pick(segs, 500 if q else 20000, rng, maxlen=big)] + cycles(fam, tier, rng)
    if prop == "C28":
        tw = pick(segs, 400 if q else 20000, rng, twinable(fam))
        base = segs if not q else pick(segs, 900, rng, maxlen=big)
        return base + ([s + ["twin"] for s in tw] if fam not in ("val", "hs") else []) + [s + ["twin"] for s in secrets(fam, tier, rng)]
    return segs
