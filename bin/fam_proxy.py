"""S2AProxy: the conversation with the S2A and the hand-over of the session."""
from vlib import *
NAME = "proxy"
DRIVER = "proxy_driver"
TRACE = ("ProxyTrace", "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n")
ASSUMPTIONS = ["protocol buffer encoding is by /verif/shim/upb (the repository's submodule is not in the sandbox)"]
HL = [32, 48, 32]

def variants(tier):
    return ["openssl"]

def mcs(tier, prop):
    return [("ProxyMC", 'CONSTANTS Ids = {"a"%s}\n MaxSteps = %d\nSPECIFICATION Spec\nINVARIANTS StartOnce RightRole Paired OnePer NoSource Entitled StartTokens Selected FinishedByResult ResultDelivered\nPROPERTIES FinForever FailedNothing\nCHECK_DEADLOCK FALSE\n'
             % (', "b"', 4 if tier == "quick" else 6), 4)]

def gens(tier, prop):
    return [("ProxyGen", "CONSTANTS Cfgs <- %s\n Small = %s\nINIT Init\nNEXT Next\nVIEW View\nACTION_CONSTRAINT Edge\nCHECK_DEADLOCK FALSE\n" % (("CfgsQuick", "TRUE") if tier == "quick" else ("CfgsAll", "FALSE")), gen_script)]

def hx(s):
    return (s.encode() if isinstance(s, str) else s).hex() or "-"
def ident(k, s):
    return k + ":" + (s.encode() if isinstance(s, str) else s).hex()
IDS = {"a": ident("s", "spiffe://a/x"), "b": ident("h", "host.b"), "n": "n:"}

def reset(role="c", fl=0, app="grpc", target="host.example", mn=1, mx=1, suites=(0, 1, 2), tgts=(), locs=(), tm=1, avail=(), d=0, addr="s2a:1"):
    L = lambda x: ",".join(map(str, x)) or "-"
    return "reset %s %d %s %s %d %d %s %s %s %d %s %d %s" % (role, fl, hx(app), hx(target), mn, mx, L(suites), L(tgts), L(locs), tm, L(avail), d, hx(addr))

def peer(**k):
    return "peer " + " ".join("%s=%s" % x for x in k.items())

_c = [0]
def gen_script(walk):
    _c[0] += 1
    rng = random.Random(_c[0])
    r = []
    for o in walk:
        if o[0] == "reset":
            r.append(reset("c" if o[1] else "s", locs=[IDS[x] for x in o[2]], tm=int(o[3]), avail=[IDS[x] for x in o[4]], d=int(o[5]), tgts=[IDS["b"]]))
        elif o[0] == "s2a":
            r.append("s2a " + (rng.choice(["null", "empty"]) if o[1] == 0 else "p:%d:%d" % (rng.randrange(999), rng.randrange(1, 50))))
        elif o[0] == "avail":
            r.append("avail %s %d" % (",".join(IDS[x] for x in o[1]) or "-", int(o[2])))
        elif o[0] == "peer":
            q = o[1]
            su = q["su"]
            k = dict(st=(0 if q["okst"] else rng.choice([1, 3, 2**32 - 1])) if q["hasst"] else "-", lid=IDS[q["lid"]] if q["haslid"] else "-", of="p:%d:%d" % (rng.randrange(999), rng.choice([0, 1, 20])),
                     bc=rng.choice([0, 1, 99]), res=int(q["hasres"]), ord=rng.randrange(2), unk=int(rng.random() < 0.2))
            if q["hasres"]:
                k.update(sess(rng, su), state=int(q["hasstate"]), ver=q["ver"], su=su, rlid=IDS["a"] if q["hasrlid"] else "-")
            if q["bad"]:
                k.update(cut=rng.choice([1, 1, 2, 3, 9]), ord=0)
            r.append(peer(**k))
        else:
            r.append(o[0])
    return r

def sess(rng, su=0, il=None, ol=None):
    n = HL[su] if su in (0, 1, 2) else 32
    sq = lambda: rng.choice([0, 1, 255, 65536, 2**31, 2**32, 2**63, 2**64 - 2, rng.getrandbits(64) % (2**64 - 5)])
    return dict(ik="p:%d:%d" % (rng.randrange(1, 10**6) * 2, n if il is None else il), ok="p:%d:%d" % (rng.randrange(1, 10**6) * 2 + 1, n if ol is None else ol), isq=sq(), osq=sq(),
                cid=rng.choice([0, 1, 2**32, 2**63, 2**64 - 1, rng.getrandbits(64)]), rsm=rng.randrange(2), app=hx(rng.choice(["", "grpc", "h2", "h\0002"])), pid=rng.choice(["-", "n:", rid(rng), rid(rng)]),
                lfp=hx(rb(rng)), pfp=hx(rb(rng)))
def rb(rng):
    n = rng.choice([0, 1, 20, 32, 64])
    b = bytes(rng.randrange(256) for _ in range(n))
    return b if rng.random() < 0.6 else b[:n // 2] + b"\0" + b[n // 2:]
def rid(rng):
    return ident(rng.choice("shu"), rng.choice(["a", "b", "spiffe://a/x", "host.b", "1000", "x" * 200, "\u00e9\u4e16", "a b,c", "a\0b", "a\0c", "\0"]))

def scripts(tier, seed, prop):
    rng = random.Random(seed * 523 + 3)
    q = tier == "quick"
    S = []
    for fl in (0, 1, 2, 3):
        S.append([reset(fl=fl), "s2a null"])
    # start messages of all kinds
    for role in "cs":
        for mn in (0, 1, 2, 7):
            for mx in (0, 1, 2):
                S.append([reset(role, mn=mn, mx=mx), "s2a null", "s2a p:3:9", "s2a null"])
        for su in ((), (0,), (1,), (2,), (2, 1, 0), (1, 1, 2, 1), (0, 5), (3,), (0, 1, 2) * 5):
            S.append([reset(role, suites=su), "s2a null", "s2a p:3:9"])
        for k in range(0, 5):
            for j in range(0, 4):
                T = [rid(rng) for _ in range(k)]
                L = [rid(rng) for _ in range(j)]
                S.append([reset(role, tgts=T, locs=L, tm=rng.randrange(2), avail=[x for x in L if rng.random() < 0.6], d=rng.randrange(2), app=rng.choice(["grpc", "", "a" * 300, "p", "h\0p"]), target=rng.choice(["", "host", "ho\0st", "h" * 500])),
                          "s2a null", "s2a empty", "s2a p:4:30", "peer lid=%s" % (rng.choice(L) if L else rid(rng)), "s2a p:5:6", "s2a p:6:7"])
        # the same text under every kind
        same = [ident(k, "same") for k in "shu"]
        S.append([reset(role, tgts=same, locs=same if role == "s" else same[:1], avail=same[:2]), "s2a null", "peer lid=" + same[1], "s2a p:1:1", "peer lid=" + same[2], "s2a p:1:2", "avail " + ",".join(same) + " 1", "s2a p:1:3"])
        # sizes of the peer's bytes
        for n in (0, 1, 127, 128, 16383, 16384, 70000, 2**18 + 1, 2**20 + 3) + (() if q else (2**22 - 1, 2**24 + 1)):
            S.append([reset(role)] + (["s2a null"] if role == "c" else ["s2a p:2:%d" % n]) + ["s2a p:2:%d" % n, "s2a p:3:%d" % n] + ["peer of=p:%d:%d bc=%d" % (n, n, n), "s2a p:7:1"])
        # refused calls leave the state as it was
        S.append([reset(role), "fp", "ctx", "peernull", "peerempty", "s2a p:1:5", "s2a null", "s2a null", "s2a empty", "s2a p:3:4", "peernull", "fp", "ctx"])
    for bc in (0, 1, 127, 128, 65535, 2**31 - 1, 2**31, 2**32 - 1):
        S.append([reset(), "s2a null", "peer bc=%d of=p:1:3" % bc, "s2a p:1:1", "peer bc=%d res=1 %s" % (bc, " ".join("%s=%s" % x for x in sess(rng, 0).items())), "fp", "ctx"])
    # results of all kinds, then another
    for su in (0, 1, 2, 3, 9):
        for ver in (0, 1, 2, 5):
            for il, ol in ((None, None), (31, None), (None, 31), (48, 32), (32, 48), (0, None), (None, 0), (48, 48)):
                if q and (il, ol) != (None, None) and rng.random() < 0.5: continue
                k = dict(sess(rng, su, il, ol), res=1, ver=ver, su=su)
                S.append([reset(rng.choice("cs"), addr=rng.choice(["s2a:1", "s2a:1", ""])), "s2a null", "fp", "ctx", peer(**k), "ctx", "fp", "ctx", "fp", "tickets", "s2a p:9:3", peer(of="p:1:2"), "fp", "ctx"])
        for h in range(16):
            k = dict(sess(rng, su), res=1, su=su, state=h & 1, rlid=rid(rng) if h & 2 else "-", st=["0", "-", "5", "0"][h >> 2], of="p:%d:%d" % (h, h * 3), ord=rng.randrange(2))
            good = dict(sess(rng, 0), res=1)
            S.append([reset(rng.choice("cs")), "s2a null", peer(**k), "ctx", "fp", "s2a p:1:1", peer(**good), "fp", "ctx", "tickets", peer(**k), "fp", "ctx", peer(**dict(sess(rng, 1), su=1, res=1)), "fp", "ctx"])
    # enumerators that only agree with good ones in their low bits
    for x in (8, 16, 32, 64, 128, 256, 512, 65536, 2**24, 2**30, 2**31 - 2):
        for ver, su in ((1 + x, 0), (x, 0), (1, x), (1, 1 + x), (1, 2 + x), (1 + x, 2 + x), (x + 2, 1)):
            if max(ver, su) >= 2**31 or (q and rng.random() < 0.3): continue
            k = dict(sess(rng, su & 7 if su & 7 < 3 else 0), res=1, ver=ver, su=su)
            S.append([reset(rng.choice("cs")), "s2a null", peer(**k), "ctx", "fp"])
    # error codes
    for code in (1, 2, 3, 7, 13, 16, 100, 2**16, 2**31, 2**32 - 1):
        S.append([reset(), "s2a null", "peer st=%d res=1 lid=s:61" % code, "ctx", "fp", "s2a p:1:1", "peer st=%d" % code, "peer", "peer res=1", "fp", "peer st=%d" % code, "fp", "ctx"])
        S.append([reset(), "s2a null", "peer st=%d of=p:1:9" % code, "s2a p:1:1"])
    # local identities of response and result
    for a in ("-", "s:61", "h:61", "n:"):
        for b in ("-", "s:61", "s:62", "h:61", "n:"):
            S.append([reset(), "s2a null", "peer res=1 lid=%s rlid=%s" % (a, b), "ctx", "fp", "tickets"])
    # identity kinds and fingerprints in the result
    for _ in range(30 if q else 300):
        k = dict(sess(rng, 0), res=1, rlid=rid(rng), su=rng.randrange(3))
        k.update({x: y for x, y in sess(rng, k["su"]).items() if x in ("ik", "ok")})
        S.append([reset(rng.choice("cs"), addr="x:%d" % rng.randrange(9)), "s2a null", peer(**k), "ctx", "fp", "ctx", "tickets"])
    # truncation at every byte; flips
    for ordr in (0, 1):
        base = dict(sess(random.Random(4), 0), res=1, lid="s:61", rlid="s:61", of="p:3:5", bc=200, ord=ordr, pid="h:62", app="67")
        for cut in list(range(1, 200)):
            if q and cut % 3 and cut > 12: continue
            S.append([reset(), "s2a null", peer(**dict(base, cut=cut)), "ctx", "fp", "s2a p:1:1"])
        for _ in range(60 if q else 1500):
            S.append([reset(), "s2a null", peer(**dict(base, flip=rng.randrange(2000))), "ctx", "fp", "s2a p:1:1"])
    # many identities and ciphersuites; long conversations
    for k in (6, 9, 17, 33, 65) if q else (6, 9, 17, 33, 65, 130, 300):
        many = [ident("shu"[i % 3], "id-%d" % i) for i in range(k)]
        S.append([reset("s", locs=many, tgts=many, suites=[i % 3 for i in range(k)], avail=many[::2]), "s2a p:1:3", "s2a p:2:2", "peer lid=" + many[-1], "s2a p:3:3", "peer lid=" + many[-2], "s2a p:3:4"])
        S.append([reset("c", locs=many[-1:], tgts=many, suites=[i % 3 for i in range(k)], avail=many), "s2a null", "s2a p:2:2", "peer lid=" + many[0], "s2a p:3:3"])
        S.append([reset("c", locs=many[:2], tgts=many, avail=many), "s2a null", "s2a p:2:2"])
        S.append([reset("cs"[k % 2], locs=many[:1], avail=many), "s2a null"] + sum((["peer of=p:%d:%d bc=%d lid=%s" % (i, i, i, rng.choice(["-", many[i % k]])), "s2a p:%d:%d" % (i, i + 1)] for i in range(k)), [])
                 + [peer(**dict(sess(rng, 0), res=1)), "fp", "ctx", "tickets"])
    # long tokens, names, fingerprints
    for n in (300, 5000, 8192, 20000, 70000, 2**20 + 5):
        for role in "cs":
            S.append([reset(role, locs=[IDS["a"]], avail=[IDS["a"], IDS["b"]], d=2 * n), "s2a null", "peer lid=" + IDS["b"], "s2a p:1:1", "peer lid=" + IDS["a"], "s2a p:1:1"])
            S.append([reset(role, d=2 * n + 1), "s2a null", "s2a p:1:1", "avail - %d" % (2 * n // 3 * 2 + 1), "s2a p:1:2"])
    for n in (300, 5000) if q else (300, 5000, 33000, 70000):
        for role in "cs":
            l = [ident(k, "x" * n + str(n % 7)) for k in "shu"]
            S.append([reset(role, app="a" * n, target="h" * n, tgts=l, locs=l[:1], avail=l[:1]), "s2a null", "s2a p:1:1",
                      peer(**dict(sess(rng, 0), res=1, lid=l[0], rlid=l[0], pid=l[1], app=hx("g" * n), lfp="ab" * n, pfp="cd" * n)), "ctx", "fp", "tickets"])
    # histories of token sources and selections
    for _ in range(150 if q else 3000):
        pool = [rid(rng) for _ in range(4)]
        role = rng.choice("ccss")
        L = rng.sample(pool, rng.randrange(0, 2 if role == "c" else 4))
        av = lambda: [x for x in pool if rng.random() < 0.5]
        s = [reset(role, locs=L, tgts=pool[:2], tm=int(rng.random() < 0.9), avail=av(), d=rng.randrange(2))]
        for _ in range(rng.randrange(3, 20)):
            x = rng.random()
            if x < 0.4: s.append("s2a " + rng.choice(["null", "empty", "p:3:%d" % rng.randrange(1, 99), "p:4:7"]))
            elif x < 0.6: s.append("avail %s %d" % (",".join(av()) or "-", rng.randrange(2)))
            elif x < 0.8: s.append(peer(lid=rng.choice(pool + ["-"]), of="p:%d:%d" % (rng.randrange(99), rng.randrange(60))))
            elif x < 0.85: s.append(peer(st=rng.choice(["-", 4]), lid=rng.choice(pool)))
            elif x < 0.92:
                su = rng.randrange(3); i = rng.choice(pool)
                s.append(peer(**dict(sess(rng, su), res=1, su=su, lid=rng.choice(["-", i]), rlid=i)))
            else: s.append(rng.choice(["fp", "ctx", "tickets", "peernull"]))
        S.append(s)
    return S
