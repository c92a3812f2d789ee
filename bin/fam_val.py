"""Value types: options, identities, conversions, token manager, contexts, ticket requests."""
from vlib import *
NAME = "val"
DRIVER = "val_driver"
TRACE = ("ValuesTrace", "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n")
ASSUMPTIONS = ["protocol buffer encoding is by /verif/shim/upb (the repository's submodule is not in the sandbox)"]

def variants(tier):
    return ["openssl"]

def mcs(tier, prop):
    q = tier == "quick"
    r = []
    if prop in ("C21", ""):
        r.append(("OptionsMC", "CONSTANTS Places = {0, 1}\n MaxOps = %d\nSPECIFICATION Spec\nINVARIANT OwnHistory\nPROPERTY Others\nCHECK_DEADLOCK FALSE\n" % (4 if q else 5), 4))
    if prop in ("C22", ""):
        r.append(("TokensMC", 'CONSTANTS Values = {"x", "y", ""}\n Managers = {0, 1, 2}\n MaxOps = %d\nSPECIFICATION Spec\nINVARIANT AtBirth\nPROPERTY Constant\nCHECK_DEADLOCK FALSE\n' % (5 if q else 6), 4))
    if prop in ("C20", "C23", ""):
        r.append(("ContextMC", 'CONSTANTS Texts = {"", "x"%s}\n MaxUnknown = %d\nSPECIFICATION Spec\nINVARIANT RoundTrip\nCHECK_DEADLOCK FALSE\n' % ("" if q else ', "y"', 1), 4))
    return r

def gens(tier, prop):
    r = []
    if prop in ("C21", ""):
        r.append(("OptionsGen", "CONSTANT MaxSet = %d\nINIT Init\nNEXT Next\nVIEW View\nACTION_CONSTRAINT Edge\nCHECK_DEADLOCK FALSE\n" % (4 if tier == "quick" else 12), gen_opt))
    if prop in ("C22", ""):
        r.append(("TokensGen", "INIT Init\nNEXT Next\nVIEW View\nACTION_CONSTRAINT Edge\nCHECK_DEADLOCK FALSE\n", gen_tok))
    return r

def hx(b):
    return (b.encode() if isinstance(b, str) else b).hex() or "-"
_c = [0]
def gen_opt(walk):
    _c[0] += 1
    rng = random.Random(_c[0])
    r = ["reset", "new 0"]
    for o in walk:
        k = o["op"]
        if k == "copy": r.append("copy %d %d" % (o["s"], o["d"]))
        elif k in ("new", "drop"): r.append("%s %d" % (k, o["s"]))
        elif k == "addr": r.append("addr %d %s" % (o["s"], hx(text(rng))))
        elif k in ("local", "target"): r.append("%s %d %s" % (k, o["s"], rid(rng, False)))
        elif k == "suite": r.append("suite %d %d" % (o["s"], rng.randrange(3)))
        else: r.append("%s %d %d" % (k, o["s"], o["v"]))
    return r
def gen_tok(walk):
    r = ["reset"]
    V = {"unset": "unset", "": "-", "x": "746f6b656e2d78", "y": "79"}
    for o in walk:
        r.append(" ".join(["setenv", V[o[1]]] if o[0] == "setenv" else map(str, o)))
    return r

TEXTS = ["", "a", "b", "A", "a ", "spiffe://a/b", "host.example", "1000", "x" * 300, "\u00e9\u4e16", "a\x01b"]
def text(rng, nul=False):
    t = rng.choice(TEXTS)
    return t + "\0" + rng.choice(["", "x", "y"]) if nul and rng.random() < 0.2 else t
def rid(rng, none=True, nul=True):
    k = rng.choice("shun" if none else "shu")
    return "n:" if k == "n" else k + ":" + text(rng, nul).encode().hex()
def rb(rng):
    n = rng.choice([0, 1, 2, 20, 32, 64, 300])
    b = bytes(rng.randrange(256) for _ in range(n))
    return b if rng.random() < 0.5 or not n else b[:n // 2] + b"\0" + b[n // 2 + 1:]

def opt_scripts(rng, q):
    S = []
    allids = [k + ":" + t.encode().hex() for k in "shu" for t in TEXTS + ["a\0x", "a\0y"]] + ["n:"]
    for a in allids:
        if not q or rng.random() < 0.5:
            S.append(["reset"] + ["ident %s %s" % (a, b) for b in allids])
    S.append(["reset"] + ["conv " + a for a in allids] + ["convver %d" % v for v in list(range(-2, 6)) + [255, 256, 257]] + ["convsuite %d" % v for v in list(range(-2, 7)) + [255, 256, 257, 258]])
    # many of everything
    for n in (20, 70, 300) if q else (20, 70, 300, 1000, 3000):
        every = max(1, n // 10)
        S.append(["reset", "new 0"] + [x for i in range(n) for x in ["suite 0 %d" % rng.randrange(3)] + (["copy 0 1", "suite 1 %d" % rng.randrange(3)] if i % every == 0 else [])] + ["copy 0 2", "copy 2 3", "suite 0 1", "suite 3 2", "drop 0", "copy 2 1"])
        S.append(["reset", "new 0"] + ["suite 0 %d" % (i // 9 % 3) for i in range(n)] + ["copy 0 1", "suite 1 0"])
        for w in ("local", "target"):
            S.append(["reset", "new 0"] + [x for i in range(n if n < 400 else 400) for x in ["%s 0 %s:%s" % (w, "shu"[i % 3], hx("id%d" % (i // 3)))] + (["copy 0 1", "%s 1 u:ff" % w] if i % every == 0 else [])] + ["copy 0 2", "%s 2 s:69643030" % w, "drop 0", "copy 2 1"])
    for n in (300, 5000, 70000):
        S.append(["reset", "new 0", "addr 0 " + "61" * n, "copy 0 1", "addr 0 -", "local 1 s:" + "62" * n, "copy 1 0", "target 0 u:" + "63" * n, "local 0 h:" + "62" * n, "copy 0 2"])
        S.append(["reset", "ident s:%s s:%s" % ("61" * n, "61" * n), "ident s:%s s:%s" % ("61" * n, "61" * (n - 1) + "62"), "ident u:%s u:%s" % ("61" * n, "61" * (n + 1)), "conv h:" + "61" * n])
    for _ in range(150 if q else 3000):
        s = ["reset", "new 0"]
        live = {0}
        for _ in range(rng.randrange(5, 60)):
            x = rng.random()
            k = rng.choice(sorted(live))
            if x < 0.2:
                d = rng.randrange(5); s.append("copy %d %d" % (k, d)); live.add(d)
            elif x < 0.25:
                d = rng.randrange(5); s.append("new %d" % d); live.add(d)
            elif x < 0.3 and len(live) > 1: s.append("drop %d" % k); live.discard(k)
            elif x < 0.4: s.append("%s %d %d" % (rng.choice(["min", "max"]), k, rng.randrange(2)))
            elif x < 0.5: s.append("addr %d %s" % (k, hx(text(rng, True))))
            elif x < 0.65: s.append("suite %d %d" % (k, rng.randrange(3)))
            else: s.append("%s %d %s" % (rng.choice(["local", "target"]), k, rid(rng, False)))
        S.append(s)
    return S

def tok_scripts(rng, q):
    S = []
    vals = ["unset", "-", hx("token"), hx("x" * 5000), hx("y" * 70001), hx("t\u00e9 =\x01"), hx(" lead"), hx("trail\n"), hx("a"), hx("S2A_ACCESS_TOKEN"), hx("%s%n"), hx("ya29.c0ffee-Secret_Token/9x7==")]
    for a in vals:
        for b in vals:
            S.append(["reset", "setenv " + a, "build 0", "get 0 default", "setenv " + b, "get 0 default", "get 0 s:61", "build 1", "get 0 h:62", "get 1 u:63", "get 1 n:", "kill 0", "get 1 default", "build 0", "get 0 default"])
    for _ in range(60 if q else 1500):
        s = ["reset"]
        for _ in range(rng.randrange(5, 50)):
            x = rng.random()
            s.append("setenv " + rng.choice(vals) if x < 0.25 else "build %d" % rng.randrange(4) if x < 0.5 else "kill %d" % rng.randrange(4) if x < 0.6 else "get %d %s" % (rng.randrange(4), rng.choice(["default", rid(rng)])))
        S.append(s)
    return S

def ctx_scripts(rng, q):
    S = []
    def ctx(ver=None, su=None):
        return "%s %d %d %s %s %s %s %d" % (hx(text(rng, True)), rng.randrange(2) if ver is None else ver, rng.randrange(3) if su is None else su, rid(rng), rid(rng), hx(rb(rng)), hx(rb(rng)), rng.randrange(2))
    for ver in (0, 1, 2, 3, 9):
        for su in (0, 1, 2, 3, 4, 8):
            S.append(["reset"] + ["ctx " + ctx(ver, su) for _ in range(4 if q else 40)] + ["deser %d 0 0 0 %s" % (rng.randrange(9), ctx(ver, su)) for _ in range(4 if q else 40)])
    kinds = ["n:"] + [k + ":" + t for k in "shu" for t in ("61", "", "62")]
    S.append(["reset"] + ["ctx 67 1 0 %s %s %s %s 1" % (a, b, x, y) for a in kinds for b in kinds for x, y in (("-", "-"), ("00", "0001"), ("6100", "00"))])
    for n in (1000, 5000) if q else (1000, 5000, 33000, 70000):
        for a, b in (("s", "h"), ("u", "s"), ("h", "u")):
            S.append(["reset", "ctx %s 1 0 %s:%s %s:%s %s %s 1" % ("61" * n, a, "62" * n, b, "63" * n, "64" * n, "65" * n)])
    for _ in range(40 if q else 1000):
        c = ctx()
        S.append(["reset"] + ["deser %d %d %d 0 %s" % (rng.randrange(50), rng.randrange(40), rng.randrange(2), c) for _ in range(12)] + ["deser %d 0 1 1 %s" % (rng.randrange(5), c)])
        S.append(["reset"] + ["raw " + hx(rb(rng)) for _ in range(6)] + ["raw " + x for x in ("-", "0a", "0a05", "10", "1080", "10ffffffffffffffffffff", "0affffffffff0f", "22020a05", "2203")])
    for cut in range(0, 90):
        S.append(["reset", "deser 0 %d 0 0 67727063 1 2 s:6161616161 h:62626262 %s %s 1" % (cut, "ab" * 20, "00" * 10), "deser 3 %d 1 0 67727063 1 2 s:6161616161 - %s %s 1" % (cut, "ab" * 20, "00" * 10)])
    return S

def ticket_scripts(rng, q):
    S = []
    for cid in (0, 1, 127, 128, 2**31, 2**32 - 1, 2**32, 2**63, 2**64 - 1):
        for i in ("s:61", "h:61", "u:61", "n:", "s:", "h:", "u:"):
            S.append(["reset", "ticket %d %s null" % (cid, i), "ticket %d %s none" % (cid, i), "ticket %d %s p:1:0" % (cid, i), "ticket %d %s p:1:5,p:2:6,p:1:5" % (cid, i)])
    for n in (0, 1, 2, 127, 128, 255, 256, 16383, 16384, 16385, 65535, 65536, 200000, 2**20 + 7) + (() if q else (2**22, 2**24 + 3)):
        S.append(["reset", "ticket 5 s:61 p:9:%d" % n, "ticket 5 h:61 p:1:3,p:9:%d,p:8:%d,p:2:1" % (n, n)])
    for k in (1, 2, 5, 6, 20, 100, 257, 1100) + (() if q else (5000,)):
        S.append(["reset", "ticket 77 u:31 " + ",".join("p:%d:%d" % (rng.randrange(99), rng.randrange(200)) for _ in range(k))])
    for _ in range(100 if q else 3000):
        S.append(["reset"] + ["ticket %d %s %s" % (rng.getrandbits(rng.choice([8, 32, 64])), rid(rng), ",".join("p:%d:%d" % (rng.randrange(10**6), rng.choice([0, 1, rng.randrange(300)])) for _ in range(rng.randrange(1, 9)))) for _ in range(3)])
    return S

def scripts(tier, seed, prop):
    rng = random.Random(seed * 101 + 7)
    q = tier == "quick"
    S = []
    if prop in ("C21", ""): S += opt_scripts(rng, q)
    if prop in ("C22", ""): S += tok_scripts(rng, q)
    if prop in ("C20", "C26", ""): S += ctx_scripts(rng, q)
    if prop in ("C23", ""): S += ticket_scripts(rng, q)
    return S
