"""Several threads on one connection, proxy or token manager: C24."""
from vlib import *
NAME = "conc"
DRIVER = "conc_driver"
TRACE = ("ConcTrace", "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n")
SINGLE_SHOT = True    # a race seen once is a race
ASSUMPTIONS = ["schedules are controlled at mutex operations, calls into the crypto library and callbacks; accesses between these are covered by the thread sanitizer on free runs",
               "one thread at a time unprotects (the headers promise no more)"]
PROCS = 6

def variants(tier):
    return ["openssl", "tsan"]

def runs_on(seg, variant):
    ctl = any(" ctl " in l for l in seg)
    return ctl if variant == "openssl" else not ctl

def mcs(tier, prop):
    cfg = "CONSTANTS Work <- %s\n Locked <- AllLocks\nSPECIFICATION Spec\nINVARIANTS Linearizable NonceUnique NotTorn\n"
    return [("ConcMC", cfg % w, 3) for w in (["Work1", "Work2"] if tier == "quick" else ["Work1", "Work2", "Work3"])]

def gens(tier, prop):
    n1 = list(range(0, 44, 3)) if tier == "quick" else list(range(0, 90))
    n2 = [999] if tier == "quick" else [1, 2, 5, 9, 14, 22, 999]
    return [("ConcGen", "CONSTANTS N1 = {%s}\n N2 = {%s}\nINIT Init\nNEXT Next\nVIEW View\nACTION_CONSTRAINT Edge\nCHECK_DEADLOCK FALSE\n" % (",".join(map(str, n1)), ",".join(map(str, n2))), gen_script)]

_c = [0]
def second(rng, kind):
    """A second object of the same kind, its operations written 1@..."""
    return reset(rng, kind).replace("reset", "add", 1)

def on(k, th):
    return ";".join("%d@%s" % (k, o) for o in th.split(";"))

def reset(rng, kind):
    if kind in ("crypter", "fp"):
        os_ = 2**64 - rng.randrange(1, 9) if kind == "crypter" and rng.random() < 0.1 else rng.choice([0, 0, 1, 2**32 - 2, 255])
        return "reset %s %d %d %d %d" % (kind, rng.randrange(3), rng.choice([0, 5, 2**32 - 1]), os_, rng.randrange(10**6))
    if kind == "proxy":
        return "reset proxy %s %d %d" % (rng.choice("cs"), rng.choice([0, 1]), rng.randrange(2))
    return "reset tok %s" % rng.choice(["unset", "746f6b", "61"])

def gen_script(walk):
    _c[0] += 1
    rng = random.Random(_c[0])
    r, kind, n = [], None, 0
    for o in sorted(walk, key=lambda o: o["kind"]):
        bad = "bad" in o["a"] + o["b"]
        two = o["kind"][-1] == "2"
        if o["kind"] != kind or n >= 6 or bad or ("proxy" in o["kind"] and rng.random() < 0.5):
            r.append(reset(rng, o["kind"].rstrip("2"))); n = 0
            if two: r.append(second(rng, o["kind"][:-1]))
        kind = None if bad else o["kind"]
        n += 1
        f = o["f"]
        r.append("par ctl %d*%d,%d*%d,%d*999 0 %s %s" % (f, o["n"], 1 - f, o["m"], f, o["a"], on(1, o["b"]) if two else o["b"]))
    return r

def threads(rng, kind, nt=0):
    nt = nt or rng.choice([2, 2, 3, 4])
    th = []
    for i in range(nt):
        if kind in ("crypter", "fp") and i == 0:
            u = []
            for _ in range(rng.randrange(1, 7)):
                if kind == "crypter": u.append("U:" + rng.choice(["app.30", "app.0", "ku.1", "tk.20", "ku.1", "app.500"]))
                else: u.append(rng.choice(["U:", "u:"]) + rng.choice(["app.30", "app.0", "ku.1", "tk.20"]) if rng.random() < 0.5 else "U:" + "+".join(rng.choice(["app.30", "ku.1", "tk.5", "app.9"]) for _ in range(rng.randrange(1, 5))))
            th.append(";".join(u))
        elif kind == "crypter": th.append(";".join(rng.choice(["a:5", "a:100", "a:0", "h:9", "k"]) for _ in range(rng.randrange(1, 6))))
        elif kind == "fp": th.append(";".join(rng.choice(["P:5", "p:7", "P:17000", "P:100", "p:16385"]) for _ in range(rng.randrange(1, 5))))
        elif kind == "proxy": th.append(";".join(rng.choice(["s:0", "s:4", "s:9", "r:f:3", "r:r:2", "f", "f"]) for _ in range(rng.randrange(1, 4))))
        else: th.append(";".join(rng.choice("gdb") for _ in range(rng.randrange(1, 5))))
    return th

def free(rng, kind, objs=1):
    """Threads on one object, or one or two threads on each of several."""
    th = threads(rng, kind) if objs == 1 else sum(([on(k, x) for x in threads(rng, kind, rng.choice([1, 2]))] for k in range(objs)), [])
    rng.shuffle(th)
    return "par free - %d %s" % (rng.randrange(10**6), " ".join(th))

def scripts(tier, seed, prop):
    rng = random.Random(seed * 11 + 3)
    q = tier == "quick"
    S = []
    for kind, n in (("crypter", 200), ("fp", 200), ("proxy", 150), ("tok", 30)):
        for _ in range(n if q else n * 15):
            S.append([reset(rng, kind)] + [free(rng, kind) for _ in range(4)])
    for kind, n in (("crypter", 50), ("fp", 50), ("proxy", 50)):
        for _ in range(n if q else n * 15):
            k = rng.choice([2, 2, 3])
            S.append([reset(rng, kind)] + [second(rng, kind) for _ in range(k - 1)] + [free(rng, kind, k) for _ in range(4)])
    return S
