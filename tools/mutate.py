#!/usr/bin/env python3
"""mutate.py WORKDIR [--files re] [--shard i/n] [--limit n]
Syntactic mutants of a scratch clone of /repo, each judged by the families that
exercise its file (scripts are generated once and reused). Appends one JSON line per mutant to
WORKDIR/results.<shard>.jsonl. A development aid, not a check."""
import argparse, hashlib, importlib, json, os, random, re, subprocess, sys, time, pickle
ap = argparse.ArgumentParser()
ap.add_argument("work"); ap.add_argument("--files", default="."); ap.add_argument("--shard", default="0/1"); ap.add_argument("--limit", type=int, default=0)
ap.add_argument("--list", action="store_true"); ap.add_argument("--redo", default="")
a = ap.parse_args()
sh, nsh = map(int, a.shard.split("/"))
W = os.path.abspath(a.work); os.makedirs(W, exist_ok=True)
R = "%s/repo%d" % (W, sh)
if not os.path.exists(R): subprocess.run(["git", "clone", "-q", "/repo", R], check=True)
subprocess.run(["git", "-C", R, "fetch", "-q"]); subprocess.run(["git", "-C", R, "reset", "-q", "--hard", "origin/HEAD"], check=True)
os.environ["S2A_REPO"] = R; os.environ["S2A_BUILD"] = "%s/build%d" % (W, sh)
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "../bin"))
from vlib import *
import check
MAP = [("src/crypto/(aes|chacha)", ["aead", "rec"]), ("src/crypto/s2a_aead_crypter", ["aead", "rec"]), ("src/crypto/hkdf", ["hkdf", "rec"]),
       ("src/frame_protector", ["fp", "conc"]), ("src/handshaker/s2a_proxy", ["proxy", "conc"]), ("src/handshaker/s2a_context", ["val", "proxy"]),
       ("src/handshaker/s2a_util", ["val", "proxy"]), ("src/options", ["val", "proxy"]), ("src/record_protocol/handshake_message", ["hs", "rec"]),
       ("src/record_protocol/s2a_(crypter|half)", ["rec", "fp", "conc"]), ("src/record_protocol/s2a_upb", ["val"]), ("src/token_manager/single", ["val"])]
def files():
    fs = subprocess.check_output(["git", "-C", R, "ls-files", "src"], text=True).split()
    return [f for f in fs if f.endswith(".cc") and "_test" not in f and "test_util" not in f and "fake" not in f and re.search(a.files, f)]
def muts(f):
    ls = open(R + "/" + f).read().split("\n")
    out = []
    for i, l in enumerate(ls):
        s = l.strip()
        if not s or s.startswith(("//", "#", "*", "/*", "namespace", "using", "logger_(", "ABSL_ASSERT")): continue
        code = re.sub(r'"(\\.|[^"\\])*"', lambda m: '"' + "\x01" * (len(m.group(0)) - 2) + '"', l)
        code = re.sub(r"//.*", lambda m: "\x01" * len(m.group(0)), code)
        def rep(pat, news):
            for m in re.finditer(pat, code):
                for nw in news:
                    if nw != m.group(0): out.append((i, l, l[:m.start()] + nw + l[m.end():]))
        rep(r" <= ", [" < "]); rep(r" >= ", [" > "])
        rep(r" < ", [" <= "]); rep(r" > ", [" >= "])
        rep(r" == ", [" != "]); rep(r" != ", [" == "]); rep(r" && ", [" || "]); rep(r" \|\| ", [" && "])
        rep(r" \+ ", [" - "]); rep(r" - ", [" + "]); rep(r" \+= ", [" -= ", " = "]); rep(r" -= ", [" += "]); rep(r" \^= ", [" = "])
        rep(r"\+\+", ["--"])
        for m in re.finditer(r"(?<![\w.\[])(\d+|0x[0-9a-fA-F]+)(?![\w.])", code):
            v = int(m.group(1), 0)
            for nv in (v + 1, v - 1):
                if nv >= 0: out.append((i, l, l[:m.start()] + str(nv) + l[m.end():]))
        rep(r"(?<!\w)true(?!\w)", ["false"]); rep(r"(?<!\w)false(?!\w)", ["true"])
        rep(r"k[A-Z]\w*(Size|Length|Bytes|PerRecord|Max\w*)(?!\w)", [])
        m = re.match(r"(\s*)(\} else )?if \(", code)
        if m and code.rstrip().endswith("{"):
            p = code.index("if (") + 4
            body = l[p:l.rstrip().rindex(")")]
            out.append((i, l, l[:p] + "!(" + body + ")" + l[l.rstrip().rindex(")") + 1:]))
            out.append((i, l, l[:p] + "false && (" + body + ")" + l[l.rstrip().rindex(")") + 1:]))
        elif m:   # condition over several lines: drop it with a leading false
            out.append((i, l, l.replace("if (", "if (false && ", 1)))
        if s.endswith(";") and not re.match(r"(return|break|continue|case|default|\}|const |static |auto |size_t |uint|int |std::|absl::|S2A\w+ \w|bool |struct|class|extern)", s) and (ls[i - 1].strip() == "" or ls[i - 1].rstrip().endswith((";", "{", "}", ":")) or ls[i - 1].strip().startswith("//")):
            out.append((i, l, re.match(r"\s*", l).group(0) + ";"))
    seen = set()
    for o in out:
        k = (o[0], o[2])
        if k not in seen and "\x01" not in o[2]: seen.add(k); yield o
work = workdir("mut%d" % sh)
SEG = {}
def segs(name):
    if name in SEG: return SEG[name]
    F = importlib.import_module("fam_" + name)
    cache = "%s/segs.%s.pkl" % (W, name)
    if os.path.exists(cache): SEG[name] = pickle.load(open(cache, "rb")); return SEG[name]
    r = []
    for g in F.gens("quick", ""):
        out, st = tlc(work, g[0], g[1], timeout=200); r += [g[2](x) for x in tour(edges_of(out), 60, random.Random(1))]
    r += F.scripts("quick", 1, "")
    pickle.dump(r, open(cache + str(sh), "wb")); os.rename(cache + str(sh), cache)
    SEG[name] = r
    return r
def judge(name, v):
    F = importlib.import_module("fam_" + name)
    ss = segs(name)
    if hasattr(F, "runs_on"): ss = [x for x in ss if F.runs_on(x, v)]
    bd = B.build(v, [F.DRIVER])
    n = 4
    parts = [sum(ss[i::n], []) for i in range(n)]
    with cf.ThreadPoolExecutor(n) as ex: evs = list(ex.map(lambda ls: run_driver(work, bd + "/" + F.DRIVER, ls), parts))
    allev = sum(evs, [])
    bad, st = validate(work, F.TRACE[0], F.TRACE[1], allev)
    c = collections.Counter((p, w) for i, p, w in bad)
    kf = {(k["property"], k.get("why")) for k in check.load_known()}
    return sorted("%s:%s" % k for k in c if k not in kf)
todo = [(f, m) for f in files() for m in muts(f)]
random.Random(7).shuffle(todo)
todo = todo[sh::nsh]
if a.limit: todo = todo[:a.limit]
if a.list: print(len(todo)); sys.exit()
out = "%s/results.%d.jsonl" % (W, sh)
done = set()
if os.path.exists(out): done = {json.loads(l)["id"] for l in open(out)}
for f, (i, old, new) in todo:
    mid = hashlib.sha1(("%s:%d:%s" % (f, i, new)).encode()).hexdigest()[:10]
    if mid in done: continue
    t = time.time()
    src = open(R + "/" + f).read().split("\n"); src[i] = new
    open(R + "/" + f, "w").write("\n".join(src))
    r = {"id": mid, "file": f, "line": i + 1, "old": old.strip(), "new": new.strip()}
    try:
        c = subprocess.run(["g++", "-std=c++14", "-fsyntax-only", "-w", "-I" + R, "-I" + VERIF + "/shim", f], cwd=R, capture_output=True)
        if c.returncode and "boringssl" not in f: r["status"] = "nocompile"
        else:
            fams = next(x for p, x in MAP if re.search(p, f))
            r["status"] = "survived"
            for n in fams:
                vs = ["boringssl"] if "boringssl" in f and n in ("aead", "rec") else importlib.import_module("fam_" + n).variants("quick")[:1]
                b = judge(n, vs[0])
                if b: r["status"] = "caught"; r["by"] = n; r["why"] = b[:12]; break
    except ToolError as e: r["status"] = "nocompile" if "error:" in str(e) else "tool"; r["msg"] = str(e)[-300:]
    except Exception as e: r["status"] = "tool"; r["msg"] = str(e)[-300:]
    subprocess.run(["git", "-C", R, "checkout", "-q", "--", "."])
    r["t"] = round(time.time() - t, 1)
    open(out, "a").write(json.dumps(r) + "\n")
shutil.rmtree(work)
