#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--seed N]
Exit 0: the property held on everything explored; 1: VIOLATION line printed;
anything else: the check itself failed."""
import argparse, importlib, threading, traceback
from vlib import *
import general

FAMILIES = {
    "C01": ["rec", "fp"], "C02": ["rec", "fp"], "C03": ["rec", "fp"], "C04": ["aead", "rec", "fp"], "C05": ["rec"], "C06": ["rec"],
    "C07": ["hs"], "C08": ["hs", "rec", "proxy"], "C09": ["hs", "rec"], "C10": ["aead"], "C11": ["aead"], "C12": ["hkdf"],
    "C13": ["hkdf", "rec", "fp"], "C14": ["fp"], "C15": ["fp"], "C16": ["proxy"], "C17": ["proxy"], "C18": ["proxy"], "C19": ["proxy"],
    "C20": ["val"], "C21": ["val"], "C22": ["val"], "C23": ["val"],
    "C24": ["conc"],
    "C25": ["aead", "hkdf", "rec", "fp"], "C26": ["hs", "rec", "fp", "proxy", "val", "e2e"],
    "C27": ["hs", "aead", "hkdf", "rec", "fp", "proxy", "val", "e2e"], "C28": ["hs", "aead", "hkdf", "rec", "fp", "proxy", "val", "e2e"],
    "C29": ["e2e"],
}

def load_known():
    p = VERIF + "/known-findings.json"
    return json.load(open(p))["findings"] if os.path.exists(p) else []

def segment_of(lines, i):
    j = i
    while j > 0 and not lines[j].startswith("reset"):
        j -= 1
    return lines[j:i + 1]

def histories(parts, i):
    """Scripts that end with the segment of line i of the process it ran in:
    with 1, 5, 25, ... earlier segments."""
    for p in parts:
        if i < len(p):
            break
        i -= len(p)
    starts = [j for j in range(i + 1) if p[j].startswith("reset")] or [0]
    out, n = [], 2
    while n < 5 * len(starts):
        out.append(p[starts[-min(n, len(starts))]:i + 1])
        n *= 5
    return out

class Family:
    """One family, prepared and run for one property."""
    def __init__(self, name, prop, tier, seed, work):
        self.m = importlib.import_module("fam_" + name)
        self.name, self.prop, self.tier, self.seed, self.work = name, prop, tier, seed, work
        self.mc_stats, self.gen_stats, self.walks, self.job_stats = [], [], 0, []
        self.bad = []          # (why, script segment, variant, event, confirmed)
        self.events = 0
        self.trace_states = 0
        self.segments = 0
        self.samples = []
        self.other = set()
        self.known = []

def run(prop, tier, seed):
    t0 = time.time()
    work = workdir(prop)
    fams = [Family(n, prop, tier, seed, work) for n in FAMILIES[prop]]
    known = load_known()
    pp = "" if prop in general.MCS else prop   # these take every script
    errors = []
    lock = threading.Lock()

    def guarded(f, *a):
        try:
            f(*a)
        except ToolError as e:
            with lock:
                errors.append(str(e))
        except Exception:
            with lock:
                errors.append(traceback.format_exc())

    def mc_job(f, mod, cfg, workers):
        out, st = tlc(work, mod, cfg, None, workers, "6g")
        with lock:
            f.mc_stats.append(st)

    gen_segs = {}
    def gen_job(f, k, mod, cfg, to_script):
        out, st = tlc(work, mod, cfg, None, 1, "3g")
        es = edges_of(out)
        if not es:
            raise ToolError("no edges from " + mod)
        st["edges"] = len(es)
        walks = tour(es, 60, random.Random(seed))
        with lock:
            f.gen_stats.append(st)
            f.walks += len(walks)
            gen_segs[(f.name, k)] = [to_script(w) for w in walks]

    # 1. model checking and generation run while the code is built
    mcpool = cf.ThreadPoolExecutor(3)
    mcf = []
    genpool = cf.ThreadPoolExecutor(4)
    genf = []
    for f in fams:
        for k, g in enumerate(f.m.gens(tier, pp)):
            genf.append(genpool.submit(guarded, gen_job, f, k, *g))
        for mc in (f.m.mcs(tier, prop) if prop not in general.MCS else general.MCS[prop](tier) if f is fams[0] else []):
            mcf.append(mcpool.submit(guarded, mc_job, f, *mc))
    bins = {}
    need = {}
    for f in fams:
        for v in f.m.variants(tier):
            need.setdefault(v, []).append(f.m.DRIVER)
    for v, ds in need.items():
        bins[v] = B.build(v, sorted(set(ds)))
    for x in genf:
        x.result()

    # 2. run the scripts on the real code and validate the traces
    def fam_job(f):
        segs = []
        for k, g in enumerate(f.m.gens(tier, pp)):
            segs += gen_segs.get((f.name, k), [])
        segs += f.m.scripts(tier, seed, pp)
        segs = general.transform(prop, f.name, segs, tier, seed)
        for v in f.m.variants(tier):
            my = [s for s in segs if f.m.runs_on(s, v)] if hasattr(f.m, "runs_on") else segs
            nproc = getattr(f.m, "PROCS", 4)
            parts = [my[i::nproc] for i in range(nproc)]
            parts = [sum(p, []) for p in parts if p]
            binary = os.path.join(bins[v], f.m.DRIVER)
            with cf.ThreadPoolExecutor(nproc) as ex:
                evs = list(ex.map(lambda ls: run_driver(work, binary, ls), parts))
            lines = sum(parts, [])
            off = 0
            allev = []
            for p, es in zip(parts, evs):
                for e in es:
                    e["_l"] += off
                allev += es
                off += len(p)
            bad, st = validate(work, f.m.TRACE[0], f.m.TRACE[1], allev)
            with lock:
                f.events += st["checked"]; f.trace_states += st["states"]; f.segments += st["segments"]
                f.job_stats.append({"variant": v, "script_lines": len(lines), **st})
            with lock:
                f.samples.append({"variant": v, "script": [l[:200] for l in my[len(my) // 2][:12]]})
            mine = [b for b in bad if b[1] == prop]
            with lock:
                f.other |= {(b[1], b[2]) for b in bad if b[1] != prop}
            seen = collections.Counter()
            for i, p, why in mine:
                kf = [k for k in known if k["property"] == prop and k.get("why") == why]
                if kf:
                    with lock:
                        f.known.append(kf[0]["what"])
                    continue
                seen[why] += 1
                if seen[why] > 2:
                    continue
                seg = segment_of(lines, allev[i]["_l"])
                # confirm: run the segment alone, again; failing that, with
                # more and more of what the process had done before
                ok = False
                for sc in [seg] * getattr(f.m, "CONFIRM", 1) + histories(parts, allev[i]["_l"]):
                    ev2 = run_driver(work, binary, sc)
                    b2, _ = validate(work, f.m.TRACE[0], f.m.TRACE[1], ev2, 1)
                    if any(x[1] == prop for x in b2):
                        ok, seg = True, sc
                        break
                with lock:
                    if ok or (getattr(f.m, "SINGLE_SHOT", False) and why != "timeout"):
                        f.bad.append((why, seg, v, {k: x for k, x in allev[i].items()}))
                    else:
                        errors.append("not reproducible: %s %s" % (why, seg[-1]))
    if not errors:
        with cf.ThreadPoolExecutor(len(fams)) as ex:
            list(ex.map(lambda f: guarded(fam_job, f), fams))
    for x in mcf:
        x.result()

    viol = [(f, b) for f in fams for b in f.bad]
    rdir = VERIF + "/evidence/replay"
    os.makedirs(rdir, exist_ok=True)
    lines = []
    for n, (f, (why, seg, v, ev)) in enumerate(viol[:5]):
        rp = "%s/%s-%s-%d.json" % (rdir, prop, f.name, n)
        json.dump({"property": prop, "family": f.name, "variant": v, "why": why, "script": seg, "event": ev,
                   "how": "bin/replay.py " + rp}, open(rp, "w"), indent=1)
        lines.append("VIOLATION property=%s replay=%s" % (prop, rp))
        print("  %s/%s: %s at: %s" % (f.name, v, why, seg[-1][:300]))
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": sum(s["distinct"] for f in fams for s in f.mc_stats),
            "transitions": sum(s["generated"] for f in fams for s in f.mc_stats),
            "traces_validated_against_impl": sum(f.segments for f in fams),
            "samples": sum([f.samples[:2] for f in fams], []),
            "events_validated": sum(f.events for f in fams),
            "generated_edges_walked": sum(s["edges"] for f in fams for s in f.gen_stats),
            "families": [{"family": f.name, "models": f.mc_stats, "generators": f.gen_stats, "walks": f.walks,
                          "runs": f.job_stats} for f in fams]},
        "wall_s": round(time.time() - t0, 1),
        "assumptions": sum([getattr(f.m, "ASSUMPTIONS", []) for f in fams], []),
        "violations": len(viol),
        "violation_details": [{"why": b[0], "family": f.name, "script": b[1][-8:]} for f, b in viol[:5]],
    }
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    json.dump(ev, open(VERIF + "/evidence/%s.json" % prop, "w"), indent=1)
    for k in sorted(set(k for f in fams for k in f.known)):
        print("KNOWN-FINDING: property=%s %s" % (prop, k))
    other = sorted(set().union(*[f.other for f in fams]))
    if other:
        print("note: other properties' violations seen in these traces:", other[:10])
    print("%s: %d model states, %d traces / %d events validated, %.1f s" % (
        prop, ev["coverage"]["states"], ev["coverage"]["traces_validated_against_impl"], ev["coverage"]["events_validated"], ev["wall_s"]))
    if not os.environ.get("S2A_KEEP"):
        shutil.rmtree(work, ignore_errors=True)
    if lines:
        for l in lines:
            print(l)
        return 1
    if errors:
        for e in errors:
            sys.stderr.write("CHECK FAILED: " + e + "\n")
        return 3
    return 0

if __name__ == "__main__":
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    a = ap.parse_args()
    try:
        sys.exit(run(a.prop, a.tier, a.seed))
    except ToolError as e:
        sys.stderr.write("CHECK FAILED: %s\n" % e)
        sys.exit(3)
