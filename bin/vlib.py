"""Machinery shared by all checks: TLC runs, transition tours, driver runs,
trace validation, confirmation, evidence."""
import collections, concurrent.futures as cf, glob, hashlib, json, os, random, re, shutil, signal, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = VERIF + "/spec"
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
sys.path.insert(0, VERIF + "/bin")
import build as B

class ToolError(Exception):
    pass

def workdir(name):
    d = os.path.join(os.environ.get("S2A_WORK", VERIF + "/work"), "%s.%d" % (name, os.getpid()))
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    return d

_n = [0]
def tlc(work, module, cfg, env=None, workers=1, heap="2g", timeout=800, coverage=False):
    """Runs TLC; returns (stdout, stats). Raises ToolError when TLC fails."""
    _n[0] += 1
    tag = "%s.%d" % (module, _n[0])
    cfgp = os.path.join(work, tag + ".cfg")
    open(cfgp, "w").write(cfg)
    md = os.path.join(work, tag + ".md")
    outp = os.path.join(work, tag + ".out")
    cmd = ["java", "-Xmx" + heap, "-Xss64m", "-XX:+UseParallelGC" if workers > 1 else "-XX:+UseSerialGC",
           "-cp", CP, "tlc2.TLC", "-workers", str(workers), "-metadir", md, "-noGenerateSpecTE",
           "-config", cfgp, os.path.join(SPEC, module + ".tla")]
    if coverage:
        cmd[-3:-3] = ["-coverage", "1"]
    e = dict(os.environ)
    e.update(env or {})
    t0 = time.time()
    with open(outp, "w") as f:
        try:
            rc = subprocess.run(cmd, stdout=f, stderr=subprocess.STDOUT, env=e, cwd=SPEC, timeout=timeout).returncode
        except subprocess.TimeoutExpired:
            raise ToolError("TLC timed out on " + module)
    shutil.rmtree(md, ignore_errors=True)
    out = open(outp, errors="replace").read()
    if "Model checking completed. No error has been found." not in out or rc != 0:
        raise ToolError("TLC failed on %s (rc %d): %s" % (module, rc, outp) + "\n" + out[-3000:])
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
    st = {"module": module, "generated": int(m.group(1)), "distinct": int(m.group(2)), "wall_s": round(time.time() - t0, 1)}
    return out, st

# ---------------------------------------------------------------- generation
def edges_of(out):
    es = []
    for line in out.splitlines():
        line = line.strip()
        if line.startswith('"{') and line.endswith('}"'):
            line = json.loads(line)
        if line.startswith('{"') and '"from"' in line:
            o = json.loads(line)
            es.append((json.dumps(o["from"], sort_keys=True), o["op"], json.dumps(o["to"], sort_keys=True)))
    return es

def tour(edges, maxlen=80, rng=None, limit=None):
    """Walks from the initial node that together take every edge."""
    if not edges:
        return []
    g = collections.OrderedDict()
    seen = set()
    for f, o, t in edges:
        k = (f, json.dumps(o), t)
        if k in seen:
            continue
        seen.add(k)
        g.setdefault(f, []).append((o, t))
        g.setdefault(t, [])
    init = edges[0][0]
    todo = {n: list(es) for n, es in g.items()}
    if rng:
        for n in todo:
            rng.shuffle(todo[n])
    left = sum(len(v) for v in todo.values())
    def path(src):
        """shortest path from src to a node with an uncovered edge"""
        if todo[src]:
            return []
        q = collections.deque([src]); prev = {src: None}
        while q:
            n = q.popleft()
            for o, t in g[n]:
                if t not in prev:
                    prev[t] = (n, o)
                    if todo[t]:
                        p = []
                        while prev[t] is not None:
                            n2, o2 = prev[t]
                            p.append((o2, t)); t = n2
                        return p[::-1]
                    q.append(t)
        return None
    walks = []
    while left > 0:
        n = init; w = []
        while left > 0 and len(w) < maxlen:
            p = path(n)
            if p is None or (w and len(w) + len(p) >= maxlen):
                break
            for o, t in p:
                w.append(o); n = t
            o, t = todo[n].pop(); left -= 1
            w.append(o); n = t
        if not w:
            break
        walks.append(w)
        if limit and sum(map(len, walks)) > limit:
            break
    return walks

# ---------------------------------------------------------------- drivers
SANENV = {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:detect_stack_use_after_return=1:max_malloc_fill_size=1048576",
          "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=78",
          "TSAN_OPTIONS": "halt_on_error=1:exitcode=66:second_deadlock_stack=1:report_bugs=1"}

def crash_kind(rc, err):
    if "AddressSanitizer" in err:
        m = re.search(r"AddressSanitizer: ([\w-]+)", err)
        return "asan " + (m.group(1) if m else "")
    if "runtime error:" in err:
        return "ubsan " + re.search(r"runtime error: (.{0,80})", err).group(1)
    if "ThreadSanitizer" in err:
        m = re.search(r"ThreadSanitizer: ([^\n(]+)", err)
        return "tsan " + (m.group(1).strip() if m else "")
    if "Assertion" in err:
        return "assertion"
    return "exit %d" % rc

def run_driver(work, binary, lines, timeout=300, max_crashes=8, per_op_timeout=60):
    """Runs the script; returns the list of events (one per script line, in
    order; a crash gives a crash event and the rest of its segment is dropped).
    Each event remembers its script line in key _l (popped before TLC)."""
    events = []
    pos = 0
    crashes = 0
    base = os.path.join(work, os.path.basename(binary) + ".%d" % id(events))
    while pos < len(lines):
        sp, op = base + ".script", base + ".out"
        open(sp, "w").write("\n".join(lines[pos:]) + "\n")
        if os.path.exists(op):
            os.remove(op)
        env = dict(os.environ); env.update(SANENV)
        timed = False
        with open(base + ".err", "w") as ef:
            p = subprocess.Popen([binary, sp, op], stdout=ef, stderr=ef, env=env, start_new_session=True)
            try:
                rc = p.wait(timeout=timeout)
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL); p.wait()
                rc = -9; timed = True
        evs = []
        if os.path.exists(op):
            for ln in open(op, "rb").read().split(b"\n"):
                if not ln:
                    continue
                try:
                    evs.append(json.loads(ln.decode("latin-1")))
                except ValueError:
                    break
        for i, e in enumerate(evs):
            e["_l"] = pos + i
        events += evs
        done = pos + len(evs)
        err = open(base + ".err", errors="replace").read()
        if rc == 0 and done == len(lines):
            break
        if rc == 2 and not evs:
            raise ToolError("driver %s: %s" % (binary, err[-1000:]))
        if done >= len(lines):
            if rc != 0:   # failure after the last operation (e.g. a sanitizer exit code)
                events.append({"op": "crash", "during": "exit", "kind": crash_kind(rc, err), "_l": len(lines) - 1, "_err": err[-3000:]})
            break
        kind = "timeout" if timed else crash_kind(rc, err)
        events.append({"op": "crash", "during": lines[done].split(" ")[0], "kind": kind, "_l": done, "_err": err[-3000:]})
        crashes += 1
        if crashes >= max_crashes:
            break
        pos = done + 1
        while pos < len(lines) and not lines[pos].startswith("reset"):
            pos += 1
    return events

# ---------------------------------------------------------------- validation
def validate(work, module, cfg, events, shards=6, timeout=700, heap="3g"):
    """Trace validation with TLC. Returns (list of (index, prop, why), stats)."""
    segs = []
    for i, e in enumerate(events):
        if e["op"] == "reset" or not segs:
            segs.append([])
        segs[-1].append(i)
    shards = max(1, min(shards, len(segs), 1 + len(events) // 400))
    groups = [[] for _ in range(shards)]
    sizes = [0] * shards
    wt = [len(json.dumps(e)) for e in events] if events else []
    for s in sorted(segs, key=lambda s: -sum(wt[i] for i in s)):
        k = sizes.index(min(sizes))
        groups[k] += s
        sizes[k] += sum(wt[i] for i in s)
    bad = []
    stats = {"events": 0, "checked": 0, "skipped": 0, "segments": 0, "states": 0, "wall_s": 0}
    def one(k):
        idx = groups[k]
        if not idx:
            return [], None, None
        tp = os.path.join(work, "%s.trace.%d.%d" % (module, id(groups), k))
        with open(tp, "w") as f:
            for i in idx:
                f.write(json.dumps({a: b for a, b in events[i].items() if not a.startswith("_")}) + "\n")
        out, st = tlc(work, module, cfg, {"TRACE": tp}, 1, heap, timeout)
        m = re.search(r'<<\s*"CONSUMED",\s*(\d+),\s*(\d+),\s*(\d+),\s*(\d+),\s*(\d+)\s*>>', out)
        if not m or int(m.group(1)) != len(idx):
            raise ToolError("trace not consumed: " + module + "\n" + out[-2000:])
        b = [(idx[int(x.group(1)) - 1], x.group(2), x.group(3))
             for x in re.finditer(r'<<\s*"BAD",\s*(\d+),\s*"(\w+)",\s*"([^"]*)"\s*>>', out)]
        if len(set(x[0] for x in b)) != int(m.group(5)):
            raise ToolError("violations not read: " + module)
        os.remove(tp)
        return b, st, tuple(map(int, m.groups()))
    with cf.ThreadPoolExecutor(shards) as ex:
        for b, st, m in ex.map(one, range(shards)):
            bad += b
            if st:
                stats["states"] += st["distinct"]
                stats["events"] += m[0]; stats["checked"] += m[1]; stats["skipped"] += m[2]; stats["segments"] += m[3]
                stats["wall_s"] = max(stats["wall_s"], st["wall_s"])
    return sorted(set(bad)), stats
