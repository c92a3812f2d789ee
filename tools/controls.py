#!/usr/bin/env python3
"""Runs checks against behaviour-preserving rewrites of s2a-core (tools/refactor/*.diff).
usage: controls.py [C01 C02 ...]      every named check (default: all) has to stay quiet."""
import os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "bin"))
import check
props = sys.argv[1:] or sorted(check.FAMILIES)
bad = 0
for d in sorted(os.listdir(os.path.join(HERE, "tools", "refactor"))):
    tmp = tempfile.mkdtemp(prefix="controls-")
    try:
        repo = os.path.join(tmp, "repo")
        subprocess.run(["git", "clone", "-q", os.environ.get("S2A_REPO", "/repo"), repo], check=True)
        subprocess.run(["git", "-C", repo, "apply", os.path.join(HERE, "tools", "refactor", d)], check=True)
        env = dict(os.environ, S2A_REPO=repo, S2A_BUILD=os.path.join(tmp, "build"))
        for p in props:
            r = subprocess.run([sys.executable, os.path.join(HERE, "bin", "check.py"), p], env=env, capture_output=True, text=True)
            print(d, p, "quiet" if r.returncode == 0 else "rc %d %s" % (r.returncode, r.stdout[-600:] + r.stderr[-300:]), flush=True)
            bad |= r.returncode != 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
sys.exit(1 if bad else 0)
