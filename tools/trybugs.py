#!/usr/bin/env python3
"""Runs the checks against planted bugs: tools/trybugs.py [--all] [ids...]. Applies each to /repo, runs the matching check, restores. Not used by any check."""
import json, os, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, "seeded")
a = sys.argv[1:]
allc = "--all" in a
ids = [x for x in a if not x.startswith("-")] or sorted(os.listdir(S))
man = json.load(open(os.path.join(V, "MANIFEST.json")))
cmds = {c["property"]: c["quick_cmd"] for c in man["checks"]}
env = dict(os.environ, VERIF_SEED=os.environ.get("VERIF_SEED", "1"), VERIF_TIER="quick")
for i in ids:
    meta = json.load(open(os.path.join(S, i, "meta.json")))
    r = subprocess.run(["git", "-C", "/repo", "apply", os.path.join(S, i, "patch.diff")], capture_output=True, text=True)
    if r.returncode:
        print(i, "DOES NOT APPLY", r.stderr[:200], flush=True); continue
    try:
        for p in (sorted(cmds) if allc else [meta["property"]]):
            t = time.time()
            r = subprocess.run(cmds[p], shell=True, cwd=V, env=env, capture_output=True, text=True)
            lines = [l for l in r.stdout.splitlines() if l.strip()]
            own = p == meta["property"]
            if own or r.returncode != 0:
                print("%-34s %s %s rc=%d %.0fs %s" % (i, p, "CAUGHT" if r.returncode == 1 else ("MISSED" if r.returncode == 0 else "ERROR"), r.returncode, time.time() - t, (lines[-2] if len(lines) > 1 else lines[-1] if lines else "")[:260] if r.returncode else ""), flush=True)
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."])
