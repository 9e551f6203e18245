#!/usr/bin/env python3
"""try.py [bug ids...] [--all]: apply each planted bug to /repo, run its property's check (with --all: every check),
undo it, and record in tools/caught.json which checks caught it."""
import json, os, subprocess, sys, time
verif = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = [a for a in sys.argv[1:] if not a.startswith("--")]
every = "--all" in sys.argv
path = os.path.join(verif, "tools", "caught.json")
caught = json.load(open(path)) if os.path.exists(path) else {}
ids = args or sorted(os.listdir(os.path.join(verif, "seeded")))
props = [c["property"] for c in json.load(open(os.path.join(verif, "MANIFEST.json")))["checks"]]
def git(*a): return subprocess.run(["git", "-C", "/repo", *a], capture_output=True, text=True)
assert not git("status", "--short").stdout.strip(), "/repo is not clean"
for b in ids:
    d = os.path.join(verif, "seeded", b)
    meta = json.load(open(os.path.join(d, "meta.json")))
    own = meta["property"]
    r = git("apply", os.path.join(d, "patch.diff"))
    assert r.returncode == 0, r.stderr
    try:
        hits = set(caught.get(b, []))
        for p in (props if every else [own]):
            t = time.time()
            r = subprocess.run([os.path.join(verif, "check.sh"), p, "quick"], capture_output=True, text=True, env=dict(os.environ, VERIF_SEED="1"))
            hit = r.returncode == 1 and f"VIOLATION property={p} " in r.stdout
            (hits.add if hit else hits.discard)(p)
            if p == own or r.returncode not in (0, 1):
                print(f"{b} {p}{' (own)' if p == own else ''}: exit {r.returncode} {'CAUGHT' if hit else 'missed'} {time.time()-t:.1f}s", [l for l in r.stdout.splitlines() if not l.startswith('VIOL')][-1:] , flush=True)
        caught[b] = sorted(hits)
        if every: print(f"{b} caught by {' '.join(sorted(hits))}", flush=True)
    finally:
        git("checkout", "--", ".")
    json.dump(caught, open(path, "w"), indent=1, sort_keys=True)
