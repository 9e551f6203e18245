#!/usr/bin/env python3
"""plant.py [ids...]: (re)generate /verif/seeded/<id>/ from tools/bugs.py and confirm each planted bug:
it builds, passes the existing tests, and its demonstration passes without it and fails with it.
Works in scratch copies under /tmp which it removes.  --no-check only writes the folders."""
import json, os, shutil, subprocess, sys, tempfile
here = os.path.dirname(os.path.abspath(__file__))
verif = os.path.dirname(here)
sys.path.insert(0, here)
from bugs import BUGS, PRELUDE, DEMO_SH

def sh(cmd, cwd, timeout=900):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, timeout=timeout)

def edit(root, b):
    for file, old, new, *nth in b["edits"]:
        p = os.path.join(root, file)
        s = open(p).read()
        n = s.count(old)
        if nth:
            parts = s.split(old)
            i = nth[0]
            assert n > i, (b["id"], file, "occurrences", n)
            s = old.join(parts[:i + 1]) + new + old.join(parts[i + 1:])
        else:
            assert n == 1, (b["id"], file, "occurrences", n)
            s = s.replace(old, new)
        open(p, "w").write(s)

def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    check = "--no-check" not in sys.argv
    todo = [b for b in BUGS if not args or b["id"] in args]
    tmp = tempfile.mkdtemp(prefix="plant", dir="/tmp")
    bad = []
    try:
        base = os.path.join(tmp, "repo")
        shutil.copytree("/repo", base, symlinks=True)
        sh("git checkout -q -- . && git clean -qfd", base)
        for b in todo:
            sh("git checkout -q -- .", base)
            d = os.path.join(verif, "seeded", b["id"])
            os.makedirs(d, exist_ok=True)
            edit(base, b)
            diff = sh("git diff", base).stdout
            assert diff, b["id"]
            open(os.path.join(d, "patch.diff"), "w").write(diff)
            open(os.path.join(d, "main.rs"), "w").write(PRELUDE + b["demo"].strip() + "\n")
            open(os.path.join(d, "demo.sh"), "w").write(b.get("demo_sh", DEMO_SH))
            os.chmod(os.path.join(d, "demo.sh"), 0o755)
            shutil.copy(os.path.join(here, "demo.lock"), os.path.join(d, "Cargo.lock.txt"))
            json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
                      open(os.path.join(d, "meta.json"), "w"), indent=1)
            if not check:
                continue
            r = sh("cargo test -q --offline --workspace --no-fail-fast", base)
            tests = "pass" if r.returncode == 0 else "FAIL"
            if tests == "FAIL":
                print(r.stdout[-1500:], r.stderr[-1500:])
            w = sh("timeout 280 bash " + os.path.join(d, "demo.sh"), base)
            with_ = w.returncode
            sh("git checkout -q -- .", base)
            o = sh("timeout 280 bash " + os.path.join(d, "demo.sh"), base)
            ok = tests == "pass" and with_ not in (0,) and o.returncode == 0
            print(f"{b['id']:6} {b['property']} tests:{tests} demo clean:{o.returncode} patched:{with_} {'ok' if ok else 'BAD'}", flush=True)
            print("      ", (w.stderr.strip().splitlines() or ["?"])[-2:][0][:180])
            if o.returncode: print(o.stderr[-1500:])
            if not ok: bad.append(b["id"])
    finally:
        shutil.rmtree(tmp)
    if bad: print("BAD:", bad); sys.exit(1)
main()
