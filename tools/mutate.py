#!/usr/bin/env python3
"""mutate.py N [--seed S] [--only REGEX]: random small mutants of /repo/src (scratch copies under /tmp/mut).
Keeps mutants that build and pass the existing tests, runs the checks on them in groups, most general
first, and logs to /tmp/mut/log.jsonl which check caught each, or that none did."""
import json, os, random, re, shutil, subprocess, sys, time
ROOT = "/tmp/mut"
REPO, VER = ROOT + "/repo", ROOT + "/verif"
GROUPS = [["p07", "p10", "p16"], ["p11", "p12", "p09", "p13"], ["p01", "p02", "p03", "p04", "p05", "p06", "p19", "p20"],
          ["p08", "p14", "p15", "p17", "p18", "p21"], ["p22", "p23", "p24", "p25"], ["p26", "p27", "p28", "p29"]]
SWAPS = [("UnchangedL(", "UnchangedR("), ("UnchangedR(", "UnchangedL("), ("UnchangedLR(", "UnchangedL("), ("UnchangedLR(", "UnchangedR("),
         ("left_op", "right_op"), ("right_op", "left_op"), ("unchangedl", "unchangedr"), ("unchangedr", "unchangedl"),
         ("true", "false"), ("false", "true"), (" && ", " || "), (" || ", " && "), (" == ", " != "), (" != ", " == "),
         ("depth + 1", "depth"), (" + 1", ""), (" - 1", ""), (".flip()", ""), ("Less", "Greater"), ("Greater", "Less"),
         ("reduce_op(&reduced, &r)", "r"), ("reduce_op(&reduced, &r)", "reduced"), ("left.unwrap()", "right.unwrap()"),
         (" + ", " - "), ("reduce_op(&lr, &rr)", "lr"), ("reduce_op(&lr, &rr)", "rr"), ("reduce_op(&rl, &rr)", "rl"), ("reduce_op(&rl, &rr)", "rr"),
         ("size += 1", "size += 2"), ("this.size()", "right.size()"), ("!flipped", "*flipped"), (".size()", ".size() + 1"),
         ("NotFound", "Found"), ("Removed(", "Unchanged("), ("Unchanged(", "Removed("), ("swap_remove", "remove"), (".clone(), ", ".clone(), "),
         ("this_hash == right_hash", "true"), ("this_flag == right_flag", "true"), (" >> ", " << "), (" << ", " >> "), (" < ", " <= "), (" > ", " >= "),
         ("left_op.clone()", "right_op.clone()"), ("right_op.clone()", "left_op.clone()"), ("snode.key()", "this.key()"), ("lnode.size()", "this.size()")]
def sh(cmd, cwd, timeout):
    env = dict(os.environ, CARGO_NET_OFFLINE="true", VERIF_DIR=VER, VERIF_SEED="1", PBT_SCALE=os.environ.get("PBT_SCALE", "0.34"))
    env.pop("RUSTFLAGS", None)
    try:
        r = subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, timeout=timeout, env=env, errors="replace")
        return r.returncode, r.stdout + r.stderr
    except subprocess.TimeoutExpired:
        return 124, "timeout"
def setup():
    os.makedirs(ROOT, exist_ok=True)
    subprocess.run(f"rm -rf {REPO} {VER}/harness/src && mkdir -p {VER}/harness && cp -a /repo {REPO} && cd {REPO} && git checkout -q -- . && cp -a /verif/harness/src /verif/harness/Cargo.* {VER}/harness/ && sed -i 's#\"/repo\"#\"{REPO}\"#' {VER}/harness/Cargo.toml", shell=True, check=True)
    assert REPO in open(VER + "/harness/Cargo.toml").read()
def candidates(only):
    out = []
    for f in ["src/bit_indexed_array.rs", "src/flag.rs", "src/hash_trie.rs", "src/map.rs", "src/set.rs", "src/traits.rs", "src/transformations.rs", "src/results.rs",
              "src/node/cnode.rs", "src/node/lnode.rs", "src/node/mnode.rs", "src/node/snode.rs"]:
        if only and not re.search(only, f): continue
        lines = open(REPO + "/" + f).read().split("\n")
        for i, l in enumerate(lines):
            if "#[cfg(test)]" in l: break
            s = l.strip()
            if not s or s.startswith("//") or s.startswith("use ") or " fn " in l or s.startswith("fn ") or s.startswith("where") or s.startswith("impl") or re.match(r"^[A-Za-z ]*Op: Fn|^[A-Z]\w*: ", s): continue
            for a, b in SWAPS:
                if a == b: continue
                for m in re.finditer(re.escape(a), l):
                    out.append((f, i, l, l[:m.start()] + b + l[m.end():]))
            if re.match(r"^(size|reduced|unchanged\w*|bits_t|next|r) (\+?=) .*;$", s):
                out.append((f, i, l, ""))
    return out
def one(f, i, new, checks):
    """mutate.py --one FILE LINE NEW CHECKS...: does any of these checks notice this line changed?"""
    setup()
    p = REPO + "/" + f
    lines = open(p).read().split("\n"); print("old:", lines[i - 1].strip()); lines[i - 1] = new
    open(p, "w").write("\n".join(lines))
    print("tests:", sh("cargo test -q --offline --lib", REPO, 120)[0])
    for b in checks:
        rc, o = sh(f"CARGO_TARGET_DIR={VER}/harness/target cargo build -q --offline --locked --bin {b}", VER + "/harness", 900)
        if rc: print(o[-1500:])
        print(b, *sh(f"{VER}/harness/target/debug/{b} --tier quick", VER, 400), flush=True)
def main():
    if sys.argv[1] == "--one":
        return one(sys.argv[2], int(sys.argv[3]), sys.argv[4], sys.argv[5:])
    n = int(sys.argv[1])
    seed = int(sys.argv[sys.argv.index("--seed") + 1]) if "--seed" in sys.argv else 1
    only = sys.argv[sys.argv.index("--only") + 1] if "--only" in sys.argv else None
    setup()
    c = candidates(only)
    random.Random(seed).shuffle(c)
    print(len(c), "candidates", flush=True)
    log = open(ROOT + "/log.jsonl", "a")
    tgt = f"CARGO_TARGET_DIR={VER}/harness/target"
    done = 0
    for f, i, old, new in c:
        if done >= n: break
        p = REPO + "/" + f
        src = open(p).read()
        lines = src.split("\n"); assert lines[i] == old
        lines[i] = new
        open(p, "w").write("\n".join(lines))
        rec = dict(file=f, line=i + 1, old=old.strip()[:230], new=new.strip()[:230])
        try:
            rc, o = sh("cargo test -q --offline --lib", REPO, 120)
            if rc != 0:
                continue   # does not build, or the tests notice
            done += 1
            t = time.time()
            for g in GROUPS:
                rc, o = sh(f"{tgt} cargo build -q --offline --locked " + " ".join("--bin " + b for b in g), VER + "/harness", 900)
                if rc != 0:
                    rec["caught"] = "build"; break
                for b in g:
                    rc, o = sh(f"{VER}/harness/target/debug/{b} --tier quick", VER, 400)
                    if rc == 1 and "VIOLATION" in o:
                        rec["caught"] = b; rec["msg"] = o.split("\n")[0][:160]; break
                    if rc not in (0, 1):
                        rec.setdefault("odd", []).append([b, rc, o[-200:]])
                if "caught" in rec: break
            rec["t"] = round(time.time() - t)
            log.write(json.dumps(rec) + "\n"); log.flush()
            print(("caught " + rec["caught"]) if "caught" in rec else "SURVIVED", f, i + 1, rec["old"][:100], "=>", rec["new"][:100], rec.get("odd", ""), rec["t"], flush=True)
        finally:
            open(p, "w").write(src)
main()
