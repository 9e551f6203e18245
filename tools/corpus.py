#!/usr/bin/env python3
"""Writes the hand-made cases of /verif/corpus: containers of more entries than fit in 16 bits, and
collision lists longer than the generators make.  (The fix-*.json files there are shrunk failures of
the defects found, saved as the checks wrote them.)"""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + "/corpus"
def put(pid, name, what, case):
    os.makedirs(f"{ROOT}/{pid}", exist_ok=True)
    json.dump({"property": pid, "what": what, "case": case}, open(f"{ROOT}/{pid}/{name}.json", "w"), separators=(",", ":"))
def op(kind, k=0, src=0, b=0): return {"kind": kind, "k": k, "src": src, "b": b}
def bulk(one, both, right, par=False, flip=False): return {"one": one, "both": both, "right": right, "par": par, "flip": flip}
UNCH, LEFT, RIGHT, TRANS, REM = None, None, None, None, None
def load_kinds():
    import re
    global UNCH, LEFT, RIGHT, TRANS, REM
    src = open(os.path.dirname(ROOT) + "/harness/src/dict.rs").read() + open(os.path.dirname(ROOT) + "/harness/src/probe.rs").read() + open(os.path.dirname(ROOT) + "/harness/src/gens.rs").read()
    v = {n: int(re.search(r"const %s: u8 = (\d+)" % n, src).group(1)) for n in ("UNCH", "LEFT", "RIGHT", "TRANS", "REM")}
    UNCH, LEFT, RIGHT, TRANS, REM = (v[n] for n in ("UNCH", "LEFT", "RIGHT", "TRANS", "REM"))
load_kinds()
T = lambda *v: {"Table": list(v)}
CROWD = {"pool": [7], "keys": [[0, 0, 0]] * 3 + [[0, 126, 1], [0, 5, 9]], "wide": 70000}
LONG = {"pool": [12345], "keys": [[0, 0, 0]] * 300 + [[0, 3, 1], [0, 3, 1], [0, 127, 1]], "wide": 0}
BULK = [bulk(T(UNCH, TRANS, REM), T(LEFT, RIGHT, TRANS, REM, UNCH), T(UNCH, REM)), bulk(T(UNCH), T(RIGHT), T(TRANS), True, True)]
def hist(m, uni, fill, bulks, cfg=0):
    ops = [op("Fill"), op("Remove", 40), op("Replace", 41), op("Insert", 40), op("Remove", 1, 1), op("Replace", 5, 2), op("Find", 77), op("Remove", 65000), op("Thin", 50, 0, 200)]
    if bulks: ops += [op("Transform", 0, 0, 0), op("Join", 0, 1, 2), op("Join", 0, 3, 1)]
    return {"cfg": cfg, "map": m, "uni": uni, "fill": fill, "ops": ops, "bulk": BULK if bulks else []}
def pair(m, uni, fill, shared, variant, par):
    return {"cfg": 0, "map": m, "uni": uni, "fill": fill, "base": [], "shared": shared,
            "left": [[2, 7], [2, 9], [1, 100], [0, 69999]], "right": [[2, 8], [1, 100], [1, 101], [0, 69998]] + [[2, i] for i in range(300, 340)],
            "bulk": bulk(T(UNCH, TRANS, REM), T(LEFT, RIGHT, TRANS, REM, UNCH), T(UNCH, TRANS, REM), par, False),
            "mute": T(TRANS, TRANS, REM), "mute2": T(TRANS), "mute3": T(TRANS, REM), "variant": variant}
for pid, bulks in (("P01", 0), ("P02", 0), ("P03", 1), ("P04", 0), ("P06h", 0), ("P07", 1), ("P21", 0)):
    if pid == "P06h": continue
    for m in ((True,) if pid == "P01" else (False,) if pid == "P02" else (True, False)):
        put(pid, f"crowd-{'map' if m else 'set'}", "70,000 entries", hist(m, CROWD, 69990, bulks))
        put(pid, f"long-{'map' if m else 'set'}", "a collision list of 300", hist(m, LONG, 290, bulks))
for pid in ("P08", "P09", "P10", "P11", "P12", "P13", "P14", "P15"):
    for m in (True, False):
        n = "map" if m else "set"
        put(pid, f"crowd-{n}", "70,000 entries", pair(m, CROWD, 69990, m, 3 if m else 4, not m))
        put(pid, f"long-{n}", "a collision list of 300", pair(m, LONG, 290, m, 3 if m else 4, not m))
for m in (True, False):
    n = "map" if m else "set"
    for pid in ("P11", "P12"):
        for v in range(4):
            for kind, v0 in (("other", 0), ("kin", 16), ("heir", 24), ("self", 28)):
                put(pid, f"long-{kind}{v}-{n}", "a collision list of 300", pair(m, LONG, 290, v % 2 == 0, v0 + v, v % 3 == 0))
        put(pid, f"crowd-kin-{n}", "70,000 entries", pair(m, CROWD, 69990, m, 16 if m else 17, not m))
    for v in range(8):
        q = pair(m, CROWD, 69990, v % 2 == 0, v, v % 3 == 0)
        lq = pair(m, LONG, 290, v % 2 == 0, v, v % 3 == 0)
        for pid in ("P17", "P18", "P24"):
            if v in (0, 3, 5): put(pid, f"crowd-bulk{v}-{n}", "70,000 entries", {"Bulk": q})
            put(pid, f"long-bulk{v}-{n}", "a collision list of 300", {"Bulk": lq})
    for pid, wrap in (("P17", "Points"), ("P18", "History"), ("P24", "Points")):
        put(pid, f"crowd-points-{n}", "70,000 entries", {wrap: hist(m, CROWD, 69990, wrap == "History")})
        put(pid, f"long-points-{n}", "a collision list of 300", {wrap: hist(m, LONG, 290, wrap == "History")})
    put("P24", f"large-{n}", "60,000 entries", {"Large": {"cfg": 0, "map": m, "n": 60000, "group": 12, "keys": [[i, 7919 * i % 65536] for i in range(40)], "seed": 99}})
    for law in range(12):
        put("P25", f"crowd-law{law}-{n}", "20,000 entries", {"pair": pair(m, dict(CROWD, wide=20000), 19990, law % 2 == 0, law, law % 3 == 0), "third": [[0, i] for i in range(60)], "closures": 255 if law % 2 else 90, "law": law})
        put("P25", f"long-law{law}-{n}", "a collision list of 300", {"pair": pair(m, LONG, 290, law % 2 == 1, law, law % 3 == 1), "third": [[0, i] for i in range(60)], "closures": 170 if law % 2 else 255, "law": law})
    for v in range(8):
        put("P28", f"crowd-bulk{v}-{n}", "70,000 entries", {"Bulk": pair(m, CROWD, 69990, v % 2 == 0, v, v % 3 == 0)})
        put("P28", f"long-bulk{v}-{n}", "a collision list of 300", {"Bulk": pair(m, LONG, 290, v % 2 == 0, v, v % 3 == 0)})
        put("P26", f"long-bulk{v}-{n}", "a collision list of 300", {"pair": pair(m, LONG, 290, v % 2 == 0, v, v % 3 == 0), "second": BULK[1], "after": 1})
        put("P27", f"long-bulk{v}-{n}", "a collision list of 300", {"pair": pair(m, LONG, 290, v % 2 == 0, v, v % 3 == 0), "second": BULK[1], "point": None, "inner": [[0, 6, 0], [150, 1, 7], [300, 2, 9], [301, 6, 0]]})
    put("P28", f"crowd-{n}", "70,000 entries", {"History": [hist(m, CROWD, 69990, True), 0]})
    put("P28", f"long-{n}", "a collision list of 300", {"History": [hist(m, LONG, 290, True), 0]})
    put("P26", f"crowd-{n}", "70,000 entries", {"pair": pair(m, CROWD, 69990, m, 3 if m else 2, True), "second": BULK[1], "after": 1})

# The checks whose cases have shapes of their own.
SOME = dict(CROWD, wide=3000)
for m in (True, False):
    n = "map" if m else "set"
    for pts in (True, False):
        for name, uni, fill, uni2 in (("crowd", SOME, 2990, dict(SOME, pool=[0xDEADBEEF12345678])),
                                      ("long", LONG, 290, {"pool": [3], "keys": [[0, i % 128, 1 + i // 128] for i in range(303)], "wide": 0})):
            put("P05", f"{name}-{'points' if pts else 'all'}-{n}", "3,000 entries, or a collision list of 300", {"h": hist(m, uni, fill, not pts), "cfg2": 7 if pts else 4, "uni2": uni2, "points": pts})
    put("P16", f"crowd-{n}", "3,000 entries", hist(m, SOME, 2990, True))
    put("P16", f"long-{n}", "a collision list of 300", hist(m, LONG, 290, True))
    for name, uni, fill in (("crowd", SOME, 2990), ("long", LONG, 290)):
        threads = [[[o, 11 * i, i % 3] for i, o in enumerate((0, 2, 3, 5, 6, 7, 8, 5, 9, 4))], [[o, 11 * i + 5, i % 2] for i, o in enumerate((8, 5, 3, 1, 7, 6, 2, 5))], [[5, 40 * i, 0] for i in range(4)]]
        for v, script in enumerate(([], [0, 2, 1, 1, 4, 1, 1, 1, 1, 1, 2, 1, 1])):
            put("P22", f"{name}-{'scripted' if script else 'free'}-{n}", "3,000 entries, or a collision list of 300", {"pair": pair(m, uni, fill, True, 0, True), "threads": threads, "script": script, "keep": v == 0, "rounds": 3})
        for v in range(8):
            put("P23", f"{name}-bulk{v}-{n}", "3,000 entries, or a collision list of 300", {"pair": pair(m, uni, fill, v % 2 == 0, v, v % 3 == 0), "point": None, "at": 150 + 37 * v})
        for v in range(6):
            put("P23", f"{name}-point{v}-{n}", "3,000 entries, or a collision list of 300", {"pair": pair(m, uni, fill, False, 0, False), "point": [v, 7 * v + 3], "at": 100 + v})
        steps = [{"kind": 5 * i + 1, "l": i % 4, "r": (i * 3) % 5, "b": i, "edits": [[i % 3, 17 * i]]} for i in range(24)]
        put("P29", f"{name}-{n}", "3,000 entries, or a collision list of 300", {"cfg": 0, "map": m, "uni": uni, "start": 255, "steps": steps, "bulk": BULK, "mutes": [[T(TRANS, TRANS, REM), T(TRANS), T(TRANS, REM)]]})
for keys in range(3):
    for conf in range(13):
        put("P06", f"many-{keys}-{conf}", "250 keys and 2,000 operations", {"conf": conf, "keys": keys, "pool": [i * i * i - 400 if i % 3 else i for i in range(250)], "ops": [[0 if i < 260 else (i * 7 // 3) % 4, (i * 37) % 251] for i in range(2000)]})
for m in (True, False):
    n = "map" if m else "set"
    for cfg in (0, 4, 8): put("P31", f"long-points{cfg}-{n}", "a collision list of 300", {"Points": hist(m, LONG, 290, False, cfg)})
    put("P31", f"crowd-points-{n}", "70,000 entries", {"Points": hist(m, CROWD, 69990, False, 2 if m else 6)})
    put("P31", f"long-all-{n}", "a collision list of 300", {"All": hist(m, LONG, 290, True, 1 if m else 3)})
for m in (True, False):
    # First of all: whatever takes time on large containers makes the cases behind it take ages.
    put("P24", f"a-time-{'map' if m else 'set'}", "12,000 entries", {"Time": {"cfg": 0, "map": m, "n": 12000, "seed": 3}})
