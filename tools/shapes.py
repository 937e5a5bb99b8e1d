#!/usr/bin/env python3
"""Regenerates specs/shapes.json (loop kinds per function the invariants were written against) from /repo."""
import json, os, subprocess, glob, tempfile
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
INC = {"prelude", "model", "wrap"}
out = {}
for f in sorted(glob.glob(H + "/specs/*.rs")):
    u = os.path.basename(f)[:-3]
    if "//@fn " not in open(f).read():
        continue
    t = tempfile.mktemp()
    subprocess.run([H + "/vx/target/debug/vx", "gen", "--repo", "/repo", "--unit", f, "--out", t, "--map", t + ".m"], check=True)
    m = json.load(open(t + ".m"))
    if m["lost"]:
        print(u, m["lost"])
    out[u] = {x["id"]: x["shape"] for x in m["fns"] if x.get("shape")}
    os.remove(t); os.remove(t + ".m")
json.dump(out, open(H + "/specs/shapes.json", "w"), indent=1, sort_keys=True)
# names and shapes of the items as the contracts know them (renamed private items are found by them)
subprocess.run([H + "/vx/target/debug/vx", "baseline", "--repo", "/repo", "--out", H + "/specs/baseline.json"], check=True)
