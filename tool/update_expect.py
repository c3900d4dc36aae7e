#!/usr/bin/env python3
"""Development only: records in expect.json which obligations are reachable on the current tree (from the last runs)."""
import json, os, sys, glob
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(ROOT, "tool", "expect.json")
e = json.load(open(p))
for f in sorted(glob.glob(os.path.join(ROOT, "build", "out", "P*.json"))):
    k = os.path.basename(f)[:-5]
    if len(sys.argv) > 1 and k not in sys.argv[1:]: continue
    r = json.load(open(f))
    bad = [c for c in r["cover"] if c[2] == "unsat"]
    if bad: print("VACUOUS", k, bad)
    e[k] = sorted([h, l] for h, l, a in r["cover"] if a != "unsat")
    print(k, len(e[k]))
with open(p, "w") as f:
    f.write("{\n" + ",\n".join('"%s": [\n%s\n]' % (k, ",\n".join(" " + json.dumps(x) for x in e[k])) for k in sorted(e)) + "\n}\n")
