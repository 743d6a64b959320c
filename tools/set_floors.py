#!/usr/bin/env python3
"""Development aid: set every check's event floors (MIN) to 12 % of what the last quick run observed."""
import json, os, re
CAP = {("C01", "oracle:args-unchanged"): 5000, ("C02", "switches"): 5000, ("C03", "oracle:frame-values"): 2000, ("C04", "oracle:windowing"): 500}  # counters that include nested calls
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for i in range(1, 29):
    k = f"C{i:02d}"
    p = f"{ROOT}/harness/props/{k.lower()}.py"
    ev = json.load(open(f"{ROOT}/evidence/{k}.json"))
    if ev["tier"] != "quick" or ev["violations"]:
        print("skip", k)
        continue
    obs = ev["coverage"]["observed"]
    s = open(p).read()
    m = re.search(r"^MIN = (\{.*?\})$", s, flags=re.M)
    old = eval(m.group(1))
    new = {}
    for q in old:
        v = obs.get(q, 0)
        d = int(v * 0.12)
        new[q] = d if d < 100 else int(float(f"{d:.2g}"))
        new[q] = min(new[q], CAP.get((k, q), 1 << 60))
        if v == 0:
            print("ZERO", k, q)
    s = s.replace(m.group(0), "MIN = " + json.dumps(new))
    open(p, "w").write(s)
    print(k, new)
