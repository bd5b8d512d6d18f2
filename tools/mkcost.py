"""tools/cost.json from the last runs' output: python3 tools/mkcost.py < runall.log"""
import json, os, re, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
c = {}
for l in sys.stdin:
    m = re.match(r"(C\d\d) rc=\d+ C\d\d: (\d+) obligations, (\d+) functions.*, ([\d.]+) s", l)
    if m:
        c[m.group(1)] = [int(m.group(2)), int(m.group(3)), round(float(m.group(4)) / 5) * 5 or 5]
json.dump(c, open(os.path.join(H, "tools", "cost.json"), "w"), indent=0, sort_keys=True)
