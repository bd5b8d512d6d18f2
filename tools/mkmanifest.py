"""writes MANIFEST.json: one entry per property with a check under sa/checks"""
import json
import os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
VG = "abstract interpretation into gated value graphs + global value numbering"
TRUST = ("Trusts the engine's model of Python and the numpy/scipy/cvxopt functions used (listed in DESIGN.md); real arithmetic, "
         "rounding not modelled; value numbers are compared under random field labellings (one-sided error below 1e-15 per obligation).")
TECH = {
    "C22": ("ownership typestate over clang's syntax tree (all branches, all failures of interface calls)", "Trusts the stated ownership, error and failure behaviour of the Python and numpy C interface functions (sa/own.py)."),
    "C24": ("scope, name and signature resolution over the syntax tree and a may-assign dataflow", "Trusts that the installed dependency versions are the supported ones; dependency names and signatures are inspected by importing the dependencies only."),
    "C10": ("typestate over abstract interpretation (all exits of the context manager)", None),
    "C13": ("guard analysis on gated value graphs (every return is dominated by the solver's success)", None),
}
NOTES = {}
try:
    exec(open(os.path.join(H, "tools", "manifest_notes.py")).read())
except FileNotFoundError:
    pass
NA = {}
exec(open(os.path.join(H, "tools", "not_applicable.py")).read())
checks, na = [], []
for l in open(os.path.join(H, "properties.jsonl")):
    d = json.loads(l)
    i = d["id"]
    if os.path.exists(os.path.join(H, "sa", "checks", i.lower() + ".py")):
        src = open(os.path.join(H, "sa", "checks", i.lower() + ".py")).read()
        ns = {}
        import ast
        for n in ast.parse(src).body:
            if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") == "DESC":
                ns["DESC"] = ast.literal_eval(n.value)
        t = TECH.get(i, (VG, None))[0]
        checks.append(dict(property=i, quick_cmd="python3 -m sa.run %s quick" % i, thorough_cmd="python3 -m sa.run %s thorough" % i,
                           technique=t, level="other", level_note=NOTES.get(i, ns.get("DESC", "") + " " + TRUST)))
    else:
        na.append(dict(property=i, reason=NA.get(i, "no check built yet")))
m = dict(version=1, setup_cmd="true", checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", [x["property"] for x in na])
