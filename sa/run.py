"""python3 -m sa.run C01 [quick|thorough]"""
import importlib
import json
import os
import sys
import time

sys.setrecursionlimit(20000)


def main(argv):
    import threading
    threading.stack_size(512 * 1024 * 1024)
    rc = []
    t = threading.Thread(target=lambda: rc.append(main2(argv)))
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(rc[0] if rc else 0)


def load_known():
    p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.txt")
    known = {}
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("known:"):
                d = dict(x.split("=", 1) for x in line[6:].split("|")[0].split() if "=" in x)
                known[(d["property"], d["key"])] = line.split("|", 1)[1].strip() if "|" in line else ""
    return known


def main2(argv):
    from . import check
    pid = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = os.environ.get("VERIF_SEED", "1")
    ck = check.Ck(pid, tier, seed)
    t0 = time.time()
    try:
        mod = importlib.import_module("sa.checks." + pid.lower())
        ck.guarded("check", lambda: mod.check(ck))
        ck.hist.finish()
        desc = mod.DESC
    except Exception as e:
        ck.unknown("check", "%s: %s" % (type(e).__name__, e))
        desc = ""
    known = load_known()
    ev = os.path.join(check.HERE, "evidence")
    os.makedirs(ev, exist_ok=True)
    new = [v for v in ck.violations if (pid, v["key"]) not in known]
    old = [v for v in ck.violations if (pid, v["key"]) in known]
    dis = len(ck.obligations)
    data = {
        "property": pid,
        "tier": tier if tier in ("quick", "thorough") else "quick",
        "level": "other",
        "coverage": {
            "explanation": desc,
            "obligations": dis,
            "obligations_undecided": len(ck.undecided),
            "functions_analysed": sorted(ck.visited),
            "n_functions": len(ck.visited),
            "call_sites": len(ck.callsites),
            "labellings_evaluated": ck.n_lab,
            "engine": ck.stats,
            "rules": sorted(set(o["rule"] for o in ck.obligations)),
            "where": sorted(set(o["where"] for o in ck.obligations if o["where"])),
            "undecided": ck.undecided[:50],
            "notes": ck.notes,
        },
        "seed": int(seed) if seed.lstrip("-").isdigit() else 1,
        "wall_s": round(time.time() - t0, 2),
        "violations": len(new),
        "violation_details": new,
        "known_findings": [v["key"] for v in old],
    }
    with open(os.path.join(ev, pid + ".json"), "w") as f:
        json.dump(data, f, indent=1)
    for v in old:
        print("KNOWN-FINDING: property=%s %s" % (pid, known[(pid, v["key"])] or v["what"]))
    print("%s: %d obligations, %d functions analysed, %d call sites, %d undecided, %.1f s" % (
        pid, dis, len(ck.visited), len(ck.callsites), len(ck.undecided), time.time() - t0))
    for u in ck.undecided[:6]:
        print("  undecided %s: %s" % (u["key"], u["why"][:220]))
    if new:
        rp = os.path.join(ev, "%s.violation.json" % pid)
        with open(rp, "w") as f:
            json.dump(new, f, indent=1)
        for v in new[:4]:
            print("  %s: [%s] %s" % (v["where"], v["key"], v["what"][:330]))
        if len(new) > 4:
            print("  ... %d more in the replay file" % (len(new) - 4))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    return 0


if __name__ == "__main__":
    main(sys.argv[1:])
