#!/usr/bin/env python
"""check.py <property> [quick|thorough] : decides one property on /repo's current sources.

exit 0: every obligation holds (known findings are printed); exit 1: VIOLATION line printed;
exit 2: the analysis could not give an answer."""
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
sys.path.insert(0, os.path.join(HERE, "hdl"))
sys.path.insert(0, os.path.join(HERE, "csrc"))

from props import PROPS                                  # noqa: E402
from lib import run_units                                # noqa: E402


def known(pid):
    out = []
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if not line.startswith("finding: "):
                continue
            head, _, what = line[len("finding: "):].partition(" :: ")
            f = dict(x.split("=", 1) for x in head.split(" | "))
            f["what"] = what
            if f.get("property") == pid:
                out.append(f)
    return out


def match(f, b):
    return f["rule"] == b["rule"] and f["construct"] == b["construct"] and \
        ("unit" not in f or f["unit"] == b["unit"])


def selftest():
    """the tools are there and the machinery tells a right module from a wrong one"""
    import nmigen                                      # noqa: F401
    import selftest as st
    return st.main()


def main():
    if sys.argv[1] == "--selftest":
        return selftest()
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    prop = PROPS[pid]
    t0 = time.time()
    units = prop["units"](tier)
    res = run_units(units, jobs=int(os.environ.get("VERIF_JOBS", "8")))
    bad, errors, checked, stats, samples = [], [], {}, {}, []
    for r in res:
        if "error" in r:
            errors.append((r["unit"], r["error"]))
            continue
        bad += r["bad"]
        for k, v in r["checked"].items():
            checked[k] = checked.get(k, 0) + v
        for k, v in r["stats"].items():
            stats[k] = stats.get(k, 0) + v
        samples += ["%s: %s" % (r["unit"], s) for s in r["samples"]]
    kf = known(pid)
    new, seen = [], []
    for b in bad:
        for f in kf:
            if match(f, b):
                if f not in seen:
                    seen.append(f)
                break
        else:
            new.append(b)
    evdir = os.path.join(HERE, "evidence")
    os.makedirs(evdir, exist_ok=True)
    step = max(1, len(samples) // 12)
    ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
          "level": prop.get("level", "other"),
          "coverage": {
              "explanation": prop["technique"],
              "units_analysed": len(res), "obligations_by_rule": checked,
              "obligations": sum(checked.values()),
              "discharged": sum(checked.values()) - len(bad),
              "analysed": stats, "samples": samples[::step][:12],
              "known_findings": [f["what"] for f in seen],
              "not_answered": [u for u, _ in errors]},
          "assumptions": prop.get("assumptions", []),
          "wall_s": round(time.time() - t0, 2), "violations": len(new)}
    with open(os.path.join(evdir, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for f in seen:
        print("KNOWN-FINDING: property=%s %s" % (pid, f["what"]))
    print("%s %s: %d units, %d obligations, %d findings (%d known), %d unanswered, %.1fs"
          % (pid, tier, len(res), sum(checked.values()), len(bad), len(bad) - len(new), len(errors),
             time.time() - t0))
    if new:
        rp = os.path.join(evdir, pid + ".violation.txt")
        with open(rp, "w") as f:
            for b in new:
                f.write("rule: %(rule)s\nconstruct: %(construct)s\nunit: %(unit)s\n%(detail)s\n\n" % b)
        for b in new[:8]:
            print("  [%s] %s: %s" % (b["rule"], b["construct"], str(b["detail"])[:600]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    if errors:
        for u, e in errors:
            print("NO ANSWER %s: %s" % (u, e))
        return 2
    if not sum(checked.values()):
        print("NO ANSWER: nothing was analysed")
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
