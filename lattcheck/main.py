"""Command line: decide one property on /repo's current source."""
import json
import os
import sys
import time

from .loader import AnalysisError, Program

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def registry():
    from .rules import alignment, caches, copies, depend, effects, isolation, lifecycle, moving, units
    reg = {
        "C01": effects.c01, "C02": effects.c02, "C03": effects.c03, "C04": effects.c04,
        "C05": caches.c05, "C06": alignment.c06, "C15": units.c15, "C20": depend.c20, "C21": depend.c21, "C16": units.c16,
        "C10": lifecycle.c10, "C12": lifecycle.c12, "C11": lifecycle.c11, "C13": lifecycle.c13,
        "C17": moving.c17, "C22": copies.c22, "C23": isolation.c23,
    }
    return reg


def load_known():
    path = os.path.join(VERIF, "known_findings.txt")
    out = {}
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("known:"):
                # known: property=<id> key=<rule|construct> :: text
                head, _, text = line[6:].partition("::")
                d = dict(x.split("=", 1) for x in head.split())
                out.setdefault(d["property"], {})[d["key"]] = text.strip()
    return out


def main(argv):
    pid = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    repo = os.environ.get("LATTCHECK_REPO", "/repo")
    t0 = time.time()
    reg = registry()
    try:
        p = Program(repo)
        R = reg[pid](p, tier)
    except AnalysisError as e:
        print(f"ANALYSIS-ERROR property={pid} {e}")
        return 3
    known = load_known().get(pid, {})
    viol, listed = [], []
    for k, f in sorted(R.findings.items()):
        (listed if k.replace(" ", "_") in known else viol).append(f)
    fns = sorted(R.cov.pop("_functions", set()))
    lim = sorted(R.cov.pop("_limits", set()))
    rep = os.path.join("/verif/evidence", f"{pid}.report.json") if VERIF == "/verif" else os.path.join(VERIF, "evidence", f"{pid}.report.json")
    os.makedirs(os.path.dirname(rep), exist_ok=True)
    with open(rep, "w") as fh:
        json.dump([f.as_dict() for f in viol], fh, indent=1)
    cov = dict(R.cov)
    cov["functions_analysed"] = len(fns)
    cov["source_modules"] = len(p.modules)
    cov["source_digest"] = p.digest.hexdigest()[:16]
    cov["inlining_limits_hit"] = lim
    cov["known_findings"] = len(listed)
    cov["explanation"] = (reg[pid].__doc__ or "").strip() + " Decided by abstract interpretation of the syntax trees of /repo/lattpy; counts are obligations examined in this run."
    ev = dict(property=pid, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1")), level="other", coverage=cov,
              wall_s=round(time.time() - t0, 3), violations=len(viol))
    with open(os.path.join(os.path.dirname(rep), f"{pid}.json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    for f in listed:
        print(f"KNOWN-FINDING: property={pid} {f.where}: {f.text}")
    for f in viol:
        print(f"VIOLATION property={pid} replay={rep}")
        print(f"  [{f.rule}] {f.where}\n    {f.text}" + (f"\n    via {f.chain}" if f.chain else ""))
    nums = {k: v for k, v in cov.items() if isinstance(v, int)}
    print(f"{pid} {tier}: {len(viol)} violation(s), {len(listed)} known; " + ", ".join(f"{k}={v}" for k, v in nums.items()) + f" ({ev['wall_s']} s)")
    return 1 if viol else 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
