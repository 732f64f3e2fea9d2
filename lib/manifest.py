"""Writes MANIFEST.json from the catalogue and the table of checks."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE + "/lib")
from catalog import P
from checks import CHECKS, NOT_APPLICABLE, LEVEL_NOTES

TECH = {
    "asan": "AddressSanitizer+UBSan", "asan1": "AddressSanitizer+UBSan", "asandbg": "AddressSanitizer+UBSan (NF_DEBUG)",
    "tsan": "ThreadSanitizer", "tsan0": "ThreadSanitizer", "plain0": "plain", "plain": "plain", "opt": "optimised"}
checks, na = [], []
for p in P:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        vs = []
        for g in c["groups"]:
            t = TECH[g["variant"]] + (" + LeakSanitizer" if g.get("leaks") else "")
            if t not in vs:
                vs.append(t)
        kk = any(g.get("kokkos", True) for g in c["groups"])
        checks.append({
            "property": i,
            "quick_cmd": "python3 run.py %s --tier quick" % i,
            "thorough_cmd": "python3 run.py %s --tier thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": c.get("technique", "runtime monitoring: model-based oracle over seeded histories; builds: " + ", ".join(vs)
                               + ("; monitoring Kokkos stand-in (memory spaces, hostile schedules)" if kk else "")),
            "level": "exploration",
            "level_note": c.get("level_note", LEVEL_NOTES["kokkos" if kk else "core"]),
        })
    else:
        na.append({"property": i, "reason": NOT_APPLICABLE.get(i, "no check built yet")})
m = {
    "version": 1,
    "setup_cmd": "python3 run.py --setup",
    "hooks": {"guard": "none (no hooks were needed: observation is through the public API, the sanitizers and the Kokkos stand-in)",
              "enable": "not applicable", "source_commits": []},
    "checks": checks,
    "not_applicable": na,
    "notes": "All checks build from /repo's working tree into /verif/build (git-ignored) and never write to /repo.",
}
json.dump(m, open(HERE + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
