"""Writes MANIFEST.json."""
import json, sys
PY = "/opt/venv/bin/python"
CLAIMED = {
    "C01": "one process, long seeded histories against a model vector",
    "C02": "several process images on one simulated disk, seeded schedules, kills and write faults",
    "C03": "storage faults and kills at seeded file system calls",
    "C04": "several process images deleting, cleaning and creating; every unlink attributed",
    "C05": "scripted reported memory and failing allocations",
    "C06": "threads scheduled line by line",
    "C07": "seeded rule set histories with storage faults against a model",
    "C08": "fit/eval/predict with storage faults and retries against a reference implementation",
    "C09": "save/load with faults and kills at seeded file system calls",
    "C10": "threshold histories with read faults against a reference implementation",
    "C11": "paired simulated executions differing only in the environment",
    "C12": "rule conjunction in all storage modes with faults",
    "C13": "trees turned into rule sets in all storage modes with faults",
}
DONE = sys.argv[1:] or list(CLAIMED)
NA = []
checks = []
for c, n in CLAIMED.items():
    if c not in DONE:
        NA.append({"property": c, "reason": "check under construction"})
        continue
    checks.append({"property": c, "quick_cmd": f"{PY} /verif/check.py {c} --tier quick",
                   "thorough_cmd": f"{PY} /verif/check.py {c} --tier thorough",
                   "technique": "deterministic simulation with fault injection: seeded search over histories, "
                                "schedules and faults (" + n + ")",
                   "level": "exploration",
                   "level_note": "seeded sampling of executions of the real code; no exhaustiveness claimed",
                   "evidence_file": f"/verif/evidence/{c}.json"})
m = {"version": 1, "setup_cmd": f"{PY} /verif/check.py --selftest", "checks": checks, "not_applicable": NA,
     "notes": "No hooks in /repo: the seams (file system, clock, randomness, memory, threads) are put in place by the "
              "simulator when it loads ruleskit from /repo's working tree. /repo carries fix: commits only."}
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
