"""catch.py [bug ids]: apply each planted bug to /repo, run its property's quick check (or --prop), undo."""
import json, os, subprocess, sys, time
S = "/verif/seeded"
args = [a for a in sys.argv[1:] if not a.startswith("--")]
opt = [a for a in sys.argv[1:] if a.startswith("--")]
for b in sorted(args or os.listdir(S)):
    prop = json.load(open(f"{S}/{b}/meta.json"))["property"]
    assert not subprocess.run("git -C /repo status --porcelain -uno", shell=True, capture_output=True, text=True).stdout
    r = subprocess.run(f"git -C /repo apply {S}/{b}/patch.diff", shell=True, capture_output=True, text=True)
    if r.returncode:
        print(b, "DOES NOT APPLY", r.stderr[:200])
        continue
    t = time.time()
    try:
        r = subprocess.run(["/opt/venv/bin/python", "/verif/check.py", prop, *opt], capture_output=True, text=True)
    finally:
        subprocess.run("git -C /repo checkout -- .", shell=True)
    print(f"{b:34s} {prop} {'caught' if r.returncode == 1 and 'VIOLATION property=' + prop in r.stdout else 'MISSED'} "
          f"exit {r.returncode} {time.time() - t:.0f}s  {r.stderr.strip().splitlines()[0][:150] if r.stderr.strip() else ''}",
          flush=True)
