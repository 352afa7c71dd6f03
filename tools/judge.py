"""Runs the check of its property (or the given checks) against every planted bug and prints what it says."""
import json, os, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
checks = None
if "--checks" in args:
    i = args.index("--checks"); checks = args[i + 1].split(","); args = args[:i] + args[i + 2:]
ids = args or sorted(os.listdir(V + "/seeded"))
env = dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick")
assert not subprocess.check_output(["git", "-C", "/repo", "status", "--porcelain"])
for id in ids:
    d = V + "/seeded/" + id
    prop = json.load(open(d + "/meta.json"))["property"]
    subprocess.check_call(["git", "-C", "/repo", "apply", d + "/patch.diff"])
    try:
        for c in checks or [prop]:
            t = time.time()
            p = subprocess.run(["python3", V + "/check.py", c, "quick"], cwd=V, env=env, capture_output=True, text=True)
            v = [l for l in p.stdout.splitlines() if l.startswith("VIOLATION")]
            print("%-32s %s rc=%d %3ds %s %s" % (id, c, p.returncode, time.time() - t, "caught" if p.returncode == 1 and v and "property=%s " % c in v[0] else "MISSED",
                  "" if p.returncode in (0, 1) else (p.stdout + p.stderr)[-500:]), flush=True)
    finally:
        subprocess.check_call(["git", "-C", "/repo", "checkout", "--", "."])
