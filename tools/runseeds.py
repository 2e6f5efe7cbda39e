#!/usr/bin/env python3
"""tools/runseeds.py [ID…]: apply each planted bug to /repo, run its property's quick check, undo it.
Prints what caught it; results go to build/seedresults.json. Not used by any check."""
import json, os, subprocess, sys, time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
R = os.path.join(V, "build", "seedresults.json")


def main():
    res = json.load(open(R)) if os.path.exists(R) else {}
    ids = sys.argv[1:] or [s for s in sorted(os.listdir(os.path.join(V, "seeded"))) if s not in res]
    for s in ids:
        d = os.path.join(V, "seeded", s)
        prop = json.load(open(os.path.join(d, "meta.json")))["property"]
        subprocess.run(["git", "-C", REPO, "checkout", "-q", "--", "."], check=True)
        subprocess.run(["git", "-C", REPO, "apply", os.path.join(d, "patch.diff")], check=True)
        t = time.time()
        try:
            r = subprocess.run([sys.executable, os.path.join(V, "run.py"), prop, "quick"], cwd=V,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        finally:
            subprocess.run(["git", "-C", REPO, "checkout", "-q", "--", "."], check=True)
        caught = r.returncode == 1 and "VIOLATION property=%s" % prop in r.stdout
        word = "caught" if caught else "MISSED" if r.returncode == 0 else "ERROR %d" % r.returncode
        res[s] = dict(property=prop, result=word, seconds=round(time.time() - t, 1), head=r.stdout[:300])
        print("%-34s %s %-7s %5.1f s  %s" % (s, prop, word, time.time() - t, r.stdout[:110].replace("\n", " ")), flush=True)
        json.dump(res, open(R, "w"), indent=1)


main()
