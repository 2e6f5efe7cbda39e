"""Prints the table of planted changes of DESIGN.md from seeded/*/meta.json"""
import glob, json, os
by = {}
for f in sorted(glob.glob("/verif/seeded/*/meta.json")):
    m = json.load(open(f))
    by.setdefault(m["property"], []).append((os.path.basename(os.path.dirname(f)), m["needs"]))
print("| check | planted changes (what each needs in order to show) |\n|---|---|")
for p in sorted(by):
    print("| %s | %s |" % (p, "; ".join("`%s` (%s)" % (i, n.replace("|", "\\|")) for i, n in by[p])))
