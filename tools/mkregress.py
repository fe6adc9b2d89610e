#!/usr/bin/env python3
"""Reverts each repair in a scratch worktree and runs the checks on it: shows that they report the defect again, and
saves the shrunk input as regress/<id>/<commit>.json.   mkregress.py COMMIT ID [ID ...]"""
import glob
import json
import os
import re
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main(commit, ids):
    wt = "/tmp/wt_%s" % commit
    subprocess.run(["git", "-C", "/repo", "worktree", "add", "-q", "--detach", wt], check=True)
    try:
        r = subprocess.run(["git", "-C", wt, "revert", "-n", commit], capture_output=True, text=True)
        if r.returncode:
            print("%s: revert conflicts" % commit)
            return
        for pid in ids:
            for seed in ("1", "2", "3"):
                r = subprocess.run(["/opt/venv/bin/python", "run.py", pid], cwd=VERIF, capture_output=True, text=True, env=dict(os.environ, VERIF_REPO=wt, VERIF_SEED=seed))
                m = re.findall(r"^facet (\S+): (.*)\nVIOLATION property=\S+ replay=(\S+)$", r.stdout, re.M)
                if m:
                    break
            if not m:
                print("%s: %s silent (exit %d) %s" % (commit, pid, r.returncode, r.stderr[-300:]))
                continue
            facet, msg, path = min(m, key=lambda q: len(json.dumps(json.load(open(q[2]))["spec"])))
            rec = json.load(open(path))
            os.makedirs("%s/regress/%s" % (VERIF, pid), exist_ok=True)
            with open("%s/regress/%s/%s.json" % (VERIF, pid, commit), "w") as f:
                json.dump(dict(facet=rec["facet"], message=rec["message"], spec=rec["spec"]), f)
                f.write("\n")
            print("%s: %s %s %s" % (commit, pid, facet, msg[:200]))
    finally:
        subprocess.run(["git", "-C", "/repo", "worktree", "remove", "--force", wt])


main(sys.argv[1], sys.argv[2:])
