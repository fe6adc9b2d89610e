#!/opt/venv/bin/python
"""run.py Cnn [--replay FILE] | --selfcheck | --all     (tier: VERIF_TIER, seed: VERIF_SEED)"""
import os
import sys

_WANT = {"PYTHONHASHSEED": "0", "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1", "PYTHONDONTWRITEBYTECODE": "1"}
if any(os.environ.get(k) != v for k, v in _WANT.items()):
    os.environ.update(_WANT)
    os.execv(sys.executable, [sys.executable] + sys.argv)

HERE = os.path.dirname(os.path.abspath(__file__))
os.chdir(HERE)
sys.path.insert(0, HERE)


def main(argv):
    from vlib import env, runner
    tier = os.environ.get("VERIF_TIER", "quick")
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    jobs = int(os.environ.get("VERIF_JOBS", "8"))
    if argv and argv[0] == "--selfcheck":
        import json
        with open("MANIFEST.json") as f:
            ids = [c["property"] for c in json.load(f)["checks"]]
        from vlib import selfcheck
        selfcheck.main(ids)
        return 0
    pid = argv[0].upper()
    if "--replay" in argv:
        return runner.replay(pid, argv[argv.index("--replay") + 1])
    return runner.run(pid, tier, seed, jobs)


if __name__ == "__main__":
    try:
        rc = main(sys.argv[1:])
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
