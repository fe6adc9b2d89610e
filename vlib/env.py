"""Process environment: code under test from /repo, Hypothesis from the tool wheelhouse.

The code under test needs the numpy of /opt/venv; Hypothesis lives in another environment that
carries a newer numpy.  A path finder limited to the pure-python packages Hypothesis needs keeps the
two apart (copies of the sources are not taken: the finder loads them where they are installed)."""
import os
import sys
import importlib.abc
import importlib.machinery

os.environ.setdefault("MPLBACKEND", "Agg")
os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
if "MPLCONFIGDIR" not in os.environ and os.path.isdir("/opt/pyrayt/mplconfig"):
    os.environ["MPLCONFIGDIR"] = "/opt/pyrayt/mplconfig"
sys.dont_write_bytecode = True

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

_SITE = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
_WHEELS = "/opt/veriftools/wheels"
_NAMES = ("hypothesis", "_hypothesis_pytestplugin", "_hypothesis_ftz_detector",
          "_hypothesis_globals", "sortedcontainers", "attr", "attrs")


class _ToolFinder(importlib.abc.MetaPathFinder):
    def __init__(self, paths):
        self.paths = paths

    def find_spec(self, name, path=None, target=None):
        if "." not in name and (name in _NAMES or name.startswith("_hypothesis")):
            return importlib.machinery.PathFinder.find_spec(name, self.paths)
        return None


def setup():
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    paths = [_SITE] if os.path.isdir(os.path.join(_SITE, "hypothesis")) else []
    if not paths:
        import glob
        import tempfile
        import zipfile
        tmp = tempfile.mkdtemp(prefix="verif_hyp_")
        for pat in ("hypothesis-*cp312*", "hypothesis-*none-any*", "sortedcontainers-*"):
            for whl in sorted(glob.glob(os.path.join(_WHEELS, pat + ".whl")))[-1:]:
                zipfile.ZipFile(whl).extractall(tmp)
        paths = [tmp]
    sys.meta_path.append(_ToolFinder(paths))
    import hypothesis  # noqa: F401


setup()
