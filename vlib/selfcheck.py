"""Smoke test of the machinery: imports every check and evaluates a few generated cases of every facet."""
import importlib
import os
import sys

from . import env


def main(ids):
    import numpy as np
    import pyrayt
    import hypothesis
    print("numpy", np.__version__, "hypothesis", hypothesis.__version__, "pyrayt", os.path.dirname(pyrayt.__file__))
    assert os.path.realpath(pyrayt.__file__).startswith(os.path.realpath(env.REPO)), "code under test is not imported from " + env.REPO
    for pid in ids:
        mod = importlib.import_module("checks." + pid.lower())
        assert mod.FACETS and mod.RULE, pid
        for f in mod.FACETS:
            f.strategy()
    print("%d checks import and build their strategies" % len(ids))
