"""Facets, violations and per-case bookkeeping shared by all checks."""
import contextlib
import json
import traceback
import zlib

from .units import units as scale_units


class Violation(AssertionError):
    """The property does not hold for this case."""


class HarnessError(Exception):
    """The machinery itself is wrong (never reported as a violation)."""


@contextlib.contextmanager
def sut(what=""):
    """Runs code under test: an exception it raises on a valid input is a violation."""
    try:
        yield
    except (Violation, HarnessError):
        raise
    except (KeyboardInterrupt, SystemExit, MemoryError):
        raise
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = ""
        for fr in reversed(tb):
            if "/verif/" not in fr.filename:
                where = " at %s:%s" % (fr.filename.rsplit("/", 1)[-1], fr.name)
                break
        raise Violation("%s raised %s: %s%s" % (what or "call", type(e).__name__, str(e)[:200], where)) from e


def fail(msg, *args):
    raise Violation(msg % args if args else msg)


def require(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


class Ctx:
    """Counters for one case; merged by the runner."""

    def __init__(self):
        self.labels = {}
        self.nontrivial = False

    def label(self, name, n=1):
        self.labels[name] = self.labels.get(name, 0) + n

    def nt(self, cond=True):
        if cond:
            self.nontrivial = True


class Facet:
    def __init__(self, name, strategy, check, quick=200, thorough=4000, rule="", shards=1, units=None):
        self.name = name
        # zero-argument callable, built lazily in the worker; units: names of further lengths in the spec (see units.py)
        self.strategy = strategy if units is None else lambda: scale_units(strategy(), units)
        self.check = check  # check(spec, ctx)
        self.quick = quick
        self.thorough = thorough
        self.rule = rule
        self.shards = shards


def canon(spec):
    return json.dumps(spec, sort_keys=True, separators=(",", ":"))


def spec_hash(spec):
    s = canon(spec).encode()
    return (zlib.crc32(s) << 32) | zlib.adler32(s)
