"""Drives the facets of one check: seeds, shards over processes, evidence, replay."""
import glob
import importlib
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback
import warnings

from . import env
from .core import Ctx, HarnessError, Violation, canon, spec_hash

VERIF = env.VERIF
CPU_LIMIT_CASE = 40.0  # CPU seconds after which one case counts as not terminating


QUICK_SECONDS = 540  # a quick run on a slow or busy machine stops generating after this time


# how often the facets' quick numbers are run, so that every check takes between 15 and 60 s on 8 cores
QUICK_SCALE = dict([(p, 8) for p in ("C11", "C13", "C14", "C34")] + [(p, 5) for p in ("C10", "C16", "C20", "C26", "C27", "C30", "C32", "C33")]
                   + [(p, 3) for p in ("C06", "C07", "C15", "C17", "C18", "C19", "C23", "C24", "C25")])


class OutOfTime(KeyboardInterrupt):
    """The time for this run is used up (no failure; passes through Hypothesis)."""


def _seed_for(seed, facet, shard):
    import hashlib
    return int.from_bytes(hashlib.sha256(("%d/%s/%d" % (seed, facet, shard)).encode()).digest()[:6], "big")


def _on_prof(signum, frame):
    raise Violation("no result within %.0f CPU seconds for one small case (does not terminate)" % CPU_LIMIT_CASE)


def run_case(facet, spec, ctx):
    """Evaluates one case under the CPU guard."""
    signal.signal(signal.SIGPROF, _on_prof)
    signal.setitimer(signal.ITIMER_PROF, CPU_LIMIT_CASE)
    try:
        if spec.get("late"):
            from .build import raise_ids
            raise_ids()
        facet.check(spec, ctx)
    except (Violation, HarnessError, KeyboardInterrupt, SystemExit, MemoryError):
        raise
    except Exception as e:
        if type(e).__module__.startswith("hypothesis"):
            raise
        # the comparison could not digest what the code under test returned
        raise Violation("the outcome could not be evaluated, %s: %s (%s)" % (
            type(e).__name__, str(e)[:200], "; ".join("%s:%d" % (os.path.basename(f.filename), f.lineno) for f in traceback.extract_tb(e.__traceback__)[-3:]))) from e
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)


def load_check(pid):
    return importlib.import_module("checks." + pid.lower())


def _shard(args):
    pid, fname, shard, seed, n, until = args
    import numpy as np
    np.seterr(all="ignore")
    warnings.simplefilter("ignore")
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    from hypothesis import seed as hseed
    import hypothesis.internal.conjecture.engine as engine
    engine.MAX_SHRINKING_SECONDS = 40
    out = dict(facet=fname, shard=shard, cases=0, labels={}, hashes=set(), samples=[], failure=None, error=None, wall=0.0, early=False)
    t0 = time.time()
    try:
        facet = {f.name: f for f in load_check(pid).FACETS}[fname]
        last = [None]
        stop = [False]

        def body(spec):
            ctx = Ctx()
            if until and not stop[0] and time.time() > until:
                raise OutOfTime()
            if not stop[0]:
                out["cases"] += 1
            try:
                run_case(facet, spec, ctx)
            except Violation as v:
                last[0] = (spec, str(v))
                stop[0] = True
                raise
            if stop[0]:
                return
            for k, c in ctx.labels.items():
                out["labels"][k] = out["labels"].get(k, 0) + c
            if ctx.nontrivial:
                h = spec_hash(spec)
                if h not in out["hashes"]:
                    out["hashes"].add(h)
                    if len(out["samples"]) < 2 and len(out["hashes"]) % 7 == 1:
                        out["samples"].append(spec)

        strategy = facet.strategy()
        if shard % 4 == 3:  # these shards run late in a long session: object numbers are large
            strategy = strategy.map(lambda spec: dict(spec, late=True))
        test = given(strategy)(body)
        test = settings(
            max_examples=n, database=None, deadline=None, derandomize=False, report_multiple_bugs=False,
            phases=(Phase.generate, Phase.shrink), print_blob=False, suppress_health_check=list(HealthCheck),
        )(test)
        test = hseed(_seed_for(seed, fname, shard))(test)
        try:
            test()
        except OutOfTime:
            out["early"] = True
        except Violation as v:
            out["failure"] = (last[0][0], last[0][1])
        except BaseException as e:
            if last[0] is not None and "Flaky" in type(e).__name__ or (last[0] is not None and isinstance(e, BaseExceptionGroup)):
                out["failure"] = (last[0][0], last[0][1] + " [did not fail again when repeated: state is left behind by earlier calls]")
            else:
                raise
    except BaseException:
        out["error"] = traceback.format_exc()
    out["wall"] = time.time() - t0
    return out


def known_findings(pid):
    """Lines "finding: <json with property, facet, spec, what>" of known_findings.txt ("fixed:" lines suppress nothing)."""
    path = os.path.join(VERIF, "known_findings.txt")
    out = []
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                if line.startswith("finding:"):
                    k = json.loads(line[len("finding:"):])
                    if k["property"] == pid:
                        out.append(k)
    return out


def write_replay(pid, facet, spec, msg):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s-%08x.json" % (pid, facet, spec_hash(spec) & 0xFFFFFFFF))
    with open(path, "w") as f:
        json.dump(dict(property=pid, facet=facet, message=msg, spec=spec), f, indent=1)
        f.write("\n")
    return path


def replay(pid, path):
    with open(path) as f:
        rec = json.load(f)
    import numpy as np
    np.seterr(all="ignore")
    warnings.simplefilter("ignore")
    facet = {f.name: f for f in load_check(pid).FACETS}[rec["facet"]]
    try:
        run_case(facet, rec["spec"], Ctx())
    except Violation as v:
        print("facet %s: %s" % (facet.name, v))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    print("replay holds: property=%s facet=%s" % (pid, facet.name))
    return 0


def run(pid, tier, seed, jobs=8):
    t0 = time.time()
    mod = load_check(pid)
    import numpy as np
    np.seterr(all="ignore")
    warnings.simplefilter("ignore")
    failures, errors = [], []
    facets = {f.name: f for f in mod.FACETS}

    # saved inputs first: regressions of repaired defects and of earlier misses
    regress = sorted(glob.glob(os.path.join(VERIF, "regress", pid, "*.json")))
    for path in regress:
        with open(path) as f:
            rec = json.load(f)
        try:
            run_case(facets[rec["facet"]], rec["spec"], Ctx())
        except Violation as v:
            failures.append((rec["facet"], rec["spec"], "saved input %s: %s" % (os.path.basename(path), v), path))
        except BaseException:
            errors.append("saved input %s:\n%s" % (path, traceback.format_exc()))

    scale = float(os.environ.get("VERIF_SCALE") or (QUICK_SCALE.get(pid, 2) if tier == "quick" else 1))
    tasks = []
    for f in mod.FACETS:
        n = max(1, int((f.quick if tier == "quick" else f.thorough) * scale))
        k = max(1, min(jobs, f.shards if tier == "quick" else max(f.shards, jobs)))
        per = max(1, n // k)
        for s in range(k):
            tasks.append((pid, f.name, s, seed, per, t0 + QUICK_SECONDS if tier == "quick" else None))
    # long facets first
    tasks.sort(key=lambda t: -t[4])
    if jobs > 1:
        with mp.get_context("fork").Pool(min(jobs, len(tasks)), maxtasksperchild=1) as pool:
            results = pool.map(_shard, tasks, chunksize=1)
    else:
        results = [_shard(t) for t in tasks]

    labels, per_facet, hashes, samples = {}, {}, {}, []
    evaluations = 0
    for r in results:
        pf = per_facet.setdefault(r["facet"], dict(cases=0, labels={}, cpu_s=0.0))
        pf["cases"] += r["cases"]
        pf["cpu_s"] = round(pf["cpu_s"] + r["wall"], 2)
        for k, c in r["labels"].items():
            pf["labels"][k] = pf["labels"].get(k, 0) + c
        hashes.setdefault(r["facet"], set()).update(r["hashes"])
        evaluations += r["cases"]
        if r["early"]:
            pf["labels"]["shards-out-of-time"] = pf["labels"].get("shards-out-of-time", 0) + 1
        if r["failure"]:
            failures.append((r["facet"], r["failure"][0], r["failure"][1], None))
        if r["error"]:
            errors.append("facet %s shard %d:\n%s" % (r["facet"], r["shard"], r["error"]))
    for name in per_facet:
        per_facet[name]["distinct_nontrivial"] = len(hashes[name])
        per_facet[name]["rule"] = facets[name].rule
        for r in results:
            if r["facet"] == name and r["samples"]:
                samples.append(dict(facet=name, spec=r["samples"][0]))
                break
    distinct = sum(len(h) for h in hashes.values())

    known = known_findings(pid)
    reported = []
    for fname, spec, msg, path in failures:
        k = next((k for k in known if k.get("facet") == fname and canon(k.get("spec")) == canon(spec)), None)
        if k is None:
            reported.append((fname, spec, msg, path))
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))

    ev = dict(
        property=pid, tier=tier, seed=seed, level="exploration",
        coverage=dict(
            evaluations=evaluations + len(regress), distinct_nontrivial=distinct,
            rule="Hypothesis generates JSON case specs per facet; " + mod.RULE,
            samples=samples or [dict(note="no non-trivial case")],
            facets=per_facet, saved_inputs_replayed=len(regress),
        ),
        assumptions=getattr(mod, "ASSUMPTIONS", []),
        wall_s=round(time.time() - t0, 2), violations=len(reported),
    )
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")

    for name, pf in per_facet.items():
        print("%s/%s: %d cases, %d distinct non-trivial, %s" % (
            pid, name, pf["cases"], pf["distinct_nontrivial"],
            ", ".join("%s=%d" % kv for kv in sorted(pf["labels"].items()))))
    for fname, spec, msg, path in reported:
        path = path or write_replay(pid, fname, spec, msg)
        print("facet %s: %s" % (fname, msg))
        print("VIOLATION property=%s replay=%s" % (pid, path))
    print("%s %s seed=%d: %d evaluations, %d distinct non-trivial, %.1f s" % (
        pid, tier, seed, evaluations, distinct, time.time() - t0))
    if reported:
        return 1
    if errors:
        for e in errors:
            print("HARNESS ERROR\n" + e, file=sys.stderr)
        return 2
    return 0
