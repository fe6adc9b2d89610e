"""Operator-level mutants of the code under test, to find what the checks miss.

mutate.py list                 -> number of mutants per file
mutate.py tests OUT.jsonl      -> runs the repository's tests on every mutant, writes the survivors
mutate.py checks IN OUT [n]    -> runs the checks mapped to the mutated file on every survivor (scaled down), writes verdicts
Everything happens in scratch copies under /tmp/mut."""
import ast
import json
import os
import random
import re
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor
from queue import Queue

REPO = os.environ.get("MUT_REPO", "/repo")
FILES = ["pyrayt/_pyrayt.py", "pyrayt/components.py", "pyrayt/materials.py", "pyrayt/utils.py", "tinygfx/g3d/csg.py", "tinygfx/g3d/operations.py", "tinygfx/g3d/primitives.py",
         "tinygfx/g3d/renderers.py", "tinygfx/g3d/world_objects.py", "tinygfx/g3d/materials/color.py", "tinygfx/g3d/materials/gooch.py"]
SWAP = {"sin": "cos", "cos": "sin", "min": "max", "max": "min", "minimum": "maximum", "maximum": "minimum", "argmin": "argmax", "argmax": "argmin", "any": "all", "all": "any", "hstack": "vstack",
        "vstack": "hstack", "logical_and": "logical_or", "logical_or": "logical_and", "zeros": "ones", "ones": "zeros", "floor": "ceil", "ceil": "floor", "tan": "sin", "nanmin": "nanmax", "nanmax": "nanmin",
        "arctan": "sin", "arcsin": "sin", "arccos": "cos", "union": "intersect", "intersect": "union", "rotate_x": "rotate_y", "rotate_y": "rotate_z", "rotate_z": "rotate_x", "move_x": "move_y",
        "linspace": "geomspace", "union_all": "union", "repeat": "tile", "tile": "repeat", "array": "asarray", "isclose": "equal", "append": "extend", "insert": "append", "sqrt": "abs", "abs": "positive"}
BIN = {ast.Add: ["-"], ast.Sub: ["+"], ast.Mult: ["/"], ast.Div: ["*"], ast.Pow: ["*"], ast.FloorDiv: ["/"], ast.Mod: ["*"], ast.BitAnd: ["|"], ast.BitOr: ["&"]}
CMP = {ast.Lt: ["<=", ">"], ast.LtE: ["<", ">="], ast.Gt: [">=", "<"], ast.GtE: [">", "<="], ast.Eq: ["!="], ast.NotEq: ["=="], ast.Is: ["is not"], ast.IsNot: ["is"], ast.In: ["not in"], ast.NotIn: ["in"]}


class Src:
    def __init__(self, text):
        self.b = text.encode()
        self.off = [0]
        for line in text.split("\n"):
            self.off.append(self.off[-1] + len(line.encode()) + 1)

    def span(self, n):
        return self.off[n.lineno - 1] + n.col_offset, self.off[n.end_lineno - 1] + n.end_col_offset

    def get(self, n):
        a, e = self.span(n)
        return self.b[a:e].decode()


def mutants(path):
    text = open(os.path.join(REPO, path)).read()
    s, tree = Src(text), ast.parse(text)
    out = []

    def add(a, e, new, kind):
        old = s.b[a:e].decode()
        if old != new:
            out.append((a, e, new, kind))

    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            if n.name in ("__repr__", "__str__"):
                skip.update(id(m) for m in ast.walk(n))
            for a in [n.returns] + [x.annotation for x in n.args.args + n.args.kwonlyargs]:
                if a is not None:
                    skip.update(id(m) for m in ast.walk(a))
        if isinstance(n, ast.AnnAssign):
            skip.update(id(m) for m in ast.walk(n.annotation))
        if isinstance(n, ast.Raise):
            skip.update(id(m) for m in ast.walk(n) if m is not n)
    for n in ast.walk(tree):
        if id(n) in skip:
            continue
        if isinstance(n, ast.BinOp) and type(n.op) in BIN:
            a, e = s.span(n.left)[1], s.span(n.right)[0]
            mid = s.b[a:e].decode()
            m = re.search(r"\*\*|//|[-+*/%&|]", mid)
            if m:
                for r in BIN[type(n.op)]:
                    add(a + m.start(), a + m.end(), r, "binop")
            add(*s.span(n), "(" + s.get(n.left) + ")", "left-only")
            add(*s.span(n), "(" + s.get(n.right) + ")", "right-only")
        elif isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            for r in CMP[type(n.ops[0])]:
                add(*s.span(n), "%s %s %s" % (s.get(n.left), r, s.get(n.comparators[0])), "compare")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not, ast.Invert)):
            add(*s.span(n), "(" + s.get(n.operand) + ")", "unary")
        elif isinstance(n, ast.Constant):
            v = n.value
            if v is True or v is False:
                add(*s.span(n), str(not v), "bool")
            elif isinstance(v, int):
                for r in (v + 1, v - 1) if v not in (0, 1) else ((1, 2) if v == 0 else (0, 2)):
                    add(*s.span(n), "(%d)" % r if r < 0 else str(r), "int")
            elif isinstance(v, float):
                for r in (v * 1.05 if v else 0.05, v * 10 if v else 1.0, 0.0 if v else -0.05):
                    add(*s.span(n), "(%r)" % r, "float")
            elif isinstance(v, str) and len(v) < 12 and v.isidentifier():
                add(*s.span(n), repr(v + "_x"), "str")
            elif v is None:
                pass
        elif isinstance(n, ast.Call):
            f = n.func
            name = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else None
            if name in SWAP:
                a, e = s.span(f)
                add(e - len(name), e, SWAP[name], "call")
            if isinstance(f, ast.Attribute) and name in ("copy", "astype", "flatten", "T", "reshape") and not (isinstance(f.value, ast.Name) and f.value.id in ("np", "copy")):
                add(*s.span(n), s.get(f.value), "method")
            if len(n.args) == 1 and not n.keywords and name not in ("range", "len", "super", "type"):
                add(*s.span(n), "(" + s.get(n.args[0]) + ")", "call-arg")
            for i, k in enumerate(n.keywords):
                if k.arg:
                    parts = [s.get(x) for x in n.args] + ["%s=%s" % (q.arg, s.get(q.value)) if q.arg else "**" + s.get(q.value) for q in n.keywords if q is not k]
                    add(*s.span(n), s.get(f) + "(" + ", ".join(parts) + ")", "kwarg")
            if len(n.args) >= 2 and not any(isinstance(x, ast.Starred) for x in n.args):
                parts = [s.get(x) for x in n.args]
                parts[0], parts[1] = parts[1], parts[0]
                parts += ["%s=%s" % (q.arg, s.get(q.value)) if q.arg else "**" + s.get(q.value) for q in n.keywords]
                add(*s.span(n), s.get(f) + "(" + ", ".join(parts) + ")", "arg-swap")
        elif isinstance(n, (ast.If, ast.While, ast.IfExp)):
            t = s.get(n.test)
            if not isinstance(n, ast.While):
                for r in ("(not (%s))" % t, "True", "False"):
                    add(*s.span(n.test), r, "cond")
        elif isinstance(n, ast.BoolOp):
            j = " or " if isinstance(n.op, ast.And) else " and "
            add(*s.span(n), "(" + j.join("(" + s.get(v) + ")" for v in n.values) + ")", "boolop")
            for v in n.values:
                add(*s.span(n), "(" + s.get(v) + ")", "bool-one")
        elif isinstance(n, ast.AugAssign):
            a, e = s.span(n.target)[1], s.span(n.value)[0]
            mid = s.b[a:e].decode()
            for r in (mid.replace("+=", "-=").replace("*=", "/=") if ("+=" in mid or "*=" in mid) else mid.replace("-=", "+=").replace("/=", "*="), " = "):
                add(a, e, r, "aug")
        elif isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load) and isinstance(n.slice, ast.Slice):
            sl = n.slice
            if sl.lower is not None or sl.upper is not None:
                add(*s.span(n), s.get(n.value) + "[:]", "slice")
        elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and n.attr in ("real", "T"):
            add(*s.span(n), s.get(n.value), "attr")
        if isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr, ast.Delete)) and not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
            add(*s.span(n), "pass", "del-stmt")
        if isinstance(n, ast.Return) and n.value is not None:
            add(*s.span(n), "return None", "ret-none")
    seen, res = set(), []
    for a, e, new, kind in out:
        t = (s.b[:a] + new.encode() + s.b[e:]).decode()
        if t in seen:
            continue
        seen.add(t)
        try:
            compile(t, path, "exec")
        except SyntaxError:
            continue
        line = s.b[:a].count(b"\n") + 1
        res.append(dict(file=path, line=line, kind=kind, a=a, e=e, old=s.b[a:e].decode()[:200], new=new[:2000]))
    return res


ENV = dict(os.environ, HOME="/root", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg", PYTHONWARNINGS="ignore", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")


def pool(n):
    q = Queue()
    for i in range(n):
        d = "/tmp/mut/w%d_%d" % (os.getpid(), i)
        shutil.rmtree(d, ignore_errors=True)
        shutil.copytree(REPO, d, ignore=shutil.ignore_patterns(".git"))
        q.put(d)
    return q


def with_mutant(q, m, fn):
    d = q.get()
    p = os.path.join(d, m["file"])
    orig = open(os.path.join(REPO, m["file"]), "rb").read()
    try:
        with open(p, "wb") as f:
            f.write(orig[:m["a"]] + m["new"].encode() + orig[m["e"]:])
        return fn(d)
    finally:
        with open(p, "wb") as f:
            f.write(orig)
        q.put(d)


def tests(d):
    try:
        r = subprocess.run("ulimit -v 6000000; exec timeout 60 /opt/venv/bin/python -m pytest -q -x -p no:cacheprovider --timeout=30 -o 'python_files=test_*.py int_test_*.py' test", shell=True, cwd=d, env=ENV,
                           stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    except Exception:
        return False
    return r.returncode == 0


CHECKS = {
    "pyrayt/_pyrayt.py": "C30 C02 C05 C22 C31 C35 C01 C12 C21 C23",
    "pyrayt/components.py": "C13 C14 C15 C17 C18 C19 C16 C32",
    "pyrayt/materials.py": "C03 C04 C20 C05 C23",
    "pyrayt/utils.py": "C27 C16 C14 C31",
    "tinygfx/g3d/csg.py": "C29 C08 C09 C10 C32 C11",
    "tinygfx/g3d/operations.py": "C28 C33 C03 C04 C06",
    "tinygfx/g3d/primitives.py": "C33 C34 C06 C07 C10 C28 C23 C25",
    "tinygfx/g3d/renderers.py": "C24 C25 C31 C23",
    "tinygfx/g3d/world_objects.py": "C11 C32 C12 C07 C10 C24 C06 C09 C25 C13",
    "tinygfx/g3d/materials/color.py": "C33 C26 C24", "tinygfx/g3d/materials/gooch.py": "C26 C24",
}


def checks(m, d, scale):
    for pid in CHECKS[m["file"]].split():
        try:
            r = subprocess.run(["timeout", "500", "/opt/venv/bin/python", "run.py", pid], cwd=os.environ.get("VERIF_DIR", "/verif"), capture_output=True, text=True,
                               env=dict(ENV, VERIF_REPO=d, VERIF_SEED="1", VERIF_JOBS="1", VERIF_SCALE=str(scale)))
        except Exception as e:
            return "error %s %s" % (pid, e)
        if r.returncode == 1:
            m2 = re.search(r"^facet (.*)\nVIOLATION", r.stdout, re.M)
            return "caught %s %s" % (pid, m2.group(1)[:120] if m2 else "")
        if r.returncode != 0:
            return "rc%d %s %s" % (r.returncode, pid, r.stderr[-300:])
    return "MISSED"


def main(argv):
    os.makedirs("/tmp/mut", exist_ok=True)
    if argv[0] == "list":
        for f in FILES:
            print(f, len(mutants(f)))
        return
    if argv[0] == "tests":
        ms = [m for f in FILES for m in mutants(f)]
        q = pool(8)
        with ThreadPoolExecutor(8) as ex, open(argv[1], "w") as out:
            for m, ok in zip(ms, ex.map(lambda m: with_mutant(q, m, tests), ms)):
                if ok:
                    out.write(json.dumps(m) + "\n")
                    out.flush()
        return
    ms = [json.loads(x) for x in open(argv[1])]
    n = int(argv[3]) if len(argv) > 3 else 0
    if n:
        random.Random(7).shuffle(ms)
        ms = ms[:n]
    q = pool(8)
    scale = float(os.environ.get("MUT_SCALE", "0.15"))
    with ThreadPoolExecutor(8) as ex, open(argv[2], "w") as out:
        def one(m):
            v = with_mutant(q, m, lambda d: checks(m, d, scale))
            out.write(json.dumps(dict(m, verdict=v)) + "\n")
            out.flush()
        list(ex.map(one, ms))


if __name__ == "__main__":
    main(sys.argv[1:])
