"""Changes the unit of length of a case spec: the same scene drawn in metres or millimetres."""
from hypothesis import strategies as st

LEAVES = ("sphere", "cyl", "par", "box", "plane")
MOVES = ("mx", "my", "mz")
K = st.sampled_from([1, 1, 1, 1, 1, 1, 1, 10, 25.4, 100, 0.1])


def num(x):
    return isinstance(x, (int, float)) and not isinstance(x, bool)


def mul(x, k):
    if num(x):
        return x * k
    if isinstance(x, list):
        return [mul(y, k) for y in x]
    return x  # None, "inf"


def rescale(x, k, keys=()):
    if isinstance(x, list):
        if len(x) == 4 and x[0] == "move" and all(num(y) for y in x[1:]) or len(x) == 2 and x[0] in MOVES and num(x[1]):
            return [x[0]] + [y * k for y in x[1:]]
        if len(x) == 2 and x[0] == "tf":
            return ["tf", [y * k if i in (3, 7, 11) else y for i, y in enumerate(x[1])]]
        return [rescale(y, k, keys) for y in x]
    if isinstance(x, dict):
        out = {}
        for key, v in x.items():
            if key == "p" and x.get("kind") in LEAVES + ("line", "circle") or key in ("o", "back") or key in keys:
                out[key] = mul(v, k)
            elif key in ("lens", "mirror") and isinstance(v, dict):
                out[key] = {a: mul(b, k) if a in ("r", "f", "t", "ap", "off") else b for a, b in v.items()}
            else:
                out[key] = rescale(v, k, keys)
        return out
    return x


def units(strategy, keys=()):
    """About one case in three in another unit; the factor is kept under "unit"."""
    return st.tuples(strategy, K).map(lambda t: t[0] if t[1] == 1 else dict(rescale(t[0], t[1], keys), unit=t[1]))
