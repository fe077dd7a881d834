"""What NASA Ames contents on fixed axes hold, as plain arrays: names, axes and values by position."""

from mon.model import GRID


def expand(spec):
    """The values of every axis, slowest first (implied ones computed)."""
    x = [m["x"] for m in spec["marks"]]
    ffi = spec["ffi"]
    if ffi == 1020:
        dx = spec["dx"][0]
        return [[a + p * dx for a in x for p in range(spec["nvpm"])]]
    if ffi in GRID:
        axes = []
        for n, xdef, dx in zip(spec["nx"], spec["xdef"], spec["dx"]):
            if len(xdef) == n:
                axes.append(list(xdef))
            else:
                axes.append(list(xdef) + [xdef[-1] + (k + 1) * dx for k in range(n - len(xdef))])
        return [x] + axes[::-1]
    return [x]


def flat(spec, n):
    """All values of variable n in the order of positions, slowest axis first."""
    out = []
    for m in spec["marks"]:
        v = m["v"][n]
        out += v if isinstance(v, list) else [v]
    return out


def aux(spec, n):
    return [m["aux"][n] for m in spec["marks"]]


def close(a, b, rel=1e-12, abs_=0.0):
    return a == b or abs(a - b) <= max(rel * max(abs(a), abs(b)), abs_)


def axis_difference(want, got, rel=1e-12):
    """None or how two axes differ; a tolerance of rel times the size of the axis' values."""
    if len(want) != len(got):
        return "has %d values, expected %d" % (len(got), len(want))
    size = max([abs(v) for v in want] + [0])
    for i, (a, b) in enumerate(zip(want, got)):
        if not abs(a - b) <= rel * size and a != b:
            return "value %d is %r, expected %r" % (i, b, a)
    return None
