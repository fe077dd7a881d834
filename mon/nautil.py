"""Driving nappy's NASA Ames reading and writing."""

import copy

import nappy

from mon import model
from mon.core import must

PRECISE = ("%.17g", "%.17e", "%25.17e", "%s", "%r", "%-26.17g", "%+.17g")
LOSSY = ("%.10g", "%g", "%12.6f", "%.4e", "%8.3f", "%.12g", "%10.5g", "%.0f", "%.3g")
BLANK_DELIMITERS = ("    ", " ", "\t", "  ", "\t\t", " \t ", "        ")
DELIMITERS = BLANK_DELIMITERS + (",", ";", ", ", "|", " | ", ":", " ,", "; ")


def rounded(s, fmt):
    """The content with each number of the axes and data as the float format prints it."""
    def f(o):
        if isinstance(o, list):
            return [f(i) for i in o]
        return o if isinstance(o, str) else float(fmt % o)
    s = copy.deepcopy(s)
    if "xdef" in s:
        s["xdef"] = f(s["xdef"])
    for m in s["marks"]:
        for k in ("x", "aux", "v"):
            if k in m:
                m[k] = f(m[k])
    return s


def counts_survive(s, fmt):
    """Whether the numbers of values per mark, which are data, can be read back in this format."""
    if s["ffi"] not in (2110, 2160, 2310):
        return True
    return all(float(fmt % m["aux"][0]) == m["aux"][0] for m in s["marks"])


def write_dict(path, d, **options):
    f = must("opening for writing", nappy.openNAFile, path, "w", na_dict=d)
    must("write", f.write, **options)
    must("close", f.close)
    with open(path) as fh:
        return fh.read()


def user_dict(rng, s, numpy_ok=True):
    """The contents dictionary as a user may build it."""
    d = model.to_dict(s)
    d["NLHEAD"] = rng.choice((0, 1, 35, 100))
    k = rng.random()

    def ints(o):
        if isinstance(o, list):
            return [ints(i) for i in o]
        return int(o) if isinstance(o, float) and o == int(o) and abs(o) < 1e9 and str(o) != "-0.0" else o
    if k < 0.25:
        for key in ("X", "V", "A", "VSCAL", "VMISS", "DX", "ASCAL", "AMISS"):
            if key in d:
                d[key] = ints(d[key])
    elif k < 0.35 and numpy_ok and s["ffi"] in (1001, 1010, 1020, 2010, 3010, 4010):
        import numpy as np
        d["V"] = [np.array(v, dtype=float) for v in d["V"]]
    elif k < 0.45:
        d["DATE"], d["RDATE"] = tuple(d["DATE"]), tuple(d["RDATE"])
    return d
