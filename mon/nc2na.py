"""Converting NetCDF contents to NASA Ames and judging the files written, independently of nappy."""

import nappy

from mon import grid, nc, refparse
from mon.core import Violation, must


def parse_file(path, keep=False):
    try:
        text = open(path).read()
    except FileNotFoundError:
        raise Violation("the file %s, which is reported as written, does not exist" % path)
    try:
        spec = refparse.parse(text)
        return spec if keep else refparse.strip_text(spec)
    except refparse.NotConformant as e:
        raise Violation("%s does not conform: %s" % (path.rsplit("/", 1)[-1], e), text=text[:4000])


def values_of(spec, kind, n):
    """All values of a (main or auxiliary) variable of the file and its declared missing value."""
    if kind == "aux":
        return grid.aux(spec, n), spec["amiss"][n], spec["ascal"][n]
    if spec["ffi"] == 2110:
        return [row[n + 1] for m in spec["marks"] for row in m["v"]], spec["vmiss"][n], spec["vscal"][n]
    return grid.flat(spec, n), spec["vmiss"][n], spec["vscal"][n]


def axes_of(spec):
    """Axes slowest first; for 2110 and 2310 they have to be the same at every mark."""
    x = [m["x"] for m in spec["marks"]]
    if spec["ffi"] == 2110:
        inner = [[row[0] for row in m["v"]] for m in spec["marks"]]
    elif spec["ffi"] == 2310:
        inner = [[m["aux"][1] + k * m["aux"][2] for k in range(len(m["v"][0]))] for m in spec["marks"]]
    else:
        return grid.expand(spec)
    if any(i != inner[0] for i in inner):
        raise Violation("the second axis changes from mark to mark")
    return [x, inner[0]]


NHIDDEN = {2110: 1, 2310: 3}


def variables_of(spec):
    """[(name, "main"|"aux", index)]; auxiliary variables that only describe an axis left out."""
    out = [(name, "main", n) for n, name in enumerate(spec["vname"])]
    if spec["ffi"] != 1001:
        out += [(name, "aux", n) for n, name in enumerate(spec["aname"]) if n >= NHIDDEN.get(spec["ffi"], 0)]
    return out


def by_name(ds, specs=None):
    return {nc.var_na_name(v): v for v in (specs or ds["vars"]) if v["dims"]}


def printed(x, fmt):
    return float(fmt % x)


def tolerance(values):
    return 2e-9 * max([abs(v) for v in values] + [0])


def judge_axis(d, got, got_name, fmt, where):
    if got_name != nc.dim_na_name(d):
        raise Violation("%s: the axis for dimension %s is called %r, expected %r"
                        % (where, d["name"], got_name, nc.dim_na_name(d)))
    want = [printed(v, fmt) for v in d["values"]]
    if len(want) != len(got):
        raise Violation("%s: axis %r has %d values, expected %d" % (where, got_name, len(got), len(want)))
    size = max([abs(v) for v in d["values"]] + [0])
    step = max([abs(b - a) for a, b in zip(d["values"], d["values"][1:])] + [0])
    # stated values follow the float format, implied ones follow from the printed first values
    err = max([abs(a - b) for a, b in zip(want, d["values"])] + [0]) * 2 + 1e-9 * size + (1e-6 * step if d["time"] else 0)
    if d["dtype"] == "f4":
        err += 1.2e-7 * size        # the resolution of the coordinate's own number type
    for i, (a, b) in enumerate(zip(d["values"], got)):
        if abs(a - b) > err:
            raise Violation("%s: axis %r, value %d is %r, expected %r" % (where, got_name, i, b, a), want=d["values"],
                            got=got)


def judge_values(v, got, miss, scal, fmt, where, ctx):
    want = nc.decoded(v)
    if len(want) != len(got):
        raise Violation("%s has %d values, expected %d" % (where, len(got), len(want)))
    for i, (a, b) in enumerate(zip(want, got)):
        if a is None:
            if b != miss:
                raise Violation("%s, value %d is missing but stated as %r; the declared missing value is %r"
                                % (where, i, b, miss))
            continue
        p = printed(a, fmt)
        if b == p:
            if b == miss and a != p:
                continue                # a real value that prints as the missing value: the format's choice
            if b == miss:
                raise Violation("%s, value %d is %r, which is declared as missing" % (where, i, b))
            continue
        if b * scal == p:
            continue
        tol = 1e-5 * max(abs(a), abs(v["pack"][1]), abs(v["pack"][0]) * 1000) if v["pack"] else 0
        if v["pack"] and abs(b - a) <= tol + 2 * abs(p - a):
            continue
        raise Violation("%s, value %d is %r, expected %r" % (where, i, b, a))
    ctx.count("values compared", len(want))
    ctx.count("missing marks compared", want.count(None))


def judge_file(ds, spec, fmt, ctx, known=None, where=""):
    """Every variable of the file against the NetCDF content. Returns the names of the variables."""
    known = known or by_name(ds)
    axes = axes_of(spec)
    names = spec["xname"][::-1]
    found = []
    for name, kind, n in variables_of(spec):
        w = "%s%s variable %r (FFI %d)" % (where, kind, name, spec["ffi"])
        if name not in known:
            raise Violation("%s is not in the NetCDF file" % w, expected=sorted(known))
        v = known[name]
        dims = [nc.dim_of(ds, d) for d in v["dims"]]
        own, own_names = (axes[:1], names[:1]) if kind == "aux" else (axes, names)
        if spec["ffi"] == 1020 and kind == "aux":
            own = [[m["x"] for m in spec["marks"]]]
        if len(dims) != len(own):
            raise Violation("%s has %d dimensions in the NetCDF file" % (w, len(dims)))
        for d, got, got_name in zip(dims, own, own_names):
            if spec["ffi"] == 1020 and kind == "aux":
                got_name = nc.dim_na_name(d)
            judge_axis(d, got, got_name, fmt, w)
        values, miss, scal = values_of(spec, kind, n)
        judge_values(v, values, miss, scal, fmt, w, ctx)
        found.append(name)
        ctx.count("%s variables" % kind)
    # the stated increment of the marks has to be true
    x = axes[0] if spec["ffi"] != 1020 else [m["x"] for m in spec["marks"]]
    dx = spec["dx"][-1]
    if dx and spec["ffi"] != 1020 and len(x) > 1:
        size = max(abs(v) for v in x)
        for a, b in zip(x, x[1:]):
            if abs((b - a) - dx) > 1e-6 * abs(dx) + 1e-8 * size and "%.10g" in fmt + "%.10g" and fmt not in LOSSY:
                raise Violation("%sthe increment is declared as %r but marks are %r and %r" % (where, dx, a, b))
    return found


LOSSY = ("%12.6f", "%.4e", "%g", "%.5g", "%8.3f")
FORMATS = ("%.10g", "%.10g", "%.17g", "%s", "%.12e", "%25.17e") + LOSSY


def convert(path, out=None, **kw):
    args = (path,) if out is None else (path, out)
    return must("convertNCToNA(%r)" % (kw,), nappy.convertNCToNA, *args, **kw)
