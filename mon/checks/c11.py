"""C11: NASA Ames to NetCDF keeps every value, coordinate and missing mark."""

import os

import nappy

from mon import grid, model, nc, render
from mon.core import Violation, must, must_fail

CASES = {"quick": 2000, "thorough": 30000}
FIXED = (1001, 1010, 1020, 2010, 3010, 4010)
RULE = ("Random contents of every fixed-axis format are rendered, converted with convertNAToNC and the NetCDF file is "
        "read with netCDF4 alone: shape, order of dimensions, coordinates, every scaled value and every missing mark "
        "are compared position by position. Formats with changing axes have to be refused without output.")
REQUIRED = ["ffi-%d" % f for f in FIXED] + ["refused", "missing", "scaled missing", "implied axis", "collision",
                                            "aux values", "axis name clash", "aux of implied axis"]
EOF_MONITOR = False

AXES = ("Time (hours since 2001-01-01 00:00:00)", "time (s)", "Latitude (degrees_north)", "pressure level (hPa)",
        "level", "Altitude (km)", "longitude (degrees_east)", "Elapsed time (s)", "x", "X (m)", "t",
        "distance (m)", "height (m above sea level)", "age (units of time)", "offset (degrees longitude)", "Time (seconds since midnight)", "time since launch (s)",
        "Time (months since 2001-01-01)")


def make(rng, ctx, ffis=FIXED, quarters=False):
    g = model.Gen(rng, digits=rng.choice((3, 6, 15)), big=rng.random() < 0.3, quarters=quarters)
    ffi = rng.choice(ffis)
    naux = rng.choice((0, 1, 3)) if ffi != 1001 else 0
    s = g.content(ffi, naux=naux)
    if rng.random() < 0.6:
        s["xname"] = [rng.choice(AXES) for _ in s["xname"]] if rng.random() < 0.2 else \
            rng.sample(AXES, len(s["xname"]))
    # A scaled value may be the missing value by chance
    for n in range(len(s["vname"])):
        if s["vscal"][n] not in (0.0, 1.0) and rng.random() < 0.15 and s["vmiss"][n]:
            v = s["vmiss"][n] / s["vscal"][n]
            if v * s["vscal"][n] == s["vmiss"][n] and v != s["vmiss"][n]:
                m = rng.choice(s["marks"])
                if isinstance(m["v"][n], list):
                    m["v"][n][rng.randrange(len(m["v"][n]))] = v
                else:
                    m["v"][n] = v
                ctx.feature("collision")
    for n in range(len(s["vname"])):
        for m in s["marks"]:
            if s["vmiss"][n] in (m["v"][n] if isinstance(m["v"][n], list) else [m["v"][n]]):
                ctx.feature("missing")
                if s["vscal"][n] != 1:
                    ctx.feature("scaled missing")
    if ffi == 1020 or ffi in model.GRID and any(a != b for a, b in zip(s["nx"], s["nxdef"])):
        ctx.feature("implied axis")
    if naux and ffi == 1020 and s["nvpm"] > 1:
        ctx.feature("aux of implied axis")
    if naux:
        ctx.feature("aux values")
    names = [x.lower() for x in s["xname"]]
    if any(sum(w in n for n in names) > 1 for w in ("time", "level", "latitude", "longitude")):
        ctx.feature("axis name clash")
    ctx.feature("ffi-%d" % ffi)
    return s


def scaled(values, scal, miss):
    return [None if v == miss else v * scal for v in values]


def compare(name, want, got):
    if len(want) != len(got):
        raise Violation("%s has %d values, expected %d" % (name, len(got), len(want)))
    for i, (a, b) in enumerate(zip(want, got)):
        if (a is None) != (b is None):
            raise Violation("%s, value %d is %s but %s in the NASA Ames file"
                            % (name, i, "missing" if b is None else repr(b), "missing" if a is None else repr(a)))
        if a is not None and not grid.close(a, b):
            raise Violation("%s, value %d is %r, expected %r" % (name, i, b, a))


def find(data, attr, number):
    """The NetCDF variables that come from the given (auxiliary) variable."""
    return [k for k, v in data.vars.items() if attr in v["attrs"] and int(v["attrs"][attr]) == number]


def judge(s, data, ctx, variables=None, aux_variables=None):
    """The whole content against the NetCDF file."""
    axes = grid.expand(s)
    wanted = [("nasa_ames_var_number", n, s["vname"][n], scaled(grid.flat(s, n), s["vscal"][n], s["vmiss"][n]), axes)
              for n in (range(len(s["vname"])) if variables is None else variables)]
    if s["ffi"] != 1001:
        wanted += [("nasa_ames_aux_var_number", n, s["aname"][n],
                    scaled(grid.aux(s, n), s["ascal"][n], s["amiss"][n]), [[m["x"] for m in s["marks"]]])
                   for n in (range(len(s["aname"])) if aux_variables is None else aux_variables)]
    for attr, n, name, values, own in wanted:
        found = find(data, attr, n)
        if len(found) != 1:
            raise Violation("%d NetCDF variables for %r (%s %d)" % (len(found), name, attr, n), variables=list(data.vars))
        v = data.vars[found[0]]
        shape = tuple(len(a) for a in own)
        if v["data"].shape != shape:
            raise Violation("%r has the shape %r, expected %r" % (name, v["data"].shape, shape))
        for dim, want in zip(v["dims"], own):
            if dim not in data.vars:
                raise Violation("no coordinates for dimension %s of %r" % (dim, name))
            got = data.flat(dim)
            if None in got:
                raise Violation("missing coordinates of dimension %s of %r" % (dim, name), got=got)
            diff = grid.axis_difference(want, got)
            if diff:
                raise Violation("axis %s of %r: %s" % (dim, name, diff), want=want, got=got)
        compare("%r" % name, values, data.flat(found[0]))
        ctx.count("values compared", len(values))
        ctx.count("missing values compared", values.count(None))
    return wanted


def case(rng, i, ctx):
    if rng.random() < 0.06:
        ffi = rng.choice((2110, 2160, 2310))
        s = model.Gen(rng).content(ffi)
        path = render.write(ctx.path("in.na"), render.render(s, render.Wild(rng)))
        ctx.seen(repr(s))
        out = ctx.path("out.nc")
        must_fail("converting FFI %d to NetCDF" % ffi, nappy.convertNAToNC, path, out, time_warning=False)
        left = sorted(os.listdir(ctx.dir))
        if left != ["in.na"]:
            raise Violation("a refused conversion of FFI %d left %r" % (ffi, left))
        ctx.feature("refused")
        return
    s = make(rng, ctx)
    text = render.render(s, render.Wild(rng) if rng.random() < 0.5 else render.Layout())
    os.mkdir(ctx.path("d.na.x"))
    path = render.write(ctx.path(rng.choice(("in.na", "in.na", "d.na.x/in.na", "x.na.na"))), text)
    ctx.seen(text)
    ctx.sample = text[:1500]
    out = ctx.path("out.nc")
    if rng.random() < 0.3:
        got = must("convertNAToNC", nappy.convertNAToNC, path, time_warning=False)
        out = path[:-3] + ".nc"
        if got != out:
            raise Violation("the default name of the output is %r, expected %r" % (got, out))
    else:
        must("convertNAToNC", nappy.convertNAToNC, path, out, time_warning=False)
    if not os.path.exists(out):
        raise Violation("no output file after a conversion that reports success")
    data = nc.Nc(out)
    judge(s, data, ctx)
    total = len(s["vname"]) + len(s.get("aname", ()))
    if len(data.data_vars()) != total:
        raise Violation("%d variables in the NetCDF file, expected %d" % (len(data.data_vars()), total),
                        variables=list(data.vars))
    ctx.count("conversions")
